//! A miniature Solana runtime: an account database, the loader's account
//! serialization, the privilege and ownership rules of the runtime, and CPI
//! into the real SPL token program and an emulated system program.
//!
//! Both on-chain programs run through their real `entry` points; nothing of
//! them is mocked.

use solana_program::{
    account_info::AccountInfo,
    clock::Clock,
    entrypoint::{ProgramResult, MAX_PERMITTED_DATA_INCREASE},
    instruction::Instruction,
    program_error::ProgramError,
    program_stubs,
    pubkey::Pubkey,
    rent::Rent,
    system_instruction::SystemInstruction,
    system_program,
};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Once};

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Acc {
    pub lamports: u64,
    pub data: Arc<Vec<u8>>,
    pub owner: Pubkey,
    pub executable: bool,
}

impl Acc {
    pub fn new(lamports: u64, data: Vec<u8>, owner: Pubkey) -> Self {
        Self {
            lamports,
            data: Arc::new(data),
            owner,
            executable: false,
        }
    }
    pub fn empty() -> Self {
        Self::new(0, vec![], system_program::ID)
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Meta {
    pub key: Pubkey,
    pub signer: bool,
    pub writable: bool,
    /// name of the account in the instruction, for reports
    pub role: &'static str,
}

#[derive(Clone, Debug)]
pub struct Ix {
    pub program: Pubkey,
    pub name: &'static str,
    pub metas: Vec<Meta>,
    pub data: Vec<u8>,
    /// decoded arguments, for the oracles
    pub nums: Vec<u64>,
    pub keys: Vec<Pubkey>,
    pub limits: Vec<(Pubkey, u64)>,
    /// not tampered with by the hostile generator
    pub plain: bool,
    /// where each number is in `data`
    pub num_at: Vec<usize>,
}

/// A program of the attacker's which accepts every call and does nothing.
pub fn fake_program() -> Pubkey {
    Pubkey::new_from_array([77; 32])
}

impl Ix {
    pub fn num_offset(&self, i: usize) -> Option<usize> {
        self.num_at.get(i).copied()
    }
    pub fn key(&self, role: &str) -> Pubkey {
        self.metas
            .iter()
            .find(|m| m.role == role)
            .map(|m| m.key)
            .unwrap_or_else(|| panic!("no role {} in {}", role, self.name))
    }
    pub fn meta(&self, role: &str) -> &Meta {
        self.metas
            .iter()
            .find(|m| m.role == role)
            .unwrap_or_else(|| panic!("no role {} in {}", role, self.name))
    }
    pub fn set(&mut self, role: &str, key: Pubkey) {
        self.metas
            .iter_mut()
            .find(|m| m.role == role)
            .unwrap_or_else(|| panic!("no role {} in {}", role, self.name))
            .key = key;
    }
    /// As the transaction level merges privileges of repeated accounts.
    pub fn signed(&self, key: &Pubkey) -> bool {
        self.metas.iter().any(|m| m.key == *key && m.signer)
    }
    pub fn writable(&self, key: &Pubkey) -> bool {
        self.metas.iter().any(|m| m.key == *key && m.writable)
    }
}

#[derive(Clone, Debug)]
pub struct Change {
    pub key: Pubkey,
    pub pre: Acc,
    pub post: Acc,
}

#[derive(Clone, Debug)]
pub struct TxResult {
    pub ok: bool,
    pub err: String,
    pub panicked: bool,
    pub changed: Vec<Change>,
    pub logs: Vec<String>,
}

#[derive(Clone)]
pub struct Bank {
    pub accs: BTreeMap<Pubkey, Acc>,
    pub slot: u64,
}

pub const LAMPORTS: u64 = 1_000_000_000_000;

struct Snap {
    lamports: u64,
    data: Arc<Vec<u8>>,
    owner: Pubkey,
}

#[derive(Default)]
struct Ctx {
    program: Pubkey,
    slot: u64,
    /// privileges of the running top level instruction
    privs: BTreeMap<Pubkey, (bool, bool)>,
    snaps: BTreeMap<Pubkey, Snap>,
    logs: Vec<String>,
    cpi_error: Option<String>,
    cpis: u64,
}

thread_local! {
    static CTX: RefCell<Ctx> = RefCell::new(Ctx::default());
    static BUF: RefCell<Vec<u128>> = RefCell::new(vec![]);
}

struct Stubs;

impl program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, message: &str) {
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            if c.logs.len() < 64 {
                c.logs.push(message.to_string())
            }
        });
    }
    fn sol_log_data(&self, _fields: &[&[u8]]) {}
    fn sol_get_clock_sysvar(&self, var_addr: *mut u8) -> u64 {
        let slot = CTX.with(|c| c.borrow().slot);
        unsafe {
            *(var_addr as *mut Clock) = Clock {
                slot,
                ..Clock::default()
            };
        }
        0
    }
    fn sol_get_rent_sysvar(&self, var_addr: *mut u8) -> u64 {
        unsafe {
            *(var_addr as *mut Rent) = Rent::default();
        }
        0
    }
    fn sol_invoke_signed(
        &self,
        instruction: &Instruction,
        account_infos: &[AccountInfo],
        signers_seeds: &[&[&[u8]]],
    ) -> ProgramResult {
        let r = cpi(instruction, account_infos, signers_seeds);
        if let Err(e) = &r {
            // as on chain, a failed CPI aborts the whole transaction even if
            // the caller ignores the error
            CTX.with(|c| {
                c.borrow_mut().cpi_error = Some(format!("{:?}", e));
            });
        }
        r
    }
}

fn check_rules(
    program: &Pubkey,
    infos: &BTreeMap<Pubkey, &AccountInfo>,
) -> Result<(), String> {
    CTX.with(|c| {
        let c = c.borrow();
        for (key, snap) in &c.snaps {
            let info = match infos.get(key) {
                Some(i) => i,
                None => continue,
            };
            let writable = c.privs.get(key).map(|p| p.1).unwrap_or(false);
            let lamports = **info.lamports.borrow();
            let data = info.data.borrow();
            if lamports != snap.lamports {
                if !writable {
                    return Err(format!("ReadonlyLamportChange {}", key));
                }
                if lamports < snap.lamports && snap.owner != *program {
                    return Err(format!("ExternalLamportSpend {}", key));
                }
            }
            if data.len() != snap.data.len() || data[..] != snap.data[..] {
                if !writable {
                    return Err(format!("ReadonlyDataModified {}", key));
                }
                if snap.owner != *program {
                    return Err(format!("ExternalDataModified {}", key));
                }
            }
            if *info.owner != snap.owner {
                return Err(format!("ModifiedProgramId {}", key));
            }
        }
        Ok(())
    })
}

fn cpi(
    ix: &Instruction,
    infos: &[AccountInfo],
    signers_seeds: &[&[&[u8]]],
) -> ProgramResult {
    let (caller, _slot) = CTX.with(|c| {
        let mut c = c.borrow_mut();
        c.cpis += 1;
        (c.program, c.slot)
    });
    let by_key: BTreeMap<Pubkey, &AccountInfo> =
        infos.iter().map(|i| (*i.key, i)).collect();

    // what the caller did so far must be allowed
    check_rules(&caller, &by_key).map_err(|e| {
        CTX.with(|c| c.borrow_mut().logs.push(e));
        ProgramError::InvalidAccountData
    })?;

    let mut pdas = vec![];
    for seeds in signers_seeds {
        pdas.push(
            Pubkey::create_program_address(seeds, &caller)
                .map_err(|_| ProgramError::InvalidSeeds)?,
        );
    }

    if !by_key.contains_key(&ix.program_id) {
        // the program account must be passed to the instruction
        let known = CTX.with(|c| c.borrow().privs.contains_key(&ix.program_id));
        if !known {
            return Err(ProgramError::NotEnoughAccountKeys);
        }
    }

    // privileges of the callee are the union over repeated metas
    let mut granted: BTreeMap<Pubkey, (bool, bool)> = BTreeMap::new();
    for m in &ix.accounts {
        let e = granted.entry(m.pubkey).or_default();
        e.0 |= m.is_signer;
        e.1 |= m.is_writable;
    }
    for (key, (signer, writable)) in &granted {
        let have = CTX
            .with(|c| c.borrow().privs.get(key).copied())
            .ok_or(ProgramError::NotEnoughAccountKeys)?;
        if *writable && !have.1 {
            CTX.with(|c| {
                c.borrow_mut()
                    .logs
                    .push(format!("writable privilege escalated {}", key))
            });
            return Err(ProgramError::Custom(0xdead_0001));
        }
        if *signer && !have.0 && !pdas.contains(key) {
            CTX.with(|c| {
                c.borrow_mut()
                    .logs
                    .push(format!("signer privilege escalated {}", key))
            });
            return Err(ProgramError::MissingRequiredSignature);
        }
    }

    let mut callee = Vec::with_capacity(ix.accounts.len());
    for m in &ix.accounts {
        let info = by_key
            .get(&m.pubkey)
            .ok_or(ProgramError::NotEnoughAccountKeys)?;
        let (is_signer, is_writable) = granted[&m.pubkey];
        let mut i = (*info).clone();
        i.is_signer = is_signer;
        i.is_writable = is_writable;
        callee.push(i);
    }

    if ix.program_id == spl_token::ID {
        spl_token::processor::Processor::process(
            &spl_token::ID,
            &callee,
            &ix.data,
        )?;
    } else if ix.program_id == system_program::ID {
        system(&callee, &ix.data)?;
    } else if ix.program_id == fake_program() {
        // accepts everything
    } else {
        CTX.with(|c| {
            c.borrow_mut()
                .logs
                .push(format!("CPI into unknown program {}", ix.program_id))
        });
        return Err(ProgramError::IncorrectProgramId);
    }

    // the rules of the runtime hold for the callee, too
    let foreign = CTX.with(|c| {
        let c = c.borrow();
        callee.iter().any(|i| match c.snaps.get(i.key) {
            Some(s) => {
                s.owner != ix.program_id
                    && (s.data[..] != i.data.borrow()[..]
                        || **i.lamports.borrow() < s.lamports)
                    && !(ix.program_id == system_program::ID
                        && s.owner == system_program::ID)
            }
            None => false,
        })
    });
    if foreign {
        CTX.with(|c| {
            c.borrow_mut()
                .logs
                .push("callee modified an account it does not own".to_string())
        });
        return Err(ProgramError::IllegalOwner);
    }

    // from here on the caller is compared with what the callee left
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        for i in &callee {
            if let Some(s) = c.snaps.get_mut(i.key) {
                s.lamports = **i.lamports.borrow();
                s.owner = *i.owner;
                let d = i.data.borrow();
                if s.data[..] != d[..] {
                    s.data = Arc::new(d.to_vec());
                }
            }
        }
    });

    Ok(())
}

fn system(accs: &[AccountInfo], data: &[u8]) -> ProgramResult {
    let ix: SystemInstruction = bincode::deserialize(data)
        .map_err(|_| ProgramError::InvalidInstructionData)?;
    let acc = |i: usize| accs.get(i).ok_or(ProgramError::NotEnoughAccountKeys);
    let transfer = |from: &AccountInfo, to: &AccountInfo, l: u64| {
        if !from.is_signer || !from.is_writable || !to.is_writable {
            return Err(ProgramError::MissingRequiredSignature);
        }
        if !from.data_is_empty() || *from.owner != system_program::ID {
            return Err(ProgramError::InvalidArgument);
        }
        if from.lamports() < l {
            return Err(ProgramError::Custom(1));
        }
        if from.key != to.key {
            **from.lamports.borrow_mut() -= l;
            **to.lamports.borrow_mut() += l;
        }
        Ok(())
    };
    let allocate = |a: &AccountInfo, space: u64| {
        if !a.is_signer || !a.is_writable {
            return Err(ProgramError::MissingRequiredSignature);
        }
        if !a.data_is_empty() || *a.owner != system_program::ID {
            return Err(ProgramError::Custom(0)); // AccountAlreadyInUse
        }
        if space as usize > MAX_PERMITTED_DATA_INCREASE {
            return Err(ProgramError::Custom(3));
        }
        a.realloc(space as usize, true)
    };
    let assign = |a: &AccountInfo, owner: &Pubkey| {
        if a.owner == owner {
            return Ok(());
        }
        if !a.is_signer || !a.is_writable || *a.owner != system_program::ID {
            return Err(ProgramError::MissingRequiredSignature);
        }
        a.assign(owner);
        Ok(())
    };
    match ix {
        SystemInstruction::CreateAccount {
            lamports,
            space,
            owner,
        } => {
            let (from, to) = (acc(0)?, acc(1)?);
            if to.lamports() > 0 {
                return Err(ProgramError::Custom(0)); // AccountAlreadyInUse
            }
            allocate(to, space)?;
            assign(to, &owner)?;
            transfer(from, to, lamports)
        }
        SystemInstruction::Transfer { lamports } => {
            transfer(acc(0)?, acc(1)?, lamports)
        }
        SystemInstruction::Allocate { space } => allocate(acc(0)?, space),
        SystemInstruction::Assign { owner } => assign(acc(0)?, &owner),
        _ => Err(ProgramError::InvalidInstructionData),
    }
}

static INIT: Once = Once::new();

pub fn init() {
    INIT.call_once(|| {
        program_stubs::set_syscall_stubs(Box::new(Stubs));
        let default = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |info| {
            // panics inside a program are failed transactions
            let in_program = CTX.with(|c| {
                c.try_borrow()
                    .map(|c| c.program != Pubkey::default())
                    .unwrap_or(true)
            });
            if !in_program {
                default(info);
            }
        }));
    });
}

impl Bank {
    pub fn new() -> Self {
        init();
        let mut accs = BTreeMap::new();
        let program = |owner: Pubkey, data: Vec<u8>| Acc {
            lamports: 1,
            data: Arc::new(data),
            owner,
            executable: true,
        };
        let native: Pubkey = "NativeLoader1111111111111111111111111111111"
            .parse()
            .unwrap();
        let bpf = solana_program::bpf_loader::ID;
        accs.insert(system_program::ID, program(native, vec![]));
        accs.insert(spl_token::ID, program(bpf, vec![]));
        accs.insert(farming::ID, program(bpf, vec![]));
        accs.insert(fake_program(), program(bpf, vec![]));
        accs.insert(
            solana_program::sysvar::rent::ID,
            Acc::new(
                1,
                bincode::serialize(&Rent::default()).unwrap(),
                solana_program::sysvar::ID,
            ),
        );
        Self { accs, slot: 1 }
    }

    pub fn get(&self, key: &Pubkey) -> Acc {
        self.accs.get(key).cloned().unwrap_or_else(Acc::empty)
    }

    pub fn put(&mut self, key: Pubkey, acc: Acc) {
        self.accs.insert(key, acc);
    }

    /// Runs one instruction as a transaction of its own.
    pub fn run(&mut self, ix: &Ix) -> TxResult {
        let res = self.execute(ix);
        if res.ok {
            for c in &res.changed {
                if c.post.lamports == 0 {
                    self.accs.remove(&c.key);
                } else {
                    self.accs.insert(c.key, c.post.clone());
                }
            }
        }
        res
    }

    /// Runs the instruction without committing its effects.
    pub fn execute(&self, ix: &Ix) -> TxResult {
        BUF.with(|b| self.execute_in(ix, &mut b.borrow_mut()))
    }

    fn execute_in(&self, ix: &Ix, buf: &mut Vec<u128>) -> TxResult {
        // message level privileges
        let mut privs: BTreeMap<Pubkey, (bool, bool)> = BTreeMap::new();
        for m in &ix.metas {
            let e = privs.entry(m.key).or_default();
            e.0 |= m.signer;
            e.1 |= m.writable;
        }
        let pre: BTreeMap<Pubkey, Acc> =
            privs.keys().map(|k| (*k, self.get(k))).collect();
        for (k, p) in &pre {
            if p.executable {
                // the runtime demotes writable locks on executables
                privs.get_mut(k).unwrap().1 = false;
            }
        }

        // loader serialization
        let size = 8
            + ix.metas
                .iter()
                .map(|m| {
                    8 + 32
                        + 32
                        + 8
                        + 8
                        + pre[&m.key].data.len()
                        + MAX_PERMITTED_DATA_INCREASE
                        + 16
                        + 8
                })
                .sum::<usize>()
            + 8
            + ix.data.len()
            + 32
            + 64;
        buf.clear();
        buf.resize(size / 16 + 2, 0u128);
        let base = buf.as_mut_ptr() as *mut u8;
        let mut off = 0usize;
        let put = |off: &mut usize, bytes: &[u8]| {
            unsafe {
                std::ptr::copy_nonoverlapping(
                    bytes.as_ptr(),
                    base.add(*off),
                    bytes.len(),
                )
            };
            *off += bytes.len();
        };
        put(&mut off, &(ix.metas.len() as u64).to_le_bytes());
        let mut first: BTreeMap<Pubkey, usize> = BTreeMap::new();
        for (i, m) in ix.metas.iter().enumerate() {
            if let Some(j) = first.get(&m.key) {
                put(&mut off, &[*j as u8, 0, 0, 0, 0, 0, 0, 0]);
                continue;
            }
            first.insert(m.key, i);
            let a = &pre[&m.key];
            let (s, w) = privs[&m.key];
            put(
                &mut off,
                &[0xff, s as u8, w as u8, a.executable as u8, 0, 0, 0, 0],
            );
            put(&mut off, m.key.as_ref());
            put(&mut off, a.owner.as_ref());
            put(&mut off, &a.lamports.to_le_bytes());
            put(&mut off, &(a.data.len() as u64).to_le_bytes());
            put(&mut off, &a.data);
            off += MAX_PERMITTED_DATA_INCREASE;
            off += (off as *const u8).align_offset(8);
            put(&mut off, &0u64.to_le_bytes());
        }
        put(&mut off, &(ix.data.len() as u64).to_le_bytes());
        put(&mut off, &ix.data);
        put(&mut off, ix.program.as_ref());

        CTX.with(|c| {
            *c.borrow_mut() = Ctx {
                program: ix.program,
                slot: self.slot,
                snaps: pre
                    .iter()
                    .map(|(k, a)| {
                        (
                            *k,
                            Snap {
                                lamports: a.lamports,
                                data: a.data.clone(),
                                owner: a.owner,
                            },
                        )
                    })
                    .collect(),
                privs,
                logs: vec![],
                cpi_error: None,
                cpis: 0,
            }
        });

        let mut panicked = false;
        let mut posts: Vec<(Pubkey, Acc)> = vec![];
        let outcome: Result<(), String> = {
            let (program_id, infos, data) = unsafe {
                solana_program::entrypoint::deserialize(base)
            };
            let r = catch_unwind(AssertUnwindSafe(|| {
                if *program_id == farming::ID {
                    farming::entry(program_id, &infos, data)
                } else if *program_id == amm::ID {
                    amm::entry(program_id, &infos, data)
                } else if *program_id == spl_token::ID {
                    spl_token::processor::Processor::process(
                        program_id, &infos, data,
                    )
                } else {
                    Err(ProgramError::IncorrectProgramId)
                }
            }));
            let cpi_error = CTX.with(|c| c.borrow_mut().cpi_error.take());
            match r {
                Err(p) => {
                    panicked = true;
                    let m = p
                        .downcast_ref::<String>()
                        .cloned()
                        .or_else(|| {
                            p.downcast_ref::<&str>().map(|s| s.to_string())
                        })
                        .unwrap_or_default();
                    Err(format!("panic: {}", m))
                }
                Ok(Err(e)) => Err(format!("{:?}", e)),
                Ok(Ok(())) if cpi_error.is_some() => {
                    Err(format!("CPI failed: {}", cpi_error.unwrap()))
                }
                Ok(Ok(())) => {
                    let by_key: BTreeMap<Pubkey, &AccountInfo> =
                        infos.iter().map(|i| (*i.key, i)).collect();
                    check_rules(&ix.program, &by_key).and_then(|_| {
                        let mut sum: i128 = 0;
                        for (k, i) in &by_key {
                            let p = &pre[k];
                            let lamports = **i.lamports.borrow();
                            sum += lamports as i128 - p.lamports as i128;
                            let d = i.data.borrow();
                            if lamports != p.lamports
                                || *i.owner != p.owner
                                || d[..] != p.data[..]
                            {
                                posts.push((
                                    *k,
                                    Acc {
                                        lamports,
                                        data: if d[..] == p.data[..] {
                                            p.data.clone()
                                        } else {
                                            Arc::new(d.to_vec())
                                        },
                                        owner: *i.owner,
                                        executable: p.executable,
                                    },
                                ));
                            }
                        }
                        if sum != 0 {
                            return Err("UnbalancedInstruction".to_string());
                        }
                        Ok(())
                    })
                }
            }
        };
        let logs = CTX.with(|c| {
            let mut c = c.borrow_mut();
            c.program = Pubkey::default();
            std::mem::take(&mut c.logs)
        });
        match outcome {
            Ok(()) => TxResult {
                ok: true,
                err: String::new(),
                panicked,
                changed: posts
                    .into_iter()
                    .map(|(key, mut post)| {
                        if post.lamports == 0 {
                            // purged at the end of the transaction
                            post = Acc::empty();
                        }
                        Change {
                            key,
                            pre: pre[&key].clone(),
                            post,
                        }
                    })
                    .collect(),
                logs,
            },
            Err(err) => TxResult {
                ok: false,
                err,
                panicked,
                changed: vec![],
                logs,
            },
        }
    }
}

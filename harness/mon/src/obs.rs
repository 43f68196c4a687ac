//! What the monitors saw: violations, and counts of what was judged.

use std::collections::{BTreeMap, HashSet};

#[derive(Clone, Debug)]
pub struct Viol {
    pub prop: &'static str,
    pub what: String,
    pub step: usize,
    /// identifies a known finding
    pub known: Option<String>,
}

pub struct Obs {
    /// None: every property (exploration while developing)
    pub focus: Option<String>,
    pub step: usize,
    pub viols: Vec<Viol>,
    pub evals: BTreeMap<&'static str, u64>,
    pub distinct: BTreeMap<&'static str, HashSet<u64>>,
    pub samples: BTreeMap<&'static str, Vec<String>>,
    pub counts: BTreeMap<String, u64>,
    pub log: Vec<String>,
    pub keep_log: bool,
    /// track the errors of the numerics
    pub measure: bool,
    /// a redemption was refused for the known reason
    pub refused_imbalanced: bool,
    /// largest values seen, with where
    pub maxima: BTreeMap<&'static str, (f64, String)>,
}

pub fn hash64(parts: &[u64]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for p in parts {
        h ^= *p;
        h = h.wrapping_mul(0x9e37_79b9_7f4a_7c15);
        h ^= h >> 29;
    }
    h
}

pub fn key64(k: &solana_program::pubkey::Pubkey) -> u64 {
    let b = k.to_bytes();
    let mut x = [0u8; 8];
    x.copy_from_slice(&b[..8]);
    u64::from_le_bytes(x)
}

impl Obs {
    pub fn new(focus: Option<String>) -> Self {
        Self {
            focus,
            step: 0,
            viols: vec![],
            evals: BTreeMap::new(),
            distinct: BTreeMap::new(),
            samples: BTreeMap::new(),
            counts: BTreeMap::new(),
            log: vec![],
            keep_log: false,
            measure: false,
            refused_imbalanced: false,
            maxima: BTreeMap::new(),
        }
    }
    pub fn wants(&self, prop: &str) -> bool {
        self.focus.as_deref().map(|f| f == prop).unwrap_or(true)
    }
    pub fn viol(&mut self, props: &[&'static str], what: impl Into<String>) {
        self.viol_known(props, None, what)
    }
    pub fn viol_known(
        &mut self,
        props: &[&'static str],
        known: Option<String>,
        what: impl Into<String>,
    ) {
        let what = what.into();
        for p in props {
            if self.wants(p) && self.viols.len() < 200 {
                self.viols.push(Viol {
                    prop: p,
                    what: what.clone(),
                    step: self.step,
                    known: known.clone(),
                });
            }
        }
    }
    /// One judgement of a property. `case` identifies it for the count of
    /// distinct ones; zero means a trivial one.
    pub fn eval(
        &mut self,
        prop: &'static str,
        case: u64,
        sample: impl FnOnce() -> String,
    ) {
        if !self.wants(prop) {
            return;
        }
        *self.evals.entry(prop).or_default() += 1;
        if case != 0 {
            let new = self.distinct.entry(prop).or_default().insert(case);
            if new {
                let s = self.samples.entry(prop).or_default();
                if s.len() < 4 {
                    s.push(sample());
                }
            }
        }
    }
    pub fn count(&mut self, what: &str) {
        match self.counts.get_mut(what) {
            Some(c) => *c += 1,
            None => {
                self.counts.insert(what.to_string(), 1);
            }
        }
    }
    pub fn add(&mut self, what: &str, n: u64) {
        *self.counts.entry(what.to_string()).or_default() += n;
    }
    pub fn maxf(&mut self, what: &'static str, v: f64, at: impl FnOnce() -> String) {
        let e = self.maxima.entry(what).or_insert((f64::MIN, String::new()));
        if v > e.0 {
            *e = (v, at());
        }
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.keep_log {
            let s = format!("[{}] {}", self.step, f());
            self.log.push(s);
        }
    }
    pub fn merge(&mut self, o: Obs) {
        for (k, v) in o.evals {
            *self.evals.entry(k).or_default() += v;
        }
        for (k, v) in o.distinct {
            self.distinct.entry(k).or_default().extend(v);
        }
        for (k, v) in o.samples {
            let s = self.samples.entry(k).or_default();
            for x in v {
                if s.len() < 6 {
                    s.push(x);
                }
            }
        }
        for (k, v) in o.maxima {
            let e = self.maxima.entry(k).or_insert((f64::MIN, String::new()));
            if v.0 > e.0 {
                *e = v;
            }
        }
        for (k, v) in o.counts {
            *self.counts.entry(k).or_default() += v;
        }
    }
}

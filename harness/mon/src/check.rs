//! Runs the workloads for one property and reports the verdict.

use crate::obs::Obs;
use crate::{amm_gen, farm_gen, watch};
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub const FARM_PROFILES: &[&str] =
    &["mix", "long", "hostile", "periods", "mints", "compound", "twin", "steady"];

pub fn run_history(profile: &str, seed: u64, h: u64, limit: usize, o: &mut Obs) {
    if FARM_PROFILES.contains(&profile) {
        farm_gen::run(profile, seed, h, limit, o)
    } else {
        amm_gen::run(profile, seed, h, limit, o)
    }
}

/// Workload profiles for a property and how many histories of each the quick
/// tier plays.
fn plan(prop: &str) -> Vec<(&'static str, u64)> {
    match prop {
        "F01" => vec![("mix", 3000), ("compound", 2500), ("hostile", 1500), ("long", 300), ("mints", 700)],
        "F02" => vec![("mix", 3000), ("long", 700), ("compound", 2500), ("mints", 1500), ("hostile", 700), ("periods", 400)],
        "F03" => vec![("mix", 3000), ("long", 700), ("twin", 2500), ("compound", 2000), ("periods", 800), ("mints", 700)],
        "F04" => vec![("twin", 5000), ("mix", 3000), ("long", 700), ("periods", 400), ("compound", 1000)],
        "F05" => vec![("mix", 3000), ("compound", 3500), ("long", 700), ("twin", 2500), ("hostile", 500)],
        "F06" => vec![("mix", 4000), ("compound", 2500), ("long", 700), ("twin", 2000), ("mints", 700), ("periods", 400)],
        "F07" => vec![("mix", 3000), ("mints", 2500), ("hostile", 2000), ("compound", 1500)],
        "F08" => vec![("long", 800), ("mix", 3000), ("periods", 500), ("hostile", 700)],
        "F09" => vec![("periods", 1500), ("mix", 3000), ("long", 300), ("mints", 700)],
        "F10" => vec![("periods", 1500), ("mix", 4000), ("mints", 700)],
        "F11" => vec![("hostile", 5000), ("mix", 1500), ("compound", 1500), ("mints", 700)],
        "F12" => vec![("hostile", 6000), ("compound", 1000), ("mints", 500)],
        "F13" => vec![("compound", 6000), ("mix", 1500), ("hostile", 1500), ("twin", 800)],
        "F14" => vec![("mints", 4500), ("mix", 2500), ("compound", 800), ("hostile", 800), ("twin", 1500)],
        "F15" => vec![("mix", 4000), ("mints", 2500), ("hostile", 2000)],
        "F16" => vec![("mix", 3500), ("hostile", 2500), ("mints", 1500), ("compound", 700), ("periods", 600)],
        "F17" => vec![("steady", 4000), ("mix", 1500), ("compound", 1000), ("long", 300)],
        "A01" => vec![("constprod", 2500), ("trade", 2500), ("liquidity", 2500), ("stable", 300), ("stableliq", 300), ("stableedge", 150), ("pools", 600), ("hostileamm", 1000)],
        "A02" => vec![("trade", 5000), ("constprod", 4000), ("liquidity", 1000), ("pools", 800), ("discount", 1000)],
        "A03" => vec![("stable", 800), ("stableliq", 800), ("stableedge", 500), ("pools", 500), ("create", 500)],
        "A04" => vec![("discount", 3000), ("trade", 3000), ("pools", 700), ("constprod", 1000), ("stable", 300), ("hostileamm", 500)],
        "A05" => vec![("trade", 4000), ("constprod", 2500), ("liquidity", 1500), ("pools", 600), ("stable", 400), ("hostileamm", 500)],
        "A06" => vec![("liquidity", 4000), ("trade", 3000), ("constprod", 1500), ("pools", 600), ("stableliq", 300), ("stable", 200)],
        "A07" => vec![("liquidity", 5000), ("constprod", 3000), ("stableliq", 600), ("stableedge", 200), ("create", 700), ("pools", 400)],
        "A08" => vec![("create", 7000), ("hostileamm", 1500), ("pools", 300)],
        "A09" => vec![("settings", 5000), ("discount", 2000), ("hostileamm", 2500), ("create", 1000)],
        "A10" => vec![("liquidity", 3500), ("constprod", 2000), ("trade", 2000), ("stable", 500), ("stableliq", 700), ("stableedge", 250)],
        "A11" => vec![("hostileamm", 5500), ("pools", 300), ("discount", 500)],
        "A12" => vec![("discount", 5000), ("hostileamm", 1000), ("stableedge", 100)],
        "A13" => vec![("stable", 700), ("stableliq", 900), ("stableedge", 400), ("pools", 400)],
        "A14" => vec![("liquidity", 3000), ("trade", 2500), ("constprod", 1500), ("stableliq", 500), ("stable", 150), ("stableedge", 150), ("pools", 500), ("settings", 1000), ("create", 1500)],
        "X01" => vec![
            ("mix", 1500), ("compound", 1200), ("hostile", 1500), ("mints", 800), ("periods", 300), ("long", 150),
            ("constprod", 1000), ("trade", 1000), ("liquidity", 1000), ("pools", 300), ("discount", 800), ("hostileamm", 1200), ("create", 700), ("stable", 150), ("settings", 500),
        ],
        _ => vec![],
    }
}

fn rule(prop: &str) -> &'static str {
    match prop {
        "F01" | "F15" | "F10" | "F07" => "one evaluation per instruction of the kind (and per farm after each instruction for balances); non-trivial if tokens or records are at stake; distinct by amounts, stored state and slot",
        "F03" | "F04" | "F05" | "F06" | "F17" => "one evaluation per settlement, comparison with the exact integral, or settle-and-claim probe of a copy of the state; non-trivial if a period and earning stake overlap; distinct by state and slots",
        "F11" | "F12" | "A09" | "A11" => "one evaluation per instruction which the specification says must be refused (wrong signer or substituted account), and per authorised one that succeeded; distinct by instruction, accounts, signers and slot",
        "A02" | "A03" | "A04" | "A05" | "A13" => "one evaluation per swap or invariant judged against exact integer arithmetic; non-trivial unless the fee or invariant judged is zero; distinct by reserves, amounts, fee and curve",
        _ => "one evaluation per instruction or state judged against the specification; distinct by instruction, arguments, accounts and the state concerned",
    }
}

pub struct Found {
    pub profile: &'static str,
    pub hist: u64,
    pub step: usize,
    pub what: String,
}

#[derive(Default)]
struct Total {
    obs: Option<Obs>,
    viols: Vec<Found>,
    known: Vec<(String, String)>,
    known_seen: BTreeSet<String>,
    panics: Vec<(String, u64)>,
    done: Vec<(&'static str, u64)>,
    steps: u64,
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Keys of the known findings of the property: lines
/// `known: property=<id> key=<key> <what fails>`.
fn known_findings(root: &str, prop: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(format!("{}/known-findings.txt", root)).unwrap_or_default();
    text.lines()
        .filter_map(|l| l.strip_prefix("known: property="))
        .filter_map(|l| {
            let (p, rest) = l.split_once(' ')?;
            let (k, what) = rest.strip_prefix("key=")?.split_once(' ')?;
            (p == prop).then(|| (k.to_string(), what.to_string()))
        })
        .collect()
}

pub fn check(prop: &'static str) -> i32 {
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| ".".into());
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let plan = plan(prop);
    if plan.is_empty() {
        eprintln!("unknown property {}", prop);
        return 2;
    }
    let factor: u64 = if tier == "thorough" { 60 } else { 3 };
    let factor = std::env::var("VERIF_FACTOR").ok().and_then(|s| s.parse().ok()).unwrap_or(factor);
    let cap = Duration::from_secs(if tier == "thorough" { 720 } else { 240 });
    let t0 = Instant::now();
    // interleave the profiles, so that running out of time hits all of them
    let mut jobs: Vec<(f64, usize, u64)> = vec![];
    for (i, (_, n)) in plan.iter().enumerate() {
        let n = n * factor;
        for h in 0..n {
            jobs.push(((h as f64 + 0.5) / n as f64, i, h));
        }
    }
    jobs.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let jobs = Arc::new(jobs);
    let plan = Arc::new(plan);
    let next = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let alive = Arc::new(AtomicU64::new(0));
    let total = Arc::new(Mutex::new(Total {
        obs: Some(Obs::new(Some(prop.into()))),
        done: plan.iter().map(|p| (p.0, 0)).collect(),
        ..Default::default()
    }));
    let known = known_findings(&root, prop);
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8) as u64;
    std::panic::set_hook(Box::new(|_| {}));
    for _ in 0..threads {
        let (jobs, plan, next, stop, alive, total) =
            (jobs.clone(), plan.clone(), next.clone(), stop.clone(), alive.clone(), total.clone());
        let known = known.clone();
        alive.fetch_add(1, Ordering::SeqCst);
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                watch::register();
                // merged into the total now and then
                let mut local = Obs::new(Some(prop.into()));
                let mut since = 0;
                loop {
                    let k = next.fetch_add(1, Ordering::Relaxed) as usize;
                    if k >= jobs.len() || stop.load(Ordering::Relaxed) {
                        break;
                    }
                    let (_, i, h) = jobs[k];
                    let profile = plan[i].0;
                    watch::history(profile, h);
                    let mut o = Obs::new(Some(prop.into()));
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        run_history(profile, seed, h, usize::MAX, &mut o)
                    }));
                    let viols = std::mem::take(&mut o.viols);
                    let steps = o.step as u64;
                    local.merge(o);
                    since += 1;
                    let mut t = total.lock().unwrap();
                    t.steps += steps;
                    t.done[i].1 += 1;
                    if r.is_err() {
                        t.panics.push((profile.to_string(), h));
                    }
                    for v in viols {
                        match v.known {
                            Some(k) if known.iter().any(|x| x.0 == k) => {
                                if t.known_seen.insert(k.clone()) {
                                    let f = format!("{} (profile {}, seed {}, history {}, step {})", v.what, profile, seed, h, v.step);
                                    t.known.push((k, f));
                                }
                            }
                            _ => {
                                if t.viols.len() < 1000 {
                                    t.viols.push(Found { profile, hist: h, step: v.step, what: v.what });
                                }
                                if t.viols.len() >= 50 {
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                        }
                    }
                    if since >= 64 {
                        since = 0;
                        let m = std::mem::replace(&mut local, Obs::new(Some(prop.into())));
                        t.obs.as_mut().unwrap().merge(m);
                    }
                }
                let mut t = total.lock().unwrap();
                t.obs.as_mut().unwrap().merge(local);
                drop(t);
                watch::unregister();
                alive.fetch_sub(1, Ordering::SeqCst);
            })
            .unwrap();
    }
    let mut stuck = false;
    let mut cut = false;
    let mut hang = None;
    loop {
        std::thread::sleep(Duration::from_millis(20));
        let (hanging, busy) = watch::hanging();
        hang = hanging.iter().find(|r| r.must.contains(prop)).cloned();
        if hang.is_some() || (!hanging.is_empty() && !busy) {
            stuck = true;
            break;
        }
        if alive.load(Ordering::SeqCst) == 0 {
            break;
        }
        if t0.elapsed() > cap {
            cut = true;
            stop.store(true, Ordering::Relaxed);
        }
        // one history takes milliseconds: something does not terminate
        if t0.elapsed() > cap + Duration::from_secs(120) {
            stuck = true;
            break;
        }
    }
    let mut t = total.lock().unwrap();
    let wall = t0.elapsed().as_secs_f64();
    let obs = t.obs.take().unwrap();
    if let Some(r) = &hang {
        t.viols.push(Found {
            profile: r.profile,
            hist: r.hist,
            step: r.step,
            what: format!("{} does not terminate although nothing forbids it", r.name),
        });
    }
    t.viols.sort_by(|a, b| (a.step, a.profile, a.hist).cmp(&(b.step, b.profile, b.hist)));
    let evals = obs.evals.get(prop).copied().unwrap_or(0);
    let distinct = obs.distinct.get(prop).map(|d| d.len()).unwrap_or(0);
    // evidence
    let samples: Vec<String> =
        obs.samples.get(prop).map(|s| s.iter().map(|x| esc(x)).collect()).unwrap_or_default();
    let done: Vec<String> = t.done.iter().map(|(p, n)| format!("{}: {}", esc(p), n)).collect();
    let counts: Vec<String> = obs.counts.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect();
    let knowns: Vec<String> = t.known.iter().map(|k| esc(&k.1)).collect();
    let histories: u64 = t.done.iter().map(|d| d.1).sum();
    let json = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"histories\": {},\n  \"instructions\": {},\n  \"histories_per_profile\": {{{}}},\n  \"events\": {{{}}},\n  \"cut_short_by_time\": {},\n  \"harness_errors\": {},\n  \"known_findings_seen\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        esc(prop), esc(tier), seed, evals, distinct, esc(rule(prop)), samples.join(", "), histories, t.steps,
        done.join(", "), counts.join(", "), cut, t.panics.len(), knowns.join(", "),
        [
            "the programs are compiled natively and driven through a minimal Solana runtime (accounts, rollback, CPI into the real SPL token processor, a model of the system program)",
            "the missing git dependency `decimal` is replaced by a stand-in with truncating 18 digit decimals",
        ].iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "),
        wall, t.viols.len(),
    );
    let dir = format!("{}/evidence", root);
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(format!("{}/{}.json", dir, prop), json) {
        eprintln!("cannot write the evidence: {}", e);
        return 2;
    }
    println!(
        "{}: {} histories, {} instructions, {} evaluations, {} distinct, {:.1} s",
        prop, histories, t.steps, evals, distinct, wall
    );
    for (k, f) in &t.known {
        let what = known.iter().find(|x| &x.0 == k).map(|x| x.1.clone()).unwrap_or_default();
        println!("KNOWN-FINDING: property={} {} e.g. {}", prop, what, f.chars().take(300).collect::<String>());
    }
    if let Some(v) = t.viols.first() {
        let path = format!("{}/replay-{}.txt", dir, prop);
        let mut o = Obs::new(Some(prop.into()));
        o.keep_log = true;
        // one that does not terminate isn't played again
        if hang.as_ref().map(|r| (r.profile, r.hist)) != Some((v.profile, v.hist)) {
            let _ = catch_unwind(AssertUnwindSafe(|| {
                run_history(v.profile, seed, v.hist, v.step, &mut o)
            }));
        }
        let mut text = format!(
            "property {}\nprofile {}\nseed {}\nhistory {}\nstep {}\nviolation {}\n\n# replay: check.sh replay {}\n# all violations found by this run:\n",
            prop, v.profile, seed, v.hist, v.step, v.what, path
        );
        for f in t.viols.iter().take(20) {
            text.push_str(&format!("# {} history {} step {}: {}\n", f.profile, f.hist, f.step, f.what));
        }
        text.push_str("\n# events of the history:\n");
        for l in &o.log {
            text.push_str(l);
            text.push('\n');
        }
        let _ = std::fs::write(&path, text);
        println!("{}", v.what.chars().take(1500).collect::<String>());
        println!("VIOLATION property={} replay={}", prop, path);
        return 1;
    }
    if !t.panics.is_empty() {
        eprintln!("inconclusive: the harness failed in {:?}", &t.panics[..t.panics.len().min(5)]);
        return 2;
    }
    if stuck {
        eprintln!("inconclusive: a history does not terminate");
        return 2;
    }
    if distinct == 0 {
        eprintln!("inconclusive: nothing was observed");
        return 2;
    }
    0
}

/// All properties of one program at once (for mutation testing): prints how
/// often which was violated, ends early once there are many violations.
pub fn sweep(farm: bool, threads: usize, secs: u64) -> i32 {
    let profiles: Vec<(&str, u64)> = if farm {
        vec![("mix", 2000), ("compound", 1500), ("hostile", 2000), ("mints", 1000), ("periods", 400), ("long", 250), ("twin", 600)]
    } else {
        vec![
            ("constprod", 1200), ("trade", 1200), ("liquidity", 1200), ("stable", 300), ("stableliq", 300), ("stableedge", 120),
            ("pools", 300), ("hostileamm", 1500), ("create", 2000), ("discount", 1200), ("settings", 800),
        ]
    };
    let env = |k: &str, d: u64| std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d);
    let (seed, factor) = (env("SWEEP_SEED", 7), env("SWEEP_FACTOR", 1));
    let mut jobs: Vec<(f64, &str, u64)> = vec![];
    for (p, n) in profiles {
        let n = n * factor;
        jobs.extend((0..n).map(|h| ((h as f64 + 0.5) / n as f64, p, h)));
    }
    jobs.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let next = AtomicU64::new(0);
    let found = Mutex::new(std::collections::BTreeMap::<String, (u64, String)>::new());
    let t0 = Instant::now();
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::scope(|s| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || loop {
                    let k = next.fetch_add(1, Ordering::Relaxed) as usize;
                    if k >= jobs.len() || t0.elapsed().as_secs() > secs {
                        break;
                    }
                    let (_, p, h) = jobs[k];
                    let mut o = Obs::new(None);
                    let r = catch_unwind(AssertUnwindSafe(|| run_history(p, seed, h, usize::MAX, &mut o)));
                    let mut f = found.lock().unwrap();
                    if r.is_err() {
                        f.entry("panic".into()).or_insert((0, p.into())).0 += 1;
                    }
                    let viols: Vec<_> = o.viols.into_iter().filter(|v| v.known.is_none()).collect();
                    for v in &viols {
                        let what = format!("{} h{} step {}: {}", p, h, v.step, v.what.chars().take(160).collect::<String>());
                        f.entry(v.prop.into()).or_insert((0, what)).0 += 1;
                    }
                    if f.values().map(|x| x.0).sum::<u64>() > 400 {
                        next.store(jobs.len() as u64, Ordering::Relaxed);
                    }
                })
                .unwrap();
        }
    });
    let done = next.load(Ordering::Relaxed).min(jobs.len() as u64);
    let f = found.into_inner().unwrap();
    println!("SWEEP {} of {} histories in {:.1} s", done, jobs.len(), t0.elapsed().as_secs_f64());
    for (k, (n, what)) in &f {
        println!("{} x{} {}", k, n, what);
    }
    (!f.is_empty()) as i32
}

/// Plays the history of a replay file again.
pub fn replay(path: &str) -> i32 {
    let text = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", path, e);
            return 2;
        }
    };
    let get = |k: &str| {
        text.lines()
            .find_map(|l| l.strip_prefix(k).and_then(|r| r.strip_prefix(' ')))
            .unwrap_or("")
            .to_string()
    };
    let prop = get("property");
    let (profile, seed, h, step) = (get("profile"), get("seed"), get("history"), get("step"));
    let p2 = prop.clone();
    let t = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        watch::register();
        let mut o = Obs::new(Some(p2));
        o.keep_log = true;
        let _ = catch_unwind(AssertUnwindSafe(|| {
            run_history(&profile, seed.parse().unwrap_or(1), h.parse().unwrap_or(0), step.parse().unwrap_or(usize::MAX), &mut o)
        }));
        o
    });
    let t = t.unwrap();
    while !t.is_finished() {
        std::thread::sleep(Duration::from_millis(20));
        if let Some(r) = watch::hanging().0.first() {
            println!("step {}: {} does not terminate", r.step, r.name);
            println!("VIOLATION property={} replay={}", prop, path);
            return 1;
        }
    }
    let o = t.join().unwrap();
    for l in &o.log {
        println!("{}", l);
    }
    let mut bad = false;
    for v in &o.viols {
        println!("step {}: {}{}", v.step, v.what, v.known.as_ref().map(|k| format!(" (known: {})", k)).unwrap_or_default());
        bad |= v.known.is_none();
    }
    if bad {
        println!("VIOLATION property={} replay={}", prop, path);
        1
    } else {
        println!("no violation");
        0
    }
}

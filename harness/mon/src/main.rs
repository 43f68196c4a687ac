mod abi;
mod amm;
mod amm_gen;
mod bank;
mod check;
mod farm;
mod farm_gen;
mod hostile;
mod num;
mod obs;
mod rng;
mod watch;
use std::collections::BTreeMap;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| &s[..]) {
        Some("check") => {
            let p: &'static str = Box::leak(a[2].clone().into_boxed_str());
            std::process::exit(check::check(p));
        }
        Some("replay") => std::process::exit(check::replay(&a[2])),
        Some("sweep") => {
            let farm = a[2] == "farm";
            std::process::exit(check::sweep(farm, a[3].parse().unwrap(), a[4].parse().unwrap()));
        }
        Some("explore") => (),
        _ => {
            eprintln!("mon check ID | replay FILE | explore PROFILE SEED HISTORIES");
            std::process::exit(2);
        }
    }
    // explore profile seed n
    let profile = a[2].clone();
    let seed: u64 = a[3].parse().unwrap();
    let n: u64 = a[4].parse().unwrap();
    let t = std::time::Instant::now();
    let next = std::sync::atomic::AtomicU64::new(0);
    let total = std::sync::Mutex::new((obs::Obs::new(None), BTreeMap::<(String,String),(u64,String)>::new()));
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let h = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                if h >= n { break; }
                let mut o = obs::Obs::new(None);
                o.keep_log = std::env::var("LOG").is_ok(); o.measure = std::env::var("WORST").is_ok();
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| check::run_history(&profile, seed, h, usize::MAX, &mut o)));
                if r.is_err() { eprintln!("HARNESS PANIC in history {}", h); }
                if std::env::var("LOG").is_ok() { for l in &o.log { println!("{}", l); } }
                let mut g = total.lock().unwrap();
                for v in std::mem::take(&mut o.viols) { if v.known.is_some() { g.0.count(&format!("KNOWN {} {}", v.prop, v.known.unwrap())); continue; }
                    let short: String = v.what.chars().filter(|c| !c.is_ascii_digit()).take(60).collect();
                    let e = g.1.entry((v.prop.to_string(), short)).or_insert((0, format!("h{} step {}: {}", h, v.step, v.what)));
                    e.0 += 1;
                }
                g.0.merge(o);
            });
        }
    });
    let g = total.into_inner().unwrap();
    for (k, v) in &g.0.counts { println!("{:50} {}", k, v); }
    for (k, v) in &g.0.evals { println!("{} evals {} distinct {}", k, v, g.0.distinct.get(k).map(|d| d.len()).unwrap_or(0)); }
    for (k, v) in &g.0.maxima { println!("MAX {} {:e} {}", k, v.0, v.1); }
    for (k, v) in &g.1 { println!("VIOL {} x{} {}\n      {}", k.0, v.0, k.1, v.1.chars().take(600).collect::<String>()); }
    println!("{:?}", t.elapsed());
}

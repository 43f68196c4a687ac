//! Which instruction every worker is executing, so that one that never ends is
//! noticed and attributed.

use std::cell::RefCell;
use std::collections::BTreeSet;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// An instruction takes microseconds; one that takes this long on an idle or
/// busy machine does not terminate.
const LIMIT: Duration = Duration::from_secs(45);

#[derive(Default, Clone)]
pub struct Run {
    pub profile: &'static str,
    pub hist: u64,
    pub step: usize,
    pub name: &'static str,
    /// the properties which say that the instruction succeeds
    pub must: BTreeSet<&'static str>,
    since: Option<Instant>,
    ended: bool,
}

static ALL: Mutex<Vec<Arc<Mutex<Run>>>> = Mutex::new(Vec::new());

thread_local! {
    static MINE: RefCell<Option<Arc<Mutex<Run>>>> = RefCell::new(None);
}

/// Called by a worker when it starts.
pub fn register() {
    let r = Arc::new(Mutex::new(Run::default()));
    ALL.lock().unwrap().push(r.clone());
    MINE.with(|m| *m.borrow_mut() = Some(r));
}

fn mine(f: impl FnOnce(&mut Run)) {
    MINE.with(|m| {
        if let Some(r) = &*m.borrow() {
            f(&mut r.lock().unwrap())
        }
    })
}

pub fn unregister() {
    mine(|r| r.ended = true);
}

pub fn history(profile: &'static str, hist: u64) {
    mine(|r| {
        r.profile = profile;
        r.hist = hist;
    });
}

pub fn begin(step: usize, name: &'static str, must: &[&'static str]) {
    mine(|r| {
        r.step = step;
        r.name = name;
        r.must.clear();
        r.must.extend(must);
        r.since = Some(Instant::now());
    });
}

pub fn end() {
    mine(|r| r.since = None);
}

/// The instructions which do not terminate, and whether any worker still does
/// something else.
pub fn hanging() -> (Vec<Run>, bool) {
    let mut out = vec![];
    let mut busy = false;
    for r in ALL.lock().unwrap().iter() {
        let r = r.lock().unwrap();
        if r.ended {
            continue;
        }
        match r.since {
            Some(t) if t.elapsed() > LIMIT => out.push(r.clone()),
            _ => busy = true,
        }
    }
    (out, busy)
}

//! One simulated run: its event log, counters, simulated clock and verdict.
use serde_json::{json, Value as V};
use std::collections::BTreeMap;
use std::io::Write;
use std::sync::Mutex;

#[derive(Clone, Debug)]
pub struct Violation {
    /// what kind of failure it is: minimisation keeps this fixed
    pub class: String,
    pub msg: String,
}
pub type Res<T> = Result<T, Violation>;

pub fn violation(class: &str, msg: String) -> Violation {
    Violation {
        class: class.to_owned(),
        msg,
    }
}
pub fn fail<T>(class: &str, msg: String) -> Res<T> {
    Err(violation(class, msg))
}

#[derive(Default)]
pub struct Ctx {
    pub events: Vec<String>,
    pub n_events: u64,
    pub hash: u64,
    pub shape: u64,
    pub hits: BTreeMap<String, u64>,
    pub now_us: u64,
    pub nontrivial: bool,
    pub sample: V,
    pub harness: Option<String>,
    pub keep: bool,
}

static CTX: Mutex<Option<Ctx>> = Mutex::new(None);

fn with<R>(f: impl FnOnce(&mut Ctx) -> R) -> R {
    let _h = crate::alloc::harness();
    let mut g = CTX.lock().unwrap_or_else(|e| e.into_inner());
    f(g.get_or_insert_with(Ctx::default))
}

pub fn begin(keep: bool) {
    let _h = crate::alloc::harness();
    *CTX.lock().unwrap_or_else(|e| e.into_inner()) = Some(Ctx {
        keep,
        hash: 0x1234_5678_9abc_def0,
        shape: 0x1234_5678,
        ..Ctx::default()
    });
}
pub fn end() -> Ctx {
    CTX.lock().unwrap_or_else(|e| e.into_inner()).take().unwrap_or_default()
}

pub fn fnv(mut h: u64, b: &[u8]) -> u64 {
    for x in b {
        h = (h ^ u64::from(*x)).wrapping_mul(0x0000_0100_0000_01B3);
    }
    h ^ (h >> 29)
}

/// Records an event. `shape` is what makes the history distinct; `text` is the full detail.
pub fn ev(shape: &str, text: impl FnOnce() -> String) {
    with(|c| {
        c.n_events += 1;
        c.shape = fnv(c.shape, shape.as_bytes());
        let t = text();
        c.hash = fnv(fnv(c.hash, shape.as_bytes()), t.as_bytes());
        if c.keep && c.events.len() < 3000 {
            let mut l = format!("t={}us {} {}", c.now_us, shape, t);
            if l.len() > 1500 {
                let mut e = 1500;
                while !l.is_char_boundary(e) {
                    e -= 1;
                }
                l.truncate(e);
                l.push_str("...");
            }
            c.events.push(l);
        }
    })
}
pub fn hash_switch(a: usize, b: usize, at: u64) {
    with(|c| {
        let x = [a as u8, b as u8];
        c.shape = fnv(fnv(c.shape, &x), &at.to_le_bytes());
        c.hash = fnv(fnv(c.hash, &x), &at.to_le_bytes());
        if c.keep && c.events.len() < 3000 {
            c.events.push(format!("t={}us baton {a}->{b} at point {at}", c.now_us));
        }
    })
}
pub fn hit(k: &str) {
    add(k, 1)
}
pub fn add(k: &str, n: u64) {
    with(|c| match c.hits.get_mut(k) {
        Some(x) => *x += n,
        None => {
            c.hits.insert(k.to_owned(), n);
        }
    })
}
pub fn now(us: u64) {
    with(|c| c.now_us = us)
}
pub fn advance(us: u64) {
    with(|c| c.now_us += us)
}
pub fn nontrivial() {
    with(|c| c.nontrivial = true)
}
pub fn sample(f: impl FnOnce() -> V) {
    with(|c| {
        if c.sample.is_null() {
            c.sample = f()
        }
    })
}
pub fn harness_failed(m: &str) {
    with(|c| {
        if c.harness.is_none() {
            c.harness = Some(m.to_owned())
        }
    })
}

/// A violation after which this process cannot go on.
pub fn fatal(class: &str, msg: String) -> ! {
    extern "C" {
        fn _exit(code: i32) -> !;
    }
    let o = std::io::stdout();
    let mut o = o.lock();
    let _ = writeln!(o, "F {}", json!({"class": class, "msg": msg}));
    let _ = o.flush();
    unsafe { _exit(76) }
}
pub fn shape(s: &str) {
    with(|c| c.shape = fnv(c.shape, s.as_bytes()))
}
/// Keeps the largest value seen (kept apart from the counters by its name).
pub fn max(k: &str, n: u64) {
    with(|c| match c.hits.get_mut(k) {
        Some(x) => *x = (*x).max(n),
        None => {
            c.hits.insert(k.to_owned(), n);
        }
    })
}

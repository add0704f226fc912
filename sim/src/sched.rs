//! Baton scheduler. Simulated callers are real OS threads of which exactly one
//! runs; at every allocation, log call and sink write inside a library call the
//! recorded choice sequence decides whether the baton moves and to whom.
//!
//! A caller that blocks on a real lock inside the library (the current code has
//! none, a refactored one may) is noticed by its sleeping kernel state and the
//! baton goes to another caller, so such code is neither hung nor alarmed on.
use crate::ch;
use crate::run;
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Condvar, Mutex, MutexGuard};
use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum At {
    Alloc,
    Log,
    Sink,
    Op,
}

const NONE: usize = usize::MAX;
const MAX: usize = 8;

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Ready,
    Blocked,
    Done,
}

struct Table {
    st: Vec<St>,
    gran: u64,
    at_mask: u8,
}

static TABLE: Mutex<Option<Table>> = Mutex::new(None);
static CVS: [Condvar; MAX + 1] = [const { Condvar::new() }; MAX + 1];
static CUR: AtomicUsize = AtomicUsize::new(NONE);
static LEFT: AtomicU64 = AtomicU64::new(0);
static STEPS: AtomicU64 = AtomicU64::new(0);
static SWITCHES: AtomicU64 = AtomicU64::new(0);
static TIDS: [AtomicU32; MAX] = [const { AtomicU32::new(0) }; MAX];

thread_local! {
    static ME: Cell<usize> = const { Cell::new(NONE) };
}

extern "C" {
    fn gettid() -> i32;
}

fn table() -> MutexGuard<'static, Option<Table>> {
    TABLE.lock().unwrap_or_else(|e| e.into_inner())
}

fn draw_left(gran: u64) -> u64 {
    1 + match gran {
        0 => ch::u(4),
        1 => ch::u(40),
        2 => ch::u(600),
        _ => match ch::u(3) {
            0 => ch::u(3),
            1 => ch::u(100),
            _ => ch::u(5000),
        },
    }
}

/// Called at every intercepted point of a scheduled caller.
pub fn yield_point(at: At) {
    let me = match ME.try_with(|m| m.get()) {
        Ok(NONE) | Err(_) => return,
        Ok(n) => n,
    };
    let _h = crate::alloc::harness();
    STEPS.fetch_add(1, SeqCst);
    if CUR.load(SeqCst) == me {
        let left = LEFT.load(SeqCst);
        if left > 1 {
            LEFT.store(left - 1, SeqCst);
            return;
        }
    }
    let mut g = table();
    if CUR.load(SeqCst) == me {
        let t = g.as_mut().unwrap();
        if t.at_mask & (1 << at as u8) == 0 {
            LEFT.store(1, SeqCst);
            return;
        }
        let ready: Vec<usize> = (0..t.st.len()).filter(|i| t.st[*i] == St::Ready).collect();
        // 0 = stay
        let at0 = ready.iter().position(|i| *i == me).unwrap_or(0);
        let k = ch::us(ready.len());
        let next = ready[(at0 + k) % ready.len()];
        LEFT.store(draw_left(t.gran), SeqCst);
        if next == me {
            return;
        }
        run::hash_switch(me, next, STEPS.load(SeqCst));
        SWITCHES.fetch_add(1, SeqCst);
        CUR.store(next, SeqCst);
        CVS[next].notify_all();
    } else {
        // back from a real lock: queue up again
        if let Some(t) = g.as_mut() {
            t.st[me] = St::Ready;
        }
        if CUR.load(SeqCst) == NONE {
            CUR.store(me, SeqCst);
            LEFT.store(1, SeqCst);
            return;
        }
    }
    while CUR.load(SeqCst) != me {
        g = CVS[me].wait(g).unwrap_or_else(|e| e.into_inner());
    }
}

fn finish(me: usize) {
    let mut g = table();
    let t = g.as_mut().unwrap();
    t.st[me] = St::Done;
    STEPS.fetch_add(1, SeqCst);
    if CUR.load(SeqCst) == me {
        let ready: Vec<usize> = (0..t.st.len()).filter(|i| t.st[*i] == St::Ready).collect();
        if ready.is_empty() {
            CUR.store(NONE, SeqCst);
        } else {
            let next = ready[ch::us(ready.len())];
            LEFT.store(draw_left(t.gran), SeqCst);
            CUR.store(next, SeqCst);
            CVS[next].notify_all();
        }
    }
    CVS[MAX].notify_all();
}

fn asleep(i: usize) -> bool {
    let tid = TIDS[i].load(SeqCst);
    match std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")) {
        Ok(s) => s.rsplit(')').next().map_or(false, |r| r.trim_start().starts_with('S')),
        Err(_) => false,
    }
}

pub struct Report {
    pub switches: u64,
    pub points: u64,
}

/// Runs the tasks to completion under one seeded interleaving.
pub fn run_tasks(tasks: Vec<Box<dyn FnOnce() + Send>>) -> Report {
    let n = tasks.len();
    assert!(n <= MAX && n > 0);
    let gran = ch::u(4);
    // which kinds of points may switch: everything, or only calls out of the library
    let at_mask = if ch::p(1, 5) { 0b1110 } else { 0b1111 };
    *table() = Some(Table {
        st: vec![St::Ready; n],
        gran,
        at_mask,
    });
    STEPS.store(0, SeqCst);
    SWITCHES.store(0, SeqCst);
    CUR.store(NONE, SeqCst);
    let mut hs = Vec::new();
    for (i, t) in tasks.into_iter().enumerate() {
        TIDS[i].store(0, SeqCst);
        hs.push(
            std::thread::Builder::new()
                .name(format!("caller-{i}"))
                .spawn(move || {
                    ME.with(|m| m.set(i));
                    TIDS[i].store(unsafe { gettid() } as u32, SeqCst);
                    {
                        let mut g = table();
                        while CUR.load(SeqCst) != i {
                            g = CVS[i].wait(g).unwrap_or_else(|e| e.into_inner());
                        }
                    }
                    crate::alloc::arm(true);
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(t));
                    crate::alloc::arm(false);
                    if let Err(p) = r {
                        run::harness_failed(&crate::call::text_of(&*p));
                    }
                    finish(i);
                    ME.with(|m| m.set(NONE));
                })
                .unwrap(),
        );
    }
    // everybody parked: hand out the baton
    while (0..n).any(|i| TIDS[i].load(SeqCst) == 0) {
        std::thread::yield_now();
    }
    {
        let _g = table();
        let first = ch::us(n);
        LEFT.store(draw_left(gran), SeqCst);
        CUR.store(first, SeqCst);
        CVS[first].notify_all();
    }
    watch(n);
    for h in hs {
        let _ = h.join();
    }
    *table() = None;
    Report {
        switches: SWITCHES.load(SeqCst),
        points: STEPS.load(SeqCst),
    }
}

fn watch(n: usize) {
    let mut last = (u64::MAX, NONE);
    let mut still = 0u32;
    let mut g = table();
    loop {
        if g.as_ref().unwrap().st.iter().all(|s| *s == St::Done) {
            return;
        }
        let (gg, _) = CVS[MAX]
            .wait_timeout(g, Duration::from_millis(5))
            .unwrap_or_else(|e| e.into_inner());
        g = gg;
        let cur = CUR.load(SeqCst);
        let now = (STEPS.load(SeqCst), cur);
        if now != last {
            last = now;
            still = 0;
            continue;
        }
        if cur != NONE && !asleep(cur) {
            still = 0;
            continue;
        }
        still += 1;
        if still < 10 {
            continue;
        }
        let t = g.as_mut().unwrap();
        if cur != NONE {
            t.st[cur] = St::Blocked;
            run::hit("sched.caller-blocked-on-real-lock");
            match (0..n).find(|i| t.st[*i] == St::Ready) {
                Some(next) => {
                    CUR.store(next, SeqCst);
                    LEFT.store(1, SeqCst);
                    CVS[next].notify_all();
                }
                None => CUR.store(NONE, SeqCst),
            }
            still = 0;
        } else if still > 400 && (0..n).all(|i| t.st[i] == St::Done || asleep(i)) {
            run::fatal("deadlock", "all callers are blocked inside library calls".to_owned());
        }
    }
}

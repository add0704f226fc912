//! The one source of randomness. Every decision of a run (workload, fault,
//! delay, interleaving) is a recorded choice; a run is a pure function of its
//! choice sequence. Value 0 is always the simplest alternative, and a replayed
//! sequence that runs out yields zeros, so shortened sequences stay meaningful.
use std::sync::Mutex;

pub struct Src {
    rng: [u64; 2],
    fixed: Option<Vec<u64>>,
    pub rec: Vec<u64>,
    pub spans: Vec<(usize, usize)>,
    stack: Vec<usize>,
}

static SRC: Mutex<Option<Src>> = Mutex::new(None);
/// File that receives every choice as it is made (for runs that end the process).
pub static TRACE: Mutex<Option<std::fs::File>> = Mutex::new(None);

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut s = a ^ b.rotate_left(32).wrapping_mul(0xD6E8_FEB8_6659_FD93);
    splitmix(&mut s);
    splitmix(&mut s)
}

fn lock() -> std::sync::MutexGuard<'static, Option<Src>> {
    SRC.lock().unwrap_or_else(|e| e.into_inner())
}

pub fn begin(seed: u64, fixed: Option<Vec<u64>>) {
    let mut s = seed;
    let a = splitmix(&mut s);
    let b = splitmix(&mut s) | 1;
    *lock() = Some(Src {
        rng: [a, b],
        fixed,
        rec: Vec::with_capacity(4096),
        spans: Vec::new(),
        stack: Vec::new(),
    });
}

pub fn end() -> Src {
    lock().take().expect("no run in progress")
}

/// Uniform in 0..n.
pub fn u(n: u64) -> u64 {
    let _h = crate::alloc::harness();
    if n <= 1 {
        return 0;
    }
    let mut g = lock();
    let s = g.as_mut().expect("no run in progress");
    let v = match &s.fixed {
        Some(f) => f.get(s.rec.len()).map_or(0, |v| v % n),
        None => {
            // xoroshiro128+ like step, then a bias-free-enough multiply-shift
            let (s0, mut s1) = (s.rng[0], s.rng[1]);
            let r = s0.wrapping_add(s1);
            s1 ^= s0;
            s.rng[0] = s0.rotate_left(24) ^ s1 ^ (s1 << 16);
            s.rng[1] = s1.rotate_left(37);
            let mut m = r;
            let r = splitmix(&mut m);
            ((u128::from(r) * u128::from(n)) >> 64) as u64
        }
    };
    s.rec.push(v);
    if let Some(f) = TRACE.lock().unwrap_or_else(|e| e.into_inner()).as_mut() {
        use std::io::Write;
        let _ = f.write_all(&v.to_le_bytes());
    }
    v
}

pub fn us(n: usize) -> usize {
    u(n as u64) as usize
}

/// lo..=hi
pub fn range(lo: u64, hi: u64) -> u64 {
    lo + u(hi - lo + 1)
}

/// True with probability num/den; false is the simple case.
pub fn p(num: u64, den: u64) -> bool {
    if num == 0 {
        return false;
    }
    u(den) >= den - num.min(den)
}

pub fn pick<'a, T>(s: &'a [T]) -> &'a T {
    &s[us(s.len())]
}

/// Geometric-ish length in lo..=hi, small values likely.
pub fn len(lo: u64, hi: u64) -> usize {
    let w = hi - lo;
    if w == 0 {
        return lo as usize;
    }
    let v = match u(4) {
        0 | 1 => u(w.min(3) + 1),
        2 => u(w.min(8) + 1),
        _ => u(w + 1),
    };
    (lo + v) as usize
}

pub fn shuffle<T>(v: &mut [T]) {
    // value 0 everywhere = identity
    for i in 0..v.len().saturating_sub(1) {
        let j = i + us(v.len() - i);
        v.swap(i, j);
    }
}

pub fn span<R>(f: impl FnOnce() -> R) -> R {
    {
        let _h = crate::alloc::harness();
        let mut g = lock();
        let s = g.as_mut().expect("no run in progress");
        let at = s.rec.len();
        s.stack.push(at);
    }
    let r = f();
    let _h = crate::alloc::harness();
    let mut g = lock();
    if let Some(s) = g.as_mut() {
        if let Some(at) = s.stack.pop() {
            let end = s.rec.len();
            if end > at {
                s.spans.push((at, end));
            }
        }
    }
    r
}

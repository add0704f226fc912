//! Discrete-event network: simulated time, links with delay, loss,
//! duplication, reordering and partitions, nodes that crash and restart.
use crate::ch::{p, pick, range, u, us};
use crate::run;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub enum Ev<M> {
    Msg { from: usize, to: usize, m: M },
    Timer { node: usize, tag: u64, epoch: u64 },
    Crash { node: usize },
    Restart { node: usize },
    Cut { a: usize, b: usize },
    Heal { a: usize, b: usize },
    Calm,
}

/// Fault intensities of one run (out of 64).
#[derive(Clone, Debug)]
pub struct Knobs {
    pub drop: u64,
    pub dup: u64,
    pub jitter: u64,
    pub base: u64,
    pub crashes: u64,
    pub cuts: u64,
    pub frag: usize,
    pub eol: u64,
}
impl Knobs {
    pub fn draw() -> Knobs {
        if p(1, 5) {
            // a fault-free configuration
            return Knobs {
                drop: 0,
                dup: 0,
                jitter: 0,
                base: range(100, 50_000),
                crashes: 0,
                cuts: 0,
                frag: 1 << 20,
                eol: 0,
            };
        }
        Knobs {
            drop: *pick(&[0, 0, 4, 16]),
            dup: *pick(&[0, 0, 4, 16]),
            jitter: *pick(&[0, 1_000, 100_000, 2_000_000]),
            base: range(100, 50_000),
            crashes: *pick(&[0, 0, 1, 2, 4]),
            cuts: *pick(&[0, 0, 1, 2]),
            frag: *pick(&[1 << 20, 1200, 300, 64]),
            eol: *pick(&[0, 8, 32]),
        }
    }
}

pub struct Net<M> {
    pub now: u64,
    seq: u64,
    q: BTreeMap<(u64, u64), Ev<M>>,
    pub k: Knobs,
    cut: BTreeSet<(usize, usize)>,
    pub up: Vec<bool>,
    pub epoch: Vec<u64>,
    pub calm: bool,
}

impl<M: Clone> Net<M> {
    pub fn new(n: usize, k: Knobs) -> Net<M> {
        Net {
            now: 0,
            seq: 0,
            q: BTreeMap::new(),
            k,
            cut: BTreeSet::new(),
            up: vec![true; n],
            epoch: vec![0; n],
            calm: false,
        }
    }
    pub fn after(&mut self, d: u64, e: Ev<M>) {
        self.seq += 1;
        self.q.insert((self.now + d, self.seq), e);
    }
    pub fn timer(&mut self, node: usize, d: u64, tag: u64) {
        let epoch = self.epoch[node];
        self.after(d, Ev::Timer { node, tag, epoch });
    }
    fn pair(a: usize, b: usize) -> (usize, usize) {
        (a.min(b), a.max(b))
    }
    /// Schedules the run's crashes and partitions within `horizon`.
    pub fn plan(&mut self, horizon: u64, crashable: &[usize]) {
        for _ in 0..self.k.crashes {
            if crashable.is_empty() {
                break;
            }
            let node = *pick(crashable);
            let at = u(horizon);
            self.after(at, Ev::Crash { node });
        }
        for _ in 0..self.k.cuts {
            let n = self.up.len();
            if n < 2 {
                break;
            }
            let a = us(n);
            let b = (a + 1 + us(n - 1)) % n;
            let at = u(horizon);
            self.after(at, Ev::Cut { a, b });
            self.after(at + 1 + u(horizon), Ev::Heal { a, b });
        }
        self.after(horizon * 2, Ev::Calm);
    }
    pub fn send(&mut self, from: usize, to: usize, m: M) {
        if !self.calm {
            if self.cut.contains(&Self::pair(from, to)) {
                run::hit("fault.partition-drop");
                return;
            }
            if p(self.k.drop, 64) {
                run::hit("fault.message-lost");
                return;
            }
        }
        let mut d = self.k.base;
        if !self.calm && self.k.jitter > 0 {
            let j = u(self.k.jitter + 1);
            if j > self.k.base {
                run::hit("fault.message-delayed");
            }
            d += j;
        }
        if !self.calm && p(self.k.dup, 64) {
            run::hit("fault.message-duplicated");
            let j = u(self.k.jitter + self.k.base + 1);
            self.after(d + j, Ev::Msg { from, to, m: m.clone() });
        }
        self.after(d, Ev::Msg { from, to, m });
    }
    /// The next event that reaches somebody.
    pub fn next(&mut self) -> Option<Ev<M>> {
        loop {
            let (key, e) = self.q.pop_first()?;
            self.now = self.now.max(key.0);
            run::now(self.now);
            match &e {
                Ev::Msg { to, .. } => {
                    if !self.up[*to] {
                        run::hit("fault.message-to-dead-node");
                        continue;
                    }
                }
                Ev::Timer { node, epoch, .. } => {
                    if !self.up[*node] || self.epoch[*node] != *epoch {
                        continue;
                    }
                }
                Ev::Crash { node } => {
                    if !self.up[*node] {
                        continue;
                    }
                    self.up[*node] = false;
                    self.epoch[*node] += 1;
                    run::hit("fault.crash");
                    let d = 1 + u(500_000);
                    self.after(d, Ev::Restart { node: *node });
                }
                Ev::Restart { node } => {
                    if self.up[*node] {
                        continue;
                    }
                    self.up[*node] = true;
                    run::hit("fault.restart");
                }
                Ev::Cut { a, b } => {
                    self.cut.insert(Self::pair(*a, *b));
                    run::hit("fault.partition");
                    continue;
                }
                Ev::Heal { a, b } => {
                    self.cut.remove(&Self::pair(*a, *b));
                    continue;
                }
                Ev::Calm => {
                    self.calm = true;
                    self.cut.clear();
                    continue;
                }
            }
            return Some(e);
        }
    }
}

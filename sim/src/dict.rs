//! Numbers and words borrowed from the library's source (see build.rs). On a
//! tree that differs from the recorded one, half of the runs lean towards what
//! is near the difference. Only generation is steered, never judgement.
use crate::ch::{p, pick as pick_one, u, us};
use std::collections::BTreeMap;
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

include!(concat!(env!("OUT_DIR"), "/dict.rs"));

static FOCUS: AtomicBool = AtomicBool::new(false);

/// At the start of every run.
pub fn begin() {
    FOCUS.store(CHANGED > 0 && p(1, 2), Relaxed);
    if focus() {
        crate::run::hit("probe.near-a-change");
    }
}
pub fn focus() -> bool {
    CHANGED > 0 && FOCUS.load(Relaxed)
}

fn some(new: bool) -> Option<u64> {
    let c = *if new && focus() && !NEW_INTS.is_empty() {
        pick_one(NEW_INTS)
    } else if !INTS.is_empty() {
        pick_one(INTS)
    } else {
        return None;
    };
    match u(10) {
        0 | 1 => Some(c),
        2 | 3 => c.checked_add(1),
        4 | 5 => c.checked_sub(1),
        6 => c.checked_mul(2),
        7 => 1u64.checked_shl(c.try_into().unwrap_or(99)).map(|x| x - u(2)),
        8 => c.checked_mul(1 + u(100)),
        _ => c.checked_add(u(20)),
    }
}
fn due() -> Option<bool> {
    if focus() && !NEW_INTS.is_empty() && p(1, 8) {
        return Some(true);
    }
    if p(1, 48) {
        return Some(false);
    }
    None
}
/// A number up to `max` related to one in the source, now and then.
pub fn int(max: u64) -> Option<u64> {
    due().and_then(some).filter(|n| *n <= max)
}
/// A count in lo..=hi related to a number in the source, rarely.
pub fn length(lo: u64, hi: u64) -> Option<usize> {
    let new = if focus() && NEW_INTS.iter().any(|n| *n <= 2 * hi) && p(1, 24) {
        true
    } else if p(1, 200) {
        false
    } else {
        return None;
    };
    some(new).filter(|n| (lo..=hi).contains(n)).map(|n| n as usize)
}
/// A word of the source as it is, now and then.
pub fn raw() -> Option<&'static str> {
    if focus() && !NEW_STRS.is_empty() && p(1, 8) {
        return Some(pick_one(NEW_STRS));
    }
    if !STRS.is_empty() && p(1, 64) {
        return Some(pick_one(STRS));
    }
    None
}
/// The same reduced to characters that may stand in a token.
pub fn word(ok: impl Fn(char) -> bool) -> Option<String> {
    let w: String = raw()?.chars().filter(|c| ok(*c)).collect();
    (!w.is_empty()).then_some(w)
}

fn plain(s: &str) -> String {
    s.chars().filter(|c| c.is_ascii_alphanumeric()).collect::<String>().to_lowercase()
}
/// Does what changed speak of this?
fn near(name: &str) -> bool {
    static KNOWN: Mutex<BTreeMap<String, bool>> = Mutex::new(BTreeMap::new());
    let mut k = KNOWN.lock().unwrap_or_else(|e| e.into_inner());
    if let Some(b) = k.get(name) {
        return *b;
    }
    let b = looked_up(name);
    k.insert(name.to_owned(), b);
    b
}
fn looked_up(name: &str) -> bool {
    let n = plain(name);
    let stem = n.trim_end_matches('s');
    NEW_WORDS.iter().any(|w| *w == n || (n.len() > 4 && w.contains(stem)))
}
/// What a line is about: the name of its attribute, or all of it.
fn topic(l: &str) -> &str {
    match l.strip_prefix("a=") {
        Some(a) => a.split(':').next().unwrap_or(a),
        None => l,
    }
}
/// One of a list of names or lines; those near a change more often.
pub fn pick<'a>(l: &[&'a str]) -> &'a str {
    l[index(l.len(), |i| l[i])]
}
pub fn index<'a>(n: usize, name: impl Fn(usize) -> &'a str) -> usize {
    if focus() && p(1, 3) {
        let v: Vec<usize> = (0..n).filter(|i| near(topic(name(*i)))).collect();
        if !v.is_empty() {
            return v[us(v.len())];
        }
    }
    us(n)
}
/// The names near a change.
pub fn close<'a>(l: &[&'a str]) -> Vec<&'a str> {
    l.iter().copied().filter(|s| near(s)).collect()
}

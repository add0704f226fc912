//! Minimises a failing choice sequence. Every candidate runs in a fresh
//! process, so what survives also reproduces in one.
use crate::one::strip;
use serde_json::{json, Value as V};
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Seen {
    pub class: Option<String>,
    pub msg: String,
    pub choices: Vec<u64>,
    pub spans: Vec<(usize, usize)>,
    pub events: Vec<String>,
    pub hash: String,
    pub harness: Option<String>,
}

#[derive(Clone)]
pub struct Case {
    pub property: String,
    pub run_seed: u64,
    pub warmup: Vec<u64>,
    pub choices: Option<Vec<u64>>,
    pub limit: Duration,
}

pub fn signal_name(n: i32) -> String {
    match n {
        4 => "SIGILL".into(),
        6 => "SIGABRT".into(),
        7 => "SIGBUS".into(),
        8 => "SIGFPE".into(),
        9 => "SIGKILL".into(),
        11 => "SIGSEGV".into(),
        n => format!("signal {n}"),
    }
}

/// Runs the case in a fresh process.
pub fn observe(c: &Case, keep: bool, trace: bool) -> Seen {
    let exe = std::env::current_exe().expect("own path");
    let tf = std::env::temp_dir().join(format!("sdpsim-trace-{}-{:?}", std::process::id(), std::thread::current().id()));
    let mut cmd = Command::new(exe);
    cmd.arg("exec");
    if trace {
        cmd.arg("--trace").arg(&tf);
    }
    let mut ch = cmd
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn");
    let job = json!({"property": c.property, "run_seed": c.run_seed, "warmup": c.warmup, "choices": c.choices, "keep": keep});
    {
        let mut i = ch.stdin.take().unwrap();
        let _ = i.write_all(job.to_string().as_bytes());
    }
    let mut out = ch.stdout.take().unwrap();
    let rd = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = out.read_to_string(&mut s);
        s
    });
    let t0 = Instant::now();
    let mut hung = false;
    let mut nap = 200;
    let st = loop {
        match ch.try_wait().expect("wait") {
            Some(s) => break s,
            None if t0.elapsed() > c.limit => {
                hung = true;
                let _ = ch.kill();
                break ch.wait().expect("wait");
            }
            None => {
                std::thread::sleep(Duration::from_micros(nap));
                nap = (nap * 3 / 2).min(5000);
            }
        }
    };
    let s = rd.join().unwrap_or_default();
    let mut seen = Seen {
        class: None,
        msg: String::new(),
        choices: c.choices.clone().unwrap_or_default(),
        spans: vec![],
        events: vec![],
        hash: String::new(),
        harness: None,
    };
    if trace {
        if let Ok(b) = std::fs::read(&tf) {
            seen.choices = b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
        }
        let _ = std::fs::remove_file(&tf);
    }
    for l in s.lines() {
        if let Some(j) = l.strip_prefix("F ") {
            let j: V = serde_json::from_str(j).unwrap_or_default();
            seen.class = j["class"].as_str().map(str::to_owned);
            seen.msg = j["msg"].as_str().unwrap_or("").to_owned();
            return seen;
        }
        if let Some(j) = l.strip_prefix("X ") {
            let j: V = serde_json::from_str(j).unwrap_or_default();
            if let Some(v) = j["violation"].as_object() {
                seen.class = v["class"].as_str().map(str::to_owned);
                seen.msg = v["msg"].as_str().unwrap_or("").to_owned();
            }
            seen.harness = j["harness"].as_str().map(str::to_owned);
            if let Some(a) = j["choices"].as_array() {
                seen.choices = a.iter().filter_map(V::as_u64).collect();
            }
            if let Some(a) = j["spans"].as_array() {
                seen.spans = a
                    .iter()
                    .map(|p| (p[0].as_u64().unwrap_or(0) as usize, p[1].as_u64().unwrap_or(0) as usize))
                    .collect();
            }
            if let Some(a) = j["events"].as_array() {
                seen.events = a.iter().filter_map(|e| e.as_str().map(str::to_owned)).collect();
            }
            seen.hash = j["hash"].as_str().unwrap_or("").to_owned();
            return seen;
        }
    }
    if hung {
        seen.class = Some("hang".to_owned());
        seen.msg = format!("a library call does not return within {} s", c.limit.as_secs());
    } else {
        let (class, msg) = death(&st);
        seen.class = class;
        seen.msg = msg;
    }
    seen
}

/// What the way a worker ended says about the library (None: a harness problem).
pub fn death(st: &std::process::ExitStatus) -> (Option<String>, String) {
    use std::os::unix::process::ExitStatusExt;
    if st.code() == Some(crate::alloc::EXIT_BUDGET) {
        return (
            Some("memory-budget".to_owned()),
            "one library call exceeds 1 GiB live, 8 GiB total or 400 million allocations".to_owned(),
        );
    }
    match st.signal() {
        Some(n) if [4, 6, 7, 8, 11].contains(&n) => (
            Some(format!("died:{}", signal_name(n))),
            format!("the process dies with {} inside a library call", signal_name(n)),
        ),
        _ => (None, format!("process ended with {st}")),
    }
}

fn simpler(a: &[u64], b: &[u64]) -> bool {
    (a.len(), a) < (b.len(), b)
}

/// Smallest case found that still shows a violation of the same class.
pub fn minimise(case: &Case, first: Seen, class: &str, budget: Duration) -> (Vec<u64>, Seen, u64) {
    let t0 = Instant::now();
    let mut best = first;
    best.choices = strip(best.choices);
    let tried = std::sync::atomic::AtomicU64::new(0);
    let jobs = std::thread::available_parallelism().map_or(4, |n| n.get()).min(8);
    let attempt = |cands: Vec<Vec<u64>>, best: &mut Seen| -> bool {
        for batch in cands.chunks(jobs) {
            if t0.elapsed() > budget {
                return false;
            }
            let res: Vec<Seen> = std::thread::scope(|s| {
                let hs: Vec<_> = batch
                    .iter()
                    .map(|c| {
                        let mut k = case.clone();
                        k.choices = Some(c.clone());
                        let tried = &tried;
                        s.spawn(move || {
                            tried.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                            observe(&k, false, false)
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().expect("shrink thread")).collect()
            });
            for (mut r, c) in res.into_iter().zip(batch) {
                if r.class.as_deref() != Some(class) {
                    continue;
                }
                // what the run really consumed may be shorter than what it was given
                let used = strip(r.choices.clone());
                let c = strip(c.clone());
                r.choices = if !used.is_empty() && simpler(&used, &c) { used } else { c };
                if simpler(&r.choices, &best.choices) {
                    *best = r;
                    return true;
                }
            }
        }
        false
    };
    loop {
        let mut progress = false;
        // whole steps, largest first
        loop {
            let n = best.choices.len();
            let mut sp: Vec<(usize, usize)> = best.spans.iter().copied().filter(|s| s.0 < n).collect();
            sp.sort_by_key(|s| std::cmp::Reverse(s.1 - s.0));
            sp.dedup();
            let c: Vec<Vec<u64>> = sp
                .iter()
                .take(200)
                .map(|(a, b)| {
                    let mut v = best.choices[..*a].to_vec();
                    v.extend_from_slice(&best.choices[(*b).min(n)..]);
                    v
                })
                .collect();
            if !attempt(c, &mut best) {
                break;
            }
            progress = true;
        }
        // truncation, chunks of any size, zeroed chunks
        let mut size = (best.choices.len() / 2).max(1);
        loop {
            let mut at = 0;
            loop {
                let n = best.choices.len();
                if at >= n || t0.elapsed() > budget {
                    break;
                }
                let mut c = Vec::new();
                let mut a = at;
                while a < n && c.len() < 2 * jobs {
                    let e = (a + size).min(n);
                    let mut v = best.choices[..a].to_vec();
                    v.extend_from_slice(&best.choices[e..]);
                    c.push(v);
                    if best.choices[a..e].iter().any(|x| *x != 0) {
                        let mut v = best.choices.clone();
                        v[a..e].fill(0);
                        c.push(v);
                    }
                    a = e;
                }
                if attempt(c, &mut best) {
                    progress = true;
                } else {
                    at = a;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // single values
        let mut i = 0;
        while i < best.choices.len() && t0.elapsed() <= budget {
            let mut c = Vec::new();
            let mut j = i;
            while j < best.choices.len() && c.len() < 2 * jobs {
                let v = best.choices[j];
                for w in [v / 2, v.saturating_sub(1)] {
                    if w < v {
                        let mut x = best.choices.clone();
                        x[j] = w;
                        c.push(x);
                    }
                }
                j += 1;
            }
            if attempt(c, &mut best) {
                progress = true;
            } else {
                i = j;
            }
        }
        if !progress || t0.elapsed() > budget {
            break;
        }
    }
    let n = tried.load(std::sync::atomic::Ordering::Relaxed);
    (best.choices.clone(), best, n)
}

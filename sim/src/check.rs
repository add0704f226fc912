//! The deciding step: seeded search over runs in worker processes, evidence,
//! violation reports, replay and the determinism self-test.
use crate::one::run_seed;
use crate::props::{self, Prop};
use crate::run::Violation;
use crate::shrink::{self, Case};
use serde_json::{json, Value as V};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn home() -> PathBuf {
    std::env::var_os("SDPSIM_HOME").map_or_else(|| PathBuf::from("/verif"), PathBuf::from)
}

pub struct Known {
    pub class: String,
    pub contains: String,
    pub text: String,
}
impl Known {
    pub fn matches(&self, v: &Violation) -> bool {
        v.class == self.class && v.msg.contains(&self.contains)
    }
}
/// `finding: property=<id> class=<class> contains="<text>" <description>` lines.
pub fn known(prop: &str) -> Vec<Known> {
    let s = std::fs::read_to_string(home().join("known_findings.txt")).unwrap_or_default();
    s.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("finding: ")?.strip_prefix(&format!("property={prop} "))?;
            let l = l.strip_prefix("class=")?;
            let (class, l) = l.split_once(' ')?;
            let l = l.strip_prefix("contains=\"")?;
            let (contains, text) = l.split_once("\" ")?;
            Some(Known {
                class: class.to_owned(),
                contains: contains.to_owned(),
                text: text.to_owned(),
            })
        })
        .collect()
}

enum End {
    Done(V),
    Bad { run: u64, class: String, msg: String, choices: Option<Vec<u64>> },
    Harness(String),
    Stopped,
}

const QUIET: Duration = Duration::from_secs(45);

fn block(prop: &str, seed: u64, from: u64, to: u64, hashes: bool, stop: &AtomicBool) -> End {
    let exe = std::env::current_exe().expect("own path");
    let mut cmd = Command::new(exe);
    cmd.args(["worker", "--property", prop, "--seed", &seed.to_string(), "--from", &from.to_string(), "--to", &to.to_string()]);
    if hashes {
        cmd.args(["--hashes", "1"]);
    }
    let mut ch = cmd.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().expect("spawn worker");
    let out = ch.stdout.take().unwrap();
    let err = ch.stderr.take().unwrap();
    let last = Arc::new(Mutex::new((from, Instant::now())));
    let last2 = last.clone();
    let rd = std::thread::spawn(move || {
        let mut keep = Vec::new();
        for l in BufReader::new(out).lines() {
            let Ok(l) = l else { break };
            if let Some(n) = l.strip_prefix("S ") {
                if let Ok(n) = n.parse() {
                    *last2.lock().unwrap() = (n, Instant::now());
                }
            } else {
                keep.push(l);
            }
        }
        keep
    });
    let re = std::thread::spawn(move || {
        let mut t = Vec::new();
        for l in BufReader::new(err).lines().map_while(Result::ok) {
            if t.len() < 40 {
                t.push(l);
            }
        }
        t
    });
    let mut hung = false;
    let st = loop {
        match ch.try_wait().expect("wait") {
            Some(s) => break s,
            None => {
                if stop.load(SeqCst) {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    let _ = rd.join();
                    return End::Stopped;
                }
                if last.lock().unwrap().1.elapsed() > QUIET {
                    hung = true;
                    let _ = ch.kill();
                    break ch.wait().expect("wait");
                }
                std::thread::sleep(Duration::from_millis(5));
            }
        }
    };
    let lines = rd.join().unwrap_or_default();
    let errs = re.join().unwrap_or_default();
    let at = last.lock().unwrap().0;
    let mut done = None;
    for l in &lines {
        let Some((tag, j)) = l.split_once(' ') else { continue };
        let j: V = serde_json::from_str(j).unwrap_or_default();
        match tag {
            "V" | "F" => {
                return End::Bad {
                    run: j["run"].as_u64().unwrap_or(at),
                    class: j["class"].as_str().unwrap_or("").to_owned(),
                    msg: j["msg"].as_str().unwrap_or("").to_owned(),
                    choices: j["choices"].as_array().map(|a| a.iter().filter_map(V::as_u64).collect()),
                }
            }
            "H" => return End::Harness(format!("run {}: {}", j["run"], j["msg"].as_str().unwrap_or(""))),
            "D" => done = Some(j),
            _ => {}
        }
    }
    if let (Some(d), true) = (done, st.success()) {
        return End::Done(d);
    }
    if hung {
        return End::Bad { run: at, class: "hang".to_owned(), msg: String::new(), choices: None };
    }
    match shrink::death(&st) {
        (Some(class), msg) => End::Bad { run: at, class, msg, choices: None },
        (None, m) => End::Harness(format!("{m}; {}", errs.join(" / "))),
    }
}

fn tier() -> &'static str {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    }
}
fn verif_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}

fn block_size(runs: u64) -> u64 {
    (runs / 64).clamp(20, 4000)
}

pub fn check(id: &str, jobs: Option<u64>, runs: Option<u64>) -> i32 {
    let Some(p) = props::find(id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let t0 = Instant::now();
    let tier = tier();
    let seed = verif_seed();
    println!("seed {seed} tier {tier} property {id}");
    let total = runs.unwrap_or(if tier == "quick" { p.quick } else { p.thorough });
    let wall = Duration::from_secs(
        std::env::var("SDPSIM_WALL").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "quick" { 240 } else { 1500 }),
    );
    let size = block_size(total);
    let blocks = total.div_ceil(size);
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let ends: Mutex<Vec<(u64, End)>> = Mutex::new(Vec::new());
    let jobs = jobs.unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get()).min(16) as u64);
    std::thread::scope(|s| {
        for _ in 0..jobs {
            s.spawn(|| loop {
                let b = next.fetch_add(1, SeqCst);
                if b >= blocks || stop.load(SeqCst) || t0.elapsed() > wall {
                    break;
                }
                let e = block(id, seed, b * size, ((b + 1) * size).min(total), false, &stop);
                if matches!(e, End::Bad { .. } | End::Harness(_)) {
                    stop.store(true, SeqCst);
                }
                ends.lock().unwrap().push((b, e));
            });
        }
    });
    let mut ends = ends.into_inner().unwrap();
    ends.sort_by_key(|e| e.0);
    let mut hits: BTreeMap<String, u64> = BTreeMap::new();
    let (mut n_runs, mut sim, mut events, mut choices) = (0u64, 0u64, 0u64, 0u64);
    let mut shapes: HashSet<String> = HashSet::new();
    let mut samples = Vec::new();
    let mut bad = None;
    let mut harness = None;
    for (b, e) in ends {
        match e {
            End::Done(d) => {
                n_runs += d["runs"].as_u64().unwrap_or(0);
                sim += d["sim_us"].as_u64().unwrap_or(0);
                events += d["events"].as_u64().unwrap_or(0);
                choices += d["choices"].as_u64().unwrap_or(0);
                if let Some(h) = d["hits"].as_object() {
                    for (k, v) in h {
                        let v = v.as_u64().unwrap_or(0);
                        let e = hits.entry(k.clone()).or_default();
                        if k.starts_with("worst") {
                            *e = (*e).max(v)
                        } else {
                            *e += v
                        }
                    }
                }
                for s in d["shapes"].as_array().unwrap_or(&Vec::new()) {
                    shapes.insert(s.as_str().unwrap_or("").to_owned());
                }
                if samples.len() < 3 {
                    samples.extend(d["samples"].as_array().cloned().unwrap_or_default().into_iter().take(3 - samples.len()));
                }
            }
            End::Bad { run, class, msg, choices } => {
                if bad.is_none() {
                    bad = Some((b * size, run, class, msg, choices));
                }
            }
            End::Harness(m) => {
                if harness.is_none() {
                    harness = Some(m);
                }
            }
            End::Stopped => {}
        }
    }
    let search_s = t0.elapsed().as_secs_f64();
    let mut code = 0;
    let mut violations = 0;
    let mut report = V::Null;
    if let Some((from, run, class, msg, ch)) = bad {
        match confirm(id, seed, tier, from, run, &class, &msg, ch) {
            Ok((path, what)) => {
                violations = 1;
                code = 1;
                report = what;
                println!("VIOLATION property={id} replay={path}");
            }
            Err(m) => harness = Some(m),
        }
    }
    if code == 0 {
        for (i, k) in known(id).iter().enumerate() {
            println!(
                "KNOWN-FINDING: property={id} {} (met {} times)",
                k.text,
                hits.get(&format!("known-finding.{i}")).copied().unwrap_or(0)
            );
        }
    }
    if let (0, Some(m)) = (code, &harness) {
        eprintln!("harness error: {m}");
        code = 2;
    }
    let (faults, rest): (BTreeMap<_, _>, BTreeMap<_, _>) = hits.into_iter().partition(|(k, _)| k.starts_with("fault."));
    let ev = json!({
        "property": id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": n_runs,
            "distinct_nontrivial": shapes.len(),
            "rule": p.rule,
            "samples": samples,
            "runs_per_hour": if search_s > 0.0 { (n_runs as f64 / search_s * 3600.0) as u64 } else { 0 },
            "seeds": format!("run i of 0..{total} uses seed mix(mix(VERIF_SEED, fnv({id})), i); one seed is one run"),
            "planned_runs": total,
            "simulated_seconds": sim as f64 / 1e6,
            "events_recorded": events,
            "choices_made": choices,
            "faults_injected": faults,
            "probes": rest,
            "components_real": p.real,
            "components_stubbed": p.stub,
            "source_lines_off_the_recorded_tree": crate::dict::CHANGED,
            "violation": report,
            "search_wall_s": search_s,
        },
        "assumptions": [
            "the pinned dependencies (url, serde, log) behave as documented",
            "interleavings are decided at allocations, log calls, sink writes and operation boundaries of the library; the library has no other synchronisation or I/O",
            "sampling: a clean batch is evidence, not proof"
        ],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let dir = home().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(dir.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap()) {
        eprintln!("cannot write evidence: {e}");
        code = if code == 0 { 2 } else { code };
    }
    println!("{id}: {n_runs} runs, {} distinct non-trivial, {:.1} s, exit {code}", shapes.len(), t0.elapsed().as_secs_f64());
    code
}

/// Reproduces a reported violation in a fresh process and minimises it.
#[allow(clippy::too_many_arguments)]
fn confirm(
    id: &str,
    seed: u64,
    tier: &str,
    from: u64,
    run: u64,
    class: &str,
    msg: &str,
    choices: Option<Vec<u64>>,
) -> Result<(String, V), String> {
    println!("run {run}: {class}: {}", props::cut(msg, 600));
    let limit = if class == "hang" { QUIET } else { Duration::from_secs(60) };
    let mut case = Case {
        property: id.to_owned(),
        run_seed: run_seed(seed, id, run),
        warmup: vec![],
        choices: choices.clone(),
        limit,
    };
    let mut seen = shrink::observe(&case, false, choices.is_none());
    if seen.class.as_deref() != Some(class) {
        // state left behind by earlier runs of the same process?
        for back in [1u64, 4, 16, 64, u64::MAX] {
            let lo = run.saturating_sub(back).max(from);
            case.warmup = (lo..run).map(|i| run_seed(seed, id, i)).collect();
            seen = shrink::observe(&case, false, choices.is_none());
            if seen.class.as_deref() == Some(class) || lo == from {
                break;
            }
        }
    }
    if seen.class.is_none() {
        return Err(format!("run {run} reported {class} ({msg}) but does not reproduce"));
    }
    let class = seen.class.clone().unwrap();
    let mut budget = Duration::from_secs(if tier == "quick" { 60 } else { 180 });
    // drop warm-up runs that do not matter
    while !case.warmup.is_empty() {
        let mut k = case.clone();
        k.warmup.remove(0);
        let r = shrink::observe(&k, false, false);
        if r.class.as_deref() != Some(&class) {
            break;
        }
        case = k;
    }
    if class == "hang" {
        // every candidate that still fails costs the full limit: keep it short
        case.limit = Duration::from_secs(10);
        budget = Duration::from_secs(90);
    }
    let full = seen.clone();
    let (choices, _, tried) = shrink::minimise(&case, seen, &class, budget);
    let mut last = case.clone();
    last.choices = Some(choices);
    last.limit = limit;
    let mut fin = shrink::observe(&last, true, false);
    if fin.class.as_deref() != Some(&class) {
        last.choices = Some(full.choices.clone());
        fin = shrink::observe(&last, true, false);
        if fin.class.as_deref() != Some(&class) {
            return Err(format!("run {run}: {class} does not replay from its recorded choices"));
        }
    }
    let out = json!({
        "property": id, "verif_seed": seed, "tier": tier, "run": run, "run_seed": case.run_seed,
        "warmup": case.warmup, "choices": last.choices, "class": class, "message": fin.msg,
        "original_choices": full.choices.len(), "minimisation_attempts": tried,
        "how_to_replay": "sdpsim replay <this file>  (/verif/replay.sh)",
        "trace": fin.events, "trace_hash": fin.hash,
    });
    let dir = home().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{id}-seed{seed}-run{run}.json"));
    std::fs::write(&path, serde_json::to_string_pretty(&out).unwrap()).map_err(|e| format!("cannot write replay: {e}"))?;
    println!("minimised from {} to {} choices: {class}: {}", full.choices.len(), last.choices.as_ref().map_or(0, Vec::len), props::cut(&fin.msg, 1200));
    Ok((
        path.display().to_string(),
        json!({"class": class, "message": props::cut(&fin.msg, 1500), "run": run, "replay": path.display().to_string()}),
    ))
}

pub fn replay(file: &str) -> i32 {
    let Ok(s) = std::fs::read_to_string(file) else {
        eprintln!("cannot read {file}");
        return 2;
    };
    let j: V = serde_json::from_str(&s).expect("replay file");
    let nums = |k: &str| -> Vec<u64> {
        j[k].as_array().map(|a| a.iter().filter_map(V::as_u64).collect()).unwrap_or_default()
    };
    let id = j["property"].as_str().unwrap_or("");
    let case = Case {
        property: id.to_owned(),
        run_seed: j["run_seed"].as_u64().unwrap_or(0),
        warmup: nums("warmup"),
        choices: Some(nums("choices")),
        limit: Duration::from_secs(60),
    };
    let r = shrink::observe(&case, true, false);
    for e in &r.events {
        println!("{e}");
    }
    match r.class {
        Some(c) => {
            println!("{c}: {}", r.msg);
            let same = Some(c.as_str()) == j["class"].as_str() && Some(r.hash.as_str()) == j["trace_hash"].as_str();
            println!("{}", if same { "identical execution" } else { "execution differs from the recorded one" });
            println!("VIOLATION property={id} replay={file}");
            1
        }
        None if r.harness.is_some() => {
            eprintln!("harness error: {}", r.harness.unwrap());
            2
        }
        None => {
            println!("not reproduced");
            0
        }
    }
}

/// Same seeds in different processes, at different worker counts and block
/// boundaries, must give identical event logs.
pub fn selftest(seeds: u64, runs: u64) -> i32 {
    let stop = AtomicBool::new(false);
    let bad = AtomicU64::new(0);
    let done = AtomicU64::new(0);
    let logs = |p: &'static Prop, seed: u64, split: u64| -> Vec<String> {
        let mut v = Vec::new();
        let mut a = 0;
        while a < runs {
            let b = (a + split).min(runs);
            match block(p.id, seed, a, b, true, &stop) {
                End::Done(d) => v.extend(d["logs"].as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_owned())),
                End::Bad { run, class, msg, .. } => v.push(format!("bad {run} {class} {msg}")),
                End::Harness(m) => v.push(format!("harness {m}")),
                End::Stopped => {}
            }
            a = b;
        }
        v
    };
    for jobs in [1u64, 8, 16] {
        // same work at several worker counts; each is compared with a reference made at another
        let work: Mutex<Vec<(&'static Prop, u64)>> = Mutex::new(
            props::PROPS
                .iter()
                .flat_map(|p| (0..if jobs == 1 { seeds / 10 } else { seeds }).map(move |s| (p, s + 1)))
                .collect(),
        );
        std::thread::scope(|s| {
            for _ in 0..jobs {
                s.spawn(|| loop {
                    let Some((p, seed)) = work.lock().unwrap().pop() else { break };
                    let a = logs(p, seed, runs);
                    let b = logs(p, seed, (runs / 3).max(1));
                    done.fetch_add(1, SeqCst);
                    if a != b {
                        bad.fetch_add(1, SeqCst);
                        let d = a.iter().zip(&b).find(|(x, y)| x != y);
                        println!("DIVERGED {} seed {seed}: {d:?} ({} vs {} entries)", p.id, a.len(), b.len());
                    }
                });
            }
        });
    }
    println!("selftest: {} seed/property pairs run twice, {} diverged", done.load(SeqCst), bad.load(SeqCst));
    i32::from(bad.load(SeqCst) > 0)
}

//! Executes single runs. A run is a pure function of (property, run seed,
//! choices, the code under test and the runs executed before it in its process).
use crate::props::{self, Prop};
use crate::run::{self, Ctx, Violation};
use crate::{call, ch, gen, sink};
use serde_json::{json, Value as V};
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

// -------------------------------------------------------- randomness seam
static HASH_SEED: AtomicU64 = AtomicU64::new(1);
static HASH_CALLS: AtomicU64 = AtomicU64::new(0);

/// Every request for operating system randomness (hash map seeds) in this
/// process ends here: libc's `getrandom` is replaced by a seeded stream.
///
/// # Safety
/// Same contract as getrandom(2).
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut s = ch::mix(HASH_SEED.load(SeqCst), HASH_CALLS.fetch_add(1, SeqCst));
    for i in 0..len {
        if i % 8 == 0 {
            ch::splitmix(&mut s);
        }
        *buf.add(i) = (s >> (8 * (i % 8))) as u8;
    }
    len as isize
}

pub fn run_seed(verif_seed: u64, prop: &str, idx: u64) -> u64 {
    ch::mix(ch::mix(verif_seed, run::fnv(0xcbf2_9ce4_8422_2325, prop.as_bytes())), idx)
}

pub struct Outcome {
    pub violation: Option<Violation>,
    pub ctx: Ctx,
    pub src: ch::Src,
}

pub fn execute(prop: &'static Prop, seed: u64, choices: Option<Vec<u64>>, keep: bool) -> Outcome {
    HASH_SEED.store(seed, SeqCst);
    HASH_CALLS.store(0, SeqCst);
    ch::begin(seed, choices);
    run::begin(keep);
    gen::secret_reset();
    log::set_max_level(log::LevelFilter::Off);
    let h = std::thread::Builder::new()
        .name("run".to_owned())
        // (of a size embedders give their threads)
        .stack_size(512 << 10)
        .spawn(move || {
            crate::dict::begin();
            (prop.run)()
        })
        .expect("spawn");
    let r = h.join();
    sink::abort_at(None);
    let src = ch::end();
    let mut ctx = run::end();
    let violation = match r {
        Ok(Ok(())) => None,
        Ok(Err(v)) => Some(v),
        Err(p) => {
            if ctx.harness.is_none() {
                ctx.harness = Some(call::text_of(&*p));
            }
            None
        }
    };
    Outcome { violation, ctx, src }
}

pub fn setup() {
    call::install_hook();
    sink::install();
}

fn say(tag: &str, v: &V) {
    let o = std::io::stdout();
    let mut o = o.lock();
    let _ = writeln!(o, "{tag} {v}");
    let _ = o.flush();
}

pub fn strip(mut v: Vec<u64>) -> Vec<u64> {
    while v.last() == Some(&0) {
        v.pop();
    }
    v
}

/// A block of runs. Lines: S heartbeat, V violation, H harness failure, D summary.
pub fn worker(prop: &str, seed: u64, from: u64, to: u64, hashes: bool) {
    setup();
    let p = props::find(prop).expect("known property");
    let known = crate::check::known(prop);
    let mut hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut shapes: Vec<String> = Vec::new();
    let mut logs: Vec<String> = Vec::new();
    let mut samples = Vec::new();
    let (mut sim, mut events, mut runs, mut choices) = (0u64, 0u64, 0u64, 0u64);
    for i in from..to {
        println!("S {i}");
        let s = run_seed(seed, prop, i);
        let mut o = execute(p, s, None, false);
        runs += 1;
        sim += o.ctx.now_us;
        events += o.ctx.n_events;
        choices += o.src.rec.len() as u64;
        for (k, n) in std::mem::take(&mut o.ctx.hits) {
            let e = hits.entry(k.clone()).or_default();
            if k.starts_with("worst") {
                *e = (*e).max(n)
            } else {
                *e += n
            }
        }
        if o.ctx.nontrivial {
            shapes.push(format!("{:016x}", o.ctx.shape));
        }
        if hashes {
            logs.push(format!("{i}:{:016x}:{}:{}", o.ctx.hash, o.ctx.n_events, o.src.rec.len()));
        }
        if samples.len() < 3 && !o.ctx.sample.is_null() {
            samples.push(json!({"run": i, "run_seed": s, "case": o.ctx.sample}));
        }
        if let Some(v) = o.violation {
            if let Some(k) = known.iter().position(|k| k.matches(&v)) {
                *hits.entry(format!("known-finding.{k}")).or_default() += 1;
                continue;
            }
            say("V", &json!({"run": i, "class": v.class, "msg": v.msg, "choices": o.src.rec}));
            break;
        }
        if let Some(h) = o.ctx.harness {
            say("H", &json!({"run": i, "msg": h}));
            break;
        }
    }
    say(
        "D",
        &json!({"runs": runs, "sim_us": sim, "events": events, "choices": choices, "hits": hits,
                "shapes": shapes, "samples": samples, "logs": logs}),
    );
}

/// One run (after optional warm-up runs) described as JSON on stdin.
pub fn exec(trace: Option<String>) -> i32 {
    setup();
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).expect("stdin");
    let j: V = serde_json::from_str(&s).expect("json");
    let prop = j["property"].as_str().expect("property");
    let p = props::find(prop).expect("known property");
    for w in j["warmup"].as_array().unwrap_or(&Vec::new()) {
        let _ = execute(p, w.as_u64().unwrap(), None, false);
    }
    if let Some(t) = trace {
        *ch::TRACE.lock().unwrap() = Some(std::fs::File::create(t).expect("trace file"));
    }
    let choices = j["choices"].as_array().map(|a| a.iter().map(|v| v.as_u64().unwrap()).collect());
    let keep = j["keep"].as_bool().unwrap_or(false);
    let o = execute(p, j["run_seed"].as_u64().expect("run_seed"), choices, keep);
    say(
        "X",
        &json!({
            "violation": o.violation.map(|v| json!({"class": v.class, "msg": v.msg})),
            "harness": o.ctx.harness,
            "choices": o.src.rec,
            "spans": o.src.spans,
            "hash": format!("{:016x}", o.ctx.hash),
            "events": o.ctx.events,
            "sim_us": o.ctx.now_us,
        }),
    );
    0
}

//! C14: a fleet of endpoints that run different builds of the library (features
//! on and off, optimised and not, with and without debug assertions) receives
//! the same descriptions and must answer alike, message by message.
use super::*;
use crate::ch::{len, pick, us};
use crate::faults;
use crate::job;
use crate::net::{Ev, Knobs, Net};
use serde_json::json;
use std::io::{BufRead, BufReader, Write as _};
use std::sync::Mutex;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

/// The builds beside the simulator's own (all features, optimised, checked).
const BUILDS: [&str; 4] = ["release-none", "release-all", "debug-none", "release-32bit"];

/// The builds that run here: the one with 32-bit words may not.
fn builds() -> usize {
    static N: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
    *N.get_or_init(|| {
        let able = try_launch(BUILDS[3]).is_some_and(|mut p| {
            let mut a = String::new();
            p.to.write_all(b"{\"lines\":[]}\n").and_then(|()| p.to.flush()).is_ok()
                && p.from.read_line(&mut a).is_ok()
                && a.trim() == "[]"
        });
        BUILDS.len() - usize::from(!able)
    })
}

struct Peer {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}
static FLEET: Mutex<Vec<Peer>> = Mutex::new(Vec::new());
impl Drop for Peer {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
fn launch(name: &'static str) -> Peer {
    try_launch(name).unwrap_or_else(|| panic!("cannot start the peer {name}"))
}
fn try_launch(name: &'static str) -> Option<Peer> {
    let dir = std::env::var("SDPSIM_PEERS").unwrap_or_else(|_| panic!("SDPSIM_PEERS is not set"));
    let path = format!("{dir}/{name}");
    let mut child = Command::new(&path)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .ok()?;
    let to = child.stdin.take().unwrap();
    let from = BufReader::new(child.stdout.take().unwrap());
    Some(Peer { child, to, from })
}
/// What this build answers; `None` when it died over it.
fn ask(i: usize, line: &str) -> Option<V> {
    let mut f = FLEET.lock().unwrap_or_else(|e| e.into_inner());
    while f.len() <= i {
        let n = f.len();
        f.push(launch(BUILDS[n]));
    }
    let p = &mut f[i];
    let mut answer = String::new();
    let ok = p.to.write_all(line.as_bytes()).and_then(|()| p.to.flush()).is_ok()
        && p.from.read_line(&mut answer).is_ok_and(|n| n > 0);
    if ok {
        return Some(serde_json::from_str(&answer).expect("answer"));
    }
    f[i] = launch(BUILDS[i]);
    None
}

fn edits(st: &gen::Style) -> Vec<V> {
    let mut cx = gen::Cx::with_rids();
    let mut v = Vec::new();
    for _ in 0..len(0, 8) {
        v.push(crate::ch::span(|| {
            let i = us(4);
            let any = |cx: &mut gen::Cx| {
                let k = crate::dict::pick(&gen::KINDS);
                gen::attr(st, k, cx).0
            };
            match u(12) {
                0 => json!({"op": "connection", "v": gen::conn(st).0}),
                1 => json!({"op": "bandwidth", "v": gen::bw(st).0}),
                2 | 3 => json!({"op": "attribute", "v": any(&mut cx)}),
                4 => json!({"op": "m-connection", "i": i, "v": gen::conn(st).0}),
                5 => json!({"op": "m-bandwidth", "i": i, "v": gen::bw(st).0}),
                6 => json!({"op": "m-attribute", "i": i, "v": any(&mut cx)}),
                7 => json!({"op": "m-set", "i": i, "v": any(&mut cx)}),
                8 => json!({"op": "m-remove", "i": i, "v": any(&mut cx)}),
                9 => json!({"op": "m-codec", "i": i, "v": gen::attr(st, "rtpmap", &mut cx).0}),
                10 => {
                    if p(1, 2) {
                        json!({"op": "m-no-codecs", "i": i})
                    } else {
                        json!({"op": "m-port", "i": i, "v": u(70000)})
                    }
                }
                _ => json!({"op": "m-datachannel", "i": i, "v": pick(&["dc", "x", "webrtc-datachannel"]),
                            "port": u(65536), "streams": u(65536), "size": u(1 << 32)}),
            }
        }));
    }
    v
}

fn alike(req: &V) -> Res<()> {
    let line = format!("{req}\n");
    let own = lib("the simulator's own build", || job::respond(req));
    let own = match own {
        Ok(v) => v,
        Err(_) => json!("panic"),
    };
    let rejects = |v: &V| v.get("rejected").is_some();
    if own.as_array().map_or(rejects(&own), |a| a.iter().all(rejects)) {
        run::shape("rejected");
    } else {
        run::shape("accepted");
        run::nontrivial();
    }
    for (i, name) in BUILDS[..builds()].iter().enumerate() {
        match ask(i, &line) {
            None => {
                if own == "panic" {
                    continue;
                }
                return fail("build-died", format!("build {name} dies over {}", show(&line)));
            }
            Some(other) => {
                run::hit(&format!("probe.build-{name}"));
                if let Some((path, a, b)) = model::diff(&own, &other) {
                    let what = path.split('.').next().unwrap_or("").to_owned();
                    return fail(
                        &format!("builds-differ:{what}"),
                        format!("build {name} differs from the simulator's build: {path} is {b} instead of {a} for {}", show(&line)),
                    );
                }
            }
        }
    }
    Ok(())
}

/// Lines of one kind, spelled oddly.
fn crowd(st: &gen::Style) -> V {
    let mut cx = gen::Cx::with_rids();
    let kind = crate::dict::pick(&gen::KINDS);
    let mut v = Vec::new();
    for _ in 0..len(4, 24) {
        v.push(crate::ch::span(|| {
            let l = match u(12) {
                0 => format!("c={}", gen::conn(st).1),
                1 => format!("b={}", gen::bw(st).1),
                _ => format!("a={}", gen::attr(st, kind, &mut cx).1),
            };
            match u(4) {
                0 => l,
                1 => faults::oddity(&l),
                _ => near_miss(&l, std::slice::from_ref(&l)),
            }
        }));
    }
    json!({ "lines": v })
}

pub fn c14() -> Res<()> {
    maybe_level();
    let st = gen::Style::draw();
    let mut made = Vec::new();
    for _ in 0..1 + us(2) {
        let m = make(&st);
        note_content(&m.tree);
        made.push(m);
    }
    let mut k = Knobs::draw();
    k.frag = 1 << 20;
    k.crashes = 0;
    let mut net: Net<V> = Net::new(2, k);
    for _ in 0..len(1, 4) {
        crate::ch::span(|| {
            let (i, j) = (us(made.len()), us(made.len()));
            let text = match u(5) {
                4 => {
                    let c = crowd(&st);
                    net.send(0, 1, c);
                    return;
                }
                0 => faults::benign(&made[i].lines, 8),
                1 => {
                    let e = edits(&st);
                    let mut t = made[i].tree.clone();
                    if p(1, 2) {
                        crate::wild::wild(&mut t);
                    }
                    net.send(0, 1, json!({"build": t, "edits": e}));
                    return;
                }
                _ => faults::damage(&st, &made[i].lines, &made[j].lines, p(1, 3)),
            };
            let text = if p(1, 60) { faults::padded(&text) } else { text };
            let e = edits(&st);
            net.send(0, 1, json!({"text": text, "strict": strict(), "edits": e}));
        });
    }
    net.after(10_000_000, Ev::Calm);
    while let Some(e) = net.next() {
        let Ev::Msg { m: req, .. } = e else { continue };
        run::ev("request", || show(&req.to_string()));
        run::sample(|| json!({"request": cut(&req.to_string(), 1500)}));
        alike(&req)?;
    }
    Ok(())
}

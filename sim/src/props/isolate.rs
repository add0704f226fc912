//! C10: calls made by different callers, or interrupted, never influence each other.
use super::*;
use crate::call::{lib_may_abort, outside, Got};
use crate::ch::{len, range, us};
use crate::run::Violation;
use crate::sched::{self, At};
use crate::{call, faults, parts, sink};
use std::sync::{Arc, Mutex};
use webrtc_sdp::anonymizer::{AnonymizingClone, StatefulSdpAnonymizer};

/// What one caller works with.
#[derive(Clone)]
struct Desk {
    text: String,
    truth: V,
    damaged: Vec<String>,
}

struct Shared {
    s: SdpSession,
    truth: V,
}
// SAFETY: one caller runs at a time and the baton passes through a lock. Whether
// the compiler would let sessions be shared is not what is asked here: interior
// mutability has to show its effects.
unsafe impl Send for Shared {}
unsafe impl Sync for Shared {}

/// A result to be compared with the same call made alone afterwards.
enum Later {
    Mask { src: String, shared: bool, tree: V },
    Json { src: String, shared: bool, text: String },
    Debug { src: String, shared: bool, text: String },
}

#[derive(Default)]
struct Out {
    bad: Vec<Violation>,
    later: Vec<Later>,
}

fn read_own(d: &Desk, strict: bool) -> Res<SdpSession> {
    match parse(&d.text, strict)? {
        Err(e) => fail("rejected", format!("a caller's own legal text is rejected: {e} in {}", show(&d.text))),
        Ok(s) => {
            if let Some(w) = s.warnings.first() {
                return fail("warning", format!("a caller's own legal text draws a warning: {w}"));
            }
            same_content("own text", &s, &d.truth)?;
            Ok(s)
        }
    }
}

/// Writes a session into a sink that yields to other callers and may abort.
fn write_out(s: &SdpSession, truth: &V, what: &str) -> Res<()> {
    if p(1, 4) {
        let mut t = Text::new(Fail::Abort(us(60)));
        if let (Got::Ok(_), _) = lib_may_abort("rendering", || write!(t, "{s}"))? {
            if t.failed == 0 {
                return foreign_agrees(what, &t.got, truth);
            }
        }
        run::hit("fault.rendering-aborted-then-retried");
    }
    let mut t = Text::new(Fail::Never);
    if lib("rendering", || write!(t, "{s}"))?.is_err() {
        return fail("render-error", format!("{what}: rendering into a healthy sink reports an error"));
    }
    foreign_agrees(what, &t.got, truth)
}

fn verdict_of(text: &str, strict: bool) -> Res<()> {
    let want = refparse::parse(text, strict);
    let got = parse(text, strict)?;
    let kind = |e: &Reject| match e {
        Reject::Line(n) => Said::Line(n.clone()),
        Reject::Unsupported(n) => Said::Unsupported(n.clone()),
        Reject::Sequence(..) => Said::Sequence(0),
    };
    let (w, g) = match (&want, &got) {
        (Ok(a), Ok(s)) => {
            if let Some((path, w, g)) = model::diff(&a.tree, &lift(s)?) {
                return fail("misread", format!("{path} should be {w} but is {g} in {}", show(text)));
            }
            (Said::Accept(a.warnings.clone()), said(&got))
        }
        (Err(e), Err(_)) => (
            kind(e),
            match said(&got) {
                Said::Sequence(_) => Said::Sequence(0),
                o => o,
            },
        ),
        (Ok(a), _) => (Said::Accept(a.warnings.clone()), said(&got)),
        (Err(e), _) => (kind(e), said(&got)),
    };
    if w != g {
        return fail("verdict", format!("expected {w:?} but the library says {g:?} for {}", show(text)));
    }
    Ok(())
}

fn mask(s: &SdpSession) -> Res<V> {
    let m = lib("masked_clone", || {
        let mut a = StatefulSdpAnonymizer::new();
        s.masked_clone(&mut a)
    })?;
    lift(&m)
}
fn json(s: &SdpSession) -> Res<String> {
    lib("export", || serde_json::to_string(s).expect("export to memory"))
}
fn debug(s: &SdpSession) -> Res<String> {
    lib("debug", || format!("{s:?}"))
}

fn piece_text(x: &dyn parts::Part) -> Res<String> {
    let mut t = Text::new(Fail::Never);
    if lib("rendering a piece", || x.text(&mut t))?.is_err() {
        return fail("render-error", "rendering a piece into a healthy sink reports an error".to_owned());
    }
    Ok(t.got)
}

/// Renders a piece of one session into a sink that, in the middle of it, calls
/// back into the library: renders another piece, reads a text, or masks.
fn nested(outer: &SdpSession, inner: &SdpSession, d: &Desk) -> Res<()> {
    let os = parts::of(outer);
    let is = parts::of(inner);
    let (name, o) = os[us(os.len())];
    // a piece of the same kind is the likeliest to share something with it
    let same: Vec<_> = is.iter().filter(|x| x.0 == name).collect();
    let i = if !same.is_empty() && p(2, 3) { same[us(same.len())].1 } else { is[us(is.len())].1 };
    let (want_o, want_i) = (piece_text(o)?, piece_text(i)?);
    let at = us(6);
    let kind = u(4);
    let abort = p(1, 6);
    let bad: std::cell::RefCell<Option<Violation>> = Default::default();
    let mut w = Calls {
        got: String::new(),
        at,
        f: &mut || {
            let r = match kind {
                0 | 1 => piece_text(i).and_then(|t| {
                    if t == want_i {
                        Ok(())
                    } else {
                        fail("nested-output", format!("rendered from inside a sink: {} alone: {}", show(&t), show(&want_i)))
                    }
                }),
                2 => read_own(d, true).map(|_| ()),
                _ => mask(inner).map(|_| ()),
            };
            if let Err(v) = r {
                bad.borrow_mut().get_or_insert(v);
            }
            abort
        },
    };
    let (r, _) = lib_may_abort("rendering a piece", || o.text(&mut w))?;
    let got = std::mem::take(&mut w.got);
    if let Some(v) = bad.into_inner() {
        return Err(v);
    }
    match r {
        Got::Ok(Ok(())) if got != want_o => {
            return fail("outer-output", format!("{name}: a call from inside its sink changed its output: {} alone: {}", show(&got), show(&want_o)))
        }
        Got::Ok(Err(_)) => return fail("render-error", format!("{name}: error although the sink never failed")),
        _ => {}
    }
    if piece_text(o)? != want_o || piece_text(i)? != want_i {
        return fail("later-output", format!("{name}: rendering differs after a nested call"));
    }
    Ok(())
}

/// A sink that calls back once, and may then abort its caller.
struct Calls<'a> {
    got: String,
    at: usize,
    f: &'a mut dyn FnMut() -> bool,
}
impl std::fmt::Write for Calls<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let o = outside();
        if self.at == 0 {
            run::hit("fault.text-sink-reenters");
            if (self.f)() {
                run::hit("fault.text-sink-abort");
                self.at = usize::MAX;
                drop(o);
                std::panic::resume_unwind(Box::new(call::Injected));
            }
            self.at = usize::MAX;
        } else if self.at != usize::MAX {
            self.at -= 1;
        }
        self.got.push_str(s);
        Ok(())
    }
}

/// One step of a caller.
fn step(d: &Desk, sh: &Arc<Shared>, out: &mut Out) -> Res<()> {
    let shared = p(1, 2);
    let subject = |out: &mut Out| -> Res<Option<SdpSession>> {
        let _ = out;
        if shared {
            Ok(None)
        } else {
            read_own(d, strict()).map(Some)
        }
    };
    match u(12) {
        10 | 11 => {
            let own = read_own(d, strict())?;
            match u(3) {
                0 => nested(&own, &sh.s, d)?,
                1 => nested(&sh.s, &own, d)?,
                _ => nested(&sh.s, &sh.s, d)?,
            }
        }
        0 | 1 => {
            read_own(d, strict())?;
        }
        2 => {
            // the log sink ends the call half way; a second attempt is unaffected
            sink::abort_at(Some(u(6)));
            let st = strict();
            let r = lib_may_abort("parse_sdp", || webrtc_sdp::parse_sdp(&d.text, st).is_ok());
            sink::abort_at(None);
            if let (Got::Aborted, _) = r? {
                run::hit("fault.parse-aborted-then-retried");
            }
            read_own(d, st)?;
        }
        3 => {
            // the log sink calls back into the library
            let inner = d.clone();
            let sh2 = sh.clone();
            let bad: Arc<Mutex<Option<Violation>>> = Arc::default();
            let bad2 = bad.clone();
            let kind = u(3);
            sink::reenter(Some(Box::new(move || {
                let r = match kind {
                    0 => read_own(&inner, true).map(|_| ()),
                    1 => write_out(&sh2.s, &sh2.truth, "shared session, from inside a log sink"),
                    _ => verdict_of(inner.damaged.first().map_or("v=0\r\n", |s| s), false),
                };
                if let Err(v) = r {
                    bad2.lock().unwrap().get_or_insert(v);
                }
            })));
            let r = if p(1, 2) { read_own(d, strict()).map(|_| ()) } else { verdict_of(&d.damaged[0], strict()) };
            sink::reenter(None);
            if let Some(v) = bad.lock().unwrap().take() {
                return Err(v);
            }
            r?;
        }
        4 | 5 => match subject(out)? {
            Some(s) => write_out(&s, &d.truth, "own session")?,
            None => write_out(&sh.s, &sh.truth, "shared session")?,
        },
        6 => {
            let s = subject(out)?;
            let tree = mask(s.as_ref().unwrap_or(&sh.s))?;
            out.later.push(Later::Mask { src: d.text.clone(), shared, tree });
        }
        7 => {
            let s = subject(out)?;
            let text = json(s.as_ref().unwrap_or(&sh.s))?;
            out.later.push(Later::Json { src: d.text.clone(), shared, text });
        }
        8 => {
            let t = &d.damaged[us(d.damaged.len())];
            verdict_of(t, strict())?;
        }
        _ => {
            if p(1, 2) {
                let s = subject(out)?;
                let text = debug(s.as_ref().unwrap_or(&sh.s))?;
                out.later.push(Later::Debug { src: d.text.clone(), shared, text });
            } else {
                // edit a private copy of the shared session
                let mut c = lib("clone", || sh.s.clone())?;
                let mut t = sh.truth.clone();
                let b = serde_json::json!({"k": "TIAS", "n": us(1000)});
                let lb = webrtc_sdp::SdpBandwidth::Tias(b["n"].as_u64().unwrap() as _);
                lib("add_bandwidth", || c.add_bandwidth(lb))?;
                t["b"].as_array_mut().unwrap().push(model::bw(&webrtc_sdp::SdpBandwidth::Tias(b["n"].as_u64().unwrap() as _)));
                if !c.media.is_empty() {
                    let i = us(c.media.len());
                    let n = range(1, 65535);
                    lib("set_port", || c.media[i].set_port(n as _))?;
                    t["media"][i]["m"]["port"] = serde_json::json!(n);
                }
                write_out(&c, &model::canon(t), "edited copy")?;
            }
        }
    }
    Ok(())
}

pub fn c10() -> Res<()> {
    maybe_level();
    let mut st = gen::Style::draw();
    st.max_attrs = st.max_attrs.min(8);
    let n = range(2, 5) as usize;
    let desk = |st: &gen::Style| {
        let m = make(st);
        note_content(&m.tree);
        let mut damaged = Vec::new();
        for _ in 0..1 + us(2) {
            damaged.push(faults::damage(st, &m.lines, &m.lines, false));
        }
        Desk { text: faults::benign(&m.lines, 2), truth: model::canon(m.tree), damaged }
    };
    let common = desk(&st);
    let s = read_own(&common, true)?;
    let sh = Arc::new(Shared { s, truth: common.truth.clone() });
    let mut tasks: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
    let outs: Vec<Arc<Mutex<Out>>> = (0..n).map(|_| Arc::default()).collect();
    for (i, o) in outs.iter().enumerate() {
        let d = if p(1, 5) { common.clone() } else { desk(&st) };
        let (sh, o) = (sh.clone(), o.clone());
        let steps = len(1, 5);
        tasks.push(Box::new(move || {
            let mut out = Out::default();
            for k in 0..steps {
                sched::yield_point(At::Op);
                let r = crate::ch::span(|| step(&d, &sh, &mut out));
                run::ev("step", || format!("caller {i} step {k} {}", if r.is_ok() { "ok" } else { "bad" }));
                if let Err(v) = r {
                    out.bad.push(v);
                    break;
                }
            }
            let _x = outside();
            *o.lock().unwrap() = out;
        }));
    }
    let rep = sched::run_tasks(tasks);
    sink::abort_at(None);
    run::add("sched.switches", rep.switches);
    run::add("sched.points", rep.points);
    if rep.switches >= 2 {
        run::nontrivial();
    }
    run::sample(|| serde_json::json!({"callers": n, "switches": rep.switches, "points": rep.points, "shared": cut(&common.text, 600)}));
    let alone = |src: &str, shared: bool| -> Res<Option<SdpSession>> {
        if shared {
            return Ok(None);
        }
        match parse(src, false)? {
            Ok(s) => Ok(Some(s)),
            Err(e) => fail("rejected", format!("text accepted during the run is rejected afterwards: {e}")),
        }
    };
    for o in outs {
        let mut o = std::mem::take(&mut *o.lock().unwrap());
        if let Some(v) = o.bad.pop() {
            return Err(v);
        }
        for l in o.later {
            match l {
                Later::Mask { src, shared, tree } => {
                    let s = alone(&src, shared)?;
                    let want = mask(s.as_ref().unwrap_or(&sh.s))?;
                    if let Some((path, w, g)) = model::diff(&want, &tree) {
                        return fail("mask-differs", format!("masking with a fresh anonymizer gave {g} at {path} beside other callers and gives {w} alone"));
                    }
                    run::hit("probe.mask-equals-solo");
                }
                Later::Json { src, shared, text } => {
                    let s = alone(&src, shared)?;
                    let want = json(s.as_ref().unwrap_or(&sh.s))?;
                    if want != text {
                        return fail("export-differs", format!("export beside other callers: {} alone: {}", show(&text), show(&want)));
                    }
                    run::hit("probe.export-equals-solo");
                }
                Later::Debug { src, shared, text } => {
                    let s = alone(&src, shared)?;
                    let want = debug(s.as_ref().unwrap_or(&sh.s))?;
                    if want != text {
                        return fail("debug-differs", format!("debug text beside other callers: {} alone: {}", show(&text), show(&want)));
                    }
                }
            }
        }
    }
    same_content("shared session afterwards", &sh.s, &sh.truth)?;
    let _ = call::text_of;
    Ok(())
}

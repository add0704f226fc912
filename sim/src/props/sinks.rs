//! C05: output into sinks that fail, tear, interrupt or abort.
use super::*;
use crate::call::{lib_may_abort, Got};
use crate::ch::{len, us};
use crate::sink::Bytes;
use crate::parts;

/// One piece of output to be produced.
struct Obj<'a> {
    name: &'static str,
    part: &'a dyn parts::Part,
    pretty: bool,
}
impl Obj<'_> {
    fn text(&self, w: &mut dyn Write) -> std::fmt::Result {
        self.part.text(w)
    }
    fn debug(&self, w: &mut dyn Write) -> std::fmt::Result {
        self.part.debug(w, self.pretty)
    }
    fn json(&self, w: &mut Bytes) -> serde_json::Result<()> {
        self.part.json(w, self.pretty)
    }
    fn name(&self) -> &'static str {
        self.name
    }
}

/// Something that prints but has no structured export.
struct Plain<'a, T>(&'a T);
impl<T: std::fmt::Display> std::fmt::Display for Plain<'_, T> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
impl<T: std::fmt::Debug> std::fmt::Debug for Plain<'_, T> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
impl<T> serde::Serialize for Plain<'_, T> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_unit()
    }
}

/// An attribute type, which has a text but no debug text of its own.
struct Named<'a>(&'a webrtc_sdp::attribute_type::SdpAttributeType);
impl std::fmt::Display for Named<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
impl std::fmt::Debug for Named<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        std::fmt::Display::fmt(self.0, f)
    }
}
impl serde::Serialize for Named<'_> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_unit()
    }
}

/// Diagnostics a damaged description and single damaged lines give rise to.
fn diagnostics(st: &gen::Style, lines: &[String]) -> Res<Vec<SdpParserError>> {
    let mut v = Vec::new();
    for _ in 0..len(1, 5) {
        let r = crate::ch::span(|| {
            let text = crate::faults::damage(st, lines, lines, false);
            if p(1, 2) {
                Ok(parse(&text, p(1, 2))?.err())
            } else {
                let l: Vec<&str> = text.lines().collect();
                if l.is_empty() {
                    return Ok(None);
                }
                let i = us(l.len());
                Ok(lib("parse_sdp_line", || webrtc_sdp::parse_sdp_line(l[i], i))?.err())
            }
        })?;
        v.extend(r);
    }
    Ok(v)
}

fn draw_fail(total: usize, writes: usize) -> Fail {
    match u(4) {
        0 => Fail::After(us(total + 2)),
        1 => Fail::Nth(us(writes + 1)),
        2 => Fail::Abort(us(writes + 1)),
        _ => Fail::After(match u(3) {
            0 => 0,
            1 => total.saturating_sub(1),
            _ => total / 2,
        }),
    }
}

fn text_round(o: &Obj, debug: bool) -> Res<()> {
    let go = |t: &mut Text| if debug { o.debug(t) } else { o.text(t) };
    let mut healthy = Text::new(Fail::Never);
    if lib("rendering", || go(&mut healthy))?.is_err() {
        return fail("healthy-error", format!("{}: healthy sink, but rendering reports an error", o.name()));
    }
    let full = healthy.got;
    let mut bad = Text::new(draw_fail(full.len(), healthy.writes));
    bad.torn = p(1, 3);
    let spec = bad.fail;
    let (r, _) = lib_may_abort("rendering", || go(&mut bad))?;
    run::ev("text", || format!("{} {spec:?} writes={} failed={}", o.name(), bad.writes, bad.failed));
    if bad.failed > 0 {
        run::nontrivial();
    }
    match r {
        Got::Ok(Ok(())) if bad.failed > 0 => {
            return fail(
                "lost-error",
                format!("{}: the sink failed ({spec:?}) but rendering reports success", o.name()),
            )
        }
        Got::Ok(Ok(())) if bad.got != full => {
            return fail("wrong-text", format!("{}: success reported, wrong text {}", o.name(), show(&bad.got)))
        }
        Got::Ok(Err(_)) if bad.failed == 0 => {
            return fail("false-error", format!("{}: error reported, but the sink never failed ({spec:?})", o.name()))
        }
        _ => {}
    }
    let at = bad.at_failure.unwrap_or(bad.got.len());
    if !full.starts_with(&bad.got[..at]) || (bad.torn && !full.starts_with(&bad.got)) {
        return fail(
            "not-a-prefix",
            format!("{}: what reached the sink before it failed is not a prefix of the full output: {} vs {}", o.name(), show(&bad.got), show(&full)),
        );
    }
    Ok(())
}

fn json_round(o: &Obj) -> Res<()> {
    let mut healthy = Bytes::new(Fail::Never, false);
    if lib("export", || o.json(&mut healthy))?.is_err() {
        return fail("healthy-error", format!("{}: export into a healthy sink reports an error", o.name()));
    }
    let full = healthy.got;
    if serde_json::from_slice::<V>(&full).is_err() {
        return fail("not-json", format!("{}: exported bytes are not JSON", o.name()));
    }
    let mut bad = if p(1, 3) {
        Bytes::new(Fail::Never, true)
    } else {
        Bytes::new(draw_fail(full.len(), healthy.writes), p(1, 3))
    };
    let spec = bad.fail;
    let (r, _) = lib_may_abort("export", || o.json(&mut bad))?;
    run::ev("json", || format!("{} {spec:?} writes={} failed={}", o.name(), bad.writes, bad.failed));
    if bad.failed > 0 {
        run::nontrivial();
    }
    let hard = bad.failed > 0;
    match r {
        Got::Ok(Ok(())) if bad.got != full => fail(
            "lost-error",
            format!("{}: export reports success but the sink holds {} of {} bytes", o.name(), bad.got.len(), full.len()),
        ),
        Got::Ok(Err(_)) if !hard => fail("false-error", format!("{}: export reports an error although every write was accepted", o.name())),
        _ if !full.starts_with(&bad.got) => fail("not-a-prefix", format!("{}: exported bytes are not a prefix of the full export", o.name())),
        _ => Ok(()),
    }
}

pub fn c05() -> Res<()> {
    maybe_level();
    let st = gen::Style::draw();
    let m = make(&st);
    note_content(&m.tree);
    let mut lines = m.lines.clone();
    // some unsupported lines, so that diagnostics are exported too
    for _ in 0..u(3) {
        let at = 3.min(lines.len()) + us(lines.len() - 3.min(lines.len()) + 1);
        lines.insert(at, (*crate::ch::pick(&crate::faults::UNSUPPORTED)).to_owned());
    }
    let text = gen::wire(&lines, "\r\n");
    let wild = p(1, 5);
    let s = if wild {
        let mut t = m.tree.clone();
        crate::wild::wild(&mut t);
        let Ok(s) = lib("building through the API", || model::lower_session(&t))? else { return Ok(()) };
        s
    } else {
        match parse(&text, false)? {
            Ok(s) => s,
            // acceptance is C03's business
            Err(_) => return Ok(()),
        }
    };
    let before = lift(&s)?;
    let clean = lib("to_string", || s.to_string())?;
    run::sample(|| serde_json::json!({"rendered": cut(&clean, 800)}));
    let errors = if p(1, 3) { diagnostics(&st, &m.lines)? } else { Vec::new() };
    let inner: Vec<_> = errors
        .iter()
        .chain(&s.warnings)
        .filter_map(|e| match e {
            SdpParserError::Line { error, .. } | SdpParserError::Unsupported { error, .. } => Some(Plain(error)),
            SdpParserError::Sequence { .. } => None,
        })
        .collect();
    let families: Vec<_> = [&s.origin.unicast_addr]
        .into_iter()
        .map(webrtc_sdp::address::AddressTyped::address_type)
        .collect();
    let families: Vec<_> = families.iter().map(Plain).collect();
    let types: Vec<_> = s.attribute.iter().take(3).map(webrtc_sdp::attribute_type::SdpAttributeType::from).collect();
    let types: Vec<_> = types.iter().map(Named).collect();
    // attributes that came in by themselves
    let mut loose = Vec::new();
    if p(1, 4) {
        for l in lines_of_a_kind(&st, len(4, 24), near_miss) {
            match lib("parse_sdp_line", || webrtc_sdp::parse_sdp_line(&l, 0))? {
                Ok(webrtc_sdp::SdpLine { sdp_type: webrtc_sdp::SdpType::Attribute(a), .. }) => loose.push(a),
                _ => {}
            }
        }
        run::add("probe.loose-attributes", loose.len() as u64);
    }
    let mut all = parts::of(&s);
    for _ in 0..1 + all.len() / (loose.len() + 1) {
        all.extend(loose.iter().map(|a| ("attribute", a as &dyn parts::Part)));
    }
    for _ in 0..3 {
        // diagnostics would otherwise be rare among the parts of a large session
        all.extend(errors.iter().map(|e| ("diagnostic", e as &dyn parts::Part)));
        all.extend(inner.iter().map(|e| ("inner diagnostic", e as &dyn parts::Part)));
    }
    all.extend(families.iter().map(|e| ("address family", e as &dyn parts::Part)));
    all.extend(types.iter().map(|e| ("attribute type", e as &dyn parts::Part)));
    for _ in 0..len(4, 24) {
        crate::ch::span(|| {
            let (name, part) = match u(3) {
                0 => all[0],
                _ => all[us(all.len())],
            };
            let o = Obj { name, part, pretty: p(1, 4) };
            run::shape(o.name());
            match u(5) {
                0 | 1 => text_round(&o, false),
                2 => text_round(&o, true),
                _ => json_round(&o),
            }
        })?;
    }
    // none of this may have touched the session, and a retry gives the whole text
    let again = lib("to_string", || s.to_string())?;
    if again != clean {
        return fail("retry-differs", format!("rendering after failed attempts differs: {} vs {}", show(&again), show(&clean)));
    }
    if let Some((path, a, b)) = model::diff(&before, &lift(&s)?) {
        return fail("session-changed", format!("failed output changed the session: {path} {a} -> {b}"));
    }
    if wild {
        // others need not understand it
        return Ok(());
    }
    foreign_agrees("after failed attempts", &again, &model::canon(m.tree))
}

//! C02 (totality under damage), C03 (acceptance gate), C04 (diagnostics):
//! descriptions cross a hostile network; every library node that receives one
//! must cope, decide like the reference reader and blame the right line.
use super::*;
use serde_json::json;
use crate::ch::{len, pick, us};
use crate::faults;
use crate::net::{Ev, Knobs, Net};
use webrtc_sdp::anonymizer::{AnonymizingClone, StatefulSdpAnonymizer};

/// Sends `n` damaged descriptions over the simulated network and hands each
/// arrival to `at_node`.
fn hostile(bytes_too: bool, mut at_node: impl FnMut(&str, bool) -> Res<()>) -> Res<()> {
    let st = gen::Style::draw();
    let crowd = if p(1, 5) { crowd(&st) } else { Vec::new() };
    let n_src = if crowd.is_empty() { 1 + us(3) } else { 0 };
    let mut made = Vec::new();
    for _ in 0..n_src {
        let m = make(&st);
        note_content(&m.tree);
        made.push(m.lines);
    }
    let mut k = Knobs::draw();
    k.frag = 1 << 20;
    k.crashes = 0;
    let mut net: Net<(String, bool)> = Net::new(2, k);
    let n = if crowd.is_empty() { len(1, 6) } else { 0 };
    for text in crowd {
        net.send(0, 1, (text, false));
    }
    for _ in 0..n {
        crate::ch::span(|| {
            let i = us(made.len());
            let j = us(made.len());
            let clean = p(1, 12);
            let text = if clean {
                faults::benign(&made[i], 8)
            } else {
                faults::damage(&st, &made[i], &made[j], bytes_too)
            };
            let text = if p(1, 60) { faults::padded(&text) } else { text };
            let d = u(1_000_000);
            net.now = 0;
            let _ = d;
            net.send(0, 1, (text, clean));
        });
    }
    net.after(10_000_000, Ev::Calm);
    let mut first = true;
    while let Some(e) = net.next() {
        if let Ev::Msg { m: (text, clean), .. } = e {
            if !clean {
                run::nontrivial();
            }
            if first {
                first = false;
                run::sample(|| serde_json::json!({"delivered": cut(&text, 1500), "damaged": !clean}));
            }
            run::ev("deliver", || show(&text));
            at_node(&text, strict())?;
        }
    }
    Ok(())
}

/// Everything a node does with a session it received.
fn use_session(s: &SdpSession) -> Res<()> {
    let text = render(s)?;
    let _ = lib("clone", || s.clone().to_string())?;
    let _ = lib("debug", || format!("{s:?}"))?;
    let _ = lib("export", || serde_json::to_string(s).map(|s| s.len()).unwrap_or(0))?;
    let masked = lib("masked_clone", || {
        let mut a = StatefulSdpAnonymizer::new();
        s.masked_clone(&mut a)
    })?;
    let mt = render(&masked)?;
    let again = parse(&text, false)?;
    let _ = parse(&mt, true)?;
    if let Ok(s2) = again {
        run::hit("probe.survivor-reread");
        let _ = render(&s2)?;
    }
    lift(s)?;
    Ok(())
}

fn describe_error(e: &SdpParserError) -> Res<()> {
    let _ = lib("error text", || {
        use std::error::Error;
        let mut n = e.to_string().len() + format!("{e:?}").len();
        n += serde_json::to_string(e).map(|s| s.len()).unwrap_or(0);
        if let Some(s) = e.source() {
            n += s.to_string().len();
            if let Some(s) = s.source() {
                n += s.to_string().len();
            }
        }
        n
    })?;
    Ok(())
}

pub fn c02() -> Res<()> {
    maybe_level();
    if p(1, 500) {
        // more of the same than any stack or table was made for
        let mut text = time::vast();
        if p(1, 4) {
            let mut b = text.into_bytes();
            faults::byte_fault(&mut b, b"");
            text = String::from_utf8_lossy(&b).into_owned();
        }
        run::hit("fault.repeated-endlessly");
        run::nontrivial();
        run::ev("deliver", || show(&text));
        return answers(&text, strict());
    }
    hostile(true, answers)
}
fn answers(text: &str, strict: bool) -> Res<()> {
    match parse(text, strict)? {
        Err(e) => {
            run::hit("probe.rejected");
            run::shape("rej");
            describe_error(&e)?
        }
        Ok(s) => {
            run::hit("probe.survived");
            run::shape("ok");
            for w in &s.warnings {
                describe_error(w)?;
            }
            use_session(&s)?
        }
    }
    // a node reading line by line (as trickled candidates and attributes arrive)
    for (i, l) in text.lines().enumerate().take(60) {
        let r = lib("parse_sdp_line", || webrtc_sdp::parse_sdp_line(l, i))?;
        match r {
            Ok(line) => {
                let _ = lib("line debug/export", || {
                    format!("{line:?}").len() + serde_json::to_string(&line).map(|s| s.len()).unwrap_or(0)
                })?;
            }
            Err(e) => describe_error(&e)?,
        }
        if let Some(a) = l.strip_prefix("a=") {
            if let Ok(webrtc_sdp::SdpType::Attribute(a)) =
                lib("parse_attribute", || webrtc_sdp::attribute_type::parse_attribute(a))?
            {
                let t = lib("attribute to_string", || a.to_string())?;
                let _ = lib("parse_attribute", || webrtc_sdp::attribute_type::parse_attribute(&t).is_ok())?;
            }
        }
    }
    if let Some(t) = text.split_whitespace().nth(us(8)) {
        let _ = lib("parse_unicast_address", || webrtc_sdp::network::parse_unicast_address(t).is_ok())?;
        let _ = lib("parse_address_type", || webrtc_sdp::network::parse_address_type(t).is_ok())?;
        let _ = lib("parse_network_type", || webrtc_sdp::network::parse_network_type(t).is_ok())?;
    }
    Ok(())
}

/// The library's smaller entry points decide like its readers of whole lines.
fn entry_points(text: &str) -> Res<()> {
    use webrtc_sdp::address::{AddressType, ExplicitlyTypedAddress};
    use webrtc_sdp::attribute_type::{SdpAttributeFingerprint, SdpAttributeFingerprintHashType as Hash};
    use webrtc_sdp::network as net;
    let words: Vec<&str> = text.split(|c: char| c.is_whitespace() || c == '/' || c == '=').collect();
    let verdict = |what: &str, t: &str, want: Option<V>, got: Option<V>| {
        if want == got {
            return Ok(());
        }
        let show = |o: &Option<V>| o.as_ref().map_or("refused".to_owned(), |v| v.to_string());
        fail(
            &format!("entry:{what}"),
            format!("{what} of {t:?} should be {} but is {}", show(&want), show(&got)),
        )
    };
    for _ in 0..4 {
        let mut t = *pick(&words);
        match u(9) {
            0..=2 => t = faults::any_word(),
            3 => t = pick(&faults::ADDRS),
            _ => {}
        }
        run::hit("probe.entry-point");
        let got = lib("parse_unicast_address", || net::parse_unicast_address(t))?;
        if let Ok(webrtc_sdp::address::Address::Ip(i)) = &got {
            let (text, typed, plain) = lib("addresses built from numbers", || {
                let typed = match i {
                    std::net::IpAddr::V4(v) => ExplicitlyTypedAddress::from(*v),
                    std::net::IpAddr::V6(v) => ExplicitlyTypedAddress::from(*v),
                };
                let plain = webrtc_sdp::address::Address::from(ExplicitlyTypedAddress::from(*i));
                (net::ip_address_to_string(*i), typed, plain)
            })?;
            let want = Some(json!({"ip": i.to_string()}));
            verdict("typed address made", t, want.clone(), Some(model::taddr(&typed)))?;
            verdict("address made", t, want, Some(model::addr(&plain)))?;
            let want = format!("IN IP{} {i}", if i.is_ipv4() { 4 } else { 6 });
            verdict("address text", t, Some(json!(want)), Some(json!(text)))?;
        }
        verdict("address", t, refparse::addr(t).ok(), got.ok().as_ref().map(model::addr))?;
        let six = p(1, 2);
        let fam = if six { AddressType::IpV6 } else { AddressType::IpV4 };
        let got = lib("typed address", || ExplicitlyTypedAddress::try_from((fam, t)))?;
        verdict("typed address", t, refparse::taddr(if six { 6 } else { 4 }, t).ok(), got.ok().as_ref().map(model::taddr))?;
        let t = if p(1, 2) { *pick(&["IN", "in", "In", "IP4", "ip6", "Ip6", "IP5", "IP46", ""]) } else { t };
        let got = lib("parse_network_type", || net::parse_network_type(t))?;
        verdict("network type", t, refparse::nettype(t).ok().map(|()| V::Null), got.ok().map(|()| V::Null))?;
        let got = lib("parse_address_type", || net::parse_address_type(t))?;
        verdict(
            "address type",
            t,
            refparse::addr_type(t).ok().map(V::from),
            got.ok().map(|a| V::from(match a { AddressType::IpV4 => 4, AddressType::IpV6 => 6 })),
        )?;
    }
    // attributes and m= values by themselves, helpers an application builds values with
    let lines: Vec<&str> = text.lines().collect();
    for _ in 0..len(1, 6) {
        if lines.is_empty() {
            break;
        }
        let l = *pick(&lines);
        let Some((typ, v)) = l.split_once('=') else { continue };
        let v = v.trim();
        if typ.eq_ignore_ascii_case("m") {
            let got = lib("parse_media", || webrtc_sdp::media_type::parse_media(v))?;
            let want = refparse::media_line(v);
            let got = match got {
                Ok(webrtc_sdp::SdpType::Media(m)) => Ok(model::media(&webrtc_sdp::media_type::SdpMedia::new(m))["m"].clone()),
                Ok(_) => return fail("entry:media", format!("{v:?} is read as something else than a media line")),
                Err(e) => Err(class(&e)),
            };
            verdict("media line", v, want.ok(), got.ok())?;
        } else if typ.eq_ignore_ascii_case("a") {
            alone(v, &verdict)?;
        }
    }
    let t = *pick(&words);
    let got = lib("simulcast version", || webrtc_sdp::attribute_type::SdpAttributeSimulcastVersion::new(t))?;
    let got: Vec<(String, bool)> = got.ids.into_iter().map(|i| (i.id, i.paused)).collect();
    let want: Vec<(String, bool)> = t
        .split(',')
        .map(|i| if i.starts_with('~') { (i[1..].to_owned(), true) } else { (i.to_owned(), false) })
        .collect();
    verdict("simulcast version", t, Some(json!(want)), Some(json!(got)))?;
    let n = gen::num(&gen::Style { big: true, ..gen::Style::draw() }, u64::MAX);
    let got = lib("to_byte_vec", || webrtc_sdp::anonymizer::ToBytesVec::to_byte_vec(&n))?;
    verdict("bytes", &n.to_string(), Some(json!(n.to_be_bytes())), Some(json!(got)))?;
    let (a, b) = (p(1, 2), p(1, 2));
    let (m, got) = lib("parameter texts", || {
        use webrtc_sdp::attribute_type as at;
        let (x, y) = (n, if a { n } else { n ^ 1 });
        (at::maybe_print_param(t, x, y), at::maybe_print_bool_param(t, a, b))
    })?;
    let want = if a { String::new() } else { format!("{t}{n}") };
    verdict("parameter text", t, Some(json!(want)), Some(json!(m)))?;
    let want = if a == b { String::new() } else { format!("{t}={}", u8::from(a)) };
    verdict("parameter text", t, Some(json!(want)), Some(json!(got)))?;
    // fingerprints piece by piece
    for l in text.lines().filter_map(|l| l.strip_prefix("a=fingerprint:")).take(2) {
        let w: Vec<&str> = l.split_whitespace().collect();
        if w.len() != 2 {
            continue;
        }
        let got = lib("fingerprint pieces", || {
            let h = Hash::try_from_name(w[0]).ok()?;
            let b = h.parse_octets(w[1]).ok()?;
            let n = h.octet_count();
            let a = webrtc_sdp::attribute_type::SdpAttribute::Fingerprint(SdpAttributeFingerprint::try_from((h, b.clone())).ok()?);
            let mut short = b;
            short.pop();
            Some((n, a, SdpAttributeFingerprint::try_from((h, short)).is_err()))
        })?;
        let want = refparse::fingerprint(l).ok();
        if let Some((n, a, refused)) = &got {
            let octets = model::attr(a)["fp"].as_str().map_or(0, |s| s.len() / 2);
            if *n != octets || !refused {
                return fail("entry:fingerprint", format!("{} octets where {n} are due, or a short one is taken: {l:?}", octets));
            }
        }
        verdict("fingerprint", l, want, got.as_ref().map(|g| model::attr(&g.1)))?;
    }
    Ok(())
}

/// One attribute, read through every entry point that takes one.
fn alone(v: &str, verdict: &dyn Fn(&str, &str, Option<V>, Option<V>) -> Res<()>) -> Res<()> {
    use webrtc_sdp::attribute_type::{parse_attribute, SdpAttribute, SdpAttributeType};
    let want = refparse::attribute(v);
    let got = lib("attribute from_str", || v.parse::<SdpAttribute>())?;
    let by_type = match lib("parse_attribute", || parse_attribute(v))? {
        Ok(webrtc_sdp::SdpType::Attribute(a)) => Some(model::attr(&a)),
        Ok(_) => return fail("entry:attribute", format!("{v:?} is read as something else than an attribute")),
        Err(_) => None,
    };
    verdict("attribute line", v, want.clone().ok(), by_type)?;
    verdict("attribute", v, want.clone().ok(), got.as_ref().ok().map(model::attr))?;
    match got {
        Ok(a) => {
            run::hit("probe.attribute-alone");
            let k = model::attr(&a)["k"].as_str().unwrap_or("").to_owned();
            let (level, name) = lib("attribute levels", || {
                ((a.allowed_at_session_level(), a.allowed_at_media_level()), SdpAttributeType::from(&a).to_string())
            })?;
            verdict("levels", v, Some(json!(refparse::levels(&k))), Some(json!(level)))?;
            verdict("kind", v, Some(json!(k)), Some(json!(name)))
        }
        Err(e) => verdict("class", v, Some(json!(want.err().map(|f| format!("{f:?}")))), Some(json!(Some(class(&e))))),
    }
}
fn class(e: &webrtc_sdp::error::SdpParserInternalError) -> String {
    if matches!(e, webrtc_sdp::error::SdpParserInternalError::Unsupported(_)) { "Unsupported" } else { "Bad" }.to_owned()
}

/// A node to which an accepted description trickles in line by line puts the
/// same session together.
fn piecemeal(text: &str, whole: &V) -> Res<()> {
    let mut head = Vec::new();
    let mut rest = Vec::new();
    for (i, l) in text.lines().enumerate() {
        if l.trim().is_empty() {
            continue;
        }
        match lib("parse_sdp_line", || webrtc_sdp::parse_sdp_line(l, i))? {
            Ok(x) => {
                if x.line_number != i || x.text != l {
                    return fail(
                        "line-identity",
                        format!("line {i} {} comes back as line {} {}", show(l), x.line_number, show(&x.text)),
                    );
                }
                if !rest.is_empty() || matches!(x.sdp_type, webrtc_sdp::SdpType::Media(_)) {
                    rest.push(x)
                } else {
                    head.push(x)
                }
            }
            Err(SdpParserError::Unsupported { .. }) => {}
            Err(e) => return fail("line-alone", format!("a line of an accepted description is rejected on its own: {e}")),
        }
    }
    use webrtc_sdp::SdpType as T;
    let mut it = head.into_iter().map(|l| l.sdp_type);
    let (Some(T::Version(v)), Some(T::Origin(o)), Some(T::Session(n))) = (it.next(), it.next(), it.next()) else {
        return fail("line-types", format!("mandatory lines are read as something else on their own: {}", show(text)));
    };
    let mut again: Vec<webrtc_sdp::SdpLine> = it
        .map(|sdp_type| webrtc_sdp::SdpLine { line_number: 0, sdp_type, text: String::new() })
        .collect();
    let s = lib("assembling", || {
        let mut s = SdpSession::new(v, o, n);
        s.parse_session_vector(&mut again)?;
        if !rest.is_empty() {
            s.extend_media(webrtc_sdp::media_type::parse_media_vector(&mut rest)?);
        }
        Ok::<_, SdpParserError>(s)
    })?;
    match s {
        Err(e) => fail("assembly-refused", format!("the lines of an accepted description are refused one by one: {e} for {}", show(text))),
        Ok(s) => match model::diff(whole, &lift(&s)?) {
            None => {
                let name = lib("session name", || s.get_session_text().to_owned())?;
                let (version, origin, named) = lib("looking at the session", || {
                    (s.get_version(), model::origin(s.get_origin()), s.get_session().clone())
                })?;
                if json!(version) != whole["v"] || origin != whole["o"] || json!(named) != whole["s"] {
                    return fail("session-head", format!("the session says {version} {origin} {named:?} of itself for {}", show(text)));
                }
                if name != whole["s"].as_str().unwrap_or(" ") {
                    return fail("session-text", format!("the session's name comes as {name:?} for {}", show(text)));
                }
                run::hit("probe.assembled-line-by-line");
                Ok(())
            }
            Some((path, w, g)) => fail(
                &format!("assembly:{}", class_of(&path)),
                format!("put together line by line, {path} is {g} instead of {w} for {}", show(text)),
            ),
        },
    }
}

pub fn c03() -> Res<()> {
    maybe_level();
    hostile(p(1, 3), |text, strict| {
        if p(1, 6) {
            entry_points(text)?;
        }
        let want = refparse::parse(text, strict);
        let got = parse(text, strict)?;
        run::shape(match &want {
            Ok(_) => "ok",
            Err(Reject::Line(_)) => "line",
            Err(Reject::Unsupported(_)) => "unsup",
            Err(Reject::Sequence(_, r)) => r,
        });
        match (&want, &got) {
            (Ok(a), Ok(s)) => {
                run::hit("probe.both-accept");
                let t = lift(s)?;
                if let Some((path, w, g)) = model::diff(&a.tree, &t) {
                    return fail(
                        &format!("misread:{}", class_of(&path)),
                        format!("accepted text is misread: {path} should be {w} but is {g} in {}", show(text)),
                    );
                }
                if p(1, 4) {
                    piecemeal(text, &t)?;
                }
                Ok(())
            }
            (Err(r), Err(_)) => {
                if let Reject::Sequence(_, why) = r {
                    run::hit(&format!("gate.{why}"));
                } else {
                    run::hit("gate.line");
                }
                Ok(())
            }
            (Ok(_), Err(e)) => fail(
                "wrongly-rejected",
                format!("a conforming description is rejected: {e} in {}", show(text)),
            ),
            (Err(r), Ok(_)) => fail(
                &format!(
                    "wrongly-accepted:{}",
                    match r {
                        Reject::Line(_) => "malformed line",
                        Reject::Unsupported(_) => "unsupported line in strict mode",
                        Reject::Sequence(_, w) => w,
                    }
                ),
                format!("accepted although: {r:?} in {}", show(text)),
            ),
        }
    })
}

pub fn c04() -> Res<()> {
    maybe_level();
    hostile(p(1, 4), |text, strict| {
        let want = refparse::parse(text, strict);
        // warnings also reach the log, in the same order
        crate::sink::capture(true);
        let got = parse(text, strict)?;
        let logged = crate::sink::capture(false);
        let got = {
            if let Ok(s) = &got {
                if log::max_level() >= log::LevelFilter::Warn {
                    let w: Vec<&String> = logged.iter().filter(|l| l.0 == log::Level::Warn).map(|l| &l.1).collect();
                    for warn in &s.warnings {
                        if let SdpParserError::Unsupported { line, .. } = warn {
                            if !w.iter().any(|m| m.contains(line.as_str())) {
                                return fail("warning-not-logged", format!("warning about {line:?} never reached the log"));
                            }
                        }
                    }
                }
            }
            said(&got)
        };
        run::shape(&format!("{:?}", std::mem::discriminant(&got)));
        let ok = match (&want, &got) {
            (Ok(a), Said::Accept(w)) => {
                if !w.is_empty() {
                    run::hit("diag.warnings");
                    run::nontrivial();
                }
                *w == a.warnings
            }
            (Err(Reject::Line(n)), Said::Line(m)) => {
                run::hit("diag.line");
                n == m
            }
            (Err(Reject::Unsupported(n)), Said::Unsupported(m)) => {
                run::hit("diag.unsupported");
                n == m
            }
            (Err(Reject::Sequence(n, _)), Said::Sequence(m)) => {
                run::hit("diag.sequence");
                n.map_or(true, |n| n == *m)
            }
            _ => false,
        };
        if ok {
            return Ok(());
        }
        let k = |s: &str| s.split('(').next().unwrap_or("").to_owned();
        fail(
            &format!(
                "diagnosis:{}/{}",
                match &want {
                    Ok(_) => "accept".to_owned(),
                    Err(e) => k(&format!("{e:?}")),
                },
                k(&format!("{got:?}"))
            ),
            format!(
                "strict={strict}: expected {} but the library says {got:?} for {}",
                match &want {
                    Ok(a) => format!("acceptance with warnings {:?}", a.warnings),
                    Err(e) => format!("{e:?}"),
                },
                show(text)
            ),
        )
    })
}

#[allow(unused)]
fn keep() {
    let _ = pick(&[0]);
}

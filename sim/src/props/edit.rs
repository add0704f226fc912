//! C09: long editing histories with rejected edits, crashes and reloads.
use super::*;
use crate::ch::{len, pick, range, us};
use crate::gen::Cx;
use serde_json::json;
use webrtc_sdp::attribute_type::SdpAttributeType;

struct Doc {
    s: SdpSession,
    m: V,
    /// durable text and the tree it was rendered from
    disk: Option<(String, V)>,
    /// may hold what no reader understands, so it is not persisted
    odd: bool,
}

fn exact(what: &str, d: &Doc) -> Res<()> {
    match model::diff(&d.m, &lift(&d.s)?) {
        None => Ok(()),
        Some((path, want, got)) => fail(
            &format!("edit:{}:{}", what.split(' ').next().unwrap_or(""), class_of(&path)),
            format!("after {what}: {path} should be {want} but is {got}"),
        ),
    }
}

fn type_of(k: &V) -> SdpAttributeType {
    SdpAttributeType::from(&model::lower_attr(k))
}

fn any_attr(st: &gen::Style, cx: &mut Cx) -> V {
    let k = if st.kinds.is_empty() || p(1, 5) { crate::dict::pick(&gen::KINDS) } else { *pick(&st.kinds) };
    let mut a = gen::attr(st, k, cx).0;
    if st.odd && p(1, 3) {
        // a value of its own making
        crate::wild::wild(&mut a);
        a = model::attr(&model::lower_attr(&a));
    }
    a
}

/// Whether the rendering of this model is meant to be readable.
fn renderable(m: &V) -> bool {
    refparse::rules(m).is_ok()
        && m["media"].as_array().unwrap().iter().all(|x| {
            let f = &x["m"]["fmt"];
            let n = f.get("i").or_else(|| f.get("s")).and_then(V::as_array).map_or(0, Vec::len);
            let ok = n > 0 && x["m"]["port"].as_u64().unwrap() < 65536;
            // audio and video sections list payload types only
            ok && (x["m"]["media"] == "application"
                || f.get("i").map_or(false, |i| {
                    i.as_array().unwrap().iter().all(|n| !refparse::pt_forbidden(n.as_u64().unwrap() as u32))
                }))
        })
}

fn session_edit(st: &gen::Style, d: &mut Doc) -> Res<String> {
    let mut cx = if p(1, 2) { Cx::default() } else { Cx::with_rids() };
    Ok(match u(9) {
        0 => {
            let (c, _) = gen::conn(st);
            let l = model::lower_conn(&c);
            lib("set_connection", || d.s.set_connection(l))?;
            d.m["c"] = c;
            "set_connection".to_owned()
        }
        1 => {
            let (b, _) = gen::bw(st);
            let l = model::lower_bw(&b);
            lib("add_bandwidth", || d.s.add_bandwidth(l))?;
            d.m["b"].as_array_mut().unwrap().push(b);
            "add_bandwidth".to_owned()
        }
        2 => {
            let (a, b) = (gen::num(st, u64::MAX), gen::num(st, u64::MAX));
            lib("set_timing", || d.s.set_timing(webrtc_sdp::SdpTiming { start: a, stop: b }))?;
            d.m["t"] = json!([a, b]);
            "set_timing".to_owned()
        }
        3 | 4 | 5 => {
            let a = any_attr(st, &mut cx);
            let k = a["k"].as_str().unwrap().to_owned();
            let l = model::lower_attr(&a);
            let r = lib("add_attribute", || d.s.add_attribute(l).is_ok())?;
            let legal = refparse::levels(&k).0;
            if r != legal {
                return fail(
                    &format!("level:{k}"),
                    format!("adding {k} at session level {}", if r { "is accepted" } else { "is refused" }),
                );
            }
            if r {
                d.m["a"].as_array_mut().unwrap().push(a);
            } else {
                run::hit("fault.edit-rejected");
            }
            format!("add_attribute(session) {k} {}", if r { "ok" } else { "rejected" })
        }
        6 | 7 => {
            let mut v = Vec::new();
            let mut t = Vec::new();
            for _ in 0..len(1, 2) {
                let mut cx = if p(1, 2) { Cx::default() } else { Cx::with_rids() };
                let (ml, _) = gen::media_line(st, &mut cx);
                let mut x = json!({"m": ml, "c": null, "b": [], "a": []});
                if p(1, 2) {
                    x["c"] = gen::conn(st).0;
                }
                for _ in 0..us(4) {
                    let a = any_attr(st, &mut cx);
                    if refparse::levels(a["k"].as_str().unwrap()).1 {
                        x["a"].as_array_mut().unwrap().push(a);
                    }
                }
                match lib("building a media section", || model::lower_media(&x))? {
                    Ok(m) => v.push(m),
                    Err(e) => return fail("edit-refused", format!("building a legal media section is refused: {e}")),
                }
                t.push(x);
            }
            lib("extend_media", || d.s.extend_media(v))?;
            d.m["media"].as_array_mut().unwrap().extend(t);
            "extend_media".to_owned()
        }
        _ => {
            let kind = *pick(&["audio", "video", "application"]);
            let k = if p(3, 4) { *pick(&["sendrecv", "sendonly", "recvonly", "inactive"]) } else { crate::dict::pick(&gen::KINDS) };
            let a = gen::attr(st, k, &mut cx).0;
            let k = a["k"].as_str().unwrap().to_owned();
            let port = range(0, 65535);
            let (pn, pv) = pick(&model::PROTOS);
            let (ad, _) = gen::taddr(st);
            let (la, lad, lm) = (model::lower_attr(&a), model::lower_taddr(&ad), model::lower_media_value(&json!(kind)));
            let r = lib("add_media", || d.s.add_media(lm, la, port as _, pv.clone(), lad).is_ok())?;
            let legal = refparse::levels(&k).1;
            if r != legal {
                return fail(&format!("level:{k}"), format!("add_media with {k} {}", if r { "is accepted" } else { "is refused" }));
            }
            if r {
                d.m["media"].as_array_mut().unwrap().push(json!({
                    "m": {"media": kind, "port": port, "pc": 1, "proto": pn, "fmt": {"i": []}},
                    "c": {"addr": ad, "ttl": null, "amount": null}, "b": [], "a": [a],
                }));
            } else {
                run::hit("fault.edit-rejected");
            }
            format!("add_media {k} {}", if r { "ok" } else { "rejected" })
        }
    })
}

fn media_edit(st: &gen::Style, d: &mut Doc, i: usize) -> Res<String> {
    let s = &mut d.s.media[i];
    let m = &mut d.m["media"][i];
    let mut cx = if p(1, 2) { Cx::default() } else { Cx::with_rids() };
    if let Some(f) = m["m"]["fmt"].get("i") {
        cx.pts = f.as_array().unwrap().iter().filter_map(V::as_u64).filter(|n| *n < 128).collect();
    }
    for a in m["a"].as_array().unwrap() {
        if a["k"] == "rid" {
            cx.rids.push((a["id"].as_str().unwrap().to_owned(), a["dir"].as_str().unwrap().to_owned()));
        }
    }
    let existing = |m: &V| -> Option<V> {
        let l = m["a"].as_array().unwrap();
        if l.is_empty() {
            None
        } else {
            Some(l[us(l.len())].clone())
        }
    };
    Ok(match u(12) {
        0 => {
            let n = if p(1, 10) { gen::num(st, u64::from(u32::MAX)) } else { range(0, 65535) };
            lib("set_port", || s.set_port(n as _))?;
            m["m"]["port"] = json!(n);
            "set_port".to_owned()
        }
        1 => {
            let (b, _) = gen::bw(st);
            let l = model::lower_bw(&b);
            lib("add_bandwidth", || s.add_bandwidth(l))?;
            m["b"].as_array_mut().unwrap().push(b);
            "add_bandwidth(media)".to_owned()
        }
        2 => {
            let (c, _) = gen::conn(st);
            let l = model::lower_conn(&c);
            lib("set_connection", || s.set_connection(l))?;
            m["c"] = c;
            "set_connection(media)".to_owned()
        }
        3 | 4 => {
            let a = any_attr(st, &mut cx);
            let k = a["k"].as_str().unwrap().to_owned();
            let l = model::lower_attr(&a);
            let r = lib("add_attribute", || s.add_attribute(l).is_ok())?;
            let legal = refparse::levels(&k).1;
            if r != legal {
                return fail(&format!("level:{k}"), format!("adding {k} at media level {}", if r { "is accepted" } else { "is refused" }));
            }
            if r {
                m["a"].as_array_mut().unwrap().push(a);
            } else {
                run::hit("fault.edit-rejected");
            }
            format!("add_attribute(media) {k} {}", if r { "ok" } else { "rejected" })
        }
        5 | 6 => {
            // replaces every attribute of the kind, new one last
            let a = match existing(m) {
                Some(e) if p(2, 3) => gen::attr(st, gen::KINDS.iter().find(|k| e["k"] == **k).unwrap(), &mut cx).0,
                _ => any_attr(st, &mut cx),
            };
            let k = a["k"].as_str().unwrap().to_owned();
            let l = model::lower_attr(&a);
            let r = lib("set_attribute", || s.set_attribute(l).is_ok())?;
            let legal = refparse::levels(&k).1;
            if r != legal {
                return fail(&format!("level:{k}"), format!("setting {k} at media level {}", if r { "is accepted" } else { "is refused" }));
            }
            if r {
                let l = m["a"].as_array_mut().unwrap();
                l.retain(|x| x["k"] != a["k"]);
                l.push(a);
            } else {
                run::hit("fault.edit-rejected");
            }
            format!("set_attribute {k} {}", if r { "ok" } else { "rejected" })
        }
        7 => {
            let a = match existing(m) {
                Some(e) if p(3, 4) => e,
                _ => any_attr(st, &mut cx),
            };
            let t = type_of(&a);
            lib("remove_attribute", || s.remove_attribute(t))?;
            m["a"].as_array_mut().unwrap().retain(|x| x["k"] != a["k"]);
            format!("remove_attribute {}", a["k"])
        }
        8 => {
            lib("remove_codecs", || s.remove_codecs())?;
            let k = if m["m"]["fmt"].get("i").is_some() { "i" } else { "s" };
            m["m"]["fmt"] = json!({ k: [] });
            m["a"].as_array_mut().unwrap().retain(|x| {
                !["rtpmap", "fmtp", "rtcp-fb", "sctpmap", "sctp-port"].contains(&x["k"].as_str().unwrap())
            });
            "remove_codecs".to_owned()
        }
        9 | 10 => {
            let mut a = gen::attr(st, "rtpmap", &mut cx).0;
            if p(1, 2) {
                a["pt"] = json!(gen::good_pt(st));
            }
            let l = model::lower_rtpmap(&a);
            if !lib("add_codec", || s.add_codec(l).is_ok())? {
                return fail("edit-refused", "add_codec is refused".to_owned());
            }
            if let Some(i) = m["m"]["fmt"].get_mut("i") {
                i.as_array_mut().unwrap().push(a["pt"].clone());
            } else {
                let t = a["pt"].to_string();
                m["m"]["fmt"]["s"].as_array_mut().unwrap().push(json!(t));
            }
            m["a"].as_array_mut().unwrap().push(a);
            "add_codec".to_owned()
        }
        _ => {
            let name = gen::token(st, 12);
            let (port, streams) = (range(0, 65535), range(0, 65535));
            let size = if p(1, 3) { 0 } else { gen::num(st, u64::from(u32::MAX)) };
            let nm = name.clone();
            if !lib("add_datachannel", || s.add_datachannel(nm, port as _, streams as _, size as _).is_ok())? {
                return fail("edit-refused", "add_datachannel is refused".to_owned());
            }
            let proto = m["m"]["proto"].as_str().unwrap().to_owned();
            let a = if proto == "UDP/DTLS/SCTP" || proto == "TCP/DTLS/SCTP" {
                m["m"]["fmt"] = json!({ "s": [name] });
                json!({"k": "sctp-port", "n": port})
            } else {
                m["m"]["fmt"] = json!({ "i": [port] });
                json!({"k": "sctpmap", "port": port, "ch": streams})
            };
            let l = m["a"].as_array_mut().unwrap();
            l.retain(|x| x["k"] != a["k"]);
            l.push(a);
            if size > 0 {
                l.retain(|x| x["k"] != "max-message-size");
                l.push(json!({"k": "max-message-size", "n": size}));
            }
            m["m"]["media"] = json!("application");
            "add_datachannel".to_owned()
        }
    })
}

fn lookups(d: &Doc, st: &gen::Style) -> Res<()> {
    let mut cx = if p(1, 2) { Cx::default() } else { Cx::with_rids() };
    let probe = any_attr(st, &mut cx);
    let kind = |a: &V| a["k"] == probe["k"];
    let t = || type_of(&probe);
    let got = lib("get_attribute", || d.s.get_attribute(t()).map(model::attr))?;
    let want = d.m["a"].as_array().unwrap().iter().find(|a| kind(a)).cloned();
    if got != want {
        return fail("lookup", format!("session get_attribute({}) gives {got:?}, expected {want:?}", probe["k"]));
    }
    for (i, s) in d.s.media.iter().enumerate() {
        let l = d.m["media"][i]["a"].as_array().unwrap();
        let probe = if l.is_empty() || p(1, 3) { probe.clone() } else { l[us(l.len())].clone() };
        let kind = |a: &&V| a["k"] == probe["k"];
        let t = || type_of(&probe);
        let got = lib("get_attribute", || s.get_attribute(t()).map(model::attr))?;
        let want = l.iter().find(kind).cloned();
        if got != want {
            return fail("lookup", format!("media get_attribute({}) gives {got:?}, expected {want:?}", probe["k"]));
        }
        let got = lib("get_attributes_of_type", || {
            s.get_attributes_of_type(t()).into_iter().map(model::attr).collect::<Vec<_>>()
        })?;
        let want: Vec<V> = l.iter().filter(kind).cloned().collect();
        if got != want {
            return fail("lookup", format!("get_attributes_of_type({}) gives {got:?}, expected {want:?}", probe["k"]));
        }
    }
    Ok(())
}

fn reload(d: &mut Doc) -> Res<()> {
    let Some((text, tree)) = d.disk.clone() else {
        return Ok(());
    };
    let want = model::canon(tree);
    let strict = strict();
    let s = match parse(&text, strict)? {
        Ok(s) => s,
        Err(e) => return fail("reload-rejected", format!("text persisted by the library is rejected after a restart: {e} in {}", show(&text))),
    };
    same_content("after a restart", &s, &want)?;
    let m = match refparse::parse(&text, true) {
        Ok(a) => a.tree,
        Err(e) => return fail("reload-unreadable", format!("persisted text is not readable: {e:?} in {}", show(&text))),
    };
    d.s = s;
    d.m = m;
    exact("reload", d)
}

fn persist(d: &mut Doc) -> Res<bool> {
    if d.odd || !renderable(&d.m) {
        return Ok(false);
    }
    let t = render(&d.s)?;
    foreign_agrees("persisted text", &t, &model::canon(d.m.clone()))?;
    d.disk = Some((t, d.m.clone()));
    Ok(true)
}

pub fn c09() -> Res<()> {
    maybe_level();
    let mut st = gen::Style::draw();
    st.max_attrs = st.max_attrs.min(6);
    let odd = p(1, 6);
    st.odd = odd;
    let mut docs = Vec::new();
    for _ in 0..1 + us(3) {
        if p(1, 3) {
            // an empty session built by hand
            let (o, _) = gen::origin(&st);
            let name = if p(1, 3) { (*pick(&["", " ", "-"])).to_owned() } else { gen::text(&st, 8) };
            let lo = model::lower_origin(&o);
            let nm = name.clone();
            let s = lib("SdpSession::new", || SdpSession::new(0, lo, nm))?;
            let t = name.trim();
            let m = json!({"v": 0, "o": o, "s": if t.is_empty() { V::Null } else { json!(t) }, "c": null, "b": [], "t": null, "a": [], "media": []});
            let d = Doc { s, m, disk: None, odd };
            exact("new", &d)?;
            docs.push(d);
        } else {
            let m = make(&st);
            note_content(&m.tree);
            let s = match parse(&gen::wire(&m.lines, "\r\n"), true)? {
                Ok(s) => s,
                Err(_) => continue, // C01/C03 decide acceptance
            };
            let d = Doc { s, m: m.tree, disk: None, odd };
            exact("parse", &d)?;
            docs.push(d);
        }
    }
    if docs.is_empty() {
        return Ok(());
    }
    let mut applied = 0u64;
    let mut hist: Vec<String> = Vec::new();
    for _ in 0..crate::dict::length(1, 300).unwrap_or_else(|| len(1, 60)) {
        let r = crate::ch::span(|| -> Res<Option<String>> {
            let di = us(docs.len());
            let d = &mut docs[di];
            run::advance(1_000);
            let what = match u(16) {
                0 => {
                    // crash: only durable text survives
                    if d.disk.is_none() {
                        return Ok(None);
                    }
                    run::hit("fault.crash");
                    reload(d)?;
                    "crash and reload".to_owned()
                }
                1 | 2 => {
                    if persist(d)? {
                        run::hit("probe.persisted");
                        "persist".to_owned()
                    } else {
                        // rendering half-edited objects must still not fail
                        let _ = render(&d.s)?;
                        return Ok(None);
                    }
                }
                3 => {
                    // edits of a copy do not reach the original
                    let s2 = lib("clone", || d.s.clone())?;
                    let mut copy = Doc { s: s2, m: d.m.clone(), disk: None, odd: d.odd };
                    let w = if copy.s.media.is_empty() || p(1, 2) {
                        session_edit(&st, &mut copy)?
                    } else {
                        let i = us(copy.s.media.len());
                        media_edit(&st, &mut copy, i)?
                    };
                    exact(&w, &copy)?;
                    "copy edited".to_owned()
                }
                4 => {
                    lookups(d, &st)?;
                    "lookup".to_owned()
                }
                5 | 6 | 7 | 8 => session_edit(&st, d)?,
                _ => {
                    if d.s.media.is_empty() {
                        session_edit(&st, d)?
                    } else {
                        let i = us(d.s.media.len());
                        media_edit(&st, d, i)?
                    }
                }
            };
            exact(&what, d)?;
            run::ev("op", || format!("doc {di}: {what}"));
            run::shape(&format!("{di}{what}"));
            Ok(Some(what))
        })?;
        if let Some(w) = r {
            applied += 1;
            hist.push(w);
        }
    }
    for d in docs.iter_mut() {
        exact("history", d)?;
        if persist(d)? {
            reload(d)?;
        }
    }
    if applied >= 3 {
        run::nontrivial();
    }
    run::sample(|| json!({"history": hist}));
    Ok(())
}

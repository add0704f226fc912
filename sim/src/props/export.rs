//! C15: what the structured export says. An exporting node streams sessions,
//! single lines and diagnostics as JSON to a collector over a sink that tears,
//! interrupts and fails; what the collector reads must be the session.
use super::*;
use crate::ch::{len, us};
use crate::faults;
use crate::net::{Ev, Knobs, Net};
use crate::parts;
use crate::sink::Bytes;
use serde_json::json;
use webrtc_sdp::{SdpLine, SdpType};

// ------------------------------------------------- what the export should say

/// `{variant: content}` or the bare variant name.
fn var(name: &str, v: V) -> V {
    json!({ name: v })
}
/// A float from its debug text; JSON has no NaN and no infinity.
fn fl(v: &V) -> V {
    let t = v.as_str().unwrap();
    match t.parse::<f64>() {
        Ok(f) if f.is_finite() => json!(f),
        _ => V::Null,
    }
}
fn addr(v: &V) -> V {
    match v.get("ip") {
        Some(ip) => var("Ip", ip.clone()),
        None => var("Fqdn", v["fqdn"].clone()),
    }
}
fn opt(v: &V, f: impl Fn(&V) -> V) -> V {
    if v.is_null() {
        V::Null
    } else {
        f(v)
    }
}
fn list(v: &V, f: impl Fn(&V) -> V) -> V {
    V::Array(v.as_array().unwrap().iter().map(f).collect())
}
fn taddr(v: &V) -> V {
    match v.get("ip") {
        Some(ip) => var("Ip", ip.clone()),
        None => var(
            "Fqdn",
            json!({"address_type": if v["t"] == 6 { "IpV6" } else { "IpV4" }, "domain": v["fqdn"]}),
        ),
    }
}
fn conn(v: &V) -> V {
    json!({"address": taddr(&v["addr"]), "ttl": v["ttl"], "amount": v["amount"]})
}
fn bw(v: &V) -> V {
    match v[0].as_str().unwrap() {
        "AS" => var("As", v[1].clone()),
        "CT" => var("Ct", v[1].clone()),
        "TIAS" => var("Tias", v[1].clone()),
        _ => var("Unknown", json!([v[1], v[2]])),
    }
}
fn pt(v: &V) -> V {
    if v.is_number() {
        var("PayloadType", v.clone())
    } else {
        json!("Wildcard")
    }
}
fn xy(v: &V) -> V {
    match v.get("r") {
        Some(r) => var("Range", r.clone()),
        None => var("DiscreteValues", v["d"].clone()),
    }
}
fn sets(v: &V) -> V {
    if v.is_string() {
        return json!("Wildcard");
    }
    var(
        "Sets",
        list(v, |s| {
            json!({
                "x": xy(&s["x"]), "y": xy(&s["y"]),
                "sar": opt(&s["sar"], |r| match r.get("r") {
                    Some(r) => var("Range", list(r, fl)),
                    None => var("DiscreteValues", list(&r["d"], fl)),
                }),
                "par": opt(&s["par"], |p| json!({"min": fl(&p[0]), "max": fl(&p[1])})),
                "q": opt(&s["q"], fl),
            })
        }),
    )
}
fn ssrc(v: &V) -> V {
    json!({"id": v["id"], "attribute": v["a"], "value": v["v"]})
}
fn scast(v: &V) -> V {
    list(v, |ver| json!({"ids": list(ver, |i| json!({"id": i[0], "paused": i[1]}))}))
}
fn one_of(v: &V, names: &[(&str, &str)]) -> V {
    let t = v.as_str().unwrap();
    json!(names.iter().find(|(a, _)| *a == t).unwrap_or_else(|| panic!("unmapped {t}")).1)
}

pub fn attr(v: &V) -> V {
    let k = v["k"].as_str().unwrap();
    let s = |name: &str| var(name, v["s"].clone());
    let n = |name: &str| var(name, v["n"].clone());
    match k {
        "bundle-only" => json!("BundleOnly"),
        "end-of-candidates" => json!("EndOfCandidates"),
        "extmap-allow-mixed" => json!("ExtmapAllowMixed"),
        "ice-lite" => json!("IceLite"),
        "ice-mismatch" => json!("IceMismatch"),
        "inactive" => json!("Inactive"),
        "recvonly" => json!("Recvonly"),
        "rtcp-mux" => json!("RtcpMux"),
        "rtcp-mux-only" => json!("RtcpMuxOnly"),
        "rtcp-rsize" => json!("RtcpRsize"),
        "sendonly" => json!("Sendonly"),
        "sendrecv" => json!("Sendrecv"),
        "ice-pwd" => s("IcePwd"),
        "ice-ufrag" => s("IceUfrag"),
        "identity" => s("Identity"),
        "label" => s("Label"),
        "mid" => s("Mid"),
        "ice-pacing" => n("IcePacing"),
        "max-message-size" => n("MaxMessageSize"),
        "maxptime" => n("MaxPtime"),
        "ptime" => n("Ptime"),
        "sctp-port" => n("SctpPort"),
        "framerate" => var("FrameRate", fl(&v["f"])),
        "ice-options" => var("IceOptions", v["l"].clone()),
        "candidate" => var(
            "Candidate",
            json!({
                "foundation": v["found"], "component": v["comp"],
                "transport": one_of(&v["tr"], &[("udp", "Udp"), ("tcp", "Tcp")]),
                "priority": v["prio"], "address": addr(&v["addr"]), "port": v["port"],
                "c_type": one_of(&v["typ"], &[("host", "Host"), ("srflx", "Srflx"), ("prflx", "Prflx"), ("relay", "Relay")]),
                "raddr": opt(&v["raddr"], addr), "rport": v["rport"],
                "tcp_type": opt(&v["tcptype"], |t| one_of(t, &[("active", "Active"), ("passive", "Passive"), ("so", "Simultaneous")])),
                "generation": v["gen"], "ufrag": v["ufrag"], "networkcost": v["cost"],
                "unknown_extensions": v["ext"],
            }),
        ),
        "dtls-message" => var(
            "DtlsMessage",
            var(if v["role"] == "client" { "Client" } else { "Server" }, v["s"].clone()),
        ),
        "extmap" => var(
            "Extmap",
            json!({
                "id": v["id"], "url": v["url"], "extension_attributes": v["ext"],
                "direction": opt(&v["dir"], |d| one_of(d, &[("recvonly", "Recvonly"), ("sendonly", "Sendonly"), ("sendrecv", "Sendrecv")])),
            }),
        ),
        "fingerprint" => var(
            "Fingerprint",
            json!({
                "hash_algorithm": one_of(&v["alg"], &[("sha-1", "Sha1"), ("sha-224", "Sha224"), ("sha-256", "Sha256"), ("sha-384", "Sha384"), ("sha-512", "Sha512")]),
                "fingerprint": model::unhex(v["fp"].as_str().unwrap()),
            }),
        ),
        "fmtp" => {
            let p = &v["p"];
            let mut o = serde_json::Map::new();
            for (k, x) in p.as_object().unwrap() {
                let name = match k.as_str() {
                    "enc" => "encodings".to_owned(),
                    "dtmf" => "dtmf_tones".to_owned(),
                    "unk" => "unknown_tokens".to_owned(),
                    "rtx" => {
                        o.insert("rtx".into(), opt(x, |r| json!({"apt": r[0], "rtx_time": r[1]})));
                        continue;
                    }
                    k => k.replace('-', "_"),
                };
                o.insert(name, x.clone());
            }
            var("Fmtp", json!({"payload_type": v["pt"], "parameters": o}))
        }
        "group" => var(
            "Group",
            json!({
                "semantics": one_of(&v["sem"], &[
                    ("LS", "LipSynchronization"), ("FID", "FlowIdentification"), ("SRF", "SingleReservationFlow"),
                    ("ANAT", "AlternateNetworkAddressType"), ("FEC", "ForwardErrorCorrection"),
                    ("DDP", "DecodingDependency"), ("BUNDLE", "Bundle")]),
                "tags": v["tags"],
            }),
        ),
        "imageattr" => var(
            "ImageAttr",
            json!({"pt": pt(&v["pt"]), "send": sets(&v["send"]), "recv": sets(&v["recv"])}),
        ),
        "msid" => var("Msid", json!({"id": v["id"], "appdata": v["app"]})),
        "msid-semantic" => var("MsidSemantic", json!({"semantic": v["sem"], "msids": v["ids"]})),
        "rid" => var(
            "Rid",
            json!({
                "id": v["id"], "direction": one_of(&v["dir"], &[("send", "Send"), ("recv", "Recv")]),
                "formats": v["pts"], "depends": v["dep"],
                "params": {
                    "max_width": v["p"]["max-width"], "max_height": v["p"]["max-height"],
                    "max_fps": v["p"]["max-fps"], "max_fs": v["p"]["max-fs"],
                    "max_br": v["p"]["max-br"], "max_pps": v["p"]["max-pps"], "unknown": v["unk"],
                },
            }),
        ),
        "remote-candidates" => var(
            "RemoteCandidate",
            json!({"component": v["comp"], "address": addr(&v["addr"]), "port": v["port"]}),
        ),
        "rtpmap" => var(
            "Rtpmap",
            json!({"payload_type": v["pt"], "codec_name": v["name"], "frequency": v["freq"], "channels": v["ch"]}),
        ),
        "rtcp" => var("Rtcp", json!({"port": v["port"], "unicast_addr": opt(&v["addr"], taddr)})),
        "rtcp-fb" => var(
            "Rtcpfb",
            json!({
                "payload_type": pt(&v["pt"]),
                "feedback_type": one_of(&v["typ"], &[("ack", "Ack"), ("ccm", "Ccm"), ("nack", "Nack"),
                    ("trr-int", "TrrInt"), ("goog-remb", "Remb"), ("transport-cc", "TransCc")]),
                "parameter": v["param"], "extra": v["extra"],
            }),
        ),
        "sctpmap" => var("Sctpmap", json!({"port": v["port"], "channels": v["ch"]})),
        "setup" => var(
            "Setup",
            one_of(&v["s"], &[("active", "Active"), ("actpass", "Actpass"), ("holdconn", "Holdconn"), ("passive", "Passive")]),
        ),
        "simulcast" => var("Simulcast", json!({"send": scast(&v["send"]), "receive": scast(&v["recv"])})),
        "ssrc" => var("Ssrc", ssrc(v)),
        "ssrc-group" => var(
            "SsrcGroup",
            json!([
                one_of(&v["sem"], &[("DUP", "Duplication"), ("FID", "FlowIdentification"),
                    ("FEC", "ForwardErrorCorrection"), ("FEC-FR", "ForwardErrorCorrectionFr"), ("SIM", "Sim")]),
                list(&v["ssrcs"], ssrc)
            ]),
        ),
        k => panic!("unmapped attribute kind {k}"),
    }
}
fn media_line(m: &V) -> V {
    let f = &m["fmt"];
    json!({
        "media": one_of(&m["media"], &[("audio", "Audio"), ("video", "Video"), ("application", "Application")]),
        "port": m["port"], "port_count": m["pc"],
        "proto": one_of(&m["proto"], &[
            ("RTP/AVP", "RtpAvp"), ("RTP/AVPF", "RtpAvpf"), ("RTP/SAVP", "RtpSavp"), ("RTP/SAVPF", "RtpSavpf"),
            ("TCP/DTLS/RTP/SAVP", "TcpDtlsRtpSavp"), ("TCP/DTLS/RTP/SAVPF", "TcpDtlsRtpSavpf"),
            ("UDP/TLS/RTP/SAVP", "UdpTlsRtpSavp"), ("UDP/TLS/RTP/SAVPF", "UdpTlsRtpSavpf"),
            ("DTLS/SCTP", "DtlsSctp"), ("UDP/DTLS/SCTP", "UdpDtlsSctp"), ("TCP/DTLS/SCTP", "TcpDtlsSctp")]),
        "formats": match f.get("i") {
            Some(i) => var("Integers", i.clone()),
            None => var("Strings", f["s"].clone()),
        },
    })
}
pub fn media(v: &V) -> V {
    json!({
        "media": media_line(&v["m"]),
        "connection": opt(&v["c"], conn),
        "bandwidth": list(&v["b"], bw),
        "attribute": list(&v["a"], attr),
    })
}
fn origin(o: &V) -> V {
    json!({"username": o["user"], "session_id": o["sid"], "session_version": o["sver"], "unicast_addr": taddr(&o["addr"])})
}
fn timing(t: &V) -> V {
    json!({"start": t[0], "stop": t[1]})
}
pub fn session(t: &V, warnings: V) -> V {
    json!({
        "version": t["v"], "origin": origin(&t["o"]), "session": t["s"],
        "connection": opt(&t["c"], conn), "bandwidth": list(&t["b"], bw),
        "timing": opt(&t["t"], timing), "attribute": list(&t["a"], attr),
        "media": list(&t["media"], media), "warnings": warnings,
    })
}
/// The diagnostic as its own public fields state it.
fn diagnostic(e: &SdpParserError) -> V {
    match e {
        SdpParserError::Line { error, line, line_number } => {
            json!({"type": "Line", "message": error.to_string(), "line": line, "line_number": line_number})
        }
        SdpParserError::Unsupported { error, line, line_number } => {
            json!({"type": "Unsupported", "message": error.to_string(), "line": line, "line_number": line_number})
        }
        SdpParserError::Sequence { message, line_number } => {
            json!({"type": "Sequence", "message": message, "line_number": line_number})
        }
    }
}
fn line(l: &SdpLine) -> V {
    let t = match &l.sdp_type {
        SdpType::Attribute(a) => var("Attribute", attr(&model::attr(a))),
        SdpType::Bandwidth(b) => var("Bandwidth", bw(&model::bw(b))),
        SdpType::Connection(c) => var("Connection", conn(&model::conn(c))),
        SdpType::Media(m) => var(
            "Media",
            media_line(&json!({
                "media": model::media_name(&m.media), "port": m.port, "pc": m.port_count,
                "proto": model::proto_name(&m.proto), "fmt": model::fmts(&m.formats),
            })),
        ),
        SdpType::Origin(o) => var(
            "Origin",
            origin(&json!({"user": o.username, "sid": o.session_id, "sver": o.session_version, "addr": model::taddr(&o.unicast_addr)})),
        ),
        SdpType::Session(s) => var("Session", json!(s)),
        SdpType::Timing(t) => var("Timing", json!({"start": t.start, "stop": t.stop})),
        SdpType::Version(v) => var("Version", json!(v)),
    };
    json!({"line_number": l.line_number, "sdp_type": t, "text": l.text})
}

// ------------------------------------------------------------- the simulation

/// Exports over a sink that fails now and then, trying again until the whole
/// document got through; returns what the collector holds.
fn deliver<T: serde::Serialize>(what: &str, o: &T) -> Res<V> {
    let pretty = p(1, 5);
    for attempt in 0.. {
        let mut b = match u(4) {
            _ if attempt > 3 => Bytes::new(Fail::Never, false),
            0 => Bytes::new(Fail::Never, true),
            1 => Bytes::new(Fail::After(us(2000)), p(1, 2)),
            _ => Bytes::new(Fail::Never, false),
        };
        let r = lib("export", || {
            if pretty {
                serde_json::to_writer_pretty(&mut b, o)
            } else {
                serde_json::to_writer(&mut b, o)
            }
        })?;
        if b.failed > 0 {
            run::hit("fault.export-torn-and-retried");
            continue;
        }
        if let Err(e) = r {
            return fail("export-fails", format!("exporting a {what} fails on a healthy sink: {e}"));
        }
        return match serde_json::from_slice(&b.got) {
            Ok(v) => Ok(v),
            Err(e) => fail("not-json", format!("exported {what} is not JSON: {e}: {}", show(&String::from_utf8_lossy(&b.got)))),
        };
    }
    unreachable!()
}

/// Decimal spellings of the same float are the same number: `got` with every
/// float that equals the wanted one replaced by it.
fn same_floats(want: &V, got: &mut V, single: bool) {
    match (want, got) {
        (V::Object(w), V::Object(g)) => {
            for (k, g) in g.iter_mut() {
                if let Some(w) = w.get(k) {
                    same_floats(w, g, single || k == "ImageAttr");
                }
            }
        }
        (V::Array(w), V::Array(g)) => {
            for (w, g) in w.iter().zip(g) {
                same_floats(w, g, single);
            }
        }
        (V::Number(w), g @ V::Number(_)) if w.is_f64() => {
            let (a, b) = (w.as_f64().unwrap(), g.as_f64().unwrap());
            // one unit in the last place of either precision (and the
            // JSON reader's own rounding)
            let slack = if single { 1.2e-7 } else { 4.5e-16 };
            if (a - b).abs() <= slack * a.abs() {
                *g = V::Number(w.clone());
            }
        }
        _ => {}
    }
}

fn says(what: &str, want: &V, got: &V) -> Res<()> {
    let got = &{
        let mut g = got.clone();
        same_floats(want, &mut g, false);
        g
    };
    match model::diff(want, got) {
        None => Ok(()),
        Some((path, w, g)) => fail(
            &format!("export:{what}:{}", class_of(&path)),
            format!("structured export of a {what}: {path} should be {w} but is {g}"),
        ),
    }
}

fn exported(what: &str, s: &SdpSession) -> Res<()> {
    let t = lift(s)?;
    let w = V::Array(s.warnings.iter().map(diagnostic).collect());
    let want = session(&t, w);
    says(what, &want, &deliver(what, s)?)?;
    // the same in pieces
    let all = parts::of(s);
    for _ in 0..u(3) {
        if s.media.is_empty() {
            break;
        }
        let i = us(s.media.len());
        says("media section", &media(&t["media"][i]), &deliver("media section", &s.media[i])?)?;
        let l = s.media[i].get_attributes();
        if !l.is_empty() {
            let j = us(l.len());
            says("attribute", &attr(&t["media"][i]["a"][j]), &deliver("attribute", &l[j])?)?;
        }
    }
    run::add("probe.exported-parts", all.len() as u64);
    Ok(())
}

pub fn c15() -> Res<()> {
    maybe_level();
    let st = gen::Style::draw();
    let mut made = Vec::new();
    for _ in 0..1 + us(2) {
        let m = make(&st);
        note_content(&m.tree);
        made.push(m);
    }
    let mut k = Knobs::draw();
    k.frag = 1 << 20;
    k.crashes = 0;
    let mut net: Net<(String, Option<V>)> = Net::new(2, k);
    for _ in 0..len(1, 4) {
        crate::ch::span(|| {
            let (i, j) = (us(made.len()), us(made.len()));
            let m = match u(3) {
                0 => (faults::benign(&made[i].lines, 8), Some(model::canon(made[i].tree.clone()))),
                1 => {
                    let mut l = made[i].lines.clone();
                    for _ in 0..1 + u(2) {
                        let at = 3.min(l.len()) + us(l.len() - 3.min(l.len()) + 1);
                        l.insert(at, (*crate::ch::pick(&faults::UNSUPPORTED)).to_owned());
                        run::hit("fault.unsupported-line-inserted");
                    }
                    (gen::wire(&l, "\r\n"), None)
                }
                _ => (faults::damage(&st, &made[i].lines, &made[j].lines, p(1, 4)), None),
            };
            net.send(0, 1, m);
        });
    }
    net.after(10_000_000, Ev::Calm);
    while let Some(e) = net.next() {
        let Ev::Msg { m: (text, truth), .. } = e else { continue };
        run::ev("deliver", || show(&text));
        run::sample(|| json!({"delivered": cut(&text, 1500)}));
        match parse(&text, p(1, 3))? {
            Ok(s) => {
                if let Some(t) = &truth {
                    // read wrongly is not this property's business
                    if model::diff(t, &model::canon(lift(&s)?)).is_some() {
                        continue;
                    }
                }
                run::nontrivial();
                run::shape("ok");
                exported("session", &s)?;
                let masked = lib("masked_clone", || {
                    use webrtc_sdp::anonymizer::{AnonymizingClone, StatefulSdpAnonymizer};
                    s.masked_clone(&mut StatefulSdpAnonymizer::new())
                })?;
                if p(1, 3) {
                    exported("masked session", &masked)?;
                }
            }
            Err(e) => {
                run::nontrivial();
                run::shape("rej");
                says("diagnostic", &diagnostic(&e), &deliver("diagnostic", &e)?)?;
            }
        }
        let lines: Vec<&str> = text.lines().collect();
        for _ in 0..u(4) {
            if lines.is_empty() {
                break;
            }
            let n = us(1000);
            match lib("parse_sdp_line", || webrtc_sdp::parse_sdp_line(lines[us(lines.len())], n))? {
                Ok(l) => says("line", &line(&l), &deliver("line", &l)?)?,
                Err(e) => says("diagnostic", &diagnostic(&e), &deliver("diagnostic", &e)?)?,
            }
        }
    }
    // single lines, at the limits of what is read
    if p(1, 4) {
        for l in lines_of_a_kind(&st, len(4, 24), near_miss) {
            match lib("parse_sdp_line", || webrtc_sdp::parse_sdp_line(&l, us(1000)))? {
                Ok(l) => says("line", &line(&l), &deliver("line", &l)?)?,
                Err(e) => says("diagnostic", &diagnostic(&e), &deliver("diagnostic", &e)?)?,
            }
        }
    }
    // a session built here, through the API, holds values no reader produces
    if p(1, 2) {
        let mut t = made[0].tree.clone();
        if p(1, 2) {
            crate::wild::wild(&mut t);
        }
        match lib("building through the API", || model::lower_session(&t))? {
            Ok(s) => exported("built session", &s)?,
            Err(_) => return Ok(()),
        }
    }
    Ok(())
}

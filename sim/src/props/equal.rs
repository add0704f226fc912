//! C13: an endpoint finds out what changed between two versions of a
//! description by comparing their values.
use super::*;
use crate::ch::{len, pick, us};
use crate::faults;
use crate::net::{Ev, Knobs, Net};
use serde_json::json;
use webrtc_sdp::address::*;
use webrtc_sdp::attribute_type::{SdpAttribute as A, *};
use webrtc_sdp::media_type::*;

macro_rules! vals {
    ($($n:ident($t:ty)),* $(,)?) => {
        /// Every kind of value the library can compare.
        #[derive(Clone)]
        enum Val { $($n($t)),* }
        impl Val {
            fn kind(&self) -> &'static str {
                match self { $(Val::$n(_) => stringify!($n)),* }
            }
            /// (==, !=) as the library answers.
            fn compare(&self, o: &Val) -> Option<(bool, bool)> {
                match (self, o) {
                    $((Val::$n(a), Val::$n(b)) => Some((a == b, a != b)),)*
                    #[allow(unreachable_patterns)]
                    _ => None,
                }
            }
        }
    };
}
vals! {
    Address(Address),
    TypedAddress(ExplicitlyTypedAddress),
    AddressType(AddressType),
    SingleDirection(SdpSingleDirection),
    PayloadType(SdpAttributePayloadType),
    CandidateTransport(SdpAttributeCandidateTransport),
    CandidateType(SdpAttributeCandidateType),
    CandidateTcpType(SdpAttributeCandidateTcpType),
    HashType(SdpAttributeFingerprintHashType),
    Fingerprint(SdpAttributeFingerprint),
    XyRange(SdpAttributeImageAttrXyRange),
    SRange(SdpAttributeImageAttrSRange),
    PRange(SdpAttributeImageAttrPRange),
    Set(SdpAttributeImageAttrSet),
    SetList(SdpAttributeImageAttrSetList),
    AttributeType(SdpAttributeType),
    MediaValue(SdpMediaValue),
    Protocol(SdpProtocolValue),
}

/// What a value is, where host names have no case and zero has no sign.
fn norm(v: &V) -> V {
    match v {
        V::String(s) if s == "-0.0" => json!("0.0"),
        V::Object(o) => V::Object(
            o.iter()
                .map(|(k, v)| {
                    let v = match v {
                        V::String(s) if k == "fqdn" => json!(s.to_lowercase()),
                        v => norm(v),
                    };
                    (k.clone(), v)
                })
                .collect(),
        ),
        V::Array(l) => V::Array(l.iter().map(norm).collect()),
        v => v.clone(),
    }
}
fn has_nan(v: &V) -> bool {
    match v {
        V::String(s) => s == "NaN",
        V::Array(l) => l.iter().any(has_nan),
        V::Object(o) => o.values().any(has_nan),
        _ => false,
    }
}

type Item = (Val, V);

fn of_sets(v: &mut Vec<Item>, l: &SdpAttributeImageAttrSetList, t: &V) {
    v.push((Val::SetList(l.clone()), t.clone()));
    if let SdpAttributeImageAttrSetList::Sets(l) = l {
        for (i, s) in l.iter().enumerate() {
            let t = &t[i];
            v.push((Val::Set(s.clone()), t.clone()));
            v.push((Val::XyRange(s.x.clone()), t["x"].clone()));
            v.push((Val::XyRange(s.y.clone()), t["y"].clone()));
            if let Some(r) = &s.sar {
                v.push((Val::SRange(r.clone()), t["sar"].clone()));
            }
            if let Some(r) = &s.par {
                v.push((Val::PRange(r.clone()), t["par"].clone()));
            }
        }
    }
}
fn of_taddr(v: &mut Vec<Item>, a: &ExplicitlyTypedAddress, t: &V) {
    v.push((Val::TypedAddress(a.clone()), t.clone()));
    let fam = match (t.get("t"), t["ip"].as_str()) {
        (Some(n), _) => n.clone(),
        (_, Some(ip)) => json!(if ip.contains(':') { 6 } else { 4 }),
        _ => return,
    };
    v.push((Val::AddressType(a.address_type()), fam));
    // the plain address, as lists of candidates compare it
    let mut plain = t.clone();
    plain.as_object_mut().unwrap().remove("t");
    v.push((Val::Address(Address::from(a.clone())), plain));
}
fn of_attr(v: &mut Vec<Item>, a: &A, t: &V) {
    v.push((Val::AttributeType(SdpAttributeType::from(a)), t["k"].clone()));
    match a {
        A::Candidate(c) => {
            v.push((Val::Address(c.address.clone()), t["addr"].clone()));
            if let Some(r) = &c.raddr {
                v.push((Val::Address(r.clone()), t["raddr"].clone()));
            }
            v.push((Val::CandidateTransport(c.transport.clone()), t["tr"].clone()));
            v.push((Val::CandidateType(c.c_type.clone()), t["typ"].clone()));
            if let Some(x) = &c.tcp_type {
                v.push((Val::CandidateTcpType(x.clone()), t["tcptype"].clone()));
            }
        }
        A::RemoteCandidate(c) => v.push((Val::Address(c.address.clone()), t["addr"].clone())),
        A::Fingerprint(f) => {
            v.push((Val::HashType(f.hash_algorithm), t["alg"].clone()));
            v.push((Val::Fingerprint(f.clone()), json!([t["alg"], t["fp"]])));
        }
        A::ImageAttr(i) => {
            v.push((Val::PayloadType(i.pt.clone()), t["pt"].clone()));
            of_sets(v, &i.send, &t["send"]);
            of_sets(v, &i.recv, &t["recv"]);
        }
        A::Rid(r) => v.push((Val::SingleDirection(r.direction.clone()), t["dir"].clone())),
        A::Rtcp(r) => {
            if let Some(a) = &r.unicast_addr {
                of_taddr(v, a, &t["addr"]);
            }
        }
        A::Rtcpfb(r) => v.push((Val::PayloadType(r.payload_type.clone()), t["pt"].clone())),
        _ => {}
    }
}
fn of(s: &SdpSession, t: &V) -> Vec<Item> {
    let mut v = Vec::new();
    of_taddr(&mut v, &s.origin.unicast_addr, &t["o"]["addr"]);
    if let Some(c) = &s.connection {
        of_taddr(&mut v, &c.address, &t["c"]["addr"]);
    }
    for (i, a) in s.attribute.iter().enumerate() {
        of_attr(&mut v, a, &t["a"][i]);
    }
    for (i, m) in s.media.iter().enumerate() {
        let t = &t["media"][i];
        v.push((Val::MediaValue(m.get_type().clone()), t["m"]["media"].clone()));
        v.push((Val::Protocol(m.get_proto().clone()), t["m"]["proto"].clone()));
        if let Some(c) = m.get_connection() {
            of_taddr(&mut v, &c.address, &t["c"]["addr"]);
        }
        for (j, a) in m.get_attributes().iter().enumerate() {
            of_attr(&mut v, a, &t["a"][j]);
        }
    }
    v.retain(|(_, t)| !has_nan(t));
    v
}

/// A small change somewhere in a value.
fn nudge(v: &mut V) {
    match v {
        V::Number(n) => {
            let n = n.as_u64().unwrap_or(0);
            *v = json!(match u(3) {
                0 => n + 1,
                1 => n.saturating_sub(1),
                _ => n ^ (1 << u(8)),
            });
        }
        V::Bool(b) => *v = json!(!*b),
        V::Array(l) if !l.is_empty() => {
            let i = us(l.len());
            match u(4) {
                0 => {
                    let x = l[i].clone();
                    l.push(x);
                }
                1 if l.len() > 2 => {
                    l.remove(i);
                }
                2 => {
                    let j = us(l.len());
                    l.swap(i, j);
                }
                _ => nudge(&mut l[i]),
            }
        }
        V::Object(o) => {
            let keys: Vec<String> = o.keys().cloned().collect();
            if keys.is_empty() {
                return;
            }
            let k = pick(&keys).clone();
            match (k.as_str(), &o[&k]) {
                ("fqdn", V::String(s)) => {
                    let s = match u(4) {
                        0 => s.to_uppercase(),
                        1 => {
                            // one letter's case
                            let i = us(s.len().max(1));
                            s.char_indices()
                                .map(|(j, c)| if i == j { c.to_ascii_uppercase() } else { c })
                                .collect()
                        }
                        2 => format!("{s}{}", pick(&["a", "b", "."])),
                        _ => s.chars().rev().collect(),
                    };
                    o.insert(k, json!(s));
                }
                ("ip", V::String(s)) => {
                    let ip: std::net::IpAddr = s.parse().unwrap();
                    let ip = match (ip, u(3)) {
                        (std::net::IpAddr::V4(v4), 0) => std::net::IpAddr::V6(v4.to_ipv6_mapped()),
                        (std::net::IpAddr::V4(v4), _) => {
                            std::net::IpAddr::V4((u32::from(v4) ^ (1 << u(32))).into())
                        }
                        (std::net::IpAddr::V6(v6), 0) => match v6.to_ipv4_mapped() {
                            Some(v4) => std::net::IpAddr::V4(v4),
                            None => std::net::IpAddr::V6(v6),
                        },
                        (std::net::IpAddr::V6(v6), _) => {
                            std::net::IpAddr::V6((u128::from(v6) ^ (1 << u(128))).into())
                        }
                    };
                    o.insert(k, json!(ip.to_string()));
                }
                ("r", V::Array(l)) if l.len() == 3 => {
                    // minimum, maximum, optional step
                    let mut l = l.clone();
                    match us(4) {
                        3 => l.swap(0, 1),
                        2 => {
                            l[2] = match l[2] {
                                V::Null => json!(u(4)),
                                _ if p(1, 2) => V::Null,
                                ref n => json!(n.as_u64().unwrap_or(0) ^ 1),
                            }
                        }
                        i => nudge(&mut l[i]),
                    }
                    o.insert(k, V::Array(l));
                }
                ("t", _) => {
                    let t = if o["t"] == 6 { 4 } else { 6 };
                    o.insert(k, json!(t));
                }
                ("q" | "sar" | "par", V::Null) => {}
                (k @ ("q" | "sar" | "par"), _) if p(1, 3) => {
                    o.insert(k.to_owned(), V::Null);
                }
                ("q", V::String(s)) => {
                    let near = next_to(s);
                    o.insert(k, near);
                }
                ("sar", _) => floats(o.get_mut("sar").unwrap()),
                ("par", _) => floats(o.get_mut("par").unwrap()),
                ("fp", V::String(s)) => {
                    let mut b = model::unhex(s);
                    match u(3) {
                        0 if b.len() > 1 => {
                            b.pop();
                        }
                        1 => b.push(u(256) as u8),
                        _ if !b.is_empty() => {
                            let i = us(b.len());
                            b[i] ^= 1 << u(8);
                        }
                        _ => {}
                    }
                    let h = model::hex(&b);
                    o.insert(k, json!(h));
                }
                (_, V::String(_)) => {}
                _ => nudge(o.get_mut(&k).unwrap()),
            }
        }
        _ => {}
    }
}
fn payload_type(a: &mut V) {
    a["pt"] = match a["pt"].as_u64() {
        Some(n) if p(7, 8) => json!(n ^ (1 << u(8))),
        Some(_) => json!("*"),
        None => json!(u(256)),
    };
}
/// Another single-precision number: one of the usual ones, or one that differs
/// in a single bit of any weight.
fn next_to(s: &str) -> V {
    if p(1, 3) {
        return json!(pick(&["0.0", "-0.0", "0.25", "0.5", "1.0", "1.5", "2.0", "16.0", "0.1", "0.2"]));
    }
    let x = s.parse::<f32>().unwrap_or(1.0);
    let y = f32::from_bits(x.to_bits() ^ (1 << if p(1, 2) { u(10) } else { u(32) }));
    model::f32s(if y.is_finite() { y } else { x })
}
fn floats(v: &mut V) {
    match v {
        V::Array(l) if !l.is_empty() => {
            let i = us(l.len());
            match u(3) {
                0 if l.len() > 2 => {
                    l.remove(i);
                }
                _ => l[i] = next_to(l[i].as_str().unwrap_or("1")),
            }
        }
        V::Object(o) => {
            if let Some(r) = o.get_mut("r") {
                floats(r)
            } else if let Some(d) = o.get_mut("d") {
                floats(d)
            }
        }
        _ => {}
    }
}

/// A version of the values that differs a little, built through the API.
fn nudged(s: &SdpSession, t: &V) -> Vec<Item> {
    let mut v = Vec::new();
    let attrs = |v: &mut Vec<Item>, l: &V| {
        for a in l.as_array().unwrap() {
            let mut a = a.clone();
            match a["k"].as_str().unwrap() {
                "candidate" | "remote-candidates" => {
                    nudge(&mut a["addr"]);
                    if !a["raddr"].is_null() {
                        nudge(&mut a["raddr"]);
                    }
                }
                "rtcp" => {
                    if !a["addr"].is_null() {
                        nudge(&mut a["addr"])
                    }
                }
                "imageattr" => {
                    let k = *pick(&["send", "recv", "pt"]);
                    if k == "pt" {
                        payload_type(&mut a)
                    } else {
                        nudge(&mut a[k]);
                    }
                }
                "rtcp-fb" => payload_type(&mut a),
                "fingerprint" => {
                    let mut f = json!({"fp": a["fp"]});
                    nudge(&mut f);
                    a["fp"] = f["fp"].clone();
                }
                _ => continue,
            }
            let a = model::lower_attr(&a);
            of_attr(v, &a, &model::attr(&a));
        }
    };
    attrs(&mut v, &t["a"]);
    for m in t["media"].as_array().unwrap() {
        attrs(&mut v, &m["a"]);
    }
    for a in [Some(&t["o"]["addr"]), Some(&t["c"]["addr"])].into_iter().flatten() {
        if a.is_object() {
            let mut a = a.clone();
            nudge(&mut a);
            let x = model::lower_taddr(&a);
            of_taddr(&mut v, &x, &model::taddr(&x));
        }
    }
    let _ = s;
    v.retain(|(_, t)| !has_nan(t));
    v
}

fn check(x: &Item, y: &Item) -> Res<()> {
    let Some((eq, ne)) = lib("comparing values", || x.0.compare(&y.0))? else { return Ok(()) };
    let same = norm(&x.1) == norm(&y.1);
    run::hit(if same { "probe.compared-equal" } else { "probe.compared-different" });
    if same {
        run::hit(&format!("kind.{}", x.0.kind()));
    }
    if eq != same || ne == same {
        return fail(
            &format!("equality:{}", x.0.kind()),
            format!("{}: == says {eq} and != says {ne} for {} and {}", x.0.kind(), x.1, y.1),
        );
    }
    Ok(())
}

pub fn c13() -> Res<()> {
    maybe_level();
    let st = gen::Style::draw();
    let m = make(&st);
    note_content(&m.tree);
    let other = make(&st);
    let mut k = Knobs::draw();
    k.frag = 1 << 20;
    k.crashes = 0;
    let mut net: Net<String> = Net::new(2, k);
    for _ in 0..len(1, 4) {
        crate::ch::span(|| {
            let t = match u(4) {
                0 => faults::benign(&m.lines, 8),
                1 => faults::benign(&other.lines, 8),
                _ => faults::damage(&st, &m.lines, &other.lines, false),
            };
            net.send(0, 1, t);
        });
    }
    net.after(10_000_000, Ev::Calm);
    let mut held: Option<(SdpSession, V, Vec<Item>)> = None;
    while let Some(e) = net.next() {
        let Ev::Msg { m: text, .. } = e else { continue };
        run::ev("deliver", || show(&text));
        run::sample(|| json!({"delivered": cut(&text, 1500)}));
        let Ok(s) = parse(&text, false)? else { continue };
        let t = lift(&s)?;
        let items = of(&s, &t);
        run::nontrivial();
        run::shape(&format!("{}", items.len() % 64));
        // against itself, a copy of itself and a slightly different edition
        let copy = lib("clone", || s.clone())?;
        let ct = lift(&copy)?;
        if let Some((path, a, b)) = model::diff(&t, &ct) {
            return fail("clone-differs", format!("a clone differs from its original: {path} {a} -> {b}"));
        }
        for (a, b) in items.iter().zip(of(&copy, &ct).iter()) {
            check(a, a)?;
            check(a, b)?;
            check(b, a)?;
        }
        let near = nudged(&s, &t);
        for _ in 0..len(0, 24) {
            if near.is_empty() || items.is_empty() {
                break;
            }
            let b = &near[us(near.len())];
            let same: Vec<&Item> = items.iter().chain(&near).filter(|a| a.0.kind() == b.0.kind()).collect();
            let a = same[us(same.len())];
            check(a, b)?;
            check(b, a)?;
        }
        // against the version held before
        if let Some((_, _, old)) = &held {
            for _ in 0..len(0, 40) {
                if items.is_empty() || old.is_empty() {
                    break;
                }
                let i = us(items.len());
                // the value in the same place, or any of its kind
                let a = &items[i];
                let b = if i < old.len() && p(1, 2) {
                    &old[i]
                } else {
                    let same: Vec<&Item> = old.iter().filter(|o| o.0.kind() == a.0.kind()).collect();
                    if same.is_empty() {
                        continue;
                    }
                    same[us(same.len())]
                };
                check(a, b)?;
                check(b, a)?;
            }
        }
        held = Some((s, t, items));
    }
    // values stated by single lines that are much alike
    if p(1, 4) {
        let mut v = Vec::new();
        for l in lines_of_a_kind(&st, len(4, 40), near_miss) {
            if let Ok(webrtc_sdp::SdpType::Attribute(a)) =
                lib("parse_sdp_line", || webrtc_sdp::parse_sdp_line(&l, 0))?.map(|l| l.sdp_type)
            {
                of_attr(&mut v, &a, &model::attr(&a));
            }
        }
        v.retain(|(_, t)| !has_nan(t));
        for _ in 0..len(0, 60) {
            if v.is_empty() {
                break;
            }
            let a = &v[us(v.len())];
            let same: Vec<&Item> = v.iter().filter(|b| b.0.kind() == a.0.kind()).collect();
            let b = same[us(same.len())];
            check(a, b)?;
            check(b, a)?;
        }
    }
    Ok(())
}

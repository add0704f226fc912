//! Reference reader: a second, independent implementation of what the library
//! documents to accept, producing the harness' model tree. It shares only std
//! number parsing, std::net addresses and url::Host with the library.
use crate::model::{default_fmtp_params, f32s, f64s, hex};
use serde_json::{json, Value as V};
use std::net::IpAddr;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fault {
    /// the line is malformed
    Bad,
    /// the line uses something the library knows it does not support
    Unsupported,
}
use Fault::*;
type R<T> = Result<T, Fault>;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Note {
    pub line: String,
    pub no: usize,
}

#[derive(Clone, Debug)]
pub enum Reject {
    Line(Note),
    Unsupported(Note),
    /// sections or rules violated; Some(line) when one line is to blame
    Sequence(Option<usize>, &'static str),
}

#[derive(Clone, Debug)]
pub struct Accepted {
    pub tree: V,
    pub warnings: Vec<Note>,
}

pub enum Item {
    Version,
    Origin(V),
    Name(String),
    Timing(V),
    Bandwidth(V),
    Connection(V),
    Attr(V),
    Media(V),
}

fn int<T: std::str::FromStr>(s: &str) -> R<T> {
    s.parse::<T>().map_err(|_| Bad)
}
fn want<T>(o: Option<T>) -> R<T> {
    o.ok_or(Bad)
}
fn check(b: bool) -> R<()> {
    if b {
        Ok(())
    } else {
        Err(Bad)
    }
}

enum Host {
    Ip(IpAddr),
    Name(String),
}
fn host(s: &str) -> R<Host> {
    if s.contains(':') {
        if let Ok(ip) = s.parse::<IpAddr>() {
            return Ok(Host::Ip(ip));
        }
    }
    match url::Host::parse(s) {
        Ok(url::Host::Domain(d)) => Ok(Host::Name(d)),
        Ok(url::Host::Ipv4(i)) => Ok(Host::Ip(i.into())),
        Ok(url::Host::Ipv6(i)) => Ok(Host::Ip(i.into())),
        Err(_) => Err(Bad),
    }
}
pub fn addr(s: &str) -> R<V> {
    Ok(match host(s)? {
        Host::Ip(i) => json!({"ip": i.to_string()}),
        Host::Name(d) => json!({ "fqdn": d }),
    })
}
pub fn addr_type(s: &str) -> R<u8> {
    match s.to_uppercase().as_str() {
        "IP4" => Ok(4),
        "IP6" => Ok(6),
        _ => Err(Bad),
    }
}
pub fn taddr(t: u8, s: &str) -> R<V> {
    match host(s)? {
        Host::Ip(i) => {
            check(i.is_ipv6() == (t == 6))?;
            Ok(json!({"ip": i.to_string()}))
        }
        Host::Name(d) => Ok(json!({"fqdn": d, "t": t})),
    }
}
pub fn nettype(s: &str) -> R<()> {
    check(s.to_uppercase() == "IN")
}

fn origin(v: &str) -> R<V> {
    let t: Vec<&str> = v.split_whitespace().collect();
    check(t.len() >= 6)?;
    let sid: u64 = int(t[1])?;
    let sver: u64 = int(t[2])?;
    nettype(t[3])?;
    let a = taddr(addr_type(t[4])?, t[5])?;
    Ok(json!({"user": t[0], "sid": sid, "sver": sver, "addr": a}))
}
fn connection(v: &str) -> R<V> {
    let t: Vec<&str> = v.split_whitespace().collect();
    check(t.len() == 3)?;
    nettype(t[0])?;
    let at = addr_type(t[1])?;
    let mut parts = t[2].split('/');
    let host = parts.next().unwrap_or("");
    let ttl = parts.next().map(int::<u8>).transpose()?;
    let amount = parts.next().map(int::<u32>).transpose()?;
    Ok(json!({"addr": taddr(at, host)?, "ttl": ttl, "amount": amount}))
}
fn bandwidth(v: &str) -> R<V> {
    let (k, n) = want(v.split_once(':'))?;
    check(!n.contains(':'))?;
    let n: u32 = int(n)?;
    Ok(match k.to_uppercase().as_str() {
        u @ ("AS" | "CT" | "TIAS") => json!([u, n]),
        _ => json!(["?", k, n]),
    })
}
fn timing(v: &str) -> R<V> {
    let t: Vec<&str> = v.split_whitespace().collect();
    check(t.len() == 2)?;
    Ok(json!([int::<u64>(t[0])?, int::<u64>(t[1])?]))
}

/// Payload type numbers an audio/video m= line may not list.
pub fn pt_forbidden(n: u32) -> bool {
    n == 1 || n == 2 || n == 19 || (64..96).contains(&n) || n > 127
}

pub fn media_line(v: &str) -> R<V> {
    let t: Vec<&str> = v.split_whitespace().collect();
    check(t.len() >= 4)?;
    let kind = t[0].to_lowercase();
    if !["audio", "video", "application"].contains(&kind.as_str()) {
        return Err(Unsupported);
    }
    let mut p = t[1].split('/');
    let port: u32 = int(p.next().unwrap_or(""))?;
    check(port < 65536)?;
    let pc: u32 = p.next().map_or(Ok(0), int)?;
    let proto = t[2].to_uppercase();
    if !crate::model::PROTOS.iter().any(|(n, _)| *n == proto) {
        return Err(Unsupported);
    }
    let fmt = if kind == "application" {
        json!({ "s": &t[3..] })
    } else {
        let mut l = Vec::new();
        for x in &t[3..] {
            let n: u32 = int(x)?;
            check(!pt_forbidden(n))?;
            l.push(n);
        }
        json!({ "i": l })
    };
    Ok(json!({"media": kind, "port": port, "pc": pc, "proto": proto, "fmt": fmt}))
}

const FLAGS: [&str; 12] = [
    "bundle-only",
    "end-of-candidates",
    "extmap-allow-mixed",
    "ice-lite",
    "ice-mismatch",
    "inactive",
    "recvonly",
    "rtcp-mux",
    "rtcp-mux-only",
    "rtcp-rsize",
    "sendonly",
    "sendrecv",
];

fn pt_or_star(s: &str) -> R<V> {
    if s == "*" {
        Ok(json!("*"))
    } else {
        Ok(json!(int::<u8>(s)?))
    }
}
fn way(s: &str) -> R<&'static str> {
    match s {
        "send" => Ok("send"),
        "recv" => Ok("recv"),
        _ => Err(Bad),
    }
}

pub fn attribute(text: &str) -> R<V> {
    let text = text.trim();
    let (name, val) = match text.split_once(':') {
        Some((n, v)) => (n.to_lowercase(), Some(v.trim())),
        None => (text.to_lowercase(), None),
    };
    let k = name.as_str();
    if FLAGS.contains(&k) {
        check(val.is_none())?;
        return Ok(json!({ "k": k }));
    }
    let v = val.unwrap_or("");
    match k {
        "ice-pwd" | "ice-ufrag" | "identity" | "label" | "mid" => {
            check(!v.is_empty())?;
            Ok(json!({"k": k, "s": v}))
        }
        "max-message-size" | "maxptime" | "ptime" => Ok(json!({"k": k, "n": int::<u64>(v)?})),
        "ice-pacing" => {
            let n: u64 = int(v)?;
            check(n <= 9_999_999_999)?;
            Ok(json!({"k": k, "n": n}))
        }
        "sctp-port" => {
            let n: u64 = int(v)?;
            check(n <= 0xffff)?;
            Ok(json!({"k": k, "n": n}))
        }
        "framerate" => {
            let f: f64 = int(v)?;
            check(f.is_finite() && f != 0.0)?;
            Ok(json!({"k": k, "f": f64s(f)}))
        }
        "ice-options" => {
            check(!v.is_empty())?;
            Ok(json!({"k": k, "l": v.split_whitespace().collect::<Vec<_>>()}))
        }
        "setup" => {
            let s = v.to_lowercase();
            check(["active", "actpass", "holdconn", "passive"].contains(&s.as_str()))?;
            Ok(json!({"k": k, "s": s}))
        }
        "dtls-message" => {
            let (r, m) = want(v.split_once(' '))?;
            check(!m.contains(' '))?;
            check(r == "client" || r == "server")?;
            Ok(json!({"k": k, "role": r, "s": m}))
        }
        "candidate" => candidate(v),
        "extmap" => extmap(v),
        "fingerprint" => fingerprint(v),
        "fmtp" => fmtp(v),
        "group" => {
            let mut t = v.split_whitespace();
            let s = want(t.next())?.to_uppercase();
            if !["LS", "FID", "SRF", "ANAT", "FEC", "DDP", "BUNDLE"].contains(&s.as_str()) {
                return Err(Unsupported);
            }
            Ok(json!({"k": k, "sem": s, "tags": t.collect::<Vec<_>>()}))
        }
        "imageattr" => imageattr(v),
        "msid" => {
            let mut t = v.split_whitespace();
            Ok(json!({"k": k, "id": want(t.next())?, "app": t.next()}))
        }
        "msid-semantic" => {
            let mut t = v.split_whitespace();
            Ok(json!({"k": k, "sem": want(t.next())?, "ids": t.collect::<Vec<_>>()}))
        }
        "remote-candidates" => {
            let t: Vec<&str> = v.split_whitespace().collect();
            check(t.len() >= 3)?;
            let comp: u32 = int(t[0])?;
            let a = addr(t[1])?;
            let port: u32 = int(t[2])?;
            check(port < 65536)?;
            Ok(json!({"k": k, "comp": comp, "addr": a, "port": port}))
        }
        "rid" => rid(v),
        "rtpmap" => {
            let mut t = v.split_whitespace();
            let pt: u8 = int(want(t.next())?)?;
            check(pt < 128)?;
            let mut p = want(t.next())?.split('/');
            let name = p.next().unwrap_or("");
            let freq: u32 = int(want(p.next())?)?;
            let ch = p.next().map(int::<u32>).transpose()?;
            Ok(json!({"k": k, "pt": pt, "name": name, "freq": freq, "ch": ch}))
        }
        "rtcp" => {
            let mut t = v.split_whitespace();
            let port: u16 = int(want(t.next())?)?;
            let a = match t.next() {
                None => V::Null,
                Some(nt) => {
                    nettype(nt)?;
                    let at = addr_type(want(t.next())?)?;
                    taddr(at, want(t.next())?)?
                }
            };
            Ok(json!({"k": k, "port": port, "addr": a}))
        }
        "rtcp-fb" => rtcp_fb(v),
        "sctpmap" => {
            let t: Vec<&str> = v.split_whitespace().collect();
            check(t.len() == 3)?;
            let port: u16 = int(t[0])?;
            check(t[1].to_lowercase() == "webrtc-datachannel")?;
            Ok(json!({"k": k, "port": port, "ch": int::<u32>(t[2])?}))
        }
        "simulcast" => simulcast(v),
        "ssrc" => ssrc(v),
        "ssrc-group" => {
            let mut t = v.split_whitespace();
            let s = want(t.next())?.to_uppercase();
            if !["DUP", "FID", "FEC", "FEC-FR", "SIM"].contains(&s.as_str()) {
                return Err(Unsupported);
            }
            let l = t.map(ssrc).collect::<R<Vec<_>>>()?;
            check(!l.is_empty())?;
            Ok(json!({"k": k, "sem": s, "ssrcs": l}))
        }
        _ => Err(Unsupported),
    }
}

fn ssrc(v: &str) -> R<V> {
    let (id, rest) = match v.split_once(' ') {
        Some((i, r)) => (i, Some(r)),
        None => (v, None),
    };
    let id: u32 = int(id)?;
    let (a, val) = match rest {
        None => (None, None),
        Some(r) => match r.split_once(':') {
            Some((a, b)) => (Some(a), Some(b)),
            None => (Some(r), None),
        },
    };
    Ok(json!({"k": "ssrc", "id": id, "a": a, "v": val}))
}

fn candidate(v: &str) -> R<V> {
    let t: Vec<&str> = v.split_whitespace().collect();
    check(t.len() >= 8)?;
    let comp: u32 = int(t[1])?;
    let tr = t[2].to_lowercase();
    check(tr == "udp" || tr == "tcp")?;
    let prio: u64 = int(t[3])?;
    let a = addr(t[4])?;
    let port: u32 = int(t[5])?;
    check(port < 65536)?;
    check(t[6].to_lowercase() == "typ")?;
    let typ = t[7].to_lowercase();
    check(["host", "srflx", "prflx", "relay"].contains(&typ.as_str()))?;
    let mut c = json!({
        "k": "candidate", "found": t[0], "comp": comp, "tr": tr, "prio": prio, "addr": a,
        "port": port, "typ": typ, "raddr": null, "rport": null, "tcptype": null, "gen": null,
        "ufrag": null, "cost": null, "ext": [],
    });
    let mut i = 8;
    while i + 1 < t.len() {
        let x = t[i + 1];
        match t[i].to_lowercase().as_str() {
            "generation" => c["gen"] = json!(int::<u32>(x)?),
            "network-cost" => c["cost"] = json!(int::<u32>(x)?),
            "raddr" => c["raddr"] = addr(x)?,
            "rport" => {
                let n: u32 = int(x)?;
                check(n < 65536)?;
                c["rport"] = json!(n);
            }
            "tcptype" => {
                let y = x.to_lowercase();
                check(["active", "passive", "so"].contains(&y.as_str()))?;
                c["tcptype"] = json!(y);
            }
            "ufrag" => c["ufrag"] = json!(x),
            _ => c["ext"].as_array_mut().unwrap().push(json!([t[i], x])),
        }
        i += 2;
    }
    if i < t.len() {
        return Err(Unsupported);
    }
    Ok(c)
}

fn extmap(v: &str) -> R<V> {
    let t: Vec<&str> = v.split_whitespace().collect();
    check(t.len() >= 2)?;
    let (id, dir) = match t[0].split_once('/') {
        None => (int::<u16>(t[0])?, None),
        Some((i, d)) => {
            let i = int::<u16>(i)?;
            let d = d.to_lowercase();
            check(["recvonly", "sendonly", "sendrecv"].contains(&d.as_str()))?;
            (i, Some(d))
        }
    };
    let ext = if t.len() > 2 {
        let e = t[2..].join(" ");
        check(!e.contains(['\0', '\r', '\n']))?;
        Some(e)
    } else {
        None
    };
    Ok(json!({"k": "extmap", "id": id, "dir": dir, "url": t[1], "ext": ext}))
}

pub fn fingerprint(v: &str) -> R<V> {
    let t: Vec<&str> = v.split_whitespace().collect();
    check(t.len() == 2)?;
    let want_len = match t[0] {
        "sha-1" => 20,
        "sha-224" => 28,
        "sha-256" => 32,
        "sha-384" => 48,
        "sha-512" => 64,
        _ => return Err(Unsupported),
    };
    let mut out = Vec::new();
    for b in t[1].split(':') {
        check(b.len() == 2)?;
        out.push(u8::from_str_radix(b, 16).map_err(|_| Bad)?);
    }
    check(out.len() == want_len)?;
    Ok(json!({"k": "fingerprint", "alg": t[0], "fp": hex(&out)}))
}

fn flag01(v: &str) -> R<V> {
    match int::<u8>(v)? {
        0 => Ok(json!(false)),
        1 => Ok(json!(true)),
        _ => Err(Bad),
    }
}
fn upto<T: std::str::FromStr + Into<u64>>(v: &str, max: u64) -> R<V> {
    let n: u64 = int::<T>(v)?.into();
    check(n <= max)?;
    Ok(json!(n))
}

fn fmtp(v: &str) -> R<V> {
    let (pt, block) = match v.split_once(' ') {
        Some(x) => x,
        None => return Err(Unsupported),
    };
    let mut p = default_fmtp_params();
    if block.contains('=') {
        for item in block.split(';').map(str::trim).filter(|s| !s.is_empty()) {
            let (name, val) = want(item.split_once('='))?;
            let key = name.to_uppercase();
            let low = key.to_lowercase();
            match key.as_str() {
                "PROFILE-LEVEL-ID" => {
                    let n = u32::from_str_radix(val, 16).map_err(|_| Bad)?;
                    check(n < 0x100_0000)?;
                    p[low] = json!(n);
                }
                "PACKETIZATION-MODE" => p[low] = upto::<u32>(val, 2)?,
                "LEVEL-ASYMMETRY-ALLOWED" | "USEDTX" | "STEREO" | "USEINBANDFEC" | "CBR" => {
                    p[low] = flag01(val)?
                }
                "MAX-MBPS" | "MAX-FS" | "MAX-CPB" | "MAX-DPB" | "MAX-BR" | "MAX-FR"
                | "MAXPLAYBACKRATE" | "MAXAVERAGEBITRATE" | "PTIME" | "MAXPTIME" | "MINPTIME" => {
                    p[low] = json!(int::<u32>(val)?)
                }
                "PROFILE" => p[low] = upto::<u8>(val, 2)?,
                "LEVEL-IDX" => p[low] = upto::<u8>(val, 31)?,
                "TIER" => p[low] = upto::<u8>(val, 1)?,
                "APT" => p["rtx"] = json!([int::<u8>(val)?, null]),
                "RTX-TIME" => {
                    check(!p["rtx"].is_null())?;
                    p["rtx"][1] = json!(int::<u32>(val)?);
                }
                _ => p["unk"].as_array_mut().unwrap().push(json!(item)),
            }
        }
    } else if block.contains('/') {
        let mut e = Vec::new();
        for x in block.split('/') {
            let n: u8 = int(x)?;
            check(n <= 128)?;
            e.push(n);
        }
        p["enc"] = json!(e);
    } else {
        let digit = |s: &str| s.parse::<u8>().ok().filter(|n| *n <= 100);
        let ok = block.split(',').all(|t| match t.split_once('-') {
            None => digit(t).is_some(),
            Some((a, b)) => matches!((digit(a), digit(b)), (Some(x), Some(y)) if x < y),
        });
        p["dtmf"] = json!(if ok { block } else { "0-15" });
    }
    Ok(json!({"k": "fmtp", "pt": int::<u8>(pt)?, "p": p}))
}

/// Splits at `sep` outside brackets; anything after an unclosed bracket is lost.
fn bracket_split(s: &str, sep: char) -> Vec<String> {
    let mut out = Vec::new();
    let mut depth = 0i64;
    let mut cur: Option<String> = None;
    for piece in s.split(sep) {
        depth += i64::from(piece.contains('['));
        depth -= i64::from(piece.contains(']'));
        cur = Some(match cur {
            None => piece.to_owned(),
            Some(mut c) => {
                c.push(sep);
                c.push_str(piece);
                c
            }
        });
        if depth == 0 {
            out.push(cur.take().unwrap());
        }
    }
    out
}
fn inner(s: &str) -> Option<&str> {
    s.strip_prefix('[')?.strip_suffix(']')
}
fn xyrange(s: &str) -> R<V> {
    if !s.starts_with('[') {
        return Ok(json!({"d": [int::<u32>(s)?]}));
    }
    let i = want(inner(s))?;
    if i.contains(':') {
        let t: Vec<&str> = i.split(':').collect();
        match t.len() {
            2 => Ok(json!({"r": [int::<u32>(t[0])?, int::<u32>(t[1])?, null]})),
            3 => Ok(json!({"r": [int::<u32>(t[0])?, int::<u32>(t[2])?, int::<u32>(t[1])?]})),
            _ => Err(Bad),
        }
    } else {
        let l = i.split(',').map(int::<u32>).collect::<R<Vec<_>>>()?;
        check(l.len() > 1)?;
        Ok(json!({ "d": l }))
    }
}
fn minmax(s: &str) -> R<(f32, f32)> {
    let t: Vec<&str> = s.split('-').collect();
    check(t.len() == 2)?;
    let (a, b): (f32, f32) = (int(t[0])?, int(t[1])?);
    if a >= b {
        return Err(Bad);
    }
    Ok((a, b))
}
fn image_set(s: &str) -> R<V> {
    let t = bracket_split(s, ',');
    let x = xyrange(want(want(t.first())?.strip_prefix("x="))?)?;
    let y = xyrange(want(want(t.get(1))?.strip_prefix("y="))?)?;
    let mut o = json!({"x": x, "y": y, "sar": null, "par": null, "q": null});
    for kv in &t[2..] {
        if let Some(v) = kv.strip_prefix("sar=") {
            if v.starts_with('[') {
                let i = want(inner(v))?;
                if v.contains('-') {
                    let (a, b) = minmax(i)?;
                    o["sar"] = json!({"r": [f32s(a), f32s(b)]});
                } else if v.contains(',') {
                    let l = i.split(',').map(int::<f32>).collect::<R<Vec<_>>>()?;
                    let mut last = 0.0f32;
                    for f in &l {
                        if last >= *f {
                            return Err(Bad);
                        }
                        last = *f;
                    }
                    o["sar"] = json!({"d": l.into_iter().map(f32s).collect::<Vec<_>>()});
                }
            } else {
                o["sar"] = json!({"d": [f32s(int(v)?)]});
            }
        } else if let Some(v) = kv.strip_prefix("par=") {
            let (a, b) = minmax(want(inner(v))?)?;
            o["par"] = json!([f32s(a), f32s(b)]);
        } else if let Some(v) = kv.strip_prefix("q=") {
            o["q"] = json!(f32s(int(v)?));
        }
    }
    Ok(o)
}
fn imageattr(v: &str) -> R<V> {
    let t = bracket_split(v, ' ');
    let mut i = 0;
    let mut next = |t: &Vec<String>| {
        i += 1;
        t.get(i - 1).cloned()
    };
    let pt = pt_or_star(&want(next(&t))?)?;
    let mut o = json!({"k": "imageattr", "pt": pt, "send": [], "recv": []});
    let first = way(&want(next(&t))?)?;
    let mut dir = first;
    let mut pushed_back: Option<String> = None;
    for round in 0..2 {
        if round == 1 {
            match pushed_back.take().or_else(|| next(&t)) {
                None => break,
                Some(d) => {
                    let d = way(&d)?;
                    check(d != first)?;
                    dir = d;
                }
            }
        }
        let head = want(next(&t))?;
        if head == "*" {
            o[dir] = json!("*");
        } else {
            let mut sets = vec![image_set(want(inner(&head))?)?];
            loop {
                match next(&t) {
                    Some(s) if s.starts_with('[') => sets.push(image_set(want(inner(&s))?)?),
                    other => {
                        pushed_back = other;
                        break;
                    }
                }
            }
            o[dir] = V::Array(sets);
        }
    }
    check(pushed_back.is_none() && next(&t).is_none())?;
    Ok(o)
}

fn rid(v: &str) -> R<V> {
    let t: Vec<&str> = v.splitn(3, ' ').collect();
    check(t.len() >= 2)?;
    let mut p = json!({"max-width": 0, "max-height": 0, "max-fps": 0, "max-fs": 0, "max-br": 0, "max-pps": 0});
    let mut pts: Vec<u16> = Vec::new();
    let mut unk: Vec<&str> = Vec::new();
    let mut dep: Vec<&str> = Vec::new();
    if let Some(block) = t.get(2) {
        for (i, item) in block.split(';').enumerate() {
            if i == 0 {
                if let Some(l) = item.strip_prefix("pt=") {
                    for x in l.split(',') {
                        pts.push(int(x.trim())?);
                    }
                    continue;
                }
            }
            let (name, val) = want(item.split_once('='))?;
            match name {
                "max-width" | "max-height" | "max-fps" | "max-fs" | "max-br" | "max-pps" => {
                    p[name] = json!(int::<u32>(val)?)
                }
                "depends" => dep.extend(val.split(',')),
                "pt" => return Err(Bad),
                _ => unk.push(item),
            }
        }
    }
    Ok(json!({"k": "rid", "id": t[0], "dir": way(t[1])?, "pts": pts, "p": p, "unk": unk, "dep": dep}))
}

fn rtcp_fb(v: &str) -> R<V> {
    let t: Vec<&str> = v.splitn(4, ' ').collect();
    let typ = *want(t.get(1))?;
    let arg = t.get(2).copied();
    let one_of = |l: &[&str]| match arg {
        None => Ok(""),
        Some(a) if l.contains(&a) => Ok(a),
        Some(_) => Err(Unsupported),
    };
    let param = match typ {
        "ack" => {
            let a = one_of(&["rpsi", "app"])?;
            if a.is_empty() {
                return Err(Unsupported);
            }
            a
        }
        "ccm" => one_of(&["fir", "tmmbr", "tstr", "vbcm"])?,
        "nack" => one_of(&["sli", "pli", "rpsi", "app"])?,
        "trr-int" => {
            let a = want(arg)?;
            int::<u32>(a)?;
            a
        }
        "goog-remb" | "transport-cc" => one_of(&[])?,
        _ => return Err(Unsupported),
    };
    Ok(json!({
        "k": "rtcp-fb", "pt": pt_or_star(t[0])?, "typ": typ, "param": param,
        "extra": t.get(3).copied().unwrap_or(""),
    }))
}

fn scast_list(s: &str) -> R<V> {
    let l = match s.split_once('=') {
        None => s,
        Some(("rid", r)) => r,
        Some(_) => return Err(Bad),
    };
    Ok(V::Array(
        l.split(';')
            .map(|alt| {
                V::Array(
                    alt.split(',')
                        .map(|id| match id.strip_prefix('~') {
                            Some(i) => json!([i, true]),
                            None => json!([id, false]),
                        })
                        .collect(),
                )
            })
            .collect(),
    ))
}
fn simulcast(v: &str) -> R<V> {
    let mut t = v.split_whitespace();
    let mut o = json!({"k": "simulcast", "send": [], "recv": []});
    let d1 = way(want(t.next())?)?;
    o[d1] = scast_list(want(t.next())?)?;
    if let Some(d) = t.next() {
        let d2 = way(d)?;
        check(d1 != d2)?;
        o[d2] = scast_list(want(t.next())?)?;
    }
    Ok(o)
}

pub fn line(l: &str) -> R<Item> {
    let (typ, raw) = want(l.split_once('='))?;
    let typ = typ.trim();
    check(typ.len() == 1)?;
    let typ = typ.to_lowercase();
    let v = raw.trim();
    check(!v.is_empty() || typ == "s")?;
    match typ.as_str() {
        "v" => {
            let n: u64 = int(v)?;
            check(n == 0)?;
            Ok(Item::Version)
        }
        "o" => origin(v).map(Item::Origin),
        "s" => Ok(Item::Name(v.to_owned())),
        "t" => timing(v).map(Item::Timing),
        "b" => bandwidth(v).map(Item::Bandwidth),
        "c" => connection(v).map(Item::Connection),
        "a" => attribute(v).map(Item::Attr),
        "m" => media_line(v).map(Item::Media),
        _ => Err(Bad),
    }
}

/// Where an attribute kind may appear: (session level, media level).
pub fn levels(k: &str) -> (bool, bool) {
    match k {
        "dtls-message" | "group" | "ice-lite" | "ice-pacing" | "identity" | "msid-semantic" => (true, false),
        "end-of-candidates" | "extmap" | "extmap-allow-mixed" | "fingerprint" | "ice-options" | "ice-pwd"
        | "ice-ufrag" | "inactive" | "recvonly" | "sendonly" | "sendrecv" | "setup" => (true, true),
        _ => (false, true),
    }
}

/// The rules a complete session has to satisfy.
pub fn rules(t: &V) -> Result<(), &'static str> {
    let has = |l: &V, k: &str| l.as_array().unwrap().iter().any(|a| a["k"] == k);
    if t["t"].is_null() {
        return Err("no timing");
    }
    let media = t["media"].as_array().unwrap();
    if t["c"].is_null() && media.iter().any(|m| m["c"].is_null()) {
        return Err("section without connection");
    }
    if has(&t["a"], "extmap") && media.iter().any(|m| has(&m["a"], "extmap")) {
        return Err("extmap on both levels");
    }
    for m in media {
        if has(&m["a"], "rtcp-mux-only") && !has(&m["a"], "rtcp-mux") {
            return Err("rtcp-mux-only without rtcp-mux");
        }
        let declared: Vec<String> = match m["m"]["fmt"].get("i") {
            Some(i) => i.as_array().unwrap().iter().map(|n| n.to_string()).collect(),
            None => m["m"]["fmt"]["s"]
                .as_array()
                .unwrap()
                .iter()
                .map(|s| s.as_str().unwrap().to_owned())
                .collect(),
        };
        let attrs = m["a"].as_array().unwrap();
        for r in attrs.iter().filter(|a| a["k"] == "rid") {
            for p in r["pts"].as_array().unwrap() {
                if !declared.contains(&p.to_string()) {
                    return Err("rid payload type not declared");
                }
            }
        }
    }
    for m in media {
        let attrs = m["a"].as_array().unwrap();
        for s in attrs.iter().filter(|a| a["k"] == "simulcast") {
            for dir in ["recv", "send"] {
                for alt in s[dir].as_array().unwrap() {
                    for id in alt.as_array().unwrap() {
                        if !attrs
                            .iter()
                            .any(|a| a["k"] == "rid" && a["dir"] == dir && a["id"] == id[0])
                        {
                            return Err("simulcast id not defined");
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

pub fn parse(text: &str, strict: bool) -> Result<Accepted, Reject> {
    let note = |l: &str, no: usize| Note {
        line: l.to_owned(),
        no,
    };
    if text.is_empty() {
        return Err(Reject::Line(note("", 0)));
    }
    let mut items = Vec::new();
    let mut warnings = Vec::new();
    let mut bad = None;
    for (no, l) in text.lines().enumerate() {
        if l.trim().is_empty() {
            continue;
        }
        match line(l) {
            Ok(i) => items.push((no, i)),
            Err(Unsupported) => warnings.push(note(l, no)),
            Err(Bad) => bad = Some(note(l, no)),
        }
    }
    if strict {
        if let Some(w) = warnings.first() {
            return Err(Reject::Unsupported(w.clone()));
        }
    }
    if let Some(b) = bad {
        return Err(Reject::Line(b));
    }
    let tree = assemble(items)?;
    rules(&tree).map_err(|r| Reject::Sequence(None, r))?;
    Ok(Accepted { tree, warnings })
}

fn assemble(items: Vec<(usize, Item)>) -> Result<V, Reject> {
    if items.len() < 4 {
        return Err(Reject::Sequence(None, "fewer than four lines"));
    }
    let mut it = items.into_iter();
    let mut t = json!({"v": 0, "o": null, "s": null, "c": null, "b": [], "t": null, "a": [], "media": []});
    match it.next() {
        Some((_, Item::Version)) => (),
        _ => return Err(Reject::Sequence(None, "first line is not v=")),
    }
    match it.next() {
        Some((_, Item::Origin(o))) => t["o"] = o,
        _ => return Err(Reject::Sequence(None, "second line is not o=")),
    }
    match it.next() {
        Some((_, Item::Name(s))) => {
            if !s.trim().is_empty() {
                t["s"] = json!(s.trim());
            }
        }
        _ => return Err(Reject::Sequence(None, "third line is not s=")),
    }
    let mut media: Vec<V> = Vec::new();
    for (no, item) in it {
        let at = |why| Err(Reject::Sequence(Some(no), why));
        match (item, media.last_mut()) {
            (Item::Media(m), _) => media.push(json!({"m": m, "c": null, "b": [], "a": []})),
            (Item::Version | Item::Origin(_) | Item::Name(_), _) => return at("v=, o= or s= out of place"),
            (Item::Timing(x), None) => t["t"] = x,
            (Item::Timing(_), Some(_)) => return at("t= in a media section"),
            (Item::Connection(c), None) => t["c"] = c,
            (Item::Connection(c), Some(m)) => {
                if !m["c"].is_null() {
                    return at("second c= in a media section");
                }
                m["c"] = c;
            }
            (Item::Bandwidth(b), None) => t["b"].as_array_mut().unwrap().push(b),
            (Item::Bandwidth(b), Some(m)) => m["b"].as_array_mut().unwrap().push(b),
            (Item::Attr(a), None) => {
                if !levels(a["k"].as_str().unwrap()).0 {
                    return at("attribute not allowed at session level");
                }
                t["a"].as_array_mut().unwrap().push(a);
            }
            (Item::Attr(a), Some(m)) => {
                if a["k"] == "dtls-message" {
                    continue;
                }
                if !levels(a["k"].as_str().unwrap()).1 {
                    return at("attribute not allowed at media level");
                }
                m["a"].as_array_mut().unwrap().push(a);
            }
        }
    }
    t["media"] = V::Array(media);
    Ok(t)
}

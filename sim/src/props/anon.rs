//! C06 (stable, distinct masks over long histories), C07 (nothing confidential
//! survives), C08 (everything else does).
use super::*;
use crate::ch::{len, pick, range, us};
use crate::faults;
use crate::net::{Ev, Knobs, Net};
use std::collections::{BTreeMap, BTreeSet};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};
use webrtc_sdp::address::{Address, AddressType, ExplicitlyTypedAddress};
use webrtc_sdp::anonymizer::{AnonymizingClone, StatefulSdpAnonymizer};

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Cat {
    Host,
    Ip,
    Port,
    User,
    Pwd,
    IceUser,
    Fp,
    Cname,
}
const CATS: [Cat; 8] = [
    Cat::Host,
    Cat::Ip,
    Cat::Port,
    Cat::User,
    Cat::Pwd,
    Cat::IceUser,
    Cat::Fp,
    Cat::Cname,
];

/// The promise: one renaming per category, stable and without collisions.
#[derive(Default)]
pub struct Promise {
    fwd: BTreeMap<(Cat, String), String>,
    rev: BTreeMap<(Cat, String), String>,
    pub recurred: u64,
}
impl Promise {
    pub fn check(&mut self, c: Cat, from: &str, to: &str) -> Res<()> {
        if c == Cat::Ip && from.contains(':') != to.contains(':') {
            return fail("address-family", format!("{from} is masked as {to}, another address family"));
        }
        match self.fwd.get(&(c, from.to_owned())) {
            Some(t) if t != to => fail(
                "unstable-mask",
                format!("{c:?} {from:?} was masked as {t:?} and is now masked as {to:?}"),
            ),
            Some(_) => {
                self.recurred += 1;
                Ok(())
            }
            None => {
                if let Some(other) = self.rev.insert((c, to.to_owned()), from.to_owned()) {
                    return fail(
                        "mask-collision",
                        format!("{c:?} {other:?} and {from:?} are both masked as {to:?}"),
                    );
                }
                self.fwd.insert((c, from.to_owned()), to.to_owned());
                Ok(())
            }
        }
    }
    pub fn size(&self) -> usize {
        self.fwd.len()
    }
}

type Pairs = Vec<(Cat, String, String)>;

/// Takes the confidential fields out of both trees and returns them pairwise.
pub fn pairs(o: &mut V, m: &mut V) -> Res<Pairs> {
    let mut out = Vec::new();
    {
        let mut one = |c: Cat, a: &mut V, b: &mut V, what: &str| -> Res<()> {
            if a.is_null() != b.is_null() || a.is_string() != b.is_string() || a.is_number() != b.is_number() {
                return fail("field-shape", format!("{what}: {a} became {b}"));
            }
            if a.is_null() {
                return Ok(());
            }
            let s = |v: &V| v.as_str().map_or_else(|| v.to_string(), str::to_owned);
            out.push((c, s(a), s(b)));
            *a = V::Null;
            *b = V::Null;
            Ok(())
        };
        fn addr(
            one: &mut dyn FnMut(Cat, &mut V, &mut V, &str) -> Res<()>,
            a: &mut V,
            b: &mut V,
            what: &str,
        ) -> Res<()> {
            if a.is_null() || b.is_null() || a.get("ip").is_some() != b.get("ip").is_some() {
                if a.is_null() && b.is_null() {
                    return Ok(());
                }
                return fail("field-shape", format!("{what}: {a} became {b}"));
            }
            let (c, k) = if a.get("ip").is_some() { (Cat::Ip, "ip") } else { (Cat::Host, "fqdn") };
            one(c, &mut a[k], &mut b[k], what)
        }
        one(Cat::User, &mut o["o"]["user"], &mut m["o"]["user"], "origin user")?;
        addr(&mut one, &mut o["o"]["addr"], &mut m["o"]["addr"], "origin address")?;
        let conn = |one: &mut dyn FnMut(Cat, &mut V, &mut V, &str) -> Res<()>, a: &mut V, b: &mut V| -> Res<()> {
            match (a.is_null(), b.is_null()) {
                (true, true) => Ok(()),
                (false, false) => addr(one, &mut a["addr"], &mut b["addr"], "connection address"),
                _ => fail("field-shape", format!("connection: {a} became {b}")),
            }
        };
        conn(&mut one, &mut o["c"], &mut m["c"])?;
        let mut attrs = |a: &mut V, b: &mut V| -> Res<()> {
            let (Some(a), Some(b)) = (a.as_array_mut(), b.as_array_mut()) else {
                return Ok(());
            };
            for (x, y) in a.iter_mut().zip(b.iter_mut()) {
                if x["k"] != y["k"] {
                    return fail("attribute-kind", format!("attribute {} became {}", x["k"], y["k"]));
                }
                let k = x["k"].as_str().unwrap_or("").to_owned();
                match k.as_str() {
                    "candidate" => {
                        addr(&mut one, &mut x["addr"], &mut y["addr"], "candidate address")?;
                        addr(&mut one, &mut x["raddr"], &mut y["raddr"], "candidate raddr")?;
                        one(Cat::Port, &mut x["port"], &mut y["port"], "candidate port")?;
                        one(Cat::Port, &mut x["rport"], &mut y["rport"], "candidate rport")?;
                        one(Cat::IceUser, &mut x["ufrag"], &mut y["ufrag"], "candidate ufrag")?;
                    }
                    "remote-candidates" => {
                        addr(&mut one, &mut x["addr"], &mut y["addr"], "remote candidate address")?;
                        one(Cat::Port, &mut x["port"], &mut y["port"], "remote candidate port")?;
                    }
                    "rtcp" => addr(&mut one, &mut x["addr"], &mut y["addr"], "rtcp address")?,
                    "ice-pwd" => one(Cat::Pwd, &mut x["s"], &mut y["s"], "ice-pwd")?,
                    "ice-ufrag" => one(Cat::IceUser, &mut x["s"], &mut y["s"], "ice-ufrag")?,
                    "fingerprint" => one(Cat::Fp, &mut x["fp"], &mut y["fp"], "fingerprint")?,
                    "ssrc" if x["a"].as_str().map_or(false, |s| s.eq_ignore_ascii_case("cname")) => {
                        one(Cat::Cname, &mut x["v"], &mut y["v"], "cname")?
                    }
                    _ => {}
                }
            }
            Ok(())
        };
        let (mut oa, mut ma) = (o["a"].take(), m["a"].take());
        attrs(&mut oa, &mut ma)?;
        o["a"] = oa;
        m["a"] = ma;
        let (mut om, mut mm) = (o["media"].take(), m["media"].take());
        if let (Some(x), Some(y)) = (om.as_array_mut(), mm.as_array_mut()) {
            for (p, q) in x.iter_mut().zip(y.iter_mut()) {
                attrs(&mut p["a"], &mut q["a"])?;
            }
        }
        o["media"] = om;
        m["media"] = mm;
    }
    // media connections (separate pass keeps the borrows simple)
    let (mut om, mut mm) = (o["media"].take(), m["media"].take());
    if let (Some(x), Some(y)) = (om.as_array_mut(), mm.as_array_mut()) {
        for (p, q) in x.iter_mut().zip(y.iter_mut()) {
            let (a, b) = (&mut p["c"], &mut q["c"]);
            if a.is_null() != b.is_null() {
                return fail("field-shape", format!("media connection: {a} became {b}"));
            }
            if a.is_null() {
                continue;
            }
            let (a, b) = (&mut a["addr"], &mut b["addr"]);
            for (c, k) in [(Cat::Ip, "ip"), (Cat::Host, "fqdn")] {
                match (a.get(k).is_some(), b.get(k).is_some()) {
                    (true, true) => {
                        out.push((c, a[k].as_str().unwrap().to_owned(), b[k].as_str().unwrap().to_owned()));
                        a[k] = V::Null;
                        b[k] = V::Null;
                    }
                    (false, false) => {}
                    _ => return fail("field-shape", format!("media connection: {a} became {b}")),
                }
            }
        }
    }
    o["media"] = om;
    m["media"] = mm;
    Ok(out)
}

pub fn mask_session(an: &mut StatefulSdpAnonymizer, s: &SdpSession) -> Res<SdpSession> {
    lib("masked_clone", || s.masked_clone(an))
}

// ------------------------------------------------------------------ C06

/// The i-th value of a category under a naming scheme. Schemes other than 0
/// make values that a careless renaming confuses: long common beginnings or
/// endings, values that look like stand-ins, values apart only in case, in
/// length, in leading zeros or in how a character is composed.
fn value(c: Cat, i: u64, scheme: u64) -> String {
    let text = |stem: &str, mark: &str| match scheme {
        1 => format!("{}{i}", "x".repeat(200)),
        2 => format!("{i}{}", "-y".repeat(100)),
        3 => format!("{stem}{i:08}"),
        4 => (0..26u64).map(|b| (if i >> b & 1 == 1 { b'A' } else { b'a' } + b as u8) as char).collect(),
        5 => format!("{:0w$}", i / 4, w = 1 + (i % 4) as usize),
        6 if i < 3000 => "a".repeat(i as usize),
        // what such values look like in practice
        9 => match i % 12 {
            0 => format!("{{{i:08x}-2a1b-4c3d-8e5f-{:012x}}}", i * 7919),
            1 => format!("{i:08x}-2a1b-4c3d-8e5f-{:012x}.local", i * 7919),
            2 => format!("{i}.local"),
            3 => format!("localhost{i}"),
            4 => format!("{i}.invalid"),
            5 => format!("user{i}@host.local"),
            6 => format!("192.168.1.{i}"),
            7 => format!("{stem}{i}"),
            8 => format!("{{{stem}{i:08}}}"),
            9 => format!("-{i}"),
            10 => format!("mozilla...THIS_IS_SDPARTA-{i}.0"),
            _ => format!("{mark}+/{i}=="),
        },
        _ => {
            let sym = ["e\u{301}", "\u{e9}", "\u{c9}", " ", "\u{200b}", ".", "a", "A"];
            let (mut n, mut out) = (i, mark.to_owned());
            loop {
                out.push_str(sym[(n % 8) as usize]);
                n /= 8;
                if n == 0 {
                    return out;
                }
            }
        }
    };
    match (c, scheme) {
        (_, 0) => plain(c, i),
        (Cat::Host, _) => text("fqdn-", "h"),
        (Cat::User, _) => text("origin-user-", "u"),
        (Cat::Pwd, _) => text("ice-password-", "p"),
        (Cat::IceUser, _) => text("ice-user-", "i"),
        (Cat::Cname, _) => text("cname-", "c"),
        (Cat::Port, _) => {
            let n = i as u32;
            match scheme % 4 {
                0 => u32::MAX - n,
                1 => n.rotate_left(16),
                2 => n.reverse_bits(),
                _ => 65_530 + n,
            }
        }
        .to_string(),
        (Cat::Ip, _) => {
            let n = i as u32;
            match if scheme == 9 { 9 } else { scheme % 4 } {
                // a few of every class of addresses
                9 => {
                    let k = n / 17;
                    let v4 = |net: u32, bits: u32| Ipv4Addr::from(net | (k & (u32::MAX >> bits))).to_string();
                    let v6 = |net: u128| Ipv6Addr::from((net << 112) + u128::from(k)).to_string();
                    match n % 17 {
                        0 => v4(0x7f00_0000, 8),
                        1 => v4(0xc0a8_0000, 16),
                        2 => v4(0xac10_0000, 12),
                        3 => v4(0xa9fe_0000, 16),
                        4 => v4(0x6440_0000, 10),
                        5 => v4(0xe000_0000, 4),
                        6 => v4(0xf000_0000, 4),
                        7 => v4(0xc000_0200, 24),
                        8 => v4(0, 8),
                        9 => Ipv4Addr::from(u32::MAX - k).to_string(),
                        10 => v6(0),
                        11 => v6(0xfc00),
                        12 => v6(0xfe80),
                        13 => v6(0xff02),
                        14 => v6(0x2002),
                        15 => v6(0x64),
                        _ => Ipv4Addr::from(0xc0a8_0000 + k).to_ipv6_mapped().to_string(),
                    }
                }
                // the same number in both families, also as a mapped address
                0 => match i % 3 {
                    0 => Ipv4Addr::from(n / 3).to_string(),
                    1 => Ipv4Addr::from(n / 3).to_ipv6_mapped().to_string(),
                    _ => Ipv6Addr::from(u128::from(n / 3)).to_string(),
                },
                1 => Ipv4Addr::from(n.reverse_bits()).to_string(),
                2 => Ipv6Addr::from(u128::from(n).reverse_bits()).to_string(),
                _ => Ipv6Addr::from((0xfe80u128 << 112) + (u128::from(n) << (8 * (i % 12)))).to_string(),
            }
        }
        (Cat::Fp, _) => model::hex(&match scheme % 4 {
            // apart in length only, in the last bytes only, in the first bytes
            // only, and what a stand-in looks like
            0 if i < 3000 => vec![0xaa; i as usize],
            1 | 0 => [&[0x55u8; 60][..], &i.to_be_bytes()[4..]].concat(),
            2 => [&i.to_le_bytes()[..4], &[0x55u8; 28]].concat(),
            _ => i.to_be_bytes().to_vec(),
        }),
    }
}

fn plain(c: Cat, i: u64) -> String {
    match c {
        Cat::Host => format!("h{i}.example"),
        Cat::Ip => {
            if i % 3 == 2 {
                Ipv6Addr::from(0x2001_0db8_0000_0000_0000_0000_0000_0000u128 + (u128::from(i) << ((i % 5) * 16))).to_string()
            } else {
                Ipv4Addr::from(0x0a00_0000u32.wrapping_add((i as u32).wrapping_mul(0x0101))).to_string()
            }
        }
        Cat::Port => (i % (1 << 32)).to_string(),
        Cat::User => format!("user{i}"),
        Cat::Pwd => format!("pwd{i}"),
        Cat::IceUser => format!("uf{i}"),
        Cat::Fp => {
            let n = [20usize, 28, 32, 48, 64][(i % 5) as usize];
            let mut b = vec![0u8; n];
            b[..8].copy_from_slice(&i.to_be_bytes());
            b[n - 1] = (i >> 3) as u8;
            model::hex(&b)
        }
        Cat::Cname => format!("cn{i}@x"),
    }
}

fn mask_one(an: &mut StatefulSdpAnonymizer, c: Cat, v: &str, how: u64) -> Res<String> {
    lib("masking", || match c {
        Cat::Host => match how {
            0 => an.mask_host(v),
            1 => match an.mask_address(&Address::Fqdn(v.to_owned())) {
                Address::Fqdn(s) => s,
                Address::Ip(i) => format!("(an address) {i}"),
            },
            _ => match an.mask_typed_address(&ExplicitlyTypedAddress::Fqdn {
                address_type: AddressType::IpV4,
                domain: v.to_owned(),
            }) {
                ExplicitlyTypedAddress::Fqdn { domain, .. } => domain,
                ExplicitlyTypedAddress::Ip(i) => format!("(an address) {i}"),
            },
        },
        Cat::Ip => {
            let ip: IpAddr = v.parse().unwrap();
            match how {
                0 => an.mask_ip(&ip).to_string(),
                1 => match an.mask_address(&Address::Ip(ip)) {
                    Address::Ip(i) => i.to_string(),
                    Address::Fqdn(s) => format!("(a host) {s}"),
                },
                _ => match an.mask_typed_address(&ExplicitlyTypedAddress::Ip(ip)) {
                    ExplicitlyTypedAddress::Ip(i) => i.to_string(),
                    ExplicitlyTypedAddress::Fqdn { domain, .. } => format!("(a host) {domain}"),
                },
            }
        }
        Cat::Port => an.mask_port(v.parse().unwrap()).to_string(),
        Cat::User => an.mask_origin_user(v),
        Cat::Pwd => an.mask_ice_password(v),
        Cat::IceUser => an.mask_ice_user(v),
        Cat::Fp => model::hex(&an.mask_cert_finger_print(&model::unhex(v))),
        Cat::Cname => an.mask_cname(v),
    })
}

pub fn c06() -> Res<()> {
    maybe_level();
    let callers = 1 + us(5);
    run::shape(&format!("callers{callers}"));
    // sessions some callers mask as a whole; a small pool forces recurring values
    let mut st = gen::Style::draw();
    st.pool = (0..len(1, 6)).map(|i| format!("shared{i}")).collect();
    st.kinds = vec!["candidate", "fingerprint", "ice-pwd", "ice-ufrag", "ssrc", "remote-candidates", "rtcp"];
    let mut sessions = Vec::new();
    for _ in 0..us(4) {
        let m = make(&st);
        if let Ok(s) = parse(&gen::wire(&m.lines, "\r\n"), false)? {
            sessions.push((m.tree, s));
        }
    }
    let epochs = 1 + u64::from(p(1, 6));
    for epoch in 0..epochs {
        if epoch > 0 {
            run::hit("fault.collector-restart");
            run::ev("restart", || "collector restarts with an empty anonymizer".to_owned());
        }
        let mut an = StatefulSdpAnonymizer::new();
        let mut pr = Promise::default();
        let mut next = [0u64; 8];
        let mut in_sessions: Vec<(Cat, String)> = Vec::new();
        // how long a history this collector sees
        let bursts = if p(1, 2) { len(1, 12) } else { range(8, 40) as usize };
        let scheme: Vec<u64> = (0..8).map(|_| if p(1, 3) { 0 } else { 1 + u(9) }).collect();
        let again = 1 + u(3);
        let long = match u(24) {
            0..=15 => 0,
            16..=20 => 300,
            21 | 22 => 4_000,
            _ => 70_000,
        };
        let long = crate::dict::length(20, 5000).map_or(long, |n| n as u64);
        let long_cat = us(8);
        for b in 0..bursts {
            crate::ch::span(|| -> Res<()> {
                let caller = us(callers);
                if !sessions.is_empty() && p(1, 3) {
                    let (tree, s) = pick(&sessions);
                    let masked = mask_session(&mut an, s)?;
                    let (mut o, mut m) = (tree.clone(), lift(&masked)?);
                    let ps = pairs(&mut o, &mut m)?;
                    run::ev("clone", || format!("caller {caller} masks a session with {} values", ps.len()));
                    for (c, f, t) in &ps {
                        pr.check(*c, f, t)?;
                    }
                    run::hit("probe.masked-clone");
                    if in_sessions.len() < 400 {
                        in_sessions.extend(ps.into_iter().map(|(c, f, _)| (c, f)));
                    }
                    return Ok(());
                }
                if !in_sessions.is_empty() && p(1, 5) {
                    // direct calls on values that came in sessions
                    run::ev("mask", || format!("caller {caller} values of sessions"));
                    for _ in 0..range(1, 12) {
                        let (c, f) = pick(&in_sessions).clone();
                        let t = mask_one(&mut an, c, &f, u(3))?;
                        pr.check(c, &f, &t)?;
                    }
                    run::hit("probe.session-value-masked-directly");
                    return Ok(());
                }
                let n = if long > 0 && b == 0 { long } else { range(1, 20) };
                let ci = if long > 0 && b == 0 { long_cat } else { us(8) };
                let c = CATS[ci];
                run::ev("mask", || format!("caller {caller} {c:?} x{n}"));
                for _ in 0..n {
                    let old = if next[ci] > 0 && (if n > 20 { pr.recurred < 50 && next[ci] % 97 == 0 } else { p(again, 4) }) {
                        true
                    } else {
                        false
                    };
                    let (i, how) = if old {
                        // a recurring value, biased to the oldest and the newest
                        let k = match u(3) {
                            0 => 0,
                            1 => next[ci] - 1,
                            _ => u(next[ci]),
                        };
                        (k, u(3))
                    } else {
                        next[ci] += 1;
                        (next[ci] - 1, next[ci] % 3)
                    };
                    let v = match c {
                        // whole-session values may recur through direct calls
                        Cat::IceUser | Cat::Pwd if n <= 20 && p(1, 8) => pick(&st.pool).clone(),
                        _ => value(c, i, scheme[ci]),
                    };
                    let t = mask_one(&mut an, c, &v, how)?;
                    pr.check(c, &v, &t)?;
                }
                if n >= 70_000 {
                    run::hit("probe.history-over-65536-values");
                } else if n >= 300 {
                    run::hit("probe.history-over-256-values");
                }
                Ok(())
            })?;
        }
        // everything seen so far is still masked the same way
        let all: Vec<((Cat, String), String)> = pr.fwd.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
        let stride = (all.len() / 2000).max(1);
        for ((c, f), t) in all.iter().step_by(stride) {
            let now = mask_one(&mut an, *c, f, 0)?;
            if now != *t {
                return fail("unstable-mask", format!("{c:?} {f:?} was {t:?} and at the end is {now:?}"));
            }
        }
        run::add("probe.values-masked", pr.size() as u64);
        if pr.recurred > 0 {
            run::nontrivial();
        }
        run::sample(|| serde_json::json!({"callers": callers, "distinct_values": pr.size(), "recurring_uses": pr.recurred,
            "examples": pr.fwd.iter().step_by((pr.size() / 6).max(1)).take(6).map(|((c, f), t)| format!("{c:?} {f} -> {t}")).collect::<Vec<_>>()}));
    }
    Ok(())
}

// --------------------------------------------------------- C07 and C08 world

/// Delivers 1-6 descriptions to a collector; lines may be lost, duplicated or
/// moved on the way but stay whole.
fn collect(secret: bool, mut at: impl FnMut(&mut StatefulSdpAnonymizer, &SdpSession, &str) -> Res<()>) -> Res<()> {
    let mut st = gen::Style::draw();
    if secret {
        gen::secret_reset();
        st.secret = Some(u(200));
        if p(3, 4) {
            st.kinds = vec![
                "candidate",
                "fingerprint",
                "ice-pwd",
                "ice-ufrag",
                "ssrc",
                "remote-candidates",
                "rtcp",
                "rtpmap",
                "end-of-candidates",
            ];
        }
    } else if p(1, 2) {
        st.pool = (0..len(1, 6)).map(|i| format!("shared{i}")).collect();
    }
    let mut k = Knobs::draw();
    k.crashes = k.crashes.min(1);
    let mut net: Net<String> = Net::new(2, k);
    for _ in 0..len(1, 6) {
        crate::ch::span(|| {
            let m = make(&st);
            note_content(&m.tree);
            let mut v = m.lines;
            for _ in 0..(if p(1, 2) { us(4) } else { 0 }) {
                let i = us(v.len());
                match u(4) {
                    0 => {
                        if v.len() > 4 {
                            v.remove(i);
                            run::hit("fault.line-lost");
                        }
                    }
                    1 => {
                        let l = v[i].clone();
                        v.insert(i, l);
                        run::hit("fault.line-duplicated");
                    }
                    2 => {
                        let l = v.remove(i);
                        let j = us(v.len() + 1);
                        v.insert(j, l);
                        run::hit("fault.line-moved");
                    }
                    _ => {
                        // an unsupported line that itself carries something confidential
                        let s = gen::secret(&st, gen::ALNUM, 12);
                        let l = match u(4) {
                            0 => format!("a=x-unknown:{s}"),
                            1 => format!("a=candidate:1 1 udp 1 {} 5000 typ host ufrag {s} odd", gen::ip4(&st)),
                            2 => format!("a=x-group:{s} a"),
                            _ => format!("m={s} 9 RTP/AVP 0"),
                        };
                        v.insert(us(v.len() + 1), l);
                        run::hit("fault.unsupported-line-inserted");
                    }
                }
            }
            let text = faults::benign(&v, net.k.eol);
            net.send(0, 1, text);
        });
    }
    net.plan(1_000_000, &[1]);
    let mut an = StatefulSdpAnonymizer::new();
    while let Some(e) = net.next() {
        match e {
            Ev::Msg { m: text, .. } => {
                run::ev("deliver", || show(&text));
                match parse(&text, false)? {
                    Ok(s) => at(&mut an, &s, &text)?,
                    Err(_) => run::hit("probe.rejected"),
                }
            }
            Ev::Crash { .. } => an = StatefulSdpAnonymizer::new(),
            _ => {}
        }
    }
    Ok(())
}

pub fn c07() -> Res<()> {
    maybe_level();
    collect(true, |an, s, text| {
        let orig = lift(s)?;
        let level = log::max_level();
        crate::sink::capture(true);
        let masked = mask_session(an, s)?;
        let logged = crate::sink::capture(false);
        // what leaves the collector
        let rendered = render(&masked)?;
        let debug = lib("debug", || format!("{masked:?}"))?;
        let json = lib("export", || serde_json::to_string(&masked).unwrap_or_default())?;
        let mut o = orig.clone();
        let mut m = lift(&masked)?;
        // every confidential value that was delivered, wherever it stood
        let mut secrets: BTreeSet<String> = BTreeSet::new();
        for tok in text.split(|c: char| c.is_whitespace() || "=:/;,\"".contains(c)) {
            if let Some(i) = tok.find("zq") {
                if tok[i + 2..].starts_with(|c: char| c.is_ascii_digit()) {
                    secrets.insert(tok[i..].to_owned());
                }
            }
        }
        // compare field by field as far as the shapes allow
        let (mut oo, mut mm) = (o.take(), m.take());
        if let Ok(ps) = pairs(&mut oo, &mut mm) {
            for (c, f, t) in ps {
                // a small port number may be its own stand-in by coincidence
                if f == t && !(c == Cat::Port && f.parse::<u64>().map_or(false, |n| n < 8192)) {
                    return fail("not-masked", format!("{c:?} {f:?} is published unmasked"));
                }
                if !matches!(c, Cat::Port) {
                    secrets.insert(f);
                }
            }
        } // else the structure differs: C08 decides that, here the scan applies
        fn addresses(v: &V, out: &mut BTreeSet<String>) {
            match v {
                V::Object(m) => {
                    for (k, x) in m {
                        if (k == "ip" || k == "fqdn" || k == "fp") && x.is_string() {
                            out.insert(x.as_str().unwrap().to_owned());
                        }
                        addresses(x, out);
                    }
                }
                V::Array(a) => a.iter().for_each(|x| addresses(x, out)),
                _ => {}
            }
        }
        addresses(&orig, &mut secrets);
        run::add("probe.confidential-tokens", secrets.len() as u64);
        if !secrets.is_empty() {
            run::nontrivial();
        }
        run::sample(|| serde_json::json!({"delivered": cut(text, 700), "published": cut(&rendered, 700), "confidential_tokens": secrets.len()}));
        let hay = [
            ("text", rendered.to_lowercase()),
            ("debug output", debug.to_lowercase()),
            ("JSON", json.to_lowercase()),
            (
                "log",
                if level == log::LevelFilter::Off {
                    String::new()
                } else {
                    logged.iter().map(|l| l.1.to_lowercase()).collect::<Vec<_>>().join("\n")
                },
            ),
        ];
        for sec in &secrets {
            for f in forms(sec) {
                // a number that the text states for some other reason says nothing
                if f.bytes().all(|b| b.is_ascii_digit()) && text.contains(&f) {
                    continue;
                }
                for (w, h) in &hay {
                    if h.contains(&f) {
                        return fail(
                            &format!("leak-{w}"),
                            format!("confidential {sec:?} appears in the published {w}: {}", around(h, &f)),
                        );
                    }
                }
            }
        }
        Ok(())
    })
}

fn around(h: &str, f: &str) -> String {
    let i = h.find(f).unwrap_or(0);
    let a = h[..i].char_indices().rev().take(60).last().map_or(i, |x| x.0);
    let b = (i + f.len() + 40).min(h.len());
    let mut b = b;
    while !h.is_char_boundary(b) {
        b += 1;
    }
    format!("...{}...", &h[a..b])
}

/// Spellings a confidential value can be published in.
fn forms(s: &str) -> Vec<String> {
    let l = s.to_lowercase();
    let mut v = vec![l.clone()];
    if let Ok(ip) = s.parse::<Ipv6Addr>() {
        let g = ip.segments();
        v.push(g.iter().map(|x| format!("{x:04x}")).collect::<Vec<_>>().join(":"));
        v.push(g.iter().map(|x| format!("{x:x}")).collect::<Vec<_>>().join(":"));
        v.push(ip.octets().iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
        v.push(ip.octets().iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", "));
    } else if let Ok(ip) = s.parse::<Ipv4Addr>() {
        v.push(u32::from(ip).to_string());
    } else if l.len() >= 40 && l.len() % 2 == 0 && l.bytes().all(|b| b.is_ascii_hexdigit()) {
        let b = model::unhex(&l);
        v.push(b.iter().map(|x| format!("{x:02x}")).collect::<Vec<_>>().join(":"));
        v.push(b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
        v.push(b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", "));
        // a recognisable part of it
        let part = &b[4..16];
        v.push(part.iter().map(|x| format!("{x:02x}")).collect::<Vec<_>>().join(":"));
        v.push(part.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
        v.push(part.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", "));
    }
    v
}

/// The masked clone against its original, field by field.
fn preserved(orig: &V, mtree: &V) -> Res<()> {
    let (mut o, mut m) = (orig.clone(), mtree.clone());
    for (a, b, what) in [
        (orig["media"].as_array().unwrap().len(), mtree["media"].as_array().unwrap().len(), "media sections"),
        (orig["a"].as_array().unwrap().len(), mtree["a"].as_array().unwrap().len(), "session attributes"),
    ] {
        if a != b {
            return fail("count", format!("{what}: {a} in the original, {b} in the masked clone"));
        }
    }
    let ps = pairs(&mut o, &mut m)?;
    if let Some((path, a, b)) = model::diff(&o, &m) {
        return fail(
            &format!("altered:{}", class_of(&path)),
            format!("masked clone altered {path}: {a} became {b}"),
        );
    }
    // one description is renamed consistently (long histories: C06)
    let mut one = Promise::default();
    for (c, f, t) in &ps {
        one.check(*c, f, t)?;
    }
    Ok(())
}

/// A description an application put together itself, with fields no reader would give.
fn built_and_masked() -> Res<()> {
    let st = gen::Style::draw();
    let m = make(&st);
    note_content(&m.tree);
    let mut t = m.tree;
    crate::wild::wild(&mut t);
    let Ok(s) = lib("building through the API", || model::lower_session(&t))? else { return Ok(()) };
    let orig = lift(&s)?;
    let masked = mask_session(&mut StatefulSdpAnonymizer::new(), &s)?;
    if let Some((path, a, b)) = model::diff(&orig, &lift(&s)?) {
        return fail("original-changed", format!("masking changed the original: {path} {a} -> {b}"));
    }
    run::nontrivial();
    preserved(&orig, &lift(&masked)?)
}

pub fn c08() -> Res<()> {
    maybe_level();
    if p(1, 4) {
        return built_and_masked();
    }
    collect(p(1, 2), |an, s, _text| {
        let orig = lift(s)?;
        let masked = mask_session(an, s)?;
        if let Some((path, a, b)) = model::diff(&orig, &lift(s)?) {
            return fail("original-changed", format!("masking changed the original: {path} {a} -> {b}"));
        }
        let mtree = lift(&masked)?;
        preserved(&orig, &mtree)?;
        // the masked clone still says all this when rendered and read by others;
        // masked fingerprints are shorter than the hash, so those lines are set aside
        let text = render(&masked)?;
        check_lines("masked clone", &text)?;
        let kept: String = text
            .split_inclusive("\r\n")
            .filter(|l| !l.to_lowercase().starts_with("a=fingerprint:"))
            .collect();
        let mut want = mtree.clone();
        let drop_fp = |a: &mut V| a.as_array_mut().unwrap().retain(|x| x["k"] != "fingerprint");
        drop_fp(&mut want["a"]);
        want["media"].as_array_mut().unwrap().iter_mut().for_each(|x| drop_fp(&mut x["a"]));
        foreign_agrees("masked clone", &kept, &model::canon(want.clone()))?;
        match parse(&kept, true)? {
            Ok(s2) => same_content("masked clone read back", &s2, &model::canon(want))?,
            Err(e) => return fail("masked-unreadable", format!("masked clone does not read back: {e} in {}", show(&kept))),
        }
        run::sample(|| serde_json::json!({"masked": cut(&text, 1200)}));
        Ok(())
    })
}

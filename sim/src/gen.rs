//! Workload generator: produces a description as a model tree together with
//! its wire text, written by an independent writer that varies spelling the
//! way foreign stacks do. Never consults the library.
use crate::ch::{len, p, pick, range, shuffle, u, us};
use crate::run;
use crate::refparse::{levels, pt_forbidden};
use serde_json::{json, Value as V};
use std::net::{Ipv4Addr, Ipv6Addr};

/// Swarm knobs of one run: which kinds and spellings are in play.
#[derive(Clone, Debug)]
pub struct Style {
    pub ws: u64,       // odds (of 16) of odd whitespace between tokens
    pub case: u64,     // odds of odd letter case
    pub zero: u64,     // odds of leading zeros
    pub big: bool,     // boundary-heavy numbers
    pub uni: bool,     // non-ASCII text
    pub long: bool,    // long tokens
    pub vast: bool,    // now and then very long lists and tokens
    pub kinds: Vec<&'static str>,
    pub max_attrs: u64,
    pub max_media: u64,
    /// marks every confidential token with this prefix (made unique by a counter)
    pub secret: Option<u64>,
    pub pool: Vec<String>, // small pool of addresses/names to force repeats
    /// write the library's own spelling only
    pub plain: bool,
    /// attributes may hold values no reader gives (editing histories)
    pub odd: bool,
}

pub const KINDS: [&str; 43] = [
    "bundle-only", "candidate", "dtls-message", "end-of-candidates", "extmap", "extmap-allow-mixed",
    "fingerprint", "fmtp", "framerate", "group", "ice-lite", "ice-mismatch", "ice-options", "ice-pacing",
    "ice-pwd", "ice-ufrag", "identity", "imageattr", "inactive", "label", "max-message-size", "maxptime",
    "mid", "msid", "msid-semantic", "ptime", "rid", "recvonly", "remote-candidates", "rtpmap", "rtcp",
    "rtcp-fb", "rtcp-mux", "rtcp-mux-only", "rtcp-rsize", "sctpmap", "sctp-port", "sendonly", "sendrecv",
    "setup", "simulcast", "ssrc", "ssrc-group",
];

impl Style {
    pub fn draw() -> Style {
        let plain = p(1, 6);
        let mut kinds: Vec<&'static str> = KINDS.to_vec();
        if p(1, 2) {
            // a random subset, so that rare kinds get crowded runs
            let keep = range(2, 12) as usize;
            shuffle(&mut kinds);
            kinds.truncate(keep);
        }
        let max_media = if p(1, 200) { *pick(&[20, 40, 280]) } else { *pick(&[1, 2, 3, 5]) };
        let max_attrs = if p(1, 100) && max_media < 20 { *pick(&[70, 140, 300]) } else { *pick(&[3, 6, 12, 24]) };
        let max_media = crate::dict::length(1, 300).map_or(max_media, |n| n as u64);
        let max_attrs = crate::dict::length(1, 300).map_or(max_attrs, |n| n as u64);
        let close = if crate::dict::focus() { crate::dict::close(&KINDS) } else { Vec::new() };
        if !close.is_empty() && p(2, 3) {
            kinds.truncate(us(6));
            kinds.extend(&close);
        }
        Style {
            ws: if plain { 0 } else { *pick(&[0, 0, 1, 4]) },
            case: if plain { 0 } else { *pick(&[0, 0, 1, 6]) },
            zero: if plain { 0 } else { *pick(&[0, 0, 0, 3]) },
            big: p(1, 2),
            uni: p(1, 4),
            long: p(1, 6),
            vast: p(1, 30),
            kinds,
            max_attrs,
            max_media,
            secret: None,
            odd: false,
            pool: Vec::new(),
            plain,
        }
    }
}

// (no lower-case z: it marks confidential tokens)
pub const ALNUM: &[u8] = b"abcdefghijklmnopqrstuvwxy0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ";
const TOKEN: &[u8] = b"abcxy0189ABCXYZ-_.+!#$%&'*^`{|}~\"\\?<>@()";
const ICE: &[u8] = b"abcdefgh0123456789ABCDEFGH+/";

fn chars(set: &[u8], n: usize) -> String {
    (0..n).map(|_| *pick(set) as char).collect()
}
pub fn num(st: &Style, max: u64) -> u64 {
    if let Some(n) = crate::dict::int(max) {
        return n;
    }
    if !st.big {
        return u(max.min(1000).saturating_add(1));
    }
    match u(8) {
        0 => u(max.min(10) + 1),
        1 => max,
        2 => max - u(max.min(3) + 1),
        3 | 4 => {
            let b = 1u128 << u(65);
            let v = b.saturating_sub(1) as u64;
            let v = v.saturating_add(u(3)).min(max);
            v
        }
        _ => u(max.saturating_add(1).max(1)),
    }
}
/// Decimal digits, now and then with leading zeros.
fn d(st: &Style, n: u64) -> String {
    if st.zero > 0 && p(st.zero, 16) {
        format!("{}{}", "0".repeat(range(1, 3) as usize), n)
    } else {
        n.to_string()
    }
}
fn case(st: &Style, s: &str) -> String {
    if st.case > 0 && p(st.case, 16) {
        match u(3) {
            0 => s.to_ascii_uppercase(),
            1 => s.to_ascii_lowercase(),
            _ => s
                .chars()
                .map(|c| if p(1, 2) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() })
                .collect(),
        }
    } else {
        s.to_owned()
    }
}
/// The blank between two tokens.
fn sp(st: &Style) -> &'static str {
    if st.ws > 0 && p(st.ws, 16) {
        pick(&["  ", "\t", " \t ", "   "])
    } else {
        " "
    }
}
fn join(st: &Style, t: &[String]) -> String {
    let mut o = String::new();
    for (i, x) in t.iter().enumerate() {
        if i > 0 {
            o.push_str(sp(st));
        }
        o.push_str(x);
    }
    o
}

static SECRET_NO: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
pub fn secret_reset() {
    SECRET_NO.store(0, std::sync::atomic::Ordering::Relaxed);
}
fn secret_no() -> u64 {
    SECRET_NO.fetch_add(1, std::sync::atomic::Ordering::Relaxed) + 1
}

/// Length of a list.
fn many(st: &Style, lo: u64, hi: u64) -> usize {
    if let Some(n) = crate::dict::length(lo, 400) {
        return n;
    }
    if st.vast && p(1, 8) {
        run::hit("probe.vast-list");
        return range(hi, *pick(&[12, 40, 300])) as usize;
    }
    len(lo, hi)
}
fn token_from(st: &Style, set: &[u8], max: u64) -> String {
    if st.vast && p(1, 20) {
        run::hit("probe.vast-token");
        return chars(set, range(65, *pick(&[140, 300, 3000])) as usize);
    }
    if let Some(w) = crate::dict::word(|c| c != 'z' && (c.is_ascii_alphanumeric() || set.contains(&(c as u32 as u8)) && c.is_ascii())) {
        let (a, b) = (chars(set, len(0, 3)), chars(set, len(0, 3)));
        return match u(5) {
            0 | 1 => w,
            2 => format!("{w}{b}"),
            3 => format!("{a}{w}"),
            _ => format!("{a}{w}{b}"),
        };
    }
    if let Some(n) = crate::dict::length(1, 3000) {
        return chars(set, n);
    }
    let n = if st.long && p(1, 3) { range(1, max.max(64)) } else { len(1, max.min(12)) as u64 };
    chars(set, n as usize)
}
/// RFC 4566 token.
pub fn token(st: &Style, max: u64) -> String {
    token_from(st, if p(1, 4) { TOKEN } else { ALNUM }, max)
}
/// A token that is confidential: unique and recognisable when asked for.
pub fn secret(st: &Style, set: &[u8], max: u64) -> String {
    if st.secret.is_some() {
        let core = format!("zq{}x{}", secret_no(), chars(ALNUM, 3));
        let ok = |c: char| c != 'z' && c != '"' && c != '\\' && (c.is_ascii_alphanumeric() || c.is_ascii() && set.contains(&(c as u8)));
        let keep = |s: &str| s.chars().filter(|c| ok(*c)).collect::<String>();
        // names of the shapes real ones have
        match u(12) {
            0..=4 => core,
            5 => format!("{core}{}", keep(&chars(set, len(1, 12)))),
            6 => format!("{}{core}", keep(&chars(set, len(1, 12)))),
            7 => format!("{}{core}{}", keep("{"), keep("}")),
            8 => format!(
                "{}{}{core}",
                keep(pick(&["-", "+", "/", "@", "user", "anonymous", "guest", "0", "1", "A", "mozilla...", "root"])),
                keep(pick(&["", "", ".", "-", "_", "@", "+"]))
            ),
            9 => format!("{core}{}", keep(pick(&["@example.com", "==", "=", "+", "/", "-", ".", "_", "0", "@[::1]", ".local"]))),
            10 => format!("{}{core}", keep(&chars(ALNUM, *pick(&[22, 30, 60, 125, 250])))),
            _ => match crate::dict::word(|c| ok(c)) {
                Some(w) if p(1, 2) => format!("{w}{core}"),
                Some(w) => format!("{core}{w}"),
                None => format!("{core}{}", keep(&chars(ALNUM, *pick(&[20, 60, 125, 250])))),
            },
        }
    } else if !st.pool.is_empty() && p(1, 2) {
        pick(&st.pool).clone()
    } else {
        token_from(st, set, max)
    }
}
pub fn text(st: &Style, max: u64) -> String {
    // free text, no leading/trailing blank
    let words = len(1, 4);
    let mut v = Vec::new();
    for _ in 0..words {
        let mut w = token(st, max);
        if st.uni && p(1, 3) {
            w.push_str(pick(&["\u{e9}", "\u{4e2d}\u{6587}", "\u{1f600}", "\u{df}", "\u{130}", "\u{b5}"]));
        }
        v.push(w);
    }
    v.join(pick(&[" ", "  ", " ", ":", "="]))
}

pub fn ip4(st: &Style) -> Ipv4Addr {
    if let Some(base) = st.secret {
        let n = secret_no();
        let (b, h, l) = ((base % 200) as u8, (n >> 8) as u8, (n & 255) as u8);
        // addresses of every sort
        return match u(16) {
            0..=4 => Ipv4Addr::new(203, b, h, l),
            5 | 6 => Ipv4Addr::new(10, b, h, l),
            7 | 8 => Ipv4Addr::new(192, 168, h.wrapping_add(b), l),
            9 => Ipv4Addr::new(172, 16 + b % 16, h, l),
            10 => Ipv4Addr::new(169, 254, h.wrapping_add(b), l),
            11 => Ipv4Addr::new(127, b, h, l),
            12 => Ipv4Addr::new(*pick(&[224, 232, 239]), b, h, l),
            13 => Ipv4Addr::new(100, 64 + b % 64, h, l),
            14 => Ipv4Addr::new(*pick(&[198, 192, 240, 255, 8, 1]), b, h, l),
            _ => Ipv4Addr::new(range(1, 255) as u8, b, h, l),
        };
    }
    if crate::dict::focus() {
        if let Some(a) = crate::dict::raw().and_then(|w| w.parse().ok()) {
            return a;
        }
    }
    if let Some(n) = crate::dict::int(255) {
        let mut o = [192, 0, 2, 1];
        o[us(4)] = n as u8;
        return o.into();
    }
    match u(6) {
        0 => *pick(&[
            Ipv4Addr::new(0, 0, 0, 0),
            Ipv4Addr::new(127, 0, 0, 1),
            Ipv4Addr::new(255, 255, 255, 255),
            Ipv4Addr::new(224, 2, 1, 1),
            Ipv4Addr::new(0, 0, 0, 1),
        ]),
        1 | 2 => Ipv4Addr::new(192, 168, u(3) as u8, u(8) as u8),
        _ => Ipv4Addr::from(u(1 << 32) as u32),
    }
}
pub fn ip6(st: &Style) -> Ipv6Addr {
    if let Some(base) = st.secret {
        let n = secret_no() as u16;
        let (a, b) = match u(12) {
            0..=3 => (0x2001, 0xdb8),
            4 => (0xfe80, 0),
            5 => (0xfd12, 0x3456),
            6 => (0xfc00, 0),
            7 => (*pick(&[0xff02, 0xff05, 0xff0e]), 0),
            8 => return Ipv4Addr::new(203, base as u8, (n >> 8) as u8, n as u8).to_ipv6_mapped(),
            9 => (0x64, 0xff9b),
            10 => (0x2002, 0xc000),
            _ => (range(1, 0xffff) as u16, 0),
        };
        return Ipv6Addr::new(a, b, base as u16 | 0x1000, 0xabcd, 0x9999, 0x8888, 0x7777, n);
    }
    if crate::dict::focus() {
        if let Some(a) = crate::dict::raw().and_then(|w| w.parse().ok()) {
            return a;
        }
    }
    if let Some(n) = crate::dict::int(65535) {
        let mut o = [0x2001u16, 0xdb8, 0, 0, 0, 0, 0, 1];
        o[us(8)] = n as u16;
        return o.into();
    }
    match u(6) {
        0 => *pick(&[
            Ipv6Addr::UNSPECIFIED,
            Ipv6Addr::LOCALHOST,
            Ipv6Addr::new(0, 0, 0, 0, 0, 0xffff, 0xc0a8, 1),
            Ipv6Addr::new(0xffff, 0xffff, 0xffff, 0xffff, 0xffff, 0xffff, 0xffff, 0xffff),
            Ipv6Addr::new(1, 0, 0, 2, 0, 0, 0, 3),
            Ipv6Addr::new(0, 0, 0, 0, 0, 0, 0, 0x102),
            Ipv6Addr::new(0xfe80, 0, 0, 0, 1, 0, 0, 0),
        ]),
        1 | 2 => Ipv6Addr::new(0x2001, 0xdb8, 0, 0, 0, 0, 0, u(8) as u16),
        _ => {
            let mut s = [0u16; 8];
            for x in s.iter_mut() {
                *x = if p(1, 3) { 0 } else { u(65536) as u16 };
            }
            Ipv6Addr::from(s)
        }
    }
}
fn ip6_text(st: &Style, a: Ipv6Addr) -> String {
    if st.plain {
        return a.to_string();
    }
    let s = a.segments();
    match u(5) {
        0 | 1 => a.to_string(),
        2 => a.to_string().to_uppercase(),
        3 => s.iter().map(|x| format!("{x:04x}")).collect::<Vec<_>>().join(":"),
        _ => {
            let mut o = s[..6].iter().map(|x| format!("{x:x}")).collect::<Vec<_>>().join(":");
            o.push_str(&format!(":{}.{}.{}.{}", s[6] >> 8, s[6] & 255, s[7] >> 8, s[7] & 255));
            o
        }
    }
}
/// (canonical name, spelling)
pub fn fqdn(st: &Style) -> (String, String) {
    if st.secret.is_some() {
        let n = secret_no();
        let s = match u(10) {
            0..=3 => format!("zq{n}h.secret.example"),
            4 => format!("zq{n}h-4abc-89ab-cdef01234567.local"),
            5 => format!("zq{n}h.local"),
            6 => format!("zq{n}h"),
            7 => format!(
                "zq{n}h.{}",
                pick(&["localhost", "com", "example.com", "test", "invalid", "home.arpa", "internal", "onion", "lan", "example.com."])
            ),
            8 => format!("{}{}zq{n}h.net", chars(b"abcxy", 1), chars(b"abcxy019-.", len(0, 8)).replace("--", "a").replace("..", ".").replace("-.", ".").replace(".-", ".")),
            _ => match crate::dict::word(|c| c.is_ascii_lowercase() && c != 'z') {
                Some(w) if p(1, 2) => format!("zq{n}h.{w}"),
                Some(w) => format!("{w}.zq{n}h.org"),
                None => format!("turn.zq{n}h.org"),
            },
        };
        return (s.clone(), s);
    }
    if st.uni && !st.plain && p(1, 4) {
        let (c, w) = *pick(&[
            ("xn--bcher-kva.example", "b\u{fc}cher.example"),
            ("xn--fiqs8s", "\u{4e2d}\u{56fd}"),
            ("xn--bcher-kva.example", "B\u{dc}CHER.example"),
        ]);
        return (c.to_owned(), w.to_owned());
    }
    let c = match u(4) {
        0 => format!(
            "{}-{}-4abc-89ab-{}.local",
            chars(b"0123456789abcdef", 8),
            chars(b"0123456789abcdef", 4),
            chars(b"0123456789abcdef", 12)
        ),
        1 => match crate::dict::word(|c| c.is_ascii_lowercase() && c != 'z') {
            Some(w) => format!("{w}.example.com"),
            None => format!("h{}.example.com", u(8)),
        },
        _ => {
            let n = len(1, 6);
            let mut l: Vec<String> = (0..n)
                .map(|_| {
                    let k = if st.long && p(1, 4) { range(1, 62) } else { range(1, 8) };
                    // no "xx--" labels, no leading/trailing hyphen
                    format!("{}{}", chars(b"abcxyz", 1), chars(b"abc0189_", k as usize))
                })
                .collect();
            l.push((*pick(&["com", "example", "invalid", "x"])).to_owned());
            let mut s = l.join(".");
            if p(1, 8) {
                s.push('.');
            }
            s
        }
    };
    let w = case(st, &c);
    (c, w)
}
/// (tree, spelling)
pub fn addr(st: &Style) -> (V, String) {
    match u(3) {
        0 => {
            let a = ip4(st);
            (json!({"ip": a.to_string()}), a.to_string())
        }
        1 => {
            let a = ip6(st);
            (json!({"ip": a.to_string()}), ip6_text(st, a))
        }
        _ => {
            let (c, w) = fqdn(st);
            (json!({ "fqdn": c }), w)
        }
    }
}
/// (tree, "IN IPx addr" tokens)
pub fn taddr(st: &Style) -> (V, Vec<String>) {
    let (mut t, w) = addr(st);
    let six = match t.get("ip") {
        Some(ip) => ip.as_str().unwrap().contains(':'),
        None => {
            let six = p(1, 2);
            t["t"] = json!(if six { 6 } else { 4 });
            six
        }
    };
    (t, vec![case(st, "IN"), case(st, if six { "IP6" } else { "IP4" }), w])
}
pub fn conn(st: &Style) -> (V, String) {
    let (t, mut w) = taddr(st);
    let ttl = if p(1, 4) { Some(num(st, 255)) } else { None };
    let amount = if ttl.is_some() && p(1, 2) { Some(num(st, u64::from(u32::MAX))) } else { None };
    if let Some(n) = ttl {
        w[2].push_str(&format!("/{}", d(st, n)));
    }
    if let Some(n) = amount {
        w[2].push_str(&format!("/{}", d(st, n)));
    }
    (json!({"addr": t, "ttl": ttl, "amount": amount}), join(st, &w))
}
pub fn bw(st: &Style) -> (V, String) {
    let n = num(st, u64::from(u32::MAX));
    match u(4) {
        0 => (json!(["AS", n]), format!("{}:{}", case(st, "AS"), d(st, n))),
        1 => (json!(["CT", n]), format!("{}:{}", case(st, "CT"), d(st, n))),
        2 => (json!(["TIAS", n]), format!("{}:{}", case(st, "TIAS"), d(st, n))),
        _ => {
            let k = loop_token(st, |s| !["AS", "CT", "TIAS"].contains(&s.to_uppercase().as_str()));
            let k = if p(1, 2) { format!("X-{k}") } else { k };
            (json!(["?", k, n]), format!("{}:{}", k, d(st, n)))
        }
    }
}
fn loop_token(st: &Style, ok: impl Fn(&str) -> bool) -> String {
    let t = token(st, 8);
    if ok(&t) {
        t
    } else {
        format!("q{t}")
    }
}

/// What the attributes of a section may refer to.
#[derive(Default, Clone)]
pub struct Cx {
    pub pts: Vec<u64>,
    pub fmt_strings: bool,
    pub mids: Vec<String>,
    /// (id, dir) of rids already emitted
    pub rids: Vec<(String, String)>,
}
impl Cx {
    /// As if the section had some rids already.
    pub fn with_rids() -> Cx {
        let rids = [("1", "send"), ("hi", "send"), ("lo", "send"), ("2", "recv"), ("x-3", "recv")];
        Cx { rids: rids.iter().map(|(a, b)| ((*a).to_owned(), (*b).to_owned())).collect(), ..Cx::default() }
    }
}

pub fn good_pt(_st: &Style) -> u64 {
    if let Some(n) = crate::dict::int(127) {
        return loop_pt(|| n);
    }
    loop_pt(|| match u(3) {
        0 => range(96, 127),
        1 => *pick(&[0, 3, 8, 9, 18, 20, 63, 96, 127]),
        _ => u(64),
    })
}
fn loop_pt(f: impl Fn() -> u64) -> u64 {
    let n = f();
    if pt_forbidden(n as u32) {
        96
    } else {
        n
    }
}
fn some_pt(st: &Style, cx: &Cx) -> u64 {
    if !cx.pts.is_empty() && p(3, 4) {
        *pick(&cx.pts)
    } else {
        good_pt(st)
    }
}
fn rid_id(st: &Style) -> String {
    match u(3) {
        0 => u(6).to_string(),
        1 => (*pick(&["hi", "mid", "lo", "a-b", "x_1"])).to_owned(),
        _ => token_from(st, b"abcXYZ0189-_", 16),
    }
}
fn f32text(st: &Style) -> (f32, String) {
    if !st.plain && st.big && p(1, 8) {
        // numbers no writer should use but every reader of numbers understands
        let w = *pick(&[
            "1e3", "1E3", "+1.5", "1.", ".5", "00.5", "16777217", "340282350000000000000000000000000000000", "1e38",
            "0.000000000000000000000000000000000000001", "0.1000000014901161193847656", "inf", "Infinity", "0.30000001",
        ]);
        return (w.parse().unwrap(), w.to_owned());
    }
    // spvalue-like decimal, sometimes with a superfluous trailing zero
    let v = match u(6) {
        0 => format!("0.{}", range(1, 9999)),
        1 => format!("{}.{}", range(1, 9), u(10000)),
        2 => format!("{}.0", range(1, 9)),
        3 if !st.plain => format!("{}.{:07}", u(300), range(1, 9_999_999)),
        4 if !st.plain => format!("{}", range(1, 99_999_999)),
        _ => format!("{}", range(1, 9)),
    };
    let w = if !st.plain && v.contains('.') && p(1, 6) { format!("{v}0") } else { v };
    (w.parse().unwrap(), w)
}
fn two_f32(st: &Style) -> ((f32, String), (f32, String)) {
    let a = f32text(st);
    let b = f32text(st);
    if a.0 < b.0 {
        (a, b)
    } else if b.0 < a.0 {
        (b, a)
    } else {
        match a.0 {
            x if x < 12.5 => (a, (12.5, "12.5".to_owned())),
            x if x > 12.5 => ((12.5, "12.5".to_owned()), a),
            _ => (a, (13.0, "13".to_owned())),
        }
    }
}
fn xyr(st: &Style) -> (V, String) {
    let m32 = u32::MAX as u64;
    let v = |_: ()| match st.big {
        true if p(1, 5) => num(st, m32),
        true => range(1, 999_999),
        false => range(1, 4096),
    };
    match u(4) {
        0 => {
            let a = v(());
            (json!({ "d": [a] }), d(st, a))
        }
        1 => {
            let n = range(2, 5);
            let l: Vec<u64> = (0..n).map(|_| v(())).collect();
            let w = l.iter().map(|x| d(st, *x)).collect::<Vec<_>>().join(",");
            (json!({ "d": l }), format!("[{w}]"))
        }
        2 => {
            let (a, b) = (v(()), v(()));
            (json!({"r": [a, b, null]}), format!("[{}:{}]", d(st, a), d(st, b)))
        }
        _ => {
            let (a, b) = (v(()), v(()));
            let s = if st.big && p(1, 5) { num(st, m32) } else { range(1, 64) };
            (json!({"r": [a, b, s]}), format!("[{}:{}:{}]", d(st, a), d(st, s), d(st, b)))
        }
    }
}
fn image_set(st: &Style) -> (V, String) {
    use crate::model::f32s;
    let (x, xw) = xyr(st);
    let (y, yw) = xyr(st);
    let mut o = json!({"x": x, "y": y, "sar": null, "par": null, "q": null});
    let mut kv = Vec::new();
    if p(1, 3) {
        match u(3) {
            0 => {
                let (f, w) = f32text(st);
                o["sar"] = json!({"d": [f32s(f)]});
                kv.push(format!("sar={w}"));
            }
            1 => {
                let (a, b) = two_f32(st);
                o["sar"] = json!({"r": [f32s(a.0), f32s(b.0)]});
                kv.push(format!("sar=[{}-{}]", a.1, b.1));
            }
            _ => {
                let n = range(2, 4);
                let mut l: Vec<(f32, String)> = (0..n).map(|_| f32text(st)).collect();
                l.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
                l.dedup_by(|a, b| a.0 == b.0);
                if l.len() == 1 {
                    let at = if l[0].0 < 99.5 { 1 } else { 0 };
                    l.insert(at, if at == 1 { (99.5, "99.5".to_owned()) } else { (0.05, "0.05".to_owned()) });
                }
                o["sar"] = json!({"d": l.iter().map(|x| f32s(x.0)).collect::<Vec<_>>()});
                kv.push(format!("sar=[{}]", l.iter().map(|x| x.1.clone()).collect::<Vec<_>>().join(",")));
            }
        }
    }
    if p(1, 3) {
        let (a, b) = two_f32(st);
        o["par"] = json!([f32s(a.0), f32s(b.0)]);
        kv.push(format!("par=[{}-{}]", a.1, b.1));
    }
    if p(1, 3) {
        let w = match u(4) {
            0 => "0.5".to_owned(),
            1 => "1.00".to_owned(),
            2 if st.big && p(1, 4) => (*pick(&["-1", "1e-3", "-0", "0", "1e9", "-inf", "100"])).to_owned(),
            2 => format!("0.{:02}", u(100)),
            _ => "0.1".to_owned(),
        };
        let w = if st.plain { "0.6".to_owned() } else { w };
        o["q"] = json!(f32s(w.parse().unwrap()));
        kv.push(format!("q={w}"));
    }
    if !st.plain {
        shuffle(&mut kv);
    }
    let mut w = format!("x={xw},y={yw}");
    for k in kv {
        w.push(',');
        w.push_str(&k);
    }
    (o, format!("[{w}]"))
}
fn setlist(st: &Style) -> (V, String) {
    if p(1, 3) {
        return (json!("*"), "*".to_owned());
    }
    let n = many(st, 1, 4);
    let l: Vec<(V, String)> = (0..n).map(|_| image_set(st)).collect();
    (
        V::Array(l.iter().map(|x| x.0.clone()).collect()),
        l.iter().map(|x| x.1.clone()).collect::<Vec<_>>().join(" "),
    )
}
fn ssrc_attr(st: &Style) -> (V, V, String) {
    match u(6) {
        0 => (V::Null, V::Null, String::new()),
        1 => {
            let a = token_from(st, ALNUM, 8);
            (json!(a), V::Null, format!(" {a}"))
        }
        2 | 3 => {
            let v = secret(st, b"abcxyz0189{}-@.:", 20);
            let a = case(st, "cname");
            (json!(a), json!(v), format!(" {a}:{v}"))
        }
        _ => {
            let a = (*pick(&["msid", "mslabel", "label", "fmtp", "cnam", "cname2"])).to_owned();
            let mut v = token(st, 8);
            for _ in 0..*pick(&[0, 1, 1, 2, 3]) {
                v = format!("{v}{}{}", if st.plain { " " } else { pick(&[" ", " ", "  ", ":", "\t"]) }, token(st, 8));
            }
            (json!(a), json!(v), format!(" {a}:{v}"))
        }
    }
}

pub fn fmtp(st: &Style, cx: &Cx) -> (V, String) {
    let pt = some_pt(st, cx);
    let mut prm = crate::model::default_fmtp_params();
    let block = match u(8) {
        0 => {
            // telephone events
            let n = many(st, 1, 4);
            let s = (0..n)
                .map(|_| {
                    let a = u(100);
                    if p(1, 2) {
                        format!("{a}-{}", range(a + 1, 100))
                    } else {
                        u(101).to_string()
                    }
                })
                .collect::<Vec<_>>()
                .join(",");
            prm["dtmf"] = json!(s);
            s
        }
        1 => {
            let n = range(2, 5);
            let e: Vec<u64> = (0..n).map(|_| if p(1, 2) { good_pt(st) } else { u(129) }).collect();
            prm["enc"] = json!(e);
            e.iter().map(|x| d(st, *x)).collect::<Vec<_>>().join("/")
        }
        _ => {
            let n = len(1, 7);
            let mut items: Vec<String> = Vec::new();
            let mut used: Vec<&str> = Vec::new();
            let m = u64::from(u32::MAX);
            for _ in 0..n {
                let k = crate::dict::pick(&[
                    "profile-level-id", "packetization-mode", "level-asymmetry-allowed", "max-mbps", "max-fs",
                    "max-cpb", "max-dpb", "max-br", "max-fr", "profile", "level-idx", "tier", "maxplaybackrate",
                    "maxaveragebitrate", "ptime", "maxptime", "minptime", "usedtx", "stereo", "useinbandfec",
                    "cbr", "apt", "?", "?",
                ]);
                if k != "?" && used.contains(&k) {
                    continue;
                }
                used.push(k);
                let name = case(st, k);
                match k {
                    "profile-level-id" => {
                        let v = if p(1, 4) { 0x42000a } else { num(st, 0xff_ffff) };
                        prm[k] = json!(v);
                        let h = format!("{v:06x}");
                        items.push(format!("{name}={}", case(st, &h)));
                    }
                    "packetization-mode" => {
                        let v = u(3);
                        prm[k] = json!(v);
                        items.push(format!("{name}={}", d(st, v)));
                    }
                    "level-asymmetry-allowed" | "usedtx" | "stereo" | "useinbandfec" | "cbr" => {
                        let v = u(2);
                        prm[k] = json!(v == 1);
                        items.push(format!("{name}={}", d(st, v)));
                    }
                    "profile" | "level-idx" | "tier" => {
                        let v = u(match k {
                            "profile" => 3,
                            "tier" => 2,
                            _ => 32,
                        });
                        prm[k] = json!(v);
                        items.push(format!("{name}={}", d(st, v)));
                    }
                    "apt" => {
                        let v = some_pt(st, cx);
                        let rt = if p(1, 2) { Some(num(st, m)) } else { None };
                        prm["rtx"] = json!([v, rt]);
                        let mut s = format!("{name}={}", d(st, v));
                        if let Some(rt) = rt {
                            s.push_str(&format!(";rtx-time={}", d(st, rt)));
                        }
                        items.push(s);
                    }
                    "?" => {
                        let nm = match crate::dict::word(|c| c == '-' || c.is_ascii_alphanumeric()) {
                            Some(w) => format!("x-{w}"),
                            None => (*pick(&["x-google-start-bitrate", "sprop-parameter-sets", "annexb", "x-a", "foo", "emphasis"])).to_owned(),
                        };
                        let v = match u(3) {
                            0 => u(9999).to_string(),
                            1 => "Z0LAFYyNQKD5APCIRqA=,aM48gA==".to_owned(),
                            _ => token(st, 10),
                        };
                        let s = format!("{nm}={v}");
                        prm["unk"].as_array_mut().unwrap().push(json!(s));
                        items.push(s);
                    }
                    _ => {
                        let v = if k == "maxplaybackrate" && p(1, 2) { 48000 } else { num(st, m) };
                        prm[k] = json!(v);
                        items.push(format!("{name}={}", d(st, v)));
                    }
                }
            }
            let mut s = items.join(if st.plain {
                ";"
            } else {
                *pick(&[";", ";", "; ", ";;"])
            });
            if !st.plain && p(1, 8) {
                s.push(';');
            }
            if !st.plain && p(1, 16) {
                s.insert(0, ';');
            }
            s
        }
    };
    (json!({"k": "fmtp", "pt": pt, "p": prm}), format!("{} {block}", d(st, pt)))
}

pub fn candidate(st: &Style) -> (V, String) {
    let (a, aw) = addr(st);
    let m32 = u64::from(u32::MAX);
    let found = token_from(st, ICE, 32);
    let comp = if p(3, 4) { range(1, 2) } else { num(st, m32) };
    let tr = crate::dict::pick(&["udp", "tcp"]);
    let prio = num(st, if p(1, 8) { u64::MAX } else { m32 });
    let port = num(st, 65535);
    let typ = crate::dict::pick(&["host", "srflx", "prflx", "relay"]);
    let mut c = json!({
        "k": "candidate", "found": found, "comp": comp, "tr": tr, "prio": prio, "addr": a, "port": port,
        "typ": typ, "raddr": null, "rport": null, "tcptype": null, "gen": null, "ufrag": null, "cost": null,
        "ext": [],
    });
    let mut t = vec![
        found,
        d(st, comp),
        case(st, if p(1, 2) { tr } else { if tr == "udp" { "UDP" } else { "TCP" } }),
        d(st, prio),
        aw,
        d(st, port),
        case(st, "typ"),
        case(st, typ),
    ];
    let mut ext: Vec<(String, String)> = Vec::new();
    if p(1, 3) {
        let (ra, rw) = addr(st);
        c["raddr"] = ra;
        ext.push((case(st, "raddr"), rw));
    }
    if c["raddr"].is_null() == p(1, 6) {
        let rp = num(st, 65535);
        c["rport"] = json!(rp);
        ext.push((case(st, "rport"), d(st, rp)));
    }
    if tr == "tcp" || p(1, 10) {
        let tt = *pick(&["active", "passive", "so"]);
        c["tcptype"] = json!(tt);
        ext.push((case(st, "tcptype"), case(st, tt)));
    }
    if p(1, 3) {
        let g = num(st, m32);
        c["gen"] = json!(g);
        ext.push((case(st, "generation"), d(st, g)));
    }
    if p(1, 3) {
        let f = secret(st, ICE, 32);
        c["ufrag"] = json!(f);
        ext.push((case(st, "ufrag"), f));
    }
    if p(1, 4) {
        let g = num(st, m32);
        c["cost"] = json!(g);
        ext.push((case(st, "network-cost"), d(st, g)));
    }
    if !st.plain {
        shuffle(&mut ext);
    }
    if p(1, 5) {
        for _ in 0..len(1, 3) {
            let n = (*pick(&["network-id", "x-foo", "bandwidth", "X"])).to_owned();
            let v = token(st, 8);
            c["ext"].as_array_mut().unwrap().push(json!([n, v]));
            let at = if st.plain { ext.len() } else { us(ext.len() + 1) };
            // keep the relative order of unknown extensions
            let last_unknown = ext
                .iter()
                .rposition(|(k, _)| ["network-id", "x-foo", "bandwidth", "X"].contains(&k.as_str()))
                .map_or(0, |i| i + 1);
            ext.insert(at.max(last_unknown), (n, v));
        }
    }
    for (k, v) in ext {
        t.push(k);
        t.push(v);
    }
    (c, join(st, &t))
}

/// One attribute of the given kind: (tree, text after "a=").
pub fn attr(st: &Style, kind: &str, cx: &mut Cx) -> (V, String) {
    let m32 = u64::from(u32::MAX);
    let name = case(st, kind);
    let (t, v): (V, String) = match kind {
        "ice-pwd" | "ice-ufrag" => {
            let s = secret(st, ICE, 64);
            (json!({"k": kind, "s": s}), s)
        }
        "identity" => {
            let s = format!("{}==", token_from(st, ALNUM, 40));
            (json!({"k": kind, "s": s}), s)
        }
        "label" | "mid" => {
            let s = if kind == "mid" && p(1, 2) { u(5).to_string() } else { token(st, 20) };
            if kind == "mid" {
                cx.mids.push(s.clone());
            }
            (json!({"k": kind, "s": s}), s)
        }
        "max-message-size" | "maxptime" | "ptime" => {
            let n = num(st, u64::MAX);
            (json!({"k": kind, "n": n}), d(st, n))
        }
        "ice-pacing" => {
            let n = num(st, 9_999_999_999);
            (json!({"k": kind, "n": n}), d(st, n))
        }
        "sctp-port" => {
            let n = num(st, 65535);
            (json!({"k": kind, "n": n}), d(st, n))
        }
        "framerate" => {
            let w = match u(4) {
                0 => range(1, 120).to_string(),
                1 if st.big && p(1, 3) => (*pick(&[
                    "1e3", "1E-3", "-25", "+25", "25.", ".5", "1e300", "1e-300", "5e-324", "1.7976931348623157e308",
                    "9007199254740993", "0.1000000000000000055511151231257827", "123456789.123456789",
                ]))
                .to_owned(),
                1 => "29.97".to_owned(),
                2 => format!("{}.{}", u(1000), range(1, 9999)),
                _ => format!("{}.{:03}", range(1, 240), u(1000)),
            };
            (json!({"k": kind, "f": crate::model::f64s(w.parse().unwrap())}), w)
        }
        "ice-options" => {
            let n = many(st, 1, 4);
            let l: Vec<String> = (0..n)
                .map(|_| if p(1, 2) { "trickle".to_owned() } else { token_from(st, ICE, 12) })
                .collect();
            (json!({"k": kind, "l": l}), join(st, &l))
        }
        "setup" => {
            let s = crate::dict::pick(&["active", "actpass", "holdconn", "passive"]);
            (json!({"k": kind, "s": s}), case(st, s))
        }
        "dtls-message" => {
            let r = *pick(&["client", "server"]);
            let s = chars(b"abcXYZ0189+/=", range(1, 40) as usize);
            (json!({"k": kind, "role": r, "s": s}), format!("{r} {s}"))
        }
        "candidate" => candidate(st),
        "extmap" => {
            let id = num(st, 65535);
            let dir = if p(1, 2) { Some(*pick(&["recvonly", "sendonly", "sendrecv"])) } else { None };
            let url = format!("urn:ietf:params:rtp-hdrext:{}", token_from(st, ALNUM, 12));
            let ext = if p(1, 3) {
                Some((0..len(1, 3)).map(|_| token(st, 8)).collect::<Vec<_>>())
            } else {
                None
            };
            let mut w = vec![
                match dir {
                    Some(x) => format!("{}/{}", d(st, id), case(st, x)),
                    None => d(st, id),
                },
                url.clone(),
            ];
            w.extend(ext.clone().unwrap_or_default());
            (
                json!({"k": kind, "id": id, "dir": dir, "url": url, "ext": ext.map(|e| e.join(" "))}),
                join(st, &w),
            )
        }
        "fingerprint" => {
            let (alg, n) = *pick(&[("sha-256", 32), ("sha-1", 20), ("sha-224", 28), ("sha-384", 48), ("sha-512", 64)]);
            let mut b: Vec<u8> = if p(1, 4) { vec![*pick(&[0u8, 0xff, 0x0a]); n] } else { (0..n).map(|_| u(256) as u8).collect() };
            if st.secret.is_some() {
                let no = secret_no();
                b[0] = 0xE0;
                b[1] = (no >> 8) as u8;
                b[2] = no as u8;
                b[3] = 0x5A;
                b[4] = 0xC3;
            }
            let h: Vec<String> = b.iter().map(|x| format!("{x:02X}")).collect();
            let h = h.join(":");
            let h = case(st, &h);
            (
                json!({"k": kind, "alg": alg, "fp": crate::model::hex(&b)}),
                format!("{alg}{}{h}", sp(st)),
            )
        }
        "fmtp" => fmtp(st, cx),
        "group" => {
            let s = crate::dict::pick(&["BUNDLE", "LS", "FID", "SRF", "ANAT", "FEC", "DDP"]);
            let n = if p(1, 8) { 0 } else { many(st, 1, 5) };
            let tags: Vec<String> = (0..n)
                .map(|_| {
                    if !cx.mids.is_empty() && p(1, 2) {
                        pick(&cx.mids).clone()
                    } else {
                        token(st, 8)
                    }
                })
                .collect();
            let mut w = vec![case(st, s)];
            w.extend(tags.clone());
            (json!({"k": kind, "sem": s, "tags": tags}), join(st, &w))
        }
        "imageattr" => {
            let pt = if p(1, 3) { json!("*") } else { json!(some_pt(st, cx)) };
            let ptw = pt.as_u64().map_or("*".to_owned(), |n| d(st, n));
            let (a, aw) = setlist(st);
            let both = p(1, 2);
            let send_first = p(1, 2);
            let (k1, k2) = if send_first { ("send", "recv") } else { ("recv", "send") };
            let mut o = json!({"k": kind, "pt": pt, "send": [], "recv": []});
            let mut w = format!("{ptw} {k1} {aw}");
            o[k1] = a;
            if both {
                let (b, bw) = setlist(st);
                o[k2] = b;
                w.push_str(&format!(" {k2} {bw}"));
            }
            (o, w)
        }
        "msid" => {
            let id = token(st, 30);
            let app = if p(1, 2) { Some(token(st, 30)) } else { None };
            let mut w = vec![id.clone()];
            w.extend(app.clone());
            (json!({"k": kind, "id": id, "app": app}), join(st, &w))
        }
        "msid-semantic" => {
            let s = if p(3, 4) { "WMS".to_owned() } else { token(st, 6) };
            let ids: Vec<String> = match u(3) {
                0 => vec!["*".to_owned()],
                1 => Vec::new(),
                _ => (0..len(1, 4)).map(|_| token(st, 16)).collect(),
            };
            let mut w = vec![s.clone()];
            w.extend(ids.clone());
            let mut v = join(st, &w);
            if !st.plain && p(1, 3) {
                v.insert(0, ' ');
            }
            (json!({"k": kind, "sem": s, "ids": ids}), v)
        }
        "remote-candidates" => {
            let comp = num(st, m32);
            let (a, aw) = addr(st);
            let port = num(st, 65535);
            (
                json!({"k": kind, "comp": comp, "addr": a, "port": port}),
                join(st, &[d(st, comp), aw, d(st, port)]),
            )
        }
        "rid" => {
            let id = rid_id(st);
            let dir = *pick(&["send", "recv"]);
            cx.rids.push((id.clone(), dir.to_owned()));
            let numeric: Vec<u64> = cx.pts.clone();
            let n = if numeric.is_empty() || p(1, 2) { 0 } else { many(st, 1, 3) };
            let pts: Vec<u64> = (0..n).map(|_| *pick(&numeric)).collect();
            let mut o = json!({"k": kind, "id": id, "dir": dir, "pts": pts,
                "p": {"max-width": 0, "max-height": 0, "max-fps": 0, "max-fs": 0, "max-br": 0, "max-pps": 0},
                "unk": [], "dep": []});
            let mut items = Vec::new();
            let mut used: Vec<&str> = Vec::new();
            for _ in 0..u(4) {
                let k = crate::dict::pick(&["max-width", "max-height", "max-fps", "max-fs", "max-br", "max-pps", "?", "depends"]);
                if used.contains(&k) && k != "?" {
                    continue;
                }
                used.push(k);
                match k {
                    "?" => {
                        let s = format!("{}={}", pick(&["max-bpp", "x-foo", "foo"]), token_from(st, ALNUM, 6));
                        o["unk"].as_array_mut().unwrap().push(json!(s));
                        items.push(s);
                    }
                    "depends" => {
                        let l: Vec<String> = (0..len(1, 3)).map(|_| rid_id(st)).collect();
                        o["dep"] = json!(l);
                        items.push(format!("depends={}", l.join(",")));
                    }
                    _ => {
                        let n = num(st, m32);
                        o["p"][k] = json!(n);
                        items.push(format!("{k}={}", d(st, n)));
                    }
                }
            }
            if !pts.is_empty() {
                items.insert(
                    0,
                    format!(
                        "pt={}",
                        pts.iter()
                            .map(|x| d(st, *x))
                            .collect::<Vec<_>>()
                            .join(if st.ws > 0 && p(st.ws, 16) { ", " } else { "," })
                    ),
                );
            }
            let mut w = format!("{id} {dir}");
            if !items.is_empty() {
                w.push(' ');
                w.push_str(&items.join(";"));
            }
            (o, w)
        }
        "rtpmap" => {
            let pt = some_pt(st, cx);
            let nm = if p(1, 2) {
                (*pick(&["opus", "VP8", "VP9", "H264", "rtx", "red", "ulpfec", "telephone-event", "AV1"])).to_owned()
            } else {
                token(st, 10)
            };
            let freq = if p(1, 2) { *pick(&[48000, 90000, 8000]) } else { num(st, m32) };
            let chn = if p(1, 3) { Some(num(st, m32)) } else { None };
            let mut w = format!("{}{}{nm}/{}", d(st, pt), sp(st), d(st, freq));
            if let Some(c) = chn {
                w.push_str(&format!("/{}", d(st, c)));
            }
            (json!({"k": kind, "pt": pt, "name": nm, "freq": freq, "ch": chn}), w)
        }
        "rtcp" => {
            let port = num(st, 65535);
            if p(1, 3) {
                (json!({"k": kind, "port": port, "addr": null}), d(st, port))
            } else {
                let (a, w) = taddr(st);
                let mut t = vec![d(st, port)];
                t.extend(w);
                (json!({"k": kind, "port": port, "addr": a}), join(st, &t))
            }
        }
        "rtcp-fb" => {
            let pt = if p(1, 4) { json!("*") } else { json!(some_pt(st, cx)) };
            let ptw = pt.as_u64().map_or("*".to_owned(), |n| d(st, n));
            let typ = crate::dict::pick(&["nack", "ccm", "ack", "trr-int", "goog-remb", "transport-cc"]);
            let param = match typ {
                "nack" => (*pick(&["", "pli", "sli", "rpsi", "app"])).to_owned(),
                "ccm" => (*pick(&["fir", "tmmbr", "tstr", "vbcm", ""])).to_owned(),
                "ack" => (*pick(&["rpsi", "app"])).to_owned(),
                "trr-int" => d(st, num(st, m32)),
                _ => String::new(),
            };
            let extra = if !param.is_empty() && p(1, 3) {
                (0..len(1, 3)).map(|_| token(st, 8)).collect::<Vec<_>>().join(" ")
            } else {
                String::new()
            };
            let mut w = format!("{ptw} {typ}");
            if !param.is_empty() {
                w.push_str(&format!(" {param}"));
            }
            if !extra.is_empty() {
                w.push_str(&format!(" {extra}"));
            }
            (json!({"k": kind, "pt": pt, "typ": typ, "param": param, "extra": extra}), w)
        }
        "sctpmap" => {
            let port = num(st, 65535);
            let c = num(st, m32);
            (
                json!({"k": kind, "port": port, "ch": c}),
                join(st, &[d(st, port), case(st, "webrtc-datachannel"), d(st, c)]),
            )
        }
        "simulcast" => {
            let mut o = json!({"k": kind, "send": [], "recv": []});
            let mut parts = Vec::new();
            let both = p(1, 2);
            let mut dirs = vec!["send", "recv"];
            if p(1, 2) {
                dirs.swap(0, 1);
            }
            if !both {
                dirs.truncate(1);
            }
            for dir in dirs {
                let ids: Vec<String> = cx.rids.iter().filter(|r| r.1 == dir).map(|r| r.0.clone()).collect();
                if ids.is_empty() {
                    continue;
                }
                let mut alts = Vec::new();
                let mut words = Vec::new();
                for _ in 0..len(1, 4) {
                    let mut a = Vec::new();
                    let mut w = Vec::new();
                    for _ in 0..len(1, 3) {
                        let id = pick(&ids).clone();
                        let paused = p(1, 4);
                        w.push(format!("{}{id}", if paused { "~" } else { "" }));
                        a.push(json!([id, paused]));
                    }
                    alts.push(V::Array(a));
                    words.push(w.join(","));
                }
                o[dir] = V::Array(alts);
                let pre = if !st.plain && p(1, 4) { "rid=" } else { "" };
                parts.push(dir.to_owned());
                parts.push(format!("{pre}{}", words.join(";")));
            }
            if parts.is_empty() {
                // nothing to refer to: stand in with another attribute
                return attr(st, "sendrecv", cx);
            }
            (o, join(st, &parts))
        }
        "ssrc" => {
            let id = num(st, m32);
            let (a, v, w) = ssrc_attr(st);
            (json!({"k": kind, "id": id, "a": a, "v": v}), format!("{}{w}", d(st, id)))
        }
        "ssrc-group" => {
            let s = crate::dict::pick(&["FID", "DUP", "FEC", "FEC-FR", "SIM"]);
            let l: Vec<u64> = (0..len(1, 4)).map(|_| num(st, m32)).collect();
            let mut w = vec![case(st, s)];
            w.extend(l.iter().map(|x| d(st, *x)));
            let t: Vec<V> = l.iter().map(|x| json!({"k": "ssrc", "id": x, "a": null, "v": null})).collect();
            (json!({"k": kind, "sem": s, "ssrcs": t}), join(st, &w))
        }
        // flags
        _ => return (json!({ "k": kind }), name),
    };
    let colon = if !st.plain && st.ws > 0 && p(st.ws, 32) { ": " } else { ":" };
    (t, format!("{name}{colon}{v}"))
}

/// A line with its meaning, before it becomes wire text.
#[derive(Clone, Debug)]
pub struct L {
    pub typ: char,
    pub body: String,
    pub tree: V,
}

pub struct Desc {
    pub tree: V,
    /// lines[0] = session part, lines[1..] = media sections
    pub lines: Vec<Vec<L>>,
}

pub fn media_line(st: &Style, cx: &mut Cx) -> (V, String) {
    let kind = crate::dict::pick(&["audio", "video", "application"]);
    let port = if p(1, 2) { 9 } else { num(st, 65535) };
    let pc = if p(1, 5) { num(st, u64::from(u32::MAX)) } else { 0 };
    let (pname, _) = &crate::model::PROTOS[if p(1, 2) { 0 } else { us(crate::model::PROTOS.len()) }];
    let (f, w) = if kind == "application" {
        cx.fmt_strings = true;
        match u(3) {
            0 => (json!({"s": ["webrtc-datachannel"]}), vec!["webrtc-datachannel".to_owned()]),
            1 => {
                let n = num(st, 65535).to_string();
                if let Ok(v) = n.parse::<u64>() {
                    if v < 128 {
                        cx.pts.push(v);
                    }
                }
                (json!({ "s": [n] }), vec![n])
            }
            _ => {
                let l: Vec<String> = (0..len(1, 4)).map(|_| token(st, 12)).collect();
                (json!({ "s": l }), l)
            }
        }
    } else {
        let n = many(st, 1, 8);
        let l: Vec<u64> = (0..n).map(|_| good_pt(st)).collect();
        cx.pts = l.clone();
        (json!({ "i": l }), l.iter().map(|x| d(st, *x)).collect())
    };
    let mut t = vec![
        case(st, kind),
        if pc > 0 || (!st.plain && p(1, 30)) {
            format!("{}/{}", d(st, port), d(st, pc))
        } else {
            d(st, port)
        },
        case(st, pname),
    ];
    t.extend(w);
    (
        json!({"media": kind, "port": port, "pc": pc, "proto": pname, "fmt": f}),
        join(st, &t),
    )
}

pub fn origin(st: &Style) -> (V, String) {
    let (a, w) = taddr(st);
    let user = if st.secret.is_none() && p(1, 3) { "-".to_owned() } else { secret(st, TOKEN, 20) };
    let sid = num(st, u64::MAX);
    let sver = num(st, u64::MAX);
    let mut t = vec![user.clone(), d(st, sid), d(st, sver)];
    t.extend(w);
    (json!({"user": user, "sid": sid, "sver": sver, "addr": a}), join(st, &t))
}

/// A description satisfying every rule.
pub fn session(st: &Style) -> Desc {
    let mut head: Vec<L> = Vec::new();
    let mut tree = json!({"v": 0, "o": null, "s": null, "c": null, "b": [], "t": null, "a": [], "media": []});
    let n_media = u(st.max_media + 1);
    let session_conn = p(1, 2);
    let ext_session = p(1, 3);
    // media sections first so that session attributes can refer to mids
    let mut cx_all = Cx::default();
    let mut sections: Vec<Vec<L>> = Vec::new();
    let mut media_tree = Vec::new();
    for _ in 0..n_media {
        crate::ch::span(|| {
            let mut cx = Cx::default();
            let (m, w) = media_line(st, &mut cx);
            let mut ls = vec![L { typ: 'm', body: w, tree: m.clone() }];
            let mut t = json!({"m": m, "c": null, "b": [], "a": []});
            let mut rest: Vec<L> = Vec::new();
            if !session_conn || p(1, 4) {
                let (c, w) = conn(st);
                t["c"] = c.clone();
                rest.push(L { typ: 'c', body: w, tree: c });
            }
            for _ in 0..(if p(1, 3) { many(st, 1, 3) } else { 0 }) {
                let (b, w) = bw(st);
                t["b"].as_array_mut().unwrap().push(b.clone());
                rest.push(L { typ: 'b', body: w, tree: b });
            }
            let kinds: Vec<&str> = st
                .kinds
                .iter()
                .copied()
                .filter(|k| levels(k).1 && !(ext_session && *k == "extmap"))
                .collect();
            let mut attrs = Vec::new();
            if !kinds.is_empty() {
                for _ in 0..len(0, st.max_attrs) {
                    crate::ch::span(|| {
                        let k = crate::dict::pick(&kinds);
                        let (a, w) = attr(st, k, &mut cx);
                        attrs.push(L { typ: 'a', body: w, tree: a });
                        if k == "rtcp-mux-only" {
                            let (a, w) = attr(st, "rtcp-mux", &mut cx);
                            let at = us(attrs.len() + 1);
                            attrs.insert(at, L { typ: 'a', body: w, tree: a });
                        }
                    });
                }
            }
            if kinds.contains(&"simulcast") && p(1, 4) {
                crate::ch::span(|| {
                    for _ in 0..len(1, 3) {
                        let (a, w) = attr(st, "rid", &mut cx);
                        attrs.push(L { typ: 'a', body: w, tree: a });
                    }
                    for _ in 0..len(1, 2) {
                        let (a, w) = attr(st, "simulcast", &mut cx);
                        attrs.push(L { typ: 'a', body: w, tree: a });
                    }
                });
            }
            if p(1, 8) {
                // simulcast may precede the rids it names
                shuffle(&mut attrs);
            }
            t["a"] = V::Array(attrs.iter().map(|l| l.tree.clone()).collect());
            // c=, b= and a= lines may interleave; order inside one type matters
            rest.extend(attrs);
            if !st.plain && p(1, 4) {
                interleave(&mut rest);
            }
            ls.extend(rest);
            sections.push(ls);
            media_tree.push(t);
            cx_all.mids.extend(cx.mids);
        });
    }
    tree["media"] = V::Array(media_tree);
    let (o, ow) = origin(st);
    tree["o"] = o.clone();
    head.push(L { typ: 'v', body: "0".to_owned(), tree: json!(0) });
    head.push(L { typ: 'o', body: ow, tree: o });
    let name = match u(4) {
        0 => Some("-".to_owned()),
        1 => None,
        _ => Some(text(st, 10)),
    };
    let body = match &name {
        Some(s) => s.clone(),
        None => (*pick(&[" ", "", "  "])).to_owned(),
    };
    tree["s"] = json!(name);
    head.push(L { typ: 's', body, tree: tree["s"].clone() });
    let mut rest: Vec<L> = Vec::new();
    let (a, b) = (num(st, u64::MAX), num(st, u64::MAX));
    tree["t"] = json!([a, b]);
    rest.push(L { typ: 't', body: join(st, &[d(st, a), d(st, b)]), tree: json!([a, b]) });
    for _ in 0..(if p(1, 3) { many(st, 1, 3) } else { 0 }) {
        let (b, w) = bw(st);
        tree["b"].as_array_mut().unwrap().push(b.clone());
        rest.push(L { typ: 'b', body: w, tree: b });
    }
    if session_conn {
        let (c, w) = conn(st);
        tree["c"] = c.clone();
        rest.push(L { typ: 'c', body: w, tree: c });
    }
    let kinds: Vec<&str> = st
        .kinds
        .iter()
        .copied()
        .filter(|k| levels(k).0 && (ext_session || *k != "extmap"))
        .collect();
    if !kinds.is_empty() {
        for _ in 0..len(0, st.max_attrs) {
            crate::ch::span(|| {
                let k = crate::dict::pick(&kinds);
                let (a, w) = attr(st, k, &mut cx_all);
                tree["a"].as_array_mut().unwrap().push(a.clone());
                rest.push(L { typ: 'a', body: w, tree: a });
            });
        }
    }
    if !st.plain && p(1, 4) {
        interleave(&mut rest);
    }
    head.extend(rest);
    let mut lines = vec![head];
    lines.extend(sections);
    Desc { tree, lines }
}

/// Mixes the line types while keeping the order within each type.
fn interleave(v: &mut Vec<L>) {
    let mut order: Vec<char> = v.iter().map(|l| l.typ).collect();
    shuffle(&mut order);
    let mut out = Vec::with_capacity(v.len());
    for t in order {
        let i = v.iter().position(|l| l.typ == t).unwrap();
        out.push(v.remove(i));
    }
    *v = out;
}

/// Wire text of one line.
pub fn line_text(st: &Style, l: &L) -> String {
    let t = if st.case > 0 && p(st.case, 64) { l.typ.to_ascii_uppercase() } else { l.typ };
    if st.ws > 0 && p(st.ws, 64) {
        match u(4) {
            0 => format!(" {t}={}", l.body),
            1 => format!("{t} ={}", l.body),
            2 => format!("{t}= {}", l.body),
            _ => format!("{t}={} ", l.body),
        }
    } else {
        format!("{t}={}", l.body)
    }
}

pub fn wire_lines(st: &Style, dsc: &Desc) -> Vec<String> {
    dsc.lines.iter().flatten().map(|l| line_text(st, l)).collect()
}

pub fn wire(lines: &[String], eol: &str) -> String {
    let mut s = String::new();
    for l in lines {
        s.push_str(l);
        s.push_str(eol);
    }
    s
}

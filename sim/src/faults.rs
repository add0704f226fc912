//! What a hostile or broken transport does to a description on its way.
use crate::ch::{len, p, pick, range, u, us};
use crate::gen::{self, Cx, Style};
use crate::run;

pub const NUMS: [&str; 46] = [
    "0", "1", "2", "3", "18", "19", "20", "31", "32", "63", "64", "80", "95", "96", "100", "101", "126", "127", "128",
    "129", "255", "256", "257", "65534", "65535", "65536", "65537", "16777215", "16777216", "2147483647",
    "2147483648", "4294967295", "4294967296", "9999999999", "10000000000", "18446744073709551615",
    "18446744073709551616", "99999999999999999999999", "-1", "+5", "1.5", "007", "1e3", "nan", "inf", "-0",
];
pub const WORDS: [&str; 60] = [
    "*", "-", "~", ",", ";", "=", ":", "/", "[", "]", "[]", "send", "recv", "IN", "IP4", "IP6", "ip4", "UDP", "tcp",
    "typ", "host", "raddr", "rport", "tcptype", "generation", "ufrag", "network-cost", "127.0.0.1", "::1", "::",
    "1.2.3", "256.1.1.1", "a..b", "example.com", "xn--", "%41", "sha-256", "AA:BB", "[x=1,y=2]", "[x=[1:2],y=[3,4]]",
    "sar=1.0", "par=[1-2]", "q=nan", "rid=a", "pt=96", "depends=a,b", "nack", "pli", "trr-int", "apt=96", "rtx-time=1",
    "0-15", "100/101", "profile-level-id=zz", "\u{a0}", "\u{2028}", "\u{4e2d}", "\u{130}", "\u{0}", "\u{feff}",
];
pub const BAD_LINES: [&str; 34] = [
    "a=", "a=:", "a=:x", "=", "==", "v=", "v=1", "v=0 1", "o=", "s=", "c=", "c=IN IP4", "c=IN IP4 1.2.3.4/", "t=", "t=0",
    "t=0 0 0", "b=", "b=AS", "b=AS:", "b=AS:x", "b=:1", "m=", "m=audio", "m=audio 9 RTP/AVP", "e=a@b", "i=info",
    "k=clear", "p=+1", "r=7d", "u=http://x", "z=0 0", "x=1", "vv=0", "garbage",
];
pub const UNSUPPORTED: [&str; 16] = [
    "a=unknown", "a=unknown:value", "a=x-foo:bar baz", "a=charset:utf-8", "m=message 9 TCP/MSRP *",
    "m=audio 9 RTP/FOO 0", "a=group:FOO 1", "a=ssrc-group:FOO 1", "a=fingerprint:md5 AA:BB", "a=fmtp:96",
    "a=rtcp-fb:96 foo", "a=rtcp-fb:96 ccm foo", "a=rtcp-fb:96 ack", "a=rtcp-fb:96 nack foo", "a=crypto:1 AES",
    "a=candidate:1 1 udp 1 1.2.3.4 5 typ host odd",
];

/// Values on both sides of every numeric limit of the accepted subset.
pub const LIMITS: [&str; 40] = [
    "0", "1", "2", "3", "4", "14", "15", "16", "17", "31", "32", "33", "63", "64", "65", "99", "100", "101", "126", "127",
    "128", "254", "255", "256", "257", "999", "1000", "1001", "65534", "65535", "65536", "4294967295", "4294967296",
    "9999999999", "10000000000", "18446744073709551615", "18446744073709551616", "0.9999", "1.0001", "10.0",
];
/// Every word some part of the grammar assigns a meaning to.
pub const ENUMS: [&str; 96] = [
    "udp", "tcp", "host", "srflx", "prflx", "relay", "active", "passive", "so", "actpass", "holdconn", "sendonly", "recvonly",
    "sendrecv", "inactive", "send", "recv", "ack", "nack", "ccm", "trr-int", "goog-remb", "transport-cc", "pli", "sli", "rpsi",
    "app", "fir", "tmmbr", "tstr", "vbcm", "LS", "FID", "SRF", "ANAT", "FEC", "FEC-FR", "DDP", "BUNDLE", "DUP", "SIM", "client",
    "server", "sha-1", "sha-224", "sha-256", "sha-384", "sha-512", "md5", "IP4", "IP6", "IN", "AS", "CT", "TIAS", "audio",
    "video", "application", "message", "RTP", "AVP", "AVPF", "SAVP", "SAVPF", "UDP", "TCP", "TLS", "DTLS", "SCTP",
    "webrtc-datachannel", "cname", "msid", "mslabel", "label", "WMS", "max-width", "max-height", "max-fps", "max-fs", "max-br",
    "max-pps", "depends", "pt", "x", "y", "sar", "par", "q", "apt", "rtx-time", "packetization-mode", "profile-level-id",
    "stereo", "useinbandfec", "minptime", "tier",
];
pub const HEX: [&str; 10] = ["0", "f", "ff", "100", "1000", "42000a", "ffffff", "1000000", "ffffffff", "100000000"];
pub const FLAGS: [&str; 12] = [
    "bundle-only", "end-of-candidates", "extmap-allow-mixed", "ice-lite", "ice-mismatch", "inactive", "recvonly",
    "rtcp-mux", "rtcp-mux-only", "rtcp-rsize", "sendonly", "sendrecv",
];

fn is_sep(c: char) -> bool {
    " :/;,=[]~-".contains(c)
}
/// Byte ranges of the tokens of a line.
fn tokens(l: &str) -> Vec<(usize, usize)> {
    let mut v = Vec::new();
    let mut start = 0;
    for (i, c) in l.char_indices() {
        if is_sep(c) {
            if i > start {
                v.push((start, i));
            }
            start = i + c.len_utf8();
        }
    }
    if l.len() > start {
        v.push((start, l.len()));
    }
    v
}

fn any_token(lines: &[String]) -> String {
    let l = pick(lines);
    let t = tokens(l);
    if t.is_empty() {
        return "x".to_owned();
    }
    let (a, b) = *pick(&t);
    l[a..b].to_owned()
}

/// Punctuation, any printable ASCII character, or one from elsewhere in Unicode.
pub fn odd_char() -> char {
    if p(1, 2) {
        *pick(b"\"\"'~*+-_/:;,.=<>()[]{}#%&!?|@$^`\\") as char
    } else if p(3, 4) {
        (b'!' + u(94) as u8) as char
    } else {
        *pick(&['\u{e9}', '\u{df}', '\u{130}', '\u{fc}', '\u{4e2d}', '\u{1f600}', '\u{a0}', '\u{85}', '\u{200b}', '\u{301}', '\u{1}', '\u{7f}'])
    }
}

/// Odd characters where the parts of a line meet.
pub fn oddity(l: &str) -> String {
    let mut l = l.to_owned();
    for _ in 0..1 + u(4) {
        let t = tokens(&l);
        if t.is_empty() {
            return l;
        }
        let (a, b) = *pick(&t);
        // the parts of a token
        let mut at = vec![a, b];
        for (i, c) in l[a..b].char_indices() {
            if !c.is_alphanumeric() {
                at.push(a + i);
                at.push(a + i + c.len_utf8());
            }
        }
        l.insert(*pick(&at), odd_char());
    }
    run::hit("fault.odd-character");
    l
}

/// Numbers of a text become huge, alone or as the other end of a range.
pub fn inflate(l: &str, odds: u64) -> String {
    let mut o = String::new();
    let mut at = 0;
    for (a, b) in tokens(l) {
        o.push_str(&l[at..a]);
        at = b;
        let tok = &l[a..b];
        if tok.bytes().all(|c| c.is_ascii_digit()) && p(odds, 16) {
            let big = *pick(&["65535", "1000000", "99999999", "2147483647", "4294967295", "9999999999", "18446744073709551615"]);
            match u(6) {
                0 => o.push_str(&format!("{tok}{}{big}", pick(&["-", "/", ":", ",", ";"]))),
                _ => o.push_str(big),
            }
            run::hit("fault.number-inflated");
        } else {
            o.push_str(tok);
        }
    }
    o.push_str(&l[at..]);
    o
}

/// The same text twice, some of its numbers small in one and large in the other, with as many digits.
pub fn two_sizes(lines: &[String], changes: u64) -> (Vec<String>, Vec<String>) {
    let (mut a, mut b) = (lines.to_vec(), lines.to_vec());
    let mut at: Vec<(usize, usize, usize)> = Vec::new();
    for (i, l) in lines.iter().enumerate() {
        for (x, y) in tokens(l) {
            // not an exponent: it would decide how many digits the number has
            let exponent = l[..x].ends_with("e-") || l[..x].ends_with("E-");
            if y - x >= 2 && l[x..y].bytes().all(|c| c.is_ascii_digit()) && !exponent {
                at.push((i, x, y));
            }
        }
    }
    if at.is_empty() {
        return (a, b);
    }
    for _ in 0..changes {
        let (i, x, y) = *pick(&at);
        let n = y - x;
        let large = match n {
            2 => "99",
            3 => *pick(&["127", "255", "999"]),
            5 => "65535",
            10 => *pick(&["4294967295", "2147483647", "9999999999"]),
            20 => "18446744073709551615",
            _ => "",
        };
        let large = if large.is_empty() { "9".repeat(n) } else { large.to_owned() };
        a[i].replace_range(x..y, &format!("1{}", "0".repeat(n - 1)));
        b[i].replace_range(x..y, &large);
    }
    run::hit("fault.number-inflated");
    (a, b)
}

/// The parts a line is made of, lost, repeated, exchanged, emptied, set to what
/// is usually left out, or joined by parts of another line.
pub fn parts_fault(l: &str, all: &[String]) -> String {
    let body = l.find(':').or_else(|| l.find('=')).map_or(0, |i| i + 1);
    let seps: Vec<char> = " ;,/=:-".chars().filter(|c| l[body..].contains(*c)).collect();
    if seps.is_empty() {
        return l.to_owned();
    }
    let sep = if seps.contains(&';') && p(1, 2) { ';' } else { *pick(&seps) };
    let (head, tail) = l.split_at(body);
    let mut v: Vec<String> = tail.split(sep).map(str::to_owned).collect();
    for _ in 0..1 + u(3) {
        if v.is_empty() {
            break;
        }
        let i = us(v.len());
        match u(8) {
            0 => {
                let x = v.remove(i);
                v.insert(us(v.len() + 1), x);
            }
            1 => {
                let x = v[i].clone();
                v.insert(us(v.len() + 1), x);
            }
            2 => {
                v.remove(i);
            }
            3 => v[i] = String::new(),
            4 => {
                // a part of another line, of the same kind if there is one
                let same: Vec<&String> = all.iter().filter(|x| x.starts_with(head)).collect();
                let from = if same.is_empty() || p(1, 3) { pick(all).as_str() } else { pick(&same).as_str() };
                let parts: Vec<&str> = from.split(sep).collect();
                v.insert(i, (*pick(&parts)).to_owned());
            }
            5 => {
                // name=value parts of any kind
                let x = format!("{}={}", pick(&ENUMS), pick(&LIMITS));
                v.insert(us(v.len() + 1), x);
            }
            6 => {
                // the value becomes the one that means absence
                let k = v[i].find('=').map_or(0, |k| k + 1);
                let d = *pick(&["0", "0", "1", "*", "-", "42000a", "48000", "5", ""]);
                v[i].replace_range(k.., d);
            }
            _ => {
                let j = us(v.len());
                v.swap(i, j);
            }
        }
    }
    run::hit("fault.parts-rearranged");
    format!("{head}{}", v.join(&sep.to_string()))
}

pub fn any_word() -> &'static str {
    crate::dict::raw().unwrap_or_else(|| pick(&WORDS))
}

/// An address or host name of the line is spelled in a way only some readers take.
pub const ADDRS: [&str; 34] = [
    "[::1]", "[::ffff:1.2.3.4]", "[1.2.3.4]", "[::1", "::1]", "0x7f.1", "127.1", "1", "0", "4294967295", "4294967296",
    "0177.0.0.1", "1.2.3.4.", "1.2.3.04", "1.2.3.256", "1.2.3.4:5", "::ffff:1.2.3.4", "::ffff:102:304", "fe80::1%eth0", ":::",
    "1::2::3", "12345::", "EXAMPLE.com.", "example..com", "a_b.c", "*.example", "\u{ff41}.com", "xn--nxasmq6b", "xn--a",
    "\u{df}.de", "a%2eb", "a@b", "\u{130}.com", "a-.com",
];
pub fn address_fault(l: &str) -> String {
    let words: Vec<(usize, &str)> = l
        .split_whitespace()
        .flat_map(|w| w.split('/'))
        .map(|w| (w.as_ptr() as usize - l.as_ptr() as usize, w))
        .filter(|(_, w)| w.parse::<std::net::IpAddr>().is_ok() || w.contains('.'))
        .collect();
    if words.is_empty() {
        return limit_fault(l);
    }
    let (a, w) = *pick(&words);
    run::hit("fault.address-spelling");
    format!("{}{}{}", &l[..a], pick(&ADDRS), &l[a + w.len()..])
}

/// A number of the line ends up at or beyond some limit, or is spelled in a way
/// only some readers take.
pub fn limit_fault(l: &str) -> String {
    let body = l.find(':').or_else(|| l.find('=')).map_or(0, |i| i + 1);
    let nums: Vec<(usize, usize)> = tokens(l)
        .into_iter()
        .filter(|(a, b)| *a >= body && l[*a..*b].bytes().all(|c| c.is_ascii_hexdigit() || c == b'.'))
        .collect();
    if nums.is_empty() {
        return format!("{l}{}", pick(&LIMITS));
    }
    let (a, b) = *pick(&nums);
    let rep = match u(8) {
        0 => (*pick(&HEX)).to_owned(),
        1 => (*pick(&["NaN", "inf", "-inf", "-0", "0.0", "1e400", "1e-400", ".", "0x10", "+1", "-1", "\u{663}", ""])).to_owned(),
        2 => match l[a..b].parse::<u64>() {
            Ok(n) => n.wrapping_add(1).to_string(),
            Err(_) => (*pick(&HEX)).to_owned(),
        },
        3 => match crate::dict::int(u64::MAX) {
            Some(n) => n.to_string(),
            None => (*pick(&NUMS)).to_owned(),
        },
        _ => (*pick(&LIMITS)).to_owned(),
    };
    run::hit("fault.number-at-limit");
    format!("{}{}{}", &l[..a], rep, &l[b..])
}

/// One fault on one token of one line.
pub fn token_fault(l: &str, all: &[String]) -> String {
    let t = tokens(l);
    if t.is_empty() {
        return (*pick(&WORDS)).to_owned();
    }
    let (a, b) = t[us(t.len())];
    let tok = &l[a..b];
    let rep = match u(16) {
        14 | 15 => {
            // one character inserted somewhere in the token
            let mut k = a + us(b - a + 1);
            while !l.is_char_boundary(k) {
                k -= 1;
            }
            return format!("{}{}{}", &l[..k], odd_char(), &l[k..]);
        }
        12 | 13 => (*pick(&ENUMS)).to_owned(),
        9 => {
            // just at or over some limit
            match tok.parse::<u128>() {
                Ok(_) => (*pick(&LIMITS)).to_owned(),
                Err(_) if tok.bytes().all(|c| c.is_ascii_hexdigit()) => (*pick(&HEX)).to_owned(),
                Err(_) => (*pick(&LIMITS)).to_owned(),
            }
        }
        10 | 11 => {
            // equal or exchanged with another token of the same line
            let (c, d) = t[us(t.len())];
            let other = &l[c..d];
            if p(1, 3) && (b <= c || d <= a) {
                let ((a, b), (c, d)) = if a < c { ((a, b), (c, d)) } else { ((c, d), (a, b)) };
                return format!("{}{}{}{}{}", &l[..a], &l[c..d], &l[b..c], &l[a..b], &l[d..]);
            }
            other.to_owned()
        }
        0 => match crate::dict::int(u64::MAX) {
            Some(n) => n.to_string(),
            None => (*pick(&NUMS)).to_owned(),
        },
        1 => any_token(all),
        2 => String::new(),
        3 => any_word().to_owned(),
        4 => tok.to_uppercase(),
        5 => format!("{tok}{}", any_word()),
        6 => format!("{}{tok}", any_word()),
        7 => match tok.parse::<u128>() {
            Ok(n) => match u(3) {
                0 => (n + 1).to_string(),
                1 => n.saturating_sub(1).to_string(),
                _ => format!("{n}0000"),
            },
            Err(_) => format!("{tok}{tok}"),
        },
        _ => {
            // separator after the token changes
            let end = l[b..].chars().next().map_or(b, |c| b + c.len_utf8());
            return format!("{}{}{}", &l[..b], pick(&[" ", "  ", ":", "/", ";", ",", "=", "", "\t"]), &l[end..]);
        }
    };
    format!("{}{}{}", &l[..a], rep, &l[b..])
}

/// A fault at the granularity of lines. `other` is a second message in flight.
pub fn line_fault(st: &Style, v: &mut Vec<String>, other: &[String]) {
    if v.is_empty() {
        v.push((*pick(&BAD_LINES)).to_owned());
        return;
    }
    let i = us(v.len());
    match u(23) {
        22 => {
            if p(7, 8) {
                return line_fault(st, v, other);
            }
            // a babbling sender
            let which = u(3);
            for _ in 0..range(8, *pick(&[20, 60, 300])) {
                let l = if which == 0 || which == 2 && p(1, 2) { *pick(&BAD_LINES) } else { *pick(&UNSUPPORTED) };
                let at = if p(1, 2) { v.len() } else { us(v.len() + 1) };
                v.insert(at, l.to_owned());
            }
            run::hit("fault.babble");
        }
        21 => {
            // a flag with a value, or an attribute without the value it needs
            let at = us(v.len() + 1);
            if p(2, 3) {
                let val = *pick(&["x", "0", " ", "", "\u{a0}", ":", "1 2", "send"]);
                v.insert(at, format!("a={}:{val}", pick(&FLAGS)));
            } else {
                let k = crate::dict::pick(&gen::KINDS);
                v.insert(at, format!("a={k}{}", pick(&["", ":", ": ", ":  "])));
            }
            run::hit("fault.attribute-value-presence");
        }
        0 => {
            v.remove(i);
            run::hit("fault.line-lost");
        }
        1 => {
            let l = v[i].clone();
            let j = us(v.len() + 1);
            v.insert(j, l);
            run::hit("fault.line-duplicated");
        }
        2 => {
            let l = v.remove(i);
            let j = us(v.len() + 1);
            v.insert(j, l);
            run::hit("fault.line-moved");
        }
        3 => {
            let keep = us(v.len() + 1);
            v.truncate(keep);
            run::hit("fault.tail-lost");
        }
        4 => {
            // tail of another message
            v.truncate(i);
            let j = us(other.len() + 1);
            v.extend_from_slice(&other[j..]);
            run::hit("fault.spliced-with-other-message");
        }
        5 => {
            if i + 1 < v.len() {
                let n = v.remove(i + 1);
                v[i].push_str(&n);
                run::hit("fault.newline-lost");
            }
        }
        6 => {
            let l = v[i].clone();
            let mut k = us(l.len() + 1);
            while !l.is_char_boundary(k) {
                k -= 1;
            }
            v[i] = l[..k].to_owned();
            v.insert(i + 1, l[k..].to_owned());
            run::hit("fault.newline-inserted");
        }
        7 => {
            for _ in 0..if p(1, 4) { len(1, 4) } else { 1 } {
                v.insert(i, (*pick(&BLANKS)).to_owned());
                run::hit("fault.blank-line");
            }
        }
        8 => {
            let l = (*pick(&UNSUPPORTED)).to_owned();
            v.insert(i, l);
            run::hit("fault.unsupported-line-inserted");
        }
        9 => {
            let l = (*pick(&BAD_LINES)).to_owned();
            v.insert(i, l);
            run::hit("fault.malformed-line-inserted");
        }
        10 => {
            if !other.is_empty() {
                let l = pick(other).clone();
                v.insert(i, l);
                run::hit("fault.stray-line-of-other-message");
            }
        }
        11 => {
            // an attribute of any kind, wherever it lands
            let k = crate::dict::pick(&gen::KINDS);
            let (_, w) = gen::attr(st, k, &mut Cx::default());
            v.insert(us(v.len() + 1), format!("a={w}"));
            run::hit("fault.stray-attribute");
        }
        12 => {
            // a whole kind of line disappears
            let pre: String = v[i].chars().take_while(|c| *c != ':' && *c != ' ').collect();
            v.retain(|l| !l.starts_with(&pre));
            run::hit("fault.line-kind-lost");
        }
        13 => {
            let l = parts_fault(&v[i], v);
            v[i] = l;
        }
        12..=16 => {
            let l = token_fault(&v[i], v);
            v[i] = l;
            run::hit("fault.token-corrupted");
        }
        _ => rule_fault(st, v),
    }
}

/// A sender that gets the rules between lines wrong (or narrowly right).
fn rule_fault(st: &Style, v: &mut Vec<String>) {
    let is_m = |l: &String| l.trim_start().starts_with("m=") || l.trim_start().starts_with("M=");
    let ms: Vec<usize> = (0..v.len()).filter(|i| is_m(&v[*i])).collect();
    if ms.is_empty() {
        v.push("m=video 9 UDP/TLS/RTP/SAVPF 96 97".to_owned());
        run::hit("fault.rule.section-added");
        return;
    }
    let k = us(ms.len());
    let (a, b) = (ms[k], ms.get(k + 1).copied().unwrap_or(v.len()));
    let within = |v: &Vec<String>| a + 1 + us(b.min(v.len()) - a);
    let fmts: Vec<String> = v[a].split_whitespace().skip(3).map(str::to_owned).collect();
    match u(9) {
        0 => {
            let at = within(v);
            v.insert(at, format!("a=extmap:{} urn:x", range(1, 14)));
            if p(1, 2) {
                v.insert(ms[0], format!("a=extmap:{} urn:y", range(1, 14)));
            }
            run::hit("fault.rule.extmap");
        }
        1 => {
            let at = within(v);
            v.insert(at, "a=rtcp-mux-only".to_owned());
            if p(1, 2) {
                // possibly in another section
                let at = if p(1, 3) { ms[0] + 1 } else { at + us(2) };
                v.insert(at, "a=rtcp-mux".to_owned());
            }
            run::hit("fault.rule.rtcp-mux-only");
        }
        2 | 3 => {
            let dir = *pick(&["send", "recv"]);
            let ids = ["1", "2", "a"];
            let n = range(1, 3) as usize;
            let mut at = within(v);
            for id in &ids[..n] {
                let d = if p(1, 6) { if dir == "send" { "recv" } else { "send" } } else { dir };
                let pt = match u(4) {
                    0 if !fmts.is_empty() => format!(" pt={}", pick(&fmts)),
                    1 => format!(" pt={}", gen::good_pt(st)),
                    2 if !fmts.is_empty() => format!(" pt={},{}", pick(&fmts), gen::good_pt(st)),
                    _ => String::new(),
                };
                v.insert(at, format!("a=rid:{id} {d}{pt}"));
                at += us(2);
            }
            for _ in 0..range(0, 2) {
                let list = |_: ()| -> String {
                    (0..range(1, 3))
                        .map(|_| {
                            let id = ids[us(if p(1, 8) { 3 } else { n })];
                            format!("{}{id}", if p(1, 4) { "~" } else { "" })
                        })
                        .collect::<Vec<_>>()
                        .join(pick(&[";", ","]))
                };
                let mut l = format!("a=simulcast:{dir} {}", list(()));
                if p(1, 6) {
                    l.push_str(&format!(" {} {}", if dir == "send" { "recv" } else { "send" }, list(())));
                }
                let at = within(v);
                v.insert(at, l);
            }
            run::hit("fault.rule.rid-simulcast");
        }
        4 => {
            // connection data only where chance leaves it
            let keep = us(v.len());
            let mut i = 0;
            v.retain(|l| {
                i += 1;
                i - 1 == keep || !l.trim_start().to_lowercase().starts_with("c=")
            });
            run::hit("fault.rule.connection");
        }
        5 => {
            let at = within(v);
            let l = *pick(&["c=IN IP4 10.0.0.1", "t=0 0", "b=AS:1", "s=x", "v=0", "o=- 1 1 IN IP4 1.1.1.1"]);
            v.insert(at, l.to_owned());
            run::hit("fault.rule.line-in-section");
        }
        6 => {
            let mut t: Vec<String> = v[a].split_whitespace().map(str::to_owned).collect();
            if t.len() > 3 {
                let i = 3 + us(t.len() - 3);
                if p(1, 2) {
                    t.remove(i);
                } else {
                    t[i] = gen::good_pt(st).to_string();
                }
                v[a] = t.join(" ");
            }
            run::hit("fault.rule.formats");
        }
        7 => {
            let sec: Vec<String> = v[a..b].to_vec();
            if p(1, 2) {
                v.drain(a..b);
            }
            let at = ms[us(ms.len())].min(v.len());
            for (i, l) in sec.into_iter().enumerate() {
                v.insert(at + i, l);
            }
            run::hit("fault.rule.section-moved");
        }
        _ => {
            let n = us(4.min(v.len()));
            v.drain(..n);
            run::hit("fault.rule.head-lost");
        }
    }
}

/// A fault at the granularity of bytes.
pub fn byte_fault(b: &mut Vec<u8>, other: &[u8]) {
    if b.is_empty() {
        b.extend_from_slice(other);
        return;
    }
    let i = us(b.len());
    match u(8) {
        0 => {
            b[i] ^= 1 << u(8);
            run::hit("fault.bit-flip");
        }
        1 => {
            b[i] = u(256) as u8;
            run::hit("fault.byte-replaced");
        }
        2 => {
            b.remove(i);
            run::hit("fault.byte-lost");
        }
        3 => {
            b.insert(i, *pick(b"\r\n =:/;,[]~0aA\0\xff\xc3\xe2"));
            run::hit("fault.byte-inserted");
        }
        4 => {
            b.truncate(i);
            run::hit("fault.truncated");
        }
        5 => {
            // lost fragment
            let j = (i + range(1, 200) as usize).min(b.len());
            b.drain(i..j);
            run::hit("fault.fragment-lost");
        }
        6 => {
            // duplicated or misplaced fragment
            let j = (i + range(1, 200) as usize).min(b.len());
            let f: Vec<u8> = b[i..j].to_vec();
            if p(1, 2) {
                b.drain(i..j);
                run::hit("fault.fragment-misplaced");
            } else {
                run::hit("fault.fragment-duplicated");
            }
            let k = us(b.len() + 1);
            b.splice(k..k, f);
        }
        _ => {
            if !other.is_empty() {
                let j = us(other.len());
                b.truncate(i);
                b.extend_from_slice(&other[j..]);
                run::hit("fault.fragment-of-other-message");
            }
        }
    }
}

/// Rewriting a transport is entitled to do: line ends, blank lines, blanks at line ends.
pub fn benign(lines: &[String], odds: u64) -> String {
    let eol = *pick(&["\r\n", "\n", "\r\n", "\r\r\n"]);
    let mut s = String::new();
    if p(odds, 64) {
        s.push_str(eol);
    }
    let n = lines.len();
    for (i, l) in lines.iter().enumerate() {
        s.push_str(l);
        if p(odds, 256) {
            s.push_str(pick(&[" ", "\t", "  "]));
            run::hit("fault.trailing-blank-added");
        }
        if i + 1 == n && p(odds, 64) {
            run::hit("fault.last-line-end-lost");
            break;
        }
        if p(odds, 256) {
            s.push_str(if eol == "\n" { "\r\n" } else { "\n" });
            run::hit("fault.line-end-rewritten");
        } else {
            s.push_str(eol);
        }
        if p(odds, 256) {
            s.push_str(eol);
            run::hit("fault.blank-line-added");
        }
    }
    if eol != "\r\n" {
        run::hit("fault.line-end-rewritten");
    }
    s
}

/// What a blank line can be made of.
const BLANKS: [&str; 11] =
    ["", " ", "\t", "   ", "\u{a0}", "\r", "\r\r", " \r", "\u{b}\u{c}", "\u{85}", "\u{2028}"];

/// Blank lines pile up somewhere, so that line numbers outgrow what they are
/// often kept in.
pub fn padded(text: &str) -> String {
    let n = crate::dict::length(2, 70_000).unwrap_or(if p(1, 6) { 65_510 } else { 230 } + us(35));
    let starts: Vec<usize> =
        std::iter::once(0).chain(text.match_indices('\n').map(|(i, _)| i + 1)).collect();
    let at = *pick(&starts);
    let eol = *pick(&["\r\n", "\n", "\r\r\n", " \n"]);
    run::hit(if n > 60_000 { "fault.64k-blank-lines" } else { "fault.256-blank-lines" });
    format!("{}{}{}", &text[..at], eol.repeat(n), &text[at..])
}

pub fn damage(st: &Style, lines: &[String], other: &[String], bytes_too: bool) -> String {
    let mut v = lines.to_vec();
    let eol = *pick(&["\r\n", "\r\n", "\r\n", "\n", "\n", "\r\r\n"]);
    let n = match u(4) {
        0 | 1 => 1,
        2 => len(1, 4),
        _ => len(0, 12),
    };
    let mode = if bytes_too { u(3) } else { 0 };
    if mode == 0 || mode == 2 {
        for _ in 0..n {
            crate::ch::span(|| line_fault(st, &mut v, other));
        }
    }
    let mut s = gen::wire(&v, eol);
    if mode >= 1 {
        let mut b = s.into_bytes();
        let o = gen::wire(other, eol).into_bytes();
        for _ in 0..n {
            crate::ch::span(|| byte_fault(&mut b, &o));
        }
        s = String::from_utf8_lossy(&b).into_owned();
    }
    s
}

//! C11: memory used on behalf of a peer stays proportional to what the peer sent.
use super::*;
use crate::alloc::Usage;
use crate::call::lib_u;
use crate::ch::{pick, range, us};
use crate::faults;
use webrtc_sdp::anonymizer::{AnonymizingClone, StatefulSdpAnonymizer};

/// Bytes per input byte / per line / flat.
pub const PEAK: (u64, u64, u64) = (300, 16_000, 200_000);
pub const TOTAL: (u64, u64, u64) = (1600, 48_000, 800_000);

fn bound(k: (u64, u64, u64), bytes: u64, lines: u64) -> u64 {
    k.0 * bytes + k.1 * lines + k.2
}

fn judge(what: &str, us: Usage, bytes: usize, lines: usize) -> Res<()> {
    let (b, l) = (bytes as u64, lines as u64);
    let f = |x: u64, k: (u64, u64, u64)| x * 1000 / bound(k, b, l);
    // worst observed shares, in per mille of the bound
    run::max(&format!("worst-permille.peak.{what}"), f(us.peak, PEAK));
    run::max(&format!("worst-permille.total.{what}"), f(us.total, TOTAL));
    if us.peak > bound(PEAK, b, l) {
        return fail(
            &format!("peak:{what}"),
            format!("{what} of {b} bytes in {l} lines held {} bytes at once (bound {})", us.peak, bound(PEAK, b, l)),
        );
    }
    if us.total > bound(TOTAL, b, l) {
        return fail(
            &format!("total:{what}"),
            format!("{what} of {b} bytes in {l} lines allocated {} bytes in all (bound {})", us.total, bound(TOTAL, b, l)),
        );
    }
    Ok(())
}

pub const HEAD: [&str; 5] = ["v=0", "o=- 1 2 IN IP4 127.0.0.1", "s=-", "t=0 0", "c=IN IP4 127.0.0.1"];

/// One line that is long in a way its grammar allows (or nearly allows).
fn long_line(n: usize) -> String {
    let k = u(24);
    let junk = *pick(&["a=", "=", ":", " ", "[", "]", "\u{130}", "a=x:"]);
    long_line_of(k, junk, n)
}
pub fn long_line_of(kind: u64, junk: &str, n: usize) -> String {
    let rep = |s: &str, sep: &str| {
        let k = n / (s.len() + sep.len()).max(1);
        vec![s; k.max(1)].join(sep)
    };
    match kind {
        0 => format!("a=imageattr:* send {}", rep("[x=1,y=2]", " ")),
        1 => format!("a=imageattr:97 send [x=[{}],y=1]", rep("1", ",")),
        2 => format!("a=imageattr:97 send * recv {}", rep("[x=[1:2:3],y=[1,2],sar=[1.1-1.3],q=0.5]", " ")),
        3 => format!("a=fmtp:96 {}", rep("x=1", ";")),
        4 => format!("a=fmtp:96 {}", rep("max-fs=1", ";")),
        5 => format!("a=fmtp:96 {}", rep("96", "/")),
        6 => format!("a=fmtp:96 {}", rep("1", ",")),
        7 => format!("a=rid:a send {}", rep("x=1", ";")),
        8 => format!("a=rid:a send pt={}", rep("96", ",")),
        9 => format!("a=rid:a send depends={}", rep("b", ",")),
        10 => format!("a=simulcast:send {}", rep("a", ";")),
        11 => format!("a=simulcast:send {}", rep("~a", ",")),
        12 => format!("a=candidate:1 1 udp 1 1.2.3.4 5 typ host {}", rep("x y", " ")),
        13 => format!("a=group:BUNDLE {}", rep("a", " ")),
        14 => format!("a=ssrc-group:FID {}", rep("1", " ")),
        15 => format!("a=msid-semantic:WMS {}", rep("a", " ")),
        16 => format!("a=ice-options:{}", rep("a", " ")),
        17 => format!("a=extmap:1 urn:x {}", rep("a", " ")),
        18 => format!("m=application 9 DTLS/SCTP {}", rep("1", " ")),
        19 => format!("m=audio 9 RTP/AVP {}", rep("0", " ")),
        20 => format!("a=identity:{}", rep("abcdefgh", "")),
        21 => format!("a=fingerprint:sha-256 {}", rep("AA", ":")),
        22 => format!("a={}", rep("[", " ")),
        _ => rep(junk, ""),
    }
}

/// What the stages of handling one text cost; None when it is rejected.
fn stages(text: &str, strict: bool) -> Res<Vec<(&'static str, Usage)>> {
    let mut v = Vec::new();
    let (r, x) = lib_u("parse_sdp", || webrtc_sdp::parse_sdp(text, strict))?;
    v.push(("parsing", x));
    if let Ok(s) = r {
        v.push(("rendering", lib_u("to_string", || s.to_string())?.1));
        let mask = || {
            let mut a = StatefulSdpAnonymizer::new();
            s.masked_clone(&mut a)
        };
        v.push(("masking", lib_u("masked_clone", mask)?.1));
        v.push(("cloning", lib_u("clone", || s.clone())?.1));
    }
    Ok(v)
}

/// The same text with one part repeated k and 4k times.
fn scaling() -> Res<()> {
    let st = gen::Style::draw();
    let kind = u(3);
    let (lk, junk) = (u(24), *pick(&["a=", "=", ":", " ", "[", "]", "\u{130}", "a=x:"]));
    let unit: Vec<String> = match kind {
        0 => Vec::new(),
        1 => {
            let m = make(&st);
            let at = m.lines.iter().position(|l| l.trim_start().to_lowercase().starts_with('m')).unwrap_or(m.lines.len());
            m.lines[at..].to_vec()
        }
        _ => {
            let k = crate::dict::pick(&gen::KINDS);
            let mut v: Vec<String> =
                (0..range(1, 4)).map(|_| format!("a={}", gen::attr(&st, k, &mut gen::Cx::with_rids()).1)).collect();
            if p(1, 3) {
                v.push((*pick(&faults::UNSUPPORTED)).to_owned());
            }
            if p(1, 4) {
                v.push((*pick(&faults::BAD_LINES)).to_owned());
            }
            v
        }
    };
    let base = range(50, 400) as usize;
    let build = |k: usize| {
        let mut l: Vec<String> = HEAD.iter().map(|s| s.to_string()).collect();
        if kind != 1 {
            l.push("m=audio 9 RTP/AVP 0 96".to_owned());
        }
        if kind == 0 {
            l.push(long_line_of(lk, junk, 40 * k));
        } else {
            let n = (40 * k / unit.iter().map(|s| s.len() + 2).sum::<usize>().max(1)).max(8 * k / 50);
            for _ in 0..n {
                l.extend(unit.iter().cloned());
            }
        }
        gen::wire(&l, "\r\n")
    };
    let (small, large) = (build(base), build(4 * base));
    let strict = strict();
    let (a, b) = (stages(&small, strict)?, stages(&large, strict)?);
    run::ev("scale", || format!("{} and {} bytes: {}", small.len(), large.len(), show(&small)));
    run::shape(&format!("scaling{kind}/{lk}/{}", large.len()));
    run::hit("shape.scaling");
    run::nontrivial();
    run::add("probe.bytes-read", (small.len() + large.len()) as u64);
    let f = (large.len() as u64).div_ceil(small.len().max(1) as u64).max(4);
    for ((what, x), (w2, y)) in a.iter().zip(&b) {
        if what != w2 {
            break;
        }
        for (which, x, y) in [("total", x.total, y.total), ("peak", x.peak, y.peak)] {
            let bound = 3 * f * x + 100_000;
            run::max(&format!("worst-permille.scaling-{which}.{what}"), y * 1000 / bound);
            if y > bound {
                return fail(
                    &format!("scaling-{which}:{what}"),
                    format!(
                        "{what} of {} bytes costs {x} bytes ({which}) but of {} bytes {y}: begins {}",
                        small.len(),
                        large.len(),
                        show(&small)
                    ),
                );
            }
        }
    }
    Ok(())
}

/// What a text is read as, numbers and spellings left out.
fn outline(text: &str, strict: bool) -> Res<V> {
    fn go(v: &V) -> V {
        match v {
            V::Array(l) => V::Array(l.iter().map(go).collect()),
            V::Object(o) => V::Object(o.iter().map(|(k, v)| (k.clone(), if k == "ip" { V::from(0) } else { go(v) })).collect()),
            V::String(s) => V::from(s.len()),
            V::Number(_) => V::from(0),
            v => v.clone(),
        }
    }
    Ok(match parse(text, strict)? {
        Ok(s) => {
            let t = lift(&s)?;
            // telephone events out of bounds end the reading of their list
            let cut_short = |a: &V| a["p"]["dtmf"] == "0-15";
            let attrs = |v: &V| v["a"].as_array().is_some_and(|l| l.iter().any(cut_short));
            if t["media"].as_array().is_some_and(|l| l.iter().any(attrs)) {
                V::Bool(text.is_empty())
            } else {
                go(&t)
            }
        }
        Err(_) => V::Null,
    })
}

/// Are both read as the same but for numbers?
pub fn alike(a: &str, b: &str, strict: bool) -> Res<bool> {
    let (a, b) = (outline(a, strict)?, outline(b, strict)?);
    Ok(a.is_object() && a == b)
}

/// A description twice, a few numbers small in one and large in the other.
pub fn number_pair() -> (String, String) {
    let st = gen::Style::draw();
    let mut lines = make(&st).lines;
    if p(1, 4) {
        for _ in 0..range(1, 12) {
            let k = crate::dict::pick(&gen::KINDS);
            lines.push(format!("a={}", gen::attr(&st, k, &mut gen::Cx::with_rids()).1));
        }
    }
    if p(1, 4) {
        lines = lines.iter().map(|l| faults::inflate(l, 1)).collect();
    }
    let n = range(1, 4);
    let (a, b) = faults::two_sizes(&lines, n);
    (gen::wire(&a, "\r\n"), gen::wire(&b, "\r\n"))
}

/// The same text with small and with large numbers of the same length costs the same.
fn numbers() -> Res<()> {
    let (a, b) = number_pair();
    let strict = strict();
    let (x, y) = (stages(&a, strict)?, stages(&b, strict)?);
    run::ev("numbers", || format!("{} and {}", show(&a), show(&b)));
    run::shape(&format!("numbers{}/{}", a.len(), x.len()));
    run::hit("shape.numbers");
    run::add("probe.bytes-read", (a.len() + b.len()) as u64);
    // (which lines are kept, and where a broken rule ends reading, may well depend on numbers)
    if x.len() == 1 || y.len() == 1 || !alike(&a, &b, strict)? {
        run::hit("probe.numbers-decide-acceptance");
        return Ok(());
    }
    run::hit("probe.numbers-accepted");
    run::nontrivial();
    for ((what, x), (_, y)) in x.iter().zip(&y) {
        for (which, x, y) in [("total", x.total, y.total), ("peak", x.peak, y.peak)] {
            let (lo, hi) = (x.min(y), x.max(y));
            run::max(&format!("worst-difference.{which}.{what}"), hi - lo);
            if hi > lo + lo / 8 + 2000 {
                return fail(
                    &format!("numbers-{which}:{what}"),
                    format!("{what} costs {x} or {y} bytes ({which}) depending on a number: {} or {}", show(&a), show(&b)),
                );
            }
        }
    }
    Ok(())
}

pub fn c11() -> Res<()> {
    maybe_level();
    if p(1, 6) {
        return numbers();
    }
    if p(1, 4) {
        return scaling();
    }
    let st = gen::Style::draw();
    let mut lines: Vec<String>;
    let shape;
    match u(7) {
        0 => {
            // a legal description repeated section by section
            shape = "many-sections";
            let mut one = gen::Style::draw();
            one.max_media = 3;
            let m = make(&one);
            let cutat = m.lines.iter().position(|l| l.trim_start().to_lowercase().starts_with('m')).unwrap_or(m.lines.len());
            let tail: Vec<String> = m.lines[cutat..].to_vec();
            lines = m.lines.clone();
            let max = range(10, 3000) as usize;
            while !tail.is_empty() && lines.len() + tail.len() < max {
                lines.extend(tail.iter().cloned());
            }
        }
        1 => {
            shape = "many-lines-of-one-kind";
            lines = HEAD.iter().map(|s| s.to_string()).collect();
            lines.push("m=audio 9 RTP/AVP 0 96".to_owned());
            let mut cx = gen::Cx::with_rids();
            let k = crate::dict::pick(&gen::KINDS);
            let n = range(10, 3000);
            for i in 0..n {
                if i < 40 {
                    let (_, w) = gen::attr(&st, k, &mut cx);
                    lines.push(format!("a={w}"));
                } else {
                    let l = lines[lines.len() - 40 + us(3)].clone();
                    lines.push(l);
                }
            }
        }
        2 => {
            shape = "many-bad-lines";
            lines = HEAD.iter().map(|s| s.to_string()).collect();
            let n = range(10, 3000);
            let a = *pick(&faults::BAD_LINES);
            let b = *pick(&faults::UNSUPPORTED);
            for i in 0..n {
                lines.push(if i % 2 == 0 { a } else { b }.to_owned());
            }
        }
        3 => {
            shape = "one-long-line";
            lines = HEAD.iter().map(|s| s.to_string()).collect();
            lines.push("m=audio 9 RTP/AVP 0 96".to_owned());
            let n = range(100, 65_536) as usize;
            lines.push(long_line(n));
        }
        4 | 5 => {
            // numbers of every attribute taken to extremes
            shape = "inflated-numbers";
            lines = make(&st).lines;
            if p(1, 2) {
                let at = lines.len();
                for _ in 0..range(1, 20) {
                    let k = crate::dict::pick(&gen::KINDS);
                    lines.push(format!("a={}", gen::attr(&st, k, &mut gen::Cx::with_rids()).1));
                }
                run::add("probe.attributes-added", (lines.len() - at) as u64);
            }
            let odds = *pick(&[1, 1, 3, 8]);
            lines = lines.iter().map(|l| faults::inflate(l, odds)).collect();
        }
        _ => {
            shape = "a-few-long-lines";
            let m = make(&st);
            lines = m.lines;
            for _ in 0..range(1, 6) {
                let n = range(100, 12_000) as usize;
                let at = us(lines.len() + 1);
                lines.insert(at, long_line(n));
            }
        }
    }
    let mut text = gen::wire(&lines, "\r\n");
    if p(1, 3) {
        let mut b = text.into_bytes();
        for _ in 0..range(1, 3) {
            faults::byte_fault(&mut b, b"a=x\r\n");
        }
        text = String::from_utf8_lossy(&b).into_owned();
    }
    let n_lines = text.lines().count();
    if text.len() > 2048 {
        run::nontrivial();
    }
    run::ev("deliver", || format!("{shape} {} bytes {n_lines} lines: {}", text.len(), show(&text)));
    run::shape(&format!("{shape}{}{n_lines}", text.len() / 64));
    run::sample(|| serde_json::json!({"shape": shape, "bytes": text.len(), "lines": n_lines, "begins": cut(&text, 400)}));
    run::add("probe.bytes-read", text.len() as u64);
    run::hit(&format!("shape.{shape}"));
    let strict = strict();
    let (r, us_) = lib_u("parse_sdp", || webrtc_sdp::parse_sdp(&text, strict))?;
    judge("parsing", us_, text.len(), n_lines)?;
    let s = match r {
        Err(e) => {
            let (_, x) = lib_u("error text", || e.to_string().len())?;
            return judge("error-text", x, text.len(), n_lines);
        }
        Ok(s) => s,
    };
    run::hit("probe.large-accepted");
    let (out, x) = lib_u("to_string", || s.to_string())?;
    // rendering may add text (defaults are dropped, nothing is repeated): judge by the larger
    let n = out.len().max(text.len());
    // a number with an exponent has up to 330 digits when written out
    let short: usize = text
        .lines()
        .filter(|l| l.get(2..11).is_some_and(|k| ["framerate", "imageattr"].contains(&k.to_lowercase().as_str())))
        .map(|l| l.matches(['e', 'E']).count())
        .sum();
    if out.len() > 3 * text.len() + 4096 + 340 * short {
        return fail("output-size", format!("{} bytes in, {} bytes out", text.len(), out.len()));
    }
    judge("rendering", x, n, n_lines)?;
    let (masked, x) = lib_u("masked_clone", || {
        let mut a = StatefulSdpAnonymizer::new();
        s.masked_clone(&mut a)
    })?;
    judge("masking", x, n, n_lines)?;
    drop(masked);
    let (c, x) = lib_u("clone", || s.clone())?;
    judge("cloning", x, n, n_lines)?;
    drop(c);
    let mut sink = crate::sink::Bytes::new(Fail::Never, false);
    let (_, x) = lib_u("export", || serde_json::to_writer(&mut sink, &s).is_ok())?;
    judge("export", x, n, n_lines)
}

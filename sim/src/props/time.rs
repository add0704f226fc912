//! C12: processor time used on behalf of a peer stays proportional to what the
//! peer sent. The processor's clock is simulated (clock.rs): a node with a slow
//! processor must still be done with a text in time proportional to its length.
use super::*;
use crate::call::lib_u;
use crate::ch::{pick, range, us};
use crate::faults;
use webrtc_sdp::anonymizer::{AnonymizingClone, StatefulSdpAnonymizer};

/// Ticks per input byte / per line / flat.
const TICKS: (u64, u64, u64) = (800, 40_000, 200_000);

/// How much more than proportionally (in halves) a text may cost that is so much longer.
const SLACK: u64 = 3;
const FLAT: u64 = 60_000;

fn judge(what: &str, ticks: u64, bytes: usize, lines: usize) -> Res<()> {
    let bound = TICKS.0 * bytes as u64 + TICKS.1 * lines as u64 + TICKS.2;
    run::max(&format!("worst-permille.ticks.{what}"), ticks * 1000 / bound);
    if ticks > bound {
        return fail(
            &format!("ticks:{what}"),
            format!("{what} of {bytes} bytes in {lines} lines takes {ticks} ticks (bound {bound})"),
        );
    }
    Ok(())
}

/// Lines with a place for a number that makes each one different.
const LINES: [&str; 58] = [
    "a=rtpmap:# name%/90000",
    "a=rtpmap:96 n%/%/2",
    "a=fmtp:# max-fs=%;max-fr=%",
    "a=fmtp:# x%=1",
    "a=candidate:% 1 udp % 10.0.0.1 9 typ host",
    "a=candidate:1 1 tcp 7 h%.example 9 typ srflx raddr 10.0.0.1 rport 9 tcptype active k% v%",
    "a=ssrc:% cname:c%",
    "a=ssrc:% x%",
    "a=ssrc-group:FID % 1%",
    "a=extmap:% urn:x%",
    "a=extmap:1/sendonly urn:x% ext%",
    "a=rid:r% send",
    "a=rid:r% recv max-width=%",
    "a=rid:r% send pt=96",
    "a=rid:r% send depends=r1",
    "a=simulcast:send r%",
    "a=simulcast:send r1;r2,~r3",
    "a=simulcast:recv r%",
    "a=group:BUNDLE m%",
    "a=mid:m%",
    "a=msid:s% t%",
    "a=msid-semantic:WMS s%",
    "a=sctpmap:# webrtc-datachannel %",
    "a=sctp-port:#",
    "a=rtcp-fb:# nack",
    "a=rtcp-fb:96 ccm tmmbr %",
    "a=rtcp:# IN IP4 h%.example",
    "a=imageattr:# send [x=%,y=1] recv *",
    "a=imageattr:* recv [x=[1:%],y=[1,%]]",
    "a=ice-ufrag:u%",
    "a=ice-pwd:p%",
    "a=ice-options:o%",
    "a=fingerprint:sha-1 AB:CD:01:23:45:67:89:AB:CD:EF:01:23:45:67:89:AB:CD:EF:00:11",
    "a=remote-candidates:1 10.0.0.1 #",
    "a=remote-candidates:1 h%.example 9",
    "a=identity:id%",
    "a=label:%",
    "a=ptime:%",
    "a=maxptime:%",
    "a=max-message-size:%",
    "a=tls-id:t%",
    "a=setup:active",
    "a=sendrecv",
    "a=rtcp-mux",
    "a=rtcp-mux-only",
    "a=rtcp-rsize",
    "a=end-of-candidates",
    "a=dtls-message:client d%",
    "a=bundle-only",
    "b=AS:%",
    "b=X%:1",
    "a=unknown%:x",
    "a=u%",
    "z=%",
    "e=%@example",
    "a=fmtp:bad%",
    "q%",
    "",
];
const SECTIONS: [&str; 6] = [
    "m=audio # RTP/AVP 0 96",
    "m=video 9 UDP/TLS/RTP/SAVPF 96 97",
    "m=application # UDP/DTLS/SCTP webrtc-datachannel",
    "m=application 9 DTLS/SCTP %",
    "m=audio 0/% RTP/AVP 0",
    "m=bad# RTP/AVP 0",
];
/// Lines that are long because an item (every one different) is repeated.
const LONG: [(&str, &str, &str); 34] = [
    ("a=imageattr:97 send ", "[x=%,y=2]", " "),
    ("a=imageattr:97 send [x=[", "%", ","),
    ("a=imageattr:97 send * recv ", "[x=[1:2:%],y=[1,%],sar=[1.1-1.3],q=0.5]", " "),
    ("a=fmtp:96 ", "x%=1", ";"),
    ("a=fmtp:96 ", "max-fs=%", ";"),
    ("a=fmtp:96 ", "#", "/"),
    ("a=fmtp:96 ", "%", ","),
    ("a=fmtp:96 ", "x", " "),
    ("a=rid:a send ", "x%=1", ";"),
    ("a=rid:a send pt=96;", "max-br=%", ";"),
    ("a=rid:a send pt=", "96", ","),
    ("a=rid:a send pt=", "#", ","),
    ("a=rid:a send depends=", "b%", ","),
    ("a=simulcast:send ", "a%", ";"),
    ("a=simulcast:send ", "~a%", ","),
    ("a=simulcast:recv a send ", "a%", ";"),
    ("a=candidate:1 1 udp 1 1.2.3.4 5 typ host ", "x% y%", " "),
    ("a=candidate:1 1 udp 1 1.2.3.4 5 typ host ", "generation %", " "),
    ("a=group:BUNDLE ", "a%", " "),
    ("a=ssrc-group:FID ", "%", " "),
    ("a=msid-semantic:WMS ", "a%", " "),
    ("a=ice-options:", "a%", " "),
    ("a=extmap:1 urn:x ", "a%", " "),
    ("a=extmap:1 urn:", "a%", ""),
    ("m=application 9 DTLS/SCTP ", "f%", " "),
    ("m=audio 9 RTP/AVP ", "0", " "),
    ("a=identity:", "abcd%", ""),
    ("a=fingerprint:sha-256 ", "AA", ":"),
    ("a=remote-candidates:", "1 10.0.0.1 #", " "),
    ("a=msid:", "a%", " "),
    ("a=ssrc:1 cname:", "c%", ":"),
    ("a=rtcp-fb:96 ccm ", "c%", " "),
    ("s=", "x% ", ""),
    ("a=", "[", " "),
];

fn fill(t: &str, i: usize) -> String {
    t.replace('%', &i.to_string()).replace('#', &(96 + i % 32).to_string())
}

#[derive(Clone)]
enum Part {
    Line(&'static str),
    Long(usize),
    Wire(Vec<String>),
}

/// A plan for a text whose parts grow together.
struct Plan {
    head: Vec<String>,
    parts: Vec<Part>,
    interleave: bool,
    per: usize,
}
impl Plan {
    fn draw() -> Plan {
        let mut head: Vec<String> = super::space::HEAD.iter().map(|s| s.to_string()).collect();
        match u(5) {
            0 => {}
            1 => head.push("m=video 9 RTP/SAVPF 96 97 98".to_owned()),
            2 => head.push("m=application 9 DTLS/SCTP webrtc-datachannel".to_owned()),
            _ => head.push("m=audio 9 RTP/AVP 0 96".to_owned()),
        }
        if p(1, 3) {
            head.push("a=rtcp-mux".to_owned());
            head.push("a=rid:r1 send".to_owned());
            head.push("a=rid:r2 send".to_owned());
            head.push("a=rid:r3 send".to_owned());
        }
        let mut parts = Vec::new();
        for _ in 0..range(1, 4) {
            crate::ch::span(|| {
                parts.push(match u(8) {
                    0 => Part::Line(*pick(&SECTIONS)),
                    1 | 2 => Part::Long(crate::dict::index(LONG.len(), |i| LONG[i].0)),
                    3 => {
                        let st = gen::Style::draw();
                        let mut cx = gen::Cx::with_rids();
                        let mut l = Vec::new();
                        for _ in 0..range(1, 6) {
                            let k = crate::dict::pick(&gen::KINDS);
                            l.push(format!("a={}", gen::attr(&st, k, &mut cx).1));
                        }
                        Part::Wire(l)
                    }
                    _ => Part::Line(crate::dict::pick(&LINES)),
                })
            });
        }
        // what refers to what
        match u(12) {
            0 => {
                // identifiers declared, then named
                head = super::space::HEAD.iter().map(|s| s.to_string()).collect();
                head.push("m=audio 9 RTP/AVP 0 96".to_owned());
                parts = vec![Part::Line("a=rid:r% send"), Part::Line("a=simulcast:send r%")];
            }
            1 => {
                head = super::space::HEAD.iter().map(|s| s.to_string()).collect();
                head.push("m=video 9 RTP/AVP 0 96".to_owned());
                parts = vec![Part::Line("a=rid:a% send"), Part::Long(*pick(&[13, 14]))];
            }
            2 => {
                head = super::space::HEAD.iter().map(|s| s.to_string()).collect();
                parts = vec![Part::Long(*pick(&[24, 25])), Part::Line("a=rid:a% send pt=0")];
            }
            3 => {
                head = super::space::HEAD.iter().map(|s| s.to_string()).collect();
                parts = vec![Part::Line("m=audio 9 RTP/AVP 0 96"), Part::Line(crate::dict::pick(&LINES))];
            }
            _ => {}
        }
        Plan {
            head,
            parts,
            interleave: p(1, 2),
            per: range(1, 12) as usize,
        }
    }
    fn build(&self, k: usize) -> String {
        let mut l = self.head.clone();
        let mut blocks: Vec<Vec<String>> = Vec::new();
        for x in &self.parts {
            blocks.push(match x {
                Part::Line(t) => (0..k * self.per).map(|i| fill(t, i)).collect(),
                Part::Wire(w) => (0..k * self.per).flat_map(|_| w.iter().cloned()).collect(),
                Part::Long(i) => {
                    let (a, item, sep) = LONG[*i];
                    let items: Vec<String> = (0..k * self.per * 4).map(|i| fill(item, i)).collect();
                    vec![format!("{a}{}", items.join(sep))]
                }
            });
        }
        if self.interleave && blocks.len() > 1 {
            let n = blocks.iter().map(Vec::len).max().unwrap_or(0);
            for i in 0..n {
                for b in &blocks {
                    if let Some(x) = b.get(i) {
                        l.push(x.clone());
                    }
                }
            }
        } else {
            l.extend(blocks.into_iter().flatten());
        }
        gen::wire(&l, "\r\n")
    }
}

/// A text of some hundred thousand bytes with its parts repeated as often as fits.
pub fn vast() -> String {
    let plan = Plan::draw();
    let target = *pick(&[60_000, 200_000, 500_000]);
    let one = plan.build(2).len().saturating_sub(plan.build(1).len()).max(1);
    plan.build(target / one)
}

/// Processor time of everything that is done with one text, stage by stage.
fn stages(text: &str, strict: bool) -> Res<Vec<(&'static str, u64)>> {
    let mut v = Vec::new();
    let (r, x) = lib_u("parse_sdp", || webrtc_sdp::parse_sdp(text, strict))?;
    v.push((if r.is_ok() { "reading" } else { "rejecting" }, x.ticks));
    match r {
        Ok(s) => {
            run::hit("probe.accepted");
            v.push(("rendering", lib_u("to_string", || s.to_string())?.1.ticks));
            let mask = || {
                let mut a = StatefulSdpAnonymizer::new();
                s.masked_clone(&mut a)
            };
            v.push(("masking", lib_u("masked_clone", mask)?.1.ticks));
            v.push(("cloning", lib_u("clone", || s.clone())?.1.ticks));
            v.push(("debug output", lib_u("debug", || format!("{s:?}"))?.1.ticks));
            v.push(("export", lib_u("export", || serde_json::to_string(&s).is_ok())?.1.ticks));
            v.push(("dropping", lib_u("drop", || drop(s))?.1.ticks));
        }
        Err(e) => {
            run::hit("probe.rejected");
            v.push(("error text", lib_u("error text", || e.to_string().len())?.1.ticks));
        }
    }
    Ok(v)
}

fn compare(f: u64, a: &[(&'static str, u64)], b: &[(&'static str, u64)], of: impl Fn() -> String) -> Res<()> {
    for ((what, x), (w2, y)) in a.iter().zip(b) {
        if what != w2 {
            break;
        }
        let bound = SLACK * f * x / 2 + FLAT;
        run::max(&format!("worst-permille.growth.{what}"), y * 1000 / bound);
        if *y > bound {
            return fail(
                &format!("growth:{what}"),
                format!("{what} takes {x} ticks but {f} times as much takes {y}: {}", of()),
            );
        }
    }
    Ok(())
}

/// One anonymizer over a history of n values of every category, each masked twice.
fn masking(n: usize, order: u64) -> Res<Vec<(&'static str, u64)>> {
    use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};
    let mut a = lib("anonymizer", StatefulSdpAnonymizer::new)?;
    let names: Vec<String> = (0..n).map(|i| format!("name{i}.example")).collect();
    let mut v: Vec<(&'static str, u64)> = Vec::new();
    let stages: [&'static str; 8] =
        ["masking hosts", "masking addresses", "masking ports", "masking users", "masking passwords", "masking ice users", "masking fingerprints", "masking names"];
    for (k, stage) in stages.iter().enumerate() {
        let mut sum = 0;
        for i in (0..n).chain(0..n) {
            let i = if order == 0 { i } else { n - 1 - i };
            let s = names[i].as_str();
            sum += lib_u(stage, || match k {
                0 => a.mask_host(s).len() as u64,
                1 => {
                    a.mask_ip(&IpAddr::V6(Ipv6Addr::from(i as u128)));
                    u64::from(a.mask_ip(&IpAddr::V4(Ipv4Addr::from(i as u32))).is_ipv4())
                }
                2 => a.mask_port(i as u32).into(),
                3 => a.mask_origin_user(s).len() as u64,
                4 => a.mask_ice_password(s).len() as u64,
                5 => a.mask_ice_user(s).len() as u64,
                6 => a.mask_cert_finger_print(s.as_bytes()).len() as u64,
                _ => a.mask_cname(s).len() as u64,
            })?
            .1
            .ticks;
        }
        v.push((*stage, sum));
    }
    Ok(v)
}

/// A session of n parts put together through the API and looked through.
fn building(n: usize) -> Res<Vec<(&'static str, u64)>> {
    use webrtc_sdp::attribute_type::{SdpAttribute as A, SdpAttributeRtpmap, SdpAttributeType as T};
    use webrtc_sdp::media_type::{SdpMediaValue, SdpProtocolValue};
    let mut s = parse("v=0\r\no=- 1 2 IN IP4 127.0.0.1\r\ns=-\r\nt=0 0\r\n", true)?.expect("a minimal session");
    let mut v = Vec::new();
    let add = |s: &mut SdpSession| {
        for i in 0..n {
            s.add_attribute(A::Identity(i.to_string()))?;
        }
        Ok::<_, webrtc_sdp::error::SdpParserInternalError>(())
    };
    v.push(("adding attributes", lib_u("add_attribute", || add(&mut s).is_ok())?.1.ticks));
    let sections = |s: &mut SdpSession| {
        for i in 0..n {
            let a = std::net::Ipv4Addr::from(i as u32).into();
            s.add_media(SdpMediaValue::Audio, A::Sendrecv, i as u32, SdpProtocolValue::RtpSavpf, a)?;
        }
        Ok::<_, webrtc_sdp::error::SdpParserInternalError>(())
    };
    v.push(("adding sections", lib_u("add_media", || sections(&mut s).is_ok())?.1.ticks));
    let codecs = |s: &mut SdpSession| {
        for i in 0..n {
            s.media[0].add_codec(SdpAttributeRtpmap::new(i as u8, "x".to_owned(), 90000))?;
        }
        Ok::<_, webrtc_sdp::error::SdpParserInternalError>(())
    };
    v.push(("adding codecs", lib_u("add_codec", || codecs(&mut s).is_ok())?.1.ticks));
    let look = || {
        let mut n = s.get_attribute(T::Ssrc).is_some() as usize;
        for m in &s.media {
            n += m.get_attribute(T::Mid).is_some() as usize;
            n += m.get_attributes_of_type(T::Rtpmap).len();
        }
        n
    };
    v.push(("looking up", lib_u("lookups", look)?.1.ticks));
    let crowd = |s: &mut SdpSession| {
        let m = &mut s.media[n / 2];
        for i in 0..n {
            m.add_attribute(A::Mid(i.to_string()))?;
            m.add_attribute(A::Label(i.to_string()))?;
        }
        m.set_attribute(A::Sendonly)?;
        Ok::<_, webrtc_sdp::error::SdpParserInternalError>(())
    };
    v.push(("crowding a section", lib_u("add_attribute", || crowd(&mut s).is_ok())?.1.ticks));
    v.push(("removing a crowd", lib_u("remove_attribute", || s.media[n / 2].remove_attribute(T::Label))?.1.ticks));
    v.push(("removing codecs", lib_u("remove_codecs", || s.media[0].remove_codecs())?.1.ticks));
    v.push(("removing attributes", lib_u("remove_attribute", || s.media[0].remove_attribute(T::Sendrecv))?.1.ticks));
    Ok(v)
}

fn growth() -> Res<()> {
    let plan = Plan::draw();
    let base = match crate::dict::length(4, 400) {
        Some(n) => n,
        None if p(1, 40) => range(40, 300) as usize,
        None => range(4, 40) as usize,
    };
    let (small, large) = (plan.build(base), plan.build(8 * base));
    let strict = strict();
    run::ev("scale", || format!("{} and {} bytes: {}", small.len(), large.len(), show(&small)));
    run::shape(&format!("growth{}/{}", large.len(), small.lines().last().unwrap_or("")));
    run::hit("shape.growth");
    run::nontrivial();
    run::add("probe.bytes-read", (small.len() + large.len()) as u64);
    let (a, b) = (stages(&small, strict)?, stages(&large, strict)?);
    let f = (large.len() as u64).div_ceil(small.len().max(1) as u64).max(8);
    compare(f, &a, &b, || format!("{} and {} bytes beginning {}", small.len(), large.len(), show(&small)))?;
    let n = large.lines().count();
    for (what, y) in &b {
        judge(what, *y, large.len(), n)?;
    }
    Ok(())
}

/// The same text with small and with large numbers of the same length takes as long.
fn numbers() -> Res<()> {
    let (a, b) = super::space::number_pair();
    let strict = strict();
    let (x, y) = (stages(&a, strict)?, stages(&b, strict)?);
    run::ev("numbers", || format!("{} and {}", show(&a), show(&b)));
    run::shape(&format!("numbers{}/{}", a.len(), x.len()));
    run::hit("shape.numbers");
    run::add("probe.bytes-read", (a.len() + b.len()) as u64);
    // (which lines are kept, and where a broken rule ends reading, may well depend on numbers)
    if x[0].0 != y[0].0 || x[0].0 == "rejecting" || !super::space::alike(&a, &b, strict)? {
        run::hit("probe.numbers-decide-acceptance");
        return Ok(());
    }
    run::hit("probe.numbers-accepted");
    run::nontrivial();
    for ((what, x), (_, y)) in x.iter().zip(&y) {
        let (lo, hi) = (x.min(y), x.max(y));
        run::max(&format!("worst-difference.{what}"), hi - lo);
        run::max(&format!("worst-difference-permille.{what}"), (hi - lo) * 1000 / (lo / 4 + 6000));
        if *hi > lo + lo / 4 + 6000 {
            return fail(
                &format!("numbers:{what}"),
                format!("{what} takes {x} or {y} ticks depending on a number: {} or {}", show(&a), show(&b)),
            );
        }
    }
    Ok(())
}

pub fn c12() -> Res<()> {
    if !crate::clock::RUNS {
        panic!("this build has no simulated processor clock");
    }
    // formatting for the log is the library's own time: let it happen sometimes
    maybe_level();
    if p(1, 12) {
        let n = crate::dict::length(8, 400).unwrap_or(range(8, 120) as usize);
        let order = u(2);
        let which = u(2);
        run::ev("history", || format!("{n} and {} parts, order {order}, kind {which}", 8 * n));
        run::shape(&format!("history{n}/{order}/{which}"));
        run::nontrivial();
        let at = |n| if which == 0 { masking(n, order) } else { building(n) };
        run::hit(if which == 0 { "shape.masking-history" } else { "shape.building-history" });
        return compare(8, &at(n)?, &at(8 * n)?, || format!("{n} and {} parts", 8 * n));
    }
    if p(1, 6) {
        return numbers();
    }
    if p(1, 2) {
        return growth();
    }
    // a text as it arrives over a faulty transport
    let st = gen::Style::draw();
    let text = match u(3) {
        0 => {
            let m = make(&st);
            let other = make(&st);
            faults::damage(&st, &m.lines, &other.lines, false)
        }
        1 => {
            let m = make(&st);
            let mut l = m.lines;
            for _ in 0..range(1, 4) {
                let at = us(l.len() + 1);
                let junk = *pick(&["a=", "=", ":", " ", "[", "]", "\u{130}", "a=x:"]);
                l.insert(at, super::space::long_line_of(u(24), junk, range(100, 20_000) as usize));
            }
            gen::wire(&l, "\r\n")
        }
        _ => {
            let t = Plan::draw().build(range(2, 60) as usize);
            let mut b = t.into_bytes();
            for _ in 0..range(1, 4) {
                faults::byte_fault(&mut b, b"a=x\r\n");
            }
            String::from_utf8_lossy(&b).into_owned()
        }
    };
    let n = text.lines().count();
    run::ev("deliver", || format!("{} bytes {n} lines: {}", text.len(), show(&text)));
    run::shape(&format!("damaged{}/{n}", text.len() / 16));
    run::hit("shape.damaged");
    run::nontrivial();
    run::add("probe.bytes-read", text.len() as u64);
    for (what, y) in stages(&text, strict())? {
        judge(what, y, text.len(), n)?;
    }
    Ok(())
}

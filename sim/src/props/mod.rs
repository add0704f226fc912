pub mod anon;
pub mod edit;
pub mod equal;
pub mod exchange;
pub mod export;
pub mod fleet;
pub mod isolate;
pub mod sinks;
pub mod space;
pub mod time;
pub mod verdict;

use crate::call::lib;
use crate::ch::{len, p, pick, u};
use crate::refparse::{self, Note, Reject};
use crate::run::{self, fail, Res};
use crate::sink::{Fail, Text};
use crate::{gen, model};
use serde_json::Value as V;
use std::fmt::Write;
use webrtc_sdp::error::SdpParserError;
use webrtc_sdp::SdpSession;

pub struct Prop {
    pub id: &'static str,
    pub run: fn() -> Res<()>,
    /// runs of the quick and the thorough tier
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
}

const REAL: &str = "all of webrtc-sdp built from /repo's working tree (parser, writer, anonymizer, editing API, structured export), std, url, serde_json";
const STUB: &str = "network, clock, durable store, crashing processes, foreign endpoints (independent wire writer and reference reader), log sinks, output sinks, thread scheduler, hash seed: all simulated";

pub const PROPS: &[Prop] = &[
    Prop {
        id: "C01",
        run: exchange::c01,
        quick: 130000,
        thorough: 2500000,
        rule: "one run = one simulated exchange of 1-3 description versions from one endpoint through a tree of 1-5 library nodes over a faulty network with crashes, restarts and a durable store; non-trivial when at least one library node decoded a description with a media section or five attributes; distinct by hash of topology, fault and delivery history and content shape",
        real: REAL,
        stub: STUB,
    },
    Prop {
        id: "C02",
        run: verdict::c02,
        quick: 300000,
        thorough: 6000000,
        rule: "one run = a batch of damaged descriptions delivered to library nodes that parse, render, re-parse, mask and export whatever survives; non-trivial when at least one description was damaged; distinct by hash of the delivered texts' fault history and outcome",
        real: REAL,
        stub: STUB,
    },
    Prop {
        id: "C03",
        run: verdict::c03,
        quick: 400000,
        thorough: 8000000,
        rule: "one run = a batch of descriptions with 0-12 transport or sender faults, verdict compared with the reference reader; non-trivial when at least one delivered text differs from what was sent; distinct by hash of fault history and verdicts",
        real: REAL,
        stub: STUB,
    },
    Prop {
        id: "C04",
        run: verdict::c04,
        quick: 400000,
        thorough: 8000000,
        rule: "one run = a batch of faulty descriptions, diagnostics (class, line number, line text, ordered warnings) compared with the reference reader; non-trivial when at least one diagnostic was due; distinct by hash of fault history and diagnostics",
        real: REAL,
        stub: STUB,
    },
    Prop {
        id: "C05",
        run: sinks::c05,
        quick: 300000,
        thorough: 6000000,
        rule: "one run = one session rendered as text and as JSON into 4-16 failing, short-writing, interrupting or aborting sinks; non-trivial when at least one sink fault fired; distinct by hash of content shape and fault positions",
        real: REAL,
        stub: STUB,
    },
    Prop {
        id: "C06",
        run: anon::c06,
        quick: 15000,
        thorough: 300000,
        rule: "one run = one anonymizer (restarted between epochs) serving 1-5 interleaved callers over a history of direct maskings and masked clones, up to 70000 distinct values; non-trivial when at least one value recurred; distinct by hash of the operation history",
        real: REAL,
        stub: STUB,
    },
    Prop {
        id: "C07",
        run: anon::c07,
        quick: 200000,
        thorough: 4000000,
        rule: "one run = a diagnostics collector receiving 1-6 descriptions over the simulated network, full of unique confidential tokens, and publishing masked clones as text, debug and JSON; non-trivial when at least one confidential token was present; distinct by hash of content shape and delivery history",
        real: REAL,
        stub: STUB,
    },
    Prop {
        id: "C08",
        run: anon::c08,
        quick: 130000,
        thorough: 2500000,
        rule: "one run = a collector masking 1-6 delivered descriptions; masked tree compared with the original under one consistent renaming, and again after a text round trip; non-trivial when a description had a media section or five attributes; distinct by hash of content shape and delivery history",
        real: REAL,
        stub: STUB,
    },
    Prop {
        id: "C09",
        run: edit::c09,
        quick: 160000,
        thorough: 3500000,
        rule: "one run = a history of 1-60 editing operations with crashes, reloads from durable text and rejected edits, checked against the model after every operation; non-trivial when at least three edits were applied; distinct by hash of the history",
        real: REAL,
        stub: STUB,
    },
    Prop {
        id: "C10",
        run: isolate::c10,
        quick: 40000,
        thorough: 1200000,
        rule: "one run = 2-5 callers with their own and shared sessions under one seeded interleaving (switches at allocations, log calls, sink writes), with aborted and re-entrant calls; non-trivial when the baton moved at least twice inside library calls; distinct by hash of the sequence of (from, to, point) switches",
        real: REAL,
        stub: STUB,
    },
    Prop {
        id: "C11",
        run: space::c11,
        quick: 80000,
        thorough: 600000,
        rule: "one run = one hostile or merely large description (up to 3000 lines, or one line of up to 64 KiB, after transport faults) read, rendered, masked and exported under allocation accounting; non-trivial when it exceeds 2 KiB; distinct by hash of shape and size",
        real: REAL,
        stub: STUB,
    },
    Prop {
        id: "C12",
        run: time::c12,
        quick: 30000,
        thorough: 1000000,
        rule: "one run = a text and the same text with its parts repeated eight times as often (or one damaged or hostile text) read, rendered, masked, cloned and exported under a simulated processor clock; distinct by hash of shape and size",
        real: "all of webrtc-sdp built from /repo's working tree, std, url, serde_json, every basic block of them ticking the simulated clock",
        stub: STUB,
    },
    Prop {
        id: "C13",
        run: equal::c13,
        quick: 250000,
        thorough: 3500000,
        rule: "one run = an endpoint receiving 1-4 versions of a description (repeated, reordered, damaged, replaced) and comparing every comparable value with copies, slightly different editions and the version held before; non-trivial when at least one version was accepted; distinct by hash of content shape and delivery history",
        real: REAL,
        stub: STUB,
    },
    Prop {
        id: "C14",
        run: fleet::c14,
        quick: 30000,
        thorough: 1000000,
        rule: "one run = 1-4 requests (a delivered description or one built through the API, then masking and 0-8 edits) answered by four or five builds of the library; non-trivial when at least one request was accepted; distinct by hash of content shape, outcomes and delivery history",
        real: "all of webrtc-sdp built from /repo's working tree in five configurations: all features with overflow checks and debug assertions; release without features; release with all features; debug without features; release with serialize and 32-bit words (where probe.build-release-32bit is counted)",
        stub: STUB,
    },
    Prop {
        id: "C15",
        run: export::c15,
        quick: 180000,
        thorough: 3500000,
        rule: "one run = an exporting node that receives 1-4 descriptions (clean, with unsupported lines, damaged) and streams sessions, pieces, lines and diagnostics as JSON over a faulty sink to a collector; non-trivial when something was exported; distinct by hash of content shape and outcomes",
        real: REAL,
        stub: STUB,
    },
];

pub fn find(id: &str) -> Option<&'static Prop> {
    PROPS.iter().find(|p| p.id == id)
}

// ------------------------------------------------------------ shared pieces

pub fn cut(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_owned();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}...[{} bytes]", &s[..e], s.len())
}
pub fn show(s: &str) -> String {
    format!("{:?}", cut(s, 900))
}

pub fn parse(text: &str, strict: bool) -> Res<Result<SdpSession, SdpParserError>> {
    lib("parse_sdp", || webrtc_sdp::parse_sdp(text, strict))
}
pub fn lift(s: &SdpSession) -> Res<V> {
    lib("reading a session", || model::session(s))
}
/// Renders through one of the ways callers do.
pub fn render(s: &SdpSession) -> Res<String> {
    match u(3) {
        0 => lib("to_string", || s.to_string()),
        1 => lib("format!", || format!("{s}")),
        _ => {
            let mut t = Text::new(Fail::Never);
            let r = lib("write!", || write!(t, "{s}"))?;
            if r.is_err() {
                return fail("render-error", "rendering into a healthy sink reports an error".to_owned());
            }
            Ok(t.got)
        }
    }
}

/// What the library said, in the reference reader's terms.
#[derive(Debug, PartialEq, Clone)]
pub enum Said {
    Accept(Vec<Note>),
    Line(Note),
    Unsupported(Note),
    Sequence(usize),
}
pub fn said(r: &Result<SdpSession, SdpParserError>) -> Said {
    let note = |l: &String, n: &usize| Note {
        line: l.clone(),
        no: *n,
    };
    match r {
        Ok(s) => Said::Accept(
            s.warnings
                .iter()
                .map(|w| match w {
                    SdpParserError::Unsupported { line, line_number, .. } => note(line, line_number),
                    SdpParserError::Line { line, line_number, .. } => Note {
                        line: format!("(reported as malformed) {line}"),
                        no: *line_number,
                    },
                    SdpParserError::Sequence { line_number, .. } => Note {
                        line: "(reported as sequence error)".to_owned(),
                        no: *line_number,
                    },
                })
                .collect(),
        ),
        Err(SdpParserError::Line { line, line_number, .. }) => Said::Line(note(line, line_number)),
        Err(SdpParserError::Unsupported { line, line_number, .. }) => Said::Unsupported(note(line, line_number)),
        Err(SdpParserError::Sequence { line_number, .. }) => Said::Sequence(*line_number),
    }
}

/// The reference reader must agree with the generator, otherwise the harness is wrong.
pub fn self_check(text: &str, truth: &V) {
    match refparse::parse(text, true) {
        Ok(a) => {
            if let Some((path, l, r)) = model::diff(&model::canon(truth.clone()), &model::canon(a.tree)) {
                panic!("generator and reference reader disagree at {path}: {l} vs {r}\n{text}");
            }
        }
        Err(e) => panic!("reference reader rejects generated text: {e:?}\n{text}"),
    }
}

pub fn big_enough(t: &V) -> bool {
    let n: usize = t["media"]
        .as_array()
        .map_or(0, |m| m.iter().map(|m| m["a"].as_array().map_or(0, Vec::len)).sum());
    !t["media"].as_array().map_or(true, Vec::is_empty) || n + t["a"].as_array().map_or(0, Vec::len) >= 5
}

pub fn note_content(t: &V) {
    let mut kinds: Vec<String> = Vec::new();
    let mut all: Vec<&V> = t["a"].as_array().unwrap().iter().collect();
    for m in t["media"].as_array().unwrap() {
        kinds.push(format!("m={}", m["m"]["media"].as_str().unwrap_or("")));
        all.extend(m["a"].as_array().unwrap());
    }
    for a in all {
        let k = a["k"].as_str().unwrap_or("");
        run::hit(&format!("attr.{k}"));
        kinds.push(k.to_owned());
    }
    run::ev("content", || kinds.join(","));
    run::shape(&kinds.join(","));
    if big_enough(t) {
        run::nontrivial();
    }
}

/// A described session together with its wire text.
pub struct Made {
    pub tree: V,
    pub lines: Vec<String>,
}
pub fn make(st: &gen::Style) -> Made {
    crate::ch::span(|| {
        let d = gen::session(st);
        let lines = gen::wire_lines(st, &d);
        self_check(&gen::wire(&lines, "\r\n"), &d.tree);
        Made { tree: d.tree, lines }
    })
}

/// Attribute, connection and bandwidth lines, most of one kind, put together
/// oddly: some still legal, some not.
pub fn odd_lines(st: &gen::Style) -> Vec<String> {
    lines_of_a_kind(st, len(4, 40), |l, all| match u(10) {
        0 => l.to_owned(),
        1 => crate::faults::oddity(l),
        2..=4 => near_miss(l, all),
        _ => crate::faults::parts_fault(l, all),
    })
}

/// Small descriptions that differ in a single line, most of them in a line of
/// one kind with one fault in it.
pub fn crowd(st: &gen::Style) -> Vec<String> {
    let lines = lines_of_a_kind(st, len(8, 60), near_miss);
    let mut out = Vec::new();
    for l in lines {
        let mut v: Vec<&str> = vec!["v=0", "o=- 1 1 IN IP4 0.0.0.0", "s=-", "t=0 0"];
        let media = [
            "m=video 9 UDP/TLS/RTP/SAVPF 0 8 96 97 111",
            "c=IN IP4 0.0.0.0",
            "a=rid:1 send",
            "a=rid:hi send",
            "a=rid:lo send",
            "a=rid:2 recv",
            "a=rid:x-3 recv",
        ];
        match l.chars().next() {
            Some('v') => v[0] = &l,
            Some('o') => v[1] = &l,
            Some('s') => v[2] = &l,
            Some('t') => v[3] = &l,
            Some('m') => v.extend([&l, media[1]]),
            _ => match u(4) {
                0 => v.push(&l),
                1 => {
                    v.push(&l);
                    v.extend(media);
                }
                _ => {
                    v.extend(media);
                    v.push(&l);
                }
            },
        }
        out.push(gen::wire(&v.iter().map(|s| (*s).to_owned()).collect::<Vec<_>>(), "\r\n"));
    }
    run::hit("probe.crowd-of-near-misses");
    out
}

/// A line as it is or with one fault that keeps most of it legal.
pub fn near_miss(l: &str, all: &[String]) -> String {
    match u(16) {
        0 | 1 => l.to_owned(),
        2 => crate::faults::oddity(l),
        3 | 4 => crate::faults::parts_fault(l, all),
        5..=9 => crate::faults::token_fault(l, all),
        10..=13 => crate::faults::limit_fault(l),
        14 => crate::faults::address_fault(l),
        // cut short
        _ => {
            let mut k = crate::ch::us(l.len() + 1);
            while !l.is_char_boundary(k) {
                k -= 1;
            }
            l[..k].to_owned()
        }
    }
}

pub fn lines_of_a_kind(st: &gen::Style, n: usize, fault: impl Fn(&str, &[String]) -> String) -> Vec<String> {
    let mut cx = gen::Cx::with_rids();
    cx.pts = vec![0, 8, 96, 97, 111];
    let kind = *pick(&[
        "rid", "fmtp", "candidate", "imageattr", "rtcp-fb", "ssrc", "extmap", "rtpmap", "msid-semantic", "group", "ssrc-group",
        "remote-candidates", "ice-options", "msid", "rtcp", "sctpmap", "simulcast", "fingerprint", "rid", "fmtp", "c", "b", "m", "o", "*", "*", "*", "*",
    ]);
    let mut v: Vec<String> = Vec::new();
    for _ in 0..n {
        let l = crate::ch::span(|| {
            let l = match kind {
                "c" => format!("c={}", gen::conn(st).1),
                "b" => format!("b={}", gen::bw(st).1),
                "m" => format!("m={}", gen::media_line(st, &mut gen::Cx::default()).1),
                "o" if p(1, 3) => format!("t={} {}", gen::num(st, u64::MAX), gen::num(st, u64::MAX)),
                "o" => format!("o={}", gen::origin(st).1),
                "*" => format!("a={}", gen::attr(st, crate::dict::pick(&gen::KINDS), &mut cx).1),
                k => format!("a={}", gen::attr(st, k, &mut cx).1),
            };
            v.push(l.clone());
            fault(&l, &v)
        });
        *v.last_mut().unwrap() = l;
    }
    v.retain(|l| !l.contains(|c| c == '\n' || c == '\r'));
    run::hit("probe.crowd-of-odd-lines");
    v
}

pub fn maybe_level() {
    let l = crate::sink::draw_level();
    run::hit(&format!("knob.log-{}", l.as_str().to_lowercase()));
}

/// Compares a session with what it should mean.
pub fn same_content(what: &str, s: &SdpSession, truth: &V) -> Res<()> {
    let t = model::canon(lift(s)?);
    match model::diff(truth, &t) {
        None => Ok(()),
        Some((path, want, got)) => fail(
            &format!("content:{}", class_of(&path)),
            format!("{what}: {path} should be {want} but is {got}"),
        ),
    }
}
/// The part of a path that identifies a kind of failure.
pub fn class_of(path: &str) -> String {
    path.split('.')
        .filter(|s| !s.chars().all(|c| c.is_ascii_digit()))
        .map(|s| match s.find('<') {
            Some(i) => &s[i..],
            None => s,
        })
        .collect::<Vec<_>>()
        .join(".")
}

pub fn check_lines(what: &str, text: &str) -> Res<()> {
    if !text.is_empty() && !text.ends_with("\r\n") {
        return fail("line-end", format!("{what}: last line does not end in CRLF: {}", show(text)));
    }
    for l in text.split_terminator("\r\n") {
        if l.is_empty() || l.contains(['\r', '\n']) {
            return fail("line-end", format!("{what}: empty line or stray line end in {}", show(text)));
        }
        if l.len() < 2 || l.as_bytes()[1] != b'=' || (l.len() == 2 && !l.starts_with('s')) {
            return fail("empty-value", format!("{what}: rendered line {l:?} has no value"));
        }
    }
    Ok(())
}

/// A rendering must say the same thing to a foreign reader.
pub fn foreign_agrees(what: &str, text: &str, truth: &V) -> Res<()> {
    check_lines(what, text)?;
    match refparse::parse(text, true) {
        Err(e) => fail(
            match e {
                Reject::Line(_) => "unreadable-line",
                Reject::Unsupported(_) => "unreadable-unsupported",
                Reject::Sequence(..) => "unreadable-sequence",
            },
            format!("{what}: a foreign reader rejects the rendered text: {e:?} in {}", show(text)),
        ),
        Ok(a) => match model::diff(truth, &model::canon(a.tree)) {
            None => Ok(()),
            Some((path, want, got)) => fail(
                &format!("rendered:{}", class_of(&path)),
                format!("{what}: rendered {path} should say {want} but says {got}"),
            ),
        },
    }
}

pub fn strict() -> bool {
    p(1, 2)
}

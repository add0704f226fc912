//! C01: descriptions travel through library nodes and keep their meaning.
use super::*;
use crate::ch::{pick, range, us};
use crate::faults;
use crate::net::{Ev, Knobs, Net};
use serde_json::json;
use webrtc_sdp::SdpType;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone)]
enum Msg {
    Frag { ver: usize, msg: u64, idx: usize, total: usize, bytes: Vec<u8> },
    Ack { ver: usize },
}

#[derive(Default)]
struct Node {
    // volatile
    parts: BTreeMap<(usize, u64), BTreeMap<usize, Vec<u8>>>,
    live: BTreeMap<usize, SdpSession>,
    unacked: BTreeSet<(usize, usize)>, // (version, child)
    // durable: version -> (declared length, bytes that reached the disk)
    disk: BTreeMap<usize, (usize, Vec<u8>)>,
}

struct World {
    net: Net<Msg>,
    nodes: Vec<Node>,
    children: Vec<Vec<usize>>,
    parent: Vec<usize>,
    truth: Vec<V>,
    source: Vec<Vec<String>>, // wire lines of each version at the origin
    next_msg: u64,
    eol: u64,
    got: Vec<BTreeSet<usize>>,
}

const RETRY: u64 = 700_000;

impl World {
    fn text_for(&mut self, node: usize, ver: usize) -> Res<Option<String>> {
        if node == 0 {
            return Ok(Some(faults::benign(&self.source[ver], self.eol)));
        }
        // from memory, or reloaded from durable text after a restart
        if !self.nodes[node].live.contains_key(&ver) {
            let Some((n, b)) = self.nodes[node].disk.get(&ver) else { return Ok(None) };
            if b.len() != *n {
                run::hit("fault.torn-record-discarded");
                return Ok(None);
            }
            let t = String::from_utf8(b.clone()).expect("store holds rendered text");
            let s = self.accept(node, ver, &t, "reload")?;
            self.nodes[node].live.insert(ver, s);
            run::hit("probe.reloaded-from-durable-text");
        }
        let s = &self.nodes[node].live[&ver];
        let t = render(s)?;
        foreign_agrees(&format!("node {node}, version {ver}"), &t, &self.truth[ver])?;
        if p(self.eol, 64) {
            let l: Vec<String> = t.split_terminator("\r\n").map(str::to_owned).collect();
            return Ok(Some(faults::benign(&l, self.eol)));
        }
        Ok(Some(t))
    }

    fn accept(&mut self, node: usize, ver: usize, text: &str, how: &str) -> Res<SdpSession> {
        let s = strict();
        match parse(text, s)? {
            Err(e) => fail(
                &format!("rejected-{}", match e {
                    SdpParserError::Line { .. } => "line",
                    SdpParserError::Unsupported { .. } => "unsupported",
                    SdpParserError::Sequence { .. } => "sequence",
                }),
                format!("node {node} ({how}) rejects legal version {ver}: {e} in {}", show(text)),
            ),
            Ok(sess) => {
                if !sess.warnings.is_empty() {
                    return fail("warning", format!("node {node} ({how}) warns about legal text: {}", sess.warnings[0]));
                }
                same_content(&format!("node {node} ({how}), version {ver}"), &sess, &self.truth[ver])?;
                Ok(sess)
            }
        }
    }

    fn transmit(&mut self, node: usize, ver: usize) -> Res<()> {
        let kids: Vec<usize> = self.children[node]
            .iter()
            .copied()
            .filter(|c| self.nodes[node].unacked.contains(&(ver, *c)))
            .collect();
        if kids.is_empty() {
            return Ok(());
        }
        let Some(text) = self.text_for(node, ver)? else { return Ok(()) };
        for c in kids {
            self.next_msg += 1;
            let msg = self.next_msg;
            let sz = self.net.k.frag.max(text.len() / 200);
            let total = text.len().div_ceil(sz).max(1);
            for (idx, ch) in text.as_bytes().chunks(sz).enumerate() {
                self.net.send(
                    node,
                    c,
                    Msg::Frag { ver, msg, idx, total, bytes: ch.to_vec() },
                );
            }
            if total > 1 {
                run::hit("fault.fragmented");
            }
        }
        self.net.timer(node, RETRY, ver as u64);
        Ok(())
    }

    fn publish(&mut self, node: usize, ver: usize) -> Res<()> {
        for c in self.children[node].clone() {
            self.nodes[node].unacked.insert((ver, c));
        }
        self.transmit(node, ver)
    }

    fn deliver(&mut self, node: usize, from: usize, ver: usize, text: &str) -> Res<()> {
        run::ev("deliver", || format!("v{ver} {from}->{node} {}", show(text)));
        let s = self.accept(node, ver, text, "delivery")?;
        let t = render(&s)?;
        foreign_agrees(&format!("node {node}, version {ver}"), &t, &self.truth[ver])?;
        // the write to the store may tear if the node dies right now
        let torn = self.net.k.crashes > 0 && !self.net.calm && p(1, 16);
        let keep = if torn { us(t.len() + 1) } else { t.len() };
        self.nodes[node].disk.insert(ver, (t.len(), t.as_bytes()[..keep].to_vec()));
        if torn {
            run::hit("fault.torn-store-write");
            self.net.after(0, Ev::Crash { node });
            return Ok(());
        }
        self.nodes[node].live.insert(ver, s);
        self.got[node].insert(ver);
        self.net.send(node, from, Msg::Ack { ver });
        self.publish(node, ver)
    }
}

/// Turns a description into one no endpoint of ours would write but which the
/// reference reader accepts all the same: it must survive just as well.
fn odd(st: &gen::Style, m: &mut Made) {
    if p(2, 3) {
        let crowd = p(1, 2);
        if crowd {
            // lines of one kind only, all of them with many parts
            let mut st = st.clone();
            st.max_attrs = st.max_attrs.max(12);
            st.kinds = vec![*pick(&[
                "rid", "fmtp", "candidate", "imageattr", "rtcp-fb", "rid", "fmtp", "ssrc", "extmap", "rtpmap", "msid-semantic",
                "group", "ssrc-group", "remote-candidates", "ice-options", "msid", "rtcp", "sctpmap", "simulcast",
            ])];
            *m = make(&st);
        }
        // a foreign stack that orders, repeats, defaults and omits as it likes
        let mut lines = m.lines.clone();
        let mut tree = None;
        for _ in 0..(if crowd { range(10, 40) } else { range(1, 12) }) {
            let mut i = us(lines.len());
            if crowd && !lines[i].starts_with("a=") {
                i = us(lines.len());
            }
            let new = crate::faults::parts_fault(&lines[i], &lines);
            if new.trim().is_empty() || new.contains(|c: char| c.is_whitespace() && c != ' ') {
                continue;
            }
            let old = std::mem::replace(&mut lines[i], new);
            match refparse::parse(&gen::wire(&lines, "\r\n"), true) {
                Ok(a) => tree = Some(a.tree),
                Err(_) => lines[i] = old,
            }
        }
        if let Some(tree) = tree {
            run::hit("probe.odd-but-legal-parts");
            *m = Made { tree, lines };
            return;
        }
    }
    let other = make(st);
    for _ in 0..4 {
        let t = crate::faults::damage(st, &m.lines, &other.lines, false);
        let lines: Vec<String> = t.lines().filter(|l| !l.trim().is_empty()).map(str::to_owned).collect();
        // bare carriage returns and unusual blanks would meet the network's line-end variation
        if t.contains(|c: char| c.is_whitespace() && !" \r\n\t".contains(c)) || lines.iter().any(|l| l.contains('\r')) {
            continue;
        }
        if let Ok(a) = refparse::parse(&gen::wire(&lines, "\r\n"), true) {
            run::hit("probe.odd-but-legal-description");
            *m = Made { tree: a.tree, lines };
            return;
        }
    }
}

/// A node receives single lines of foreign making, holds what they say,
/// passes them on, and the next one must hold the same.
fn lines_hop(st: &gen::Style) -> Res<()> {
    use refparse::Item;
    let wrap = |i: &Item| -> Option<V> {
        Some(match i {
            Item::Attr(a) => model::canon(json!({"a": [a], "media": []})),
            Item::Connection(c) => json!({ "c": c }),
            Item::Bandwidth(b) => json!({ "b": b }),
            _ => return None,
        })
    };
    let read = |who: &str, l: &str| -> Res<(V, String)> {
        match lib("parse_sdp_line", || webrtc_sdp::parse_sdp_line(l, 0))? {
            Err(e) => fail("line-rejected", format!("{who} rejects a legal line: {e} in {}", show(l))),
            Ok(x) => lib("reading and rendering a line", || match &x.sdp_type {
                SdpType::Attribute(a) => (model::canon(json!({"a": [model::attr(a)], "media": []})), format!("a={a}")),
                SdpType::Connection(c) => (json!({"c": model::conn(c)}), format!("c={c}")),
                SdpType::Bandwidth(b) => (json!({"b": model::bw(b)}), format!("b={b}")),
                _ => (V::Null, String::new()),
            }),
        }
    };
    for l in odd_lines(st) {
        let Ok(item) = refparse::line(&l) else { continue };
        let Some(want) = wrap(&item) else { continue };
        // no description can declare an empty identifier
        if want["a"][0]["k"] == "simulcast" && want.to_string().contains(r#"["","#) {
            continue;
        }
        run::hit("probe.odd-but-legal-line");
        let mut text = l.clone();
        for hop in 1..=2 {
            let (got, t) = read(&format!("node {hop}"), &text)?;
            if let Some((path, w, g)) = model::diff(&want, &got) {
                return fail(
                    &format!("line-misread:{}", class_of(&path)),
                    format!("node {hop} reads {path} as {g} instead of {w} in {} (sent as {})", show(&text), show(&l)),
                );
            }
            if want["a"].as_array().is_some_and(Vec::is_empty) {
                break; // says nothing beyond the defaults
            }
            match refparse::line(&t).ok().as_ref().and_then(wrap) {
                Some(said) => {
                    if let Some((path, w, g)) = model::diff(&want, &said) {
                        return fail(
                            &format!("line-rendered:{}", class_of(&path)),
                            format!("node {hop} renders {} as {}: {path} says {g} instead of {w}", show(&text), show(&t)),
                        );
                    }
                }
                None => return fail("line-unreadable", format!("node {hop} renders {} as {}", show(&text), show(&t))),
            }
            text = t;
        }
    }
    Ok(())
}

pub fn c01() -> Res<()> {
    maybe_level();
    let st = gen::Style::draw();
    if p(1, 6) {
        lines_hop(&st)?;
    }
    let n = range(2, 6) as usize;
    let mut parent = vec![0usize; n];
    let mut children = vec![Vec::new(); n];
    for (i, par) in parent.iter_mut().enumerate().skip(1) {
        // value 0 = chain
        *par = i - 1 - if p(1, 3) { us(i) } else { 0 };
        children[*par].push(i);
    }
    let versions = *pick(&[1usize, 1, 1, 2, 3]);
    let builder = p(1, 4); // the origin is a library endpoint building through the API
    let mut truth = Vec::new();
    let mut source = Vec::new();
    for _ in 0..versions {
        let mut m = make(&st);
        if !builder && p(1, 4) {
            odd(&st, &mut m);
        }
        note_content(&m.tree);
        let canon = model::canon(m.tree.clone());
        if builder {
            let s = lib("building a session", || model::lower_session(&m.tree))?;
            let s = match s {
                Ok(s) => s,
                Err(e) => return fail("edit-refused", format!("building a legal session is refused: {e}")),
            };
            same_content("built session", &s, &canon)?;
            let t = render(&s)?;
            foreign_agrees("origin", &t, &canon)?;
            source.push(t.split_terminator("\r\n").map(str::to_owned).collect());
            run::hit("probe.origin-built-through-api");
        } else {
            source.push(m.lines);
        }
        truth.push(canon);
    }
    run::shape(&format!("{parent:?}{versions}{builder}"));
    run::sample(|| serde_json::json!({"topology_parents": parent, "versions": versions, "origin": if builder {"library"} else {"foreign"}, "first_description": cut(&source[0].join("\r\n"), 1200)}));
    let k = Knobs::draw();
    let mut w = World {
        net: Net::new(n, k.clone()),
        nodes: (0..n).map(|_| Node::default()).collect(),
        children,
        parent,
        truth,
        source,
        next_msg: 0,
        eol: k.eol,
        got: vec![BTreeSet::new(); n],
    };
    let horizon = 3_000_000;
    let crashable: Vec<usize> = (1..n).collect();
    w.net.plan(horizon, &crashable);
    for v in 0..versions {
        let at = u(horizon / 2);
        w.net.after(at, Ev::Timer { node: 0, tag: 1000 + v as u64, epoch: 0 });
    }
    let mut steps = 0u64;
    while let Some(e) = w.net.next() {
        steps += 1;
        if steps > 400_000 {
            panic!("simulated exchange does not settle");
        }
        match e {
            Ev::Timer { node, tag, .. } => {
                if tag >= 1000 {
                    w.publish(node, (tag - 1000) as usize)?
                } else {
                    w.transmit(node, tag as usize)?
                }
            }
            Ev::Msg { from, to, m } => match m {
                Msg::Ack { ver } => {
                    w.nodes[to].unacked.remove(&(ver, from));
                }
                Msg::Frag { ver, msg, idx, total, bytes } => {
                    let parts = w.nodes[to].parts.entry((ver, msg)).or_default();
                    parts.insert(idx, bytes);
                    if parts.len() == total {
                        let all: Vec<u8> = parts.values().flatten().copied().collect();
                        w.nodes[to].parts.remove(&(ver, msg));
                        if w.nodes[to].live.contains_key(&ver) {
                            // duplicate or retransmission: acknowledge, and take it as an update
                            run::hit("probe.duplicate-delivery");
                            let t = String::from_utf8(all).expect("fragments reassemble");
                            let s = w.accept(to, ver, &t, "redelivery")?;
                            w.nodes[to].live.insert(ver, s);
                            w.got[to].insert(ver);
                            w.net.send(to, from, Msg::Ack { ver });
                        } else {
                            let t = String::from_utf8(all).expect("fragments reassemble");
                            w.deliver(to, from, ver, &t)?;
                        }
                    }
                }
            },
            Ev::Crash { node } => {
                run::ev("crash", || format!("node {node}"));
                let nd = &mut w.nodes[node];
                nd.parts.clear();
                nd.live.clear();
                nd.unacked.clear();
            }
            Ev::Restart { node } => {
                run::ev("restart", || format!("node {node}"));
                let vers: Vec<usize> = w.nodes[node].disk.keys().copied().collect();
                for v in vers {
                    let (len, b) = &w.nodes[node].disk[&v];
                    if b.len() != *len {
                        w.nodes[node].disk.remove(&v);
                        run::hit("fault.torn-record-discarded");
                        continue;
                    }
                    w.publish(node, v)?;
                }
            }
            _ => {}
        }
    }
    for node in 1..n {
        for v in 0..versions {
            if !w.got[node].contains(&v) {
                // the network is fair after Calm, so this is the harness' own liveness
                panic!("node {node} never got version {v} from {}", w.parent[node]);
            }
        }
    }
    Ok(())
}

//! Values no reader produces, but the API accepts: an application fills public
//! fields with whatever it has. Works on the content tree of a description.
use crate::ch::{len, p, pick, u, us};
use crate::run;
use serde_json::{Value as V, json};

/// Strings that stand for something else than text.
const TYPED: [&str; 15] = [
    "ip", "fp", "alg", "dir", "typ", "tr", "tcptype", "role", "k", "q", "sar", "par", "f", "media", "proto",
];
const WORDY: [&str; 2] = ["ufrag", "app"];
const NUMERIC: [&str; 8] = ["rport", "gen", "cost", "ch", "ttl", "amount", "profile", "level-idx"];

enum Leaf {
    Text,
    Num,
    Bool,
    Gap,
}

fn visit(v: &V, key: &str, kind: &str, at: String, out: &mut Vec<(String, Leaf)>) {
    match v {
        V::Object(o) => {
            let kind = o.get("k").and_then(V::as_str).unwrap_or(kind);
            for (k, x) in o {
                if !TYPED.contains(&k.as_str()) || (k == "media" && x.is_array()) {
                    visit(x, k, kind, format!("{at}/{}", k.replace('~', "~0").replace('/', "~1")), out);
                }
            }
        }
        V::Array(l) => {
            for (i, x) in l.iter().enumerate() {
                if !(key == "b" && i == 0 && x.is_string()) {
                    visit(x, key, kind, format!("{at}/{i}"), out);
                }
            }
        }
        V::String(_) => {
            let word = match key {
                "sem" => kind == "msid-semantic",
                "s" => kind != "setup",
                "pt" | "send" | "recv" => false,
                _ => true,
            };
            if word || (kind == "simulcast" && key != "k") {
                out.push((at, Leaf::Text));
            }
            if WORDY.contains(&key) && p(1, 4) {
                let (at, _) = out.pop().unwrap();
                out.push((at, Leaf::Gap));
            }
        }
        V::Number(_) => out.push((at, if NUMERIC.contains(&key) && kind != "sctpmap" && p(1, 4) { Leaf::Gap } else { Leaf::Num })),
        V::Bool(_) => out.push((at, Leaf::Bool)),
        V::Null => {
            if WORDY.contains(&key) || NUMERIC.contains(&key) {
                out.push((at, Leaf::Gap));
            }
        }
    }
}

fn text(s: &str) -> String {
    let w = pick(&[
        " ", "  ", "\t", "\r\n", "\n", "\"", "\\", "\0", "\u{e9}", "\u{4e2d}\u{6587}", "\u{1f980}", "\u{a0}", "\u{ad}",
        "=", ";", ",", "/", ":", "*", "-", "~", "[", "]", "'", "%", "{}", "<", "\u{7f}", "\u{feff}", "\u{2028}",
    ]);
    match u(12) {
        0 => String::new(),
        1 => format!("{s}{w}"),
        2 => format!("{w}{s}"),
        3 | 4 => {
            let mut k = us(s.len() + 1);
            while !s.is_char_boundary(k) {
                k -= 1;
            }
            format!("{}{w}{}", &s[..k], &s[k..])
        }
        5 => format!("{s} {s}"),
        6 => s.repeat(*pick(&[2, 3, 20, 100])),
        7 => s.to_uppercase(),
        8 => crate::faults::any_word().to_owned(),
        9 => (*w).to_owned(),
        10 => format!("{s}{}{s} {}", w, crate::faults::any_word()),
        _ => {
            // other casing of single letters
            s.chars().map(|c| if p(1, 2) { c.to_ascii_uppercase() } else { c }).collect()
        }
    }
}
fn number(n: u64) -> u64 {
    if let Some(n) = crate::dict::int(u64::MAX) {
        return n;
    }
    match u(4) {
        0 => *pick(&[0, 1, 255, 256, 65_535, 65_536, 4_294_967_295, 4_294_967_296, (1 << 53) + 1, u64::MAX]),
        1 => n ^ (1 << u(64)),
        2 => n.wrapping_add(1 + u(3)),
        _ => u(u64::MAX) >> u(64),
    }
}

/// Changes a few fields to what only an application could put there.
pub fn wild(t: &mut V) {
    let mut all = Vec::new();
    visit(t, "", "", String::new(), &mut all);
    if all.is_empty() {
        return;
    }
    for _ in 0..len(1, 8) {
        crate::ch::span(|| {
            let (at, leaf) = &all[us(all.len())];
            let v = t.pointer_mut(at).unwrap();
            let key = at.rsplit('/').next().unwrap();
            let key = if key.parse::<u64>().is_ok() { at.rsplit('/').nth(1).unwrap_or("") } else { key };
            *v = match (leaf, &*v) {
                (Leaf::Text, V::String(s)) => json!(text(s)),
                (Leaf::Num, V::Number(n)) => json!(number(n.as_u64().unwrap_or(0))),
                (Leaf::Bool, V::Bool(b)) => json!(!*b),
                (Leaf::Gap, V::Null) if NUMERIC.contains(&key) => json!(number(0)),
                (Leaf::Gap, V::Null) => json!(text("zq")),
                (Leaf::Gap, _) => V::Null,
                _ => return,
            };
            run::hit("fault.field-out-of-the-ordinary");
        });
    }
}

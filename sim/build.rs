//! What the workload generators may borrow from the library's source: its
//! numbers and words, and those near lines that are not in the recorded tree
//! (`base.lines`). They only steer what is generated, never what is judged.
use std::collections::BTreeSet;
use std::fmt::Write;
use std::path::{Path, PathBuf};

fn hash(s: &str) -> u32 {
    s.bytes().fold(0x811c_9dc5, |h, b| (h ^ u32::from(b)).wrapping_mul(0x0100_0193))
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Int(u64),
    Str(String),
    Word(String),
}

/// Tokens with their line, comments left out; and the text of each line
/// without comments and blanks.
fn lex(src: &str) -> (Vec<(usize, Tok)>, Vec<String>) {
    let c: Vec<char> = src.chars().collect();
    let mut toks = Vec::new();
    let mut code = vec![String::new()];
    let (mut i, mut line) = (0, 0);
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    while i < c.len() {
        let ch = c[i];
        let from = i;
        let start = line;
        if ch == '\n' {
            line += 1;
            code.push(String::new());
            i += 1;
            continue;
        }
        if ch.is_whitespace() {
            i += 1;
            continue;
        }
        if ch == '/' && at(i + 1) == '/' {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
            continue;
        }
        if ch == '/' && at(i + 1) == '*' {
            i += 2;
            while i < c.len() && !(c[i] == '*' && at(i + 1) == '/') {
                if c[i] == '\n' {
                    line += 1;
                    code.push(String::new());
                }
                i += 1;
            }
            i += 2;
            continue;
        }
        let raw = ch == 'r' && (at(i + 1) == '"' || (at(i + 1) == '#' && (at(i + 2) == '"' || at(i + 2) == '#')));
        if raw {
            let mut n = 0;
            i += 1;
            while at(i) == '#' {
                n += 1;
                i += 1;
            }
            i += 1;
            let s0 = i;
            let close: String = std::iter::once('"').chain(std::iter::repeat('#').take(n)).collect();
            while i < c.len() && c[i..].iter().take(n + 1).collect::<String>() != close {
                i += 1;
            }
            toks.push((start, Tok::Str(c[s0..i.min(c.len())].iter().collect())));
            i += n + 1;
        } else if ch == '"' {
            let mut s = String::new();
            i += 1;
            while i < c.len() && c[i] != '"' {
                if c[i] == '\\' {
                    i += 1;
                    match at(i) {
                        'n' => s.push('\n'),
                        'r' => s.push('\r'),
                        't' => s.push('\t'),
                        '\n' => {
                            while at(i + 1).is_whitespace() {
                                i += 1;
                            }
                        }
                        x => s.push(x),
                    }
                } else {
                    s.push(c[i]);
                }
                i += 1;
            }
            i += 1;
            toks.push((start, Tok::Str(s)));
        } else if ch == '\'' && (at(i + 1) == '\\' || at(i + 2) == '\'') {
            let mut j = i + 1;
            if at(j) == '\\' {
                j += 1;
                if at(j) == 'u' {
                    let mut hex = String::new();
                    while j < c.len() && c[j] != '}' {
                        if c[j].is_ascii_hexdigit() && c[j - 1] != '\\' {
                            hex.push(c[j]);
                        }
                        j += 1;
                    }
                    if let Some(x) = u32::from_str_radix(&hex, 16).ok().and_then(char::from_u32) {
                        toks.push((start, Tok::Str(x.to_string())));
                    }
                } else {
                    toks.push((start, Tok::Str(at(j).to_string())));
                }
            } else {
                toks.push((start, Tok::Str(at(j).to_string())));
            }
            while j < c.len() && c[j] != '\'' {
                j += 1;
            }
            i = j + 1;
        } else if ch.is_ascii_digit() {
            while at(i).is_ascii_alphanumeric() || at(i) == '_' {
                i += 1;
            }
            let t: String = c[from..i].iter().filter(|c| **c != '_').collect();
            let (t, radix) = match t.get(..2) {
                Some("0x") => (t[2..].to_owned(), 16),
                Some("0b") => (t[2..].to_owned(), 2),
                Some("0o") => (t[2..].to_owned(), 8),
                _ => (t, 10),
            };
            let t = if radix == 16 {
                t.split(['u', 'i', 's', 'z']).next().unwrap_or("").to_owned()
            } else {
                t.chars().take_while(char::is_ascii_digit).collect()
            };
            if let Ok(n) = u64::from_str_radix(&t, radix) {
                toks.push((start, Tok::Int(n)));
            }
        } else if ch.is_alphabetic() || ch == '_' {
            while at(i).is_alphanumeric() || at(i) == '_' {
                i += 1;
            }
            toks.push((start, Tok::Word(c[from..i].iter().collect())));
        } else {
            i += 1;
        }
        let text: String = c[from..i.min(c.len())].iter().collect();
        code[start].push_str(&text.replace('\n', " "));
        for _ in text.matches('\n') {
            line += 1;
            code.push(String::new());
        }
    }
    (toks, code)
}

/// Which of `new` are not part of a longest common subsequence with `old`;
/// a place where lines are missing marks its neighbours.
fn changed(old: &[u32], new: &[u32]) -> Vec<usize> {
    let mut a = 0;
    while a < old.len() && a < new.len() && old[a] == new[a] {
        a += 1;
    }
    let (mut x, mut y) = (old.len(), new.len());
    while x > a && y > a && old[x - 1] == new[y - 1] {
        x -= 1;
        y -= 1;
    }
    let (o, n) = (&old[a..x], &new[a..y]);
    let mut out = BTreeSet::new();
    let mut mark = |i: usize| {
        out.insert(i.min(new.len().saturating_sub(1)));
    };
    if o.is_empty() && n.is_empty() {
        return Vec::new();
    }
    if o.is_empty() || n.is_empty() || o.len() * n.len() > 16_000_000 {
        for i in a..y {
            mark(i);
        }
        if n.is_empty() {
            mark(a.saturating_sub(1));
            mark(a);
        }
        return out.into_iter().collect();
    }
    let w = n.len() + 1;
    let mut t = vec![0u16; (o.len() + 1) * w];
    for i in (0..o.len()).rev() {
        for j in (0..n.len()).rev() {
            t[i * w + j] = if o[i] == n[j] {
                t[(i + 1) * w + j + 1] + 1
            } else {
                t[(i + 1) * w + j].max(t[i * w + j + 1])
            };
        }
    }
    let (mut i, mut j) = (0, 0);
    while i < o.len() || j < n.len() {
        if i < o.len() && j < n.len() && o[i] == n[j] {
            i += 1;
            j += 1;
        } else if j < n.len() && (i == o.len() || t[i * w + j + 1] >= t[(i + 1) * w + j]) {
            mark(a + j);
            j += 1;
        } else {
            mark((a + j).saturating_sub(1));
            mark(a + j);
            i += 1;
        }
    }
    out.into_iter().collect()
}

/// The parts of an identifier, and the whole without separators.
fn parts(w: &str) -> Vec<String> {
    let mut v = vec![w.chars().filter(|c| c.is_alphanumeric()).collect::<String>().to_lowercase()];
    let mut cur = String::new();
    for c in w.chars() {
        if !c.is_alphanumeric() || c.is_uppercase() {
            v.push(std::mem::take(&mut cur));
        }
        if c.is_alphanumeric() {
            cur.extend(c.to_lowercase());
        }
    }
    v.push(cur);
    v.retain(|x| x.len() > 1);
    v
}

#[derive(Default)]
struct Found {
    changed: usize,
    record: String,
    ints: BTreeSet<u64>,
    strs: BTreeSet<String>,
    new_ints: BTreeSet<u64>,
    new_strs: BTreeSet<String>,
    new_words: BTreeSet<String>,
}

fn find() -> Found {
    let here = PathBuf::from(std::env::var("CARGO_MANIFEST_DIR").unwrap());
    let manifest = std::fs::read_to_string(here.join("Cargo.toml")).unwrap();
    let path = manifest
        .lines()
        .find(|l| l.starts_with("webrtc-sdp"))
        .and_then(|l| l.split("path = \"").nth(1))
        .and_then(|l| l.split('"').next())
        .unwrap()
        .to_owned();
    let src = Path::new(&path).join("src");
    println!("cargo:rerun-if-changed={}", src.display());
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed=base.lines");
    let base = std::fs::read_to_string(here.join("base.lines")).unwrap_or_default();
    let recorded = |f: &str| -> Vec<u32> {
        base.lines()
            .find(|l| l.split(' ').next() == Some(f))
            .map(|l| l.split(' ').skip(1).map(|h| u32::from_str_radix(h, 16).unwrap()).collect())
            .unwrap_or_default()
    };
    let mut files = Vec::new();
    let mut dirs = vec![src.clone()];
    while let Some(d) = dirs.pop() {
        for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
            let p = e.path();
            if p.is_dir() {
                dirs.push(p);
            } else if p.extension().is_some_and(|x| x == "rs") && !p.to_string_lossy().ends_with("tests.rs") {
                files.push(p);
            }
        }
    }
    files.sort();
    let mut record = String::new();
    let (mut ints, mut strs) = (BTreeSet::new(), BTreeSet::new());
    let (mut new_ints, mut new_strs, mut new_words) = (BTreeSet::new(), BTreeSet::new(), BTreeSet::new());
    let mut n_changed = 0;
    for f in files {
        let text = std::fs::read_to_string(&f).unwrap_or_default();
        let name = f.strip_prefix(&src).unwrap().to_string_lossy().replace(' ', "_");
        let (toks, code) = lex(&text);
        let at: Vec<usize> = (0..code.len()).filter(|i| !code[*i].is_empty()).collect();
        let hashes: Vec<u32> = at.iter().map(|i| hash(&code[*i])).collect();
        let _ = write!(record, "{name}");
        for h in &hashes {
            let _ = write!(record, " {h:x}");
        }
        record.push('\n');
        let diff = changed(&recorded(&name), &hashes);
        n_changed += diff.len();
        let mut near = BTreeSet::new();
        let mut exact = BTreeSet::new();
        for k in diff {
            exact.insert(at[k]);
            for x in k.saturating_sub(3)..(k + 4).min(at.len()) {
                near.insert(at[x]);
            }
            // the heads of what encloses it
            let lines: Vec<&str> = text.lines().collect();
            let indent = |i: usize| lines[i].len() - lines[i].trim_start().len();
            let mut depth = indent(at[k]);
            for i in (0..=at[k]).rev() {
                if !code[i].is_empty() && indent(i) < depth {
                    depth = indent(i);
                    near.insert(i);
                }
            }
        }
        for (l, t) in toks {
            match t {
                Tok::Int(n) => {
                    if n > 1 {
                        ints.insert(n);
                        if exact.contains(&l) {
                            new_ints.insert(n);
                        }
                    }
                }
                Tok::Str(s) => {
                    // the fixed pieces of a format
                    let mut depth = 0;
                    let mut piece = String::new();
                    let mut pieces = Vec::new();
                    for c in s.chars() {
                        match c {
                            '{' => {
                                depth += 1;
                                pieces.push(std::mem::take(&mut piece));
                            }
                            '}' if depth > 0 => depth -= 1,
                            _ if depth == 0 => piece.push(c),
                            _ => {}
                        }
                    }
                    pieces.push(piece);
                    pieces.push(s.clone());
                    for x in pieces {
                        let x = x.trim_matches(|c| c == '\r' || c == '\n').to_owned();
                        if x.is_empty() || x.len() > 60 {
                            continue;
                        }
                        if x.matches(' ').count() < 3 {
                            strs.insert(x.clone());
                        }
                        if exact.contains(&l) {
                            new_strs.insert(x.clone());
                        }
                        if near.contains(&l) {
                            new_words.extend(parts(&x));
                        }
                    }
                }
                Tok::Word(w) => {
                    if near.contains(&l) {
                        new_words.extend(parts(&w));
                    }
                }
            }
        }
    }
    Found { changed: n_changed, record, ints, strs, new_ints, new_strs, new_words }
}

fn main() {
    // (without them the generators make do with what they know themselves)
    let f = std::panic::catch_unwind(find).unwrap_or_default();
    let out = PathBuf::from(std::env::var("OUT_DIR").unwrap());
    // (what `base.lines` holds when the present tree is recorded)
    std::fs::write(out.join("base.lines"), &f.record).unwrap();
    let list = |s: &BTreeSet<String>| s.iter().cloned().collect::<Vec<_>>();
    let nums = |s: &BTreeSet<u64>| s.iter().copied().collect::<Vec<_>>();
    let mut d = String::new();
    let _ = writeln!(d, "pub const CHANGED: usize = {};", f.changed);
    let _ = writeln!(d, "pub const INTS: &[u64] = &{:?};", nums(&f.ints));
    let _ = writeln!(d, "pub const STRS: &[&str] = &{:?};", list(&f.strs));
    let _ = writeln!(d, "pub const NEW_INTS: &[u64] = &{:?};", nums(&f.new_ints));
    let _ = writeln!(d, "pub const NEW_STRS: &[&str] = &{:?};", list(&f.new_strs));
    let _ = writeln!(d, "pub const NEW_WORDS: &[&str] = &{:?};", list(&f.new_words));
    std::fs::write(out.join("dict.rs"), d).unwrap();
}

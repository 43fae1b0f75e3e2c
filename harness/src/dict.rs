//! A dictionary for the generators: the numbers and words the code under test compares
//! with that it did not have when the baseline `dict.txt` was written.  A fuzzer's
//! dictionary, taken from the source instead of the binary.  It decides nothing; on the
//! tree of the baseline it is empty and no choice is spent on it.

use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::OnceLock;

#[derive(Default, Debug)]
pub struct Dict {
    /// numbers from 3 on
    pub ints: Vec<u64>,
    /// those that can be a count of things in a text
    pub counts: Vec<u64>,
    /// those that can be a length of a text
    pub sizes: Vec<u64>,
    /// words that may stand as an unquoted name
    pub words: Vec<String>,
    /// keywords
    pub keys: Vec<String>,
    /// texts of any kind
    pub texts: Vec<String>,
}

fn subject() -> PathBuf {
    let h = Path::new(env!("CARGO_MANIFEST_DIR"));
    let t = std::fs::read_to_string(h.join("Cargo.toml")).unwrap_or_default();
    let p = t.lines().find(|l| l.starts_with("sql-parse")).and_then(|l| l.split('"').nth(1)).unwrap_or("/repo");
    h.join(p).join("src")
}
fn files(d: &Path, v: &mut Vec<PathBuf>) {
    for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
        let p = e.path();
        if p.is_dir() {
            files(&p, v);
        } else if p.extension().is_some_and(|x| x == "rs") {
            v.push(p);
        }
    }
}
fn unescape(c: char, it: &mut std::iter::Peekable<std::str::Chars>) -> Option<char> {
    if c != '\\' {
        return Some(c);
    }
    Some(match it.next()? {
        'n' => '\n',
        'r' => '\r',
        't' => '\t',
        '0' => '\0',
        'x' => {
            let h: String = [it.next()?, it.next()?].iter().collect();
            char::from_u32(u32::from_str_radix(&h, 16).ok()?)?
        }
        'u' => {
            let h: String = it.by_ref().take_while(|c| *c != '}').filter(|c| c.is_ascii_hexdigit()).collect();
            char::from_u32(u32::from_str_radix(&h, 16).ok()?)?
        }
        '\n' => {
            while it.next_if(|c| c.is_whitespace()).is_some() {}
            return None;
        }
        c => c,
    })
}
/// The literals and keyword names of Rust source text, as `i…`, `s…` and `k…`.
fn literals(src: &str) -> Vec<String> {
    let mut v: Vec<String> = Vec::new();
    let mut it = src.chars().peekable();
    // the number before, and what was between it and here
    let mut last: Option<u64> = None;
    let mut between = String::new();
    let mut word = String::new();
    while let Some(c) = it.next() {
        match c {
            '/' if it.peek() == Some(&'/') => {
                while it.next_if(|c| *c != '\n').is_some() {}
            }
            '/' if it.peek() == Some(&'*') => {
                let mut p = ' ';
                for c in it.by_ref() {
                    if p == '*' && c == '/' {
                        break;
                    }
                    p = c;
                }
            }
            '"' => {
                let raw = matches!(word.as_str(), "r" | "br");
                let mut s = String::new();
                while let Some(c) = it.next() {
                    match c {
                        '"' => break,
                        c if raw => s.push(c),
                        c => s.extend(unescape(c, &mut it)),
                    }
                }
                v.push(format!("s{s}"));
                word.clear();
                last = None;
            }
            '\'' => {
                // a character, or a lifetime
                let mut ahead = it.clone();
                let a = ahead.next();
                let ch = a.and_then(|a| unescape(a, &mut ahead));
                if ahead.next() == Some('\'') {
                    if let Some(ch) = ch {
                        v.push(format!("s{ch}"));
                    }
                    it = ahead;
                }
                word.clear();
                last = None;
            }
            '0'..='9' => {
                let mut s = c.to_string();
                while let Some(c) = it.next_if(|c| c.is_ascii_alphanumeric() || *c == '_') {
                    s.push(c);
                }
                let t = s.replace('_', "");
                let t = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "isize"]
                    .iter()
                    .find_map(|x| t.strip_suffix(x).map(|t| t.to_string()))
                    .unwrap_or(t);
                let n = match t.get(..2) {
                    Some("0x") => u64::from_str_radix(&t[2..], 16),
                    Some("0b") => u64::from_str_radix(&t[2..], 2),
                    Some("0o") => u64::from_str_radix(&t[2..], 8),
                    _ => t.parse(),
                };
                if let Ok(n) = n {
                    v.push(format!("i{n}"));
                    let n2 = match (last, between.trim()) {
                        (Some(a), "<<") if n < 64 => a.checked_shl(n as u32),
                        (Some(a), "*") => a.checked_mul(n),
                        (Some(a), "+") => a.checked_add(n),
                        (Some(a), "-") => a.checked_sub(n),
                        _ => None,
                    };
                    if let Some(n) = n2 {
                        v.push(format!("i{n}"));
                    }
                    last = Some(n2.unwrap_or(n));
                    between.clear();
                }
                word.clear();
            }
            c if c.is_alphabetic() || c == '_' => {
                word = c.to_string();
                while let Some(c) = it.next_if(|c| c.is_alphanumeric() || *c == '_') {
                    word.push(c);
                }
                if it.peek() == Some(&'"') && matches!(word.as_str(), "r" | "b" | "br") || it.peek() == Some(&'\'') {
                    continue;
                }
                let mut ahead = it.clone();
                if ahead.next() == Some(':') && ahead.next() == Some(':') {
                    let w: String = ahead.clone().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                    let m = match (word.as_str(), w.as_str()) {
                        ("u8", "MAX") => Some(u8::MAX as u64),
                        ("i8", "MAX") => Some(i8::MAX as u64),
                        ("u16", "MAX") => Some(u16::MAX as u64),
                        ("i16", "MAX") => Some(i16::MAX as u64),
                        ("u32", "MAX") => Some(u32::MAX as u64),
                        ("i32", "MAX") => Some(i32::MAX as u64),
                        ("i64" | "isize", "MAX") => Some(i64::MAX as u64),
                        ("u64" | "usize", "MAX") => Some(u64::MAX),
                        _ => None,
                    };
                    if let Some(m) = m {
                        v.push(format!("i{m}"));
                    }
                    if word == "Keyword" {
                        v.push(format!("k{w}"));
                    }
                }
                last = None;
                word.clear();
            }
            c => between.push(c),
        }
    }
    v
}
fn counted() -> BTreeMap<String, usize> {
    let mut fs = Vec::new();
    files(&subject(), &mut fs);
    let mut m = BTreeMap::new();
    for f in fs {
        for l in literals(&std::fs::read_to_string(f).unwrap_or_default()) {
            *m.entry(l).or_insert(0) += 1;
        }
    }
    m
}
/// The baseline: one line for every literal, with how often it is there.
pub fn baseline() -> String {
    counted().iter().map(|(k, n)| format!("{n} {}\n", k.escape_default())).collect()
}
fn read() -> Dict {
    let mut d = Dict::default();
    if std::env::var_os("SQLCHECK_NO_DICT").is_some() {
        return d;
    }
    let mut base: BTreeMap<&str, usize> = BTreeMap::new();
    // with SQLCHECK_ALL_DICT every literal counts as new: to try the generators out
    if std::env::var_os("SQLCHECK_ALL_DICT").is_none() {
        for l in include_str!("../dict.txt").lines() {
            if let Some((n, k)) = l.split_once(' ') {
                base.insert(k, n.parse().unwrap_or(0));
            }
        }
    }
    for (l, n) in counted() {
        if n <= base.get(l.escape_default().to_string().as_str()).copied().unwrap_or(0) {
            continue;
        }
        let t = &l[1..];
        match l.as_bytes()[0] {
            b'i' => {
                let n: u64 = t.parse().unwrap();
                if n >= 3 {
                    d.ints.push(n);
                    if n <= 1100 {
                        d.counts.push(n);
                    }
                    if n <= 70_000 {
                        d.sizes.push(n);
                    }
                }
            }
            b'k' => d.keys.push(t.to_string()),
            _ if t.is_empty() || t.len() > 40 || t.contains('{') => {}
            _ => {
                d.texts.push(t.to_string());
                let wordy = t.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') && !t.as_bytes()[0].is_ascii_digit();
                if wordy && crate::words::special(t) {
                    d.keys.push(t.to_ascii_uppercase());
                } else if wordy {
                    d.words.push(t.to_string());
                }
            }
        }
    }
    d
}
pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(read)
}
/// Whether dictionary `v` is to be used here: with probability 1 in `den`, and
/// without a choice when it is empty.
pub fn hit<X>(g: &mut crate::gen::Gen, v: &[X], den: u32) -> bool {
    !v.is_empty() && g.p(1, den)
}
pub fn some<X: Clone>(g: &mut crate::gen::Gen, v: &[X]) -> X {
    v[g.c(v.len() as u32) as usize].clone()
}
/// A number of the dictionary, or one of its neighbours.
pub fn near(g: &mut crate::gen::Gen, v: &[u64]) -> u64 {
    let n = some(g, v);
    match g.c(4) {
        0 | 1 => n,
        2 => n.saturating_add(1),
        _ => n - 1,
    }
}
/// A text with a dictionary text in it, in some case.
pub fn variant(g: &mut crate::gen::Gen, t: String) -> String {
    let t = match g.c(8) {
        0..=3 => t,
        4 => t.to_ascii_lowercase(),
        5 => t.to_ascii_uppercase(),
        6 => {
            let mut i = 0;
            t.chars().map(|c| { i += 1; if i % 2 == 0 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() } }).collect()
        }
        _ => {
            let mut c = t.chars();
            c.next().map(|f| f.to_uppercase().collect::<String>() + c.as_str()).unwrap_or_default()
        }
    };
    match g.c(6) {
        0..=2 => t,
        3 => t + ["a", "_b", "s", "2"][g.c(4) as usize],
        4 => ["a", "b_", "X", "_"][g.c(4) as usize].to_string() + &t,
        _ => format!("a{t}b"),
    }
}

//! A dictionary for the generators, taken from the source of the crate under test: its literals, shifts and products of
//! literals, and the edges of the number types it mentions. Code often behaves differently on either side of a number
//! or around a text it spells out; values from here make the generators try just those. Only generation depends on the
//! dictionary, no verdict does.
use std::collections::BTreeSet;
use std::path::{Path, PathBuf};
use std::sync::OnceLock;

#[derive(Default, Debug)]
pub struct Dict {
    ints: BTreeSet<u64>,
    floats: Vec<f64>,
    strings: BTreeSet<String>,
    chars: BTreeSet<char>,
}

fn sources(dir: &Path, out: &mut Vec<PathBuf>) {
    let Ok(d) = std::fs::read_dir(dir) else { return };
    for p in d.filter_map(|e| e.ok()).map(|e| e.path()) {
        if p.is_dir() {
            sources(&p, out);
        } else if p.extension().is_some_and(|e| e == "rs") {
            out.push(p);
        }
    }
}
fn root() -> PathBuf {
    // Where the harness's own dependency is.
    let toml = include_str!("../Cargo.toml");
    let path = toml.lines().find_map(|l| l.strip_prefix("prometrics = { path = \"")).and_then(|l| l.split('"').next()).unwrap_or("/repo");
    Path::new(path).join("src")
}

#[derive(Debug, Clone, PartialEq)]
enum Tok {
    Int(u64),
    Float(f64),
    Str(String),
    Char(char),
    Ident(String),
    Op(char),
}
fn unescape(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c != '\\' {
            out.push(c);
            continue;
        }
        match it.next() {
            Some('n') => out.push('\n'),
            Some('r') => out.push('\r'),
            Some('t') => out.push('\t'),
            Some('0') => out.push('\0'),
            Some('x') => {
                let h: String = it.by_ref().take(2).collect();
                out.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
            }
            Some('u') => {
                let h: String = it.by_ref().take_while(|c| *c != '}').filter(|c| c.is_ascii_hexdigit()).collect();
                out.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
            }
            Some('\n') => while it.next_if(|c| c.is_whitespace()).is_some() {},
            Some(c) => out.push(c),
            None => {}
        }
    }
    out
}
fn number(t: &str) -> Option<Tok> {
    let t = t.replace('_', "");
    for (p, radix) in [("0x", 16), ("0b", 2), ("0o", 8)] {
        if let Some(d) = t.strip_prefix(p) {
            let d: String = d.chars().take_while(|c| c.is_digit(radix)).collect();
            return u64::from_str_radix(&d, radix).ok().map(Tok::Int);
        }
    }
    let body = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"].iter().find_map(|s| t.strip_suffix(s)).unwrap_or(&t);
    if let Ok(n) = body.parse::<u64>() {
        return Some(Tok::Int(n));
    }
    let body = ["f32", "f64"].iter().find_map(|s| t.strip_suffix(s)).unwrap_or(&t);
    body.parse().ok().map(Tok::Float)
}
fn lex(src: &str) -> Vec<Tok> {
    let c: Vec<char> = src.chars().collect();
    let at = |i: usize| c.get(i).cloned().unwrap_or('\0');
    let mut out = vec![];
    let mut i = 0;
    while i < c.len() {
        let x = c[i];
        if x == '/' && at(i + 1) == '/' {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if x == '/' && at(i + 1) == '*' {
            i += 2;
            while i < c.len() && !(c[i] == '*' && at(i + 1) == '/') {
                i += 1;
            }
            i += 2;
        } else if (x == 'r' || (x == 'b' && at(i + 1) == 'r')) && (at(i + 1 + usize::from(x == 'b')) == '"' || at(i + 1 + usize::from(x == 'b')) == '#') {
            let mut j = i + 1 + usize::from(x == 'b');
            let mut n = 0;
            while at(j) == '#' {
                n += 1;
                j += 1;
            }
            if at(j) != '"' {
                i += 1;
                continue;
            }
            let from = j + 1;
            j = from;
            while j < c.len() && !(c[j] == '"' && (1..=n).all(|k| at(j + k) == '#')) {
                j += 1;
            }
            out.push(Tok::Str(c[from.min(c.len())..j.min(c.len())].iter().collect()));
            i = j + 1 + n;
        } else if x == '"' {
            let from = i + 1;
            let mut j = from;
            while j < c.len() && c[j] != '"' {
                j += 1 + usize::from(c[j] == '\\');
            }
            out.push(Tok::Str(unescape(&c[from..j.min(c.len())].iter().collect::<String>())));
            i = j + 1;
        } else if x == '\'' {
            // A character, or a lifetime.
            let end = if at(i + 1) == '\\' { (i + 3..(i + 14).min(c.len())).find(|j| c[*j] == '\'') } else { Some(i + 2).filter(|j| at(*j) == '\'') };
            match end {
                Some(j) => {
                    let s = unescape(&c[i + 1..j].iter().collect::<String>());
                    out.extend(s.chars().next().map(Tok::Char));
                    i = j + 1;
                }
                None => i += 1,
            }
        } else if x.is_ascii_digit() {
            let mut j = i;
            while at(j).is_ascii_alphanumeric() || at(j) == '_' || (at(j) == '.' && at(j + 1).is_ascii_digit()) || ((at(j) == '-' || at(j) == '+') && matches!(at(j - 1), 'e' | 'E') && !c[i..j].starts_with(&['0', 'x'])) {
                j += 1;
            }
            out.extend(number(&c[i..j].iter().collect::<String>()));
            i = j;
        } else if x.is_alphabetic() || x == '_' {
            let mut j = i;
            while at(j).is_alphanumeric() || at(j) == '_' {
                j += 1;
            }
            out.push(Tok::Ident(c[i..j].iter().collect()));
            i = j;
        } else {
            if !x.is_whitespace() {
                out.push(Tok::Op(x));
            }
            i += 1;
        }
    }
    out
}
fn collect(d: &mut Dict, src: &str) {
    let src = src.split("#[cfg(test)]").next().unwrap_or("");
    let t = lex(src);
    for (i, x) in t.iter().enumerate() {
        match x {
            Tok::Int(n) => {
                d.ints.insert(*n);
                // 1 << 20, 2u64.pow(20)
                if let (Some(Tok::Op('<')), Some(Tok::Op('<')), Some(Tok::Int(k))) = (t.get(i + 1), t.get(i + 2), t.get(i + 3)) {
                    d.ints.extend(if *k < 64 { n.checked_shl(*k as u32) } else { None });
                }
                if let (Some(Tok::Op('.')), Some(Tok::Ident(f)), Some(Tok::Op('(')), Some(Tok::Int(k))) = (t.get(i + 1), t.get(i + 2), t.get(i + 3), t.get(i + 4)) {
                    if f == "pow" {
                        d.ints.extend(n.checked_pow(*k as u32));
                    }
                }
                // 24 * 60 * 60
                let (mut p, mut j) = (*n, i);
                while let (Some(Tok::Op('*')), Some(Tok::Int(m))) = (t.get(j + 1), t.get(j + 2)) {
                    p = p.saturating_mul(*m);
                    d.ints.insert(p);
                    j += 2;
                }
            }
            Tok::Float(f) => {
                d.floats.push(*f);
                if let (Some(Tok::Op('.')), Some(Tok::Ident(p)), Some(Tok::Op('(')), Some(Tok::Int(k))) = (t.get(i + 1), t.get(i + 2), t.get(i + 3), t.get(i + 4)) {
                    if p == "powi" {
                        d.floats.push(f.powi(*k as i32));
                    }
                }
            }
            Tok::Str(s) => {
                if s.len() <= 64 {
                    d.strings.insert(s.clone());
                }
                // The pieces of a format string.
                d.strings.extend(s.split(|c| c == '{' || c == '}').filter(|p| !p.is_empty() && p.len() <= 64).map(|p| p.to_string()));
            }
            Tok::Char(c) => {
                d.chars.insert(*c);
            }
            Tok::Ident(s) => {
                let edges: &[u64] = match s.as_str() {
                    "u8" => &[255, 256],
                    "i8" => &[127, 128],
                    "u16" => &[65_535, 65_536],
                    "i16" => &[32_767, 32_768],
                    "u32" => &[u32::MAX as u64, 1 << 32],
                    "i32" => &[i32::MAX as u64, 1 << 31],
                    "f32" => &[(1 << 24) + 1],
                    "i64" => &[i64::MAX as u64, 1 << 63],
                    _ => &[],
                };
                d.ints.extend(edges);
                if s == "EPSILON" {
                    d.floats.extend([f64::EPSILON, f32::EPSILON as f64]);
                }
                if s == "f32" {
                    d.floats.extend([f32::MAX as f64, f32::MIN_POSITIVE as f64, 1.0 + f32::EPSILON as f64, 0.1]);
                }
            }
            Tok::Op(_) => {}
        }
    }
}
pub fn get() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let mut files = vec![];
        sources(&root(), &mut files);
        files.sort();
        let mut d = Dict::default();
        for f in files {
            collect(&mut d, &std::fs::read_to_string(f).unwrap_or_default());
        }
        d
    })
}
/// Whole numbers: those of the source and the ones next to them. (Never empty.)
pub fn ints() -> Vec<u64> {
    let s: BTreeSet<u64> = get().ints.iter().flat_map(|n| [n.saturating_sub(1), *n, n.saturating_add(1)]).chain([2]).collect();
    s.into_iter().collect()
}
/// Sizes of something, so many of which can be made.
pub fn sizes(max: u64) -> Vec<u64> {
    let twice: BTreeSet<u64> = ints().into_iter().flat_map(|n| [n, n.saturating_mul(2)]).filter(|n| *n <= max).chain([max.min(2)]).collect();
    twice.into_iter().collect()
}
/// Numbers, of any sign, none NaN: those of the source, the ones next to them, and ones that differ from 1 by as much.
pub fn floats() -> Vec<f64> {
    let d = get();
    let all: Vec<f64> = d.floats.iter().cloned().chain(d.ints.iter().map(|n| *n as f64)).filter(|f| !f.is_nan()).collect();
    let near = |f: f64| [f, f.next_up(), f.next_down()];
    let mut out = vec![1.0];
    for f in all {
        out.extend(near(f));
        out.extend(near(-f));
        out.extend([f + 0.5, f - 0.5, 1.0 / f, 1.0 + f, 1.0 - f, 1.0 + f / 2.0]);
    }
    out.retain(|f| !f.is_nan());
    out
}
/// Spans of time in nanoseconds: the numbers of the source in every unit.
pub fn spans() -> Vec<u64> {
    let mut out = BTreeSet::from([1]);
    for n in ints() {
        for unit in [1u64, 1_000, 1_000_000, 1_000_000_000, 60_000_000_000, 3_600_000_000_000] {
            out.extend(n.checked_mul(unit).filter(|s| *s > 0 && *s < 1 << 62));
        }
    }
    for f in &get().floats {
        let s = f * 1e9;
        if s >= 1.0 && s < 1e18 {
            out.insert(s as u64);
        }
    }
    out.into_iter().collect()
}
/// Pieces of text, with the characters of the source and those next to them.
pub fn strings() -> Vec<String> {
    let d = get();
    let mut out: BTreeSet<String> = d.strings.clone();
    for c in &d.chars {
        out.insert(c.to_string());
        out.extend(char::from_u32(*c as u32 + 1).map(|c| c.to_string()));
        out.extend((*c as u32).checked_sub(1).and_then(char::from_u32).map(|c| c.to_string()));
    }
    out.insert(String::new());
    out.into_iter().collect()
}
/// The texts of the source that can be part of a name.
pub fn names() -> Vec<String> {
    let ok = |s: &String| !s.is_empty() && s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_');
    let mut out: Vec<String> = strings().into_iter().filter(ok).collect();
    out.push("a".into());
    out
}

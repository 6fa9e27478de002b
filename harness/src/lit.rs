//! A dictionary for the generators: the strings and numbers written in the library's source.
//!
//! Code that treats one particular value differently mostly names that value, so these are the
//! values worth drawing more often than chance would (as the automatic dictionaries of AFL++ and
//! libFuzzer do). Values that the source has now and had not when `literals.txt` was written come
//! first. The dictionary only steers what is generated: whether a case holds is decided by what the
//! library does with it.

use std::collections::BTreeMap;
use std::sync::atomic::{AtomicPtr, Ordering};
use std::sync::Once;

#[derive(Default, Clone)]
pub struct Dict {
    pub texts: Vec<String>,
    pub ints: Vec<u64>,
    /// All strings, new or not.
    pub old: Vec<String>,
}
static DICT: AtomicPtr<Dict> = AtomicPtr::new(std::ptr::null_mut());
static ONCE: Once = Once::new();

pub fn dict() -> &'static Dict {
    let p = DICT.load(Ordering::Acquire);
    if !p.is_null() {
        return unsafe { &*p };
    }
    ONCE.call_once(|| DICT.store(Box::into_raw(Box::new(from_source())), Ordering::Release));
    unsafe { &*DICT.load(Ordering::Acquire) }
}
/// Use the dictionary that a replay file recorded.
pub fn set(texts: Vec<String>, ints: Vec<u64>) {
    let d = Dict { texts, ints, old: old_texts() };
    ONCE.call_once(|| {});
    DICT.store(Box::into_raw(Box::new(d)), Ordering::Release);
}
/// What a replay file records of it.
pub fn record() -> String {
    let d = dict();
    if d.texts.is_empty() && d.ints.is_empty() {
        return String::new();
    }
    format!(
        "new-texts: {}\nnew-numbers: {}\n",
        d.texts.iter().map(|t| crate::engine::hex(t.as_bytes())).collect::<Vec<_>>().join(" "),
        d.ints.iter().map(|i| i.to_string()).collect::<Vec<_>>().join(" ")
    )
}
pub fn load(texts: &str, ints: &str) {
    set(
        texts.split(' ').filter(|t| !t.is_empty()).filter_map(|t| String::from_utf8(crate::engine::unhex(t)).ok()).collect(),
        ints.split(' ').filter_map(|t| t.parse().ok()).collect(),
    );
}

const BASE: &str = include_str!("../literals.txt");

fn base() -> BTreeMap<String, u64> {
    BASE.lines().filter_map(|l| l.split_once(' ')).map(|(n, k)| (k.to_string(), n.parse().unwrap_or(0))).collect()
}
fn old_texts() -> Vec<String> {
    base().into_keys().filter_map(|k| text_of(&k)).collect()
}
fn text_of(k: &str) -> Option<String> {
    k.strip_prefix("s ").and_then(|h| String::from_utf8(crate::engine::unhex(h)).ok())
}
/// Every literal (but for format strings and long ones) of the source with how often it occurs, as lines of `literals.txt`.
pub fn listing() -> String {
    count_all().into_iter().map(|(k, n)| format!("{n} {k}\n")).collect()
}
fn count_all() -> BTreeMap<String, u64> {
    let mut m = BTreeMap::new();
    let root = std::env::var("VERIF_REPO_SRC").unwrap_or_else(|_| "/repo/src".into());
    let mut dirs = vec![std::path::PathBuf::from(root)];
    while let Some(d) = dirs.pop() {
        for e in std::fs::read_dir(&d).into_iter().flatten().flatten() {
            let p = e.path();
            if p.is_dir() {
                dirs.push(p);
            } else if p.extension().map_or(false, |x| x == "rs") {
                if let Ok(b) = std::fs::read(&p) {
                    harvest(&b, &mut m);
                }
            }
        }
    }
    m
}
fn from_source() -> Dict {
    let b = base();
    let mut d = Dict { old: old_texts(), ..Dict::default() };
    let new: Vec<String> = count_all().into_iter().filter(|(k, n)| *n > b.get(k).copied().unwrap_or(0)).map(|x| x.0).collect();
    // A rewritten file has many; then none of them says much.
    if new.len() > 400 {
        return d;
    }
    for k in new {
        if let Some(t) = text_of(&k) {
            d.texts.push(t);
        } else if let Some(i) = k.strip_prefix("n ").and_then(|i| i.parse().ok()) {
            d.ints.push(i);
        }
    }
    d
}

fn harvest(b: &[u8], m: &mut BTreeMap<String, u64>) {
    let at = |i: usize| b.get(i).copied().unwrap_or(0);
    let ident = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c >= 0x80;
    let mut add = |k: String| *m.entry(k).or_insert(0) += 1;
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c == b'/' && at(i + 1) == b'/' {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
        } else if c == b'/' && at(i + 1) == b'*' {
            let mut depth = 1;
            i += 2;
            while i < b.len() && depth > 0 {
                if b[i] == b'/' && at(i + 1) == b'*' {
                    depth += 1;
                    i += 1;
                } else if b[i] == b'*' && at(i + 1) == b'/' {
                    depth -= 1;
                    i += 1;
                }
                i += 1;
            }
        } else if c == b'r' && (at(i + 1) == b'"' || at(i + 1) == b'#') && (i == 0 || !ident(b[i - 1]) || b[i - 1] == b'b') {
            let mut h = 0;
            let mut j = i + 1;
            while at(j) == b'#' {
                h += 1;
                j += 1;
            }
            if at(j) != b'"' {
                i += 1;
                continue;
            }
            let end: Vec<u8> = std::iter::once(b'"').chain(std::iter::repeat(b'#').take(h)).collect();
            let start = j + 1;
            j = start;
            while j < b.len() && !b[j..].starts_with(&end) {
                j += 1;
            }
            text_lit(&b[start..j.min(b.len())], &mut add);
            i = j + end.len();
        } else if c == b'"' {
            let mut v = vec![];
            i += 1;
            while i < b.len() && b[i] != b'"' {
                let (bytes, n) = one(b, i);
                v.extend_from_slice(&bytes);
                i += n;
            }
            i += 1;
            text_lit(&v, &mut add);
        } else if c == b'\'' {
            // A character, or a lifetime.
            let (v, n) = one(b, i + 1);
            let n = if at(i + 1) == b'\\' { n } else { utf8_len(at(i + 1)) };
            if at(i + 1 + n) == b'\'' {
                let v = if at(i + 1) == b'\\' { v } else { b[i + 1..i + 1 + n].to_vec() };
                text_lit(&v, &mut add);
                i += n + 2;
            } else {
                i += 1;
            }
        } else if c.is_ascii_digit() && (i == 0 || !ident(b[i - 1])) {
            let mut j = i;
            while j < b.len() && ident(b[j]) {
                j += 1;
            }
            let t: String = b[i..j].iter().filter(|x| **x != b'_').map(|x| *x as char).collect();
            if let Some(n) = int_lit(&t) {
                if n > 2 {
                    add(format!("n {n}"));
                }
                // Constants are also written `64 * 1024` and `1 << 20`.
                let rest: Vec<u8> = b[j..].iter().copied().take(60).filter(|x| !x.is_ascii_whitespace() && *x != b'_').collect();
                let (op, rest) = match &rest[..] {
                    [b'*', r @ ..] => (1, r),
                    [b'<', b'<', r @ ..] => (2, r),
                    _ => (0, &[][..]),
                };
                let t2: String = rest.iter().take_while(|x| ident(**x)).map(|x| *x as char).collect();
                let m = match (op, int_lit(&t2)) {
                    (1, Some(k)) => n.checked_mul(k),
                    (2, Some(k)) if k < 64 => n.checked_shl(k as u32),
                    _ => None,
                };
                if let Some(m) = m {
                    add(format!("n {m}"));
                }
            }
            i = j;
        } else if ident(c) {
            // A name: skip it whole, unless it is the prefix of a literal.
            let mut j = i;
            while j < b.len() && ident(b[j]) {
                j += 1;
            }
            if b[j..].starts_with(b"::MAX") {
                let max = match &b[i..j] {
                    b"u8" => 0xff,
                    b"i8" => 0x7f,
                    b"u16" => 0xffff,
                    b"i16" => 0x7fff,
                    b"u32" => u32::MAX as u64,
                    b"i32" => i32::MAX as u64,
                    b"i64" => i64::MAX as u64,
                    _ => 0,
                };
                if max > 0 {
                    add(format!("n {max}"));
                }
            }
            let raw = b[j - 1] == b'r' && (at(j) == b'"' || at(j) == b'#') && j - i <= 2;
            i = if raw { j - 1 } else { j };
            if raw && i > 0 && j - i == 1 && b[i] == b'r' {
                // Handled by the branch for raw strings above; a lone `r#name` is skipped there.
                if at(j) == b'#' && at(j + 1) != b'"' && at(j + 1) != b'#' {
                    i = j + 1;
                }
            }
        } else {
            i += 1;
        }
    }
}
fn utf8_len(c: u8) -> usize {
    match c {
        0xf0..=0xff => 4,
        0xe0..=0xef => 3,
        0xc0..=0xdf => 2,
        _ => 1,
    }
}
/// One possibly escaped character of a literal: its bytes, and how many it takes.
fn one(b: &[u8], i: usize) -> (Vec<u8>, usize) {
    let at = |i: usize| b.get(i).copied().unwrap_or(0);
    if at(i) != b'\\' {
        return (vec![at(i)], 1);
    }
    match at(i + 1) {
        b'n' => (vec![b'\n'], 2),
        b'r' => (vec![b'\r'], 2),
        b't' => (vec![b'\t'], 2),
        b'0' => (vec![0], 2),
        b'x' => {
            let v = std::str::from_utf8(b.get(i + 2..i + 4).unwrap_or(b"")).ok().and_then(|h| u8::from_str_radix(h, 16).ok());
            (v.into_iter().collect(), 4)
        }
        b'u' => {
            let mut j = i + 2;
            while j < b.len() && b[j] != b'}' {
                j += 1;
            }
            let h: String = b.get(i + 3..j).unwrap_or(b"").iter().map(|x| *x as char).collect();
            let c = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32);
            (c.map(|c| c.to_string().into_bytes()).unwrap_or_default(), j + 1 - i)
        }
        b'\n' => {
            let mut j = i + 2;
            while at(j) != 0 && at(j).is_ascii_whitespace() {
                j += 1;
            }
            (vec![], j - i)
        }
        c => (vec![c], 2),
    }
}
fn text_lit(v: &[u8], add: &mut impl FnMut(String)) {
    if !v.is_empty() && v.len() <= 64 && !v.contains(&b'{') && std::str::from_utf8(v).is_ok() {
        add(format!("s {}", crate::engine::hex(v)));
    }
}
fn int_lit(t: &str) -> Option<u64> {
    const SUFFIX: &[&str] = &["usize", "isize", "u128", "i128", "u64", "i64", "u32", "i32", "u16", "i16", "u8", "i8"];
    let (radix, t) = match t.get(..2) {
        Some("0x") => (16, &t[2..]),
        Some("0b") => (2, &t[2..]),
        Some("0o") => (8, &t[2..]),
        _ => (10, t),
    };
    let t = SUFFIX.iter().find_map(|s| t.strip_suffix(s)).unwrap_or(t);
    u64::from_str_radix(t, radix).ok()
}

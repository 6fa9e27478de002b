//! C16..C19: allowed_signers.

use crate::engine::*;
use crate::gen::*;
use crate::sshk;
use crate::wire::b64;
use sshcerts::error::Error;
use sshcerts::ssh::{AllowedSigner, AllowedSigners};
use std::io::{BufRead, Write};
use std::process::{Command, Stdio};

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C16",
            rule: "An entry is generated as a model and rendered as a line with generated spacing, quoting, option order, letter case and comment; it must parse to exactly the model. Near misses, each breaking one rule of the format, must be rejected. Non-trivial: every case; distinct by line.",
            facets: vec![facet("well-formed", 960000, 3750000, c16_good), facet("near-miss", 960000, 3750000, c16_bad)],
        },
        Property {
            id: "C17",
            rule: "UTC timestamps of all three lengths are compared with an independent calendar; strings that are not exactly such a calendar time must be rejected. Local timestamps are parsed in child processes under generated POSIX TZ rules, concentrated around their transitions, and must be an instant that libc's localtime shows as that local time (either one if it occurs twice). Non-trivial: every case; distinct by timestamp (and time zone).",
            facets: vec![facet("utc", 960000, 3750000, c17_utc), facet("invalid", 960000, 3750000, c17_invalid), facet("local", 10000, 60000, c17_local)],
        },
        Property {
            id: "C18",
            rule: "A generated line is parsed, printed and parsed again: the printed form must be one line and give an equal entry; also for local timestamps in child processes under generated time zones. Non-trivial: every case; distinct by line.",
            facets: vec![facet("print-parse", 720000, 2500000, c18_print), facet("zones", 800, 3000, c18_zones)],
        },
        Property {
            id: "C19",
            rule: "A file is assembled from generated valid, invalid, blank and comment lines with generated indentation and line endings; the result must be the entries of the single lines in order, or the first invalid line's error with its zero-based number. Non-trivial: at least one entry line; distinct by file.",
            facets: vec![facet("files", 80000, 1200000, c19_files)],
        },
    ]
}

// ---------------------------------------------------------------- model

#[derive(Clone, Debug)]
struct Entry {
    principals: Vec<String>,
    ca: bool,
    namespaces: Option<Vec<String>>,
    after: Option<(String, i64)>,
    before: Option<(String, i64)>,
    key: String,
    blob: Vec<u8>,
}

fn is_leap(y: i64) -> bool {
    y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)
}
fn month_len(y: i64, m: i64) -> i64 {
    match m {
        2 => 28 + is_leap(y) as i64,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}
/// Days since 1970-01-01, counted year by year in 400-year steps.
fn days(y: i64, m: i64, d: i64) -> i64 {
    let mut n = 0;
    let mut yy = 1970;
    let cycles = (y - 1970).div_euclid(400);
    n += cycles * 146097;
    yy += cycles * 400;
    while yy < y {
        n += 365 + is_leap(yy) as i64;
        yy += 1;
    }
    for i in 1..m {
        n += month_len(y, i);
    }
    n + d - 1
}
#[derive(Clone, Copy, Debug)]
struct Stamp {
    y: i64,
    mo: i64,
    d: i64,
    h: i64,
    mi: i64,
    s: i64,
}
impl Stamp {
    fn gen(s: &mut Src, lo: i64, hi: i64) -> (Stamp, usize) {
        let known = known_number(s, lo as u64, hi as u64);
        let y = match s.weighted(&[5, 2, 2]) {
            _ if known.is_some() => known.unwrap() as i64,
            0 => 1990 + s.below(60) as i64,
            1 => *s.pick(&[1900, 1999, 2000, 2024, 2023, 2100, 2400, 1970, 1969, 2038, lo, hi]),
            _ => lo + s.below((hi - lo + 1) as usize) as i64,
        }
        .clamp(lo, hi);
        let mo = 1 + s.below(12) as i64;
        let d = match s.below(4) {
            0 => 1,
            1 => month_len(y, mo),
            _ => 1 + s.below(month_len(y, mo) as usize) as i64,
        };
        let kind = *s.pick(&[14usize, 12, 8]);
        let mut t = Stamp { y, mo, d, h: 0, mi: 0, s: 0 };
        if kind >= 12 {
            t.h = s.below(24) as i64;
            t.mi = s.below(60) as i64;
        }
        if kind == 14 {
            t.s = s.below(60) as i64;
        }
        (t, kind)
    }
    fn text(&self, kind: usize) -> String {
        format!("{:04}{:02}{:02}{:02}{:02}{:02}", self.y, self.mo, self.d, self.h, self.mi, self.s)[..kind].to_string()
    }
    fn civil(&self) -> i64 {
        days(self.y, self.mo, self.d) * 86400 + self.h * 3600 + self.mi * 60 + self.s
    }
}
fn utc_stamp(s: &mut Src) -> (String, i64) {
    let (t, k) = Stamp::gen(s, 1, 9999);
    (t.text(k) + "Z", t.civil())
}

/// A moment a second, a minute, an hour or a day (or the like) from another.
fn near(s: &mut Src, t: i64) -> Option<(String, i64)> {
    let by = *s.pick(&[1i64, 2, 10, 59, 60, 61, 3599, 3600, 7200, 86399, 86400, 86401, 31_536_000]);
    let t = if s.bool() { t + by } else { t - by };
    let (day, sec) = (t.div_euclid(86400), t.rem_euclid(86400));
    // The year by search, as `days` counts the days up to a date.
    let (mut lo, mut hi) = (1, 10_000);
    while hi - lo > 1 {
        let m = (lo + hi) / 2;
        if days(m, 1, 1) <= day {
            lo = m
        } else {
            hi = m
        }
    }
    let mo = (1..=12).rev().find(|m| days(lo, *m, 1) <= day)?;
    let d = day - days(lo, mo, 1) + 1;
    if d > month_len(lo, mo) {
        return None;
    }
    let kind = if sec % 60 != 0 {
        14
    } else if sec != 0 {
        *s.pick(&[12, 14])
    } else {
        *s.pick(&[8, 12, 14])
    };
    let st = Stamp { y: lo, mo, d, h: sec / 3600, mi: sec / 60 % 60, s: sec % 60 };
    Some((st.text(kind) + "Z", t))
}

/// Text without the characters that have a meaning in the format.
fn atom(s: &mut Src, spaces: bool) -> String {
    let t: String = match s.below(3) {
        0 if s.chance(3) => "x".repeat(big(s)),
        0 => word(s),
        1 => s.pick(&["*@example.com", "user@domain.tld", "file", "git", "!*@evil", "a=b", "valid-after=x", "cert-authority", "ssh-ed25519", "é漢😀", "a\\b", "'q'", "namespaces=", ";x", "//x", "%", "--", "!#", "@x"]).to_string(),
        _ => text(s).chars().filter(|c| !c.is_control() && !"\",# \t".contains(*c) && !c.is_whitespace() && *c != '\u{feff}').take(30).collect(),
    };
    let mut t = if t.is_empty() { "p".to_string() } else { t };
    if spaces {
        match s.below(4) {
            0 => t.push_str(" x"),
            1 => t = format!("#{t}"),
            2 => t = format!("{t}\t\u{1f600} # {t}"),
            _ => match s.below(4) {
                0 => t = format!(" {t}"),
                1 => t.push_str(" \t"),
                2 => t = format!("{t}\t{}", s.pick(&["", "x"])),
                _ => {}
            },
        }
    }
    t
}

fn gen_entry(s: &mut Src) -> Entry {
    let spaces = s.chance(60);
    let (n, many) = count(s, 4);
    let principals = (0..n.max(1)).map(|i| if many { format!("p{i}@example.com") } else { atom(s, spaces) }).collect();
    let ns_spaces = s.chance(60);
    let namespaces = match s.below(3) {
        0 => None,
        _ => {
            let (n, many) = count(s, 4);
            Some((0..n).map(|i| if many { format!("ns{i}") } else { atom(s, ns_spaces) }).collect())
        }
    };
    let mut after = if s.bool() { Some(utc_stamp(s)) } else { None };
    let mut before = if s.bool() { Some(utc_stamp(s)) } else { None };
    if let (Some(a), true) = (&after, before.is_some() && s.chance(40)) {
        before = near(s, a.1).or(before);
    }
    if let (Some(a), Some(b)) = (&after, &before) {
        if a.1 > b.1 {
            std::mem::swap(&mut after, &mut before);
        } else if a.1 == b.1 {
            before = None;
        }
    }
    let mut k = key_any(s);
    if k.alg.is_sk() && s.bool() {
        k.app = "ssh:".into();
    }
    Entry { principals, ca: s.bool(), namespaces, after, before, key: k.line(), blob: k.blob() }
}

fn needs_quote(v: &str) -> bool {
    v.contains([' ', '\t', '#'])
}
fn rnd_case(s: &mut Src, t: &str) -> String {
    match s.below(4) {
        0 => t.to_uppercase(),
        1 => t.chars().map(|c| if s.bool() { c.to_ascii_uppercase() } else { c }).collect(),
        _ => t.to_string(),
    }
}
fn space(s: &mut Src) -> String {
    s.pick(&[" ", " ", " ", "  ", "\t", " \t ", "     "]).to_string()
}
/// The parts of a line: principals, options, key type, key data.
fn parts(s: &mut Src, e: &Entry) -> (String, Vec<String>, String) {
    let p = e.principals.join(",");
    let p = if needs_quote(&p) || s.chance(80) { format!("\"{p}\"") } else { p };
    let mut o = vec![];
    if e.ca {
        o.push(rnd_case(s, "cert-authority"));
        if s.chance(20) {
            o.push(rnd_case(s, "cert-authority"));
        }
    }
    if let Some(n) = &e.namespaces {
        let mut v = n.join(",");
        if s.chance(30) {
            // Empty elements are dropped.
            v = format!(",{v},");
        }
        let v = if needs_quote(&v) || s.bool() { format!("\"{v}\"") } else { v };
        o.push(format!("{}={v}", rnd_case(s, "namespaces")));
    }
    for (name, t) in [("valid-after", &e.after), ("valid-before", &e.before)] {
        if let Some((t, _)) = t {
            let t = if s.bool() { format!("\"{t}\"") } else { t.clone() };
            o.push(format!("{}={t}", rnd_case(s, name)));
        }
    }
    // Any order.
    for i in (1..o.len()).rev() {
        let j = s.below(i + 1);
        o.swap(i, j);
    }
    (p, o, e.key.clone())
}
fn assemble(s: &mut Src, p: &str, o: &[String], key: &str) -> String {
    let mut l = s.pick(&["", "", "", " ", "\t "]).to_string();
    l.push_str(p);
    for x in o {
        l.push_str(&space(s));
        l.push_str(x);
    }
    l.push_str(&space(s));
    let (kt, kd) = key.split_once(' ').unwrap_or((key, ""));
    l.push_str(kt);
    if !kd.is_empty() {
        l.push_str(&space(s));
        l.push_str(kd);
    }
    l.push_str(match s.below(8) {
        0 => " ",
        1 => "\t",
        2 => " # a comment",
        3 => " #",
        4 => "# glued \" comment",
        5 => " # says \"hello\"",
        _ => "",
    });
    l
}
fn check_entry(a: &AllowedSigner, e: &Entry, line: &str) -> PResult {
    ensure!(a.principals == e.principals, "principals", "principals {:?} instead of {:?}: {line:?}", a.principals, e.principals);
    ensure!(a.cert_authority == e.ca, "cert-authority", "cert-authority {} in {line:?}", a.cert_authority);
    ensure!(a.namespaces == e.namespaces, "namespaces", "namespaces {:?} instead of {:?}: {line:?}", a.namespaces, e.namespaces);
    ensure!(a.valid_after == e.after.as_ref().map(|x| x.1), "valid-after", "valid-after {:?} instead of {:?}: {line:?}", a.valid_after, e.after);
    ensure!(a.valid_before == e.before.as_ref().map(|x| x.1), "valid-before", "valid-before {:?} instead of {:?}: {line:?}", a.valid_before, e.before);
    ensure!(a.key.encode() == e.blob && a.key.comment.is_none(), "key", "key {} in {line:?}", a.key);
    Ok(())
}

/// Any well-formed line.
pub fn any_line(s: &mut Src) -> String {
    let e = gen_entry(s);
    let (p, o, k) = parts(s, &e);
    assemble(s, &p, &o, &k)
}
fn c16_good(s: &mut Src, cx: &mut Ctx) -> PResult {
    let e = gen_entry(s);
    let (p, o, k) = parts(s, &e);
    let line = assemble(s, &p, &o, &k);
    cx.nontrivial(&line);
    cx.class(match o.len() {
        0 => "no options",
        1 => "one option",
        _ => "several options",
    });
    cx.desc(|| line.clone());
    match AllowedSigner::from_string(&line) {
        Ok(a) => check_entry(&a, &e, &line),
        Err(er) => fail("rejected-valid", format!("valid line rejected ({er}): {line:?}")),
    }
}

fn bad_stamp(s: &mut Src) -> String {
    let (t, k) = Stamp::gen(s, 1, 9999);
    let good = t.text(k);
    let mut b: Vec<char> = good.chars().collect();
    let z = if s.bool() { "Z" } else { "" };
    let r = match s.below(18) {
        16 | 17 => {
            // A sign or blank in place of the first digit of a field, which number readers may skip.
            let f: &[usize] = match good.len() {
                8 => &[0, 4, 6],
                12 => &[0, 4, 6, 8, 10],
                _ => &[0, 4, 6, 8, 10, 12],
            };
            let i = *s.pick(f);
            b[i] = *s.pick(&['+', ' ', '-', '\t', '_']);
            b.into_iter().collect::<String>() + z
        }
        0 => String::new(),
        1 => z.to_string(),
        2 => format!("{}13{}{z}", &good[..4], &good[6..]),
        3 => format!("{}00{}{z}", &good[..4], &good[6..]),
        4 => format!("{}{:02}{}{z}", &good[..6], month_len(t.y, t.mo) + 1, &good[8..]),
        5 => format!("{}00{}{z}", &good[..6], &good[8..]),
        6 => format!("{}2400{z}", &good[..8]),
        7 => format!("{}2360{z}", &good[..8]),
        8 => format!("{}235961{z}", &good[..8]),
        9 => {
            let n = s.below(good.len());
            let n = if n == 8 || n == 12 { n - 1 } else { n };
            format!("{}{z}", &good[..n])
        }
        10 => format!("{good}0{z}"),
        11 => {
            let i = s.below(b.len());
            b[i] = *s.pick(&['x', '-', '+', '.', ':', '/', 'Z', 'T', '\u{661}', '\u{ff11}']);
            b.into_iter().collect::<String>() + z
        }
        12 => format!("{good}{}", s.pick(&["z", "ZZ", "UTC", "+00", "Zulu", "-0000", "Z0"])),
        13 => format!("{}{}{z}", s.pick(&["+", "-", "0", "'"]), good),
        14 => format!("{}T{}{z}", &good[..8], "1200"),
        _ => s.pick(&["0229", "20230229", "21000229Z", "20240230Z", "20240431", "tomorrow", "99999999", "2024-01-01", "20240101000000.5Z", "1704067200", "19000229Z"]).to_string(),
    };
    r
}

/// A name one character away from an option's.
fn almost_option(s: &mut Src) -> String {
    const NAMES: [&str; 4] = ["cert-authority", "namespaces", "valid-after", "valid-before"];
    let (n, v) = *s.pick(&[("cert-authority", ""), ("namespaces", "=a"), ("valid-after", "=20200101Z"), ("valid-before", "=20990101Z")]);
    let mut c: Vec<char> = n.chars().collect();
    let x = *s.pick(&['-', '_', 's', 'x', '.', ':', '*', '!', '+', ';', '0', '\'', '\\', 'é', '\u{200b}', '\u{131}']);
    let at = match s.below(3) {
        0 => 0,
        1 => c.len(),
        _ => s.below(c.len()),
    };
    match s.below(3) {
        0 if at < c.len() => {
            c.remove(at);
        }
        1 if at < c.len() => c[at] = x,
        _ => c.insert(at, x),
    }
    let c: String = c.into_iter().collect();
    let c = rnd_case(s, &c);
    if NAMES.contains(&c.to_lowercase().as_str()) {
        return "x".into();
    }
    c + v
}
fn c16_bad(s: &mut Src, cx: &mut Ctx) -> PResult {
    let e = gen_entry(s);
    let (mut p, mut o, mut k) = parts(s, &e);
    let (kt, kd) = k.split_once(' ').map(|x| (x.0.to_string(), x.1.to_string())).unwrap();
    let oname = |x: &str| x.split('=').next().unwrap_or("").to_lowercase();
    let ins = |s: &mut Src, o: &mut Vec<String>, x: String| {
        let i = s.below(o.len() + 1);
        o.insert(i, x);
    };
    let mut whole: Option<String> = None;
    let what = match s.below(22) {
        0 => {
            whole = Some(s.pick(&["", " ", "\t", "# comment", "  # x", "#"]).to_string());
            "nothing"
        }
        1 => {
            p = s.pick(&["\"\"", ",", "a,", ",a", "a,,b", "\"a,\"", "\",\""]).to_string();
            "empty principal"
        }
        2 => {
            p = s.pick(&["\"a", "a\"", "\"a\"b", "a\"b\"", "a\"b", "\"a\"\"b\"", "\"a b\"c", "x\"y z\"", "\"\"\"", "\""]).to_string();
            "misplaced quotes in the principals"
        }
        3 => {
            // A valued option twice.
            let x = *s.pick(&["namespaces=a", "valid-after=20200101Z", "valid-before=20990101Z", "namespaces=", "namespaces=\"\""]);
            let n = oname(x);
            if !o.iter().any(|y| oname(y) == n) {
                let y = format!("{}={}", rnd_case(s, &n), x.split_once('=').unwrap().1);
                ins(s, &mut o, y);
            }
            ins(s, &mut o, x.to_string());
            "repeated option"
        }
        4 => {
            let x = s.pick(&["unknown", "unknown=1", "namespace=a", "cert_authority", "valid_after=20200101Z", "touch-required", "=", "=x", "no-touch-required", "validafter=20200101", "namespaces:a", "-", "namespaces+=a", "+namespaces=a", "-cert-authority", "cert-authority+", "cert-authority,namespaces=a", "namespaces,=a", "valid-after:=20200101Z", "valid--after=20200101Z", "x-namespaces=a", "namespaces2=a", "--namespaces=a", "ſpaces=a", "namespaceſ=a"]).to_string();
            let x = if s.bool() { almost_option(s) } else { x };
            ins(s, &mut o, x);
            "unknown option"
        }
        5 | 6 => {
            let n = *s.pick(&["valid-after", "valid-before"]);
            o.retain(|y| oname(y) != n);
            let t = bad_stamp(s);
            let v = if s.bool() || t.contains([' ', '"', '\t']) { format!("\"{t}\"") } else { t };
            ins(s, &mut o, format!("{n}={v}"));
            "invalid timestamp"
        }
        7 => {
            o.retain(|y| !oname(y).starts_with("valid-"));
            let (a, ta) = utc_stamp(s);
            let (b, tb) = utc_stamp(s);
            let (b, tb) = if s.chance(60) { near(s, ta).unwrap_or((b, tb)) } else { (b, tb) };
            let (a, b) = match s.below(3) {
                0 => (a.clone(), a),
                _ if ta >= tb => (a, b),
                _ => (b, a),
            };
            ins(s, &mut o, format!("valid-after={a}"));
            ins(s, &mut o, format!("valid-before={b}"));
            "valid-before not after valid-after"
        }
        8 => {
            k = String::new();
            "missing key"
        }
        9 => {
            k = kt.clone();
            "missing key data"
        }
        10 => {
            k = kd.clone();
            "missing key type"
        }
        11 => {
            k = match s.below(5) {
                0 => format!("bogus {kd}"),
                1 => format!("{}x {kd}", kt),
                2 => format!("{kt} !{kd}"),
                3 => format!("{kt} {}", &kd[..(kd.len() / 8) * 4]),
                _ => format!("{kt} {}", b64(&[&e.blob[..], b"x"].concat())),
            };
            "invalid key"
        }
        12 => {
            k = match s.below(5) {
                0 => format!("\"{kt}\" {kd}"),
                1 => format!("{kt} \"{kd}\""),
                2 => format!("\"{kt} {kd}\""),
                3 => format!("{kt} \"{kd}"),
                _ => format!("{kt}\" {kd}"),
            };
            "quoted key"
        }
        13 => {
            k = format!("{k} {}", s.pick(&["comment", "user@host", "cert-authority", "\"quoted\"", "\"", "x # y", "namespaces=a", "=="]));
            "text after the key"
        }
        14 => {
            let x = s.pick(&["namespaces=\"a", "namespaces=a\"", "namespaces=a\"b", "namespaces=\"a\"b", "namespaces=x\"a\"", "namespaces=\"a\"\"b\"", "\"namespaces=a\"", "name\"spaces\"=a", "namespaces=\"a b\"c"]).to_string();
            o.retain(|y| oname(y) != "namespaces");
            ins(s, &mut o, x);
            "misplaced quotes in an option"
        }
        15 => {
            let x = s.pick(&["valid-after", "valid-before", "valid-after=", "valid-before=\"\""]).to_string();
            o.retain(|y| oname(y) != oname(&x));
            ins(s, &mut o, x);
            "timestamp without value"
        }
        16 => {
            let x = *s.pick(&["namespaces = a", "namespaces =a", "valid-after = 20200101Z", "namespaces= a"]);
            o = vec![x.to_string()];
            "space around the equals sign"
        }
        17 => {
            // Options after the key.
            k = format!("{k} {}", s.pick(&["cert-authority", "namespaces=\"a\"", "valid-after=20200101Z"]));
            "option after the key"
        }
        18 => {
            whole = Some(format!("{kt} {kd}"));
            "no principals"
        }
        19 => {
            whole = Some(format!("{p} # {kt} {kd}"));
            "key inside the comment"
        }
        20 => {
            // A key type that belongs to another key.
            let other = key_any(s);
            if other.alg.plain() == kt {
                return Ok(());
            }
            k = format!("{} {kd}", other.alg.plain());
            "key type not that of the key"
        }
        _ => {
            let other = key_any(s);
            k = format!("{k} {}", other.line());
            "two keys"
        }
    };
    let line = match whole {
        Some(w) => w,
        None if k.is_empty() => {
            let mut l = p.clone();
            for x in &o {
                l.push(' ');
                l.push_str(x);
            }
            l
        }
        None => assemble(s, &p, &o, &k),
    };
    cx.nontrivial(&line);
    cx.class(what);
    cx.desc(|| format!("{what}: {line}"));
    match AllowedSigner::from_string(&line) {
        Ok(a) => fail("accepted-invalid", format!("line with {what} accepted: {line:?} as {a:?}")),
        Err(Error::InvalidAllowedSigner(_)) => Ok(()),
        Err(er) => fail("error-kind", format!("line with {what} gives {er:?}: {line:?}")),
    }
}

// ---------------------------------------------------------------- timestamps

const KEY: &str = "ssh-ed25519 AAAAC3NzaC1lZDI1NTE5AAAAIHkbe7gwx7s0dlApEEzpUyOAPrzPLy4czEZw/sh8m8rd";

fn c17_utc(s: &mut Src, cx: &mut Ctx) -> PResult {
    let (t, k) = Stamp::gen(s, 1, 9999);
    let ts = t.text(k) + "Z";
    let want = t.civil();
    let name = *s.pick(&["valid-after", "valid-before"]);
    let q = if s.bool() { "\"" } else { "" };
    let line = format!("p {name}={q}{ts}{q} {KEY}");
    cx.nontrivial(&ts);
    cx.class(match k {
        8 => "date",
        12 => "minutes",
        _ => "seconds",
    });
    cx.desc(|| line.clone());
    match AllowedSigner::from_string(&line) {
        Ok(a) => {
            let got = if name == "valid-after" { (a.valid_after, a.valid_before) } else { (a.valid_before, a.valid_after) };
            ensure!(got == (Some(want), None), "instant", "{line:?}: {got:?} instead of {want}");
            Ok(())
        }
        Err(e) => fail("rejected-valid", format!("{line:?} rejected: {e}")),
    }
}
fn c17_invalid(s: &mut Src, cx: &mut Ctx) -> PResult {
    let t = bad_stamp(s);
    let name = *s.pick(&["valid-after", "valid-before"]);
    let q = if s.bool() || t.contains([' ', '#']) { "\"" } else { "" };
    let line = format!("p {name}={q}{t}{q} {KEY}");
    cx.nontrivial(&t);
    cx.desc(|| line.clone());
    match AllowedSigner::from_string(&line) {
        Ok(a) => fail("accepted-invalid", format!("{line:?} accepted as {:?} {:?}", a.valid_after, a.valid_before)),
        Err(_) => Ok(()),
    }
}

/// A generated POSIX time zone and instants (as UTC) near its changes.
struct Zone {
    tz: String,
    /// Rough civil times (month, day, hour) of the changes.
    changes: Vec<(i64, i64, i64)>,
}
fn off_text(min: i64) -> String {
    // POSIX counts west of Greenwich as positive.
    let m = -min;
    let sign = if m < 0 { "-" } else { "" };
    let m = m.abs();
    if m % 60 == 0 {
        format!("{sign}{}", m / 60)
    } else {
        format!("{sign}{}:{:02}", m / 60, m % 60)
    }
}
fn gen_zone(s: &mut Src) -> Zone {
    let std: i64 = match s.below(4) {
        0 => 60 * (s.below(24) as i64 - 11),
        1 => *s.pick(&[345, 330, -210, 570, 765, -570, 840, -720]),
        _ => 30 * (s.below(50) as i64 - 24),
    };
    if s.chance(60) {
        return Zone { tz: format!("AAA{}", off_text(std)), changes: vec![] };
    }
    let save = *s.pick(&[60i64, 60, 60, 30, 120]);
    let (m1, m2) = if s.bool() { (3 + s.below(2), 9 + s.below(3)) } else { (9 + s.below(3), 3 + s.below(2)) };
    let rule = |s: &mut Src, m: usize| -> (String, i64, i64, i64) {
        let h = s.range(0, 4) as i64;
        let (w, d) = (s.range(1, 5), s.below(7));
        (format!("M{m}.{w}.{d}/{h}"), m as i64, (w as i64 - 1) * 7 + 4, h)
    };
    let a = rule(s, m1);
    let b = rule(s, m2);
    Zone { tz: format!("AAA{}BBB{},{},{}", off_text(std), off_text(std + save), a.0, b.0), changes: vec![(a.1, a.2, a.3), (b.1, b.2, b.3)] }
}
fn zone_stamp(s: &mut Src, z: &Zone) -> String {
    let (mut t, mut k) = Stamp::gen(s, if z.changes.is_empty() { 1901 } else { 1971 }, 2200);
    if !z.changes.is_empty() && s.chance(200) {
        let c = *s.pick(&z.changes);
        t.mo = c.0;
        t.d = (c.1 + s.below(9) as i64 - 4).clamp(1, month_len(t.y, t.mo));
        t.h = (c.2 + s.below(5) as i64 - 2).clamp(0, 23);
        t.mi = s.below(60) as i64;
        if s.chance(40) {
            t.mi = 0;
            t.s = 0;
        }
        if k == 8 {
            k = 12;
        }
    }
    if k < 14 {
        t.s = 0;
    }
    t.text(k)
}

/// Child process: read lines from stdin, answer each with what the library says
/// and with the instants that libc shows as that local time.
pub fn tz_worker() -> i32 {
    extern "C" {
        fn tzset();
    }
    unsafe { tzset() };
    let mut out = std::io::stdout().lock();
    for l in std::io::stdin().lock().lines() {
        let l = match l {
            Ok(l) => l,
            Err(_) => return 1,
        };
        let (cmd, arg) = l.split_once('\t').unwrap_or(("", ""));
        let answer = match cmd {
            "stamp" => {
                let lib = match guarded(|| AllowedSigner::from_string(&format!("p valid-after={arg} {KEY}"))) {
                    Ok(Ok(a)) => format!("{}", a.valid_after.unwrap_or(i64::MIN)),
                    Ok(Err(_)) => "err".into(),
                    Err(p) => format!("panic {}", p.replace('\n', " ")),
                };
                let f = |a: usize, b: usize| arg.get(a..b).and_then(|x| x.parse::<i64>().ok()).unwrap_or(0);
                let t = Stamp { y: f(0, 4), mo: f(4, 6), d: f(6, 8), h: f(8, 10), mi: f(10, 12), s: f(12, 14) };
                let civil = t.civil();
                let mut cand = vec![];
                // Every offset in quarter hours that local time might have.
                for q in -64..=64 {
                    let at = civil - q * 900;
                    let mut tm: libc::tm = unsafe { std::mem::zeroed() };
                    let tt = at as libc::time_t;
                    unsafe { libc::localtime_r(&tt, &mut tm) };
                    if (tm.tm_year as i64 + 1900, tm.tm_mon as i64 + 1, tm.tm_mday as i64, tm.tm_hour as i64, tm.tm_min as i64, tm.tm_sec as i64) == (t.y, t.mo, t.d, t.h, t.mi, t.s) {
                        cand.push(at.to_string());
                    }
                }
                format!("{lib}\t{}", cand.join(","))
            }
            "print" => match guarded(|| AllowedSigner::from_string(arg).map(|a| (a.to_string(), a))) {
                Ok(Ok((t, a))) => match guarded(|| AllowedSigner::from_string(&t)) {
                    Ok(Ok(b)) if a == b && !t.contains('\n') => "same".into(),
                    Ok(Ok(b)) => format!("differs {a:?} / {b:?} / {t:?}").replace('\n', " "),
                    Ok(Err(e)) => format!("unreadable {t:?} {e}").replace('\n', " "),
                    Err(p) => format!("panic {p}").replace('\n', " "),
                },
                Ok(Err(_)) => "err".into(),
                Err(p) => format!("panic {p}").replace('\n', " "),
            },
            _ => "?".into(),
        };
        if writeln!(out, "{answer}").is_err() {
            return 1;
        }
    }
    0
}
fn ask(tz: &str, questions: &[String]) -> Vec<String> {
    let exe = std::env::current_exe().expect("own path");
    let mut c = Command::new(exe).arg("tz-worker").env("TZ", tz).stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().expect("worker");
    let mut i = c.stdin.take().unwrap();
    let q = questions.join("\n") + "\n";
    let h = std::thread::spawn(move || {
        let _ = i.write_all(q.as_bytes());
    });
    let o = c.wait_with_output().expect("worker");
    let _ = h.join();
    let a: Vec<String> = String::from_utf8_lossy(&o.stdout).lines().map(|x| x.to_string()).collect();
    assert!(a.len() == questions.len(), "the worker answered {} of {} questions under {tz}", a.len(), questions.len());
    a
}

fn c17_local(s: &mut Src, cx: &mut Ctx) -> PResult {
    let z = gen_zone(s);
    let n = s.range(1, 60);
    let stamps: Vec<String> = (0..n).map(|_| zone_stamp(s, &z)).collect();
    cx.nontrivial(&(&z.tz, &stamps));
    cx.class(if z.changes.is_empty() { "fixed offset" } else { "daylight saving" });
    cx.desc(|| format!("TZ={} {stamps:?}", z.tz));
    let answers = ask(&z.tz, &stamps.iter().map(|t| format!("stamp\t{t}")).collect::<Vec<_>>());
    for (t, a) in stamps.iter().zip(&answers) {
        let (lib, cand) = a.split_once('\t').unwrap_or((a, ""));
        if let Some(p) = lib.strip_prefix("panic") {
            return fail("panic", format!("TZ={} {t}: panicked:{p}", z.tz));
        }
        let cand: Vec<&str> = cand.split(',').filter(|x| !x.is_empty()).collect();
        match cand.len() {
            0 => cx.class("skipped local time"),
            1 => {}
            _ => cx.class("repeated local time"),
        }
        if !cand.is_empty() {
            ensure!(cand.contains(&lib), "instant", "TZ={} {t}: {lib} instead of {cand:?}", z.tz);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- printing

fn c18_print(s: &mut Src, cx: &mut Ctx) -> PResult {
    let e = gen_entry(s);
    let (p, mut o, k) = parts(s, &e);
    for x in o.iter_mut() {
        // Local timestamps as well (this process' own time zone).
        if x.to_lowercase().starts_with("valid-") && s.chance(60) {
            *x = x.replace('Z', "");
        }
    }
    let line = assemble(s, &p, &o, &k);
    let a = match AllowedSigner::from_string(&line) {
        Ok(a) => a,
        Err(_) => return Ok(()),
    };
    // Years beyond four digits cannot be written; they only arise from local times at the very end of year 9999.
    if [a.valid_after, a.valid_before].iter().flatten().any(|t| *t >= days(10000, 1, 1) * 86400 || *t < days(1, 1, 1) * 86400) {
        return Ok(());
    }
    let t = a.to_string();
    cx.nontrivial(&line);
    cx.desc(|| format!("{line} printed as {t}"));
    ensure!(!t.contains('\n') && !t.contains('\r'), "lines", "printed on several lines: {t:?}");
    match AllowedSigner::from_string(&t) {
        Ok(b) => {
            ensure!(b == a, "differs", "{line:?} is printed as {t:?}, which reads as {b:?} instead of {a:?}");
            ensure!(b.to_string() == t, "unstable", "printing again gives {:?} instead of {t:?}", b.to_string());
        }
        Err(er) => return fail("unreadable", format!("{line:?} is printed as {t:?}, which is rejected: {er}")),
    }
    match AllowedSigners::from_string(&format!("# x\n{t}\n\n{t}")) {
        Ok(f) => ensure!(f.0.len() == 2 && f.0[0] == a && f.0[1] == a, "differs", "the printed line in a file gives {:?}", f.0),
        Err(er) => return fail("unreadable", format!("the printed line {t:?} is rejected in a file: {er}")),
    }
    Ok(())
}
fn c18_zones(s: &mut Src, cx: &mut Ctx) -> PResult {
    let z = gen_zone(s);
    let n = s.range(1, 30);
    let mut lines = vec![];
    for _ in 0..n {
        let a = zone_stamp(s, &z);
        lines.push(match s.below(3) {
            0 => format!("a,b valid-after={a} {KEY}"),
            1 => format!("\"a b\" cert-authority valid-before=\"{a}\" {KEY}"),
            _ => format!("x valid-after=19710101 valid-before={a}Z namespaces=\"git\" {KEY}"),
        });
    }
    cx.nontrivial(&(&z.tz, &lines));
    cx.desc(|| format!("TZ={} {lines:?}", z.tz));
    let answers = ask(&z.tz, &lines.iter().map(|t| format!("print\t{t}")).collect::<Vec<_>>());
    for (l, a) in lines.iter().zip(&answers) {
        if a.starts_with("panic") {
            return fail("panic", format!("TZ={} {l}: {a}", z.tz));
        }
        ensure!(a == "same" || a == "err", "differs", "TZ={} {l}: {a}", z.tz);
    }
    Ok(())
}

// ---------------------------------------------------------------- files

fn c19_files(s: &mut Src, cx: &mut Ctx) -> PResult {
    let big = s.chance(1);
    let n = if big { *s.pick(&[300, 420, 600, 1100]) } else { count(s, 12).0 };
    let mut text = String::new();
    let mut want: Vec<AllowedSigner> = vec![];
    let mut err: Option<(usize, String)> = None;
    let mut entries = 0;
    let bad_file = s.chance(110);
    for i in 0..n {
        let last = i + 1 == n;
        let indent = *s.pick(&["", "", " ", "\t", "   \t"]);
        let line = match s.weighted(&[if big { 40 } else { 12 }, if bad_file && !big { 4 } else { 0 }, 4, 3, 1]) {
            0 => {
                let e = gen_entry(s);
                let (p, o, k) = parts(s, &e);
                assemble(s, &p, &o, &k)
            }
            1 if s.bool() => {
                // Nothing about the rest of a line makes its error one to overlook.
                let e = gen_entry(s);
                let (_, o, k) = parts(s, &e);
                let p = s.pick(&["@cert-authority", "@revoked", "@x", ";p", "//p", "--p", "!p", "*", "p", "%p", "'p'", "é", "[p]", "p=q", "\u{feff}p"]).to_string();
                let (t, d) = k.split_once(' ').unwrap_or((&k, ""));
                let k = match s.below(5) {
                    0 => t.to_string(),
                    1 => format!("{t} {}", &d[..s.below(d.len().max(1))]),
                    2 => format!("ssh-bogus {d}"),
                    3 => format!("{k} extra"),
                    _ => format!("{t} !{d}"),
                };
                assemble(s, &p, &o, &k)
            }
            1 => s
                .pick(&["p", "p bogus AAAA", "a,,b ssh-ed25519 AAAA", "p valid-after=x ssh-ed25519 AAAA", "\"p ssh-ed25519 AAAA", "p namespaces=a namespaces=b ssh-ed25519 AAAA", "p ssh-ed25519 AAAAC3NzaC1lZDI1NTE5AAAAIHkbe7gwx7s0dlApEEzpUyOAPrzPLy4czEZw/sh8m8rd trailing"])
                .to_string(),
            2 => s.pick(&["", " ", "\t", "    "]).to_string(),
            3 => {
                // Only a line feed ends a line (and so ends a comment).
                let sep = *s.pick(&['\u{2028}', '\u{2029}', '\u{85}', '\u{b}', '\u{c}', '\r', '\0', '\u{1e}']);
                let e = gen_entry(s);
                let (p, o, k) = parts(s, &e);
                let entry = assemble(s, &p, &o, &k);
                match s.below(3) {
                    0 => format!("# x{sep}{}", entry.trim()),
                    1 => format!("a{sep}b {k}"),
                    _ => format!("a {k} # x{sep}y"),
                }
            }
            _ => s.pick(&["# comment", "#", "#\"", "   # indented", "## p ssh-ed25519 AAAA"]).to_string(),
        };
        let trimmed = line.trim();
        if !trimmed.is_empty() && !trimmed.starts_with('#') {
            entries += 1;
            // The line alone decides.
            match AllowedSigner::from_string(&line) {
                Ok(a) => want.push(a),
                Err(Error::InvalidAllowedSigner(e)) => {
                    if err.is_none() {
                        err = Some((i, format!("{e:?}")));
                    }
                }
                Err(e) => return fail("error-kind", format!("{line:?} gives {e:?}")),
            }
        }
        text.push_str(indent);
        text.push_str(&line);
        if !last || s.bool() {
            text.push_str(s.pick(&["\n", "\n", "\r\n"]));
        }
    }
    if entries > 0 {
        cx.nontrivial(&text);
    }
    cx.class(if err.is_some() { "with an invalid line" } else { "all valid" });
    cx.desc(|| text.clone());
    let got = if s.chance(40) {
        let sc = sshk::Scratch::new();
        AllowedSigners::from_path(sc.file("allowed_signers", text.as_bytes()))
    } else {
        AllowedSigners::from_string(&text)
    };
    match (got, err) {
        (Ok(f), None) => {
            ensure!(f.0 == want, "entries", "{} entries instead of {}, or other ones: {text:?}", f.0.len(), want.len());
            Ok(())
        }
        (Ok(_), Some((i, e))) => fail("accepted-invalid", format!("line {i} is invalid ({e}) but the file is accepted: {text:?}")),
        (Err(Error::InvalidAllowedSigners(e, i)), Some((wi, we))) => {
            ensure!(i == wi && format!("{e:?}") == we, "error", "reports {e:?} in line {i} instead of {we} in line {wi}: {text:?}");
            Ok(())
        }
        (Err(e), None) => fail("rejected-valid", format!("valid file rejected ({e}): {text:?}")),
        (Err(e), Some((i, we))) => fail("error", format!("reports {e:?} instead of {we} in line {i}")),
    }
}

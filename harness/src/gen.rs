//! Generators shared by the properties.

use crate::crypto::*;
use crate::engine::Src;
use crate::lit;
use crate::wire::{R, W};
use std::sync::OnceLock;

// ---------------------------------------------------------------- text

/// Sometimes a word of the library's source.
fn known_word(s: &mut Src) -> Option<String> {
    let ok = |t: &str| !t.is_empty() && t.bytes().all(|c| c.is_ascii_alphanumeric() || b"@.-_+/".contains(&c));
    let d = lit::dict();
    let new: Vec<&String> = d.texts.iter().filter(|t| ok(t)).collect();
    if new.is_empty() || !s.chance(20) {
        return None;
    }
    let w = s.pick(&new).to_string();
    let w = vary(s, w, "a");
    Some(if ok(&w) { w } else { "a".into() })
}
/// A text as it is, or something close to it.
fn vary(s: &mut Src, w: String, more: &str) -> String {
    match s.weighted(&[8, 2, 2, 1, 1, 1, 1]) {
        0 => w,
        1 => format!("{w}{more}"),
        2 => format!("{more}{w}"),
        3 => w.to_uppercase(),
        4 => w.to_lowercase(),
        5 => {
            let n = w.chars().count();
            w.chars().take(n - 1).collect()
        }
        _ => format!("{w}{w}"),
    }
}
/// Sometimes a text around a string of the library's source.
fn known_text(s: &mut Src) -> Option<String> {
    let d = lit::dict();
    let w = if !d.texts.is_empty() && s.chance(24) {
        s.pick(&d.texts).clone()
    } else if !d.old.is_empty() && s.chance(3) {
        s.pick(&d.old).clone()
    } else {
        return None;
    };
    let more = if s.bool() { "x".to_string() } else { s.pick(CHARS).to_string() };
    Some(vary(s, w, &more))
}
/// Sometimes a number of the library's source that was not there before, or one next to it.
pub fn known_number(s: &mut Src, lo: u64, hi: u64) -> Option<u64> {
    let d = lit::dict();
    let fits: Vec<u64> = d.ints.iter().copied().filter(|n| (lo..=hi).contains(n)).collect();
    if fits.is_empty() || !s.chance(48) {
        return None;
    }
    let n = *s.pick(&fits);
    let n = match s.weighted(&[3, 2, 2]) {
        0 => n,
        1 => n.wrapping_add(1),
        _ => n.wrapping_sub(1),
    };
    Some(n.clamp(lo, hi))
}
pub fn big(s: &mut Src) -> usize {
    // Very many bytes cost time, so they are rarer.
    let top = if s.chance(24) { 3_000_000 } else { 80_000 };
    match known_number(s, 3, top) {
        Some(n) => n as usize,
        None if top > 80_000 && s.chance(64) => *s.pick(&[100_000, 131_072, 131_073, 200_000, 262_144, 262_145, 300_000, 524_289, 1_048_577]),
        None => *s.pick(SIZES),
    }
}
/// The same for text, which also has to fit in an argument of a command.
pub fn big_text(s: &mut Src) -> usize {
    big(s).min(80_000)
}
pub fn many_of(s: &mut Src) -> usize {
    match known_number(s, 3, 1500) {
        Some(n) => n as usize,
        None => *s.pick(COUNTS),
    }
}
pub fn word(s: &mut Src) -> String {
    const A: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789@.-_+/";
    if !s.words.is_empty() && s.chance(16) {
        let i = s.below(s.words.len());
        return s.words[i].clone();
    }
    let w = match known_word(s) {
        Some(w) => w,
        None => {
            let n = 1 + s.len(20);
            (0..n).map(|_| A[s.below(A.len())] as char).collect()
        }
    };
    if s.words.len() < 8 {
        s.words.push(w.clone());
    }
    w
}
const CHARS: &[char] = &[
    'a', 'Z', '0', ' ', '"', '#', ',', '=', '\\', '\n', '\t', '\r', '\0', 'é', 'ß', '漢', '😀', '\u{7f}', '\u{80}', '\u{fffd}', '@', '*', '-', ':', '\u{2028}', '\u{feff}',
];
/// Lengths around which something may change.
pub const SIZES: &[usize] = &[127, 128, 255, 256, 257, 1023, 1024, 4095, 4096, 4097, 8192, 16384, 32767, 32768, 65535, 65536, 66000, 70000];
/// A number of bytes: mostly at most max, sometimes many more.
pub fn size(s: &mut Src, max: usize) -> usize {
    if s.chance(10) {
        big(s)
    } else {
        s.len(max)
    }
}
/// Numbers of entries around which something may change.
pub const COUNTS: &[usize] = &[9, 10, 15, 16, 17, 24, 25, 31, 32, 33, 63, 64, 65, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300];
/// A number of entries: mostly at most max, sometimes many (the second value).
pub fn count(s: &mut Src, max: usize) -> (usize, bool) {
    if s.chance(8) {
        (many_of(s), true)
    } else {
        (s.len(max), false)
    }
}
/// The i-th of many texts.
fn nth_text(s: &mut Src, many: bool, i: usize) -> String {
    if many {
        format!("{}{}", if i % 3 == 0 { "p" } else { "Q-" }, (i * 37) % 1000)
    } else {
        text(s)
    }
}
/// A list of texts.
pub fn texts(s: &mut Src, max: usize) -> Vec<String> {
    let (n, many) = count(s, max);
    (0..n).map(|i| nth_text(s, many, i)).collect()
}
/// Any UTF-8 text, from empty to a few hundred bytes, sometimes much longer,
/// and sometimes one that already occurs in the case.
pub fn text(s: &mut Src) -> String {
    if !s.texts.is_empty() && s.chance(16) {
        let i = s.below(s.texts.len());
        return s.texts[i].clone();
    }
    let t = fresh_text(s);
    if s.texts.len() < 8 {
        s.texts.push(t.clone());
    }
    t
}
fn fresh_text(s: &mut Src) -> String {
    if let Some(t) = known_text(s) {
        return t;
    }
    match s.weighted(&[3, 4, 5, 1]) {
        0 => word(s),
        1 => {
            let n = s.len(12);
            (0..n).map(|_| *s.pick(CHARS)).collect()
        }
        2 => {
            const W: &[&str] = &["", "root", "obelisk", "host.example.com", "deploy@ci", "192.168.0.0/16,10.0.0.1", "/bin/true", "*", "a b", "permit-pty"];
            s.pick(W).to_string()
        }
        _ => {
            let n = if s.chance(24) { big_text(s) } else { s.below(700) };
            let c = *s.pick(CHARS);
            // Up to four bytes each.
            std::iter::repeat(c).take(n.min(120_000 / c.len_utf8())).collect()
        }
    }
}
pub fn text_nonempty(s: &mut Src) -> String {
    let t = text(s);
    if t.is_empty() {
        "x".into()
    } else {
        t
    }
}
pub fn u64_edgy(s: &mut Src) -> u64 {
    if !s.nums.is_empty() && s.chance(24) {
        // Equal to an earlier one, or next to it.
        let back = s.below(s.nums.len().min(3));
        let n = s.nums[s.nums.len() - 1 - back];
        return match s.weighted(&[3, 2, 2]) {
            0 => n,
            1 => n.wrapping_add(1),
            _ => n.wrapping_sub(1),
        };
    }
    let n = u64_fresh(s);
    s.nums.push(n);
    n
}
fn u64_fresh(s: &mut Src) -> u64 {
    if let Some(n) = known_number(s, 3, u64::MAX) {
        return match s.weighted(&[4, 1, 1]) {
            1 if n < 64 => 1u64 << n,
            2 if n < 64 => (1u64 << n) + 1,
            _ => n,
        };
    }
    match s.weighted(&[2, 2, 2, 1, 3, 1]) {
        0 => 0,
        1 => u64::MAX,
        2 => s.below(1000) as u64,
        3 => (1u64 << s.below(64)).wrapping_sub(s.below(2) as u64),
        4 => s.u64(),
        // Times of our days.
        _ => 1_500_000_000 + s.below(600_000_000) as u64,
    }
}

// ---------------------------------------------------------------- keys

fn pool() -> &'static Vec<Vec<Key>> {
    static P: OnceLock<Vec<Vec<Key>>> = OnceLock::new();
    P.get_or_init(|| {
        ALL_ALGS
            .iter()
            .map(|a| {
                let seedv = |i: u8| sha256(&[i, *a as u8, 0x51]);
                match a {
                    Alg::Rsa => (0..rsa_fix().len()).map(Key::rsa).collect(),
                    Alg::Ed | Alg::SkEd => (0..12).map(|i| Key::ed(*a, &seedv(i), APPS[i as usize % APPS.len()])).collect(),
                    _ => (0..12u8)
                        .map(|i| {
                            let mut raw = [seedv(i), seedv(i + 100), seedv(i + 200)].concat();
                            raw.truncate(a.field_len());
                            // Scalars with leading zero bytes, and tiny ones.
                            match i {
                                8 => raw[0] = 0,
                                9 => raw[..2].fill(0),
                                10 => {
                                    let l = raw.len();
                                    raw[..l - 1].fill(0)
                                }
                                11 => raw[0] = 0x7f,
                                _ => {}
                            }
                            Key::ec(*a, &raw, APPS[i as usize % APPS.len()])
                        })
                        .collect(),
                }
            })
            .collect()
    })
}
pub const APPS: &[&str] = &["ssh:", "ssh:work", "ssh:ünïcode", "", "ssh:a", "https://example.com"];

/// A key of the given algorithm; mostly from a fixed pool, sometimes fresh.
/// RSA: only keys that verification supports (2048 bits and more).
pub fn key_of(s: &mut Src, a: Alg) -> Key {
    let idx = ALL_ALGS.iter().position(|x| *x == a).unwrap();
    let p = &pool()[idx];
    if a == Alg::Rsa {
        return match s.weighted(&[12, 4]) {
            0 => p[s.below(RSA_FAST)].clone(),
            _ => p[s.below(RSA_VERIFIABLE)].clone(),
        };
    }
    if s.chance(40) {
        let raw = s.blob(a.field_len());
        let app = s.pick(APPS).to_string();
        return match a {
            Alg::Ed | Alg::SkEd => Key::ed(a, &raw[..32], &app),
            _ => Key::ec(a, &raw, &app),
        };
    }
    let mut k = p[s.below(p.len())].clone();
    if a.is_sk() && s.chance(60) {
        k.app = text(s);
    }
    k
}
pub fn key_any(s: &mut Src) -> Key {
    let a = *s.pick(&ALL_ALGS);
    key_of(s, a)
}
pub fn key_signing(s: &mut Src) -> Key {
    let a = ALL_SIGNING[s.weighted(&[5, 4, 2, 3, 3, 3])];
    key_of(s, a)
}
/// A key the library itself can sign with in software.
pub fn key_soft(s: &mut Src) -> Key {
    let a = SOFT_ALGS[s.weighted(&[4, 4, 3, 3])];
    if a == Alg::Rsa {
        let i = *s.pick(&RSA_SIGNABLE);
        return Key::rsa(i);
    }
    key_of(s, a)
}

// ---------------------------------------------------------------- certificates

#[derive(Clone, Debug)]
pub struct CertM {
    pub subj: Key,
    pub nonce: Vec<u8>,
    pub serial: u64,
    pub typ: u32,
    pub key_id: String,
    pub principals: Vec<String>,
    pub after: u64,
    pub before: u64,
    pub crit: Vec<(String, String)>,
    pub ext: Vec<(String, String)>,
    pub reserved: Vec<u8>,
    pub ca: Key,
}

const OPTS: &[&str] = &[
    "force-command",
    "source-address",
    "verify-required",
    "permit-X11-forwarding",
    "permit-agent-forwarding",
    "permit-port-forwarding",
    "permit-pty",
    "permit-user-rc",
    "no-touch-required",
    "custom@example.com",
    "Zeta",
    "a",
];
pub fn opt_name(s: &mut Src) -> String {
    if s.chance(60) {
        text(s)
    } else {
        s.pick(OPTS).to_string()
    }
}
/// Option list with distinct names, sorted (the canonical order).
pub fn options(s: &mut Src, max: usize) -> Vec<(String, String)> {
    let many = s.chance(6);
    let n = if many { many_of(s) } else { s.below(max + 1) };
    let mut m = std::collections::BTreeMap::new();
    for i in 0..n {
        let k = if many { nth_text(s, true, i) } else { opt_name(s) };
        let v = if many && i % 5 != 0 || s.bool() { String::new() } else { text(s) };
        m.insert(k.into_bytes(), v);
    }
    m.into_iter().map(|(k, v)| (String::from_utf8(k).unwrap(), v)).collect()
}

pub fn enc_options(o: &[(String, String)]) -> Vec<u8> {
    let mut w = W::new();
    for (k, v) in o {
        w = w.str(k);
        w = if v.is_empty() { w.u32(0) } else { w.bytes(&W::new().str(v).0) };
    }
    w.0
}
pub fn enc_strings(o: &[String]) -> Vec<u8> {
    let mut w = W::new();
    for k in o {
        w = w.str(k);
    }
    w.0
}

impl CertM {
    pub fn gen(s: &mut Src) -> CertM {
        let subj = key_any(s);
        let ca = key_signing(s);
        // A certificate for the authority's own key.
        let subj = if s.chance(6) { ca.clone() } else { subj };
        CertM {
            subj,
            nonce: match s.weighted(&[6, 1, 1]) {
                0 => s.blob(32),
                1 => vec![],
                _ => {
                    let n = if s.chance(60) { big(s) } else { s.below(80) };
                    s.blob(n)
                }
            },
            serial: u64_edgy(s),
            typ: 1 + s.below(2) as u32,
            key_id: text(s),
            principals: texts(s, 12),
            after: u64_edgy(s),
            before: u64_edgy(s),
            crit: options(s, 4),
            ext: options(s, 6),
            reserved: if s.chance(24) {
                let n = if s.chance(60) { big(s) } else { 1 + s.below(40) };
                s.blob(n)
            } else {
                vec![]
            },
            ca,
        }
    }
    pub fn tbs_parts(&self) -> Vec<Vec<u8>> {
        vec![
            W::new().str(self.subj.alg.cert()).0,
            W::new().bytes(&self.nonce).0,
            self.subj.pub_data(),
            W::new().u64(self.serial).0,
            W::new().u32(self.typ).0,
            W::new().str(&self.key_id).0,
            W::new().bytes(&enc_strings(&self.principals)).0,
            W::new().u64(self.after).0,
            W::new().u64(self.before).0,
            W::new().bytes(&enc_options(&self.crit)).0,
            W::new().bytes(&enc_options(&self.ext)).0,
            W::new().bytes(&self.reserved).0,
            W::new().bytes(&self.ca.blob()).0,
        ]
    }
    pub fn tbs(&self) -> Vec<u8> {
        self.tbs_parts().concat()
    }
    pub fn summary(&self) -> String {
        format!(
            "{} cert, CA {}{}, serial {}, type {}, key id {:?}, principals {:?}, valid {}..{}, critical {:?}, extensions {:?}",
            self.subj.alg.plain(),
            self.ca.alg.plain(),
            if self.ca.alg == Alg::Rsa { format!(" ({})", self.ca.fix().name) } else { String::new() },
            self.serial,
            self.typ,
            self.key_id,
            self.principals,
            self.after,
            self.before,
            self.crit,
            self.ext
        )
    }
}
pub fn attach(tbs: &[u8], sig: &[u8]) -> Vec<u8> {
    W::new().raw(tbs).bytes(sig).0
}

/// A certificate as the strict reference parser sees it.
#[derive(Clone, Debug)]
pub struct RefCert {
    pub alg: Alg,
    pub nonce: Vec<u8>,
    pub key: RefPub,
    pub serial: u64,
    pub typ: u32,
    pub key_id: String,
    pub principals: Vec<String>,
    pub after: u64,
    pub before: u64,
    pub crit: Vec<(String, String)>,
    pub ext: Vec<(String, String)>,
    pub reserved: Vec<u8>,
    pub ca: RefPub,
    pub sig: Vec<u8>,
    pub signed_len: usize,
}

fn ref_options(b: &[u8]) -> Option<Vec<(String, String)>> {
    let mut r = R::new(b);
    let mut v: Vec<(String, String)> = vec![];
    while r.left() > 0 {
        let k = r.str()?.to_string();
        let d = r.bytes()?;
        let val = if d.is_empty() {
            String::new()
        } else {
            let mut i = R::new(d);
            let x = i.str()?.to_string();
            if i.left() != 0 {
                return None;
            }
            x
        };
        if v.iter().any(|(n, _)| *n == k) {
            return None;
        }
        v.push((k, val));
    }
    Some(v)
}

/// Strict structural parse (PROTOCOL.certkeys); None if malformed. The option
/// order is not enforced.
pub fn ref_cert_structure(b: &[u8]) -> Option<RefCert> {
    let mut r = R::new(b);
    let name = r.str()?;
    let alg = *ALL_ALGS.iter().find(|a| a.cert() == name)?;
    let nonce = r.bytes()?.to_vec();
    let key = parse_pub_fields(alg, &mut r)?;
    let serial = r.u64()?;
    let typ = r.u32()?;
    if typ != 1 && typ != 2 {
        return None;
    }
    let key_id = r.str()?.to_string();
    let pb = r.bytes()?;
    let mut pr = R::new(pb);
    let mut principals = vec![];
    while pr.left() > 0 {
        principals.push(pr.str()?.to_string());
    }
    let after = r.u64()?;
    let before = r.u64()?;
    let crit = ref_options(r.bytes()?)?;
    let ext = ref_options(r.bytes()?)?;
    let reserved = r.bytes()?.to_vec();
    let ca = parse_pub(r.bytes()?)?;
    let signed_len = r.p;
    let sig = r.bytes()?.to_vec();
    if r.left() != 0 {
        return None;
    }
    Some(RefCert { alg, nonce, key, serial, typ, key_id, principals, after, before, crit, ext, reserved, ca, sig, signed_len })
}
/// Structure and CA signature.
pub fn ref_cert(b: &[u8]) -> Option<RefCert> {
    let c = ref_cert_structure(b)?;
    if verify(&c.ca, &c.sig, &b[..c.signed_len], true) {
        Some(c)
    } else {
        None
    }
}

/// Random byte-level damage.
pub fn mangle(s: &mut Src, b: &mut Vec<u8>) -> &'static str {
    match s.below(8) {
        0 | 1 | 2 if !b.is_empty() => {
            let i = s.below(b.len());
            b[i] ^= 1 << s.below(8);
            "bitflip"
        }
        3 if !b.is_empty() => {
            let i = s.below(b.len());
            b[i] = s.byte();
            "byte"
        }
        4 if !b.is_empty() => {
            let i = s.below(b.len());
            b.remove(i);
            "delete"
        }
        5 => {
            let i = s.below(b.len() + 1);
            b.insert(i, s.byte());
            "insert"
        }
        6 => {
            let i = s.below(b.len() + 1);
            b.truncate(i);
            "truncate"
        }
        _ => {
            let n = 1 + s.below(6);
            let t = s.bytes(n);
            b.extend_from_slice(&t);
            "extend"
        }
    }
}

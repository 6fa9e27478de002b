//! C06, C07, C28: public keys, fingerprints, key type names.

use super::common::*;
use crate::crypto::*;
use crate::engine::*;
use crate::gen::*;
use crate::sshk;
use crate::wire::{b64, R, W};
use sshcerts::ssh::{CertType, Certificate, Curve, CurveKind, KeyTypeKind, Fingerprint, FingerprintKind, KeyType, PublicKey};

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C06",
            rule: "A public key of any type (generated keys; RSA also with arbitrary integers, security keys with arbitrary applications) is encoded independently and read from bytes, a text line with arbitrary spacing and comment, or a file; components and comment must match and every way of writing it must give the same blob and an equal key. Damaged blobs and lines must be accepted exactly when an independent strict parser accepts them. Non-trivial: every case; distinct by blob and line.",
            facets: vec![facet("round-trip", 180000, 3000000, c06_roundtrip), facet("malformed-blob", 300000, 6000000, c06_blob), facet("malformed-line", 100000, 1200000, c06_line)],
        },
        Property {
            id: "C07",
            rule: "Fingerprints (three hashes) and sizes of generated keys, read as public key, private key and certificate, are compared with OpenSSL hashes of the independently encoded blob, the bit length of the modulus or curve, and ssh-keygen -l. Non-trivial: every case; distinct by blob.",
            facets: vec![facet("hash-and-size", 128000, 1200000, c07_hash), facet("raw-compute", 40000, 300000, c07_raw), facet("ssh-keygen", 1200, 7500, c07_keygen)],
        },
        Property {
            id: "C28",
            rule: "Every name in the table is looked up and converted in both directions; other strings (edits of table names, arbitrary text) must be refused. Non-trivial: every case; distinct by name.",
            facets: vec![facet("table", 1200, 2400, c28_table), facet("near-miss", 6000000, 20000000, c28_miss)],
        },
    ]
}

/// Any well-formed public key blob.
fn any_blob(s: &mut Src) -> (Vec<u8>, RefPub) {
    let blob = if s.chance(70) {
        let n = match s.below(4) {
            0 => s.below(40),
            1 => 256,
            2 => s.range(120, 140),
            _ => s.below(1100),
        };
        let mut n = s.blob(n);
        if let Some(x) = n.first_mut() {
            match s.below(4) {
                0 => *x = 1 << s.below(8),
                1 => *x = 0,
                _ => {}
            }
        }
        let e = match s.below(4) {
            0 => vec![1, 0, 1],
            1 => vec![3],
            2 => vec![],
            _ => {
                let l = s.below(9);
                s.blob(l)
            }
        };
        W::new().str("ssh-rsa").mpint(&e).mpint(&n).0
    } else if s.chance(20) {
        Key::rsa(s.below(rsa_fix().len())).blob()
    } else {
        key_any(s).blob()
    };
    let r = parse_pub(&blob).expect("reference parser must read its own key");
    (blob, r)
}
fn comment_text(s: &mut Src) -> Option<String> {
    match s.weighted(&[2, 3, 4, 2]) {
        0 => None,
        1 => Some(word(s)),
        2 => Some(format!("{} {}", word(s), word(s))),
        _ => {
            let t: String = text(s).chars().filter(|c| *c != '\n' && *c != '\r').collect();
            let t = t.trim().to_string();
            if t.is_empty() {
                None
            } else {
                Some(t)
            }
        }
    }
}

fn c06_roundtrip(s: &mut Src, cx: &mut Ctx) -> PResult {
    let (blob, r) = any_blob(s);
    let comment = comment_text(s);
    let line = format!("{} {}", r.alg.plain(), b64(&blob));
    let mut full = line.clone();
    if let Some(c) = &comment {
        full.push(' ');
        full.push_str(c);
    }
    cx.nontrivial(&full);
    cx.class(r.alg.plain());
    cx.desc(|| full.clone());
    // bytes
    let k = match PublicKey::from_bytes(&blob) {
        Ok(k) => k,
        Err(e) => return fail("rejected-valid", format!("valid key {line} rejected: {e}")),
    };
    if let Err(m) = same_pub(&k, &r) {
        return fail("components", m);
    }
    ensure!(k.comment.is_none(), "comment", "a key read from bytes has a comment {:?}", k.comment);
    ensure!(k.encode() == blob, "encode", "encode() gives {} instead of {}", hex(&k.encode()), hex(&blob));
    ensure!(k.to_string() == line, "display", "displayed as {:?} instead of {line:?}", k.to_string());
    // text
    let sep = *s.pick(&[" ", "\t", "  ", " \t"]);
    let mut t = format!("{}{}{}{}", s.pick(&["", " ", "\t", "\n"]), r.alg.plain(), sep, b64(&blob));
    if let Some(c) = &comment {
        t.push_str(sep);
        t.push_str(c);
    }
    t.push_str(s.pick(&["", "\n", "\r\n", " ", "\n\n", "\nother text", "\r\nother text\n", " \n# x", "\n\nx y z"]));
    let got = if s.chance(30) {
        let sc = sshk::Scratch::new();
        PublicKey::from_path(sc.file("k.pub", t.as_bytes()))
    } else {
        PublicKey::from_string(&t)
    };
    let kt = match got {
        Ok(k) => k,
        Err(e) => return fail("rejected-valid", format!("valid line {t:?} rejected: {e}")),
    };
    if let Err(m) = same_pub(&kt, &r) {
        return fail("components", format!("{m} (line {t:?})"));
    }
    ensure!(kt.comment == comment, "comment", "comment {:?} instead of {:?} in {t:?}", kt.comment, comment);
    ensure!(kt.encode() == blob, "encode", "encode() of the key read from text differs");
    ensure!(kt.to_string() == full, "display", "displayed as {:?} instead of {full:?}", kt.to_string());
    let mut out = vec![];
    if kt.write(&mut out).is_err() {
        return fail("write", "write() failed");
    }
    ensure!(out == format!("{full}\n").as_bytes(), "write", "written as {:?} instead of {full:?}", String::from_utf8_lossy(&out));
    match PublicKey::from_string(std::str::from_utf8(&out).unwrap()) {
        Ok(k2) => ensure!(k2 == kt, "reparse", "the written key reads back differently: {full:?}"),
        Err(e) => return fail("reparse", format!("the written key does not read back: {e}")),
    }
    match PublicKey::from_bytes(&kt.encode()) {
        Ok(k2) => ensure!(k2 == k, "reparse", "the encoded key reads back differently"),
        Err(e) => return fail("reparse", format!("the encoded key does not read back: {e}")),
    }
    Ok(())
}

/// Is this blob named by one of the RSA signature scheme aliases (not judged)?
fn alias(b: &[u8]) -> bool {
    matches!(R::new(b).str(), Some("rsa-sha2-256") | Some("rsa-sha2-512"))
}

fn c06_blob(s: &mut Src, cx: &mut Ctx) -> PResult {
    let (mut blob, r) = any_blob(s);
    let orig = blob.clone();
    let other = *s.pick(&ALL_ALGS);
    let kind = s.below(12);
    match kind {
        0..=3 => {
            mangle(s, &mut blob);
        }
        4 => {
            // Another type name in front of the same data.
            let mut rd = R::new(&orig);
            rd.str();
            let rest = orig[rd.p..].to_vec();
            let name = if s.bool() { other.plain() } else { other.cert() };
            blob = W::new().str(name).raw(&rest).0;
        }
        5 => {
            // A wrong curve name.
            let c = *s.pick(&["nistp256", "nistp384", "nistp521", "nistp224", "", "nistp256 ", "NISTP256"]);
            let a = *s.pick(&[Alg::P256, Alg::P384, Alg::P521, Alg::SkP256]);
            let k = key_of(s, a);
            blob = W::new().str(a.plain()).str(c).bytes(&k.public).0;
            if a.is_sk() {
                blob = W(blob).str(&k.app).0;
            }
        }
        6 => {
            // RSA integers that are negative, non-canonical, zero or swapped for garbage.
            let odd = |s: &mut Src| match s.below(6) {
                0 => vec![0],
                1 => vec![0, 1],
                2 => vec![0x80, 1],
                3 => vec![0xff; 3],
                4 => vec![0, 0, 0x80],
                _ => s.bytes(4),
            };
            let good = vec![1, 0, 1];
            let (e, n) = match s.below(3) {
                0 => (odd(s), mpint_of(s)),
                1 => (good, odd(s)),
                _ => (odd(s), odd(s)),
            };
            blob = W::new().str("ssh-rsa").bytes(&e).bytes(&n).0;
        }
        7 => {
            // Nested length fields.
            let i = s.below(blob.len().saturating_sub(4).max(1));
            let v = *s.pick(&[0u32, 1, 0xffff_ffff, 0x7fff_ffff, 0x8000_0000, 0xffff_fffc, 4]);
            for (j, b) in v.to_be_bytes().iter().enumerate() {
                if i + j < blob.len() {
                    blob[i + j] = *b;
                }
            }
        }
        8 => {
            // An application on a plain key, or none on a security key.
            let k = key_any(s);
            blob = k.blob();
            if k.alg.is_sk() {
                let n = blob.len() - 4 - k.app.len();
                blob.truncate(n);
            } else {
                blob = W(blob).str("ssh:").0;
            }
        }
        9 => {
            // Bytes that are no UTF-8 where text is expected.
            let bad = vec![0xffu8, 0xfe];
            let a = [Alg::SkEd, Alg::SkP256][s.below(2)];
            let k = key_of(s, a);
            let mut n = k.clone();
            n.app = String::new();
            let mut b = n.blob();
            let l = b.len() - 4;
            b.truncate(l);
            blob = W(b).bytes(&bad).0;
        }
        10 => {
            blob = s.pick(&[&b""[..], b"\0", b"\0\0\0\x07", b"\0\0\0\x07ssh-rs", b"\0\0\0\x07ssh-rsa", b"\0\0\0\0", b"\xff\xff\xff\xff"]).to_vec();
        }
        _ => {
            // A whole certificate.
            let mut m = CertM::gen(s);
            m.ca = key_of(s, Alg::Ed);
            let tbs = m.tbs();
            blob = attach(&tbs, &m.ca.sign(&tbs, &SigOpts::default()));
        }
    }
    if alias(&blob) {
        return Ok(());
    }
    cx.nontrivial(&blob);
    cx.desc(|| format!("{} damaged to {}", r.alg.plain(), hex(&blob)));
    let want = parse_pub(&blob);
    cx.class(if want.is_some() { "still well formed" } else { "malformed" });
    match (PublicKey::from_bytes(&blob), want) {
        (Ok(k), None) => fail("accepted-malformed", format!("malformed blob {} accepted as {k}", hex(&blob))),
        (Err(e), Some(_)) => fail("rejected-valid", format!("well-formed blob {} rejected: {e}", hex(&blob))),
        (Ok(k), Some(r)) => match same_pub(&k, &r) {
            Err(m) => fail("components", format!("{m}: {}", hex(&blob))),
            Ok(()) => {
                ensure!(k.encode() == blob, "encode", "{} encodes to {}", hex(&blob), hex(&k.encode()));
                Ok(())
            }
        },
        _ => Ok(()),
    }
}
fn mpint_of(s: &mut Src) -> Vec<u8> {
    let n = s.below(20);
    crate::wire::mpint(&s.blob(n))
}

fn c06_line(s: &mut Src, cx: &mut Ctx) -> PResult {
    let (blob, r) = any_blob(s);
    let name = r.alg.plain();
    let b = b64(&blob);
    let comment = comment_text(s).unwrap_or_default();
    let line = match s.below(11) {
        // The alphabet for URLs.
        10 if b.contains(['+', '/']) => format!("{name} {} {comment}", b.replace('+', "-").replace('/', "_")),
        0 => {
            let o = *s.pick(&ALL_ALGS);
            if o == r.alg {
                format!("{} {b} {comment}", o.cert())
            } else {
                format!("{} {b} {comment}", o.plain())
            }
        }
        1 => format!("{} {b} {comment}", s.pick(&["bogus", "ssh-dss", "SSH-RSA", "ssh-ed448", "ecdsa-sha2-nistp256@openssh.com", "rsa-sha2-256", "sk-ssh-ed25519", "ssh-rsa,"])),
        2 => name.to_string(),
        3 => String::new(),
        4 => format!("{name} {}", s.pick(&["====", "A", "!!!!", "AAAA", "-_-_"])),
        5 => {
            let i = s.below(b.len());
            let mut x = b.clone();
            x.insert(i, *s.pick(&['!', '-', '_', '.', '*', 'é']));
            format!("{name} {x} {comment}")
        }
        6 => {
            // Cut the base64 by a whole quantum, so that the blob loses bytes.
            let keep = s.below(b.len() / 4) * 4;
            format!("{name} {} {comment}", &b[..keep])
        }
        7 => {
            // Additional bytes after the key.
            let mut x = blob.clone();
            let n = s.range(1, 9);
            x.extend(s.bytes(n));
            format!("{name} {} {comment}", b64(&x))
        }
        8 => format!("{b} {name} {comment}"),
        _ => format!("{name}{b} {comment}"),
    };
    cx.nontrivial(&line);
    cx.desc(|| line.clone());
    match PublicKey::from_string(&line) {
        Ok(k) => fail("accepted-malformed", format!("malformed line {line:?} accepted as {k}")),
        Err(_) => Ok(()),
    }
}

fn ref_fp(kind: usize, blob: &[u8]) -> String {
    let (h, n) = match kind {
        0 => (sha256(blob), "SHA256"),
        1 => (sha384(blob), "SHA384"),
        _ => (sha512(blob), "SHA512"),
    };
    format!("{n}:{}", b64(&h).trim_end_matches('='))
}
fn kinds(i: usize) -> FingerprintKind {
    match i {
        0 => FingerprintKind::Sha256,
        1 => FingerprintKind::Sha384,
        _ => FingerprintKind::Sha512,
    }
}
fn check_fp(k: &PublicKey, blob: &[u8], how: &str) -> PResult {
    for i in 0..3 {
        let f = k.fingerprint_with(kinds(i));
        let want = ref_fp(i, blob);
        ensure!(f.to_string() == want, "fingerprint", "{how}: fingerprint {f} instead of {want}");
        ensure!(f.kind == kinds(i) && want.ends_with(&f.hash) && want.len() == f.hash.len() + 7, "fingerprint", "{how}: hash {:?}, kind {:?}", f.hash, f.kind);
    }
    let f = k.fingerprint();
    ensure!(f.to_string() == ref_fp(0, blob), "fingerprint", "{how}: default fingerprint {f}");
    Ok(())
}
fn bits_of(r: &RefPub) -> usize {
    match r.alg {
        Alg::Rsa => {
            let n = crate::wire::strip(&r.n);
            if n.is_empty() {
                0
            } else {
                n.len() * 8 - n[0].leading_zeros() as usize
            }
        }
        Alg::P384 => 384,
        Alg::P521 => 521,
        _ => 256,
    }
}

fn c07_hash(s: &mut Src, cx: &mut Ctx) -> PResult {
    let (blob, r) = any_blob(s);
    cx.nontrivial(&blob);
    cx.class(r.alg.plain());
    cx.desc(|| format!("{} {}", r.alg.plain(), b64(&blob)));
    let k = PublicKey::from_bytes(&blob).map_err(|e| Fail { kind: "pub-load".into(), msg: format!("{e}") })?;
    check_fp(&k, &blob, "public key from bytes")?;
    ensure!(k.bits() == bits_of(&r), "bits", "{} bits instead of {} for {}", k.bits(), bits_of(&r), hex(&blob));
    let t = PublicKey::from_string(&format!("{} {} {}", r.alg.plain(), b64(&blob), word(s))).map_err(|e| Fail { kind: "pub-load".into(), msg: format!("{e}") })?;
    check_fp(&t, &blob, "public key from text with a comment")?;
    ensure!(t.bits() == bits_of(&r), "bits", "{} bits instead of {}", t.bits(), bits_of(&r));
    // The name of a signature scheme in place of ssh-rsa: if it is read at all, it is the same key.
    if r.alg == Alg::Rsa {
        let name = *s.pick(&["rsa-sha2-256", "rsa-sha2-512"]);
        let other = W::new().str(name).raw(&blob[11..]).0;
        for k in [PublicKey::from_bytes(&other), PublicKey::from_string(&format!("{name} {}", b64(&other)))].into_iter().flatten() {
            check_fp(&k, &blob, "RSA key that names a signature scheme")?;
            ensure!(k.bits() == bits_of(&r), "bits", "{} bits instead of {}", k.bits(), bits_of(&r));
        }
    }
    match s.below(3) {
        0 => {
            let key = key_any(s);
            let p = lib_priv(&key)?;
            check_fp(&p.pubkey, &key.blob(), "public half of a private key")?;
            let shown = p.to_string();
            ensure!(shown.starts_with(&format!("{} ", ref_fp(0, &key.blob()))), "fingerprint", "private key displayed as {shown:?}");
        }
        1 => {
            let mut m = CertM::gen(s);
            if m.ca.alg == Alg::Rsa {
                m.ca = key_of(s, Alg::Ed);
            }
            let tbs = m.tbs();
            let bytes = attach(&tbs, &m.ca.sign(&tbs, &SigOpts::default()));
            let c = Certificate::from_bytes(&bytes).map_err(|e| Fail { kind: "cert-load".into(), msg: format!("{e}") })?;
            check_fp(&c.key, &m.subj.blob(), "subject key of a certificate")?;
            check_fp(&c.signature_key, &m.ca.blob(), "CA key of a certificate")?;
            ensure!(c.key.bits() == m.subj.bits() && c.signature_key.bits() == m.ca.bits(), "bits", "sizes of the keys in a certificate: {} and {}", c.key.bits(), c.signature_key.bits());
        }
        _ => {}
    }
    Ok(())
}
fn c07_raw(s: &mut Src, cx: &mut Ctx) -> PResult {
    let n = size(s, 600);
    let d = s.blob(n);
    cx.nontrivial(&d);
    for i in 0..3 {
        let f = Fingerprint::compute(kinds(i), &d);
        ensure!(f.to_string() == ref_fp(i, &d), "fingerprint", "fingerprint of {} is {f}", hex(&d));
    }
    Ok(())
}
fn c07_keygen(s: &mut Src, cx: &mut Ctx) -> PResult {
    if !sshk::available() {
        return Ok(());
    }
    // One call of ssh-keygen judges a dozen keys.
    let mut keys: Vec<(Vec<u8>, RefPub)> = vec![];
    for _ in 0..12 {
        let k = if s.chance(60) {
            let bits = s.range(1024, 4200);
            let mut n = s.blob((bits + 7) / 8);
            let top = (bits - 1) % 8;
            n[0] = (n[0] & ((1u16 << top) as u8).wrapping_sub(1)) | 1 << top;
            *n.last_mut().unwrap() |= 1;
            W::new().str("ssh-rsa").mpint(&[1, 0, 1]).mpint(&n).0
        } else {
            let mut k = key_any(s);
            k.app = "ssh:".into();
            k.blob()
        };
        let r = parse_pub(&k).unwrap();
        keys.push((k, r));
    }
    let mut file = String::new();
    for (b, r) in &keys {
        file.push_str(&format!("{} {}\n", r.alg.plain(), b64(b)));
    }
    cx.nontrivial(&file);
    cx.desc(|| file.clone());
    let sc = sshk::Scratch::new();
    let p = sc.file("keys.pub", file.as_bytes());
    for (i, h) in ["sha256", "sha384", "sha512"].iter().enumerate() {
        let o = sshk::run(&["-l", "-E", h, "-f", &p], None, &[]);
        let lines: Vec<&str> = o.stdout.lines().collect();
        if !o.ok || lines.len() != keys.len() {
            return fail("oracle", format!("ssh-keygen -l failed: {} {}", o.stdout, o.stderr));
        }
        for (l, (b, r)) in lines.iter().zip(&keys) {
            let mut w = l.split(' ');
            let bits: usize = w.next().unwrap_or("").parse().unwrap_or(0);
            let fp = w.next().unwrap_or("");
            let k = PublicKey::from_bytes(b).map_err(|e| Fail { kind: "pub-load".into(), msg: format!("{e}") })?;
            ensure!(k.bits() == bits, "bits", "{} bits, ssh-keygen says {bits}: {}", k.bits(), r.alg.plain());
            let got = k.fingerprint_with(kinds(i)).to_string();
            ensure!(got == fp, "fingerprint", "fingerprint {got}, ssh-keygen says {fp}");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- key types

fn table() -> Vec<(&'static str, &'static str, bool, bool)> {
    let mut v = vec![];
    for a in ALL_ALGS {
        v.push((a.plain(), a.plain(), false, a.is_sk()));
        v.push((a.cert(), a.plain(), true, a.is_sk()));
    }
    v.push(("rsa-sha2-256", "ssh-rsa", false, false));
    v.push(("rsa-sha2-512", "ssh-rsa", false, false));
    v
}
const CERT_TYPES: [(&str, CertType); 4] = [("user", CertType::User), ("User", CertType::User), ("host", CertType::Host), ("Host", CertType::Host)];
fn c28_table(s: &mut Src, cx: &mut Ctx) -> PResult {
    let t = table();
    let i = s.index as usize % (t.len() + 7);
    if i >= t.len() + 3 {
        let (id, k) = CERT_TYPES[i - t.len() - 3].clone();
        cx.nontrivial(id);
        ensure!(CertType::try_from(id) == Ok(k), "cert-type", "{id:?} read as {:?}", CertType::try_from(id));
        return Ok(());
    }
    if i >= t.len() {
        let (id, k) = [("nistp256", CurveKind::Nistp256), ("nistp384", CurveKind::Nistp384), ("nistp521", CurveKind::Nistp521)][i - t.len()].clone();
        cx.nontrivial(id);
        match Curve::from_identifier(id) {
            Ok(c) => ensure!(c.kind == k && c.identifier == id, "curve", "curve {id} read as {c:?}"),
            Err(e) => return fail("curve", format!("curve {id} not recognised: {e}")),
        }
        return Ok(());
    }
    let (name, plain, cert, sk) = t[i];
    cx.nontrivial(name);
    cx.desc(|| name.to_string());
    let k = match KeyType::from_name(name) {
        Ok(k) => k,
        Err(e) => return fail("unknown", format!("{name} not recognised: {e}")),
    };
    ensure!(k.name == name && k.to_string() == name, "name", "{name} reports the name {:?}", k.name);
    ensure!(k.plain == plain, "plain", "{name} reports the plain type {:?}", k.plain);
    let short = format!("{}{}", Alg::from_plain(plain).unwrap().short(), if cert { "-CERT" } else { "" });
    ensure!(k.short_name == short, "short", "{name} reports the short name {:?}", k.short_name);
    let alg = match k.kind {
        KeyTypeKind::Rsa | KeyTypeKind::RsaCert => "RSA",
        KeyTypeKind::Ecdsa | KeyTypeKind::EcdsaCert => "ECDSA",
        KeyTypeKind::Ed25519 | KeyTypeKind::Ed25519Cert => "ED25519",
        #[allow(unreachable_patterns)]
        _ => "another",
    };
    ensure!(Some(alg) == short.split('-').next(), "kind", "{name} reports the kind {:?}", k.kind);
    ensure!(k.is_cert == cert && k.is_sk == sk, "flags", "{name}: certificate {}, security key {}", k.is_cert, k.is_sk);
    let want_cert = Alg::from_plain(plain).unwrap().cert();
    ensure!(k.as_cert_name() == want_cert, "cert-name", "{name} has the certificate name {:?} instead of {want_cert:?}", k.as_cert_name());
    ensure!(k.as_pubkey_name() == plain, "plain-name", "{name} has the plain name {:?}", k.as_pubkey_name());
    match (KeyType::from_name(&k.as_cert_name()), KeyType::from_name(&k.as_pubkey_name())) {
        (Ok(c), Ok(p)) => {
            ensure!(c.is_cert && !p.is_cert && c.is_sk == sk && p.is_sk == sk, "inverse", "{name}: converted types are inconsistent");
            ensure!(c.as_pubkey_name() == plain && p.as_cert_name() == want_cert && c.plain == plain && p.plain == plain, "inverse", "{name}: conversion is not inverse");
            ensure!(cert && c == k || !cert && (p == k || name.starts_with("rsa-sha2-")), "inverse", "{name}: converting there and back gives another type");
        }
        _ => return fail("inverse", format!("{name}: a converted name is not recognised")),
    }
    Ok(())
}
fn c28_miss(s: &mut Src, cx: &mut Ctx) -> PResult {
    let t = table();
    let names: Vec<&str> = t.iter().map(|x| x.0).chain(["nistp256", "nistp384", "nistp521", "user", "User", "host", "Host"]).collect();
    let base = s.pick(&names).to_string();
    let v = match s.below(9) {
        0 => text(s),
        1 => base.to_uppercase(),
        2 => format!("{base}{}", s.pick(&[" ", "\0", "@openssh.com", "-cert-v01@openssh.com", "-cert-v00@openssh.com", "1"])),
        3 => format!("{}{base}", s.pick(&[" ", "\0", "sk-", "ssh-", "x"])),
        4 => base[..s.below(base.len())].to_string(),
        5 => {
            let mut b: Vec<char> = base.chars().collect();
            b.remove(s.below(b.len()));
            b.into_iter().collect()
        }
        6 => {
            let mut b: Vec<char> = base.chars().collect();
            let i = s.below(b.len());
            b[i] = *s.pick(&['a', 'A', '0', '2', '5', '6', '-', '@', 's', 'é']);
            b.into_iter().collect()
        }
        7 => base.replace("v01", "v02").replace("256", "224").replace("openssh.com", "example.com"),
        _ => s.pick(&["ssh-dss", "ssh-dss-cert-v01@openssh.com", "ssh-ed448", "ssh-xmss@openssh.com", "webauthn-sk-ecdsa-sha2-nistp256@openssh.com", "rsa-sha2-256-cert-v01@openssh.com", "rsa-sha2-512-cert-v01@openssh.com", "sk-ecdsa-sha2-nistp384@openssh.com", "nistk163", "secp256r1", "P-256", "", "USER", "HOST", "uSER", "1", "2", "user certificate", "host certificate", "client", "server", "users"]).to_string(),
    };
    cx.nontrivial(&v);
    cx.desc(|| v.clone());
    let known = t.iter().any(|x| x.0 == v);
    let kc = ["nistp256", "nistp384", "nistp521"].contains(&v.as_str());
    match KeyType::from_name(&v) {
        Ok(k) => ensure!(known && k.name == v, "accepted-unknown", "{v:?} recognised as {}", k.name),
        Err(_) => ensure!(!known, "unknown", "{v:?} not recognised"),
    }
    match Curve::from_identifier(&v) {
        Ok(c) => ensure!(kc && c.identifier == v, "accepted-unknown", "curve {v:?} recognised as {c:?}"),
        Err(_) => ensure!(!kc, "unknown", "curve {v:?} not recognised"),
    }
    let ct = CERT_TYPES.iter().find(|x| x.0 == v).map(|x| x.1.clone());
    ensure!(CertType::try_from(v.as_str()).ok() == ct, "cert-type", "certificate type {v:?} read as {:?}", CertType::try_from(v.as_str()));
    Ok(())
}

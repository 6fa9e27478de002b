//! C27: whatever the input, parsers and what they return neither panic nor run away.

use super::common::*;
use super::{fido, privs, sigs, signers, x509};
use crate::alloc;
use crate::crypto::*;
use crate::engine::*;
use crate::gen::*;
use crate::wire::{b64, W};
use sshcerts::ssh::*;

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C27",
        rule: "Valid artefacts of every kind are damaged 0 to 6 times by structure-aware mutations (bit flips, length bombs, splices, repeated regions, text edits; part of the certificates, attestations and encrypted keys are damaged before they are signed or encrypted so that the damage gets past the checks), or replaced by arbitrary bytes, and fed to every parser; what is accepted is encoded, printed, fingerprinted, verified and signed with. A panic, arithmetic overflow, crash, more than 512 times the input plus 512 KiB of memory, or more than 30 s of processor time is a violation. Further facets use inputs of up to a megabyte and coverage of every length field by boundary values. Non-trivial: every case; distinct by entry point and input.",
        facets: vec![facet("mutated", 40000, 1500000, c27_mutated), facet("lengths", 22500, 800000, c27_lengths), facet("truncated", 9000, 300000, c27_truncated), facet("big", 720, 12000, c27_big)],
    }]
}

#[derive(Clone, Debug, Hash)]
pub enum Input {
    CertBytes(Vec<u8>),
    CertText(String),
    PubBytes(Vec<u8>),
    PubText(String),
    PrivText(String),
    PrivPass(String),
    PrivBytes(Vec<u8>),
    Sig(String, Vec<u8>, String),
    Signer(String),
    Signers(String),
    X509(usize, Vec<u8>),
    Chain(Vec<u8>, Vec<u8>, String),
    Att(Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, String),
    Auth(Vec<u8>),
    Der(Vec<u8>),
    Read(Vec<u8>, Vec<u8>),
    Names(String),
}
pub const PASS: &str = "correct horse";
pub const KINDS: usize = 17;

impl Input {
    fn len(&self) -> usize {
        match self {
            Input::CertBytes(b) | Input::PubBytes(b) | Input::PrivBytes(b) | Input::X509(_, b) | Input::Auth(b) | Input::Der(b) => b.len(),
            Input::CertText(t) | Input::PubText(t) | Input::PrivText(t) | Input::PrivPass(t) | Input::Signer(t) | Input::Signers(t) | Input::Names(t) => t.len(),
            Input::Sig(t, m, n) => t.len() + m.len() + n.len(),
            Input::Chain(a, b, c) => a.len() + b.len() + c.len(),
            Input::Att(a, b, c, d, e) => a.len() + b.len() + c.len() + d.len() + e.len(),
            Input::Read(b, o) => b.len() * o.len().max(1),
        }
    }
    fn name(&self) -> &'static str {
        match self {
            Input::CertBytes(_) => "certificate bytes",
            Input::CertText(_) => "certificate text",
            Input::PubBytes(_) => "public key bytes",
            Input::PubText(_) => "public key text",
            Input::PrivText(_) => "private key text",
            Input::PrivPass(_) => "encrypted private key",
            Input::PrivBytes(_) => "private key bytes",
            Input::Sig(..) => "detached signature",
            Input::Signer(_) => "allowed signer",
            Input::Signers(_) => "allowed signers",
            Input::X509(..) => "x509",
            Input::Chain(..) => "piv chain",
            Input::Att(..) => "fido attestation",
            Input::Auth(_) => "authenticator data",
            Input::Der(_) => "der signature",
            Input::Read(..) => "reader",
            Input::Names(_) => "names",
        }
    }
}

fn use_pub(k: &PublicKey) -> usize {
    let mut n = k.encode().len() + k.to_string().len() + k.bits();
    n += k.fingerprint().to_string().len();
    for f in [FingerprintKind::Sha256, FingerprintKind::Sha384, FingerprintKind::Sha512] {
        n += k.fingerprint_with(f).to_string().len();
    }
    let mut v = vec![];
    let _ = k.write(&mut v);
    n += format!("{k:?}").len() + v.len() + k.key_type.as_cert_name().len() + k.key_type.as_pubkey_name().len();
    let _ = sshcerts::utils::format_signature_for_ssh(k, b"signature");
    n
}
fn use_cert(c: Certificate) {
    let _ = c.to_string();
    let _ = format!("{c:#}");
    let _ = format!("{c:?}");
    use_pub(&c.key);
    use_pub(&c.signature_key);
    let _ = c.tbs_certificate();
    let sig = c.signature.clone();
    let _ = c.clone().add_signature(&sig);
    let _ = c.add_signature(b"junk");
}
fn use_priv(k: PrivateKey) {
    use_pub(&k.pubkey);
    let _ = k.encode();
    let mut v = vec![];
    let _ = k.write(&mut v);
    let _ = k.to_string();
    let _ = k.sign(b"message");
    let _ = VerifiedSshSignature::new_with_private_key(b"message", "file", k, None).map(|s| s.to_string());
}

fn exercise(i: &Input) {
    match i {
        Input::CertBytes(b) => {
            if let Ok(c) = Certificate::from_bytes(b) {
                use_cert(c)
            }
        }
        Input::CertText(t) => {
            if let Ok(c) = Certificate::from_string(t) {
                use_cert(c)
            }
        }
        Input::PubBytes(b) => {
            if let Ok(k) = PublicKey::from_bytes(b) {
                use_pub(&k);
            }
        }
        Input::PubText(t) => {
            if let Ok(k) = PublicKey::from_string(t) {
                use_pub(&k);
            }
        }
        Input::PrivText(t) => {
            if let Ok(k) = PrivateKey::from_string(t) {
                use_priv(k)
            }
        }
        Input::PrivPass(t) => {
            if let Ok(k) = PrivateKey::from_string_with_passphrase(t, Some(PASS.into())) {
                use_priv(k)
            }
        }
        Input::PrivBytes(b) => {
            if let Ok(k) = PrivateKey::from_bytes(b) {
                use_priv(k)
            }
        }
        Input::Sig(t, m, n) => {
            if let Ok(x) = SshSignature::from_armored_string(t) {
                use_pub(&x.pubkey);
                let _ = x.to_string();
                if let Ok(v) = VerifiedSshSignature::from_ssh_signature(m, x, n, None) {
                    let _ = v.to_string();
                }
            }
        }
        Input::Signer(t) => {
            if let Ok(a) = AllowedSigner::from_string(t) {
                let _ = format!("{a} {a:?}");
                use_pub(&a.key);
            }
        }
        Input::Signers(t) => {
            if let Ok(a) = AllowedSigners::from_string(t) {
                for e in a.0.iter().take(50) {
                    let _ = format!("{e} {e:?}");
                }
            }
        }
        Input::X509(f, b) => {
            let r = match f {
                0 => sshcerts::x509::extract_ssh_pubkey_from_x509_certificate(b),
                1 => sshcerts::x509::extract_ssh_pubkey_from_x509_csr(b),
                _ => sshcerts::x509::der_encoding_to_ssh_public_key(b),
            };
            if let Ok(k) = r {
                use_pub(&k);
            }
        }
        Input::Chain(a, b, c) => {
            if let Ok(v) = sshcerts::yubikey::verification::verify_certificate_chain(a, b, Some(c)) {
                use_pub(&v.public_key);
                let _ = format!("{v:?}");
            }
        }
        Input::Att(a, b, c, d, e) => {
            if let Ok(v) = sshcerts::fido::verification::verify_auth_data(a, b, c, -7, d, Some(e)) {
                let _ = format!("{v:?}");
                let _ = v.auth_data.ssh_public_key("ssh:").map(|k| use_pub(&k));
            }
        }
        Input::Auth(b) => {
            if let Ok(v) = sshcerts::fido::AuthData::parse(b) {
                let _ = (v.user_presence(), v.user_verification(), format!("{v:?}"));
                let _ = v.ssh_public_key("ssh:").map(|k| use_pub(&k));
            }
        }
        Input::Der(b) => {
            let _ = sshcerts::utils::asn_der_to_r_s(b);
            let _ = sshcerts::utils::signature_convert_asn1_ecdsa_to_ssh(b);
        }
        Input::Read(b, ops) => {
            let mut r = Reader::new(b);
            for o in ops {
                match o % 10 {
                    0 => drop(r.read_bytes()),
                    1 => drop(r.read_string()),
                    2 => drop(r.read_positive_mpint()),
                    3 => drop(r.read_u32()),
                    4 => drop(r.read_u64()),
                    5 => drop(r.read_cstring()),
                    6 => drop(r.read_raw_bytes(*o as usize)),
                    7 => drop(r.read_raw_bytes(usize::MAX - *o as usize)),
                    8 => drop(r.set_offset((*o as usize).wrapping_mul(b.len() + 1) / 256)),
                    _ => drop(r.set_offset(usize::MAX - *o as usize)),
                }
                let _ = r.get_offset();
            }
        }
        Input::Names(t) => {
            if let Ok(k) = KeyType::from_name(t) {
                let _ = (k.as_cert_name(), k.as_pubkey_name(), k.to_string());
            }
            let _ = Curve::from_identifier(t);
            let _ = CertType::try_from(t.as_str()).map(|x| x.to_string());
        }
    }
}
use std::convert::TryFrom;

fn cpu() -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 / 1e9
}
fn judge(c: &mut Ctx, i: &Input) -> PResult {
    c.class(i.name());
    c.nontrivial(i);
    c.desc(|| format!("{i:?}"));
    let t0 = cpu();
    let (r, peak, _) = alloc::measure(|| guarded(|| exercise(i)));
    let dt = cpu() - t0;
    if let Err(m) = r {
        return fail("panic", format!("{}: {m}; input {}", i.name(), brief(i)));
    }
    let n = i.len();
    ensure!(peak <= 512 * n as i64 + (512 << 10), "memory", "{}: {peak} bytes of memory for {n} bytes of input; {}", i.name(), brief(i));
    ensure!(dt < 30.0, "time", "{}: {dt:.1} s for {n} bytes of input; {}", i.name(), brief(i));
    Ok(())
}
fn brief(i: &Input) -> String {
    let s = format!("{i:?}");
    s.chars().take(800).collect()
}

// ------------------------------------------------------------------ damage

pub fn havoc(s: &mut Src, b: &mut Vec<u8>) {
    match s.below(8) {
        0 | 1 | 2 => {
            mangle(s, b);
        }
        3 if b.len() >= 4 => {
            // A length bomb somewhere.
            let i = s.below(b.len() - 3);
            let left = (b.len() - i - 4) as u32;
            let v = *s.pick(&[0u32, 1, 0x7fff_ffff, 0x8000_0000, u32::MAX, u32::MAX - 3, left, left.wrapping_sub(1), left + 1, 0x0100_0000, 0xffff]);
            b[i..i + 4].copy_from_slice(&v.to_be_bytes());
        }
        4 if !b.is_empty() => {
            let i = s.below(b.len());
            let n = 1 + s.below((b.len() - i).min(40));
            let t = b[i..i + n].to_vec();
            let at = s.below(b.len() + 1);
            b.splice(at..at, t);
        }
        5 if !b.is_empty() => {
            let i = s.below(b.len());
            let n = 1 + s.below((b.len() - i).min(40));
            let v = *s.pick(&[0u8, 0xff, 0x80, 0x7f, 0x41]);
            b[i..i + n].fill(v);
        }
        6 if !b.is_empty() => {
            let i = s.below(b.len());
            let n = 1 + s.below((b.len() - i).min(40));
            b.drain(i..i + n);
        }
        _ => {
            // DER style lengths.
            let i = s.below(b.len() + 1);
            let v = s.pick(&[&[0x84u8, 0xff, 0xff, 0xff, 0xff][..], &[0x80], &[0x88, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff], &[0x81, 0x00], &[0x9b, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff], &[0xbf], &[0xff]]).to_vec();
            let e = (i + v.len()).min(b.len());
            b.splice(i..e, v);
        }
    }
}
fn havoc_text(s: &mut Src, t: &mut String) {
    let mut v: Vec<char> = t.chars().collect();
    match s.below(7) {
        0 | 1 => {
            const P: &[&str] = &["\"", "\\\"", " ", "\t", "=", ",", "#", "\n", "\r\n", "\0", "é", "😀", "\u{2028}", "-----BEGIN", "-----END SSH SIGNATURE-----", "valid-before=\"20", "Z", "20240230", "namespaces=\"", "cert-authority", "ssh-ed25519", "AAAA", "====", "\u{feff}", "\u{301}"];
            let i = s.below(v.len() + 1);
            let p: Vec<char> = s.pick(P).chars().collect();
            v.splice(i..i, p);
        }
        2 if !v.is_empty() => {
            let i = s.below(v.len());
            let n = 1 + s.below((v.len() - i).min(30));
            v.drain(i..i + n);
        }
        3 if !v.is_empty() => {
            let i = s.below(v.len());
            let n = 1 + s.below((v.len() - i).min(30));
            let p = v[i..i + n].to_vec();
            let at = s.below(v.len() + 1);
            v.splice(at..at, p);
        }
        4 if !v.is_empty() => {
            let i = s.below(v.len());
            v.truncate(i);
        }
        5 if !v.is_empty() => {
            let i = s.below(v.len());
            v[i] = char::from(s.byte());
        }
        _ => {
            let i = s.below(v.len() + 1);
            let p: Vec<char> = text(s).chars().collect();
            v.splice(i..i, p);
        }
    }
    *t = v.into_iter().collect();
}

fn signed_cert(s: &mut Src) -> Vec<u8> {
    let m = CertM::gen(s);
    let mut parts = m.tbs_parts();
    if s.chance(160) {
        let n = 1 + s.below(3);
        for _ in 0..n {
            let i = s.below(parts.len());
            havoc(s, &mut parts[i]);
        }
    }
    let tbs = parts.concat();
    let mut sig = m.ca.sign(&tbs, &SigOpts::gen(s));
    if s.chance(24) {
        havoc(s, &mut sig);
    }
    attach(&tbs, &sig)
}
fn sig_file(s: &mut Src) -> (Vec<u8>, Vec<u8>, String) {
    let k = key_signing(s);
    let n = s.len(40);
    let m = s.blob(n);
    let ns = text_nonempty(s);
    let h = *s.pick(&["sha256", "sha512"]);
    let o = SigOpts::gen(s);
    (sigs::make(&k, &ns, h, &m, &o).bytes(), m, ns)
}
fn cert_line(s: &mut Src, b: &[u8], m: Option<Alg>) -> String {
    let a = m.unwrap_or(*s.pick(&ALL_ALGS));
    format!("{} {} {}", a.cert(), b64(b), text(s).replace('\n', " "))
}

/// A valid artefact in its binary form with the way to wrap it up.
pub fn make(s: &mut Src, kind: usize, f: fn(&mut Src, &mut Vec<u8>), times: usize) -> Input {
    let go = |s: &mut Src, mut b: Vec<u8>| {
        for _ in 0..times {
            f(s, &mut b);
        }
        b
    };
    match kind {
        0 => {
            let b = signed_cert(s);
            Input::CertBytes(if s.bool() { go(s, b) } else { b })
        }
        1 => {
            let m = CertM::gen(s);
            let tbs = m.tbs();
            let sig = m.ca.sign(&tbs, &SigOpts::default());
            let b = attach(&tbs, &sig);
            let a = if s.chance(230) { Some(m.subj.alg) } else { None };
            let b = go(s, b);
            Input::CertText(cert_line(s, &b, a))
        }
        2 => {
            let b = key_any(s).blob();
            Input::PubBytes(go(s, b))
        }
        3 => {
            let k = key_any(s);
            let b = go(s, k.blob());
            Input::PubText(format!("{} {} {}", k.alg.plain(), b64(&b), text(s)))
        }
        4 => {
            if times > 0 && s.chance(50) {
                return Input::PrivText(priv_armor(&privs::odd_rsa_file(s)));
            }
            let b = privs::any_file(s);
            Input::PrivText(priv_armor(&go(s, b)))
        }
        5 => Input::PrivPass(priv_armor(&privs::encrypted_file(s, PASS, havoc))),
        6 => {
            let b = privs::any_file(s);
            Input::PrivBytes(go(s, b))
        }
        7 => {
            let (b, m, n) = sig_file(s);
            Input::Sig(sigs::sig_armor(&go(s, b)), m, n)
        }
        8 => Input::Signer(signers::any_line(s)),
        9 => {
            let n = s.below(4);
            Input::Signers((0..n).map(|_| signers::any_line(s) + "\n").collect())
        }
        10 => {
            let form = s.below(3);
            let b = x509::any_x509(s, form);
            Input::X509(form, go(s, b))
        }
        11 => {
            if s.bool() {
                let (a, b, c) = x509::odd_chain(s, havoc);
                return Input::Chain(a, b, c);
            }
            let (a, b, c) = x509::any_chain(s);
            match s.below(3) {
                0 => Input::Chain(go(s, a), b, c),
                1 => Input::Chain(a, go(s, b), c),
                _ => {
                    let der = crate::wire::unb64(&c.lines().filter(|l| !l.starts_with('-')).collect::<String>()).unwrap_or_default();
                    Input::Chain(a, b, crate::der::pem("CERTIFICATE", &go(s, der)))
                }
            }
        }
        12 => {
            let p = fido::odd_attestation(s, havoc);
            match s.below(4) {
                0 => Input::Att(go(s, p.data), p.sig, p.challenge, p.cert, p.root),
                1 => Input::Att(p.data, go(s, p.sig), p.challenge, p.cert, p.root),
                2 => Input::Att(p.data, p.sig, p.challenge, go(s, p.cert), p.root),
                _ => Input::Att(p.data, p.sig, p.challenge, p.cert, p.root),
            }
        }
        13 => {
            let b = fido::any_auth(s);
            Input::Auth(go(s, b))
        }
        14 => {
            let k = key_of(s, Alg::P256);
            let m = s.bytes(4);
            let o = SigOpts::gen(s);
            let b = crate::der::ecdsa_der(&k, &m, &o);
            let mut b = go(s, b);
            if b.len() > 2 && b.len() < 130 && s.bool() {
                // An outer length that fits what is left.
                b[1] = (b.len() - 2) as u8;
            }
            Input::Der(b)
        }
        15 => {
            let b = if s.bool() {
                key_any(s).blob()
            } else {
                let n = s.len(60);
                s.bytes(n)
            };
            let b = go(s, b);
            let n = 1 + s.len(12);
            Input::Read(b, s.bytes(n))
        }
        _ => Input::Names(if s.bool() {
            let a = *s.pick(&ALL_ALGS);
            s.pick(&[a.plain(), a.cert(), "nistp256", "user", "host", "rsa-sha2-256"]).to_string()
        } else {
            text(s)
        }),
    }
}
fn random_input(s: &mut Src, kind: usize) -> Input {
    let n = s.len(600);
    let b = s.blob(n);
    let t = text(s);
    match kind {
        0 => Input::CertBytes(b),
        1 => Input::CertText(t),
        2 => Input::PubBytes(b),
        3 => Input::PubText(t),
        4 => Input::PrivText(priv_armor(&[b"openssh-key-v1\0", &b[..]].concat())),
        5 | 6 => Input::PrivBytes(b),
        7 => Input::Sig(sigs::sig_armor(&[b"SSHSIG\0\0\0\x01", &b[..]].concat()), vec![], "file".into()),
        8 => Input::Signer(t),
        9 => Input::Signers(t),
        10 => Input::X509(s.below(3), b),
        11 => Input::Chain(b.clone(), b, t),
        12 => Input::Att(b.clone(), b.clone(), b.clone(), b, t),
        13 => Input::Auth(b),
        14 => Input::Der(b),
        15 => Input::Read(b, s.bytes(6)),
        _ => Input::Names(t),
    }
}
fn edit_text(s: &mut Src, i: Input) -> Input {
    let ed = |s: &mut Src, mut t: String| {
        let n = 1 + s.below(4);
        for _ in 0..n {
            havoc_text(s, &mut t);
        }
        t
    };
    match i {
        Input::CertText(t) => Input::CertText(ed(s, t)),
        Input::PubText(t) => Input::PubText(ed(s, t)),
        Input::PrivText(t) => Input::PrivText(ed(s, t)),
        Input::Sig(t, m, n) => Input::Sig(ed(s, t), m, n),
        Input::Signer(t) => Input::Signer(ed(s, t)),
        Input::Signers(t) => Input::Signers(ed(s, t)),
        Input::Names(t) => Input::Names(ed(s, t)),
        Input::Chain(a, b, c) => Input::Chain(a, b, ed(s, c)),
        Input::Att(a, b, c, d, e) => Input::Att(a, b, c, d, ed(s, e)),
        i => i,
    }
}
fn c27_mutated(s: &mut Src, c: &mut Ctx) -> PResult {
    let kind = s.below(KINDS);
    let i = if s.chance(14) {
        random_input(s, kind)
    } else {
        let n = s.below(7);
        let i = make(s, kind, havoc, n);
        if s.chance(110) {
            edit_text(s, i)
        } else {
            i
        }
    };
    judge(c, &i)
}

/// Every place that may hold a length gets a boundary value.
fn bomb(s: &mut Src, b: &mut Vec<u8>) {
    if b.len() < 4 {
        return;
    }
    // Places where a plausible 32-bit length stands.
    let c: Vec<usize> = (0..b.len() - 3).filter(|i| b[*i] == 0 && b[*i + 1] == 0 && (u32::from_be_bytes([0, 0, b[*i + 2], b[*i + 3]]) as usize) <= b.len() - i - 4).collect();
    let i = if c.is_empty() { s.below(b.len() - 3) } else { *s.pick(&c) };
    let old = u32::from_be_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]);
    let left = (b.len() - i - 4) as u32;
    let v = match s.below(12) {
        0 => 0,
        1 => old.wrapping_sub(1),
        2 => old.wrapping_add(1),
        3 => left,
        4 => left.wrapping_add(1),
        5 => left.wrapping_sub(1),
        6 => i32::MAX as u32,
        7 => i32::MIN as u32,
        8 => u32::MAX,
        9 => u32::MAX - s.below(16) as u32,
        10 => 1 << s.below(32),
        _ => s.u32(),
    };
    b[i..i + 4].copy_from_slice(&v.to_be_bytes());
}
fn c27_lengths(s: &mut Src, c: &mut Ctx) -> PResult {
    let kind = *s.pick(&[1usize, 2, 3, 4, 6, 7, 15, 0, 13]);
    let n = 1 + s.below(2);
    let i = make(s, kind, bomb, n);
    judge(c, &i)
}
fn cut(s: &mut Src, b: &mut Vec<u8>) {
    let n = s.below(b.len() + 1);
    b.truncate(n);
}
fn c27_truncated(s: &mut Src, c: &mut Ctx) -> PResult {
    let kind = s.below(KINDS);
    let i = make(s, kind, cut, 1);
    judge(c, &i)
}

fn c27_big(s: &mut Src, c: &mut Ctx) -> PResult {
    let top = if c.thorough { 1 << 20 } else { 1 << 18 };
    let size = 1000 + s.below(top);
    let unit = s.pick(&["a", "\"", " ", ",", "=", "#", "\\", "\t", "-", "\n", "é", "A", "20240101Z", "a,", "\"\"", "namespaces=\"a\" ", "cert-authority ", "\0"]).to_string();
    let rep = |n: usize| unit.repeat(n / unit.len() + 1);
    let k = key_of(s, Alg::Ed);
    let i = match s.below(14) {
        0 => Input::Signer(format!("{} {}", rep(size), k.line())),
        1 => Input::Signer(format!("p {} {}", rep(size), k.line())),
        2 => Input::Signer(format!("p namespaces=\"{}\" {}", rep(size), k.line())),
        3 => Input::Signer(format!("p {} {}", k.line(), rep(size))),
        4 => {
            let l = signers::any_line(s) + if s.bool() { "\n" } else { "\r\n" };
            Input::Signers(l.repeat(size / l.len() + 1))
        }
        5 => Input::Signers(rep(size)),
        6 => {
            let mut m = CertM::gen(s);
            match s.below(5) {
                0 => m.principals = (0..size / 8).map(|i| format!("p{i}")).collect(),
                1 => m.principals = vec![String::new(); size / 8],
                2 => m.ext = (0..size / 16).map(|i| (format!("e{i:07}"), String::new())).collect(),
                3 => m.crit = (0..size / 16).map(|i| (format!("e{i:07}"), i.to_string())).collect(),
                _ => m.key_id = rep(size),
            }
            let tbs = m.tbs();
            Input::CertBytes(attach(&tbs, &m.ca.sign(&tbs, &SigOpts::default())))
        }
        7 => Input::PubText(format!("{} {}", k.line(), rep(size))),
        8 => Input::PubText(rep(size)),
        9 => {
            let n = s.blob(size.min(1 << 17));
            Input::PubBytes(W::new().str("ssh-rsa").mpint(&n[..s.below(n.len())]).mpint(&n).0)
        }
        10 => Input::PrivText(format!("{PRIV_BEGIN}\n{}\n{PRIV_END}\n", rep(size))),
        11 => {
            let (b, m, n) = sig_file(s);
            let t = sigs::sig_armor(&b);
            Input::Sig(t.replacen('\n', &format!("\n{}", rep(size)), 1), m, n)
        }
        12 => {
            // Deep nesting.
            let open = *s.pick(&[&[0x30u8, 0x80][..], &[0x30, 0x82, 0xff, 0xff], &[0x30, 0x84, 0x7f, 0xff, 0xff, 0xff], &[0xa0, 0x83, 0x7f, 0xff, 0xff]]);
            let mut b = open.repeat(size / open.len());
            if s.bool() {
                // Properly nested.
                b = vec![5, 0];
                while b.len() < size.min(60000) {
                    b = crate::der::tlv(0x30, &b);
                }
            }
            match s.below(3) {
                0 => Input::X509(s.below(3), b),
                1 => Input::Chain(b.clone(), b, "-----BEGIN CERTIFICATE-----\nMAA=\n-----END CERTIFICATE-----\n".into()),
                _ => Input::Der(b),
            }
        }
        _ => {
            let mut b = fido::any_auth(s);
            b.truncate(55);
            b[53] = 0;
            b[54] = 0;
            b[32] |= 0x40;
            match s.below(3) {
                0 => b.extend(vec![0x81; size]),
                1 => b.extend([&[0xa1u8, 0x21, 0x5b][..], &[0x7f; 8], &vec![0; size]].concat()),
                _ => b.extend([&[0xb9u8, 1, 0][..], &[0x07u8, 0xf7].repeat(256)].concat()),
            }
            Input::Auth(b)
        }
    };
    judge(c, &i)
}

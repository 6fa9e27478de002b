//! C01..C05: SSH certificates.

use super::common::*;
use crate::crypto::*;
use crate::engine::*;
use crate::gen::*;
use crate::sshk;
use crate::wire::{b64, pad_left, W};
use sshcerts::error::Error;
use sshcerts::ssh::{CertType, Certificate};
use std::collections::HashMap;

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C01",
            rule: "A correctly signed certificate (all subject and CA algorithms, arbitrary fields) is damaged in one chosen way (bit/byte damage in signed part or signature, truncation, extension, substituted CA key, transplanted or relabelled signature, other hash, r/s edge values, SK flag/counter/application changes, nested re-encodings); the library may accept the result only if an independent strict parser plus OpenSSL verification accepts it. Non-trivial: the damaged bytes differ from the original; distinct by those bytes.",
            facets: vec![
                facet("forge", 12000, 240000, c01_forge),
                facet("relabel", 3750, 90000, c01_relabel),
                facet("flip-every-region", 3000, 90000, c01_region),
            ],
        },
        Property {
            id: "C02",
            rule: "A certificate is encoded by an independent encoder and signed with OpenSSL; the library must parse it (bytes, text, file) into exactly the encoded fields, or, for generated malformations that are re-signed by the CA so that only structure is wrong, reject it. Non-trivial: every case; distinct by certificate bytes.",
            facets: vec![
                facet("faithful", 14000, 160000, c02_faithful),
                facet("malformed-signed", 12000, 120000, c02_malformed),
                facet("text-form", 6000, 60000, c02_text),
            ],
        },
        Property {
            id: "C03",
            rule: "A random sequence of builder calls is mirrored in a model; the certificate is signed (library key or external signer) and read back from bytes and text; every field must equal the model and the result must verify independently. Non-trivial: at least one builder call besides signing; distinct by call sequence.",
            facets: vec![facet("issue-roundtrip", 18000, 180000, c03_issue), facet("reparse-equal", 4500, 60000, c03_equal)],
        },
        Property {
            id: "C04",
            rule: "The to-be-signed bytes of a generated certificate are compared with an independent PROTOCOL.certkeys encoder (options in lexical order), certificates that were read must encode to what was signed and be completed and issued again unchanged, and issued certificates are read by ssh-keygen -L. Non-trivial: every case; distinct by to-be-signed bytes.",
            facets: vec![facet("tbs-canonical", 100000, 2500000, c04_tbs), facet("reread", 8000, 150000, c04_reread), facet("ssh-keygen-reads", 1600, 15000, c04_keygen)],
        },
        Property {
            id: "C05",
            rule: "A certificate is completed with a signature chosen adversarially (valid, damaged, other key, other bytes, other algorithm, empty, failing signer); success must coincide with independent verification, the result must re-parse, and builders must draw fresh nonces. Non-trivial: every case; distinct by offered signature bytes.",
            facets: vec![facet("adversarial-signer", 15000, 240000, c05_signer), facet("history", 8000, 150000, c05_history), facet_serial("fresh-nonce", 1000, 10000, c05_nonce)],
        },
    ]
}

fn check_iff_sound(bytes: &[u8], what: &str) -> PResult {
    let r = Certificate::from_bytes(bytes);
    if let Ok(c) = r {
        match ref_cert(bytes) {
            None => {
                return fail("accepted-forgery", format!("accepted a certificate whose CA signature does not verify or that is malformed ({what}): {}", hex(bytes)));
            }
            Some(rc) => same_cert(&c, &rc, bytes)?,
        }
    }
    Ok(())
}

/// Split an SSH signature blob into (label, body, tail).
fn split_sig(sig: &[u8]) -> (String, Vec<u8>, Vec<u8>) {
    let mut r = crate::wire::R::new(sig);
    let l = r.str().unwrap().to_string();
    let b = r.bytes().unwrap().to_vec();
    (l, b, sig[r.p..].to_vec())
}

fn c01_forge(s: &mut Src, cx: &mut Ctx) -> PResult {
    let m = CertM::gen(s);
    let o = SigOpts::gen(s);
    let tbs = m.tbs();
    let sig = m.ca.sign(&tbs, &o);
    let orig = attach(&tbs, &sig);
    let (bytes, what): (Vec<u8>, &'static str) = match s.below(16) {
        0 => {
            let mut t = tbs.clone();
            mangle(s, &mut t);
            (attach(&t, &sig), "damaged signed part")
        }
        1 => {
            let mut g = sig.clone();
            mangle(s, &mut g);
            (attach(&tbs, &g), "damaged signature")
        }
        2 => {
            let mut b = orig.clone();
            for _ in 0..1 + s.below(3) {
                mangle(s, &mut b);
            }
            (b, "damaged bytes")
        }
        3 => {
            // Another CA key of the same algorithm embedded, the original signature kept.
            let mut m2 = m.clone();
            m2.ca = key_of(s, m.ca.alg);
            (attach(&m2.tbs(), &sig), "CA key substituted")
        }
        4 => {
            // Signed by another key than the embedded one.
            let other = key_of(s, m.ca.alg);
            (attach(&tbs, &other.sign(&tbs, &o)), "signed by another key")
        }
        5 => {
            // Signed by a key of another algorithm.
            let other = key_signing(s);
            (attach(&tbs, &other.sign(&tbs, &o)), "signed by another algorithm")
        }
        6 => {
            // One field changed after signing.
            let mut m2 = m.clone();
            match s.below(10) {
                0 => m2.serial = m2.serial.wrapping_add(1),
                1 => m2.typ = 3 - m2.typ,
                2 => m2.key_id.push('x'),
                3 => m2.principals.push("root".into()),
                4 => {
                    m2.principals.pop();
                }
                5 => m2.after = m2.after.wrapping_sub(1),
                6 => m2.before = u64::MAX - m2.before,
                7 => m2.crit.clear(),
                8 => m2.ext.push(("permit-pty".into(), String::new())),
                _ => m2.nonce.push(0),
            }
            (attach(&m2.tbs(), &sig), "field changed after signing")
        }
        7 => {
            // The signature covers only a part of the signed bytes.
            let cut = s.below(tbs.len());
            let part = if s.bool() { &tbs[..cut] } else { &tbs[tbs.len() - cut..] };
            (attach(&tbs, &m.ca.sign(part, &o)), "signature covers a part")
        }
        8 => {
            // The signature covers more than the signed bytes.
            let mut t = tbs.clone();
            let n = 1 + s.below(8);
            t.extend(s.bytes(n));
            (attach(&tbs, &m.ca.sign(&t, &o)), "signature covers more")
        }
        9 => {
            // Signature over the right bytes of a certificate for another subject key.
            let mut m2 = m.clone();
            m2.subj = key_of(s, m.subj.alg);
            (attach(&tbs, &m2.ca.sign(&m2.tbs(), &o)), "signature of a certificate for another key")
        }
        10 => {
            // Degenerate signature values.
            let (l, b, t) = split_sig(&sig);
            let body = match m.ca.alg {
                Alg::P256 | Alg::P384 | Alg::SkP256 => {
                    let n = ec_order(m.ca.alg);
                    let mut r = crate::wire::R::new(&b);
                    let rr = r.mpint().unwrap().to_vec();
                    let ss = r.mpint().unwrap().to_vec();
                    let vals: Vec<Vec<u8>> = vec![vec![], vec![1], n.clone(), rr.clone(), ss.clone(), vec![0xff; m.ca.alg.field_len()], vec![0x7f; m.ca.alg.field_len() + 1]];
                    let a = s.pick(&vals).clone();
                    let c = s.pick(&vals).clone();
                    W::new().mpint(&a).mpint(&c).0
                }
                _ => match s.below(4) {
                    0 => vec![0; b.len()],
                    1 => vec![],
                    2 => vec![0xff; b.len()],
                    _ => {
                        let mut x = b.clone();
                        x.reverse();
                        x
                    }
                },
            };
            (attach(&tbs, &W::new().str(&l).bytes(&body).raw(&t).0), "degenerate signature")
        }
        11 => {
            // Alternative encodings of a valid signature.
            let (l, b, t) = split_sig(&sig);
            let body = match m.ca.alg {
                Alg::P256 | Alg::P384 | Alg::SkP256 => {
                    let mut r = crate::wire::R::new(&b);
                    let rr = r.mpint().unwrap().to_vec();
                    let ss = r.mpint().unwrap().to_vec();
                    let fl = m.ca.alg.field_len();
                    match s.below(5) {
                        0 => W::new().bytes(&pad_left(&rr, fl)).bytes(&pad_left(&ss, fl)).0,
                        1 => W::new().bytes(&pad_left(&rr, fl + 1)).bytes(&pad_left(&ss, fl + 1)).0,
                        2 => W::new().mpint(&ss).mpint(&rr).0,
                        3 => W::new().raw(&b).raw(&[0]).0,
                        _ => [pad_left(&rr, fl), pad_left(&ss, fl)].concat(),
                    }
                }
                _ => match s.below(3) {
                    0 => [&[0u8][..], &b].concat(),
                    1 => [&b[..], &[0]].concat(),
                    _ => b[..b.len() - 1].to_vec(),
                },
            };
            (attach(&tbs, &W::new().str(&l).bytes(&body).raw(&t).0), "re-encoded signature")
        }
        12 => (attach(&tbs, &[]), "empty signature"),
        13 => {
            let n = s.below(100);
            let body = s.blob(n);
            (attach(&tbs, &W::new().str(m.ca.alg.plain()).bytes(&body).0), "random signature")
        }
        14 => {
            // No signature field at all, or cut inside it.
            let n = tbs.len() + s.below(orig.len() - tbs.len());
            (orig[..n].to_vec(), "cut in signature")
        }
        _ => {
            // Trailing data inside the signature field or after it.
            let n = 1 + s.below(5);
            let extra = s.bytes(n);
            if s.bool() {
                (attach(&tbs, &[&sig[..], &extra].concat()), "trailing data in signature")
            } else {
                ([&orig[..], &extra].concat(), "trailing data after signature")
            }
        }
    };
    cx.class(what);
    if bytes != orig {
        cx.nontrivial(&bytes);
    }
    cx.desc(|| format!("{what}; {}", m.summary()));
    check_iff_sound(&bytes, what)
}

/// The signature algorithm named in the signature must fit the CA key.
fn c01_relabel(s: &mut Src, cx: &mut Ctx) -> PResult {
    let m = CertM::gen(s);
    let o = SigOpts::gen(s);
    let tbs = m.tbs();
    let (l, b, t) = split_sig(&m.ca.sign(&tbs, &o));
    const LABELS: &[&str] = &[
        "ssh-rsa",
        "rsa-sha2-256",
        "rsa-sha2-512",
        "ssh-ed25519",
        "sk-ssh-ed25519@openssh.com",
        "ecdsa-sha2-nistp256",
        "ecdsa-sha2-nistp384",
        "ecdsa-sha2-nistp521",
        "sk-ecdsa-sha2-nistp256@openssh.com",
        "ssh-ed25519-cert-v01@openssh.com",
        "sk-ssh-ed25519-cert-v01@openssh.com",
        "sk-ecdsa-sha2-nistp256-cert-v01@openssh.com",
        "ecdsa-sha2-nistp256-cert-v01@openssh.com",
        "ssh-rsa-cert-v01@openssh.com",
        "none",
        "",
        "ssh-dss",
    ];
    let label = *s.pick(LABELS);
    // Sometimes also with / without the security-key trailer.
    let tail = match s.below(4) {
        0 => W::new().u8(o.flags).u32(o.counter).0,
        1 => vec![],
        _ => t.clone(),
    };
    // For software keys also try a signature computed the security-key way, and the other way around.
    let body = match s.below(3) {
        0 if !m.ca.alg.is_sk() => split_sig(&m.ca.sign(&sk_message("ssh:", o.flags, o.counter, &tbs), &o)).1,
        1 if m.ca.alg.is_sk() => {
            let mut soft = m.ca.clone();
            soft.alg = if m.ca.alg == Alg::SkEd { Alg::Ed } else { Alg::P256 };
            split_sig(&soft.sign(&tbs, &o)).1
        }
        _ => b,
    };
    let bytes = attach(&tbs, &W::new().str(label).bytes(&body).raw(&tail).0);
    if label != l || tail != t {
        cx.nontrivial(&bytes);
    }
    cx.class(label);
    cx.desc(|| format!("signature of {} labelled {label:?}, {} trailer bytes", m.ca.alg.plain(), tail.len()));
    check_iff_sound(&bytes, "relabelled signature")
}

/// Flip one bit at a position spread evenly over the certificate.
fn c01_region(s: &mut Src, cx: &mut Ctx) -> PResult {
    let m = CertM::gen(s);
    let o = SigOpts::gen(s);
    let tbs = m.tbs();
    let orig = attach(&tbs, &m.ca.sign(&tbs, &o));
    let mut n_rej = 0;
    let step = 1 + orig.len() / 24;
    let mut i = s.below(step);
    while i < orig.len() {
        let mut b = orig.clone();
        b[i] ^= 1 << s.below(8);
        if Certificate::from_bytes(&b).is_ok() {
            ensure!(ref_cert(&b).is_some(), "accepted-forgery", "bit flip at byte {i} of {} accepted: {}", b.len(), hex(&b));
        } else {
            n_rej += 1;
        }
        i += step;
    }
    if n_rej > 0 {
        cx.nontrivial(&orig);
    }
    cx.desc(|| format!("{n_rej} single-bit variants rejected of {}", m.summary()));
    Ok(())
}

fn c02_faithful(s: &mut Src, cx: &mut Ctx) -> PResult {
    let m = CertM::gen(s);
    let o = SigOpts::gen(s);
    let mut m = m;
    // Option order on the wire is not significant when reading.
    if s.chance(60) {
        m.crit.reverse();
        m.ext.reverse();
    }
    let mut parts = m.tbs_parts();
    // An empty value may be written as an empty string, or as nothing.
    if s.chance(60) {
        for (i, o) in [(9, &m.crit), (10, &m.ext)] {
            let w = o.iter().fold(W::new(), |w, (k, v)| w.str(k).bytes(&W::new().str(v).0));
            parts[i] = W::new().bytes(&w.0).0;
        }
    }
    let tbs = parts.concat();
    let sig = m.ca.sign(&tbs, &o);
    let bytes = attach(&tbs, &sig);
    cx.nontrivial(&bytes);
    cx.class(m.subj.alg.plain());
    cx.desc(|| m.summary());
    let rc = ref_cert(&bytes).expect("reference rejects its own certificate");
    match Certificate::from_bytes(&bytes) {
        Ok(c) => same_cert(&c, &rc, &bytes),
        Err(e) => fail("rejected-valid", format!("valid certificate rejected ({e}): {}: {}", m.summary(), hex(&bytes))),
    }
}

/// Malformed structure, but signed by the CA over exactly these bytes.
fn c02_malformed(s: &mut Src, cx: &mut Ctx) -> PResult {
    let m = CertM::gen(s);
    let o = SigOpts::gen(s);
    let mut parts = m.tbs_parts();
    let what: &'static str = match s.below(17) {
        0 => {
            let t = *s.pick(&[0u32, 3, 4, 0x100, u32::MAX, 0x01000000, 0x00010001]);
            parts[4] = W::new().u32(t).0;
            "certificate type"
        }
        1 => {
            let n = *s.pick(&[m.subj.alg.plain(), "ssh-dss-cert-v01@openssh.com", "ssh-ed25519-cert-v00@openssh.com", "", "rsa-sha2-512", "x"]);
            parts[0] = W::new().str(n).0;
            "type name"
        }
        2 => {
            let other = *s.pick(&ALL_ALGS);
            parts[0] = W::new().str(other.cert()).0;
            "type name of another algorithm"
        }
        3 => {
            let bad = *s.pick(&[&[0xffu8, 0xfe][..], &[0xc3], &[0x80], &[0xed, 0xa0, 0x80]]);
            parts[5] = W::new().bytes(bad).0;
            "key id not UTF-8"
        }
        4 => {
            let mut b = enc_strings(&m.principals);
            b.extend_from_slice(*s.pick(&[&[0u8][..], &[0, 0, 0], &[0, 0, 0, 9, b'x'], &[0xff, 0xff, 0xff, 0xff], &[0, 0, 0, 1, 0xff]]));
            parts[6] = W::new().bytes(&b).0;
            "principals malformed"
        }
        5 | 6 => {
            let which = 9 + s.below(2);
            let base = if which == 9 { &m.crit } else { &m.ext };
            let mut b = enc_options(base);
            b.extend_from_slice(*s.pick(&[&[0u8, 0, 0][..], &[0, 0, 0, 1, b'q'], &[0, 0, 0, 1, b'q', 0, 0, 0], &[0, 0, 0, 1, b'q', 0, 0, 0, 9]]));
            parts[which] = W::new().bytes(&b).0;
            "options truncated"
        }
        7 => {
            let which = 9 + s.below(2);
            let mut l = if which == 9 { m.crit.clone() } else { m.ext.clone() };
            if l.is_empty() {
                l.push(("force-command".into(), s.pick(&["/bin/false", ""]).to_string()));
            }
            // Any of them, with the same or another value, anywhere.
            let (k, v) = l[s.below(l.len())].clone();
            let v = match s.below(4) {
                0 => v,
                1 => String::new(),
                _ => "/bin/sh".into(),
            };
            l.insert(s.below(l.len() + 1), (k, v));
            parts[which] = W::new().bytes(&enc_options(&l)).0;
            "duplicate option"
        }
        8 => {
            let which = 9 + s.below(2);
            let v = W::new().str("/bin/true").raw(*s.pick(&[&[0u8][..], &[0, 0, 0, 1, b'x'], b"hidden"])).0;
            let b = W::new().str("force-command").bytes(&v).0;
            parts[which] = W::new().bytes(&b).0;
            "trailing data in option value"
        }
        9 => {
            let which = 9 + s.below(2);
            let v: &[u8] = *s.pick(&[&[0u8][..], &[0, 0, 0], &[0, 0, 0, 5, b'x'], &[0, 0, 0, 1, 0xff]]);
            let b = W::new().str("force-command").bytes(v).0;
            parts[which] = W::new().bytes(&b).0;
            "option value not a string"
        }
        10 => {
            let mut k = m.ca.blob();
            mangle(s, &mut k);
            parts[12] = W::new().bytes(&k).0;
            "CA key damaged"
        }
        11 => {
            // A certificate type where the CA's plain key belongs.
            parts[12] = W::new().bytes(&W::new().str(m.ca.alg.cert()).raw(&m.ca.pub_data()).0).0;
            "CA key typed as certificate"
        }
        12 => {
            let i = s.below(parts.len());
            parts.remove(i);
            "field missing"
        }
        13 => {
            let i = s.below(parts.len());
            let p = parts[i].clone();
            parts.insert(i, p);
            "field twice"
        }
        14 => {
            let i = s.below(parts.len() - 1);
            parts.swap(i, i + 1);
            "fields swapped"
        }
        15 => {
            if m.subj.alg == Alg::Rsa {
                let f = m.subj.fix();
                parts[2] = match s.below(3) {
                    0 => W::new().bytes(&f.e).bytes(&f.n).0,
                    1 => W::new().bytes(&[&[0u8, 0][..], &f.e].concat()).mpint(&f.n).0,
                    _ => W::new().bytes(&[0]).mpint(&f.n).0,
                };
                "RSA subject key not canonical"
            } else if let Some(c) = m.subj.alg.curve() {
                let wrong = *s.pick(&["nistp256", "nistp384", "nistp521", "nistp224", ""]);
                let mut w = W::new().str(if wrong == c { "nistk163" } else { wrong }).bytes(&m.subj.public);
                if m.subj.alg.is_sk() {
                    w = w.str(&m.subj.app);
                }
                parts[2] = w.0;
                "subject curve does not fit the type"
            } else {
                parts[2] = vec![0, 0, 1, 0];
                "subject key truncated"
            }
        }
        _ => {
            let mut t = parts.concat();
            mangle(s, &mut t);
            parts = vec![t];
            "random damage"
        }
    };
    let tbs = parts.concat();
    let sig = m.ca.sign(&tbs, &o);
    let bytes = attach(&tbs, &sig);
    cx.nontrivial(&bytes);
    cx.class(what);
    let r = ref_cert(&bytes);
    cx.desc(|| format!("{what} ({}); {}", if r.is_some() { "still well-formed" } else { "malformed" }, m.summary()));
    match (Certificate::from_bytes(&bytes), r) {
        (Ok(c), Some(rc)) => same_cert(&c, &rc, &bytes),
        (Ok(_), None) => fail("accepted-malformed", format!("malformed certificate accepted ({what}): {}", hex(&bytes))),
        (Err(e), Some(_)) => fail("rejected-valid", format!("well-formed certificate rejected ({what}): {e}: {}", hex(&bytes))),
        (Err(_), None) => Ok(()),
    }
}

fn c02_text(s: &mut Src, cx: &mut Ctx) -> PResult {
    let m = CertM::gen(s);
    let tbs = m.tbs();
    let bytes = attach(&tbs, &m.ca.sign(&tbs, &SigOpts::gen(s)));
    let plain = |t: &String| !t.is_empty() && t.chars().all(|c| c.is_ascii_graphic());
    let echo: Vec<String> = std::iter::once(&m.key_id).chain(&m.principals).filter(|t| plain(t)).cloned().collect();
    let comment = match s.below(8) {
        0..=2 => None,
        3 if !echo.is_empty() => Some(s.pick(&echo).clone()),
        _ => Some(word(s)),
    };
    let sep = *s.pick(&[" ", "  ", "\t", " \t "]);
    let lead = *s.pick(&["", " ", "\n"]);
    let trail = *s.pick(&["", "\n", "\r\n", " ", "\nother text", "\r\nother text\n", " \n# x", "\n\nx y z"]);
    let outer = *s.pick(&ALL_ALGS);
    let (name, good) = match s.weighted(&[8, 3, 2, 1]) {
        0 => (m.subj.alg.cert(), true),
        1 => (outer.cert(), outer == m.subj.alg),
        2 => (outer.plain(), false),
        _ => ("bogus", false),
    };
    let mut b = b64(&bytes);
    let mut good = good;
    if s.chance(30) {
        // Damaged base64.
        match s.below(3) {
            0 => {
                // Padding is optional when reading; drop a data character.
                while b.ends_with('=') {
                    b.pop();
                }
                b.pop();
                good = false;
            }
            1 => {
                b.insert(s.below(b.len()), '!');
                good = false;
            }
            _ => {
                b.clear();
                good = false;
            }
        }
    }
    let mut line = format!("{lead}{name}{sep}{b}");
    if let Some(c) = &comment {
        line.push_str(sep);
        line.push_str(c);
    }
    line.push_str(trail);
    cx.nontrivial(&line);
    cx.class(if good { "good" } else { "bad" });
    cx.desc(|| line.clone());
    let via_path = s.chance(40);
    let got = if via_path {
        let sc = sshk::Scratch::new();
        let p = sc.file("id-cert.pub", line.as_bytes());
        Certificate::from_path(&p)
    } else {
        Certificate::from_string(&line)
    };
    match got {
        Ok(c) => {
            ensure!(good, "accepted-mismatch", "text form accepted although the type name or the base64 is wrong: {line:?}");
            same_cert(&c, &ref_cert(&bytes).unwrap(), &bytes)?;
            ensure!(c.comment == comment, "comment", "comment {:?} instead of {:?}", c.comment, comment);
            Ok(())
        }
        Err(e) => {
            ensure!(!good, "rejected-valid", "valid text form rejected ({e}): {line:?}");
            Ok(())
        }
    }
}

// ---------------------------------------------------------------- issuing

#[derive(Clone, Debug, Default)]
struct Model {
    serial: Option<u64>,
    key_id: String,
    principals: Vec<String>,
    after: u64,
    before: u64,
    crit: HashMap<String, String>,
    ext: HashMap<String, String>,
    comment: Option<String>,
    calls: Vec<String>,
}
fn build(s: &mut Src, mut c: Certificate, maxops: usize) -> (Certificate, Model) {
    let mut m = Model::default();
    for _ in 0..s.below(maxops + 1) {
        match s.below(12) {
            0 => {
                let v = u64_edgy(s);
                c = c.serial(v);
                m.serial = Some(v);
                m.calls.push(format!("serial({v})"));
            }
            1 => {
                let v = text(s);
                c = if s.bool() { c.key_id(&v) } else { c.key_id(v.clone()) };
                m.calls.push(format!("key_id({v:?})"));
                m.key_id = v;
            }
            2 | 3 => {
                let v = text(s);
                c = c.principal(&v);
                m.calls.push(format!("principal({v:?})"));
                m.principals.push(v);
            }
            4 => {
                let v = texts(s, 6);
                c = c.set_principals(&v);
                m.calls.push(format!("set_principals({v:?})"));
                m.principals = v;
            }
            5 => {
                let v = u64_edgy(s);
                c = c.valid_after(v);
                m.calls.push(format!("valid_after({v})"));
                m.after = v;
            }
            6 => {
                let v = u64_edgy(s);
                c = c.valid_before(v);
                m.calls.push(format!("valid_before({v})"));
                m.before = v;
            }
            7 => {
                let (k, v) = (opt_name(s), text(s));
                c = c.critical_option(&k, &v);
                m.calls.push(format!("critical_option({k:?},{v:?})"));
                m.crit.insert(k, v);
            }
            8 => {
                let (k, v) = (opt_name(s), if s.bool() { String::new() } else { text(s) });
                c = c.extension(&k, &v);
                m.calls.push(format!("extension({k:?},{v:?})"));
                m.ext.insert(k, v);
            }
            9 => {
                let h: HashMap<String, String> = options(s, 5).into_iter().collect();
                c = c.set_critical_options(h.clone());
                m.calls.push(format!("set_critical_options({h:?})"));
                m.crit = h;
            }
            10 => {
                let h: HashMap<String, String>;
                if s.bool() {
                    h = ["permit-X11-forwarding", "permit-agent-forwarding", "permit-port-forwarding", "permit-pty", "permit-user-rc"].iter().map(|x| (x.to_string(), String::new())).collect();
                    c = c.set_extensions(Certificate::standard_extensions());
                } else {
                    h = options(s, 5).into_iter().collect();
                    c = c.set_extensions(h.clone());
                }
                m.calls.push(format!("set_extensions({h:?})"));
                m.ext = h;
            }
            _ => {
                let v = word(s);
                c = c.comment(&v);
                m.calls.push(format!("comment({v:?})"));
                m.comment = Some(v);
            }
        }
    }
    (c, m)
}

struct Issued {
    cert: Certificate,
    model: Model,
    subj: Key,
    ca: Key,
    typ: u32,
}
fn issue(s: &mut Src) -> Result<Issued, Fail> {
    let subj = key_any(s);
    let typ = 1 + s.below(2) as u32;
    let ct = if typ == 1 { CertType::User } else { CertType::Host };
    let soft = s.bool();
    let ca = if soft { key_soft(s) } else { key_signing(s) };
    let subj = if s.chance(6) { ca.clone() } else { subj };
    let mut sp = lib_pub(&subj)?;
    if s.bool() {
        sp.comment = Some(word(s));
    }
    let cap = lib_pub(&ca)?;
    let b = Certificate::builder(&sp, ct, &cap).map_err(|e| Fail { kind: "builder".into(), msg: format!("builder failed for {}: {e}", subj.line()) })?;
    ensure!(b.nonce.len() == 32, "nonce", "builder nonce has {} bytes", b.nonce.len());
    let (c, model) = build(s, b, 9);
    let res = if soft {
        c.sign(&lib_priv(&ca)?)
    } else {
        let o = SigOpts::gen(s);
        let ca2 = ca.clone();
        c.sign(&FnSigner(move |b: &[u8]| Some(ca2.sign(b, &o))))
    };
    let cert = res.map_err(|e| Fail { kind: "sign".into(), msg: format!("signing with {} failed: {e} (calls {:?})", ca.line(), model.calls) })?;
    Ok(Issued { cert, model, subj, ca, typ })
}

fn check_issued(i: &Issued, parsed: &Certificate) -> PResult {
    let m = &i.model;
    let calls = || format!("after {:?}", m.calls);
    if let Some(v) = m.serial {
        ensure!(parsed.serial == v, "serial", "serial {} instead of {v} {}", parsed.serial, calls());
    }
    ensure!(parsed.key_id == m.key_id, "key-id", "key id {:?} instead of {:?} {}", parsed.key_id, m.key_id, calls());
    ensure!(parsed.principals == m.principals, "principals", "principals {:?} instead of {:?} {}", parsed.principals, m.principals, calls());
    ensure!(parsed.valid_after == m.after, "valid-after", "valid_after {} instead of {} {}", parsed.valid_after, m.after, calls());
    ensure!(parsed.valid_before == m.before, "valid-before", "valid_before {} instead of {} {}", parsed.valid_before, m.before, calls());
    ensure!(parsed.critical_options == m.crit, "critical-options", "critical options {:?} instead of {:?} {}", parsed.critical_options, m.crit, calls());
    ensure!(parsed.extensions == m.ext, "extensions", "extensions {:?} instead of {:?} {}", parsed.extensions, m.ext, calls());
    ensure!(parsed.cert_type as u32 == i.typ, "cert-type", "cert type {:?} instead of {}", parsed.cert_type, i.typ);
    if let Err(e) = same_pub(&parsed.key, &refpub(&i.subj)) {
        return fail("subject-key", e);
    }
    if let Err(e) = same_pub(&parsed.signature_key, &refpub(&i.ca)) {
        return fail("ca-key", e);
    }
    ensure!(parsed.key_type.name == i.subj.alg.cert(), "key-type", "key type {} for subject {}", parsed.key_type.name, i.subj.alg.plain());
    Ok(())
}

fn c03_issue(s: &mut Src, cx: &mut Ctx) -> PResult {
    let i = issue(s)?;
    if !i.model.calls.is_empty() {
        cx.nontrivial(&(i.model.calls.clone(), i.subj.line(), i.ca.line()));
    }
    cx.class(i.ca.alg.plain());
    cx.desc(|| format!("subject {}, CA {}, calls {:?}", i.subj.alg.plain(), i.ca.alg.plain(), i.model.calls));
    // The returned value itself.
    check_issued(&i, &i.cert)?;
    // The bytes, independently verified.
    let rc = match ref_cert(&i.cert.serialized) {
        Some(r) => r,
        None => return fail("issued-invalid", format!("issued certificate does not verify independently: {} (calls {:?})", hex(&i.cert.serialized), i.model.calls)),
    };
    ensure!(i.cert.serialized.starts_with(&i.cert.tbs_certificate()), "tbs", "serialized form does not start with the to-be-signed bytes");
    ensure!(rc.sig == i.cert.signature, "signature", "signature field is not the one in the bytes");
    // Read back from bytes.
    let p = match Certificate::from_bytes(&i.cert.serialized) {
        Ok(p) => p,
        Err(e) => return fail("reparse", format!("issued certificate does not parse: {e} (calls {:?})", i.model.calls)),
    };
    check_issued(&i, &p)?;
    same_cert(&p, &rc, &i.cert.serialized)?;
    ensure!(p.nonce == i.cert.nonce && p.serial == i.cert.serial, "nonce", "nonce or serial differ after reading back");
    // Read back from text.
    let t = i.cert.to_string();
    let q = match Certificate::from_string(&t) {
        Ok(q) => q,
        Err(e) => return fail("reparse-text", format!("text form does not parse: {e}: {t:?}")),
    };
    check_issued(&i, &q)?;
    ensure!(q.serialized == i.cert.serialized, "text-bytes", "text form carries other bytes");
    Ok(())
}

/// Reading an issued certificate gives back an equal value.
fn c03_equal(s: &mut Src, cx: &mut Ctx) -> PResult {
    let mut i = issue(s)?;
    let mut p = match Certificate::from_bytes(&i.cert.serialized) {
        Ok(p) => p,
        Err(e) => return fail("reparse", format!("issued certificate does not parse: {e}")),
    };
    cx.nontrivial(&i.cert.serialized);
    cx.desc(|| format!("calls {:?}", i.model.calls));
    // Comments are not part of the encoding.
    i.cert.comment = None;
    i.cert.key.comment = None;
    p.comment = None;
    // RSA public keys may be held under their signature-scheme names.
    ensure!(p == i.cert, "not-equal", "issued {:?} but read back {:?}", i.cert, p);
    // And the re-read certificate encodes to the same bytes again.
    ensure!(p.tbs_certificate() == i.cert.tbs_certificate(), "tbs-differs", "to-be-signed bytes differ after reading back: {} vs {}", hex(&p.tbs_certificate()), hex(&i.cert.tbs_certificate()));
    Ok(())
}

// ---------------------------------------------------------------- canonical bytes

fn c04_tbs(s: &mut Src, cx: &mut Ctx) -> PResult {
    let subj = key_any(s);
    let ca = key_any(s);
    let subj = if s.chance(6) { ca.clone() } else { subj };
    let typ = 1 + s.below(2) as u32;
    let b = Certificate::builder(&lib_pub(&subj)?, if typ == 1 { CertType::User } else { CertType::Host }, &lib_pub(&ca)?)
        .map_err(|e| Fail { kind: "builder".into(), msg: format!("builder failed: {e}") })?;
    let default_serial = b.serial;
    let (mut c, m) = build(s, b, 12);
    // Fields without a builder call.
    if s.chance(40) {
        let n = size(s, 64);
        c.nonce = s.blob(n);
    }
    if s.chance(40) {
        let n = size(s, 40);
        c.reserved = s.blob(n);
    }
    let (nonce, reserved) = (c.nonce.clone(), c.reserved.clone());
    let sorted = |h: &HashMap<String, String>| {
        let mut v: Vec<(String, String)> = h.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
        v.sort_by(|a, b| a.0.as_bytes().cmp(b.0.as_bytes()));
        v
    };
    let want = CertM {
        subj,
        nonce,
        serial: m.serial.unwrap_or(default_serial),
        typ,
        key_id: m.key_id.clone(),
        principals: m.principals.clone(),
        after: m.after,
        before: m.before,
        crit: sorted(&m.crit),
        ext: sorted(&m.ext),
        reserved,
        ca,
    };
    let got = c.tbs_certificate();
    cx.nontrivial(&want.tbs());
    cx.class(want.subj.alg.plain());
    cx.desc(|| want.summary());
    ensure!(got == want.tbs(), "tbs", "to-be-signed bytes {} instead of {} for {}", hex(&got), hex(&want.tbs()), want.summary());
    ensure!(c.clone().tbs_certificate() == got, "deterministic", "to-be-signed bytes are not a function of the certificate");
    Ok(())
}

/// A certificate that was read encodes to the bytes its CA signed, and can be completed again.
fn c04_reread(s: &mut Src, cx: &mut Ctx) -> PResult {
    let m = CertM::gen(s);
    let tbs = m.tbs();
    let sig = m.ca.sign(&tbs, &SigOpts::gen(s));
    let bytes = attach(&tbs, &sig);
    let c = match Certificate::from_bytes(&bytes) {
        Ok(c) => c,
        Err(e) => return fail("rejected-valid", format!("valid certificate rejected ({e}): {}", hex(&bytes))),
    };
    cx.nontrivial(&bytes);
    cx.class(m.ca.alg.plain());
    cx.desc(|| m.summary());
    let again = c.tbs_certificate();
    ensure!(again == tbs, "tbs", "a certificate that was read encodes to {} instead of {}", hex(&again), hex(&tbs));
    match c.clone().add_signature(&sig) {
        Ok(d) => ensure!(d == c, "completed", "completing a certificate again with its own signature changes it: {d:?} instead of {c:?}"),
        Err(e) => return fail("rejected-valid", format!("a certificate cannot be completed with its own signature ({e}): {}", hex(&bytes))),
    }
    // Issued again by another CA, all other fields stay.
    let ca = key_signing(s);
    let want = CertM { ca: ca.clone(), ..m };
    let mut d = c;
    d.signature_key = lib_pub(&ca)?;
    let o = SigOpts::gen(s);
    match d.sign(&FnSigner(move |b: &[u8]| Some(ca.sign(b, &o)))) {
        Ok(d) => ensure!(d.serialized.starts_with(&want.tbs()), "reissued", "issued again by another CA it encodes to {} instead of {}..", hex(&d.serialized), hex(&want.tbs())),
        Err(e) => return fail("reissued", format!("a certificate that was read cannot be issued again by another CA ({e}): {}", hex(&bytes))),
    }
    Ok(())
}

fn c04_keygen(s: &mut Src, cx: &mut Ctx) -> PResult {
    if !sshk::available() {
        cx.class("ssh-keygen unavailable");
        return Ok(());
    }
    // ssh-keygen refuses empty names, control characters in some places and P-521 CAs are not signable here.
    let mut subj = key_any(s);
    if subj.alg.is_sk() {
        subj.app = "ssh:".into();
    }
    let ca = key_soft(s);
    let user = s.bool();
    let mut c = Certificate::builder(&lib_pub(&subj)?, if user { CertType::User } else { CertType::Host }, &lib_pub(&ca)?)
        .map_err(|e| Fail { kind: "builder".into(), msg: format!("builder failed: {e}") })?;
    let serial = u64_edgy(s);
    let key_id = word(s);
    let np = s.below(5);
    let principals: Vec<String> = (0..np).map(|_| word(s)).collect();
    let (after, before) = match s.below(3) {
        0 => (0, u64::MAX),
        1 => (s.u32() as u64, u64::MAX),
        _ => {
            let a = s.u32() as u64;
            (a, a + 1 + s.u16() as u64)
        }
    };
    c = c.serial(serial).key_id(&key_id).set_principals(&principals).valid_after(after).valid_before(before);
    let mut crit = vec![];
    let mut ext = vec![];
    if user {
        for k in ["force-command", "source-address"] {
            if s.bool() {
                let v = if k == "source-address" { "10.0.0.0/8".to_string() } else { word(s) };
                c = c.critical_option(k, v.as_str());
                crit.push((k.to_string(), v));
            }
        }
        for k in ["permit-X11-forwarding", "permit-agent-forwarding", "permit-port-forwarding", "permit-pty", "permit-user-rc", "no-touch-required"] {
            if s.bool() {
                c = c.extension(k, "");
                ext.push(k.to_string());
            }
        }
    }
    let cert = c.sign(&lib_priv(&ca)?).map_err(|e| Fail { kind: "sign".into(), msg: format!("signing failed: {e}") })?;
    let sc = sshk::Scratch::new();
    let f = sc.file("k-cert.pub", format!("{cert}\n").as_bytes());
    let o = sshk::run(&["-L", "-f", &f], None, &[]);
    cx.nontrivial(&cert.serialized);
    cx.class(subj.alg.plain());
    cx.desc(|| o.stdout.clone());
    ensure!(o.ok, "keygen-rejects", "ssh-keygen -L rejects an issued certificate: {} {} {cert}", o.stdout, o.stderr);
    let has = |x: &str| o.stdout.lines().any(|l| l.trim() == x);
    ensure!(has(&format!("Serial: {serial}")), "keygen-serial", "ssh-keygen does not show serial {serial}: {}", o.stdout);
    ensure!(has(&format!("Key ID: \"{key_id}\"")), "keygen-id", "ssh-keygen does not show key id {key_id}: {}", o.stdout);
    ensure!(has(&format!("Type: {} {} certificate", subj.alg.cert(), if user { "user" } else { "host" })), "keygen-type", "ssh-keygen shows another type: {}", o.stdout);
    for p in &principals {
        ensure!(has(p), "keygen-principal", "ssh-keygen does not show principal {p}: {}", o.stdout);
    }
    for (k, v) in &crit {
        ensure!(has(&format!("{k} {v}")), "keygen-critical", "ssh-keygen does not show {k} {v}: {}", o.stdout);
    }
    for k in &ext {
        ensure!(has(k), "keygen-extension", "ssh-keygen does not show {k}: {}", o.stdout);
    }
    if (after, before) == (0, u64::MAX) {
        ensure!(has("Valid: forever"), "keygen-valid", "ssh-keygen does not show an unlimited validity: {}", o.stdout);
    }
    let fp = crate::wire::b64(&sha256(&subj.blob()));
    ensure!(o.stdout.contains(&format!("SHA256:{}", fp.trim_end_matches('='))), "keygen-fingerprint", "ssh-keygen shows another public key: {}", o.stdout);
    let fp = crate::wire::b64(&sha256(&ca.blob()));
    ensure!(o.stdout.contains(&format!("SHA256:{}", fp.trim_end_matches('='))), "keygen-ca", "ssh-keygen shows another CA: {}", o.stdout);
    Ok(())
}

// ---------------------------------------------------------------- issuance never lies

fn c05_signer(s: &mut Src, cx: &mut Ctx) -> PResult {
    let subj = key_any(s);
    let ca = key_signing(s);
    let subj = if s.chance(6) { ca.clone() } else { subj };
    let b = Certificate::builder(&lib_pub(&subj)?, CertType::User, &lib_pub(&ca)?).map_err(|e| Fail { kind: "builder".into(), msg: format!("builder failed: {e}") })?;
    let (c, m) = build(s, b, 5);
    let o = SigOpts::gen(s);
    let tbs = c.tbs_certificate();
    let (sig, what): (Option<Vec<u8>>, &'static str) = match s.below(12) {
        0 | 1 | 2 => (Some(ca.sign(&tbs, &o)), "valid"),
        3 => {
            let mut x = ca.sign(&tbs, &o);
            mangle(s, &mut x);
            (Some(x), "damaged")
        }
        4 => {
            let k = key_of(s, ca.alg);
            (Some(k.sign(&tbs, &o)), "another key")
        }
        5 => {
            let k = key_signing(s);
            (Some(k.sign(&tbs, &o)), "another algorithm")
        }
        6 => {
            let mut t = tbs.clone();
            mangle(s, &mut t);
            (Some(ca.sign(&t, &o)), "other bytes")
        }
        7 => (Some(vec![]), "empty"),
        8 => {
            let n = s.below(120);
            (Some(s.blob(n)), "random")
        }
        9 => (None, "signer fails"),
        10 => {
            // The raw signature without the SSH wrapping.
            (Some(split_sig(&ca.sign(&tbs, &o)).1), "unwrapped")
        }
        _ => {
            let x = ca.sign(&tbs, &o);
            (Some(W::new().bytes(&x).0), "wrapped twice")
        }
    };
    cx.nontrivial(&sig);
    cx.class(what);
    cx.desc(|| format!("{what} signature offered for CA {} after {:?}", ca.alg.plain(), m.calls));
    let valid = sig.as_ref().map(|x| verify(&refpub(&ca), x, &tbs, true)).unwrap_or(false);
    let res = match (&sig, s.bool()) {
        (Some(x), false) => c.clone().add_signature(x),
        _ => {
            let sg = sig.clone();
            c.clone().sign(&FnSigner(move |_: &[u8]| sg.clone()))
        }
    };
    match res {
        Ok(r) => {
            ensure!(valid, "accepted-invalid", "a {what} signature was accepted for CA {}: {}", ca.line(), hex(&sig.unwrap_or_default()));
            let sg = sig.unwrap();
            ensure!(r.signature == sg, "signature-field", "signature field differs from the signature given");
            ensure!(r.serialized == attach(&tbs, &sg), "serialized", "serialized form is not signed part plus signature");
            ensure!(Certificate::from_bytes(&r.serialized).is_ok(), "reparse", "completed certificate does not parse");
            ensure!(r.tbs_certificate() == tbs, "changed", "completing the certificate changed its fields");
            Ok(())
        }
        Err(e) => {
            ensure!(!valid, "rejected-valid", "a valid signature was rejected ({e}) for CA {}: {}", ca.line(), hex(&sig.unwrap_or_default()));
            if sig.is_none() {
                ensure!(matches!(e, Error::SigningError), "error", "failing signer reported as {e:?}");
            }
            Ok(())
        }
    }
}

/// A certificate is completed, changed through builder calls or its fields, and completed
/// again, with fresh, stale (valid for an earlier state) and damaged signatures mixed.
fn c05_history(s: &mut Src, cx: &mut Ctx) -> PResult {
    let subj = key_any(s);
    let ca = key_signing(s);
    let subj = if s.chance(6) { ca.clone() } else { subj };
    let kind = if s.bool() { CertType::User } else { CertType::Host };
    let (mut sp, mut cp) = (lib_pub(&subj)?, lib_pub(&ca)?);
    sp.comment = if s.bool() { Some(text(s)) } else { None };
    cp.comment = if s.bool() { Some(text(s)) } else { None };
    let mut c = Certificate::builder(&sp, kind, &cp).map_err(|e| Fail { kind: "builder".into(), msg: format!("builder failed: {e}") })?;
    let o = SigOpts::gen(s);
    let mut old: Vec<Vec<u8>> = vec![];
    let mut log: Vec<String> = vec![];
    let mut completed = 0;
    for _ in 0..s.range(2, 6) {
        if s.chance(170) {
            let (n, m) = build(s, c, 2);
            c = n;
            log.extend(m.calls);
        }
        if s.chance(40) {
            c.nonce = s.blob(32);
            log.push("nonce replaced".into());
        }
        let tbs = c.tbs_certificate();
        let (sig, what) = match s.below(5) {
            0 | 1 => (ca.sign(&tbs, &o), "fresh"),
            2 | 3 if !old.is_empty() => (s.pick(&old).clone(), "earlier"),
            4 if !old.is_empty() => {
                let mut x = old.last().unwrap().clone();
                mangle(s, &mut x);
                (x, "damaged earlier")
            }
            _ => {
                let mut x = ca.sign(&tbs, &o);
                mangle(s, &mut x);
                (x, "damaged")
            }
        };
        log.push(format!("complete with {what} signature"));
        let valid = verify(&refpub(&ca), &sig, &tbs, true);
        let before = c.clone();
        let res = if s.bool() {
            c.clone().add_signature(&sig)
        } else {
            let x = sig.clone();
            c.clone().sign(&FnSigner(move |_: &[u8]| Some(x.clone())))
        };
        match res {
            Ok(r) => {
                ensure!(valid, "accepted-invalid", "the {what} signature was accepted for other contents than it covers; CA {}, steps {log:?}", ca.line());
                ensure!(r.tbs_certificate() == tbs, "changed", "completing the certificate changed its fields; steps {log:?}");
                ensure!(r.signature == sig && r.serialized == attach(&tbs, &sig), "serialized", "completed certificate is not the signed part plus signature; steps {log:?}");
                let p = Certificate::from_bytes(&r.serialized).map_err(|e| Fail { kind: "reparse".into(), msg: format!("completed certificate does not parse ({e}); steps {log:?}") })?;
                ensure!(p.tbs_certificate() == tbs, "reparse", "completed certificate reads back differently; steps {log:?}");
                let want = Certificate { signature: r.signature.clone(), serialized: r.serialized.clone(), ..before };
                let same = r.key.comment == want.key.comment && r.signature_key.comment == want.signature_key.comment && r.comment == want.comment;
                ensure!(r == want && same, "changed", "completing the certificate changed its fields; steps {log:?}");
                completed += 1;
                c = r;
            }
            Err(e) => ensure!(!valid, "rejected-valid", "a {what} signature, valid for the contents, was rejected ({e}); CA {}, steps {log:?}", ca.line()),
        }
        if valid {
            old.push(sig);
        }
    }
    cx.class(if completed > 1 { "completed repeatedly" } else { "completed at most once" });
    if log.len() > 2 {
        cx.nontrivial(&(&log, ca.line()));
    }
    cx.desc(|| format!("CA {}: {log:?}", ca.alg.plain()));
    Ok(())
}

fn c05_nonce(s: &mut Src, cx: &mut Ctx) -> PResult {
    let subj = lib_pub(&key_any(s))?;
    let ca = lib_pub(&key_signing(s))?;
    let mut seen = std::collections::HashSet::new();
    let mut serials = std::collections::HashSet::new();
    let mut last = vec![];
    let (mut ones, mut zeros) = ([0u8; 32], [0u8; 32]);
    for _ in 0..100 {
        let c = Certificate::builder(&subj, CertType::User, &ca).map_err(|e| Fail { kind: "builder".into(), msg: format!("builder failed: {e}") })?;
        ensure!(c.nonce.len() == 32, "nonce-length", "nonce has {} bytes", c.nonce.len());
        // Each half must be fresh on its own: a constant or repeating part would show.
        ensure!(c.nonce[..16] != c.nonce[16..], "nonce-repeats", "nonce halves are equal");
        for (i, ch) in c.nonce.chunks(8).enumerate() {
            ensure!(seen.insert((i, ch.to_vec())), "nonce-reused", "two certificates share nonce bytes {}..{}", i * 8, i * 8 + 8);
        }
        ensure!(serials.insert(c.serial), "serial-reused", "two builders drew the same default serial {}", c.serial);
        for (i, b) in c.nonce.iter().enumerate() {
            ones[i] |= b;
            zeros[i] |= !b;
        }
        last = c.nonce;
    }
    // By chance: 512 cases in 2^100.
    ensure!(ones == [255; 32] && zeros == [255; 32], "nonce-constant", "100 nonces agree in some bits: never set {}, always set {}", hex(&ones.map(|x| !x)), hex(&zeros.map(|x| !x)));
    cx.nontrivial(&last);
    cx.desc(|| format!("100 builders, last nonce {}", hex(&last)));
    Ok(())
}

//! C23, C24: keys out of X.509 data, PIV attestation chains.

use super::common::*;
use crate::crypto::*;
use crate::der::*;
use crate::engine::*;
use crate::gen::*;
use sshcerts::x509::*;
use sshcerts::yubikey::verification::verify_certificate_chain;
use sshcerts::PublicKey;

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C23",
            rule: "Certificates, requests and DER public keys are built around generated keys by an independent DER encoder (and for part of the cases by OpenSSL's builder); a P-256 or P-384 key must come out exactly, anything else (RSA, Ed25519, P-521, other or missing curve parameters, other algorithms, truncations) must be an error. Damaged encodings may be accepted only with a key that lies in the input, and a key that is no uncompressed point only as it is. Non-trivial: every case; distinct by input bytes.",
            facets: vec![facet("extract", 30000, 600000, c23_extract), facet("openssl-built", 12000, 160000, c23_openssl), facet("refuse", 30000, 600000, c23_refuse), facet("damaged", 40000, 800000, c23_damaged), facet("odd-points", 12000, 160000, c23_points)],
        },
        Property {
            id: "C24",
            rule: "Chains root, intermediate, leaf are built under generated roots of every algorithm with generated extension values and order; the result must hold exactly the leaf's values. Each chain is also broken in one of 25 ways (alteration inside the signed part or the signature of either certificate, foreign signers, wrong, missing or unreadable root, missing or malformed extension, unsupported key), which must give an error; a recorded YubiKey chain is treated alike under the default root. Non-trivial: every case; distinct by leaf, intermediate and root.",
            facets: vec![facet("intact", 12000, 180000, c24_intact), facet("broken", 24000, 450000, c24_broken), facet("recorded", 18000, 200000, c24_recorded)],
        },
    ]
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Form {
    Cert,
    Csr,
    Der,
}
fn extract(f: Form, b: &[u8]) -> Result<Result<PublicKey, sshcerts::error::Error>, Fail> {
    let name = match f {
        Form::Cert => "extract_ssh_pubkey_from_x509_certificate",
        Form::Csr => "extract_ssh_pubkey_from_x509_csr",
        Form::Der => "der_encoding_to_ssh_public_key",
    };
    guarded(|| match f {
        Form::Cert => extract_ssh_pubkey_from_x509_certificate(b),
        Form::Csr => extract_ssh_pubkey_from_x509_csr(b),
        Form::Der => der_encoding_to_ssh_public_key(b),
    })
    .map_err(|m| Fail { kind: "panic".into(), msg: format!("{name} panicked: {m}; input {}", hex(b)) })
}
fn gen_form(s: &mut Src) -> Form {
    *s.pick(&[Form::Cert, Form::Csr, Form::Der])
}
fn ca_key(s: &mut Src) -> Key {
    let a = *s.pick(&[Alg::P256, Alg::P384, Alg::Ed, Alg::Rsa]);
    key_of(s, a)
}
fn wrap(s: &mut Src, f: Form, spki: &[u8]) -> Vec<u8> {
    if f == Form::Der {
        return spki.to_vec();
    }
    let signer = ca_key(s);
    let a = SigAlg::gen(s, &signer);
    let nonce = s.u64();
    if f == Form::Csr {
        return csr(s, spki, a, &signer, nonce).der;
    }
    CertB::gen(s, spki, vec![]).sign(a, &signer, nonce).der
}
fn judge_key(k: &PublicKey, key: &Key) -> PResult {
    if let Err(m) = same_pub(k, &refpub(key)) {
        return fail("wrong-key", m);
    }
    ensure!(k.encode().as_ref() as &[u8] == &key.blob()[..], "wrong-blob", "the extracted key encodes differently");
    ensure!(k.comment.is_none(), "comment", "the extracted key has the comment {:?}", k.comment);
    Ok(())
}

fn c23_extract(s: &mut Src, c: &mut Ctx) -> PResult {
    let f = gen_form(s);
    let a = *s.pick(&[Alg::P256, Alg::P384]);
    let key = key_of(s, a);
    let b = wrap(s, f, &spki(&key));
    c.class(match f {
        Form::Cert => "certificate",
        Form::Csr => "request",
        Form::Der => "der",
    });
    c.class(key.alg.plain());
    c.nontrivial(&b);
    c.desc(|| format!("{f:?} around a {} key, {} bytes", key.alg.plain(), b.len()));
    match extract(f, &b)? {
        Ok(k) => judge_key(&k, &key),
        Err(e) => fail("rejected", format!("{f:?} with a {} key rejected: {e}; {}", key.alg.plain(), hex(&b))),
    }
}

fn c23_openssl(s: &mut Src, c: &mut Ctx) -> PResult {
    use openssl::asn1::Asn1Time;
    use openssl::hash::MessageDigest;
    use openssl::x509::{X509NameBuilder, X509ReqBuilder, X509};
    let f = gen_form(s);
    let a = *s.pick(&[Alg::P256, Alg::P384, Alg::P521, Alg::Rsa, Alg::Ed]);
    let key = key_of(s, a);
    let pk = key.pkey();
    let md = if a == Alg::Ed { MessageDigest::null() } else { *s.pick(&[MessageDigest::sha256(), MessageDigest::sha384(), MessageDigest::sha512()]) };
    let mut nb = X509NameBuilder::new().unwrap();
    nb.append_entry_by_text("CN", &word(s)).unwrap();
    let nm = nb.build();
    let b = match f {
        Form::Der => pk.public_key_to_der().unwrap(),
        Form::Csr => {
            let mut r = X509ReqBuilder::new().unwrap();
            r.set_pubkey(&pk).unwrap();
            r.set_subject_name(&nm).unwrap();
            r.sign(&pk, md).unwrap();
            r.build().to_der().unwrap()
        }
        Form::Cert => {
            let mut x = X509::builder().unwrap();
            x.set_version(s.below(3) as i32).unwrap();
            x.set_pubkey(&pk).unwrap();
            x.set_subject_name(&nm).unwrap();
            x.set_issuer_name(&nm).unwrap();
            x.set_not_before(&Asn1Time::from_unix(s.u32() as i64).unwrap()).unwrap();
            x.set_not_after(&Asn1Time::from_unix(s.u32() as i64 * 2).unwrap()).unwrap();
            x.sign(&pk, md).unwrap();
            x.build().to_der().unwrap()
        }
    };
    c.class(key.alg.plain());
    c.nontrivial(&b);
    c.desc(|| format!("OpenSSL {f:?} of a {} key, {} bytes", key.alg.plain(), b.len()));
    match extract(f, &b)? {
        Ok(k) if matches!(a, Alg::P256 | Alg::P384) => judge_key(&k, &key),
        Ok(_) => fail("accepted", format!("{f:?} with an unsupported {} key accepted; {}", a.plain(), hex(&b))),
        Err(e) if matches!(a, Alg::P256 | Alg::P384) => fail("rejected", format!("{f:?} by OpenSSL with a {} key rejected: {e}; {}", a.plain(), hex(&b))),
        Err(_) => Ok(()),
    }
}

/// Subject public key infos that are no P-256 or P-384 key.
fn bad_spki(s: &mut Src) -> (&'static str, Vec<u8>) {
    let a = *s.pick(&[Alg::P256, Alg::P384]);
    let k = key_of(s, a);
    let params = oid(curve_oid(k.alg));
    const CURVES: &[&str] = &["1.3.132.0.35", "1.3.132.0.33", "1.3.132.0.10", "1.2.840.10045.3.1.1", "1.3.36.3.3.2.8.1.1.7", "1.3.132.0.3", "1.3.132.0.340", "1.2.840.10045.3.1.70", "1.2.840.10045.3.1", "1.3.132.0"];
    const ALGS: &[&str] = &["1.3.132.1.12", "1.2.840.10045.2.10", "1.2.840.10045.2", "1.2.840.10040.4.1", "1.2.840.113549.1.1.10", "1.3.101.110", "1.3.101.112", "1.2.840.10045.4.3.2"];
    match s.below(8) {
        0 => {
            let i = s.below(rsa_fix().len());
            ("rsa", spki(&Key::rsa(i)))
        }
        1 => ("ed25519", spki(&key_of(s, Alg::Ed))),
        2 => ("p521", spki(&key_of(s, Alg::P521))),
        3 => ("other curve", spki_raw(EC, &[oid(s.pick(CURVES))], &k.public)),
        4 => ("other algorithm", spki_raw(s.pick(ALGS), &[params], &k.public)),
        5 => ("no parameters", spki_raw(EC, &[], &k.public)),
        6 => {
            // (x509-parser takes the bytes of any primitive value as an identifier, so its tag is not judged.)
            let p = match s.below(3) {
                0 => null(),
                1 => seq(&[int(&[1]), params]),
                _ => int(&[7]),
            };
            ("odd parameters", spki_raw(EC, &[p], &k.public))
        }
        _ => ("rsa with curve", spki_raw(RSA, &[params], &k.public)),
    }
}
/// Keys that are no uncompressed points: they come out as they are, or not at all.
fn c23_points(s: &mut Src, c: &mut Ctx) -> PResult {
    let f = gen_form(s);
    let a = *s.pick(&[Alg::P256, Alg::P384]);
    let key = key_of(s, a);
    let p = &key.public;
    let w = a.field_len();
    let bits: Vec<u8> = match s.below(8) {
        0 => p[1..].to_vec(),
        1 => [&[2 + (p[2 * w] & 1)][..], &p[1..1 + w]].concat(),
        2 => [&[6 + (p[2 * w] & 1)][..], &p[1..]].concat(),
        3 => [&p[..], &[0]].concat(),
        4 => [&[0][..], &p[..]].concat(),
        5 => p[..2 * w].to_vec(),
        6 => vec![],
        _ => {
            let n = s.len(200);
            s.blob(n)
        }
    };
    let b = wrap(s, f, &spki_raw(EC, &[oid(curve_oid(a))], &bits));
    c.nontrivial(&b);
    c.desc(|| format!("{f:?} with {} bytes as a {} key", bits.len(), a.plain()));
    match extract(f, &b)? {
        Ok(k) => {
            c.class("taken as it is");
            let sshcerts::ssh::PublicKeyKind::Ecdsa(e) = &k.kind else { return fail("kind", "a key other than ECDSA came out") };
            ensure!(e.key == bits && k.key_type.name == a.plain() && e.curve.identifier == &a.plain()[11..], "key", "{} for {}: {}", k, hex(&bits), hex(&b));
        }
        Err(_) => c.class("refused"),
    }
    Ok(())
}
fn c23_refuse(s: &mut Src, c: &mut Ctx) -> PResult {
    let mut f = gen_form(s);
    let (what, b) = if s.chance(80) {
        let a = *s.pick(&[Alg::P256, Alg::P384]);
        let key = key_of(s, a);
        let mut b = wrap(s, f, &spki(&key));
        if s.chance(60) {
            // (In certificates and requests this is for the X.509 parser to refuse or not.)
            let p = oid(curve_oid(key.alg));
            let more = s.pick(&[null(), p.clone(), int(&[1]), seq(&[])]).clone();
            let x = match s.below(3) {
                0 => seq(&[seq(&[oid(EC), p, more]), bitstr(&key.public)]),
                1 => seq(&[seq(&[oid(EC), p]), bitstr(&key.public), more]),
                _ => seq(&[more, seq(&[oid(EC), p]), bitstr(&key.public)]),
            };
            f = Form::Der;
            ("one value too many", x)
        } else if s.bool() {
            b.truncate(s.below(b.len()));
            ("truncated", b)
        } else {
            // The outermost value must be a SEQUENCE.
            b[0] = *s.pick(&[0x31, 0x04, 0x02, 0x00]);
            ("not a sequence", b)
        }
    } else {
        let (w, k) = bad_spki(s);
        (w, wrap(s, f, &k))
    };
    c.class(what);
    c.nontrivial(&b);
    c.desc(|| format!("{f:?}, {what}, {} bytes", b.len()));
    match extract(f, &b)? {
        Ok(k) => fail("accepted", format!("{f:?} ({what}) accepted as {}; {}", k, hex(&b))),
        Err(_) => Ok(()),
    }
}
fn c23_damaged(s: &mut Src, c: &mut Ctx) -> PResult {
    let f = gen_form(s);
    let a = *s.pick(&[Alg::P256, Alg::P384]);
    let key = key_of(s, a);
    let mut b = wrap(s, f, &spki(&key));
    let n = 1 + s.below(4);
    for _ in 0..n {
        mangle(s, &mut b);
    }
    c.nontrivial(&b);
    c.desc(|| format!("{f:?} damaged in {n} places"));
    if let Ok(k) = extract(f, &b)? {
        c.class("accepted");
        let r = match &k.kind {
            sshcerts::ssh::PublicKeyKind::Ecdsa(e) => e,
            _ => return fail("kind", "a key other than ECDSA came out"),
        };
        ensure!(r.key.is_empty() || b.windows(r.key.len()).any(|w| w == &r.key[..]), "invented-key", "the key is not in the input {}", hex(&b));
        // (The parsers tolerate padded object identifiers, so the curve is judged by the other facets.)
        ensure!(matches!(k.key_type.name, "ecdsa-sha2-nistp256" | "ecdsa-sha2-nistp384"), "type", "key type {}", k.key_type.name);
    }
    Ok(())
}

// ------------------------------------------------------------------ C24

const FW: &str = "1.3.6.1.4.1.41482.3.3";
const SERIAL: &str = "1.3.6.1.4.1.41482.3.7";
const POLICY: &str = "1.3.6.1.4.1.41482.3.8";

struct Leaf {
    key: Key,
    fw: [u8; 3],
    serial: u64,
    pin: u8,
    touch: u8,
}
impl Leaf {
    fn gen(s: &mut Src) -> Leaf {
        let a = *s.pick(&[Alg::P256, Alg::P384]);
        Leaf {
            key: key_of(s, a),
            fw: s.arr(),
            serial: match s.below(4) {
                0 => 0,
                1 => (1u64 << s.below(63)) - s.below(2) as u64,
                2 => s.u32() as u64,
                _ => s.u64() >> 1,
            },
            pin: s.byte(),
            touch: s.byte(),
        }
    }
    fn exts(&self, s: &mut Src) -> Vec<Ext> {
        let mut v = vec![
            Ext::new(FW, self.fw.to_vec()),
            Ext::new(SERIAL, int(&self.serial.to_be_bytes())),
            Ext::new(POLICY, vec![self.pin, self.touch]),
        ];
        for i in (1..v.len()).rev() {
            let j = s.below(i + 1);
            v.swap(i, j);
        }
        for e in v.iter_mut() {
            e.critical = s.chance(40);
        }
        v
    }
}
struct Chain {
    root: Key,
    ralg: SigAlg,
    inter: Key,
    ialg: SigAlg,
    rc: CertB,
    ic: CertB,
    lc: CertB,
    n: u64,
}
impl Chain {
    fn gen(s: &mut Src, leaf: &[u8], exts: Vec<Ext>) -> Chain {
        let root = ca_key(s);
        let inter = ca_key(s);
        let (ralg, ialg) = (SigAlg::gen(s, &root), SigAlg::gen(s, &inter));
        let n = s.u64();
        let rc = CertB::gen(s, &spki(&root), vec![]);
        // Real intermediates carry a firmware version of their own.
        let ie = if s.bool() { vec![Ext::new(FW, s.bytes(3))] } else { vec![] };
        let mut ic = CertB::gen(s, &spki(&inter), ie);
        ic.issuer = rc.subject.clone();
        let mut lc = CertB::gen(s, leaf, exts);
        lc.issuer = ic.subject.clone();
        Chain { root, ralg, inter, ialg, rc, ic, lc, n }
    }
    fn root_pem(&self) -> String {
        pem("CERTIFICATE", &self.rc.sign(self.ralg, &self.root, self.n).der)
    }
    fn ic(&self) -> Built {
        self.ic.sign(self.ralg, &self.root, self.n)
    }
    fn lc(&self) -> Built {
        self.lc.sign(self.ialg, &self.inter, self.n)
    }
}
fn verify_chain(leaf: &[u8], inter: &[u8], root: Option<&str>) -> Result<Result<sshcerts::yubikey::verification::ValidPIVKey, sshcerts::error::Error>, Fail> {
    guarded(|| verify_certificate_chain(leaf, inter, root))
        .map_err(|m| Fail { kind: "panic".into(), msg: format!("verify_certificate_chain panicked: {m}; leaf {} intermediate {} root {root:?}", hex(leaf), hex(inter)) })
}

/// Leaf, intermediate and root of a valid chain.
pub fn any_chain(s: &mut Src) -> (Vec<u8>, Vec<u8>, String) {
    let l = Leaf::gen(s);
    let e = l.exts(s);
    let ch = Chain::gen(s, &spki(&l.key), e);
    (ch.lc().der, ch.ic().der, ch.root_pem())
}
/// As above, with damage inside the leaf's extensions before it is signed.
pub fn odd_chain(s: &mut Src, damage: fn(&mut Src, &mut Vec<u8>)) -> (Vec<u8>, Vec<u8>, String) {
    let l = Leaf::gen(s);
    let mut e = l.exts(s);
    for x in e.iter_mut() {
        if s.bool() {
            damage(s, &mut x.value);
        }
    }
    let mut k = spki(&l.key);
    if s.chance(60) {
        damage(s, &mut k);
    }
    let ch = Chain::gen(s, &k, e);
    (ch.lc().der, ch.ic().der, ch.root_pem())
}
pub fn any_x509(s: &mut Src, form: usize) -> Vec<u8> {
    let f = [Form::Cert, Form::Csr, Form::Der][form];
    let k = if s.chance(200) {
        let a = *s.pick(&[Alg::P256, Alg::P384]);
        spki(&key_of(s, a))
    } else {
        bad_spki(s).1
    };
    wrap(s, f, &k)
}
fn c24_intact(s: &mut Src, c: &mut Ctx) -> PResult {
    let l = Leaf::gen(s);
    let e = l.exts(s);
    let ch = Chain::gen(s, &spki(&l.key), e);
    let (lc, ic, root) = (ch.lc(), ch.ic(), ch.root_pem());
    c.nontrivial(&(&lc.der, &ic.der, &root));
    c.class(l.key.alg.plain());
    c.desc(|| format!("root {} {:?}, intermediate {} {:?}, leaf {}, firmware {:?}, serial {}, pin {} touch {}", ch.root.alg.plain(), ch.ralg, ch.inter.alg.plain(), ch.ialg, l.key.alg.plain(), l.fw, l.serial, l.pin, l.touch));
    let v = match verify_chain(&lc.der, &ic.der, Some(&root))? {
        Ok(v) => v,
        Err(e) => return fail("rejected", format!("an intact chain is rejected: {e} (serial {}); leaf {} intermediate {} root {root}", l.serial, hex(&lc.der), hex(&ic.der))),
    };
    judge_key(&v.public_key, &l.key)?;
    let fw = format!("{}.{}.{}", l.fw[0], l.fw[1], l.fw[2]);
    ensure!(v.firmware == fw, "firmware", "firmware {} instead of {fw}", v.firmware);
    ensure!(v.serial == l.serial, "serial", "serial {} instead of {}", v.serial, l.serial);
    ensure!(v.pin_policy == l.pin, "pin", "PIN policy {} instead of {}", v.pin_policy, l.pin);
    ensure!(v.touch_policy == l.touch, "touch", "touch policy {} instead of {}", v.touch_policy, l.touch);
    Ok(())
}

pub fn flip(s: &mut Src, b: &mut [u8], r: std::ops::Range<usize>) {
    let i = r.start + s.below(r.len());
    b[i] ^= 1 << s.below(8);
}
pub fn other_key(s: &mut Src, not: &Key) -> Key {
    for _ in 0..20 {
        let k = key_of(s, not.alg);
        if k.blob() != not.blob() {
            return k;
        }
    }
    match not.alg {
        Alg::Rsa => Key::rsa((not.rsa + 1) % RSA_FAST),
        Alg::Ed => Key::ed(Alg::Ed, &sha256(&not.secret), ""),
        a => Key::ec(a, &sha256(&not.secret), ""),
    }
}

fn c24_broken(s: &mut Src, c: &mut Ctx) -> PResult {
    let l = Leaf::gen(s);
    let mut exts = l.exts(s);
    let mut leaf_spki = spki(&l.key);
    let kind = s.below(25);
    let pos = |v: &[Ext], o: &str| v.iter().position(|e| e.oid == o).unwrap();
    // Content damage, correctly signed.
    let mut what = match kind {
        0 | 1 | 2 => {
            let o = [FW, SERIAL, POLICY][kind];
            let p = pos(&exts, o);
            if s.bool() {
                exts.remove(p);
                "missing extension"
            } else {
                exts[p].oid.push_str(if s.bool() { ".1" } else { "0" });
                "renamed extension"
            }
        }
        3 => {
            let p = pos(&exts, FW);
            let n = *s.pick(&[0usize, 1, 2, 4, 5, 9]);
            exts[p].value = s.bytes(n);
            "firmware of a wrong length"
        }
        4 => {
            let p = pos(&exts, POLICY);
            let n = *s.pick(&[0usize, 1, 3, 4, 9]);
            exts[p].value = s.bytes(n);
            "policies of a wrong length"
        }
        5 => {
            let p = pos(&exts, SERIAL);
            exts[p].value = match s.below(5) {
                0 => vec![],
                1 => octets(&[1, 2, 3, 4]),
                2 => {
                    let n = 9 + s.below(40);
                    let mut m = s.blob(n);
                    m[0] |= 1;
                    int(&m)
                }
                3 => vec![2, 5, 1, 2, 3],
                _ => vec![0x0c, 3, b'1', b'2', b'3'],
            };
            "malformed serial"
        }
        6 => {
            let (w, k) = bad_spki(s);
            leaf_spki = k;
            c.class(w);
            "unsupported leaf key"
        }
        _ => "",
    };
    let mut ch = Chain::gen(s, &leaf_spki, exts);
    let mut root = ch.root_pem();
    let mut none = false;
    let mut lc = ch.lc();
    let mut ic = ch.ic();
    match kind {
        0..=6 => {}
        7 | 8 => {
            flip(s, &mut lc.der, lc.tbs.clone());
            what = "leaf altered";
        }
        9 => {
            flip(s, &mut ic.der, ic.tbs.clone());
            what = "intermediate altered";
        }
        10 => {
            flip(s, &mut lc.der, lc.sig.clone());
            what = "leaf signature altered";
        }
        11 => {
            flip(s, &mut ic.der, ic.sig.clone());
            what = "intermediate signature altered";
        }
        12 => {
            let k = other_key(s, &ch.inter);
            lc = ch.lc.sign(ch.ialg, &k, ch.n);
            what = "leaf signed by another key";
        }
        13 => {
            let k = other_key(s, &ch.root);
            ic = ch.ic.sign(ch.ralg, &k, ch.n);
            what = "intermediate signed by another key";
        }
        14 => {
            if ch.root.blob() == ch.inter.blob() {
                ch.root = other_key(s, &ch.inter);
                ic = ch.ic();
                root = pem("CERTIFICATE", &CertB { spki: spki(&ch.root), ..ch.rc.clone() }.sign(ch.ralg, &ch.root, ch.n).der);
            }
            lc = ch.lc.sign(ch.ralg, &ch.root, ch.n);
            what = "leaf signed by the root";
        }
        15 => {
            none = true;
            what = "default root";
        }
        16 => {
            let k = other_key(s, &ch.root);
            let rc = CertB { spki: spki(&k), ..ch.rc.clone() };
            root = pem("CERTIFICATE", &rc.sign(ch.ralg, &k, ch.n).der);
            what = "another root of the same name";
        }
        17 => {
            // The chain is sound, but under a root of the attacker; the real root is given.
            let k = other_key(s, &ch.inter);
            if k.blob() == ch.root.blob() {
                return Ok(());
            }
            ic = CertB { spki: spki(&k), ..ch.ic.clone() }.sign(SigAlg::gen(s, &k), &k, ch.n);
            lc = ch.lc.sign(ch.ialg, &k, ch.n);
            what = "self-signed intermediate";
        }
        18 => {
            lc = ch.lc.sign(SigAlg::gen(s, &l.key), &l.key, ch.n);
            if l.key.blob() == ch.inter.blob() {
                return Ok(());
            }
            what = "self-signed leaf";
        }
        19 => {
            if ch.root.blob() == ch.inter.blob() {
                return Ok(());
            }
            std::mem::swap(&mut lc, &mut ic);
            what = "leaf and intermediate swapped";
        }
        20 => {
            let n = s.below(lc.der.len());
            lc.der.truncate(n);
            what = "leaf truncated";
        }
        21 => {
            let n = s.below(ic.der.len());
            ic.der.truncate(n);
            what = "intermediate truncated";
        }
        22 => {
            root = unreadable_root(s, &root);
            what = "unreadable root";
        }
        23 => {
            // The signature is valid for other bytes by the same key.
            let mut other = ch.lc.clone();
            other.serial = vec![1];
            if ch.lc.serial == other.serial {
                other.serial = vec![2];
            }
            let o = other.sign(ch.ialg, &ch.inter, ch.n);
            lc = assemble(&ch.lc.tbs(ch.ialg), &ch.ialg.ident(), &o.der[o.sig.clone()]);
            what = "signature of another leaf";
        }
        _ => {
            lc = assemble(&ch.lc.tbs(ch.ialg), &ch.ialg.ident(), &[]);
            what = "empty signature";
        }
    }
    c.class(what);
    c.nontrivial(&(&lc.der, &ic.der, &root, none));
    c.desc(|| format!("{what}: root {} {:?}, intermediate {} {:?}", ch.root.alg.plain(), ch.ralg, ch.inter.alg.plain(), ch.ialg));
    match verify_chain(&lc.der, &ic.der, if none { None } else { Some(&root) })? {
        Err(_) => Ok(()),
        Ok(v) => fail("accepted", format!("accepted despite: {what} ({v:?}); leaf {} intermediate {} root {root}", hex(&lc.der), hex(&ic.der))),
    }
}

pub const PIV_ROOT: &str = include_str!("../../fixtures/yubico_piv_root.pem");
pub const U2F_ROOT: &str = include_str!("../../fixtures/yubico_u2f_root.pem");

/// A root made from a readable one that cannot be read as a certificate.
pub fn unreadable_root(s: &mut Src, root: &str) -> String {
    let root = root.trim_end();
    let b64: String = root.lines().filter(|l| !l.starts_with('-')).collect();
    let der = crate::wire::unb64(&b64).expect("base64");
    match s.below(9) {
        0 => String::new(),
        1 => text(s),
        2 => pem("CERTIFICATE", b""),
        3 => pem("CERTIFICATE", &der[..s.below(der.len())]),
        4 => {
            let k = ca_key(s);
            pem("PUBLIC KEY", &spki(&k))
        }
        5 => root.replace("-----BEGIN CERTIFICATE-----", ""),
        6 => root[..root.len() - 28].to_string(),
        7 => pem("CERTIFICATE", b"\x30\x03\x02\x01\x01"),
        _ => {
            let mut v: Vec<char> = root.chars().collect();
            let i = 28 + s.below(40);
            v[i] = *s.pick(&['!', '*', '\u{e9}', '.']);
            v.into_iter().collect()
        }
    }
}

fn c24_recorded(s: &mut Src, c: &mut Ctx) -> PResult {
    let mut leaf = include_bytes!("../../fixtures/yubikey_5ci_attestation.der").to_vec();
    let mut inter = include_bytes!("../../fixtures/yubikey_5ci_intermediate.der").to_vec();
    let intact = s.chance(80);
    let mut what = "intact";
    if !intact {
        // Both end in a 256 byte RSA signature behind 19+1 bytes of framing that nobody signs.
        let (b, w) = if s.bool() { (&mut leaf, "leaf") } else { (&mut inter, "intermediate") };
        what = w;
        let n = b.len();
        let (tbs, sig) = (4..n - 256 - 5 - 15, n - 256..n);
        let r = if s.chance(200) { tbs } else { sig };
        flip(s, b, r);
    }
    let root = match s.below(6) {
        0 => {
            what = "foreign root";
            Some(Chain::gen(s, &[], vec![]).root_pem())
        }
        1 => {
            what = "unreadable root";
            Some(unreadable_root(s, PIV_ROOT))
        }
        2 => {
            what = "root for other devices";
            Some(U2F_ROOT.to_string())
        }
        3 => Some(PIV_ROOT.to_string()),
        _ => None,
    };
    let foreign = what.contains("root");
    c.class(what);
    c.nontrivial(&(&leaf, &inter, &root));
    c.desc(|| format!("recorded YubiKey 5Ci chain, altered: {what}"));
    match verify_chain(&leaf, &inter, root.as_deref())? {
        Ok(v) if intact && !foreign => {
            ensure!(v.serial == 11778047 && v.firmware == "5.2.4" && v.touch_policy == 3 && v.pin_policy == 1, "values", "wrong values {v:?}");
            Ok(())
        }
        Ok(v) => fail("accepted", format!("altered recorded chain accepted: {v:?}; leaf {} intermediate {}", hex(&leaf), hex(&inter))),
        Err(e) if intact && !foreign => fail("rejected", format!("the recorded chain is rejected: {e}")),
        Err(_) => Ok(()),
    }
}

//! A small DER and X.509 builder written from X.690 and RFC 5280, so that
//! certificates of any shape (also malformed ones) can be signed.

use crate::crypto::*;
use crate::engine::Src;
use crate::gen::*;
use crate::wire::strip;
use openssl::bn::BigNum;
use openssl::ecdsa::EcdsaSig;
use openssl::hash::MessageDigest;
use openssl::sign::Signer;

pub fn tlv(tag: u8, c: &[u8]) -> Vec<u8> {
    let mut v = vec![tag];
    let n = c.len();
    if n < 128 {
        v.push(n as u8);
    } else {
        let b = n.to_be_bytes();
        let b = strip(&b);
        v.push(0x80 | b.len() as u8);
        v.extend_from_slice(b);
    }
    v.extend_from_slice(c);
    v
}
pub fn seq(p: &[Vec<u8>]) -> Vec<u8> {
    tlv(0x30, &p.concat())
}
pub fn oid(s: &str) -> Vec<u8> {
    let n: Vec<u64> = s.split('.').map(|x| x.parse().unwrap()).collect();
    let mut b = vec![];
    let mut put = |mut v: u64| {
        let mut t = vec![(v & 0x7f) as u8];
        v >>= 7;
        while v > 0 {
            t.push(0x80 | (v & 0x7f) as u8);
            v >>= 7;
        }
        t.reverse();
        b.extend(t);
    };
    put(n[0] * 40 + n[1]);
    for x in &n[2..] {
        put(*x);
    }
    tlv(6, &b)
}
/// Non-negative INTEGER.
pub fn int(mag: &[u8]) -> Vec<u8> {
    let mut c = crate::wire::mpint(mag);
    if c.is_empty() {
        c.push(0);
    }
    tlv(2, &c)
}
pub fn bitstr(b: &[u8]) -> Vec<u8> {
    tlv(3, &[&[0u8][..], b].concat())
}
pub fn octets(b: &[u8]) -> Vec<u8> {
    tlv(4, b)
}
pub fn null() -> Vec<u8> {
    vec![5, 0]
}

pub const EC: &str = "1.2.840.10045.2.1";
pub const P256: &str = "1.2.840.10045.3.1.7";
pub const P384: &str = "1.3.132.0.34";
pub const P521: &str = "1.3.132.0.35";
pub const RSA: &str = "1.2.840.113549.1.1.1";
pub const ED: &str = "1.3.101.112";

pub fn curve_oid(a: Alg) -> &'static str {
    match a {
        Alg::P384 => P384,
        Alg::P521 => P521,
        _ => P256,
    }
}
pub fn spki_raw(alg: &str, params: &[Vec<u8>], key: &[u8]) -> Vec<u8> {
    let mut a = vec![oid(alg)];
    a.extend_from_slice(params);
    seq(&[seq(&a), bitstr(key)])
}
pub fn spki(k: &Key) -> Vec<u8> {
    match k.alg {
        Alg::Rsa => spki_raw(RSA, &[null()], &seq(&[int(&k.fix().n), int(&k.fix().e)])),
        Alg::Ed | Alg::SkEd => spki_raw(ED, &[], &k.public),
        a => spki_raw(EC, &[oid(curve_oid(a))], &k.public),
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum SigAlg {
    Rsa256,
    Rsa384,
    Rsa512,
    Ec256,
    Ec384,
    Ed,
}
impl SigAlg {
    pub fn gen(s: &mut Src, k: &Key) -> SigAlg {
        match k.alg {
            Alg::Rsa => *s.pick(&[SigAlg::Rsa256, SigAlg::Rsa256, SigAlg::Rsa384, SigAlg::Rsa512]),
            Alg::Ed | Alg::SkEd => SigAlg::Ed,
            _ => *s.pick(&[SigAlg::Ec256, SigAlg::Ec384]),
        }
    }
    pub fn ident(self) -> Vec<u8> {
        match self {
            SigAlg::Rsa256 => seq(&[oid("1.2.840.113549.1.1.11"), null()]),
            SigAlg::Rsa384 => seq(&[oid("1.2.840.113549.1.1.12"), null()]),
            SigAlg::Rsa512 => seq(&[oid("1.2.840.113549.1.1.13"), null()]),
            SigAlg::Ec256 => seq(&[oid("1.2.840.10045.4.3.2")]),
            SigAlg::Ec384 => seq(&[oid("1.2.840.10045.4.3.3")]),
            SigAlg::Ed => seq(&[oid(ED)]),
        }
    }
    pub fn sign(self, k: &Key, msg: &[u8], nonce: u64) -> Vec<u8> {
        let md = match self {
            SigAlg::Rsa256 | SigAlg::Ec256 => MessageDigest::sha256(),
            SigAlg::Rsa384 | SigAlg::Ec384 => MessageDigest::sha384(),
            SigAlg::Rsa512 => MessageDigest::sha512(),
            SigAlg::Ed => {
                let p = k.pkey();
                return Signer::new_without_digest(&p).unwrap().sign_oneshot_to_vec(msg).unwrap();
            }
        };
        let natural = matches!((self, k.alg), (SigAlg::Ec256, Alg::P256 | Alg::SkP256) | (SigAlg::Ec384, Alg::P384));
        if natural {
            return ecdsa_der(k, msg, &SigOpts { k: nonce, ..SigOpts::default() });
        }
        let p = k.pkey();
        let mut s = Signer::new(md, &p).unwrap();
        s.sign_oneshot_to_vec(msg).unwrap()
    }
}
/// A DER ECDSA signature with the curve's own hash and a nonce from the case.
pub fn ecdsa_der(k: &Key, msg: &[u8], o: &SigOpts) -> Vec<u8> {
    let (r, s) = ecdsa_sign(k.alg, &k.secret, msg, o);
    EcdsaSig::from_private_components(BigNum::from_slice(&r).unwrap(), BigNum::from_slice(&s).unwrap()).unwrap().to_der().unwrap()
}

pub type Name = Vec<(&'static str, String)>;
pub fn gen_name(s: &mut Src) -> Name {
    const T: &[&str] = &["2.5.4.3", "2.5.4.10", "2.5.4.11", "2.5.4.7"];
    let n = s.len(4);
    (0..n)
        .map(|_| {
            let t = *s.pick(T);
            (t, text(s))
        })
        .collect()
}
pub fn name(n: &Name) -> Vec<u8> {
    seq(&n.iter().map(|(o, v)| tlv(0x31, &seq(&[oid(o), tlv(0x0c, v.as_bytes())]))).collect::<Vec<_>>())
}

#[derive(Clone, Debug)]
pub struct Ext {
    pub oid: String,
    pub critical: bool,
    pub value: Vec<u8>,
}
impl Ext {
    pub fn new(o: &str, value: Vec<u8>) -> Ext {
        Ext { oid: o.into(), critical: false, value }
    }
    fn der(&self) -> Vec<u8> {
        let mut v = vec![oid(&self.oid)];
        if self.critical {
            v.push(vec![1, 1, 0xff]);
        }
        v.push(octets(&self.value));
        seq(&v)
    }
}

#[derive(Clone, Debug)]
pub struct CertB {
    pub serial: Vec<u8>,
    pub issuer: Name,
    pub subject: Name,
    pub from: (bool, String),
    pub to: (bool, String),
    pub spki: Vec<u8>,
    pub exts: Vec<Ext>,
}
pub struct Built {
    pub der: Vec<u8>,
    pub tbs: std::ops::Range<usize>,
    pub sig: std::ops::Range<usize>,
}
fn gen_time(s: &mut Src) -> (bool, String) {
    let (mo, d, h, m, sec) = (1 + s.below(12), 1 + s.below(28), s.below(24), s.below(60), s.below(60));
    if s.bool() {
        (true, format!("{:04}{mo:02}{d:02}{h:02}{m:02}{sec:02}Z", 2050 + s.below(7950)))
    } else {
        (false, format!("{:02}{mo:02}{d:02}{h:02}{m:02}{sec:02}Z", s.below(100)))
    }
}
fn time(t: &(bool, String)) -> Vec<u8> {
    tlv(if t.0 { 0x18 } else { 0x17 }, t.1.as_bytes())
}
/// An extension no one here looks at.
pub fn gen_ext(s: &mut Src) -> Ext {
    const O: &[&str] = &["1.3.6.1.4.1.41482.3.9", "1.3.6.1.4.1.41482.2", "1.2.3.4.5", "2.999.3", "1.3.6.1.4.1.41482.3.30", "1.3.6.1.4.1.41482.13", "1.3.6.1.4.1.45724.1.1.40"];
    let n = s.len(40);
    Ext { oid: s.pick(O).to_string(), critical: s.chance(60), value: s.blob(n) }
}
impl CertB {
    pub fn gen(s: &mut Src, key: &[u8], mut exts: Vec<Ext>) -> CertB {
        let n = s.len(3);
        for _ in 0..n {
            let e = gen_ext(s);
            if exts.iter().all(|x| x.oid != e.oid) {
                let at = s.below(exts.len() + 1);
                exts.insert(at, e);
            }
        }
        let l = 1 + s.below(16);
        CertB { serial: s.blob(l), issuer: gen_name(s), subject: gen_name(s), from: gen_time(s), to: gen_time(s), spki: key.to_vec(), exts }
    }
    pub fn tbs(&self, a: SigAlg) -> Vec<u8> {
        let mut v = vec![];
        if !self.exts.is_empty() {
            v.push(tlv(0xa0, &int(&[2])));
        }
        v.push(int(&self.serial));
        v.push(a.ident());
        v.push(name(&self.issuer));
        v.push(seq(&[time(&self.from), time(&self.to)]));
        v.push(name(&self.subject));
        v.push(self.spki.clone());
        if !self.exts.is_empty() {
            v.push(tlv(0xa3, &seq(&self.exts.iter().map(|e| e.der()).collect::<Vec<_>>())));
        }
        seq(&v)
    }
    pub fn sign(&self, a: SigAlg, k: &Key, nonce: u64) -> Built {
        let tbs = self.tbs(a);
        let sig = a.sign(k, &tbs, nonce);
        assemble(&tbs, &a.ident(), &sig)
    }
}
pub fn assemble(tbs: &[u8], ident: &[u8], sig: &[u8]) -> Built {
    let der = seq(&[tbs.to_vec(), ident.to_vec(), bitstr(sig)]);
    let body = tbs.len() + ident.len() + bitstr(sig).len();
    let h = der.len() - body;
    let n = der.len();
    Built { der, tbs: h..h + tbs.len(), sig: n - sig.len()..n }
}
/// A signing request.
pub fn csr(s: &mut Src, spki: &[u8], a: SigAlg, k: &Key, nonce: u64) -> Built {
    let attrs = if s.bool() {
        vec![]
    } else {
        let e = gen_ext(s);
        seq(&[oid("1.2.840.113549.1.9.14"), tlv(0x31, &seq(&[e.der()]))])
    };
    let info = seq(&[int(&[]), name(&gen_name(s)), spki.to_vec(), tlv(0xa0, &attrs)]);
    let sig = a.sign(k, &info, nonce);
    assemble(&info, &a.ident(), &sig)
}
pub fn pem(label: &str, der: &[u8]) -> String {
    let b = crate::wire::b64(der);
    let mut s = format!("-----BEGIN {label}-----\n");
    for c in b.as_bytes().chunks(64) {
        s.push_str(std::str::from_utf8(c).unwrap());
        s.push('\n');
    }
    s + &format!("-----END {label}-----\n")
}

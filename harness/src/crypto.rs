//! Reference keys, signatures and verification on top of the system's OpenSSL
//! (the code under test uses ring), plus the SSH formats around them written
//! from RFC 4253/5656/8332/8709, PROTOCOL.u2f and PROTOCOL.key.

use crate::engine::Src;
use crate::wire::{pad_left, strip, R, W};
use openssl::bn::{BigNum, BigNumContext};
use openssl::ec::{EcGroup, EcKey, EcPoint, PointConversionForm};
use openssl::ecdsa::EcdsaSig;
use openssl::hash::{hash, MessageDigest};
use openssl::nid::Nid;
use openssl::pkey::{Id, PKey};
use openssl::rsa::Rsa;
use openssl::sign::{Signer, Verifier};
use std::sync::OnceLock;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Alg {
    Ed,
    P256,
    P384,
    Rsa,
    SkEd,
    SkP256,
    P521,
}
pub const ALL_SIGNING: [Alg; 6] = [Alg::Ed, Alg::P256, Alg::P384, Alg::Rsa, Alg::SkEd, Alg::SkP256];
pub const ALL_ALGS: [Alg; 7] = [Alg::Ed, Alg::P256, Alg::P384, Alg::Rsa, Alg::SkEd, Alg::SkP256, Alg::P521];
pub const SOFT_ALGS: [Alg; 4] = [Alg::Ed, Alg::P256, Alg::P384, Alg::Rsa];

impl Alg {
    pub fn plain(self) -> &'static str {
        match self {
            Alg::Ed => "ssh-ed25519",
            Alg::P256 => "ecdsa-sha2-nistp256",
            Alg::P384 => "ecdsa-sha2-nistp384",
            Alg::P521 => "ecdsa-sha2-nistp521",
            Alg::Rsa => "ssh-rsa",
            Alg::SkEd => "sk-ssh-ed25519@openssh.com",
            Alg::SkP256 => "sk-ecdsa-sha2-nistp256@openssh.com",
        }
    }
    /// the name ssh-keygen shows for the kind of key
    pub fn short(self) -> &'static str {
        match self {
            Alg::Ed => "ED25519",
            Alg::P256 | Alg::P384 | Alg::P521 => "ECDSA",
            Alg::Rsa => "RSA",
            Alg::SkEd => "ED25519-SK",
            Alg::SkP256 => "ECDSA-SK",
        }
    }
    pub fn cert(self) -> &'static str {
        match self {
            Alg::Ed => "ssh-ed25519-cert-v01@openssh.com",
            Alg::P256 => "ecdsa-sha2-nistp256-cert-v01@openssh.com",
            Alg::P384 => "ecdsa-sha2-nistp384-cert-v01@openssh.com",
            Alg::P521 => "ecdsa-sha2-nistp521-cert-v01@openssh.com",
            Alg::Rsa => "ssh-rsa-cert-v01@openssh.com",
            Alg::SkEd => "sk-ssh-ed25519-cert-v01@openssh.com",
            Alg::SkP256 => "sk-ecdsa-sha2-nistp256-cert-v01@openssh.com",
        }
    }
    pub fn from_plain(s: &str) -> Option<Alg> {
        ALL_ALGS.iter().copied().find(|a| a.plain() == s)
    }
    pub fn is_sk(self) -> bool {
        matches!(self, Alg::SkEd | Alg::SkP256)
    }
    pub fn curve(self) -> Option<&'static str> {
        match self {
            Alg::P256 | Alg::SkP256 => Some("nistp256"),
            Alg::P384 => Some("nistp384"),
            Alg::P521 => Some("nistp521"),
            _ => None,
        }
    }
    pub fn nid(self) -> Nid {
        match self {
            Alg::P384 => Nid::SECP384R1,
            Alg::P521 => Nid::SECP521R1,
            _ => Nid::X9_62_PRIME256V1,
        }
    }
    pub fn field_len(self) -> usize {
        match self {
            Alg::P384 => 48,
            Alg::P521 => 66,
            _ => 32,
        }
    }
    pub fn md(self) -> MessageDigest {
        match self {
            Alg::P384 => MessageDigest::sha384(),
            Alg::P521 => MessageDigest::sha512(),
            _ => MessageDigest::sha256(),
        }
    }
}

pub fn sha256(b: &[u8]) -> Vec<u8> {
    hash(MessageDigest::sha256(), b).unwrap().to_vec()
}
pub fn sha384(b: &[u8]) -> Vec<u8> {
    hash(MessageDigest::sha384(), b).unwrap().to_vec()
}
pub fn sha512(b: &[u8]) -> Vec<u8> {
    hash(MessageDigest::sha512(), b).unwrap().to_vec()
}

fn group(nid: Nid) -> &'static EcGroup {
    static G: OnceLock<Vec<(Nid, EcGroup)>> = OnceLock::new();
    let g = G.get_or_init(|| {
        [Nid::X9_62_PRIME256V1, Nid::SECP384R1, Nid::SECP521R1]
            .iter()
            .map(|n| (*n, EcGroup::from_curve_name(*n).unwrap()))
            .collect()
    });
    &g.iter().find(|x| x.0 == nid).unwrap().1
}

pub struct RsaFix {
    pub name: &'static str,
    pub n: Vec<u8>,
    pub e: Vec<u8>,
    pub d: Vec<u8>,
    pub p: Vec<u8>,
    pub q: Vec<u8>,
    pub iqmp: Vec<u8>,
    pub key: PKey<openssl::pkey::Private>,
    pub bits: u32,
}
macro_rules! fx {
    ($($n:literal),*) => { &[$(($n, include_str!(concat!("../fixtures/rsa_", $n, ".pem")))),*] };
}
const RSA_PEMS: &[(&str, &str)] = fx!(
    "2048_1",
    "2048_2",
    "2048_3",
    "2048_short_coefficient",
    "2048_short_exponent1",
    "2048_short_privateExponent",
    "2048_e3",
    "3072_4",
    "4096_5",
    "2050",
    "2049",
    "2063",
    "1024"
);
/// The first six sign quickly under every RSA implementation.
pub const RSA_FAST: usize = 6;
/// Those ring can sign with (2048..4096 bits in steps of 512 bits per prime, e >= 65537).
pub const RSA_SIGNABLE: [usize; 8] = [0, 1, 2, 3, 4, 5, 7, 8];
/// Every fixture whose modulus lies in the 2048..8192 bits that verification supports.
pub const RSA_VERIFIABLE: usize = 12;

pub fn rsa_fix() -> &'static [RsaFix] {
    static P: OnceLock<Vec<RsaFix>> = OnceLock::new();
    P.get_or_init(|| {
        RSA_PEMS
            .iter()
            .map(|(name, pem)| {
                let r = Rsa::private_key_from_pem(pem.as_bytes()).unwrap();
                RsaFix {
                    name,
                    n: r.n().to_vec(),
                    e: r.e().to_vec(),
                    d: r.d().to_vec(),
                    p: r.p().unwrap().to_vec(),
                    q: r.q().unwrap().to_vec(),
                    iqmp: r.iqmp().unwrap().to_vec(),
                    bits: r.n().num_bits() as u32,
                    key: PKey::from_rsa(r).unwrap(),
                }
            })
            .collect()
    })
}

#[derive(Clone, Debug)]
pub struct Key {
    pub alg: Alg,
    /// RSA: index in the fixture pool.
    pub rsa: usize,
    /// EC: private scalar, fixed width. Ed25519: seed.
    pub secret: Vec<u8>,
    /// EC: uncompressed point. Ed25519: public key.
    pub public: Vec<u8>,
    pub app: String,
}

pub fn ec_public(alg: Alg, scalar: &[u8]) -> Vec<u8> {
    let g = group(alg.nid());
    let mut ctx = BigNumContext::new().unwrap();
    let d = BigNum::from_slice(scalar).unwrap();
    let mut pt = EcPoint::new(g).unwrap();
    pt.mul_generator2(g, &d, &mut ctx).unwrap();
    pt.to_bytes(g, PointConversionForm::UNCOMPRESSED, &mut ctx).unwrap()
}
pub fn ec_order(alg: Alg) -> Vec<u8> {
    let g = group(alg.nid());
    let mut ctx = BigNumContext::new().unwrap();
    let mut n = BigNum::new().unwrap();
    g.order(&mut n, &mut ctx).unwrap();
    n.to_vec()
}
/// Map arbitrary bytes to 1..order-1, fixed width.
pub fn ec_scalar(alg: Alg, raw: &[u8]) -> Vec<u8> {
    let mut ctx = BigNumContext::new().unwrap();
    let mut nm1 = BigNum::from_slice(&ec_order(alg)).unwrap();
    nm1.sub_word(1).unwrap();
    let v = BigNum::from_slice(raw).unwrap();
    let mut r = BigNum::new().unwrap();
    r.nnmod(&v, &nm1, &mut ctx).unwrap();
    r.add_word(1).unwrap();
    pad_left(&r.to_vec(), alg.field_len())
}

impl Key {
    pub fn ec(alg: Alg, raw: &[u8], app: &str) -> Key {
        let secret = ec_scalar(alg, raw);
        let public = ec_public(alg, &secret);
        Key { alg, rsa: 0, secret, public, app: app.into() }
    }
    pub fn ed(alg: Alg, seed: &[u8], app: &str) -> Key {
        let k = PKey::private_key_from_raw_bytes(seed, Id::ED25519).unwrap();
        Key { alg, rsa: 0, secret: seed.to_vec(), public: k.raw_public_key().unwrap(), app: app.into() }
    }
    pub fn rsa(idx: usize) -> Key {
        Key { alg: Alg::Rsa, rsa: idx, secret: vec![], public: vec![], app: String::new() }
    }
    pub fn fix(&self) -> &'static RsaFix {
        &rsa_fix()[self.rsa]
    }
    /// The fields after the type name in a public key blob.
    pub fn pub_data(&self) -> Vec<u8> {
        let w = W::new();
        let w = match self.alg {
            Alg::Rsa => w.mpint(&self.fix().e).mpint(&self.fix().n),
            Alg::Ed | Alg::SkEd => w.bytes(&self.public),
            a => w.str(a.curve().unwrap()).bytes(&self.public),
        };
        if self.alg.is_sk() { w.str(&self.app) } else { w }.0
    }
    pub fn blob(&self) -> Vec<u8> {
        W::new().str(self.alg.plain()).raw(&self.pub_data()).0
    }
    pub fn line(&self) -> String {
        format!("{} {}", self.alg.plain(), crate::wire::b64(&self.blob()))
    }
    pub fn bits(&self) -> usize {
        match self.alg {
            Alg::Rsa => self.fix().bits as usize,
            Alg::P384 => 384,
            Alg::P521 => 521,
            _ => 256,
        }
    }
    pub fn pkey(&self) -> PKey<openssl::pkey::Private> {
        match self.alg {
            Alg::Rsa => self.fix().key.clone(),
            Alg::Ed | Alg::SkEd => PKey::private_key_from_raw_bytes(&self.secret, Id::ED25519).unwrap(),
            a => {
                let g = group(a.nid());
                let mut ctx = BigNumContext::new().unwrap();
                let pt = EcPoint::from_bytes(g, &self.public, &mut ctx).unwrap();
                let k = EcKey::from_private_components(g, &BigNum::from_slice(&self.secret).unwrap(), &pt).unwrap();
                PKey::from_ec_key(k).unwrap()
            }
        }
    }
    /// An SSH signature blob over msg.
    pub fn sign(&self, msg: &[u8], o: &SigOpts) -> Vec<u8> {
        let (msg2, tail) = if self.alg.is_sk() {
            (sk_message(&self.app, o.flags, o.counter, msg), W::new().u8(o.flags).u32(o.counter).0)
        } else {
            (msg.to_vec(), vec![])
        };
        let w = match self.alg {
            Alg::Rsa => {
                let (name, md) = match o.rsa_hash {
                    RsaHash::Sha512 => ("rsa-sha2-512", MessageDigest::sha512()),
                    RsaHash::Sha256 => ("rsa-sha2-256", MessageDigest::sha256()),
                    RsaHash::Sha1 => ("ssh-rsa", MessageDigest::sha1()),
                };
                let mut s = Signer::new(md, &self.fix().key).unwrap();
                W::new().str(name).bytes(&s.sign_oneshot_to_vec(&msg2).unwrap())
            }
            Alg::Ed | Alg::SkEd => {
                let k = self.pkey();
                let mut s = Signer::new_without_digest(&k).unwrap();
                W::new().str(self.alg.plain()).bytes(&s.sign_oneshot_to_vec(&msg2).unwrap())
            }
            a => {
                let (r, s) = ecdsa_sign(a, &self.secret, &msg2, o);
                W::new().str(a.plain()).bytes(&W::new().mpint(&r).mpint(&s).0)
            }
        };
        w.raw(&tail).0
    }
}

pub fn sk_message(app: &str, flags: u8, counter: u32, msg: &[u8]) -> Vec<u8> {
    W::new().raw(&sha256(app.as_bytes())).u8(flags).u32(counter).raw(&sha256(msg)).0
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum RsaHash {
    Sha512,
    Sha256,
    Sha1,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Shape {
    Any,
    ShortR,
    ShortS,
}
#[derive(Clone, Debug)]
pub struct SigOpts {
    pub rsa_hash: RsaHash,
    pub flags: u8,
    pub counter: u32,
    pub k: u64,
    pub shape: Shape,
}
impl Default for SigOpts {
    fn default() -> Self {
        SigOpts { rsa_hash: RsaHash::Sha512, flags: 1, counter: 7, k: 1, shape: Shape::Any }
    }
}
impl SigOpts {
    pub fn gen(s: &mut Src) -> SigOpts {
        SigOpts {
            rsa_hash: *s.pick(&[RsaHash::Sha512, RsaHash::Sha256, RsaHash::Sha1]),
            flags: *s.pick(&[1u8, 5, 0, 0xff, 0x41, 4]),
            counter: match s.below(4) {
                0 => 0,
                1 => u32::MAX,
                _ => s.u32(),
            },
            k: s.u64(),
            shape: match s.weighted(&[12, 2, 2]) {
                0 => Shape::Any,
                1 => Shape::ShortR,
                _ => Shape::ShortS,
            },
        }
    }
}

fn ecdsa_once(alg: Alg, d: &BigNum, z: &BigNum, k: &BigNum, n: &BigNum, ctx: &mut BigNumContext) -> (Vec<u8>, Vec<u8>) {
    let g = group(alg.nid());
    let mut pt = EcPoint::new(g).unwrap();
    pt.mul_generator2(g, k, ctx).unwrap();
    let (mut x, mut y) = (BigNum::new().unwrap(), BigNum::new().unwrap());
    pt.affine_coordinates(g, &mut x, &mut y, ctx).unwrap();
    let mut r = BigNum::new().unwrap();
    r.nnmod(&x, n, ctx).unwrap();
    let mut ki = BigNum::new().unwrap();
    ki.mod_inverse(k, n, ctx).unwrap();
    let mut rd = BigNum::new().unwrap();
    rd.mod_mul(&r, d, n, ctx).unwrap();
    let mut t = BigNum::new().unwrap();
    t.mod_add(&rd, z, n, ctx).unwrap();
    let mut s = BigNum::new().unwrap();
    s.mod_mul(&ki, &t, n, ctx).unwrap();
    (r.to_vec(), s.to_vec())
}

/// ECDSA with a nonce derived from the case (deterministic, and able to produce
/// r or s values with leading zero bytes on demand).
pub fn ecdsa_sign(alg: Alg, secret: &[u8], msg: &[u8], o: &SigOpts) -> (Vec<u8>, Vec<u8>) {
    let mut ctx = BigNumContext::new().unwrap();
    let n = BigNum::from_slice(&ec_order(alg)).unwrap();
    let d = BigNum::from_slice(secret).unwrap();
    let dig = hash(alg.md(), msg).unwrap();
    // For every curve here the digest is no longer than the order (P-521/SHA-512 included).
    let z = BigNum::from_slice(&dig).unwrap();
    let len = alg.field_len();
    let start: BigNum = match (o.shape, alg) {
        // Nonces whose kG has an x coordinate with a leading zero byte.
        (Shape::ShortR, a) => {
            let ks = short_r_nonces(a);
            BigNum::from_u32(ks[o.k as usize % ks.len()]).unwrap()
        }
        _ => {
            let h = sha512(&[&o.k.to_be_bytes()[..], secret, msg].concat());
            BigNum::from_slice(&ec_scalar(alg, &h)).unwrap()
        }
    };
    if o.shape != Shape::ShortS {
        let (r, s) = ecdsa_once(alg, &d, &z, &start, &n, &mut ctx);
        if !r.is_empty() && !s.is_empty() {
            return (r, s);
        }
    }
    let mut k = start;
    let mut last = (vec![], vec![]);
    for _ in 0..3000 {
        let (r, s) = ecdsa_once(alg, &d, &z, &k, &n, &mut ctx);
        let ok = !r.is_empty() && !s.is_empty();
        if ok && s.len() < len {
            return (r, s);
        }
        if ok {
            last = (r, s);
        }
        k.add_word(1).unwrap();
    }
    last
}

fn short_r_nonces(alg: Alg) -> &'static [u32] {
    static C: OnceLock<Vec<Vec<u32>>> = OnceLock::new();
    let all = C.get_or_init(|| {
        [Alg::P256, Alg::P384]
            .iter()
            .map(|a| {
                let g = group(a.nid());
                let mut bctx = BigNumContext::new().unwrap();
                let mut one = EcPoint::new(g).unwrap();
                one.mul_generator2(g, &BigNum::from_u32(1).unwrap(), &mut bctx).unwrap();
                let mut p = one.to_owned(g).unwrap();
                let mut v = vec![];
                let mut i = 1u32;
                while v.len() < 6 && i < 20000 {
                    let (mut x, mut y) = (BigNum::new().unwrap(), BigNum::new().unwrap());
                    p.affine_coordinates(g, &mut x, &mut y, &mut bctx).unwrap();
                    if (x.num_bytes() as usize) < a.field_len() {
                        v.push(i);
                    }
                    let mut q = EcPoint::new(g).unwrap();
                    q.add(g, &p, &one, &mut bctx).unwrap();
                    p = q;
                    i += 1;
                }
                v
            })
            .collect()
    });
    match alg {
        Alg::P384 => &all[1],
        Alg::P521 => &[3, 5, 9],
        _ => &all[0],
    }
}

/// A public key as the reference parser sees it.
#[derive(Clone, Debug, PartialEq)]
pub struct RefPub {
    pub alg: Alg,
    pub e: Vec<u8>,
    pub n: Vec<u8>,
    pub point: Vec<u8>,
    pub app: Option<String>,
}

/// Strict reference parser for a public key blob (type names of plain keys only).
pub fn parse_pub(b: &[u8]) -> Option<RefPub> {
    let mut r = R::new(b);
    let p = parse_pub_fields(Alg::from_plain(r.str()?)?, &mut r)?;
    if r.left() != 0 {
        return None;
    }
    Some(p)
}
pub fn parse_pub_fields(alg: Alg, r: &mut R<'_>) -> Option<RefPub> {
    let mut k = RefPub { alg, e: vec![], n: vec![], point: vec![], app: None };
    match alg {
        Alg::Rsa => {
            k.e = r.mpint()?.to_vec();
            k.n = r.mpint()?.to_vec();
        }
        Alg::Ed | Alg::SkEd => k.point = r.bytes()?.to_vec(),
        a => {
            if r.str()? != a.curve().unwrap() {
                return None;
            }
            k.point = r.bytes()?.to_vec();
        }
    }
    if alg.is_sk() {
        k.app = Some(r.str()?.to_string());
    }
    Some(k)
}

/// Reference verification of an SSH signature blob. `strict` also rejects
/// trailing data and SHA-1.
pub fn verify(key: &RefPub, sig: &[u8], msg: &[u8], allow_sha1: bool) -> bool {
    verify_opt(key, sig, msg, allow_sha1).unwrap_or(false)
}
fn verify_opt(key: &RefPub, sig: &[u8], msg: &[u8], allow_sha1: bool) -> Option<bool> {
    let mut r = R::new(sig);
    let name = r.str()?;
    let body = r.bytes()?;
    let msg2 = if key.alg.is_sk() {
        let flags = r.u8()?;
        let counter = r.u32()?;
        sk_message(key.app.as_ref()?, flags, counter, msg)
    } else {
        msg.to_vec()
    };
    if r.left() != 0 {
        return Some(false);
    }
    match key.alg {
        Alg::Rsa => {
            let md = match name {
                "rsa-sha2-512" => MessageDigest::sha512(),
                "rsa-sha2-256" => MessageDigest::sha256(),
                "ssh-rsa" if allow_sha1 => MessageDigest::sha1(),
                _ => return Some(false),
            };
            let n = BigNum::from_slice(&key.n).ok()?;
            let e = BigNum::from_slice(&key.e).ok()?;
            if n.num_bits() < 2048 || n.num_bits() > 8192 || body.len() != strip(&key.n).len() {
                return Some(false);
            }
            let pk = PKey::from_rsa(Rsa::from_public_components(n, e).ok()?).ok()?;
            let mut v = Verifier::new(md, &pk).ok()?;
            Some(v.verify_oneshot(body, &msg2).unwrap_or(false))
        }
        Alg::Ed | Alg::SkEd => {
            if name != key.alg.plain() || key.point.len() != 32 {
                return Some(false);
            }
            let pk = PKey::public_key_from_raw_bytes(&key.point, Id::ED25519).ok()?;
            let mut v = Verifier::new_without_digest(&pk).ok()?;
            Some(v.verify_oneshot(body, &msg2).unwrap_or(false))
        }
        a => {
            if name != a.plain() || a == Alg::P521 {
                return Some(false);
            }
            let mut i = R::new(body);
            let rr = i.mpint()?;
            let ss = i.mpint()?;
            if i.left() != 0 || key.point.len() != 1 + 2 * a.field_len() || key.point[0] != 4 {
                return Some(false);
            }
            let g = group(a.nid());
            let mut ctx = BigNumContext::new().ok()?;
            let pt = EcPoint::from_bytes(g, &key.point, &mut ctx).ok()?;
            let k = EcKey::from_public_key(g, &pt).ok()?;
            let sg = EcdsaSig::from_private_components(BigNum::from_slice(rr).ok()?, BigNum::from_slice(ss).ok()?).ok()?;
            let dig = hash(a.md(), &msg2).ok()?;
            Some(sg.verify(&dig, &k).unwrap_or(false))
        }
    }
}

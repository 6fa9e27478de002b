//! Emulated FIDO tokens on emulated hidraw devices. The functions at the end replace those of
//! libudev in this binary, and the system calls through which the code under test reaches
//! hidraw devices. A thread and those it starts share a bus of their own.
//!
//! Written from the CTAP 2.1 specification (CTAPHID, authenticator API, PIN/UV protocols) and
//! the U2F raw message and HID formats.

use openssl::bn::BigNumContext;
use openssl::derive::Deriver;
use openssl::ec::{EcGroup, EcKey, EcPoint};
use openssl::bn::BigNum;
use openssl::nid::Nid;
use openssl::pkey::PKey;
use openssl::sign::Signer;
use openssl::symm::{Cipher, Crypter, Mode};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::ffi::{c_char, c_int, c_long, c_void, CStr, CString};
use std::sync::atomic::{AtomicBool, AtomicI32, Ordering};
use std::sync::{Arc, Mutex, OnceLock};
use vharness::crypto::*;
use vharness::der;
use vharness::engine::SplitMix;

// ---------------------------------------------------------------- CBOR

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum V {
    I(i128),
    B(Vec<u8>),
    S(String),
    A(Vec<V>),
    M(Vec<(V, V)>),
    Bool(bool),
}
fn head(out: &mut Vec<u8>, major: u8, v: u64) {
    let m = major << 5;
    match v {
        0..=23 => out.push(m | v as u8),
        24..=0xff => out.extend([m | 24, v as u8]),
        0x100..=0xffff => {
            out.push(m | 25);
            out.extend((v as u16).to_be_bytes());
        }
        0x1_0000..=0xffff_ffff => {
            out.push(m | 26);
            out.extend((v as u32).to_be_bytes());
        }
        _ => {
            out.push(m | 27);
            out.extend(v.to_be_bytes());
        }
    }
}
impl V {
    pub fn put(&self, o: &mut Vec<u8>) {
        match self {
            V::I(i) if *i >= 0 => head(o, 0, *i as u64),
            V::I(i) => head(o, 1, (-1 - *i) as u64),
            V::B(b) => {
                head(o, 2, b.len() as u64);
                o.extend(b);
            }
            V::S(b) => {
                head(o, 3, b.len() as u64);
                o.extend(b.as_bytes());
            }
            V::A(a) => {
                head(o, 4, a.len() as u64);
                a.iter().for_each(|x| x.put(o));
            }
            V::M(m) => {
                head(o, 5, m.len() as u64);
                for (k, x) in m {
                    k.put(o);
                    x.put(o);
                }
            }
            V::Bool(b) => o.push(if *b { 0xf5 } else { 0xf4 }),
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut o = vec![];
        self.put(&mut o);
        o
    }
    fn get(b: &[u8], p: &mut usize) -> Option<V> {
        let h = *b.get(*p)?;
        *p += 1;
        let n = match h & 31 {
            x @ 0..=23 => x as u64,
            x @ 24..=27 => {
                let k = 1usize << (x - 24);
                let s = b.get(*p..*p + k)?;
                *p += k;
                s.iter().fold(0u64, |a, y| a << 8 | *y as u64)
            }
            _ => return None,
        };
        Some(match h >> 5 {
            0 => V::I(n as i128),
            1 => V::I(-1 - n as i128),
            2 | 3 => {
                let s = b.get(*p..p.checked_add(n as usize)?)?.to_vec();
                *p += n as usize;
                if h >> 5 == 2 {
                    V::B(s)
                } else {
                    V::S(String::from_utf8(s).ok()?)
                }
            }
            4 => {
                let mut v = vec![];
                for _ in 0..n {
                    v.push(V::get(b, p)?);
                }
                V::A(v)
            }
            5 => {
                let mut v = vec![];
                for _ in 0..n {
                    let k = V::get(b, p)?;
                    v.push((k, V::get(b, p)?));
                }
                V::M(v)
            }
            7 if n == 20 || n == 21 => V::Bool(n == 21),
            _ => return None,
        })
    }
    pub fn parse(b: &[u8]) -> Option<V> {
        let mut p = 0;
        let v = V::get(b, &mut p)?;
        (p == b.len()).then_some(v)
    }
    pub fn at(&self, k: i128) -> Option<&V> {
        self.key(&V::I(k))
    }
    pub fn name(&self, k: &str) -> Option<&V> {
        self.key(&V::S(k.into()))
    }
    fn key(&self, k: &V) -> Option<&V> {
        match self {
            V::M(m) => m.iter().find(|x| x.0 == *k).map(|x| &x.1),
            _ => None,
        }
    }
    pub fn b(&self) -> Option<&[u8]> {
        match self {
            V::B(b) => Some(b),
            _ => None,
        }
    }
    fn s(&self) -> Option<&str> {
        match self {
            V::S(b) => Some(b),
            _ => None,
        }
    }
    fn i(&self) -> Option<i128> {
        match self {
            V::I(b) => Some(*b),
            _ => None,
        }
    }
}
fn m(x: Vec<(i128, V)>) -> V {
    V::M(x.into_iter().map(|(k, v)| (V::I(k), v)).collect())
}
fn text(s: &str) -> V {
    V::S(s.into())
}

// ---------------------------------------------------------------- tokens

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    /// CTAP 2.1 or 2.0.
    Fido2 { v21: bool },
    U2f,
    /// A device that is no token.
    Keyboard,
    /// A device that cannot be opened.
    Locked,
    /// A token that does not answer in the expected way when it is opened.
    Mute,
}
#[derive(Clone, Debug)]
pub struct Cred {
    pub handle: Vec<u8>,
    pub key: Key,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Fault {
    /// The answer is replaced by this status.
    Status(u8),
    /// The same, after the command was carried out.
    LateStatus(u8),
    /// A CTAPHID error.
    Hid(u8),
    /// The token is pulled before, or after, the command is carried out.
    Gone,
    GoneAfter,
    /// The answer is cut short, or replaced by bytes without meaning.
    Cut(u8),
    Garbage(u8),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Attest {
    /// By a certificate of the given root, the kind Yubico's tokens give.
    Good,
    /// Like Good with further certificates behind the first.
    Chain,
    /// By a certificate of another root with the same name.
    OtherRoot,
    /// The signature is one of another key.
    OtherKey,
    /// The signature does not cover the challenge.
    OtherChallenge,
    /// The signature does not cover the authenticator data.
    OtherData,
    /// The certificate's signature is altered.
    Altered,
    /// Signed by the credential itself, no certificate.
    Own,
    None,
    U2f,
    /// Says it is signed by another algorithm.
    WrongAlg,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    /// A use of a credential's key: relying party, hash, handle, user presence.
    Used { rp: [u8; 32], hash: Vec<u8>, handle: Vec<u8>, up: bool },
    Made { rp: String, user: Vec<u8>, handle: Vec<u8>, rk: bool, challenge: Vec<u8> },
    WrongPin,
    RightPin,
    Touched,
}
#[derive(Clone)]
pub struct Tok {
    pub kind: Kind,
    pub creds: Vec<Cred>,
    pub counter: u32,
    pub pin: Option<String>,
    /// Knows PINs at all.
    pub pins: bool,
    pub retries: u8,
    pub streak: u8,
    pub always_uv: bool,
    pub uv_not_rqd: bool,
    pub puat: bool,
    pub protos: Vec<u8>,
    pub max_list: Option<u8>,
    pub max_id: Option<usize>,
    pub terse: bool,
    pub eddsa: bool,
    /// Touched after this many keepalives, if ever.
    pub touch: Option<u8>,
    /// Traffic of other channels is mixed into the answers.
    pub noise: bool,
    pub late: bool,
    pub fault: Option<(u8, Fault)>,
    pub struck: bool,
    pub attest: Attest,
    /// Reserved flags the token sets.
    pub att_flags: u8,
    pub use_flags: u8,
    /// What the device calls itself.
    pub product: Option<String>,
    pub shape: Shape,
    pub rng: SplitMix,
    /// What a credential made here was given out with.
    pub given: Option<(Vec<u8>, Vec<u8>, Vec<u8>)>,
    count: u8,
    agree: Vec<u8>,
    token: Vec<u8>,
    token_rp: Option<String>,
    token_perm: u8,
    pub log: Vec<Ev>,
}
impl Tok {
    pub fn new(kind: Kind, seed: u64) -> Tok {
        Tok {
            kind,
            creds: vec![],
            counter: 0,
            pin: None,
            pins: true,
            retries: 8,
            streak: 0,
            always_uv: false,
            uv_not_rqd: false,
            puat: false,
            protos: vec![1],
            max_list: Some(8),
            max_id: Some(128),
            terse: false,
            eddsa: true,
            touch: Some(0),
            noise: false,
            late: false,
            fault: None,
            struck: false,
            attest: Attest::Good,
            att_flags: 0,
            use_flags: 0,
            product: None,
            shape: Shape::Any,
            rng: SplitMix(seed),
            given: None,
            count: 0,
            agree: vec![],
            token: vec![],
            token_rp: None,
            token_perm: 0,
            log: vec![],
        }
    }
    pub fn is_token(&self) -> bool {
        matches!(self.kind, Kind::Fido2 { .. } | Kind::U2f)
    }
    fn rand(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.rng.next() as u8).collect()
    }
    fn info(&self, v21: bool) -> V {
        let mut o: Vec<(V, V)> = vec![(text("rk"), V::Bool(true)), (text("up"), V::Bool(true)), (text("plat"), V::Bool(false))];
        if self.pins {
            o.push((text("clientPin"), V::Bool(self.pin.is_some())));
        }
        if v21 {
            o.push((text("alwaysUv"), V::Bool(self.always_uv)));
            o.push((text("makeCredUvNotRqd"), V::Bool(self.uv_not_rqd)));
            if self.puat {
                o.push((text("pinUvAuthToken"), V::Bool(true)));
            }
        } else if self.always_uv {
            o.push((text("alwaysUv"), V::Bool(true)));
        }
        let mut vs = vec![text("U2F_V2"), text("FIDO_2_0")];
        if v21 {
            vs.push(text("FIDO_2_1"));
        }
        let mut f = vec![(1, V::A(vs)), (3, V::B(vec![7; 16])), (4, V::M(o)), (5, V::I(1200)), (6, V::A(self.protos.iter().map(|x| V::I(*x as i128)).collect()))];
        if let Some(n) = self.max_list {
            f.push((7, V::I(n as i128)));
        }
        if let Some(n) = self.max_id {
            f.push((8, V::I(n as i128)));
        }
        m(f)
    }
    fn find(&self, rp: &[u8], handle: &[u8]) -> Option<&Cred> {
        self.creds.iter().find(|c| c.handle == handle && sha256(c.key.app.as_bytes()) == rp)
    }
    fn raw_sign(&mut self, key: &Key, msg: &[u8]) -> Vec<u8> {
        if key.alg == Alg::SkEd {
            let k = key.pkey();
            return Signer::new_without_digest(&k).unwrap().sign_oneshot_to_vec(msg).unwrap();
        }
        let o = SigOpts { k: self.rng.next(), shape: self.shape, ..SigOpts::default() };
        der::ecdsa_der(key, msg, &o)
    }
    fn use_key(&mut self, cred: &Cred, rp: &[u8], hash: &[u8], up: bool, uv: bool) -> (Vec<u8>, Vec<u8>) {
        self.counter = self.counter.wrapping_add(1);
        let flags = up as u8 | (uv as u8) << 2 | if self.kind == Kind::U2f { 0 } else { self.use_flags & 0x3a };
        let data = [rp, &[flags], &self.counter.to_be_bytes()].concat();
        let sig = self.raw_sign(&cred.key, &[&data[..], hash].concat());
        self.log.push(Ev::Used { rp: rp.try_into().unwrap(), hash: hash.to_vec(), handle: cred.handle.clone(), up });
        (data, sig)
    }
    fn authenticate(&self, proto: i128, msg: &[u8]) -> Vec<u8> {
        let mut h = hmac(&self.token, msg);
        if proto == 1 {
            h.truncate(16);
        }
        h
    }
    /// The PIN/UV part of a request: verified, not given, or an error.
    fn auth(&self, param: Option<&V>, proto: Option<&V>, hash: &[u8], perm: u8, rp: &str) -> Result<bool, u8> {
        let Some(p) = param.and_then(|x| x.b()) else { return Ok(false) };
        let pr = proto.and_then(|x| x.i()).ok_or(0x14u8)?;
        if self.token.is_empty() || !self.protos.contains(&(pr as u8)) || self.authenticate(pr, hash) != p {
            return Err(0x33);
        }
        if self.token_perm & perm == 0 || self.token_rp.as_deref().is_some_and(|x| x != rp) {
            return Err(0x33);
        }
        Ok(true)
    }
    /// What is to be done for a CTAP2 request, when it does not fail, and whether it takes a touch.
    fn plan(&mut self, cmd: u8, v: &V) -> Result<(bool, Plan), u8> {
        match cmd {
            0x01 => {
                let hash = v.at(1).and_then(|x| x.b()).ok_or(0x14u8)?.to_vec();
                let rp = v.at(2).and_then(|x| x.name("id")).and_then(|x| x.s()).ok_or(0x14u8)?.to_string();
                let user = v.at(3).and_then(|x| x.name("id")).and_then(|x| x.b()).ok_or(0x14u8)?.to_vec();
                // A request only made to see which token the user touches.
                if v.at(8).and_then(|x| x.b()).is_some_and(|x| x.is_empty()) {
                    return Ok((true, Plan::Fail(if self.pin.is_some() { 0x31 } else { 0x35 })));
                }
                let uv = self.auth(v.at(8), v.at(9), &hash, 1, &rp)?;
                if !uv && self.pin.is_some() && (self.always_uv || !self.uv_not_rqd) {
                    return Err(0x36);
                }
                let algs: Vec<i128> = match v.at(4) {
                    Some(V::A(a)) => a.iter().filter_map(|x| x.name("alg").and_then(|y| y.i())).collect(),
                    _ => return Err(0x14),
                };
                let alg = algs.into_iter().find(|a| *a == -7 || *a == -8 && self.eddsa).ok_or(0x26u8)?;
                let rk = v.at(7).and_then(|x| x.name("rk")) == Some(&V::Bool(true));
                Ok((true, Plan::Make { hash, rp, user, alg, rk, uv }))
            }
            0x02 => {
                let rp = v.at(1).and_then(|x| x.s()).ok_or(0x14u8)?.to_string();
                let hash = v.at(2).and_then(|x| x.b()).ok_or(0x14u8)?.to_vec();
                let up = v.at(5).and_then(|x| x.name("up")) != Some(&V::Bool(false));
                let uv = self.auth(v.at(6), v.at(7), &hash, 2, &rp)?;
                if self.always_uv && self.pin.is_some() && !uv && up {
                    return Err(0x36);
                }
                let rph = sha256(rp.as_bytes());
                let list = match v.at(3) {
                    Some(V::A(a)) => a.clone(),
                    _ => vec![],
                };
                if list.is_empty() {
                    // Without a list any credential for the application will do.
                    if let Some(c) = self.creds.iter().find(|c| c.key.app == rp).cloned() {
                        return Ok((up, Plan::Assert { cred: c, rp: rph, hash, up, uv }));
                    }
                }
                for d in list {
                    let h = d.name("id").and_then(|x| x.b()).ok_or(0x14u8)?;
                    if let Some(c) = self.find(&rph, h).cloned() {
                        return Ok((up, Plan::Assert { cred: c, rp: rph, hash, up, uv }));
                    }
                }
                Err(0x2e)
            }
            0x04 => {
                let Kind::Fido2 { v21 } = self.kind else { return Err(1) };
                Ok((false, Plan::Say(self.info(v21).bytes())))
            }
            0x06 => self.client_pin(v).map(|x| (false, Plan::Say(x.bytes()))),
            0x0b => Ok((true, Plan::Say(vec![]))),
            _ => Err(1),
        }
    }
    fn client_pin(&mut self, v: &V) -> Result<V, u8> {
        if !self.pins {
            return Err(1);
        }
        let proto = v.at(1).and_then(|x| x.i());
        match v.at(2).and_then(|x| x.i()).ok_or(0x14u8)? {
            1 => Ok(m(vec![(3, V::I(self.retries as i128))])),
            2 => {
                if self.agree.is_empty() {
                    let r = self.rand(32);
                    self.agree = ec_scalar(Alg::P256, &r);
                }
                let p = ec_public(Alg::P256, &self.agree);
                Ok(m(vec![(1, m(vec![(1, V::I(2)), (3, V::I(-25)), (-1, V::I(1)), (-2, V::B(p[1..33].to_vec())), (-3, V::B(p[33..].to_vec()))]))]))
            }
            n @ (5 | 9) => {
                if n == 9 && !self.puat {
                    return Err(0x3e);
                }
                let proto = proto.ok_or(0x14u8)?;
                if !self.protos.contains(&(proto as u8)) || self.agree.is_empty() {
                    return Err(2);
                }
                let Some(pin) = self.pin.clone() else { return Err(0x35) };
                if self.retries == 0 {
                    return Err(0x32);
                }
                if self.streak >= 3 {
                    return Err(0x34);
                }
                let k = v.at(3).ok_or(0x14u8)?;
                let (x, y) = (k.at(-2).and_then(|x| x.b()).ok_or(0x14u8)?, k.at(-3).and_then(|x| x.b()).ok_or(0x14u8)?);
                let z = ecdh(&self.agree, x, y).ok_or(2u8)?;
                let (mac, aes) = if proto == 1 {
                    let s = sha256(&z);
                    (s.clone(), s)
                } else {
                    (hkdf(&z, b"CTAP2 HMAC key"), hkdf(&z, b"CTAP2 AES key"))
                };
                let _ = mac;
                let enc = v.at(6).and_then(|x| x.b()).ok_or(0x14u8)?;
                let (iv, body) = if proto == 1 { (vec![0; 16], enc) } else { (enc.get(..16).ok_or(2u8)?.to_vec(), &enc[16..]) };
                let dec = cbc(Mode::Decrypt, &aes, &iv, body);
                self.retries -= 1;
                if dec != sha256(pin.as_bytes())[..16] {
                    self.log.push(Ev::WrongPin);
                    self.agree.clear();
                    self.streak += 1;
                    return Err(if self.retries == 0 {
                        0x32
                    } else if self.streak >= 3 {
                        0x34
                    } else {
                        0x31
                    });
                }
                self.log.push(Ev::RightPin);
                self.retries = 8;
                self.streak = 0;
                self.token = self.rand(32);
                (self.token_perm, self.token_rp) = if n == 5 {
                    (3, None)
                } else {
                    (v.at(9).and_then(|x| x.i()).ok_or(0x14u8)? as u8, v.at(10).and_then(|x| x.s()).map(|x| x.to_string()))
                };
                let iv = if proto == 1 { vec![0; 16] } else { self.rand(16) };
                let e = cbc(Mode::Encrypt, &aes, &iv, &self.token);
                Ok(m(vec![(2, V::B(if proto == 1 { e } else { [iv, e].concat() }))]))
            }
            _ => Err(0x3e),
        }
    }
    fn carry_out(&mut self, p: Plan) -> Vec<u8> {
        match p {
            Plan::Fail(s) => vec![s],
            Plan::Say(v) => [vec![0], v].concat(),
            Plan::Assert { cred, rp, hash, up, uv } => {
                let (data, sig) = self.use_key(&cred, &rp, &hash, up, uv);
                let mut f = vec![];
                if !self.terse {
                    f.push((1, V::M(vec![(text("id"), V::B(cred.handle.clone())), (text("type"), text("public-key"))])));
                }
                f.push((2, V::B(data)));
                f.push((3, V::B(sig)));
                [vec![0], m(f).bytes()].concat()
            }
            Plan::Make { hash, rp, user, alg, rk, uv } => {
                let n = match self.max_id {
                    Some(m) => m.min(128),
                    None => [48, 64, 96, 128, 129, 176, 255, 256, 300, 1023][self.rand(1)[0] as usize % 10],
                };
                let handle = self.rand(n);
                let seed = self.rand(32);
                let key = if alg == -8 { Key::ed(Alg::SkEd, &seed, &rp) } else { Key::ec(Alg::SkP256, &seed, &rp) };
                self.creds.push(Cred { handle: handle.clone(), key: key.clone() });
                self.log.push(Ev::Made { rp: rp.clone(), user, handle: handle.clone(), rk, challenge: hash.clone() });
                let cose = if alg == -8 {
                    m(vec![(1, V::I(1)), (3, V::I(-8)), (-1, V::I(6)), (-2, V::B(key.public.clone()))])
                } else {
                    m(vec![(1, V::I(2)), (3, V::I(-7)), (-1, V::I(1)), (-2, V::B(key.public[1..33].to_vec())), (-3, V::B(key.public[33..].to_vec()))])
                };
                let flags = 0x41 | (uv as u8) << 2 | self.att_flags & 0x3a;
                self.counter = self.counter.wrapping_add(1);
                let data = [&sha256(rp.as_bytes())[..], &[flags], &self.counter.to_be_bytes(), &[7; 16], &(n as u16).to_be_bytes(), &handle, &cose.bytes()].concat();
                let (fmt, stmt) = self.attestation(&key, &data, &hash);
                [vec![0], m(vec![(1, text(fmt)), (2, V::B(data)), (3, stmt)]).bytes()].concat()
            }
        }
    }
    fn attestation(&mut self, cred: &Key, data: &[u8], hash: &[u8]) -> (&'static str, V) {
        let seed = self.rand(32);
        let k = Key::ec(Alg::P256, &seed, "");
        let other = Key::ec(Alg::P256, &sha256(&seed), "");
        let root = if self.attest == Attest::OtherRoot { other.clone() } else { root_key() };
        let mut cert = attestation_cert(&k, &root, self.rng.next());
        let (mut d, mut h) = (data.to_vec(), hash.to_vec());
        let mut signer = k.clone();
        let mut alg = -7;
        match self.attest {
            Attest::OtherKey => signer = other,
            Attest::OtherChallenge => h[self.rng.next() as usize % 32] ^= 1 << (self.rng.next() % 8),
            Attest::OtherData => {
                let n = d.len();
                d[self.rng.next() as usize % n] ^= 1 << (self.rng.next() % 8)
            }
            Attest::Altered => {
                let n = cert.len();
                cert[n - 1 - self.rng.next() as usize % 30] ^= 1
            }
            Attest::WrongAlg => alg = *[-8, -37, -257].get(self.rng.next() as usize % 3).unwrap(),
            Attest::None => return ("none", m(vec![])),
            _ => {}
        }
        let msg = [d, h].concat();
        if self.attest == Attest::Own {
            let sig = self.raw_sign(cred, &msg);
            let a = if cred.alg == Alg::SkEd { -8 } else { -7 };
            self.given = Some((data.to_vec(), sig.clone(), vec![]));
            return ("packed", V::M(vec![(text("alg"), V::I(a)), (text("sig"), V::B(sig))]));
        }
        let o = SigOpts { k: self.rng.next(), shape: self.shape, ..SigOpts::default() };
        let sig = der::ecdsa_der(&signer, &msg, &o);
        self.given = Some((data.to_vec(), sig.clone(), cert.clone()));
        let mut chain = vec![V::B(cert)];
        if self.attest == Attest::Chain {
            chain.push(V::B(attestation_cert(&Key::ec(Alg::P256, &sha256(&sig), ""), &root_key(), 5)));
        }
        if self.attest == Attest::U2f {
            return ("fido-u2f", V::M(vec![(text("sig"), V::B(sig)), (text("x5c"), V::A(chain))]));
        }
        ("packed", V::M(vec![(text("alg"), V::I(alg)), (text("sig"), V::B(sig)), (text("x5c"), V::A(chain))]))
    }
}
#[derive(Clone, Debug)]
enum Plan {
    Fail(u8),
    Say(Vec<u8>),
    Assert { cred: Cred, rp: Vec<u8>, hash: Vec<u8>, up: bool, uv: bool },
    Make { hash: Vec<u8>, rp: String, user: Vec<u8>, alg: i128, rk: bool, uv: bool },
}
/// The key of the root this binary is built with.
pub fn root_key() -> Key {
    static K: OnceLock<Key> = OnceLock::new();
    K.get_or_init(|| Key::ec(Alg::P256, &sha256(b"root of the emulated FIDO tokens"), "")).clone()
}
fn cert_of(k: &Key, by: &Key, serial: u64, subject: &str, ca: bool) -> Vec<u8> {
    let b = der::CertB {
        serial: serial.to_be_bytes().to_vec(),
        issuer: vec![("2.5.4.3", "Yubico U2F Root CA Serial 457200631".into())],
        subject: vec![("2.5.4.10", "Yubico AB".into()), ("2.5.4.3", subject.into())],
        from: (false, "140801000000Z".into()),
        to: (true, "20500904000000Z".into()),
        spki: der::spki(k),
        exts: if ca {
            vec![der::Ext::new("2.5.29.19", der::seq(&[vec![1, 1, 0xff]]))]
        } else {
            vec![
                der::Ext::new("1.3.6.1.4.1.41482.13.1", der::octets(&[5, (serial % 7) as u8, (serial % 11) as u8])),
                der::Ext::new("1.3.6.1.4.1.45724.1.1.4", der::octets(&[7; 16])),
                der::Ext::new("1.3.6.1.4.1.45724.2.1.1", vec![3, 2, 4, 0x30]),
            ]
        },
    };
    b.sign(der::SigAlg::Ec256, by, serial).der
}
fn attestation_cert(k: &Key, by: &Key, serial: u64) -> Vec<u8> {
    cert_of(k, by, serial, "Yubico U2F EE Serial 413943488", false)
}
pub fn root_pem() -> String {
    der::pem("CERTIFICATE", &cert_of(&root_key(), &root_key(), 1, "Yubico U2F Root CA Serial 457200631", true))
}

fn hmac(k: &[u8], d: &[u8]) -> Vec<u8> {
    let k = PKey::hmac(k).unwrap();
    Signer::new(openssl::hash::MessageDigest::sha256(), &k).unwrap().sign_oneshot_to_vec(d).unwrap()
}
fn hkdf(z: &[u8], info: &[u8]) -> Vec<u8> {
    hmac(&hmac(&[0; 32], z), &[info, &[1]].concat())
}
fn cbc(mode: Mode, key: &[u8], iv: &[u8], data: &[u8]) -> Vec<u8> {
    let mut c = Crypter::new(Cipher::aes_256_cbc(), mode, key, Some(iv)).unwrap();
    c.pad(false);
    let mut out = vec![0; data.len() + 16];
    let Ok(mut n) = c.update(data, &mut out) else { return vec![] };
    let Ok(k) = c.finalize(&mut out[n..]) else { return vec![] };
    n += k;
    out.truncate(n);
    out
}
fn ecdh(secret: &[u8], x: &[u8], y: &[u8]) -> Option<Vec<u8>> {
    let g = EcGroup::from_curve_name(Nid::X9_62_PRIME256V1).ok()?;
    let mut c = BigNumContext::new().ok()?;
    let p = EcPoint::from_bytes(&g, &[&[4], x, y].concat(), &mut c).ok()?;
    let theirs = PKey::from_ec_key(EcKey::from_public_key(&g, &p).ok()?).ok()?;
    let q = EcPoint::from_bytes(&g, &ec_public(Alg::P256, secret), &mut c).ok()?;
    let n = BigNum::from_slice(secret).ok()?;
    let mine = PKey::from_ec_key(EcKey::from_private_components(&g, &n, &q).ok()?).ok()?;
    let mut d = Deriver::new(&mine).ok()?;
    d.set_peer(&theirs).ok()?;
    d.derive_to_vec().ok()
}

// ---------------------------------------------------------------- the wire

pub struct Bus {
    pub toks: Mutex<Vec<Tok>>,
    /// Devices to announce, and the descriptor that becomes readable when there are some.
    events: Mutex<Vec<usize>>,
    wake: AtomicI32,
}
impl Bus {
    pub fn new(toks: Vec<Tok>) -> Arc<Bus> {
        let events = toks.iter().enumerate().filter(|x| x.1.late).map(|x| x.0).collect();
        let wake = unsafe { libc::eventfd(0, libc::EFD_NONBLOCK | libc::EFD_CLOEXEC) };
        let b = Arc::new(Bus { toks: Mutex::new(toks), events: Mutex::new(events), wake: AtomicI32::new(wake) });
        if !b.events.lock().unwrap().is_empty() {
            b.poke();
        }
        b
    }
    /// Wakes the code waiting for new devices.
    fn poke(&self) {
        let one = 1u64.to_ne_bytes();
        unsafe { libc::syscall(libc::SYS_write, self.wake.load(Ordering::Relaxed), one.as_ptr(), 8usize) };
    }
    fn lock(&self) -> std::sync::MutexGuard<'_, Vec<Tok>> {
        self.toks.lock().unwrap_or_else(|e| e.into_inner())
    }
}
impl Drop for Bus {
    fn drop(&mut self) {
        unsafe { libc::close(self.wake.load(Ordering::Relaxed)) };
    }
}
thread_local! {
    static BUS: RefCell<Option<Arc<Bus>>> = const { RefCell::new(None) };
}
pub fn current() -> Option<Arc<Bus>> {
    BUS.try_with(|b| b.try_borrow().ok().and_then(|x| x.clone())).ok().flatten()
}
pub fn set(b: Option<Arc<Bus>>) {
    BUS.with(|x| *x.borrow_mut() = b);
}

struct Wire {
    fd: c_int,
    cid: [u8; 4],
    bus: Arc<Bus>,
    n: usize,
    noise: bool,
}
enum Got {
    Msg([u8; 4], u8, Vec<u8>),
    Nothing,
    End,
}
impl Wire {
    fn packet(&self, wait_ms: c_int) -> Option<Option<[u8; 65]>> {
        let mut p = libc::pollfd { fd: self.fd, events: libc::POLLIN, revents: 0 };
        let r = unsafe { libc::poll(&mut p, 1, wait_ms) };
        if r == 0 {
            return Some(None);
        }
        let mut b = [0u8; 65];
        let n = unsafe { libc::syscall(libc::SYS_read, self.fd, b.as_mut_ptr(), 65usize) };
        if n != 65 {
            return None;
        }
        Some(Some(b))
    }
    fn read(&self, wait_ms: c_int) -> Got {
        let b = match self.packet(wait_ms) {
            None => return Got::End,
            Some(None) => return Got::Nothing,
            Some(Some(b)) => b,
        };
        let cid: [u8; 4] = b[1..5].try_into().unwrap();
        let len = (b[6] as usize) << 8 | b[7] as usize;
        let mut d = b[8..8 + len.min(57)].to_vec();
        while d.len() < len {
            match self.packet(2000) {
                Some(Some(c)) if c[1..5] == cid => d.extend(&c[6..6 + (len - d.len()).min(59)]),
                _ => return Got::End,
            }
        }
        Got::Msg(cid, b[5], d)
    }
    fn send(&self, p: &[u8; 64]) {
        unsafe { libc::syscall(libc::SYS_sendto, self.fd, p.as_ptr(), 64usize, libc::MSG_NOSIGNAL, 0usize, 0usize) };
    }
    fn write(&self, cid: [u8; 4], cmd: u8, d: &[u8]) {
        if self.noise {
            let mut p = [0x5au8; 64];
            p[..4].copy_from_slice(&[cid[0] ^ 1, cid[1], cid[2], cid[3]]);
            p[4] = cmd;
            self.send(&p);
        }
        let mut p = [0u8; 64];
        p[..4].copy_from_slice(&cid);
        p[4] = cmd;
        p[5] = (d.len() >> 8) as u8;
        p[6] = d.len() as u8;
        let k = d.len().min(57);
        p[7..7 + k].copy_from_slice(&d[..k]);
        self.send(&p);
        for (i, c) in d[k..].chunks(59).enumerate() {
            if self.noise && i % 2 == 0 {
                let mut q = [0xa5u8; 64];
                q[..4].copy_from_slice(&[0xff; 4]);
                self.send(&q);
            }
            let mut p = [0u8; 64];
            p[..4].copy_from_slice(&cid);
            p[4] = i as u8;
            p[5..5 + c.len()].copy_from_slice(c);
            self.send(&p);
        }
    }
    fn tok<T>(&self, f: impl FnOnce(&mut Tok) -> T) -> T {
        f(&mut self.bus.lock()[self.n])
    }
    /// Waits for the touch; false when the host gave up.
    fn touched(&self) -> Result<bool, ()> {
        let mut left = self.tok(|t| t.touch);
        loop {
            if left == Some(0) {
                self.tok(|t| t.log.push(Ev::Touched));
                return Ok(true);
            }
            self.write(self.cid, 0xbb, &[2]);
            match self.read(if left.is_some() { 1 } else { 10 }) {
                Got::End => return Err(()),
                Got::Msg(c, 0x91, _) if c == self.cid => return Ok(false),
                _ => {}
            }
            left = left.map(|x| x - 1);
        }
    }
    fn serve(&mut self) {
        loop {
            let (cid, cmd, d) = match self.read(-1) {
                Got::Msg(c, k, d) => (c, k, d),
                _ => return,
            };
            if cmd == 0x86 {
                if self.tok(|t| t.kind) == Kind::Mute {
                    self.write(cid, 0xbf, &[1]);
                    continue;
                }
                let caps = match self.tok(|t| t.kind) {
                    Kind::U2f => 1,
                    _ => 5,
                };
                let mut r = d.clone();
                r.extend(self.cid);
                r.extend([2, 5, 4, 3, caps]);
                self.write(cid, 0x86, &r);
                continue;
            }
            if cid != self.cid {
                self.write(cid, 0xbf, &[0x0b]);
                continue;
            }
            match cmd {
                0x90 if !d.is_empty() && self.tok(|t| t.kind) != Kind::U2f => {
                    let v = if d.len() > 1 { V::parse(&d[1..]) } else { Some(V::M(vec![])) };
                    let Some(v) = v else {
                        self.write(cid, 0x90, &[0x12]);
                        continue;
                    };
                    let dummy = d[0] == 1 && v.at(8).and_then(|x| x.b()).is_some_and(|x| x.is_empty());
                    let counted = !matches!(d[0], 0x04 | 0x0b) && !dummy;
                    let fault = self.strike(counted);
                    match fault {
                        Some(Fault::Gone) => return,
                        Some(Fault::Status(s)) => {
                            self.write(cid, 0x90, &[s]);
                            continue;
                        }
                        Some(Fault::Hid(s)) => {
                            self.write(cid, 0xbf, &[s]);
                            continue;
                        }
                        _ => {}
                    }
                    let mut ans = match self.tok(|t| t.plan(d[0], &v)) {
                        Err(s) => vec![s],
                        Ok((true, p)) => match self.touched() {
                            Err(()) => return,
                            Ok(false) => vec![0x2d],
                            Ok(true) => self.tok(|t| t.carry_out(p)),
                        },
                        Ok((false, p)) => self.tok(|t| t.carry_out(p)),
                    };
                    match fault {
                        Some(Fault::GoneAfter) => return,
                        Some(Fault::LateStatus(s)) => ans = vec![s],
                        Some(Fault::Cut(k)) => ans.truncate(1 + k as usize % ans.len().max(2)),
                        Some(Fault::Garbage(k)) => ans = [vec![0], self.tok(|t| t.rand(k as usize))].concat(),
                        _ => {}
                    }
                    self.write(cid, 0x90, &ans);
                    if counted {
                        self.bus.poke();
                    }
                }
                0x83 => {
                    let ans = self.u2f(&d);
                    match ans {
                        None => return,
                        Some(a) => self.write(cid, 0x83, &a),
                    }
                    self.bus.poke();
                }
                0x91 => {}
                _ => self.write(cid, 0xbf, &[1]),
            }
        }
    }
    fn strike(&self, counted: bool) -> Option<Fault> {
        if !counted {
            return None;
        }
        self.tok(|t| {
            t.count += 1;
            match t.fault {
                Some((at, f)) if at + 1 == t.count => {
                    t.struck = true;
                    Some(f)
                }
                _ => None,
            }
        })
    }
    /// A U2F message; none when the token is pulled.
    fn u2f(&self, d: &[u8]) -> Option<Vec<u8>> {
        if d.len() < 7 {
            return Some(vec![0x67, 0]);
        }
        let (ins, p1) = (d[1], d[2]);
        let len = (d[5] as usize) << 8 | d[6] as usize;
        let data = d.get(7..7 + len).unwrap_or(&[]).to_vec();
        if ins == 3 {
            return Some(b"U2F_V2\x90\x00".to_vec());
        }
        // Being asked again for a touch does not count.
        let wait = |w: &Wire| {
            w.tok(|t| match t.touch {
                Some(0) => {
                    t.log.push(Ev::Touched);
                    true
                }
                Some(n) => {
                    t.touch = Some(n.min(2) - 1);
                    false
                }
                None => false,
            })
        };
        match ins {
            1 if data.len() == 64 => {
                if !wait(self) {
                    return Some(vec![0x69, 0x85]);
                }
                let (kh, seed) = self.tok(|t| (t.rand(64), t.rand(32)));
                let k = Key::ec(Alg::P256, &seed, "");
                let by = Key::ec(Alg::P256, &sha256(&seed), "");
                let cert = attestation_cert(&by, &root_key(), 3);
                let sig = der::ecdsa_der(&by, &[&[0][..], &data[32..], &data[..32], &kh, &k.public].concat(), &SigOpts::default());
                Some([&[5][..], &k.public, &[64], &kh, &cert, &sig, &[0x90, 0]].concat())
            }
            2 if data.len() > 64 && data.len() == 65 + data[64] as usize => {
                let (hash, rp, kh) = (&data[..32], &data[32..64], &data[65..]);
                match self.strike(true) {
                    Some(Fault::Gone | Fault::GoneAfter) => return None,
                    Some(_) => return Some(vec![0x6f, 0]),
                    None => {}
                }
                let Some(c) = self.tok(|t| t.find(rp, kh).cloned()) else { return Some(vec![0x6a, 0x80]) };
                match p1 {
                    7 => Some(vec![0x69, 0x85]),
                    3 => {
                        if !wait(self) {
                            return Some(vec![0x69, 0x85]);
                        }
                        let (d, sig) = self.tok(|t| t.use_key(&c, rp, hash, true, false));
                        Some([&d[32..], &sig, &[0x90, 0]].concat())
                    }
                    8 => {
                        let (d, sig) = self.tok(|t| t.use_key(&c, rp, hash, false, false));
                        Some([&d[32..], &sig, &[0x90, 0]].concat())
                    }
                    _ => Some(vec![0x6a, 0x86]),
                }
            }
            _ => Some(vec![0x6d, 0]),
        }
    }
}

// ---------------------------------------------------------------- system calls

pub const PREFIX: &str = "/dev/verif-hidraw";
static HID: [AtomicBool; 4096] = [const { AtomicBool::new(false) }; 4096];
fn is_hid(fd: c_int) -> bool {
    (0..4096).contains(&fd) && HID[fd as usize].load(Ordering::Relaxed)
}
/// Kinds of the devices behind the descriptors.
static KEYBOARD: [AtomicBool; 4096] = [const { AtomicBool::new(false) }; 4096];

pub fn errno(e: c_int) -> c_int {
    unsafe { *libc::__errno_location() = e };
    -1
}

pub fn open_hid(n: usize) -> c_int {
    let Some(bus) = current() else { return errno(libc::ENODEV) };
    let (kind, noise, r) = {
        let mut t = bus.lock();
        let Some(t) = t.get_mut(n) else { return errno(libc::ENODEV) };
        (t.kind, t.noise, t.rng.next())
    };
    if kind == Kind::Locked {
        return errno(libc::EACCES);
    }
    let mut p = [0 as c_int; 2];
    if unsafe { libc::socketpair(libc::AF_UNIX, libc::SOCK_SEQPACKET | libc::SOCK_CLOEXEC, 0, p.as_mut_ptr()) } != 0 {
        return -1;
    }
    if p[0] >= 4096 {
        unsafe { libc::close(p[0]) };
        unsafe { libc::close(p[1]) };
        return errno(libc::EMFILE);
    }
    HID[p[0] as usize].store(true, Ordering::Relaxed);
    KEYBOARD[p[0] as usize].store(kind == Kind::Keyboard, Ordering::Relaxed);
    let cid = [(r >> 8) as u8 & 0x7f, (r >> 16) as u8, (r >> 24) as u8, r as u8 | 1];
    let fd = p[1];
    std::thread::spawn(move || {
        let mut w = Wire { fd, cid, bus, n, noise };
        w.serve();
        unsafe { libc::close(fd) };
    });
    p[0]
}

fn descriptor(fd: c_int) -> &'static [u8] {
    report_descriptor(KEYBOARD[fd as usize].load(Ordering::Relaxed))
}
pub fn report_descriptor(keyboard: bool) -> &'static [u8] {
    if keyboard {
        return &[0x05, 0x01, 0x09, 0x06, 0xa1, 0x01, 0x75, 0x08, 0x95, 0x08, 0x81, 0x02, 0xc0];
    }
    &[
        0x06, 0xd0, 0xf1, 0x09, 0x01, 0xa1, 0x01, 0x09, 0x20, 0x15, 0x00, 0x26, 0xff, 0x00, 0x75, 0x08, 0x95, 0x40, 0x81, 0x02, 0x09, 0x21, 0x15, 0x00, 0x26, 0xff, 0x00, 0x75, 0x08,
        0x95, 0x40, 0x91, 0x02, 0xc0,
    ]
}

/// # Safety
/// As open(2).
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    let p = CStr::from_ptr(path);
    if let Some(n) = p.to_str().ok().and_then(|x| x.strip_prefix(PREFIX)).and_then(|x| x.parse::<usize>().ok()) {
        return open_hid(n);
    }
    libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode) as c_int
}
/// # Safety
/// As ioctl(2).
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: u64, arg: *mut c_void) -> c_int {
    if is_hid(fd) {
        let d = descriptor(fd);
        match req & 0xffff {
            0x4801 => *(arg as *mut c_int) = d.len() as c_int,
            0x4802 => std::ptr::copy_nonoverlapping(d.as_ptr(), (arg as *mut u8).add(4), d.len()),
            _ => return errno(libc::ENOTTY),
        }
        return 0;
    }
    libc::syscall(libc::SYS_ioctl, fd, req, arg) as c_int
}
/// # Safety
/// As read(2).
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    let r = libc::syscall(libc::SYS_read, fd, buf, n) as isize;
    // A pulled device.
    if r == 0 && n > 0 && is_hid(fd) {
        return errno(libc::EIO) as isize;
    }
    r
}
/// # Safety
/// As write(2).
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    // What the code under test prints is of no interest.
    if fd == 1 && current().is_some() {
        return n as isize;
    }
    libc::syscall(libc::SYS_write, fd, buf, n) as isize
}
/// # Safety
/// As close(2).
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if is_hid(fd) {
        HID[fd as usize].store(false, Ordering::Relaxed);
    }
    libc::syscall(libc::SYS_close, fd) as c_int
}

type Start = extern "C" fn(*mut c_void) -> *mut c_void;
struct Boot(Start, *mut c_void, Arc<Bus>);
extern "C" fn boot(p: *mut c_void) -> *mut c_void {
    let b = unsafe { Box::from_raw(p as *mut Boot) };
    let Boot(f, a, bus) = *b;
    set(Some(bus));
    let r = f(a);
    let _ = BUS.try_with(|x| x.borrow_mut().take());
    r
}
/// # Safety
/// As pthread_create(3).
#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut libc::pthread_t, attr: *const libc::pthread_attr_t, f: Start, arg: *mut c_void) -> c_int {
    type Real = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, Start, *mut c_void) -> c_int;
    static REAL: OnceLock<usize> = OnceLock::new();
    let real = *REAL.get_or_init(|| libc::dlsym(libc::RTLD_NEXT, c"pthread_create".as_ptr()) as usize);
    let real: Real = std::mem::transmute(real);
    match current() {
        None => real(t, attr, f, arg),
        Some(b) => {
            let p = Box::into_raw(Box::new(Boot(f, arg, b)));
            let r = real(t, attr, boot, p as *mut c_void);
            if r != 0 {
                drop(Box::from_raw(p));
            }
            r
        }
    }
}

// ---------------------------------------------------------------- libudev

pub struct Entry {
    name: CString,
    next: *mut Entry,
}
pub struct Enumerate {
    entries: Vec<Box<Entry>>,
}
pub struct Device {
    sys: CString,
    node: CString,
    action: CString,
    attrs: BTreeMap<Vec<u8>, CString>,
}
pub fn device(n: usize, action: &str) -> *mut Device {
    let c = |s: String| CString::new(s).unwrap();
    let mut attrs: BTreeMap<Vec<u8>, CString> = [(b"Manufacturer".to_vec(), c("Yubico".into())), (b"Product".to_vec(), c(format!("Token {n}")))].into();
    attrs.insert(b"uevent".to_vec(), c(format!("DRIVER=hid-generic\nHID_ID=0003:00001050:0000{:04X}\nHID_NAME=a device\nHID_PHYS=usb-1\nHID_UNIQ={n}\n", 0x402 + n)));
    attrs.insert(b"manufacturer".to_vec(), c("Yubico".into()));
    if let Some(p) = current().and_then(|b| b.lock().get(n).and_then(|t| t.product.clone())) {
        attrs.insert(b"product".to_vec(), c(p));
    }
    Box::into_raw(Box::new(Device {
        sys: c(format!("/sys/verif/hidraw{n}")),
        node: c(format!("{PREFIX}{n}")),
        action: c(action.into()),
        attrs,
    }))
}
static UDEV: u8 = 0;
#[no_mangle]
pub extern "C" fn udev_new() -> *mut c_void {
    &UDEV as *const u8 as *mut c_void
}
#[no_mangle]
pub extern "C" fn udev_ref(u: *mut c_void) -> *mut c_void {
    u
}
#[no_mangle]
pub extern "C" fn udev_unref(_: *mut c_void) -> *mut c_void {
    std::ptr::null_mut()
}
#[no_mangle]
pub extern "C" fn udev_enumerate_new(_: *mut c_void) -> *mut Enumerate {
    Box::into_raw(Box::new(Enumerate { entries: vec![] }))
}
/// # Safety
/// As in libudev.
#[no_mangle]
pub unsafe extern "C" fn udev_enumerate_unref(e: *mut Enumerate) -> *mut Enumerate {
    drop(Box::from_raw(e));
    std::ptr::null_mut()
}
#[no_mangle]
pub extern "C" fn udev_enumerate_add_match_subsystem(_: *mut Enumerate, _: *const c_char) -> c_int {
    0
}
/// # Safety
/// As in libudev.
#[no_mangle]
pub unsafe extern "C" fn udev_enumerate_scan_devices(e: *mut Enumerate) -> c_int {
    let Some(bus) = current() else { return 0 };
    let present: Vec<usize> = {
        let ev = bus.events.lock().unwrap();
        (0..bus.lock().len()).filter(|n| !ev.contains(n)).collect()
    };
    let e = &mut *e;
    e.entries = present.iter().map(|n| Box::new(Entry { name: CString::new(format!("/sys/verif/hidraw{n}")).unwrap(), next: std::ptr::null_mut() })).collect();
    for i in (1..e.entries.len()).rev() {
        let p: *mut Entry = &mut *e.entries[i];
        e.entries[i - 1].next = p;
    }
    0
}
/// # Safety
/// As in libudev.
#[no_mangle]
pub unsafe extern "C" fn udev_enumerate_get_list_entry(e: *mut Enumerate) -> *mut Entry {
    match (&mut *e).entries.first_mut() {
        Some(x) => &mut **x,
        None => std::ptr::null_mut(),
    }
}
/// # Safety
/// As in libudev.
#[no_mangle]
pub unsafe extern "C" fn udev_list_entry_get_name(e: *mut Entry) -> *const c_char {
    (*e).name.as_ptr()
}
/// # Safety
/// As in libudev.
#[no_mangle]
pub unsafe extern "C" fn udev_list_entry_get_next(e: *mut Entry) -> *mut Entry {
    (*e).next
}
/// # Safety
/// As in libudev.
#[no_mangle]
pub unsafe extern "C" fn udev_device_new_from_syspath(_: *mut c_void, p: *const c_char) -> *mut Device {
    match CStr::from_ptr(p).to_str().ok().and_then(|x| x.strip_prefix("/sys/verif/hidraw")).and_then(|x| x.parse().ok()) {
        Some(n) => device(n, ""),
        None => std::ptr::null_mut(),
    }
}
/// # Safety
/// As in libudev.
#[no_mangle]
pub unsafe extern "C" fn udev_device_unref(d: *mut Device) -> *mut Device {
    drop(Box::from_raw(d));
    std::ptr::null_mut()
}
/// # Safety
/// As in libudev.
#[no_mangle]
pub unsafe extern "C" fn udev_device_get_devnode(d: *mut Device) -> *const c_char {
    (*d).node.as_ptr()
}
/// # Safety
/// As in libudev.
#[no_mangle]
pub unsafe extern "C" fn udev_device_get_syspath(d: *mut Device) -> *const c_char {
    (*d).sys.as_ptr()
}
/// # Safety
/// As in libudev.
#[no_mangle]
pub unsafe extern "C" fn udev_device_get_action(d: *mut Device) -> *const c_char {
    (*d).action.as_ptr()
}
/// # Safety
/// As in libudev.
#[no_mangle]
pub unsafe extern "C" fn udev_device_get_sysattr_value(d: *mut Device, a: *const c_char) -> *const c_char {
    match (&(*d).attrs).get(CStr::from_ptr(a).to_bytes()) {
        Some(v) => v.as_ptr(),
        None => std::ptr::null(),
    }
}
/// # Safety
/// As in libudev.
#[no_mangle]
pub unsafe extern "C" fn udev_device_get_property_value(d: *mut Device, a: *const c_char) -> *const c_char {
    if CStr::from_ptr(a).to_bytes() == b"ACTION" && !(*d).action.is_empty() {
        return (*d).action.as_ptr();
    }
    std::ptr::null()
}
#[no_mangle]
pub extern "C" fn udev_monitor_new_from_netlink(u: *mut c_void, _: *const c_char) -> *mut c_void {
    u
}
#[no_mangle]
pub extern "C" fn udev_monitor_unref(_: *mut c_void) -> *mut c_void {
    std::ptr::null_mut()
}
#[no_mangle]
pub extern "C" fn udev_monitor_filter_add_match_subsystem_devtype(_: *mut c_void, _: *const c_char, _: *const c_char) -> c_int {
    0
}
#[no_mangle]
pub extern "C" fn udev_monitor_enable_receiving(_: *mut c_void) -> c_int {
    0
}
#[no_mangle]
pub extern "C" fn udev_monitor_get_fd(_: *mut c_void) -> c_int {
    match current() {
        Some(b) => b.wake.load(Ordering::Relaxed),
        None => -1,
    }
}
#[no_mangle]
pub extern "C" fn udev_monitor_receive_device(_: *mut c_void) -> *mut Device {
    let Some(b) = current() else { return std::ptr::null_mut() };
    let mut ev = b.events.lock().unwrap();
    match ev.pop() {
        Some(n) => device(n, "add"),
        None => {
            std::thread::sleep(std::time::Duration::from_micros(300));
            std::ptr::null_mut()
        }
    }
}
pub fn link() -> c_long {
    udev_new() as c_long & 1
}

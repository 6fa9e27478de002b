//! C25, C26: FIDO authenticator data and attestations.

use super::common::*;
use super::x509::{flip, other_key, unreadable_root, PIV_ROOT, U2F_ROOT};
use crate::crypto::*;
use crate::der::*;
use crate::engine::*;
use crate::gen::*;
use sshcerts::fido::verification::{verify_auth_data, Transport, ValidAttestation};
use sshcerts::fido::AuthData;

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C25",
            rule: "Authenticator data is assembled from generated fields and an independent CBOR encoding of the credential key with its members in generated order (optionally followed by an extension map); every field, the derived SSH key and a signature by the emulated token under that key must come out right. Truncated data, data without credential, unsupported algorithms and malformed key maps (25 kinds) must be refused at parsing or at the derivation of the key. Non-trivial: every case; distinct by authenticator data.",
            facets: vec![facet("parse", 160000, 2000000, c25_parse), facet("refuse", 360000, 2500000, c25_refuse), facet("damaged", 600000, 5000000, c25_damaged)],
        },
        Property {
            id: "C26",
            rule: "Attestations are made with generated credential, attestation key and certificate extensions under generated roots of every algorithm; the result must hold exactly the authenticator data and certificate values. Each is also broken in one of 20 ways (alteration of data, challenge, signature, certificate or root, foreign signers, algorithms), which must give an error; recorded YubiKey attestations are treated alike under the default root. Non-trivial: every case; distinct by inputs.",
            facets: vec![facet("intact", 7500, 240000, c26_intact), facet("broken", 12000, 450000, c26_broken), facet("recorded", 15000, 200000, c26_recorded)],
        },
    ]
}

// ------------------------------------------------------------------ CBOR

fn head(major: u8, v: u64) -> Vec<u8> {
    let m = major << 5;
    match v {
        0..=23 => vec![m | v as u8],
        24..=0xff => vec![m | 24, v as u8],
        0x100..=0xffff => [vec![m | 25], (v as u16).to_be_bytes().to_vec()].concat(),
        0x1_0000..=0xffff_ffff => [vec![m | 26], (v as u32).to_be_bytes().to_vec()].concat(),
        _ => [vec![m | 27], v.to_be_bytes().to_vec()].concat(),
    }
}
fn cint(v: i64) -> Vec<u8> {
    if v >= 0 {
        head(0, v as u64)
    } else {
        head(1, (-1 - v) as u64)
    }
}
fn cbytes(b: &[u8]) -> Vec<u8> {
    [head(2, b.len() as u64), b.to_vec()].concat()
}
type Members = Vec<(Vec<u8>, Vec<u8>)>;
fn cmap(m: &Members) -> Vec<u8> {
    let mut v = head(5, m.len() as u64);
    for (k, x) in m {
        v.extend_from_slice(k);
        v.extend_from_slice(x);
    }
    v
}
fn members(key: &Key) -> Members {
    match key.alg {
        Alg::SkEd => vec![(cint(1), cint(1)), (cint(3), cint(-8)), (cint(-1), cint(6)), (cint(-2), cbytes(&key.public))],
        _ => vec![
            (cint(1), cint(2)),
            (cint(3), cint(-7)),
            (cint(-1), cint(1)),
            (cint(-2), cbytes(&key.public[1..33])),
            (cint(-3), cbytes(&key.public[33..])),
        ],
    }
}
fn shuffle<T>(s: &mut Src, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        let j = s.below(i + 1);
        v.swap(i, j);
    }
}

struct Auth {
    key: Key,
    flags: u8,
    counter: u32,
    aaguid: Vec<u8>,
    cred: Vec<u8>,
    map: Vec<u8>,
    tail: Vec<u8>,
}
impl Auth {
    fn gen(s: &mut Src) -> Auth {
        let a = *s.pick(&[Alg::SkEd, Alg::SkP256]);
        let mut key = key_of(s, a);
        if key.app.is_empty() {
            key.app = "ssh:".into();
        }
        let mut m = members(&key);
        if s.chance(180) {
            shuffle(s, &mut m);
        }
        let mut flags = s.byte() | 0x40;
        let tail = if s.chance(60) {
            flags |= 0x80;
            cmap(&vec![([&[0x6b][..], b"hmac-secret"].concat(), vec![0xf5])])
        } else {
            flags &= 0x7f;
            vec![]
        };
        let n = match s.weighted(&[4, 2, 1, 1]) {
            0 => 64,
            1 => s.below(300),
            2 => 0,
            _ => s.below(65536),
        };
        Auth { key, flags, counter: s.u32(), aaguid: s.bytes(16), cred: s.blob(n), map: cmap(&m), tail }
    }
    fn head(&self) -> Vec<u8> {
        [&sha256(self.key.app.as_bytes())[..], &[self.flags], &self.counter.to_be_bytes(), &self.aaguid, &(self.cred.len() as u16).to_be_bytes(), &self.cred].concat()
    }
    fn bytes(&self) -> Vec<u8> {
        [self.head(), self.map.clone(), self.tail.clone()].concat()
    }
    fn judge(&self, d: &AuthData) -> PResult {
        ensure!(d.rpid_hash == sha256(self.key.app.as_bytes()), "rpid", "relying party hash {}", hex(&d.rpid_hash));
        ensure!(d.flags == self.flags, "flags", "flags {:#x} instead of {:#x}", d.flags, self.flags);
        ensure!(d.sign_count == self.counter, "counter", "counter {} instead of {}", d.sign_count, self.counter);
        ensure!(d.aaguid == self.aaguid, "aaguid", "AAGUID {} instead of {}", hex(&d.aaguid), hex(&self.aaguid));
        ensure!(d.credential_id == self.cred, "credential", "credential id {} instead of {}", hex(&d.credential_id), hex(&self.cred));
        ensure!(d.user_presence() == (self.flags & 1 == 1), "presence", "user presence {} with flags {:#x}", d.user_presence(), self.flags);
        ensure!(d.user_verification() == (self.flags & 4 == 4), "verification", "user verification {} with flags {:#x}", d.user_verification(), self.flags);
        let (kty, alg, crv) = if self.key.alg == Alg::SkEd { (1, -8, "6") } else { (2, -7, "1") };
        ensure!(d.cose_key.key_type == kty && d.cose_key.algorithm == alg, "cose", "key type {} algorithm {}", d.cose_key.key_type, d.cose_key.algorithm);
        ensure!(d.cose_key.key == self.key.public, "key", "key {} instead of {}", hex(&d.cose_key.key), hex(&self.key.public));
        ensure!(d.cose_key.parameters.get(&-1).map(|x| x.as_str()) == Some(crv) && d.cose_key.parameters.len() == 1, "parameters", "parameters {:?}", d.cose_key.parameters);
        let k = match guarded(|| d.ssh_public_key(&self.key.app)) {
            Ok(Ok(k)) => k,
            Ok(Err(e)) => return fail("no-key", format!("no SSH key for {}: {e}", self.key.alg.plain())),
            Err(m) => return fail("panic", m),
        };
        if let Err(m) = same_pub(&k, &refpub(&self.key)) {
            return fail("ssh-key", m);
        }
        ensure!(k.encode() == self.key.blob(), "ssh-blob", "the SSH key encodes to {} instead of {}", hex(&k.encode()), hex(&self.key.blob()));
        Ok(())
    }
}
fn parse(b: &[u8]) -> Result<Result<AuthData, sshcerts::error::Error>, Fail> {
    guarded(|| AuthData::parse(b)).map_err(|m| Fail { kind: "panic".into(), msg: format!("AuthData::parse panicked: {m}; {}", hex(b)) })
}

/// An integer in one of the longer forms of CBOR, which CTAP2 does not use
/// and a reader may therefore refuse, but not read as another number.
fn cint_wide(s: &mut Src, v: i64) -> Vec<u8> {
    let (m, n) = if v < 0 { (0x20, (-1 - v) as u64) } else { (0, v as u64) };
    match s.below(4) {
        0 => vec![m | 24, n as u8],
        1 => [vec![m | 25], (n as u16).to_be_bytes().to_vec()].concat(),
        2 => [vec![m | 26], (n as u32).to_be_bytes().to_vec()].concat(),
        _ => [vec![m | 27], n.to_be_bytes().to_vec()].concat(),
    }
}

fn c25_parse(s: &mut Src, c: &mut Ctx) -> PResult {
    let mut a = Auth::gen(s);
    let wide = s.chance(24);
    if wide {
        c.class("long integers");
        let mut m = members(&a.key);
        for (i, (k, v)) in m.iter_mut().enumerate() {
            if s.bool() {
                *k = cint_wide(s, [1, 3, -1, -2, -3][i]);
            }
            if i < 3 && s.bool() {
                *v = cint_wide(s, if a.key.alg == Alg::SkEd { [1, -8, 6] } else { [2, -7, 1] }[i]);
            }
        }
        a.map = cmap(&m);
    }
    let b = a.bytes();
    c.class(a.key.alg.plain());
    c.nontrivial(&b);
    c.desc(|| format!("{} credential of {} bytes, flags {:#x}, counter {}, map {}", a.key.alg.plain(), a.cred.len(), a.flags, a.counter, hex(&a.map)));
    let d = match parse(&b)? {
        Ok(d) => d,
        Err(_) if wide => return Ok(()),
        Err(e) => return fail("rejected", format!("well-formed authenticator data rejected: {e}; {}", hex(&b))),
    };
    a.judge(&d)?;
    // What the token signs verifies under the derived key.
    if s.chance(48) {
        c.class("signature checked");
        let o = SigOpts::gen(s);
        let msg = s.bytes(9);
        let mut f = super::sigs::make(&a.key, "file", "sha512", &msg, &o);
        f.blob = d.ssh_public_key(&a.key.app).unwrap().encode().to_vec();
        let text = super::sigs::sig_armor(&f.bytes());
        let parsed = sshcerts::ssh::SshSignature::from_armored_string(&text);
        let ok = parsed.map(|p| sshcerts::ssh::VerifiedSshSignature::from_ssh_signature(&msg, p, "file", None).is_ok()).unwrap_or(false);
        ensure!(ok, "signature", "a signature by the credential does not verify under the derived key; {text}");
    }
    Ok(())
}

fn c25_refuse(s: &mut Src, c: &mut Ctx) -> PResult {
    let mut a = Auth::gen(s);
    a.tail.clear();
    let ed = a.key.alg == Alg::SkEd;
    let mut m = members(&a.key);
    let junk = |s: &mut Src| -> Vec<u8> {
        match s.below(6) {
            0 => vec![0x60],
            1 => vec![0xf6],
            2 => vec![0xf5],
            3 => vec![0xa0],
            4 => vec![0x80],
            _ => vec![0xfb, 0x3f, 0xf0, 0, 0, 0, 0, 0, 0],
        }
    };
    let at = |m: &Members, k: i64| m.iter().position(|x| x.0 == cint(k)).unwrap();
    let what = match s.below(16) {
        0 => {
            a.flags &= !0x40;
            "no credential flag"
        }
        1 => {
            let b = a.bytes();
            let n = s.below(b.len());
            c.class("truncated");
            return refused(s, c, "truncated", &a, b[..n].to_vec());
        }
        2 => {
            let i = at(&m, -2);
            m.remove(i);
            "no x coordinate"
        }
        3 => {
            if ed {
                let n = 32;
                m.push((cint(-3), cbytes(&s.blob(n))));
                "y coordinate on an Ed25519 key"
            } else {
                let i = at(&m, -3);
                m.remove(i);
                "no y coordinate"
            }
        }
        4 => {
            let i = at(&m, 3);
            m.remove(i);
            "no algorithm"
        }
        5 => {
            let i = at(&m, 1);
            m.remove(i);
            "no key type"
        }
        6 => {
            let i = at(&m, 3);
            let a = match s.below(3) {
                0 => *s.pick(&[-35, -36, -257, -37, 0, 7, 8, -9, -6, -19, -50, -65535, -47, 1 << 40]),
                1 => s.below(600) as i64 - 300,
                _ => known_number(s, 3, 1 << 40).unwrap_or(9) as i64 * if s.bool() { 1 } else { -1 },
            };
            m[i].1 = cint(if a == -7 || a == -8 { -9 } else { a });
            "other algorithm"
        }
        7 => {
            let i = at(&m, 3);
            m[i].1 = cint(if ed { -7 } else { -8 });
            "algorithm of the other key type"
        }
        8 => {
            let i = at(&m, 1);
            let t = if s.bool() { *s.pick(&[0, 3, 4, 5, -1, 258]) } else { s.below(600) as i64 - 300 };
            m[i].1 = cint(if t == 1 || t == 2 { 3 } else { t });
            "other key type"
        }
        9 => {
            let i = at(&m, 1);
            m[i].1 = cint(if ed { 2 } else { 1 });
            "key type of the other algorithm"
        }
        10 => {
            let i = if ed || s.bool() { at(&m, -2) } else { at(&m, -3) };
            let n = *s.pick(&[0usize, 1, 31, 33, 48, 64, 65]);
            m[i].1 = cbytes(&s.blob(n));
            "coordinate of a wrong length"
        }
        11 => {
            if ed {
                let i = at(&m, -2);
                m[i].1 = cbytes(&s.blob(65));
                "65 byte Ed25519 key"
            } else {
                let (x, y) = (at(&m, -2), at(&m, -3));
                let d = *s.pick(&[1usize, 2, 16, 32]);
                let (l, r) = if s.bool() { (32 - d, 32 + d) } else { (32 + d, 32 - d) };
                m[x].1 = cbytes(&a.key.public[1..1 + l]);
                m[y].1 = cbytes(&a.key.public[1 + l..1 + l + r]);
                "unequal coordinates"
            }
        }
        12 => {
            let i = s.below(m.len());
            m[i].1 = junk(s);
            "member of a wrong type"
        }
        13 => {
            let i = s.below(m.len());
            m[i].0 = match s.below(3) {
                0 => vec![0x61, b'1'],
                1 => vec![0x41, 1],
                _ => vec![0xf6],
            };
            "member name of a wrong type"
        }
        14 => {
            a.map = match s.below(4) {
                // An indefinite map, no map at all, an array, a byte string.
                0 => [vec![0xbf], m.iter().flat_map(|(k, v)| [k.clone(), v.clone()].concat()).collect(), vec![0xff]].concat(),
                1 => cbytes(&a.key.public),
                2 => [head(4, m.len() as u64 * 2), m.iter().flat_map(|(k, v)| [k.clone(), v.clone()].concat()).collect()].concat(),
                _ => vec![0xf6],
            };
            let b = a.bytes();
            return refused(s, c, "not a map of definite length", &a, b);
        }
        _ => {
            let mut v = cmap(&m);
            // More members announced than there are.
            let n = m.len() as u64 + *s.pick(&[1u64, 2, 100, 300, u32::MAX as u64, u64::MAX / 2, u64::MAX - 5 - m.len() as u64]);
            v.splice(0..1, head(5, n));
            a.map = v;
            let b = a.bytes();
            return refused(s, c, "more members announced", &a, b);
        }
    };
    if s.bool() {
        shuffle(s, &mut m);
    }
    a.map = cmap(&m);
    let b = a.bytes();
    refused(s, c, what, &a, b)
}
fn refused(_s: &mut Src, c: &mut Ctx, what: &'static str, a: &Auth, b: Vec<u8>) -> PResult {
    c.class(what);
    c.nontrivial(&b);
    c.desc(|| format!("{what}: {} map {}", a.key.alg.plain(), hex(&a.map)));
    if let Ok(d) = parse(&b)? {
        match guarded(|| d.ssh_public_key(&a.key.app)) {
            Err(m) => return fail("panic", m),
            Ok(Ok(k)) => return fail("accepted", format!("{what}: accepted with key {k}; {}", hex(&b))),
            Ok(Err(_)) => {}
        }
    }
    Ok(())
}
fn c25_damaged(s: &mut Src, c: &mut Ctx) -> PResult {
    let a = Auth::gen(s);
    let mut b = a.bytes();
    let n = 1 + s.below(3);
    for _ in 0..n {
        // Mostly behind the fixed part, where the structure is.
        if s.chance(160) {
            let k = b.len().saturating_sub(90);
            let mut t = b.split_off(k);
            mangle(s, &mut t);
            b.extend(t);
        } else {
            mangle(s, &mut b);
        }
    }
    c.nontrivial(&b);
    c.desc(|| format!("{} authenticator data damaged in {n} places", a.key.alg.plain()));
    if let Ok(d) = parse(&b)? {
        c.class("accepted");
        // Whatever is accepted must still be what the bytes say at their fixed places.
        ensure!(b.len() >= 55 && b.len() >= 55 + u16::from_be_bytes([b[53], b[54]]) as usize, "short", "accepted though shorter than its fixed fields: {}", hex(&b));
        let n = u16::from_be_bytes([b[53], b[54]]) as usize;
        ensure!(d.rpid_hash == b[..32] && d.flags == b[32] && d.sign_count.to_be_bytes() == b[33..37] && d.aaguid == b[37..53] && d.credential_id == b[55..55 + n], "fixed", "fixed fields do not match the data {}", hex(&b));
        ensure!(b[32] & 0x40 != 0, "no-credential", "accepted without credential flag");
        let k = &d.cose_key.key;
        let body = &b[55 + n..];
        let inside = |x: &[u8]| x.is_empty() || body.windows(x.len()).any(|w| w == x);
        let ok = inside(k) || (k.len() % 2 == 1 && inside(&k[1..1 + k.len() / 2]) && inside(&k[1 + k.len() / 2..]));
        ensure!(ok, "invented", "key {} is not in the data {}", hex(k), hex(&b));
        if let Err(m) = guarded(|| d.ssh_public_key("ssh:").map(|k| k.to_string())) {
            return fail("panic", m);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C26

const FW: &str = "1.3.6.1.4.1.41482.13.1";
const AAGUID: &str = "1.3.6.1.4.1.45724.1.1.4";
const TRANSPORTS: &str = "1.3.6.1.4.1.45724.2.1.1";

struct Att {
    auth: Auth,
    challenge: Vec<u8>,
    akey: Key,
    root: Key,
    ralg: SigAlg,
    cert: CertB,
    rc: CertB,
    n: u64,
    fw: Option<[u8; 3]>,
    aaguid: Option<Vec<u8>>,
    transports: Option<u8>,
    o: SigOpts,
}
fn transports(b: u8) -> Vec<Transport> {
    let mut v = vec![];
    for (i, t) in [Transport::Bluetooth, Transport::BluetoothLE, Transport::USB, Transport::NFC, Transport::USBInternal].into_iter().enumerate() {
        if b & (0x80 >> i) != 0 {
            v.push(t);
        }
    }
    v
}
impl Att {
    fn gen(s: &mut Src) -> Att {
        let mut auth = Auth::gen(s);
        // Extension data is left out: nothing separates it from the challenge.
        auth.tail.clear();
        auth.flags &= 0x7f;
        let akey = key_of(s, Alg::P256);
        let ra = *s.pick(&[Alg::Rsa, Alg::P256, Alg::P384, Alg::Ed]);
        let root = key_of(s, ra);
        let ralg = SigAlg::gen(s, &root);
        let fw: Option<[u8; 3]> = if s.chance(200) { Some(s.arr()) } else { None };
        let aaguid = if s.chance(200) { Some(if s.chance(200) { auth.aaguid.clone() } else { s.bytes(16) }) } else { None };
        let transports = if s.chance(200) { Some(s.byte() & 0xf8) } else { None };
        let mut e = vec![];
        if let Some(f) = fw {
            e.push(Ext::new(FW, octets(&f)));
        }
        if let Some(a) = &aaguid {
            e.push(Ext::new(AAGUID, octets(a)));
        }
        if let Some(t) = transports {
            // DER: trailing zero bits of a named bit list are not encoded.
            let v = if t == 0 { vec![3, 1, 0] } else { vec![3, 2, t.trailing_zeros() as u8, t] };
            e.push(Ext::new(TRANSPORTS, v));
        }
        shuffle(s, &mut e);
        let cert = CertB::gen(s, &spki(&akey), e);
        let rc = CertB::gen(s, &spki(&root), vec![]);
        let challenge = if s.chance(200) {
            s.blob(32)
        } else {
            let n = size(s, 100);
            s.blob(n)
        };
        Att { auth, challenge, akey, root, ralg, cert, rc, n: s.u64(), fw, aaguid, transports, o: SigOpts::gen(s) }
    }
    fn cert(&self) -> Built {
        self.cert.sign(self.ralg, &self.root, self.n)
    }
    fn root_pem(&self) -> String {
        pem("CERTIFICATE", &self.rc.sign(self.ralg, &self.root, self.n).der)
    }
    fn sig(&self) -> Vec<u8> {
        ecdsa_der(&self.akey, &[self.auth.bytes(), self.challenge.clone()].concat(), &self.o)
    }
}
fn verify_att(a: &[u8], sig: &[u8], ch: &[u8], alg: i32, cert: &[u8], root: Option<&str>) -> Result<Result<ValidAttestation, sshcerts::error::Error>, Fail> {
    guarded(|| verify_auth_data(a, sig, ch, alg, cert, root)).map_err(|m| Fail { kind: "panic".into(), msg: format!("verify_auth_data panicked: {m}; auth data {} signature {} certificate {} root {root:?}", hex(a), hex(sig), hex(cert)) })
}

pub fn any_auth(s: &mut Src) -> Vec<u8> {
    Auth::gen(s).bytes()
}
pub struct Parts {
    pub data: Vec<u8>,
    pub sig: Vec<u8>,
    pub challenge: Vec<u8>,
    pub cert: Vec<u8>,
    pub root: String,
}
/// An attestation whose certificate extensions and data may be damaged before they are signed.
pub fn odd_attestation(s: &mut Src, damage: fn(&mut Src, &mut Vec<u8>)) -> Parts {
    let mut t = Att::gen(s);
    for x in t.cert.exts.iter_mut() {
        if s.bool() {
            damage(s, &mut x.value);
        }
    }
    if s.bool() {
        damage(s, &mut t.auth.map);
    }
    Parts { data: t.auth.bytes(), sig: t.sig(), challenge: t.challenge.clone(), cert: t.cert().der, root: t.root_pem() }
}
fn c26_intact(s: &mut Src, c: &mut Ctx) -> PResult {
    let mut t = Att::gen(s);
    // A firmware that is not three numbers, or an AAGUID that is not 16 bytes, is no value at all.
    let mut odd = false;
    if s.chance(40) {
        let id = if s.bool() { FW } else { AAGUID };
        let n = if s.bool() { s.below(6) } else { s.below(40) };
        if n != if id == FW { 3 } else { 16 } {
            odd = true;
            let v = octets(&s.bytes(n));
            match t.cert.exts.iter_mut().find(|x| x.oid == id) {
                Some(x) => x.value = v,
                None => t.cert.exts.push(Ext::new(id, v)),
            }
            if id == FW {
                t.fw = None;
            } else {
                t.aaguid = None;
            }
        }
    }
    let (cert, root, sig, data) = (t.cert(), t.root_pem(), t.sig(), t.auth.bytes());
    c.nontrivial(&(&data, &sig, &cert.der, &root));
    c.class(t.root.alg.plain());
    c.desc(|| format!("root {} {:?}, {} credential, firmware {:?}, aaguid {:?}, transports {:?}, challenge of {} bytes", t.root.alg.plain(), t.ralg, t.auth.key.alg.plain(), t.fw, t.aaguid, t.transports, t.challenge.len()));
    let v = match verify_att(&data, &sig, &t.challenge, -7, &cert.der, Some(&root))? {
        Ok(v) => v,
        Err(_) if odd => {
            c.class("odd extension refused");
            return Ok(());
        }
        Err(e) => return fail("rejected", format!("a valid attestation is rejected: {e}; auth data {} signature {} certificate {} root {root}", hex(&data), hex(&sig), hex(&cert.der))),
    };
    t.auth.judge(&v.auth_data)?;
    let fw = t.fw.map(|f| format!("{}.{}.{}", f[0], f[1], f[2]));
    ensure!(v.firmware == fw, "firmware", "firmware {:?} instead of {:?}", v.firmware, fw);
    ensure!(v.aaguid == t.aaguid, "aaguid", "AAGUID {:?} instead of {:?}", v.aaguid, t.aaguid);
    let want = t.transports.map(transports);
    ensure!(v.transports == want, "transports", "transports {:?} instead of {:?}", v.transports, want);
    Ok(())
}

fn c26_broken(s: &mut Src, c: &mut Ctx) -> PResult {
    let mut t = Att::gen(s);
    let (mut cert, mut root, mut sig, mut data) = (t.cert(), t.root_pem(), t.sig(), t.auth.bytes());
    let mut ch = t.challenge.clone();
    let mut alg = -7;
    let mut none = false;
    let what = match s.below(20) {
        0 | 1 => {
            let n = data.len();
            flip(s, &mut data, 0..n);
            "data altered"
        }
        2 => {
            // Only the 37 bytes in front: they parse whatever they hold.
            flip(s, &mut data, 0..37);
            "header altered"
        }
        3 => {
            if ch.is_empty() {
                ch.push(0);
            } else {
                let n = ch.len();
                flip(s, &mut ch, 0..n);
            }
            "challenge altered"
        }
        4 => {
            if s.bool() || ch.is_empty() {
                ch.push(s.byte());
            } else {
                ch.pop();
            }
            "challenge of another length"
        }
        5 => {
            // Flip inside the two integers, not in the DER framing.
            let n = sig.len();
            flip(s, &mut sig, n - 8..n);
            "signature altered"
        }
        6 => {
            if s.bool() {
                let n = s.below(sig.len());
                sig.truncate(n);
                "signature truncated"
            } else {
                let n = 1 + s.len(20);
                let more = if s.bool() { vec![0; n] } else { s.blob(n) };
                sig.extend_from_slice(&more);
                "signature extended"
            }
        }
        7 => {
            let r = cert.tbs.clone();
            flip(s, &mut cert.der, r);
            "certificate altered"
        }
        8 => {
            let r = cert.sig.clone();
            flip(s, &mut cert.der, r);
            "certificate signature altered"
        }
        9 => {
            let k = other_key(s, &t.akey);
            sig = ecdsa_der(&k, &[data.clone(), ch.clone()].concat(), &t.o);
            "signed by another key"
        }
        10 => {
            let k = other_key(s, &t.root);
            cert = t.cert.sign(t.ralg, &k, t.n);
            "certificate signed by another root"
        }
        11 => {
            let k = other_key(s, &t.root);
            let rc = CertB { spki: spki(&k), ..t.rc.clone() };
            root = pem("CERTIFICATE", &rc.sign(t.ralg, &k, t.n).der);
            "another root of the same name"
        }
        12 => {
            none = true;
            "default root"
        }
        13 => {
            alg = match s.below(3) {
                0 => *s.pick(&[-8, -35, -257, 0, 7, -6, i32::MIN, i32::MAX]),
                1 => s.below(600) as i32 - 300,
                _ => s.u32() as i32,
            };
            if alg == -7 {
                alg = -9;
            }
            "other algorithm"
        }
        14 => {
            if t.akey.blob() == t.root.blob() {
                return Ok(());
            }
            cert = t.cert.sign(SigAlg::Ec256, &t.akey, t.n);
            "self-signed certificate"
        }
        15 => {
            // The signature covers the data without the challenge, or in the other order.
            if ch.is_empty() || ch == data {
                return Ok(());
            }
            let m = if s.bool() { data.clone() } else { [ch.clone(), data.clone()].concat() };
            sig = ecdsa_der(&t.akey, &m, &t.o);
            "signature over other data"
        }
        16 => {
            // A certificate for another kind of key.
            let a = *s.pick(&[Alg::P384, Alg::Ed, Alg::Rsa]);
            t.akey = key_of(s, a);
            t.cert.spki = spki(&t.akey);
            cert = t.cert();
            sig = SigAlg::gen(s, &t.akey).sign(&t.akey, &[data.clone(), ch.clone()].concat(), t.n);
            "attestation key of another kind"
        }
        17 => {
            root = unreadable_root(s, &root);
            "unreadable root"
        }
        18 => {
            let n = s.below(cert.der.len());
            cert.der.truncate(n);
            "certificate truncated"
        }
        _ => {
            // Correctly signed, but the data itself is cut.
            let n = s.below(data.len());
            data.truncate(n);
            sig = ecdsa_der(&t.akey, &[data.clone(), ch.clone()].concat(), &t.o);
            "authenticator data truncated"
        }
    };
    c.class(what);
    c.nontrivial(&(&data, &sig, &ch, &cert.der, &root, alg, none));
    c.desc(|| format!("{what}: root {} {:?}, {} credential", t.root.alg.plain(), t.ralg, t.auth.key.alg.plain()));
    match verify_att(&data, &sig, &ch, alg, &cert.der, if none { None } else { Some(&root) })? {
        Err(_) => Ok(()),
        Ok(_) => fail("accepted", format!("accepted despite: {what}; auth data {} signature {} challenge {} alg {alg} certificate {} root {root}", hex(&data), hex(&sig), hex(&ch), hex(&cert.der))),
    }
}

fn c26_recorded(s: &mut Src, c: &mut Ctx) -> PResult {
    let (mut data, mut sig, ch, mut cert) = if s.bool() {
        (
            include_bytes!("../../fixtures/yubikey_bio_auth_data_ed25519.der").to_vec(),
            include_bytes!("../../fixtures/yubikey_bio_auth_sig_ed25519.der").to_vec(),
            include_bytes!("../../fixtures/yubikey_bio_challenge_ed25519.der").to_vec(),
            include_bytes!("../../fixtures/yubikey_bio_intermediate.der").to_vec(),
        )
    } else {
        (
            include_bytes!("../../fixtures/yubikey_5c_nfc_auth_data_ed25519.der").to_vec(),
            include_bytes!("../../fixtures/yubikey_5c_nfc_auth_sig_ed25519.der").to_vec(),
            include_bytes!("../../fixtures/yubikey_5c_nfc_challenge_ed25519.der").to_vec(),
            include_bytes!("../../fixtures/yubikey_5c_nfc_intermediate.der").to_vec(),
        )
    };
    let mut ch = sha256(&ch);
    let mut root = None;
    let what = match s.weighted(&[1, 6, 3, 3, 6, 3, 1, 2, 1]) {
        0 => {
            if s.bool() {
                root = Some(U2F_ROOT.to_string());
            }
            "intact"
        }
        1 => {
            let n = data.len();
            flip(s, &mut data, 0..n);
            "data"
        }
        2 => {
            flip(s, &mut ch, 0..32);
            "challenge"
        }
        3 => {
            let n = sig.len();
            flip(s, &mut sig, n - 30..n);
            "signature"
        }
        4 => {
            let n = cert.len();
            flip(s, &mut cert, 4..n - 256 - 5 - 15);
            "certificate"
        }
        5 => {
            let n = cert.len();
            flip(s, &mut cert, n - 256..n);
            "certificate signature"
        }
        7 => {
            root = Some(unreadable_root(s, U2F_ROOT));
            "root (unreadable)"
        }
        8 => {
            root = Some(PIV_ROOT.to_string());
            "root (for other devices)"
        }
        _ => {
            let k = key_of(s, Alg::Rsa);
            root = Some(pem("CERTIFICATE", &CertB::gen(s, &spki(&k), vec![]).sign(SigAlg::Rsa256, &k, 1).der));
            "root"
        }
    };
    c.class(what);
    c.nontrivial(&(&data, &sig, &ch, &cert, &root));
    c.desc(|| format!("recorded YubiKey attestation, altered: {what}"));
    match (verify_att(&data, &sig, &ch, -7, &cert, root.as_deref())?, what == "intact") {
        (Ok(v), true) => {
            ensure!(v.aaguid.as_ref() == Some(&v.auth_data.aaguid), "aaguid", "AAGUID differs");
            Ok(())
        }
        (Err(_), false) => Ok(()),
        (Ok(_), false) => fail("accepted", format!("recorded attestation accepted with altered {what}")),
        (Err(e), true) => fail("rejected", format!("recorded attestation rejected: {e}")),
    }
}

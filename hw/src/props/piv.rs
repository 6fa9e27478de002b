//! C35: SSH and X.509 operations backed by a PIV token, against emulated tokens.

use crate::pcsc::*;
use openssl::nid::Nid;
use openssl::x509::{X509Req, X509};
use sshcerts::ssh::*;
use sshcerts::yubikey::piv::{AlgorithmId, Error, PinPolicy, SlotId, TouchPolicy, Yubikey};
use std::cell::RefCell;
use std::collections::BTreeSet;
use vharness::crypto::*;
use vharness::der;
use vharness::engine::*;
use vharness::ensure;
use vharness::gen::*;
use vharness::props::common::*;

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C35",
        rule: "One to three emulated YubiKeys (PIV applet over an emulated PC/SC service) hold generated keys, certificates, damaged objects and policies. A generated history of calls (open, new, reconnect, unlock with right and wrong secrets, provision, sign, issue an SSH certificate, read and write certificates, attest, make a CSR; tokens are pulled and put back) is run; each answer and each change of what the tokens hold is judged against the token's contents before and after. faults: the same with one PC/SC call failing, answering with a status word, losing its answer or pulling the token. Non-trivial: at least one operation reached a key or stored something; distinct by calls and answers.",
        facets: vec![facet("history", 20000, 300000, history), facet("faults", 20000, 300000, faults)],
    }]
}

const SLOTS: [u8; 25] = [
    0x9a, 0x9c, 0x9d, 0x9e, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8a, 0x8b, 0x8c, 0x8d, 0x8e, 0x8f, 0x90, 0x91, 0x92, 0x93, 0x94, 0x95, 0xf9,
];
fn slot_id(x: u8) -> SlotId {
    SlotId::try_from(x).expect("a slot")
}
fn alg_id(a: u8) -> AlgorithmId {
    AlgorithmId::try_from(a).expect("an algorithm")
}
const ALGS: [u8; 4] = [P256, P384, RSA2048, RSA1024];

/// Bytes spread over the fields of a plain certificate of the key.
fn plain_cert(s: &mut Src, k: &Key, big: usize) -> Vec<u8> {
    cert_like(s, k, big, None)
}
/// The same, alike to another one.
fn cert_like(s: &mut Src, k: &Key, big: usize, old: Option<&X509>) -> Vec<u8> {
    let mut exts = vec![];
    if big > 0 {
        exts.push(der::Ext::new("1.3.6.1.4.1.41482.9.9", s.blob(big)));
    }
    let mut c = der::CertB::gen(s, &der::spki(k), exts);
    c.subject = vec![("2.5.4.3", if s.bool() { word(s) } else { cn(s, 64) })];
    if let Some(o) = old {
        let n = names(o.subject_name());
        if s.chance(200) && n.len() == 1 {
            c.subject = vec![("2.5.4.3", n[0].clone())];
        }
        if s.bool() {
            c.serial = o.serial_number().to_bn().map(|b| b.to_vec()).unwrap_or_default();
        }
        if s.bool() {
            c.issuer = c.subject.clone();
        }
    }
    if c.issuer.iter().map(|x| x.1.len()).sum::<usize>() > 200 {
        c.issuer = c.subject.clone();
    }
    let signer = Key::ec(Alg::P256, &s.arr::<32>(), "");
    c.sign(der::SigAlg::Ec256, &signer, s.u64()).der
}

/// What a certificate object holds, from its construction.
#[derive(Clone, Debug, PartialEq)]
enum Holds {
    Nothing,
    Junk,
    /// The key of the certificate (as an SSH public key blob) and its algorithm.
    Cert(u8, Vec<u8>),
    /// A certificate with a key no PIV token has.
    Foreign,
    /// A damaged certificate: readers may differ on it.
    Odd,
}
/// By way of OpenSSL: what the slot's certificate says.
fn holds(t: &Store, slot: u8) -> Holds {
    let Some(o) = t.objects.get(&object_of(slot)) else { return Holds::Nothing };
    let Some(d) = cert_of(o) else { return Holds::Junk };
    let Ok(x) = X509::from_der(d) else { return Holds::Junk };
    let Ok(p) = x.public_key() else { return Holds::Foreign };
    if let Ok(ec) = p.ec_key() {
        let (alg, a) = match ec.group().curve_name() {
            Some(Nid::X9_62_PRIME256V1) => (P256, Alg::P256),
            Some(Nid::SECP384R1) => (P384, Alg::P384),
            _ => return Holds::Foreign,
        };
        let mut c = openssl::bn::BigNumContext::new().expect("bn");
        let pt = ec.public_key().to_bytes(ec.group(), openssl::ec::PointConversionForm::UNCOMPRESSED, &mut c).expect("point");
        let k = Key { alg: a, rsa: 0, secret: vec![], public: pt, app: String::new() };
        return Holds::Cert(alg, k.blob());
    }
    if let Ok(r) = p.rsa() {
        if r.e().to_vec() != [1, 0, 1] {
            return Holds::Odd;
        }
        let alg = match r.n().num_bits() {
            1024 => RSA1024,
            2048 => RSA2048,
            _ => return Holds::Foreign,
        };
        let b = vharness::wire::W::new().str("ssh-rsa").mpint(&r.e().to_vec()).mpint(&r.n().to_vec()).0;
        return Holds::Cert(alg, b);
    }
    Holds::Foreign
}

fn fill(s: &mut Src, t: &mut Token) {
    for _ in 0..s.below(6) {
        let slot = *s.pick(&SLOTS);
        let alg = *s.pick(&[P256, P384, P256, P384, P256, P384, RSA2048, RSA1024]);
        let k = t.fresh_key(alg).expect("known algorithm");
        let pin_policy = *s.pick(&[1u8, 1, 0, 2, 3]);
        let generated = s.bool();
        let shape = s.weighted(&[10, 1, 1, 1, 1, 1]);
        if shape != 2 && shape != 3 {
            t.store.keys.insert(slot, SlotKey { alg, key: k.clone(), pin_policy, touch_policy: s.below(4) as u8, generated });
            if generated {
                let n = *s.pick(&[1usize, 20, 253, 254, 255, 256, 257, 300, 509, 700, 1500, 2900]);
                let b = s.blob(n);
                t.store.attestations.insert(slot, der::tlv(0x30, &b));
            }
        }
        let big = if s.chance(40) { s.below(2600) } else { 0 };
        let cert = match shape {
            // a key without certificate
            1 => continue,
            // a certificate without key
            2 => Some(plain_cert(s, &k, big)),
            // of a key that cannot be on the token
            3 => {
                let other = if s.bool() { Key::ec(Alg::P521, &s.arr::<32>(), "") } else { Key::ed(Alg::Ed, &s.arr::<32>(), "") };
                Some(plain_cert(s, &other, 0))
            }
            // of an earlier key
            4 => {
                let other = t.fresh_key(alg).expect("known algorithm");
                Some(plain_cert(s, &other, big))
            }
            // damaged
            5 => {
                let n = 1 + s.below(200);
                Some(s.blob(n))
            }
            _ => Some(plain_cert(s, &k, big)),
        };
        if let Some(c) = cert {
            let o = if s.chance(10) {
                let n = 1 + s.below(60);
                let mut j = s.blob(n);
                j[0] = 0x71;
                j
            } else {
                cert_object(&c)
            };
            // What a token has room for.
            if o.len() <= 3052 {
                t.store.objects.insert(object_of(slot), o);
            }
        }
    }
    // Other data on the token.
    if s.bool() {
        let n = 1 + s.below(60);
        t.store.objects.insert(*s.pick(&[0x5fc102, 0x5fc107, 0x5fff00, 0x5fc109]), s.blob(n));
    }
}

fn setup(s: &mut Src) -> usize {
    let n = *s.pick(&[1usize, 1, 2, 3]);
    let mut tokens: Vec<Token> = vec![];
    let base = s.u32() & 0x00ff_ffff;
    for i in 0..n {
        // Serial numbers that resemble each other.
        let serial = base ^ if i == 0 { 0 } else { 1 << s.below(32) ^ (i as u32) << 3 };
        let version = *s.pick(&[[5, 4, 3], [5, 2, 7], [4, 3, 7], [5, 7, 1]]);
        let mut t = Token::new(i, serial, version, s.u64());
        if s.bool() {
            let l = 6 + s.below(3);
            t.pin = (0..l).map(|_| b'0' + s.below(10) as u8).collect();
        }
        if s.bool() {
            t.mgm = s.blob(24);
        }
        if s.chance(30) {
            t.tries = 1 + s.below(2) as u8;
        }
        fill(s, &mut t);
        if i > 0 && s.bool() {
            // Keys where the first token has some.
            let first: Vec<(u8, u8)> = tokens[0].store.keys.iter().map(|(slot, k)| (*slot, k.alg)).collect();
            for (slot, alg) in first {
                let k = t.fresh_key(alg).expect("known algorithm");
                t.store.objects.insert(object_of(slot), cert_object(&plain_cert(s, &k, 0)));
                t.store.keys.insert(slot, SlotKey { alg, key: k, pin_policy: 1, touch_policy: 1, generated: false });
                t.store.attestations.remove(&slot);
            }
        }
        t.present = !s.chance(20);
        if tokens.iter().all(|x: &Token| x.serial != t.serial) {
            tokens.push(t);
        }
    }
    let n = tokens.len();
    bus(|b| {
        b.clear();
        b.tokens = tokens;
    });
    n
}

fn err_name<T>(r: &Result<T, Error>) -> String {
    match r {
        Ok(_) => "ok".into(),
        Err(e) => {
            let d = format!("{e:?}");
            d.split('(').next().unwrap_or("").to_string()
        }
    }
}

/// A name for a certificate: text without control characters.
fn cn(s: &mut Src, max: usize) -> String {
    let mut t: String = text(s).chars().filter(|c| !c.is_control()).collect();
    while t.len() > max {
        t.pop();
    }
    t
}

struct Run {
    /// The open handle and the index of its token.
    yk: Option<(Yubikey, usize)>,
    log: Vec<String>,
    touched: bool,
    faulty: bool,
    /// Since a token was pulled or a call failed, the handle may be of no use.
    shaken: bool,
    /// Slots with damaged certificates.
    odd: BTreeSet<(usize, u8)>,
}

fn history(s: &mut Src, cx: &mut Ctx) -> PResult {
    run(s, cx, false)
}
fn faults(s: &mut Src, cx: &mut Ctx) -> PResult {
    run(s, cx, true)
}

fn run(s: &mut Src, cx: &mut Ctx, faulty: bool) -> PResult {
    let n = setup(s);
    if faulty {
        let at = 1 + s.below(120) as u64;
        let e = *s.pick(&[0x8010_0016u32, 0x8010_0068, 0x8010_0069, 0x8010_001d, 0x8010_002f, 0x8010_0013, 0x8010_000b]);
        let f = match s.below(4) {
            0 => Fault::Error(e),
            1 => Fault::Lost(e),
            2 => Fault::Unplug,
            _ => Fault::Status(*s.pick(&[0x6f00u16, 0x6982, 0x6983, 0x6a80, 0x6a82, 0x6a84, 0x6b00, 0x6d00, 0x6700, 0x63c2, 0x6985])),
        };
        bus(|b| b.fault = Some((at, f)));
    }
    let mut r = Run { yk: None, log: vec![], touched: false, faulty, shaken: false, odd: Default::default() };
    let steps = 3 + s.below(12);
    let res = (|| -> PResult {
        for i in 0..steps {
            step(s, cx, &mut r, n, i)?;
        }
        Ok(())
    })();
    let hit = bus(|b| b.fault_hit);
    drop(r.yk.take());
    if hit {
        cx.class("fault hit");
    }
    if r.touched && (!faulty || hit) {
        cx.nontrivial(&r.log);
    }
    cx.desc(|| format!("{n} token(s): {}", r.log.join("; ")));
    res.map_err(|e| Fail { kind: e.kind, msg: format!("{} after {}", e.msg, r.log.join("; ")) })
}

fn stores() -> Vec<Store> {
    bus(|b| b.tokens.iter().map(|t| t.store.clone()).collect())
}

fn step(s: &mut Src, cx: &mut Ctx, r: &mut Run, n: usize, i: usize) -> PResult {
    // Without a handle there is only opening.
    if r.yk.is_none() || s.chance(16) {
        return open(s, cx, r, n);
    }
    let tok = r.yk.as_ref().map(|x| x.1).unwrap_or(0);
    if s.chance(8) {
        // Someone pulls a token, or puts it (or another one) back.
        let t = s.below(n);
        bus(|b| {
            let x = &mut b.tokens[t];
            x.present = !x.present;
            x.reset();
            if x.present {
                x.insertion += 1;
            }
        });
        r.log.push(format!("token {t} pulled or put back"));
        if t == tok {
            r.shaken = true;
        }
        return Ok(());
    }
    let before = stores();
    let used_before: Vec<usize> = bus(|b| b.tokens.iter().map(|t| t.used.len()).collect());
    let hit0 = bus(|b| b.fault_hit);
    let tk = bus(|b| b.tokens[tok].clone());
    let live = tk.present && !r.shaken;
    let mut slot = *s.pick(&SLOTS);
    if s.chance(200) {
        // Mostly where something is.
        let have: Vec<u8> = SLOTS.iter().copied().filter(|x| tk.store.keys.contains_key(x) || tk.store.objects.contains_key(&object_of(*x))).collect();
        if !have.is_empty() {
            slot = *s.pick(&have);
        }
    }
    let h = if r.odd.contains(&(tok, slot)) { Holds::Odd } else { holds(&tk.store, slot) };
    let id = slot_id(slot);
    let key = tk.store.keys.get(&slot).cloned();
    let (mut yk, _) = r.yk.take().expect("a handle");
    ensure!(u32::from(yk.yk.serial()) == tk.serial, "serial", "the handle of token {} says serial {}", tk.serial, yk.yk.serial());
    let op = if i < 3 && s.chance(160) { 0 } else { s.below(13) };
    // What may change: nothing, one slot's key, one slot's certificate.
    let (mut may_key, mut may_cert) = (false, false);
    let name;
    macro_rules! call {
        ($e:expr) => {
            match guarded(|| $e) {
                Ok(x) => x,
                Err(m) => return fail("panic", m),
            }
        };
    }
    // Did a fault strike during the call?
    let struck = || bus(|b| b.fault_hit) && !hit0;
    match op {
        0 => {
            // unlock
            let (mut pin, mut mgm) = (tk.pin.clone(), tk.mgm.clone());
            let what = s.weighted(&[10, 2, 1, 1, 2, 1, 1]);
            match what {
                0 => {}
                1 => {
                    let i = s.below(pin.len());
                    pin[i] ^= 1 << s.below(3);
                }
                2 => {
                    pin.pop();
                }
                3 => pin = s.bytes(9),
                4 => {
                    let i = s.below(24);
                    mgm[i] ^= 2 << s.below(7);
                }
                5 => {
                    let l = s.below(48);
                    mgm = s.bytes(if l == 24 { 25 } else { l });
                }
                _ => pin.clear(),
            }
            name = format!("unlock({:?}, {})", String::from_utf8_lossy(&pin), hex(&mgm));
            let a = call!(yk.unlock(&pin, &mgm));
            let pin_right = pin == tk.pin && tk.tries > 0 || pin.is_empty() && tk.pin_ok && tk.tries > 0;
            let mgm_right = mgm == tk.mgm;
            if a.is_ok() {
                ensure!(pin_right && mgm_right, "unlocked", "{name} succeeded with wrong secrets (PIN {:?}, key {})", String::from_utf8_lossy(&tk.pin), hex(&tk.mgm));
                let (p, m) = bus(|b| (b.tokens[tok].pin_ok, b.tokens[tok].mgm_ok));
                ensure!(p && m, "unlocked", "{name} reported success, but the token is not unlocked (PIN {p}, key {m})");
                cx.class("unlocked");
            } else if live && !struck() {
                ensure!(!(pin_right && mgm_right), "locked", "{name} failed with the right secrets: {a:?}");
                if pin_right && mgm.len() != 24 {
                    ensure!(matches!(a, Err(Error::InvalidManagementKey)), "error", "a management key of {} bytes gave {a:?}", mgm.len());
                }
            }
            let left = bus(|b| b.tokens[tok].tries);
            ensure!(left + 1 >= tk.tries, "tries", "one call used {} attempts", tk.tries - left);
            if pin_right {
                ensure!(left >= tk.tries, "tries", "the right PIN used an attempt");
            }
            r.log.push(format!("unlock {}: {}", ["right", "wrong PIN", "short PIN", "long PIN", "wrong key", "bad key", "no PIN"][what], err_name(&a)));
        }
        1 | 2 => {
            // provision
            let alg = *s.pick(&[P256, P384, P256, P384, RSA2048, RSA1024]);
            let long = s.chance(10);
            // (The limit is one of bytes.)
            let subject = match long {
                true if s.bool() => "x".repeat(65 + s.below(40)),
                true => {
                    let n = 33 + s.below(40);
                    "é".repeat(n)
                }
                false => cn(s, 64),
            };
            let pp = *s.pick(&[PinPolicy::Never, PinPolicy::Default, PinPolicy::Once, PinPolicy::Always]);
            let tp = *s.pick(&[TouchPolicy::Never, TouchPolicy::Default, TouchPolicy::Always, TouchPolicy::Cached]);
            name = format!("provision({slot:x}, {subject:?}, {alg:x}, {tp:?}, {pp:?})");
            let a = call!(yk.provision(&id, &subject, alg_id(alg), tp, pp));
            (may_key, may_cert) = (true, true);
            let after = bus(|b| b.tokens[tok].store.clone());
            if after.objects.get(&object_of(slot)) != tk.store.objects.get(&object_of(slot)) {
                r.odd.remove(&(tok, slot));
            }
            match &a {
                Ok(p) => {
                    r.touched = true;
                    cx.class("provisioned");
                    let Some(k) = after.keys.get(&slot) else { return fail("provision", format!("{name} left no key in the slot")) };
                    ensure!(key.as_ref() != Some(k) && k.generated, "provision", "{name} made no new key");
                    ensure!(k.alg == alg, "provision", "{name} made a key of algorithm {:x}", k.alg);
                    ensure!(k.pin_policy == u8::from(pp), "policy", "{name}: the key has PIN policy {}", k.pin_policy);
                    ensure!(k.touch_policy == u8::from(tp), "policy", "{name}: the key has touch policy {}", k.touch_policy);
                    if let Err(m) = same_pub(p, &refpub(&k.key)) {
                        return fail("provision", format!("{name} returned another key than the slot's: {m}"));
                    }
                    ensure!(holds(&after, slot) == Holds::Cert(alg, k.key.blob()), "provision", "{name}: the slot's certificate is not of the slot's key");
                    let o = after.objects[&object_of(slot)].clone();
                    let x = X509::from_der(cert_of(&o).unwrap_or(&[])).expect("checked above");
                    ensure!(x.verify(&k.key.pkey()).unwrap_or(false), "provision", "{name}: the certificate is not signed by the key");
                    ensure!(names(x.subject_name()) == vec![subject.clone()], "provision", "{name}: the subject is {:?}", names(x.subject_name()));
                }
                Err(_) => {
                    // What cannot be asked for must not destroy what is there.
                    if !tk.mgm_ok || long {
                        ensure!(after == tk.store, "destroyed", "{name} failed with {a:?} and changed the token");
                    }
                    let would = match Token::effective_pin_policy(slot, u8::from(pp)) {
                        1 => true,
                        2 => tk.pin_ok,
                        _ => tk.pin_ok && tk.pin_fresh,
                    };
                    // (RSA keys are made, but the library cannot return them.)
                    if live && !struck() && tk.mgm_ok && would && !long && matches!(alg, P256 | P384) {
                        return fail("provision", format!("{name} failed: {a:?}"));
                    }
                }
            }
            r.log.push(format!("provision {slot:x} {alg:x}: {}", err_name(&a)));
        }
        3 | 4 | 5 => {
            // sign data
            let l = match s.below(4) {
                0 => 0,
                1 => s.below(70),
                2 => s.below(600),
                _ => s.below(5000),
            };
            let data = s.blob(l);
            let fit = match &h {
                Holds::Cert(a, _) if s.chance(200) => *a,
                _ => *s.pick(&ALGS),
            };
            let ssh = op != 3;
            name = if ssh { format!("ssh_cert_signer({l} bytes, {slot:x})") } else { format!("sign_data({l} bytes, {fit:x}, {slot:x})") };
            let a = if ssh { call!(yk.ssh_cert_signer(&data, &id)) } else { call!(yk.sign_data(&data, alg_id(fit), &id)) };
            let used = bus(|b| b.tokens[tok].used[tk.used.len()..].to_vec());
            ensure!(used.iter().all(|u| u.0 == slot), "slot", "{name} used the keys {used:x?}");
            let ec = matches!(&h, Holds::Cert(P256 | P384, _));
            match &a {
                Ok(sig) => {
                    r.touched = true;
                    cx.class("signed");
                    let Some(k) = &key else { return fail("signed", format!("{name} signed without a key")) };
                    let want = refpub(&k.key);
                    let blob = if ssh { sig.clone() } else { ssh_sig(k.key.alg, sig).unwrap_or_default() };
                    ensure!(verify(&want, &blob, &data, false), "signature", "{name}: the signature {} is not one of the slot's key ({}) over the data", hex(sig), k.key.line());
                    if !ssh {
                        ensure!(k.alg == fit, "signed", "{name} signed with a key of algorithm {:x}", k.alg);
                    }
                }
                Err(e) => {
                    if !struck() && live {
                        let fits = matches!(&h, Holds::Cert(a, _) if ssh || *a == fit);
                        let ok = ec && fits && tk.usable(slot) && key.as_ref().is_some_and(|k| matches!(&h, Holds::Cert(a, _) if *a == k.alg));
                        ensure!(!ok, "refused", "{name} failed: {e:?}");
                        if !ssh {
                            match &h {
                                Holds::Nothing | Holds::Junk | Holds::Foreign => ensure!(matches!(e, Error::Unprovisioned), "error", "{name} on a slot without certificate gave {e:?}"),
                                Holds::Cert(a, _) if *a != fit && ec => ensure!(matches!(e, Error::WrongKeyType), "error", "{name} on a slot of algorithm {a:x} gave {e:?}"),
                                _ => {}
                            }
                        }
                    }
                }
            }
            r.log.push(format!("{} {slot:x}: {}", if ssh { "ssh sign" } else { "sign" }, err_name(&a)));
        }
        6 => {
            // issue an SSH certificate
            name = format!("issue with {slot:x}");
            let subj = key_any(s);
            let subj_lib = lib_pub(&subj)?;
            let ca = call!(yk.ssh_cert_fetch_pubkey(&id));
            let mut out = "no CA key".to_string();
            if let Ok(ca) = ca {
                let cell = RefCell::new(&mut yk);
                struct S<'a>(&'a RefCell<&'a mut Yubikey>, SlotId);
                impl SSHCertificateSigner for S<'_> {
                    fn sign(&self, b: &[u8]) -> Option<Vec<u8>> {
                        self.0.borrow_mut().ssh_cert_signer(b, &self.1).ok()
                    }
                }
                let principals: Vec<String> = (0..s.below(3)).map(|_| word(s)).collect();
                let res = call!(Certificate::builder(&subj_lib, CertType::User, &ca).map(|c| c.serial(7).key_id("k").set_principals(&principals).valid_after(1).valid_before(9).sign(&S(&cell, id))));
                match res {
                    Ok(Ok(c)) => {
                        r.touched = true;
                        cx.class("issued");
                        let bytes = vharness::wire::unb64(c.to_string().split(' ').nth(1).unwrap_or("")).unwrap_or_default();
                        let Some(rc) = ref_cert(&bytes) else { return fail("issued", format!("{name}: the certificate does not verify: {c}")) };
                        let Some(k) = &key else { return fail("issued", format!("{name} signed without a key")) };
                        ensure!(rc.ca == refpub(&k.key), "issued", "{name}: the certificate names another CA than the slot's key");
                        out = "ok".into();
                    }
                    _ => {
                        let fits = matches!((&h, &key), (Holds::Cert(P256 | P384, b), Some(k)) if *b == k.key.blob());
                        ensure!(!(live && !struck() && fits && tk.usable(slot)), "refused", "{name} failed");
                        out = "error".into();
                    }
                }
            }
            r.log.push(format!("issue {slot:x}: {out}"));
        }
        7 => {
            // what is there
            name = format!("read slot {slot:x}");
            let p = call!(yk.ssh_cert_fetch_pubkey(&id));
            let t = call!(yk.get_ssh_key_type(&id));
            let c = call!(yk.fetch_certificate(&id));
            let g = call!(yk.configured(&id));
            let sub = call!(yk.fetch_subject(&id));
            let quiet = live && !struck();
            if let Ok(p) = &p {
                match &h {
                    Holds::Cert(_, b) => {
                        let want = parse_pub(b).expect("own blob");
                        if let Err(m) = same_pub(p, &want) {
                            return fail("pubkey", format!("{name}: not the certificate's key: {m}"));
                        }
                    }
                    Holds::Odd => {}
                    _ => return fail("pubkey", format!("{name}: a public key {p} from {h:?}")),
                }
            } else if quiet {
                ensure!(!matches!(h, Holds::Cert(P256 | P384, _)), "pubkey", "{name}: no public key: {p:?} from {}", hex(tk.store.objects.get(&object_of(slot)).map(|x| &x[..]).unwrap_or_default()));
            }
            match (&t, &h) {
                (Ok(a), Holds::Cert(x, _)) if u8::from(*a) == *x && (*x == P256 || *x == P384) => {}
                (_, Holds::Odd) => {}
                (Ok(a), _) => return fail("key-type", format!("{name}: key type {a:?} from {h:?}")),
                (Err(e), Holds::Cert(P256 | P384, _)) if quiet => return fail("key-type", format!("{name}: no key type: {e:?}")),
                (Err(e), Holds::Cert(..)) if quiet => ensure!(matches!(e, Error::Unsupported), "key-type", "{name}: RSA gave {e:?}"),
                _ => {}
            }
            if let Ok(c) = &c {
                let o = tk.store.objects.get(&object_of(slot)).cloned().unwrap_or_default();
                ensure!(cert_of(&o) == Some(&c[..]), "certificate", "{name}: not the stored certificate: {}", hex(c));
                r.touched = true;
            } else if quiet {
                ensure!(!matches!(h, Holds::Cert(..)), "certificate", "{name}: no certificate: {c:?}");
            }
            match (&g, &h) {
                (Ok(g), Holds::Cert(x, _)) => ensure!(u8::from(g.algorithm()) == *x, "configured", "{name}: configured() says {g:?}"),
                (_, Holds::Odd) => {}
                (Ok(g), _) => return fail("configured", format!("{name}: configured() says {g:?}")),
                (Err(e), Holds::Cert(..)) if quiet => return fail("configured", format!("{name}: configured() says {e:?}")),
                _ => {}
            }
            if let (Ok(sub), Holds::Cert(..)) = (&sub, &h) {
                let x = X509::from_der(cert_of(&tk.store.objects[&object_of(slot)]).unwrap_or(&[])).expect("checked above");
                for n in names(x.subject_name()) {
                    if n.chars().all(|c| c.is_ascii_graphic() || c == ' ') {
                        ensure!(sub.contains(&n), "subject", "{name}: subject {sub:?} does not name {n:?}");
                    }
                }
            }
            r.log.push(format!("read {slot:x}: {}", err_name(&p)));
        }
        8 | 9 => {
            // write a certificate
            let old = tk.store.objects.get(&object_of(slot)).and_then(|o| cert_of(o)).and_then(|d| X509::from_der(d).ok());
            let k = match s.below(6) {
                0 | 5 => key.as_ref().map(|k| k.key.clone()).unwrap_or_else(|| Key::ec(Alg::P256, &[5; 32], "")),
                1 => Key::ec(Alg::P384, &s.arr::<48>(), ""),
                2 => Key::rsa(s.below(6)),
                3 => Key::ec(Alg::P521, &s.arr::<32>(), ""),
                _ => Key::ec(Alg::P256, &s.arr::<32>(), ""),
            };
            let big = match s.below(3) {
                0 => 0,
                1 => s.below(2500),
                _ => 2500 + s.below(700),
            };
            // Often a renewal of the one that is there.
            let old = if s.chance(150) { old } else { None };
            let mut d = cert_like(s, &k, big, old.as_ref());
            let damage = s.chance(40);
            if damage {
                mangle(s, &mut d);
            }
            name = format!("write_certificate({slot:x}, {} bytes for {})", d.len(), k.alg.plain());
            let a = call!(yk.write_certificate(&id, &d));
            may_cert = true;
            let after = bus(|b| b.tokens[tok].store.clone());
            let o = after.objects.get(&object_of(slot)).cloned();
            match &a {
                Ok(()) => {
                    r.touched = true;
                    cx.class("certificate written");
                    ensure!(tk.mgm_ok, "written", "{name} succeeded without management key");
                    if damage {
                        r.odd.insert((tok, slot));
                    } else {
                        r.odd.remove(&(tok, slot));
                    }
                    ensure!(cert_of(o.as_deref().unwrap_or(&[])) == Some(&d[..]), "written", "{name}: the slot holds something else");
                    ensure!(plainly(o.as_deref().unwrap_or(&[])), "written", "{name}: the slot's object does not say that the certificate is stored as it is: {}", hex(o.as_deref().unwrap_or(&[])));
                    let back = call!(yk.fetch_certificate(&id));
                    match back {
                        Ok(b) => ensure!(b == d, "written", "{name}: reading it back gives {} bytes that differ", b.len()),
                        Err(e) => ensure!(struck(), "written", "{name}: reading it back gives {e:?}"),
                    }
                }
                Err(e) => {
                    if struck() && damage {
                        r.odd.insert((tok, slot));
                    }
                    if !struck() {
                        ensure!(o == tk.store.objects.get(&object_of(slot)).cloned(), "written", "{name} failed with {e:?} and changed the slot");
                        if live && tk.mgm_ok && !damage && k.alg != Alg::P521 && d.len() < 3000 && (k.alg != Alg::Rsa || [1024, 2048].contains(&k.bits()) && k.fix().e == [1, 0, 1]) {
                            return fail("written", format!("{name} failed: {e:?}"));
                        }
                    }
                }
            }
            r.log.push(format!("write {slot:x} {} bytes: {}", d.len(), err_name(&a)));
        }
        10 => {
            name = format!("fetch_attestation({slot:x})");
            let a = call!(yk.fetch_attestation(&id));
            let want = match &key {
                Some(k) if k.generated => tk.store.attestations.get(&slot),
                _ => None,
            };
            match &a {
                Ok(x) => {
                    r.touched = true;
                    ensure!(Some(x) == want, "attestation", "{name}: not the token's attestation: {}", hex(x));
                    cx.class("attested");
                }
                Err(e) => ensure!(want.is_none() || struck() || !live, "attestation", "{name} failed: {e:?}"),
            }
            r.log.push(format!("attest {slot:x}: {}", err_name(&a)));
        }
        11 => {
            // a signing request
            let subject = cn(s, 200);
            name = format!("generate_csr({slot:x}, {subject:?})");
            if r.faulty && !hit0 && s.chance(100) {
                // Strike while the request is made, mostly by pulling the token.
                let at = 1 + s.below(40) as u64;
                let unplug = s.chance(160);
                bus(|b| {
                    if let Some((n, f)) = &mut b.fault {
                        *n = b.calls + at;
                        if unplug {
                            *f = Fault::Unplug;
                        }
                    }
                });
            }
            let a = call!(yk.generate_csr(&id, &subject));
            let used = bus(|b| b.tokens[tok].used[tk.used.len()..].to_vec());
            ensure!(used.iter().all(|u| u.0 == slot), "slot", "{name} used the keys {used:x?}");
            match &a {
                Ok(c) => {
                    r.touched = true;
                    cx.class("request made");
                    let own = match &h {
                        Holds::Cert(P256 | P384, b) => key.as_ref().is_some_and(|k| *b == k.key.blob()),
                        Holds::Odd => false,
                        _ => return fail("csr", format!("{name}: a request from {h:?}")),
                    };
                    let Ok(q) = X509Req::from_der(c) else { return fail("csr", format!("{name}: not a request: {}", hex(c))) };
                    let Some(k) = &key else { return fail("csr", format!("{name} signed without a key")) };
                    // (With a certificate of another key in the slot the request cannot be right.)
                    if own {
                        let Ok(p) = q.public_key() else { return fail("csr", format!("{name}: no public key: {}", hex(c))) };
                        ensure!(p.public_eq(&k.key.pkey()), "csr", "{name}: the request has another key");
                        ensure!(q.verify(&p).unwrap_or(false), "csr", "{name}: the request's signature does not verify: {}", hex(c));
                    }
                    ensure!(names(q.subject_name()) == vec![subject.clone()], "csr", "{name}: the subject is {:?}", names(q.subject_name()));
                }
                Err(e) => {
                    if live && !struck() {
                        let free = key.as_ref().is_some_and(|k| Token::effective_pin_policy(slot, k.pin_policy) == 1);
                        let fits = matches!((&h, &key), (Holds::Cert(P256 | P384, b), Some(k)) if *b == k.key.blob());
                        ensure!(!(fits && free), "csr", "{name} failed: {e:?}");
                        if matches!(h, Holds::Cert(RSA1024 | RSA2048, _)) {
                            ensure!(matches!(e, Error::Unsupported), "error", "{name} for an RSA key gave {e:?}");
                        }
                    }
                }
            }
            // Making the request used a second handle, and closing that resets the token.
            r.shaken = true;
            r.log.push(format!("csr {slot:x}: {}", err_name(&a)));
        }
        _ => {
            name = "reconnect()".to_string();
            let a = call!(yk.reconnect());
            match &a {
                Ok(()) => {
                    ensure!(tk.present || struck(), "reconnect", "reconnected to a token that is not there");
                    if !struck() {
                        r.shaken = false;
                    }
                    cx.class("reconnected");
                }
                Err(e) => {
                    // The PIN is tried again with the one given before, which a token may refuse by now.
                    ensure!(struck() || !tk.present || r.faulty, "reconnect", "{name} failed: {e:?}");
                    if !tk.present {
                        ensure!(matches!(e, Error::NoSuchYubikey), "error", "{name} without the token gave {e:?}");
                    }
                }
            }
            r.log.push(format!("reconnect: {}", err_name(&a)));
        }
    }
    if struck() {
        r.shaken = true;
    }
    // Nothing else changed, here or on the other tokens, and no key of theirs was used.
    for (t, u) in used_before.iter().enumerate() {
        let now = bus(|b| b.tokens[t].used.len());
        ensure!(t == tok || now == *u, "side-effect", "{name} on token {tok} used a key of token {t}");
    }
    let after = stores();
    for (t, (b, a)) in before.iter().zip(&after).enumerate() {
        let (mut b, mut a) = (b.clone(), a.clone());
        if t == tok {
            if may_key {
                b.keys.remove(&slot);
                a.keys.remove(&slot);
                b.attestations.remove(&slot);
                a.attestations.remove(&slot);
            }
            if may_cert {
                b.objects.remove(&object_of(slot));
                a.objects.remove(&object_of(slot));
            }
        }
        ensure!(a == b, "side-effect", "{name} on token {tok} changed something else on token {t}");
    }
    r.yk = Some((yk, tok));
    Ok(())
}

/// Whether a certificate object says that its certificate is not compressed.
fn plainly(o: &[u8]) -> bool {
    let Some((_, _, mut rest)) = tlv(o) else { return false };
    while let Some((t, v, r)) = tlv(rest) {
        if t == 0x71 {
            return v == [0];
        }
        rest = r;
    }
    true
}

fn names(n: &openssl::x509::X509NameRef) -> Vec<String> {
    n.entries_by_nid(Nid::COMMONNAME).map(|e| String::from_utf8_lossy(e.data().as_slice()).into_owned()).collect()
}

/// A DER ECDSA signature as an SSH signature.
fn ssh_sig(a: Alg, d: &[u8]) -> Option<Vec<u8>> {
    let s = openssl::ecdsa::EcdsaSig::from_der(d).ok()?;
    use vharness::wire::W;
    Some(W::new().str(a.plain()).bytes(&W::new().mpint(&s.r().to_vec()).mpint(&s.s().to_vec()).0).0)
}

fn open(s: &mut Src, cx: &mut Ctx, r: &mut Run, n: usize) -> PResult {
    // One handle at a time: dropping it resets the token.
    drop(r.yk.take());
    let hit0 = bus(|b| b.fault_hit);
    let before = stores();
    let toks: Vec<(u32, bool)> = bus(|b| b.tokens.iter().map(|t| (t.serial, t.present)).collect());
    let here: Vec<usize> = (0..n).filter(|i| toks[*i].1).collect();
    if s.chance(50) {
        let a = match guarded(Yubikey::new) {
            Ok(a) => a,
            Err(m) => return fail("panic", m),
        };
        let struck = bus(|b| b.fault_hit) && !hit0;
        r.log.push(format!("new: {}", err_name(&a)));
        match a {
            Ok(y) => {
                let sn = u32::from(y.yk.serial());
                let Some(t) = here.iter().copied().find(|t| toks[*t].0 == sn) else { return fail("open", format!("new() gave serial {sn}")) };
                r.yk = Some((y, t));
                r.shaken = struck;
            }
            Err(e) => ensure!(here.len() != 1 || struck, "open", "new() failed with one token: {e:?}"),
        }
    } else {
        let t = s.below(n);
        let serial = if s.chance(220) {
            toks[t].0
        } else {
            // One that resembles it.
            let x = toks[t].0;
            let ten = 10u32.pow(1 + s.below(8) as u32);
            match s.below(9) {
                0 => x ^ 1 << s.below(32),
                1 => x % ten,
                2 => x / ten,
                3 => x & 0xffff,
                4 => x & 0xff_ffff | s.u32() << 24,
                5 => x.swap_bytes(),
                6 => x.wrapping_add(1),
                7 => 0,
                _ => s.u32(),
            }
        };
        let a = match guarded(|| Yubikey::open(serial)) {
            Ok(a) => a,
            Err(m) => return fail("panic", m),
        };
        let struck = bus(|b| b.fault_hit) && !hit0;
        r.log.push(format!("open({serial}): {}", err_name(&a)));
        let want = here.iter().copied().find(|t| toks[*t].0 == serial);
        match (a, want) {
            (Ok(y), Some(t)) => {
                ensure!(u32::from(y.yk.serial()) == serial, "open", "open({serial}) gave serial {}", y.yk.serial());
                r.yk = Some((y, t));
                r.shaken = struck;
                cx.class("opened");
            }
            (Ok(y), None) => return fail("open", format!("open({serial}) gave serial {} with {toks:?}", y.yk.serial())),
            (Err(e), Some(_)) => ensure!(struck, "open", "open({serial}) failed: {e:?} with {toks:?}"),
            (Err(e), None) => ensure!(matches!(e, Error::NoSuchYubikey), "error", "open({serial}) gave {e:?}"),
        }
    }
    ensure!(before == stores(), "side-effect", "opening changed a token");
    Ok(())
}

//! C29: signing and enrolling with FIDO tokens, against emulated tokens.

use crate::hid::*;
use sshcerts::fido::generate::generate_new_ssh_key;
use sshcerts::ssh::*;
use sshcerts::PrivateKey;
use std::sync::mpsc::channel;
use std::sync::{Arc, RwLock};
use std::time::{Duration, Instant};
use vharness::crypto::*;
use vharness::engine::*;
use vharness::ensure;
use vharness::gen::*;
use vharness::props::common::*;
use vharness::props::sigs::signed_data;

pub fn properties() -> Vec<Property> {
    let f = |name, quick, thorough, f| Facet { name, quick, thorough, threads: 40, f };
    vec![Property {
        id: "C29",
        rule: "One to three emulated FIDO tokens (CTAP 2.0, CTAP 2.1 and U2F, over emulated hidraw devices and udev, beside devices that are none) hold generated credentials, PINs and options; the user touches one of them. sign: a history of signatures with SK private keys (plain, over a certificate, as SSHSIG) with and without PIN, where the tokens also hold look-alike credentials (same handle for another application, same application under another handle, the credential on a token that is not touched); each result and everything the tokens were made to do is judged by what they hold. enrol: keys are created on the tokens, which attest them properly or not, then used. faults: one of the two with one command failing, answered with an error, cut short or replaced by junk, or the token pulled. Non-trivial: a token used or made a credential, or was given a PIN; distinct by tokens and answers.",
        facets: vec![f("sign", 6000, 120000, sign), f("enrol", 6000, 120000, enrol), f("faults", 6000, 120000, faults)],
    }]
}

/// The library is built to trust the emulated tokens' root; when a tree cannot be built that way,
/// it has to refuse every attestation made here.
pub const OUR_ROOT: bool = option_env!("SSHCERTS_VERIF_ROOT").is_some();

/// Runs a call of the library with the tokens, on a thread of its own.
pub fn call<T: Send + 'static>(bus: &Arc<Bus>, f: impl FnOnce() -> T + Send + 'static) -> Result<T, Fail> {
    let (tx, rx) = channel();
    let b = bus.clone();
    std::thread::Builder::new()
        .spawn(move || {
            set(Some(b));
            let _ = tx.send(guarded(f));
            set(None);
        })
        .expect("spawn");
    // The library gives the user 15 seconds.
    match rx.recv_timeout(Duration::from_secs(50)) {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(m)) => fail("panic", m),
        Err(_) => fail("hang", "the call did not return within 50 s"),
    }
}

pub const PINS: [&str; 12] = ["1234", "0000", "123456", "pïn-π", "correct horse", "12345", " 1234", "1234 ", "1234\n", "PinPin", "pinpin", "\u{fb01}n-\u{212b}ngstr\u{f6}m"];

pub fn a_pin(s: &mut Src) -> String {
    s.pick(&PINS).to_string()
}
/// What someone may enter, which is no token's PIN in some cases.
pub fn some_pin(s: &mut Src) -> String {
    match s.below(8) {
        0 => String::new(),
        1 => "0".repeat(1 + s.below(63)),
        _ => a_pin(s),
    }
}
pub fn gen_tok(s: &mut Src) -> Tok {
    let kind = match s.below(8) {
        0..=3 => Kind::Fido2 { v21: true },
        4 | 5 => Kind::Fido2 { v21: false },
        _ => Kind::U2f,
    };
    let mut t = Tok::new(kind, s.u64());
    t.counter = *s.pick(&[0u32, 1, 254, 255, 256, 65535, 0x7fff_ffff, 0xffff_fffe, 0x0102_0304, 0xff00_0000]);
    if kind != Kind::U2f {
        t.pins = !s.chance(30);
        if t.pins && s.bool() {
            t.pin = Some(a_pin(s));
            t.retries = *s.pick(&[8u8, 8, 8, 1, 2, 3, 0]);
            t.streak = *s.pick(&[0u8, 0, 0, 1, 2, 3]);
        }
        t.always_uv = s.chance(70);
        t.uv_not_rqd = s.bool();
        t.puat = kind == Kind::Fido2 { v21: true } && s.bool();
        t.protos = s.pick(&[vec![1u8], vec![2], vec![1, 2], vec![2, 1]]).clone();
        t.max_list = *s.pick(&[Some(8u8), None, Some(1), Some(100)]);
        t.max_id = *s.pick(&[Some(128usize), None, Some(64)]);
        t.terse = s.bool();
        t.eddsa = !s.chance(20);
    }
    t.touch = Some(s.below(3) as u8);
    t.noise = s.chance(60);
    t.use_flags = if s.chance(60) { s.byte() } else { 0 };
    t.shape = *s.pick(&[Shape::Any, Shape::Any, Shape::ShortR, Shape::ShortS]);
    t
}
/// Tokens, and the one the user has chosen.
fn gen_bus(s: &mut Src) -> (Vec<Tok>, usize) {
    let n = s.weighted(&[5, 3, 1]) + 1;
    let mut toks: Vec<Tok> = (0..n).map(|_| gen_tok(s)).collect();
    let sel = s.below(n);
    for (i, t) in toks.iter_mut().enumerate() {
        if i != sel {
            t.touch = None;
        }
    }
    if n == 1 && s.chance(40) {
        toks[0].late = true;
    }
    // Devices that are no tokens, anywhere in between.
    let mut sel = sel;
    for _ in 0..s.weighted(&[3, 1, 1]) {
        let kind = *s.pick(&[Kind::Keyboard, Kind::Locked, Kind::Mute]);
        let at = s.below(toks.len() + 1);
        toks.insert(at, Tok::new(kind, 0));
        if at <= sel {
            sel += 1;
        }
    }
    (toks, sel)
}

pub fn an_app(s: &mut Src) -> String {
    match s.below(5) {
        0..=2 => s.pick(&["ssh:", "ssh:work", "ssh:Work", "ssh", "SSH:", "ssh: "]).to_string(),
        3 => format!("ssh:{}", word(s)),
        _ => {
            let t: String = text(s).chars().take(60).collect();
            t
        }
    }
}
pub fn gen_cred(s: &mut Src, u2f: bool) -> Cred {
    let seed = s.arr::<32>();
    let app = an_app(s);
    let key = if !u2f && s.bool() { Key::ed(Alg::SkEd, &seed, &app) } else { Key::ec(Alg::SkP256, &seed, &app) };
    let n = *s.pick(&[64usize, 64, 1, 16, 48, 63, 65, 96, 127, 128, 129, 200, 255, 256, 300]);
    let mut handle = s.blob(n.min(if u2f { 255 } else { 300 }));
    // Zeros at either end are part of it.
    let n = handle.len();
    match s.below(8) {
        0 => handle[0] = 0,
        1 => handle[n - 1] = 0,
        2 => handle.fill(0),
        _ => {}
    }
    Cred { handle, key }
}
pub fn usable(t: &Tok, handle: &[u8]) -> bool {
    match t.kind {
        Kind::U2f => handle.len() < 256,
        _ => t.max_id.is_none_or(|m| handle.len() <= m),
    }
}

/// What the selected token would do on being asked for this.
pub enum Uv {
    NotNeeded,
    Right,
    /// No PIN given.
    Missing,
    /// Wrong; what remains, and after how many in a row.
    Wrong(u8, u8),
    Blocked,
    Locked,
    /// Needed, but none set.
    Unset,
}
pub fn uv(t: &Tok, needed: bool, pin: Option<&str>) -> Uv {
    if !needed {
        return Uv::NotNeeded;
    }
    let Some(set) = t.pin.as_deref() else { return Uv::Unset };
    let Some(p) = pin else { return Uv::Missing };
    if t.retries == 0 {
        return Uv::Blocked;
    }
    if t.streak >= 3 {
        return Uv::Locked;
    }
    if p == set {
        Uv::Right
    } else {
        Uv::Wrong(t.retries - 1, t.streak + 1)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Way {
    Plain,
    Cert,
    Sig,
}

pub struct World {
    pub bus: Arc<Bus>,
    pub sel: usize,
    pub log: Vec<String>,
    pub reached: bool,
    /// What was signed last.
    pub last: Option<(Way, Vec<u8>, String, usize)>,
}
impl World {
    pub fn new(toks: Vec<Tok>, sel: usize) -> World {
        World { bus: Bus::new(toks), sel, log: vec![], reached: false, last: None }
    }
    pub fn toks(&self) -> Vec<Tok> {
        self.bus.toks.lock().unwrap_or_else(|e| e.into_inner()).clone()
    }
    /// What the tokens did since the given state.
    pub fn news(&self, before: &[Tok]) -> Vec<Vec<Ev>> {
        self.toks().iter().zip(before).map(|(a, b)| a.log[b.log.len()..].to_vec()).collect()
    }
    pub fn describe(&self) -> String {
        let t: Vec<String> = self
            .toks()
            .iter()
            .enumerate()
            .map(|(i, t)| format!("{}{:?} pin={:?} always_uv={} creds={}", if i == self.sel { "*" } else { "" }, t.kind, t.pin, t.always_uv, t.creds.len()))
            .collect();
        format!("[{}] {}", t.join("; "), self.log.join("; "))
    }
}

/// Checks the tokens other than the selected were not made to do anything with keys or PINs.
fn others_idle(w: &World, before: &[Tok]) -> PResult {
    for (i, (ev, (a, b))) in w.news(before).iter().zip(w.toks().iter().zip(before)).enumerate() {
        if i == w.sel {
            continue;
        }
        let bad: Vec<&Ev> = ev.iter().filter(|e| !matches!(e, Ev::Touched | Ev::Used { up: false, .. })).collect();
        ensure!(bad.is_empty(), "other-token", "token {i}, not the chosen one, was made to do {bad:?}: {}", w.describe());
        ensure!(a.retries == b.retries && a.streak == b.streak && a.creds.len() == b.creds.len(), "other-token", "token {i} changed: {}", w.describe());
    }
    Ok(())
}

pub fn sk_key(k: &Key, flags: u8, handle: &[u8], pin: Option<&str>) -> Result<PrivateKey, Fail> {
    let f = priv_armor(&priv_file(k, 0x0a0b_0c0d, "on a token", (flags, handle, b"")));
    let mut p = PrivateKey::from_string(&f).map_err(|e| Fail { kind: "priv-load".into(), msg: format!("{e}: {f}") })?;
    if let Some(x) = pin {
        p.set_pin(x);
    }
    Ok(p)
}

/// Has the library sign something: the signature and the data it is for; none when the library
/// reports a failure.
pub fn ask(s: &mut Src, w: &mut World, k: &Key, key: PrivateKey) -> Result<(Way, Option<(Vec<u8>, Vec<u8>)>), Fail> {
    let (way, msg, ns, h) = match &w.last {
        // The same again, with this or another key.
        Some(l) if s.chance(110) => l.clone(),
        _ => {
            let way = *s.pick(&[Way::Plain, Way::Plain, Way::Cert, Way::Sig]);
            let n = *s.pick(&[0usize, 1, 31, 32, 33, 64, 100, 1000, 5000]);
            (way, s.blob(n), word(s), s.below(3))
        }
    };
    w.last = Some((way, msg.clone(), ns.clone(), h));
    let (hash, hname) = match h {
        0 => (Some(HashAlgorithm::Sha256), "sha256"),
        1 => (Some(HashAlgorithm::Sha512), "sha512"),
        _ => (None, "sha512"),
    };
    let subject = key_soft(s);
    let subj = lib_pub(&subject)?;
    let ca = lib_pub(k)?;
    let serial = s.u64();
    let (m2, ns2, kid) = (msg.clone(), ns.clone(), word(s));
    let got: Option<(Vec<u8>, Vec<u8>)> = call(&w.bus, move || match way {
        Way::Plain => Ok(SSHCertificateSigner::sign(&key, &m2).map(|x| (x, m2))),
        Way::Sig => match VerifiedSshSignature::new_with_private_key(&m2, &ns2, key, hash) {
            Ok(v) => {
                let d = signed_data(ns2.as_bytes(), hname, &m2);
                Ok(Some((v.signature.signature.clone(), d)))
            }
            Err(_) => Ok(None),
        },
        Way::Cert => {
            let c = Certificate::builder(&subj, CertType::User, &ca).and_then(|c| c.serial(serial).key_id(kid).principal("p").valid_after(1).valid_before(99).sign(&key));
            match c {
                Err(_) => Ok(None),
                Ok(c) => {
                    let b = vharness::wire::unb64(c.to_string().split(' ').nth(1).unwrap_or("")).unwrap_or_default();
                    match ref_cert_structure(&b) {
                        Some(r) => Ok(Some((r.sig.clone(), b[..b.len() - r.sig.len() - 4].to_vec()))),
                        None => Err("the certificate does not parse".to_string()),
                    }
                }
            }
        }
    })?
    .map_err(|m| Fail { kind: "cert".into(), msg: m })?;
    Ok((way, got))
}
/// A signature with the key, judged.
fn one_sign(s: &mut Src, cx: &mut Ctx, w: &mut World, k: &Key, handle: &[u8], key: PrivateKey, pin: Option<&str>) -> PResult {
    let before = w.toks();
    let t = &before[w.sel];
    let faulty = t.fault.is_some() && !t.struck;
    let (way, got) = ask(s, w, k, key)?;
    let after = w.toks();
    let struck = faulty && after[w.sel].struck;
    let ev = w.news(&before);
    w.log.push(format!("{way:?} with {:?} {}-byte handle for {:?} pin={pin:?}: {}", k.alg, handle.len(), k.app, if got.is_some() { "signed" } else { "none" }));
    others_idle(w, &before)?;
    let mine = &ev[w.sel];
    let held = t.is_token() && t.creds.iter().any(|c| c.handle == handle && c.key.app == k.app) && usable(t, handle);
    let needed = t.kind != Kind::U2f && t.always_uv && t.pins;
    let v = uv(t, needed, pin);
    let pins: Vec<&Ev> = mine.iter().filter(|e| matches!(e, Ev::WrongPin | Ev::RightPin)).collect();
    let used: Vec<&Ev> = mine.iter().filter(|e| matches!(e, Ev::Used { up: true, .. })).collect();
    ensure!(!mine.iter().any(|e| matches!(e, Ev::Made { .. })), "made", "signing made a credential: {}", w.describe());
    ensure!(mine.iter().filter(|e| matches!(e, Ev::WrongPin)).count() <= 1, "retries", "more than one PIN attempt: {mine:?}: {}", w.describe());
    if !used.is_empty() || !pins.is_empty() {
        w.reached = true;
    }
    let right = matches!(v, Uv::NotNeeded | Uv::Right);
    match &got {
        Some((sig, data)) => {
            cx.class(match (t.kind, way) {
                (Kind::U2f, _) => "signed by U2F",
                (_, Way::Plain) => "signed plain",
                (_, Way::Cert) => "signed certificate",
                (_, Way::Sig) => "signed SSHSIG",
            });
            if matches!(v, Uv::Right) {
                cx.class("signed after PIN");
            }
            ensure!(held, "not-held", "a signature by a token that does not hold the key: {}", w.describe());
            ensure!(verify(&refpub(k), sig, data, false), "bad-signature", "the signature does not verify: {} over {}: {}", hex(sig), hex(data), w.describe());
            ensure!(right, "uv", "signed although the PIN was not right: {}", w.describe());
            // The flags and the counter are the token's.
            let tail = &sig[sig.len() - 5..];
            let flags = 1 | (matches!(v, Uv::Right) as u8) << 2 | if t.kind == Kind::U2f { 0 } else { t.use_flags & 0x3a };
            let counter = u32::from_be_bytes([tail[1], tail[2], tail[3], tail[4]]);
            let last = after[w.sel].counter;
            ensure!(tail[0] == flags, "flags", "flags {:02x}, the token's are {flags:02x}: {}", tail[0], w.describe());
            ensure!(struck || counter == last, "counter", "counter {counter}, the token's is {last}: {}", w.describe());
            let ok = used.iter().all(|e| matches!(e, Ev::Used { rp, hash, handle: h, .. } if rp[..] == sha256(k.app.as_bytes())[..] && *hash == sha256(data) && h == handle));
            ensure!(ok && !used.is_empty() && (struck || used.len() == 1), "use", "the token was used for {used:?}: {}", w.describe());
        }
        None => {
            if struck {
                cx.class("failed after a fault");
            } else {
                ensure!(!(held && right), "no-signature", "no signature although the token holds the key and the PIN is right: {}", w.describe());
                ensure!(used.is_empty(), "use", "used {used:?} without a result: {}", w.describe());
                cx.class(if right { "key not held" } else { "PIN not right" });
            }
        }
    }
    if !struck {
        match v {
            Uv::NotNeeded | Uv::Missing | Uv::Blocked | Uv::Locked | Uv::Unset => ensure!(pins.is_empty(), "pin", "PIN attempts {pins:?}: {}", w.describe()),
            Uv::Right => ensure!(!pins.contains(&&Ev::WrongPin), "pin", "a wrong PIN was sent: {}", w.describe()),
            Uv::Wrong(..) => ensure!(pins == [&Ev::WrongPin], "pin", "PIN attempts {pins:?}: {}", w.describe()),
        }
    }
    Ok(())
}

/// Credentials on the tokens, among them look-alikes of one.
pub fn stock(s: &mut Src, toks: &mut [Tok], sel: usize) -> Cred {
    let u2f = toks[sel].kind == Kind::U2f;
    let main = gen_cred(s, u2f);
    for (i, t) in toks.iter_mut().enumerate() {
        if !t.is_token() {
            continue;
        }
        let u2f = t.kind == Kind::U2f;
        for _ in 0..s.below(3) {
            let mut c = gen_cred(s, u2f);
            match s.below(4) {
                0 => c.handle = main.handle.clone(),
                1 => {
                    let seed = s.arr::<32>();
                    c.key = match c.key.alg {
                        Alg::SkEd => Key::ed(Alg::SkEd, &seed, &main.key.app),
                        _ => Key::ec(Alg::SkP256, &seed, &main.key.app),
                    }
                }
                2 => {
                    c.handle = main.handle.clone();
                    match s.below(3) {
                        0 => {
                            c.handle.pop();
                        }
                        1 => c.handle.push(s.byte()),
                        _ => {
                            let n = c.handle.len();
                            c.handle[s.below(n)] ^= 1 << s.below(8);
                        }
                    }
                }
                _ => {}
            }
            // A token has at most one key for a handle and application.
            if t.creds.iter().chain([&main]).any(|o| c.handle == o.handle && c.key.app == o.key.app) || c.handle.is_empty() {
                continue;
            }
            if u2f && (c.key.alg == Alg::SkEd || c.handle.len() > 255) {
                continue;
            }
            t.creds.push(c);
        }
        // The chosen token usually has it; another one sometimes has it instead.
        let has = if i == sel { s.chance(200) } else { s.chance(60) };
        if has && !(u2f && main.key.alg == Alg::SkEd) {
            let at = s.below(t.creds.len() + 1);
            t.creds.insert(at, main.clone());
        }
    }
    main
}

fn signing(s: &mut Src, cx: &mut Ctx, fault: Option<(u8, Fault)>) -> PResult {
    let (mut toks, sel) = gen_bus(s);
    let main = stock(s, &mut toks, sel);
    toks[sel].fault = fault;
    // Waiting in vain takes 15 seconds.
    if fault.is_none() && s.chance(1) && s.chance(100) {
        return in_vain(s, cx, toks, main);
    }
    let mut w = World::new(toks, sel);
    for i in 0..1 + s.below(4) {
        if i > 0 && s.chance(60) {
            change(s, &mut w, &main);
        }
        let sel = w.sel;
        let t = &w.toks()[sel];
        let c = if s.chance(50) && !t.creds.is_empty() { s.pick(&t.creds).clone() } else { main.clone() };
        // A file may have no handle at all.
        let c = if s.chance(10) { Cred { handle: vec![], ..c } } else { c };
        let pin = if s.chance(170) { t.pin.clone().or_else(|| s.bool().then(|| some_pin(s))) } else { s.bool().then(|| some_pin(s)) };
        let key = sk_key(&c.key, *s.pick(&[1u8, 5, 0x21, 0]), &c.handle, pin.as_deref())?;
        one_sign(s, cx, &mut w, &c.key, &c.handle, key, pin.as_deref())?;
        if w.toks()[sel].struck {
            break;
        }
    }
    cx.desc(|| w.describe());
    if w.reached {
        cx.nontrivial(&w.describe());
    }
    Ok(())
}
/// Something happens to the tokens between two calls.
fn change(s: &mut Src, w: &mut World, main: &Cred) {
    let mut toks = w.bus.toks.lock().unwrap_or_else(|e| e.into_inner());
    let others: Vec<usize> = (0..toks.len()).filter(|i| *i != w.sel && toks[*i].is_token()).collect();
    let t = &mut toks[w.sel];
    match s.below(4) {
        0 => {
            w.log.push("credential deleted".into());
            t.creds.retain(|c| c.handle != main.handle || c.key.app != main.key.app);
        }
        1 if t.pin.is_some() => {
            t.pin = Some(a_pin(s));
            w.log.push(format!("PIN now {:?}", t.pin));
        }
        2 => {
            t.always_uv ^= t.kind != Kind::U2f;
            w.log.push(format!("always_uv={}", t.always_uv));
        }
        _ if !others.is_empty() => {
            t.touch = None;
            w.sel = *s.pick(&others);
            toks[w.sel].touch = Some(s.below(3) as u8);
            w.log.push(format!("touching token {}", w.sel));
        }
        _ => {}
    }
}
/// Nobody touches a token, or there is none.
fn in_vain(s: &mut Src, cx: &mut Ctx, mut toks: Vec<Tok>, main: Cred) -> PResult {
    if s.bool() {
        toks.retain(|t| !t.is_token());
    }
    for t in &mut toks {
        t.touch = None;
        t.always_uv = false;
    }
    let w = World::new(toks, usize::MAX);
    let before = w.toks();
    let key = sk_key(&main.key, 1, &main.handle, None)?;
    let got = call(&w.bus, move || SSHCertificateSigner::sign(&key, b"x"))?;
    cx.class("nobody touches");
    ensure!(got.is_none(), "untouched", "signed without a touch: {}", w.describe());
    others_idle(&w, &before)?;
    cx.nontrivial(&w.describe());
    Ok(())
}
/// The library waits 15 seconds for the user. A case that took that long on a busy machine and
/// then failed is tried again by itself.
fn steady(s: &mut Src, cx: &mut Ctx, f: FacetFn) -> PResult {
    static BUSY: RwLock<()> = RwLock::new(());
    let t0 = Instant::now();
    let r = {
        let _g = BUSY.read();
        f(s, cx)
    };
    match r {
        Err(e) if e.kind != "hang" && t0.elapsed() > Duration::from_secs(5) => {
            let _g = BUSY.write();
            let mut again = Src::replay(s.consumed(), 0);
            f(&mut again, &mut Ctx::default())
        }
        r => r,
    }
}
fn sign(s: &mut Src, cx: &mut Ctx) -> PResult {
    steady(s, cx, |s, cx| signing(s, cx, None))
}

#[derive(Debug, PartialEq)]
enum Said {
    Done,
    PinRequired,
    InvalidPin(Option<u8>),
    Locked,
    Blocked,
    Other,
}

fn enrolling(s: &mut Src, cx: &mut Ctx, fault: Option<(u8, Fault)>) -> PResult {
    let (mut toks, sel) = gen_bus(s);
    for t in &mut toks {
        t.attest = match s.weighted(&[10, 3, 10]) {
            0 => Attest::Good,
            1 => Attest::Chain,
            _ => *s.pick(&[Attest::OtherRoot, Attest::OtherKey, Attest::OtherChallenge, Attest::OtherData, Attest::Altered, Attest::Own, Attest::None, Attest::U2f, Attest::WrongAlg]),
        };
        t.att_flags = if s.chance(40) { s.byte() } else { 0 };
    }
    let main = stock(s, &mut toks, sel);
    toks[sel].fault = fault;
    let mut w = World::new(toks, sel);
    let mut seen: Vec<Vec<u8>> = vec![];
    for _ in 0..1 + s.below(2) {
        let before = w.toks();
        let t = before[sel].clone();
        let faulty = t.fault.is_some() && !t.struck;
        let app = if s.bool() { an_app(s) } else { main.key.app.clone() };
        let comment = text(s);
        let pin = if s.chance(170) { t.pin.clone().or_else(|| s.bool().then(|| some_pin(s))) } else { s.bool().then(|| some_pin(s)) };
        let (a2, c2, p2) = (app.clone(), comment.clone(), pin.clone());
        let got = call(&w.bus, move || generate_new_ssh_key(&a2, &c2, p2, None))?;
        let after = w.toks();
        let struck = faulty && after[sel].struck;
        let ev = w.news(&before);
        let mine = &ev[sel];
        use sshcerts::error::Error as E;
        use sshcerts::fido::Error as F;
        let said = match &got {
            Ok(_) => Said::Done,
            Err(E::FidoError(F::PinRequired)) => Said::PinRequired,
            Err(E::FidoError(F::InvalidPin(n))) => Said::InvalidPin(*n),
            Err(E::FidoError(F::KeyLocked)) => Said::Locked,
            Err(E::FidoError(F::KeyBlocked)) => Said::Blocked,
            Err(_) => Said::Other,
        };
        w.log.push(format!("enrol for {app:?} pin={pin:?} attested {:?}: {said:?}{}", t.attest, got.as_ref().err().map(|e| format!(" ({e})")).unwrap_or_default()));
        others_idle(&w, &before)?;
        let made: Vec<&Ev> = mine.iter().filter(|e| matches!(e, Ev::Made { .. })).collect();
        let wrong = mine.iter().filter(|e| matches!(e, Ev::WrongPin)).count();
        if !made.is_empty() || wrong > 0 {
            w.reached = true;
        }
        ensure!(wrong <= 1, "retries", "more than one PIN attempt: {mine:?}: {}", w.describe());
        ensure!(!mine.iter().any(|e| matches!(e, Ev::Used { up: true, .. })), "use", "enrolling used a key: {mine:?}: {}", w.describe());
        let Kind::Fido2 { v21 } = t.kind else {
            ensure!(matches!(said, Said::Other), "u2f", "enrolling an Ed25519 key on a U2F token gave {said:?}: {}", w.describe());
            ensure!(made.is_empty(), "made", "{made:?}");
            cx.class("U2F token");
            continue;
        };
        let needed = t.pins && (t.always_uv || t.pin.is_some() && !(v21 && t.uv_not_rqd));
        let v = uv(&t, needed, pin.as_deref());
        if !struck {
            // What the caller is told.
            let want = match v {
                Uv::NotNeeded | Uv::Right => {
                    if t.eddsa && OUR_ROOT && matches!(t.attest, Attest::Good | Attest::Chain) {
                        Said::Done
                    } else {
                        Said::Other
                    }
                }
                Uv::Missing => Said::PinRequired,
                Uv::Blocked => Said::Blocked,
                Uv::Locked => Said::Locked,
                Uv::Unset => Said::Other,
                Uv::Wrong(0, _) => Said::Blocked,
                Uv::Wrong(_, 3..) => Said::Locked,
                Uv::Wrong(n, _) => Said::InvalidPin(Some(n)),
            };
            ensure!(said == want, "answer", "enrolling gave {said:?} where {want:?} was due: {}", w.describe());
            cx.class(match v {
                Uv::Right => "PIN right",
                Uv::NotNeeded => "PIN not needed",
                Uv::Missing => "PIN missing",
                Uv::Unset => "PIN not set",
                Uv::Wrong(..) => "PIN wrong",
                _ => "PIN locked",
            });
            let makes = matches!(v, Uv::NotNeeded | Uv::Right) && t.eddsa;
            ensure!(made.len() == makes as usize, "made", "made {made:?}: {}", w.describe());
            ensure!(wrong == matches!(v, Uv::Wrong(..)) as usize, "pin", "{wrong} wrong PINs were sent: {}", w.describe());
        }
        for e in &made {
            let Ev::Made { rp, user, rk, challenge, .. } = e else { continue };
            ensure!(*rp == app, "application", "asked for {rp:?} instead of {app:?}: {}", w.describe());
            ensure!(!rk, "resident", "asked for a resident key: {}", w.describe());
            ensure!(!user.is_empty() || app.is_empty(), "user", "no user id: {}", w.describe());
            ensure!(!seen.contains(challenge) && challenge.len() == 32, "challenge", "challenge {} used before: {}", hex(challenge), w.describe());
            // All of it is random, so no eight bytes of it occur twice.
            let parts = |c: &Vec<u8>| c.chunks(8).map(|x| x.to_vec()).collect::<Vec<_>>();
            let mut all: Vec<Vec<u8>> = seen.iter().flat_map(parts).chain(parts(challenge)).collect();
            all.sort();
            ensure!(all.windows(2).all(|w| w[0] != w[1]), "challenge", "challenge {} repeats itself or an earlier one: {}", hex(challenge), w.describe());
            seen.push(challenge.clone());
        }
        let Ok(f) = got else { continue };
        cx.class("enrolled");
        ensure!(OUR_ROOT && matches!(t.attest, Attest::Good | Attest::Chain), "attestation", "enrolled although the attestation is {:?}: {}", t.attest, w.describe());
        ensure!(matches!(v, Uv::NotNeeded | Uv::Right), "uv", "enrolled without the PIN: {}", w.describe());
        // The key returned is the one made.
        let Some(Ev::Made { handle, challenge, .. }) = made.last() else { return fail("made", format!("no credential was made: {}", w.describe())) };
        let cred = after[sel].creds.last().expect("a credential").clone();
        let (data, sig, cert) = after[sel].given.clone().expect("an attestation");
        let p = &f.private_key;
        if let Err(m) = same_pub(&p.pubkey, &refpub(&cred.key)) {
            return fail("public-key", m);
        }
        ensure!(p.comment == comment, "comment", "comment {:?} instead of {comment:?}", p.comment);
        ensure!(p.key_type.name == "sk-ssh-ed25519@openssh.com", "key-type", "key type {}", p.key_type.name);
        match &p.kind {
            PrivateKeyKind::Ed25519Sk(k) => {
                ensure!(k.handle == *handle, "handle", "handle {} instead of {}", hex(&k.handle), hex(handle));
                ensure!(k.flags == data[32], "flags", "flags {:02x} instead of {:02x}", k.flags, data[32]);
                ensure!(k.reserved.is_empty(), "reserved", "reserved field {}", hex(&k.reserved));
                ensure!(k.pin == pin, "pin", "PIN {:?} instead of {pin:?}", k.pin);
            }
            _ => return fail("kind", format!("a private key of another kind: {}", w.describe())),
        }
        let a = &f.attestation;
        let same = a.auth_data == data && a.auth_data_sig == sig && a.intermediate == cert && a.challenge == *challenge && a.alg == -7;
        ensure!(same, "attestation-fields", "the attestation differs from the token's: {a:?}: {}", w.describe());
        ensure!(a.verify().is_ok(), "attestation", "the attestation does not verify afterwards: {}", w.describe());
        // It can be used, from memory and from its file.
        let key = if s.bool() {
            f.private_key
        } else {
            let mut b = vec![];
            f.private_key.write(&mut b).map_err(|e| Fail { kind: "write".into(), msg: format!("{e}") })?;
            let txt = String::from_utf8_lossy(&b).into_owned();
            let mut k = PrivateKey::from_string(&txt).map_err(|e| Fail { kind: "reload".into(), msg: format!("{e}: {txt}") })?;
            ensure!(k.comment == comment, "reload", "comment {:?} after reloading", k.comment);
            if let Some(x) = &pin {
                k.set_pin(x);
            }
            k
        };
        one_sign(s, cx, &mut w, &cred.key, &cred.handle, key, pin.as_deref())?;
        if w.toks()[sel].struck {
            break;
        }
    }
    cx.desc(|| w.describe());
    if w.reached {
        cx.nontrivial(&w.describe());
    }
    Ok(())
}
fn enrol(s: &mut Src, cx: &mut Ctx) -> PResult {
    steady(s, cx, |s, cx| enrolling(s, cx, None))
}

fn faults(s: &mut Src, cx: &mut Ctx) -> PResult {
    steady(s, cx, faulty)
}
fn faulty(s: &mut Src, cx: &mut Ctx) -> PResult {
    let at = s.below(7) as u8;
    let f = match s.below(7) {
        0 => Fault::Status(*s.pick(&[0x01u8, 0x11, 0x12, 0x14, 0x26, 0x27, 0x2e, 0x2d, 0x2f, 0x31, 0x32, 0x33, 0x34, 0x35, 0x36, 0x38, 0x3a, 0x7f, 0xf0])),
        1 => Fault::LateStatus(*s.pick(&[0x01u8, 0x11, 0x27, 0x2e, 0x2f, 0x3a, 0x7f])),
        2 => Fault::Hid(*s.pick(&[0x01u8, 0x03, 0x04, 0x05, 0x0b, 0x7f])),
        3 => Fault::Gone,
        4 => Fault::GoneAfter,
        5 => Fault::Cut(s.byte()),
        _ => Fault::Garbage(s.byte()),
    };
    if s.bool() {
        signing(s, cx, Some((at, f)))
    } else {
        enrolling(s, cx, Some((at, f)))
    }
}

//! C36: the `fido-support` backend, against emulated tokens.

use crate::fido::*;
use crate::hid::*;
use sshcerts::fido::generate::generate_new_ssh_key;
use sshcerts::fido::{device_pin_retries, device_requires_pin, list_fido_devices};
use sshcerts::ssh::*;
use sshcerts::PrivateKey;
use vharness::crypto::*;
use vharness::engine::*;
use vharness::ensure;
use vharness::gen::*;
use vharness::props::common::*;

pub fn properties() -> Vec<Property> {
    // hidapi keeps global state and is not made for threads.
    let f = |name, quick, thorough, f| Facet { name, quick, thorough, threads: 1, f };
    vec![Property {
        id: "C36",
        rule: "The library built with the feature fido-support. Up to four emulated devices (CTAP 2.0, CTAP 2.1 and U2F tokens, keyboards, unreadable and mute devices) with generated credentials, look-alikes of them, PINs and names. history: signatures, enrolments and questions (list, PIN needed, PIN attempts left) in generated order, with the path of a device, of one that is missing, or none; between them credentials, PINs and options change. Each result and all that the tokens were made to do is judged by what the addressed token holds. faults: the same with one command failing, answered with an error, or the token pulled. Non-trivial: a token used or made a credential, was given a PIN, or answered a question; distinct by devices and answers.",
        facets: vec![f("history", 5000, 60000, history), f("faults", 3000, 40000, faults)],
    }]
}

fn path(n: usize) -> String {
    format!("{PREFIX}{n}")
}

/// The device a call goes to: the one with the path, or else the first FIDO device that opens.
fn addressed(toks: &[Tok], at: Option<usize>) -> Option<usize> {
    let opens = |t: &Tok| !matches!(t.kind, Kind::Locked);
    match at {
        Some(n) => toks.get(n).filter(|t| opens(t)).map(|_| n),
        None => toks.iter().position(|t| opens(t) && t.kind != Kind::Keyboard),
    }
}

/// Nothing but the addressed device did anything.
fn others_idle(w: &World, before: &[Tok], at: Option<usize>) -> PResult {
    for (i, ev) in w.news(before).iter().enumerate() {
        ensure!(Some(i) == at || ev.is_empty(), "other-token", "device {i} instead of {at:?} was made to do {ev:?}: {}", w.describe());
    }
    for (i, (a, b)) in w.toks().iter().zip(before).enumerate() {
        ensure!(Some(i) == at || a.retries == b.retries && a.creds.len() == b.creds.len(), "other-token", "token {i} changed: {}", w.describe());
    }
    Ok(())
}

/// What the token does when it is given this PIN with every request.
#[derive(PartialEq, Debug)]
enum P {
    None,
    Right,
    Wrong,
    /// Wrong as well.
    Empty,
    /// Not judged beyond soundness: the token has no PIN, or not the protocol the backend uses.
    Unsupported,
    Locked,
}
fn pin_state(t: &Tok, pin: Option<&str>) -> P {
    let Some(p) = pin else { return P::None };
    let Some(set) = t.pin.as_deref() else { return P::Unsupported };
    // The driver does not even send an empty one.
    if p.is_empty() {
        return P::Empty;
    }
    if !t.protos.contains(&1) {
        return P::Unsupported;
    }
    if t.retries == 0 || t.streak >= 3 {
        return P::Locked;
    }
    if p == set {
        P::Right
    } else {
        P::Wrong
    }
}
fn judge_pins(w: &World, mine: &[Ev], p: &P, struck: bool) -> PResult {
    let pins: Vec<&Ev> = mine.iter().filter(|e| matches!(e, Ev::WrongPin | Ev::RightPin)).collect();
    ensure!(pins.len() <= 1, "retries", "more than one PIN attempt: {mine:?}: {}", w.describe());
    if !struck {
        let ok = match p {
            P::Wrong => pins == [&Ev::WrongPin],
            P::Right => pins == [&Ev::RightPin],
            _ => pins.is_empty(),
        };
        ensure!(ok, "pin", "PIN attempts {pins:?} with {p:?}: {}", w.describe());
    }
    Ok(())
}

fn one_sign(s: &mut Src, cx: &mut Ctx, w: &mut World, k: &Key, handle: &[u8], key: PrivateKey, pin: Option<&str>, at: Option<usize>) -> PResult {
    let before = w.toks();
    let n = addressed(&before, at);
    let (way, got) = ask(s, w, k, key)?;
    let after = w.toks();
    w.log.push(format!("{way:?} with {:?} {}-byte handle for {:?} at {at:?} pin={pin:?}: {}", k.alg, handle.len(), k.app, if got.is_some() { "signed" } else { "none" }));
    others_idle(w, &before, n)?;
    let Some(n) = n else {
        ensure!(got.is_none(), "no-device", "signed without a device: {}", w.describe());
        cx.class("no device to sign");
        return Ok(());
    };
    let t = &before[n];
    let mine = &w.news(&before)[n];
    let struck = t.fault.is_some() && !t.struck && after[n].struck;
    let p = pin_state(t, pin);
    let fido2 = matches!(t.kind, Kind::Fido2 { .. });
    let held = fido2 && t.creds.iter().any(|c| c.handle == handle && c.key.app == k.app);
    let used: Vec<&Ev> = mine.iter().filter(|e| matches!(e, Ev::Used { .. })).collect();
    if !mine.is_empty() {
        w.reached = true;
    }
    ensure!(!mine.iter().any(|e| matches!(e, Ev::Made { .. })), "made", "signing made a credential: {}", w.describe());
    if fido2 {
        judge_pins(w, mine, &p, struck)?;
    }
    let needs = t.always_uv && t.pin.is_some();
    let good = match p {
        P::None => !needs,
        P::Right => true,
        _ => false,
    };
    match &got {
        Some((sig, data)) => {
            cx.class(match way {
                Way::Plain => "signed plain",
                Way::Cert => "signed certificate",
                Way::Sig => "signed SSHSIG",
            });
            ensure!(held, "not-held", "a signature by a token that does not hold the key: {}", w.describe());
            ensure!(verify(&refpub(k), sig, data, false), "bad-signature", "the signature does not verify: {} over {}: {}", hex(sig), hex(data), w.describe());
            ensure!(good || p == P::Unsupported && !needs, "uv", "signed although the PIN was not right: {}", w.describe());
            let tail = &sig[sig.len() - 5..];
            let flags = 1 | ((p == P::Right) as u8) << 2 | t.use_flags & 0x3a;
            let counter = u32::from_be_bytes([tail[1], tail[2], tail[3], tail[4]]);
            ensure!(tail[0] == flags, "flags", "flags {:02x}, the token's are {flags:02x}: {}", tail[0], w.describe());
            ensure!(counter == after[n].counter, "counter", "counter {counter}, the token's is {}: {}", after[n].counter, w.describe());
            let ok = used.iter().all(|e| matches!(e, Ev::Used { rp, hash, handle: h, up } if rp[..] == sha256(k.app.as_bytes())[..] && *hash == sha256(data) && h == handle && *up));
            ensure!(ok && used.len() == 1, "use", "the token was used for {used:?}: {}", w.describe());
            if p == P::Right {
                cx.class("signed after PIN");
            }
        }
        None => {
            if struck {
                cx.class("failed after a fault");
            } else {
                ensure!(!(held && good), "no-signature", "no signature although the token holds the key and the PIN is right: {}", w.describe());
                ensure!(used.is_empty() || p == P::Unsupported, "use", "used {used:?} without a result: {}", w.describe());
                cx.class(if good { "key not held" } else { "PIN not right" });
            }
        }
    }
    Ok(())
}

fn one_enrol(s: &mut Src, cx: &mut Ctx, w: &mut World, app: String, pin: Option<String>, at: Option<usize>, seen: &mut Vec<Vec<u8>>) -> PResult {
    let before = w.toks();
    let n = addressed(&before, at);
    let comment = text(s);
    let (a2, c2, p2, d2) = (app.clone(), comment.clone(), pin.clone(), at.map(path));
    let got = call(&w.bus, move || generate_new_ssh_key(&a2, &c2, p2, d2))?;
    let after = w.toks();
    w.log.push(format!("enrol for {app:?} at {at:?} pin={pin:?}: {}", got.as_ref().map(|_| "done".to_string()).unwrap_or_else(|e| format!("{e}"))));
    others_idle(w, &before, n)?;
    let Some(n) = n else {
        ensure!(got.is_err(), "no-device", "enrolled without a device: {}", w.describe());
        cx.class("no device to enrol");
        return Ok(());
    };
    let t = &before[n];
    let mine = w.news(&before)[n].clone();
    if !mine.is_empty() {
        w.reached = true;
    }
    let struck = t.fault.is_some() && !t.struck && after[n].struck;
    // To the driver an empty PIN is none here.
    let p = pin_state(t, pin.as_deref().filter(|p| !p.is_empty()));
    let made: Vec<&Ev> = mine.iter().filter(|e| matches!(e, Ev::Made { .. })).collect();
    ensure!(!mine.iter().any(|e| matches!(e, Ev::Used { .. })), "use", "enrolling used a key: {mine:?}: {}", w.describe());
    let Kind::Fido2 { .. } = t.kind else {
        ensure!(got.is_err() && made.is_empty(), "u2f", "enrolled on a device without FIDO2: {}", w.describe());
        cx.class("no FIDO2 device");
        return Ok(());
    };
    judge_pins(w, &mine, &p, struck)?;
    let needs = t.pin.is_some() && (t.always_uv || !t.uv_not_rqd);
    let makes = match p {
        P::None => !needs,
        P::Right => true,
        _ => false,
    } && t.eddsa;
    let attested = OUR_ROOT && matches!(t.attest, Attest::Good | Attest::Chain);
    if !struck && p != P::Unsupported {
        ensure!(made.len() == makes as usize, "made", "made {made:?}: {}", w.describe());
        // An attestation in the format of U2F has no algorithm; nothing else of it is judged.
        ensure!(got.is_ok() == (makes && attested) || t.attest == Attest::U2f, "answer", "enrolling {} (attestation {:?}): {}", if got.is_ok() { "succeeded" } else { "failed" }, t.attest, w.describe());
    }
    for e in &made {
        let Ev::Made { rp, rk, challenge, .. } = e else { continue };
        ensure!(*rp == app, "application", "asked for {rp:?} instead of {app:?}: {}", w.describe());
        ensure!(!rk, "resident", "asked for a resident key: {}", w.describe());
        ensure!(!seen.contains(challenge) && challenge.len() == 32, "challenge", "challenge {} used before: {}", hex(challenge), w.describe());
        // All of it is random, so no eight bytes of it occur twice.
        let parts = |c: &Vec<u8>| c.chunks(8).map(|x| x.to_vec()).collect::<Vec<_>>();
        let mut all: Vec<Vec<u8>> = seen.iter().flat_map(parts).chain(parts(challenge)).collect();
        all.sort();
        ensure!(all.windows(2).all(|w| w[0] != w[1]), "challenge", "challenge {} repeats itself or an earlier one: {}", hex(challenge), w.describe());
        seen.push(challenge.clone());
    }
    let Ok(f) = got else {
        cx.class("not enrolled");
        return Ok(());
    };
    cx.class("enrolled");
    ensure!(attested, "attestation", "enrolled although the attestation is {:?}: {}", t.attest, w.describe());
    ensure!(matches!(p, P::None | P::Right), "uv", "enrolled without the PIN: {}", w.describe());
    let Some(Ev::Made { handle, challenge, .. }) = made.last() else { return fail("made", format!("no credential was made: {}", w.describe())) };
    let cred = after[n].creds.last().expect("a credential").clone();
    let (data, sig, cert) = after[n].given.clone().expect("an attestation");
    let k = &f.private_key;
    if let Err(m) = same_pub(&k.pubkey, &refpub(&cred.key)) {
        return fail("public-key", m);
    }
    ensure!(k.comment == comment, "comment", "comment {:?} instead of {comment:?}", k.comment);
    ensure!(k.key_type.name == "sk-ssh-ed25519@openssh.com", "key-type", "key type {}", k.key_type.name);
    match &k.kind {
        PrivateKeyKind::Ed25519Sk(k) => {
            ensure!(k.handle == *handle, "handle", "handle {} instead of {}", hex(&k.handle), hex(handle));
            ensure!(k.flags & 0xc5 == data[32] & 0xc5, "flags", "flags {:02x} instead of {:02x}", k.flags, data[32]);
            ensure!(k.reserved.is_empty(), "reserved", "reserved field {}", hex(&k.reserved));
            ensure!(k.pin == pin && k.device_path == at.map(path), "pin", "PIN {:?} and path {:?}", k.pin, k.device_path);
        }
        _ => return fail("kind", format!("a private key of another kind: {}", w.describe())),
    }
    let a = &f.attestation;
    let same = a.auth_data == data && a.auth_data_sig == sig && a.intermediate == cert && a.challenge == *challenge && a.alg == -7;
    ensure!(same, "attestation-fields", "the attestation differs from the token's: {a:?}: {}", w.describe());
    ensure!(a.verify().is_ok(), "attestation", "the attestation does not verify afterwards: {}", w.describe());
    let key = if s.bool() {
        f.private_key
    } else {
        let mut b = vec![];
        f.private_key.write(&mut b).map_err(|e| Fail { kind: "write".into(), msg: format!("{e}") })?;
        let txt = String::from_utf8_lossy(&b).into_owned();
        let mut k = PrivateKey::from_string(&txt).map_err(|e| Fail { kind: "reload".into(), msg: format!("{e}: {txt}") })?;
        if let Some(x) = &pin {
            k.set_pin(x);
        }
        if let Some(n) = at {
            k.set_device_path(&path(n));
        }
        k
    };
    one_sign(s, cx, w, &cred.key, &cred.handle, key, pin.as_deref(), at)
}

/// The questions one can ask about devices.
fn questions(cx: &mut Ctx, w: &mut World, at: usize) -> PResult {
    let before = w.toks();
    let p = path(at);
    let p2 = p.clone();
    let (list, pin, left) = call(&w.bus, move || (list_fido_devices(), device_requires_pin(&p2), device_pin_retries(&p2)))?;
    let struck = w.toks().iter().any(|t| t.struck);
    let want: Vec<(String, String)> = before.iter().enumerate().filter(|x| x.1.kind != Kind::Keyboard).map(|(i, t)| (path(i), t.product.clone().unwrap_or_default())).collect();
    let have: Vec<(String, String)> = list.iter().map(|d| (d.path.clone(), d.product_string.clone())).collect();
    w.log.push(format!("questions at {at}: {} devices, {pin:?}, {left:?}", have.len()));
    ensure!(have == want, "list", "listed {have:?} instead of {want:?}: {}", w.describe());
    for (i, ev) in w.news(&before).iter().enumerate() {
        ensure!(ev.is_empty(), "asking", "asking made token {i} do {ev:?}: {}", w.describe());
    }
    match before.get(at).filter(|t| matches!(t.kind, Kind::Fido2 { .. }) && t.pins) {
        // Not a token with PINs: an error.
        None => ensure!(pin.is_err() && left.is_err(), "no-pins", "{pin:?} and {left:?}: {}", w.describe()),
        Some(_) if struck => ensure!(pin.as_ref().is_ok_and(|x| *x == before[at].pin.is_some()), "pin-needed", "PIN needed: {pin:?}: {}", w.describe()),
        Some(t) => {
            w.reached = true;
            ensure!(pin.as_ref().is_ok_and(|x| *x == t.pin.is_some()), "pin-needed", "PIN needed: {pin:?}: {}", w.describe());
            ensure!(left.as_ref().is_ok_and(|x| *x == t.retries as i32), "retries-left", "attempts left: {left:?} instead of {}: {}", t.retries, w.describe());
        }
    }
    cx.class("questions");
    Ok(())
}

fn run(s: &mut Src, cx: &mut Ctx, fault: Option<(u8, Fault)>) -> PResult {
    let n = s.weighted(&[4, 4, 2, 1]) + 1;
    let mut toks: Vec<Tok> = vec![];
    let sel = s.below(n);
    for i in 0..n {
        let mut t = match s.weighted(&[8, 1, 1, 1]) {
            _ if i == sel && !s.chance(25) => {
                let mut t = gen_tok(s);
                if t.kind == Kind::U2f && s.bool() {
                    t.kind = Kind::Fido2 { v21: true };
                }
                t
            }
            0 => gen_tok(s),
            1 => Tok::new(Kind::Keyboard, 0),
            2 => Tok::new(Kind::Locked, 0),
            _ => Tok::new(Kind::Mute, 0),
        };
        // Each time the backend is told to wait it sleeps for 100 ms.
        t.touch = Some(s.chance(2) as u8);
        t.noise = false;
        t.product = match s.below(4) {
            0 => None,
            1 => Some(text(s).chars().filter(|c| matches!(c, ' '..='~')).take(40).collect()),
            _ => Some(s.pick(&["YubiKey OTP+FIDO+CCID", "Security Key", "Solo 2"]).to_string()),
        };
        t.attest = match s.weighted(&[10, 3, 10]) {
            0 => Attest::Good,
            1 => Attest::Chain,
            _ => *s.pick(&[Attest::OtherRoot, Attest::OtherKey, Attest::OtherChallenge, Attest::OtherData, Attest::Altered, Attest::Own, Attest::None, Attest::U2f, Attest::WrongAlg]),
        };
        toks.push(t);
    }
    let main = stock(s, &mut toks, sel);
    for t in &mut toks {
        // This backend asks for what it is told, however long.
        t.max_id = None;
        t.fault = fault;
    }
    let mut w = World::new(toks, sel);
    let mut seen = vec![];
    for i in 0..1 + s.below(4) {
        if i > 0 && s.chance(60) {
            change(s, &mut w, &main);
        }
        let at = match s.below(16) {
            0..=3 => None,
            4 | 5 => Some(s.below(n)),
            6 => Some(n + s.below(2)),
            _ => Some(sel),
        };
        let toks = w.toks();
        // A keyboard would never answer.
        let at = at.map(|i| if toks.get(i).is_some_and(|t| t.kind == Kind::Keyboard) { n } else { i });
        let t = &toks[addressed(&toks, at).unwrap_or(sel)];
        let pin = match s.below(8) {
            0 => None,
            1 => Some(some_pin(s)),
            2..=4 => t.pin.clone(),
            _ => t.pin.clone().filter(|_| t.always_uv),
        };
        match s.weighted(&[4, 3, 1]) {
            0 => {
                let c = if s.chance(50) && !t.creds.is_empty() { s.pick(&t.creds).clone() } else { main.clone() };
                let mut key = sk_key(&c.key, *s.pick(&[1u8, 5, 0x21, 0]), &c.handle, pin.as_deref())?;
                if let Some(n) = at {
                    key.set_device_path(&path(n));
                }
                one_sign(s, cx, &mut w, &c.key, &c.handle, key, pin.as_deref(), at)?;
            }
            1 => {
                let app = if s.bool() { an_app(s) } else { main.key.app.clone() };
                one_enrol(s, cx, &mut w, app, pin, at, &mut seen)?;
            }
            _ => questions(cx, &mut w, at.unwrap_or(if toks[sel].kind == Kind::Keyboard { n } else { sel }))?,
        }
        if w.toks().iter().any(|t| t.struck) {
            break;
        }
    }
    cx.desc(|| w.describe());
    if w.reached {
        cx.nontrivial(&w.describe());
    }
    Ok(())
}
fn change(s: &mut Src, w: &mut World, main: &Cred) {
    let mut toks = w.bus.toks.lock().unwrap_or_else(|e| e.into_inner());
    let n = toks.len();
    match s.below(4) {
        0 => {
            w.log.push("credential deleted".into());
            toks[w.sel].creds.retain(|c| c.handle != main.handle || c.key.app != main.key.app);
        }
        1 if toks[w.sel].pin.is_some() => {
            let p = a_pin(s);
            w.log.push(format!("PIN now {p:?}"));
            toks[w.sel].pin = Some(p);
        }
        2 => {
            let t = &mut toks[w.sel];
            t.always_uv ^= t.kind != Kind::U2f;
            w.log.push(format!("always_uv={}", t.always_uv));
        }
        // Replugged elsewhere.
        _ => {
            let other = s.below(n);
            w.log.push(format!("devices {} and {other} swapped", w.sel));
            toks.swap(w.sel, other);
        }
    }
}
fn history(s: &mut Src, cx: &mut Ctx) -> PResult {
    run(s, cx, None)
}
fn faults(s: &mut Src, cx: &mut Ctx) -> PResult {
    let at = s.below(5) as u8;
    let f = match s.below(5) {
        0 => Fault::Status(*s.pick(&[0x01u8, 0x11, 0x12, 0x14, 0x26, 0x27, 0x2e, 0x2d, 0x2f, 0x31, 0x32, 0x33, 0x34, 0x35, 0x36, 0x38, 0x3a, 0x7f, 0xf0])),
        1 => Fault::LateStatus(*s.pick(&[0x01u8, 0x11, 0x27, 0x2e, 0x2f, 0x3a, 0x7f])),
        2 => Fault::Hid(*s.pick(&[0x01u8, 0x03, 0x04, 0x05, 0x0b, 0x7f])),
        3 => Fault::Gone,
        _ => Fault::GoneAfter,
    };
    run(s, cx, Some((at, f)))
}

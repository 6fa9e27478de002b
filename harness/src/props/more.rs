//! C30: generated and adjusted private keys. C31: answers do not depend on history.
//! C32: files. C33: builds without optional features. C34: writing to faulty writers.

use super::common::*;
use super::robust::{self, Input, PASS};
use crate::answers::{answer, ask, Entry, Question};
use crate::crypto::*;
use crate::engine::*;
use crate::gen::*;
use crate::sshk;
use sshcerts::ssh::*;
use std::collections::HashSet;

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C30",
            rule: "fresh: 48 keys are generated in a row; seeds must be distinct and look random (every byte position and bit varies), the public half must belong to the seed, other kinds must be refused. adjust: a key of any type gets a generated sequence of PINs and device paths, is cloned and printed; a model says which fields may change. Non-trivial: every case; distinct by generated keys or by key and calls.",
            facets: vec![facet("fresh", 3000, 10000, c30_fresh), facet("adjust", 200000, 700000, c30_adjust)],
        },
        Property {
            id: "C31",
            rule: "A pool of 2 to 7 questions (an entry point with its input; groups of valid inputs and variants differing in one bit, one argument or one swapped part) is asked in a child process in a generated order with repetitions, on one to four threads; every answer must be the one a fresh process gives to that question alone. Non-trivial: at least two different answers in the pool; distinct by pool and order.",
            facets: vec![facet("history", 2500, 50000, c31_history), facet("threads", 900, 18000, c31_threads)],
        },
        Property {
            id: "C32",
            rule: "Valid and damaged certificates, public keys, private keys and allowed_signers texts are written to a file (also through links, with arbitrary bytes appended, or not at all) and read by path; the answer must be the one the text gives, an error if there is no readable text, and the file must be unchanged. Non-trivial: every case; distinct by file content.",
            facets: vec![facet("path", 12000, 400000, c32_path)],
        },
        Property {
            id: "C33",
            rule: "Questions of every kind (valid and damaged) are answered by the library built with and without its optional features; the answers must be equal, except that RSA signing and opening encrypted keys must be refused without their features. Non-trivial: every question; distinct by question.",
            facets: vec![facet("bare-build", 900, 30000, c33_bare)],
        },
        Property {
            id: "C34",
            rule: "A public or private key is written to a writer that takes a generated number of bytes per call, interrupts calls and, in half of the cases, fails for good after a generated number of bytes (by error or by taking nothing). Success must mean that exactly the whole text arrived, a failing writer must give an error, and what arrived before must be a prefix of the text. Non-trivial: the writer fragments, interrupts or fails; distinct by text and writer behaviour.",
            facets: vec![facet("faulty-writer", 480000, 1600000, c34_write)],
        },
    ]
}

// ------------------------------------------------------------------ C30

fn c30_fresh(s: &mut Src, cx: &mut Ctx) -> PResult {
    let comment = text(s);
    let mut seeds = vec![];
    let mut checks = HashSet::new();
    for _ in 0..48 {
        let k = match PrivateKey::new(KeyTypeKind::Ed25519, &comment) {
            Ok(k) => k,
            Err(e) => return fail("new", format!("cannot generate an Ed25519 key: {e}")),
        };
        ensure!(k.comment == comment, "comment", "comment {:?} instead of {comment:?}", k.comment);
        ensure!(k.key_type.name == "ssh-ed25519" && k.pubkey.key_type.name == "ssh-ed25519", "type", "generated a key of type {}", k.key_type.name);
        let seed = match &k.kind {
            PrivateKeyKind::Ed25519(x) if x.key.len() >= 32 => x.key[..32].to_vec(),
            _ => return fail("new", "the generated key holds no seed"),
        };
        let r = Key::ed(Alg::Ed, &seed, "");
        if let Err(m) = same_pub(&k.pubkey, &refpub(&r)) {
            return fail("pair", format!("the public half does not belong to the seed: {m}"));
        }
        seeds.push(seed);
        checks.insert(k.magic);
    }
    ensure!(checks.len() >= 40, "not-random", "only {} different check values in 48 keys", checks.len());
    cx.nontrivial(&seeds);
    cx.desc(|| format!("48 keys with comment {comment:?}, first public key of seed {}..", hex(&seeds[0][..4])));
    {
        let (what, v) = ("seeds", &seeds);
        let n: HashSet<_> = v.iter().collect();
        ensure!(n.len() == v.len(), "repeated", "only {} different {what} in {}", n.len(), v.len());
        for i in 0..v[0].len() {
            let b: HashSet<u8> = v.iter().map(|x| x[i]).collect();
            // 48 draws of 256: fewer than 16 different ones is out of the question.
            ensure!(b.len() >= 16, "not-random", "byte {i} of {what} takes only {} values in {}", b.len(), v.len());
            let or = v.iter().fold(0u8, |a, x| a | x[i]);
            let and = v.iter().fold(255u8, |a, x| a & x[i]);
            ensure!(or == 255 && and == 0, "not-random", "a bit of byte {i} of {what} never changes");
        }
        // Bytes within one seed must be independent of each other too.
        if v[0].len() == 32 {
            for x in v {
                let d: HashSet<&u8> = x.iter().collect();
                ensure!(d.len() >= 16, "not-random", "a seed has only {} different bytes: {}", d.len(), hex(x));
            }
        }
    }
    for other in [KeyTypeKind::Rsa, KeyTypeKind::Ecdsa, KeyTypeKind::RsaCert, KeyTypeKind::EcdsaCert, KeyTypeKind::Ed25519Cert] {
        match guarded(|| PrivateKey::new(other.clone(), &comment).is_err()) {
            Ok(true) => {}
            Ok(false) => return fail("kind", format!("generated a key for {other:?}")),
            Err(m) => return fail("panic", m),
        }
    }
    Ok(())
}

fn pin_and_path(k: &PrivateKey) -> (Option<String>, Option<String>) {
    match &k.kind {
        PrivateKeyKind::EcdsaSk(x) => (x.pin.clone(), x.device_path.clone()),
        PrivateKeyKind::Ed25519Sk(x) => (x.pin.clone(), x.device_path.clone()),
        _ => (None, None),
    }
}
fn c30_adjust(s: &mut Src, cx: &mut Ctx) -> PResult {
    let k = key_any(s);
    let comment = text(s);
    let h = {
        let n = s.len(60);
        s.blob(n)
    };
    let file = priv_file(&k, s.u32(), &comment, (s.byte(), &h, b""));
    let text0 = priv_armor(&file);
    let load = || PrivateKey::from_string(&text0).map_err(|e| Fail { kind: "rejected-valid".into(), msg: format!("{e}") });
    let orig = load()?;
    let mut keys = vec![(load()?, None::<String>, None::<String>)];
    let mut calls = vec![];
    for _ in 0..1 + s.below(6) {
        let i = s.below(keys.len());
        match s.below(5) {
            0 | 1 => {
                let p = text(s);
                keys[i].0.set_pin(&p);
                calls.push(format!("{i}.set_pin({p:?})"));
                if k.alg.is_sk() {
                    keys[i].1 = Some(p);
                }
            }
            2 | 3 => {
                let p = text(s);
                keys[i].0.set_device_path(&p);
                calls.push(format!("{i}.set_device_path({p:?})"));
                if k.alg.is_sk() {
                    keys[i].2 = Some(p);
                }
            }
            _ => {
                let c = (keys[i].0.clone(), keys[i].1.clone(), keys[i].2.clone());
                calls.push(format!("{i}.clone()"));
                keys.push(c);
            }
        }
        for (i, (key, pin, path)) in keys.iter().enumerate() {
            let got = pin_and_path(key);
            ensure!(got.0 == *pin, "pin", "key {i} after {calls:?}: PIN {:?} instead of {pin:?}", got.0);
            ensure!(got.1 == *path, "path", "key {i} after {calls:?}: device path {:?} instead of {path:?}", got.1);
            ensure!(key.encode() == file, "changed", "key {i} after {calls:?} encodes differently");
            ensure!(key.pubkey == orig.pubkey && key.comment == comment && key.magic == orig.magic && key.key_type == orig.key_type, "changed", "key {i} after {calls:?}: another field changed");
        }
    }
    cx.class(if k.alg.is_sk() { "security key" } else { "software key" });
    cx.nontrivial(&(&file, &calls));
    cx.desc(|| format!("{} {calls:?}", k.alg.plain()));
    // What is printed is the fingerprint and the comment only.
    let mut want = crate::wire::b64(&sha256(&k.blob()));
    while want.ends_with('=') {
        want.pop();
    }
    for (key, _, _) in &keys {
        let t = key.to_string();
        ensure!(t == format!("SHA256:{want} {comment}"), "print", "printed as {t:?}");
    }
    Ok(())
}

// ------------------------------------------------------------------ questions

fn question(s: &mut Src, i: Input) -> Question {
    let q = |entry, args: Vec<Vec<u8>>| Question { entry, args };
    match i {
        Input::CertBytes(b) => {
            if s.chance(60) {
                // Completing it again with its own or another signature.
                let sig = ref_cert_structure(&b).map(|r| r.sig).unwrap_or_default();
                q(Entry::Complete, vec![b, sig])
            } else {
                q(Entry::CertBytes, vec![b])
            }
        }
        Input::CertText(t) => q(Entry::CertText, vec![t.into_bytes()]),
        Input::PubBytes(b) => q(if s.chance(40) { Entry::Hash } else { Entry::PubBytes }, vec![b]),
        Input::PubText(t) => q(Entry::PubText, vec![t.into_bytes()]),
        Input::PrivText(t) => {
            if s.bool() {
                q(Entry::Sign, vec![t.into_bytes(), s.bytes(3)])
            } else if s.chance(60) {
                // A passphrase for a key that needs none.
                let p = if s.bool() { String::new() } else { word(s) };
                q(Entry::PrivPass, vec![t.into_bytes(), p.into_bytes()])
            } else {
                q(Entry::PrivText, vec![t.into_bytes()])
            }
        }
        Input::PrivPass(t) => q(Entry::PrivPass, vec![t.into_bytes(), PASS.into()]),
        Input::PrivBytes(b) => q(Entry::PrivBytes, vec![b]),
        Input::Sig(t, m, n) => {
            if s.bool() {
                let k = SshSignature::from_armored_string(&t).map(|x| x.pubkey.to_string()).unwrap_or_default();
                q(Entry::SigKey, vec![t.into_bytes(), m, n.into_bytes(), k.into_bytes()])
            } else {
                q(Entry::Sig, vec![t.into_bytes(), m, n.into_bytes()])
            }
        }
        Input::Signer(t) => q(Entry::Signer, vec![t.into_bytes()]),
        Input::Signers(t) => q(Entry::Signers, vec![t.into_bytes()]),
        Input::X509(f, b) => q([Entry::X509, Entry::Csr, Entry::Spki][f], vec![b]),
        Input::Chain(a, b, c) => q(Entry::Chain, vec![a, b, c.into_bytes()]),
        Input::Att(a, b, c, d, e) => q(Entry::Att, vec![a, b, c, d, e.into_bytes()]),
        Input::Auth(b) => q(Entry::Auth, vec![b]),
        Input::Der(b) => q(Entry::Der, vec![b]),
        Input::Read(b, _) => q(Entry::Hash, vec![b]),
        Input::Names(t) => q(Entry::Name, vec![t.into_bytes()]),
    }
}
fn keep(_: &mut Src, _: &mut Vec<u8>) {}

/// Change an argument a little: one bit of binary data, one character of text.
fn nudge(s: &mut Src, b: &mut Vec<u8>) {
    if b.is_empty() {
        b.push(b'a');
        return;
    }
    // Often near the end, where signatures are.
    let i = if s.bool() { b.len() - 1 - s.below(b.len().min(90)) } else { s.below(b.len()) };
    if std::str::from_utf8(b).is_ok() && b[i].is_ascii_alphanumeric() && b.len() < 100_000 {
        let c = *s.pick(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789");
        b[i] = if c == b[i] { b'A' + (c == b'A') as u8 } else { c };
    } else {
        b[i] ^= 1 << s.below(8);
    }
}
fn variant(s: &mut Src, base: &Question, other: &Question) -> Question {
    let mut q = base.clone();
    match s.below(4) {
        0 if other.entry == base.entry => {
            let i = s.below(q.args.len());
            q.args[i] = other.args[i].clone();
        }
        1 => {
            // Everything but one argument stays; the nudged one is the last (a key, a root, a name).
            let i = q.args.len() - 1;
            nudge(s, &mut q.args[i]);
        }
        2 if q.entry == Entry::CertText || q.entry == Entry::PubText => {
            let t = String::from_utf8_lossy(&q.args[0]).into_owned();
            let mut p = t.splitn(3, ' ');
            let (a, b) = (p.next().unwrap_or(""), p.next().unwrap_or(""));
            q.args[0] = format!("{a} {b} {}", word(s)).into_bytes();
        }
        _ => {
            let i = s.below(q.args.len());
            nudge(s, &mut q.args[i]);
        }
    }
    // The start of an encrypted key holds the number of rounds; millions of them take hours.
    if q.entry == Entry::PrivPass && q.args[0].iter().zip(&base.args[0]).take(200).any(|(a, b)| a != b) && q.args[0] != other.args[0] {
        return base.clone();
    }
    q
}
fn pool(s: &mut Src) -> Vec<Question> {
    let kinds = [0usize, 0, 0, 1, 2, 3, 4, 5, 6, 7, 7, 7, 8, 9, 10, 11, 11, 12, 12, 13, 14, 16];
    let kind = *s.pick(&kinds);
    let mut v = vec![];
    let groups = 1 + s.below(2);
    for _ in 0..groups {
        let k = if s.chance(200) { kind } else { *s.pick(&kinds) };
        let i = robust::make(s, k, keep, 0);
        let q = question(s, i);
        v.push(q);
    }
    for _ in 0..1 + s.below(4) {
        let (a, b) = (s.below(v.len()), s.below(v.len()));
        let q = variant(s, &v[a].clone(), &v[b].clone());
        v.push(q);
    }
    v
}
fn me() -> std::process::Command {
    let mut c = std::process::Command::new(std::env::current_exe().expect("own executable"));
    c.arg("answer-worker");
    c
}
fn show(q: &Question) -> String {
    let a: Vec<String> = q.args.iter().map(|x| std::str::from_utf8(x).map(|t| format!("{t:?}")).unwrap_or_else(|_| hex(x))).collect();
    let mut t = format!("{:?}({})", q.entry, a.join(", "));
    if t.len() > 1500 {
        let mut n = 1500;
        while !t.is_char_boundary(n) {
            n -= 1;
        }
        t.truncate(n);
        t.push_str("...");
    }
    t
}
fn diff(a: &str, b: &str) -> String {
    let i = a.bytes().zip(b.bytes()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let cut = |t: &str| -> String {
        let v: Vec<u8> = t.bytes().skip(i.saturating_sub(40)).take(160).collect();
        String::from_utf8_lossy(&v).into_owned()
    };
    format!("{:?} instead of {:?}", cut(a), cut(b))
}
fn history(s: &mut Src, cx: &mut Ctx, threads: usize) -> PResult {
    let qs = pool(s);
    let plan: Vec<Vec<usize>> = (0..threads).map(|_| (0..3 + s.below(12)).map(|_| s.below(qs.len())).collect()).collect();
    cx.desc(|| format!("pool [{}], order {plan:?}", qs.iter().map(show).collect::<Vec<_>>().join("; ")));
    let mut alone = vec![];
    for q in &qs {
        match ask(&mut me(), std::slice::from_ref(q), &[vec![0]]) {
            Ok(a) => alone.push(a[0][0].clone()),
            Err(e) if e.starts_with("died") => return fail("crash", format!("the process {e} on {}", show(q))),
            Err(e) => cannot(e),
        }
    }
    let kinds: HashSet<&String> = alone.iter().collect();
    if kinds.len() > 1 {
        cx.nontrivial(&(&qs, &plan));
    }
    if alone.iter().any(|a| a.starts_with("ok") || a.contains("verified")) && alone.iter().any(|a| a.contains("error")) {
        cx.class("accepted and rejected in one pool");
    }
    let got = match ask(&mut me(), &qs, &plan) {
        Ok(a) => a,
        Err(e) if e.starts_with("died") => return fail("crash", format!("the process {e} on {plan:?} of {}", qs.iter().map(show).collect::<Vec<_>>().join("; "))),
        Err(e) => cannot(e),
    };
    for (t, (p, a)) in plan.iter().zip(&got).enumerate() {
        for (n, (i, x)) in p.iter().zip(a).enumerate() {
            if *x != alone[*i] {
                let before: Vec<String> = p[..n].iter().map(|j| show(&qs[*j])).collect();
                return fail("history", format!("thread {t} call {n}, {}: {}; calls before: {}", show(&qs[*i]), diff(x, &alone[*i]), before.join("; ")));
            }
        }
    }
    Ok(())
}
fn c31_history(s: &mut Src, cx: &mut Ctx) -> PResult {
    history(s, cx, 1)
}
fn c31_threads(s: &mut Src, cx: &mut Ctx) -> PResult {
    let n = 2 + s.below(3);
    history(s, cx, n)
}

// ------------------------------------------------------------------ C32

fn c32_path(s: &mut Src, cx: &mut Ctx) -> PResult {
    let kind = *s.pick(&[1usize, 3, 4, 5, 9]);
    let n = if s.bool() { 0 } else { 1 };
    let i = robust::make(s, kind, robust::havoc, n);
    let (mut content, name): (Vec<u8>, &'static str) = match &i {
        Input::CertText(t) => (t.clone().into_bytes(), "certificate"),
        Input::PubText(t) => (t.clone().into_bytes(), "public key"),
        Input::PrivText(t) => (t.clone().into_bytes(), "private key"),
        Input::PrivPass(t) => (t.clone().into_bytes(), "encrypted private key"),
        Input::Signers(t) => (t.clone().into_bytes(), "allowed signers"),
        _ => return Ok(()),
    };
    if s.chance(120) {
        let extra: &[u8] = *s.pick(&[&b"\n"[..], b"\r\n", b"\n\n", b" ", b"\0", b"\xff", b"\xc3", b"\nsecond line\n", b"\xef\xbb\xbf", b"\t"]);
        if s.chance(200) {
            content.extend(extra);
        } else {
            content.splice(0..0, extra.iter().copied());
        }
    }
    if s.chance(12) {
        content.clear();
    }
    // Large files: padding where the formats allow any amount of it.
    let mut large = false;
    if s.chance(20) {
        large = true;
        let top = 1usize << s.range(10, 19);
        let n = top - 64 + s.below(128);
        let (fill, at) = match name {
            "allowed signers" => ("\n", if s.bool() { 0 } else { content.len() }),
            "private key" | "encrypted private key" => ("\n", content.iter().position(|b| *b == b'\n').map(|x| x + 1).unwrap_or(0)),
            _ if s.bool() => (" ", 0),
            _ => ("x", content.len()),
        };
        content.splice(at..at, fill.repeat(n).bytes());
        if fill == "x" {
            content.insert(at, b' ');
        } else if at > 0 && name == "allowed signers" {
            content.extend(b"\nlast line, which is no entry");
        }
    }
    let sc = sshk::Scratch::new();
    let way = s.weighted(&[16, 2, 1, 1, 1, 2]);
    let path: std::path::PathBuf = match way {
        0 => sc.file("file", &content).into(),
        1 => {
            let f = sc.file("file", &content);
            let l = sc.path("link");
            std::os::unix::fs::symlink(f, &l).expect("symlink");
            l.into()
        }
        2 => sc.path("missing").into(),
        3 => {
            let d = sc.path("dir");
            std::fs::create_dir(&d).expect("mkdir");
            d.into()
        }
        5 => {
            // A name that is not UTF-8, with blanks.
            use std::os::unix::ffi::OsStringExt;
            let mut f = std::path::PathBuf::from(sc.path("")).into_os_string().into_vec();
            f.extend(b"/a \xff\xfe b");
            let f = std::path::PathBuf::from(std::ffi::OsString::from_vec(f));
            std::fs::write(&f, &content).expect("write");
            f
        }
        _ => {
            let l = sc.path("dangling");
            std::os::unix::fs::symlink(sc.path("nothing"), &l).expect("symlink");
            l.into()
        }
    };
    cx.class(name);
    cx.class(["file", "link to file", "missing file", "directory", "dangling link", "odd file name"][way]);
    cx.nontrivial(&(&content, name, way));
    cx.desc(|| format!("{name} read from a {}: {:?}", ["file", "link", "missing file", "directory", "dangling link", "file of odd name"][way], String::from_utf8_lossy(&content[..content.len().min(2000)])));
    // None: an error; Some: what was read. Compared through the library's own equality and text.
    fn out<T, E>(r: Result<T, E>) -> Option<T> {
        r.ok()
    }
    if large {
        cx.class("large file");
    }
    let text = if way < 2 || way == 5 { std::str::from_utf8(&content).ok() } else { None };
    let same = |a: Option<String>, b: Option<String>| -> PResult {
        match (a, b) {
            (None, None) => Ok(()),
            (Some(x), Some(y)) => {
                ensure!(x == y, "differs", "{name}: the file gives {}", diff(&x, &y));
                Ok(())
            }
            (None, Some(_)) => fail("rejected", format!("{name}: the content is accepted, the file is not: {:?}", brief(&content))),
            (Some(_), None) => fail("accepted", format!("{name}: the file is accepted, its content is not: {:?}", brief(&content))),
        }
    };
    let r = guarded(|| -> PResult {
        match kind {
            1 => {
                let (a, b) = (out(Certificate::from_path(&path)), text.and_then(|t| out(Certificate::from_string(t))));
                ensure!(a == b, "differs", "certificate read from a file differs: {:?}", brief(&content));
                same(a.map(|c| c.to_string()), b.map(|c| c.to_string()))
            }
            3 => {
                let (a, b) = (out(PublicKey::from_path(&path)), text.and_then(|t| out(PublicKey::from_string(t))));
                ensure!(a == b, "differs", "public key read from a file differs: {:?}", brief(&content));
                same(a.map(|c| c.to_string()), b.map(|c| c.to_string()))
            }
            4 | 5 => {
                let pass = if s.bool() { Some(PASS.to_string()) } else { None };
                let (a, b) = (out(PrivateKey::from_path_with_passphrase(&path, pass.clone())), text.and_then(|t| out(PrivateKey::from_string_with_passphrase(t, pass.clone()))));
                ensure!(a == b, "differs", "private key read from a file differs");
                same(a.map(|c| hex(&c.encode())), b.map(|c| hex(&c.encode())))?;
                let (a, b) = (out(PrivateKey::from_path(&path)), text.and_then(|t| out(PrivateKey::from_string(t))));
                ensure!(a == b, "differs", "private key read from a file differs");
                same(a.map(|c| hex(&c.encode())), b.map(|c| hex(&c.encode())))
            }
            _ => {
                let (a, b) = (out(AllowedSigners::from_path(&path)), text.and_then(|t| out(AllowedSigners::from_string(t))));
                ensure!(a == b, "differs", "allowed signers read from a file differ: {:?}", brief(&content));
                same(a.map(|c| format!("{c:?}")), b.map(|c| format!("{c:?}")))
            }
        }
    });
    match r {
        Ok(r) => r?,
        Err(m) => return fail("panic", m),
    }
    match way {
        0 | 1 | 5 => ensure!(std::fs::read(&path).ok().as_ref() == Some(&content), "touched", "reading changed the file"),
        2 | 4 => ensure!(!std::path::Path::new(&path).exists(), "touched", "reading created the file"),
        _ => {}
    }
    Ok(())
}
fn brief(b: &[u8]) -> String {
    let cut = &b[..b.len().min(3000)];
    format!("{}{}", String::from_utf8_lossy(cut), if b.len() > cut.len() { format!("... ({} bytes)", b.len()) } else { String::new() })
}

// ------------------------------------------------------------------ C33

fn c33_bare(s: &mut Src, cx: &mut Ctx) -> PResult {
    // Many questions per process, it is the process that costs.
    let n = 8 + s.below(25);
    let mut qs = vec![];
    for _ in 0..n {
        let kind = *s.pick(&[0usize, 1, 2, 3, 4, 4, 5, 6, 7, 8, 9, 14, 16]);
        // RSA arithmetic is only looked at for signing, so private keys are taken as they are.
        let times = if matches!(kind, 4 | 5 | 6) { 0 } else { s.below(3) };
        let i = robust::make(s, kind, if times == 0 { keep } else { robust::havoc }, times);
        if kind == 5 {
            // Undamaged and protected with the passphrase.
            let t = super::privs::encrypted_file(s, PASS, keep);
            qs.push(question(s, Input::PrivPass(priv_armor(&t))));
            if s.chance(100) {
                let mut q = qs.last().unwrap().clone();
                q.entry = Entry::PrivText;
                qs.push(q);
            }
            continue;
        }
        let q = question(s, i);
        qs.push(q);
    }
    cx.nontrivial(&qs);
    cx.desc(|| format!("{} questions, the first {}", qs.len(), show(&qs[0])));
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let dir = std::env::var("CARGO_TARGET_DIR").unwrap_or_else(|_| format!("{root}/target"));
    let bin = format!("{dir}/lite/debug/vlite");
    let plan = vec![(0..qs.len()).collect::<Vec<_>>()];
    let bare = match ask(&mut std::process::Command::new(&bin), &qs, &plan) {
        Ok(a) => a,
        Err(e) if e.starts_with("died") => return fail("crash", format!("without features the process {e}: {}", qs.iter().map(show).collect::<Vec<_>>().join("; "))),
        Err(e) => cannot(format!("{bin}: {e}")),
    };
    for (q, b) in qs.iter().zip(&bare[0]) {
        let f = answer(q);
        ensure!(f != "panic" && b != "panic", "panic", "{}: panic", show(q));
        let rsa = f.starts_with("ok ") && matches!(q.entry, Entry::Sign | Entry::PrivText | Entry::PrivBytes | Entry::PrivPass) && is_rsa(q, &f);
        if q.entry == Entry::PrivPass && encrypted(&q.args[0]) {
            cx.class("encrypted key");
            ensure!(f.starts_with("ok "), "full", "the full build does not open an encrypted key: {f}");
            ensure!(b.starts_with("error EncryptedPrivateKeyNotSupported"), "encrypted", "without its feature an encrypted key gives {}", &b[..b.len().min(200)]);
        } else if rsa && q.entry == Entry::Sign {
            cx.class("RSA signing");
            ensure!(b.starts_with("ok no signature detached error"), "rsa-signing", "without its feature RSA signing gives {}", &b[..b.len().min(200)]);
        } else if rsa {
            cx.class("RSA key");
            // All but the signature, which is the last line.
            let cut = |t: &str| t.rfind('\n').map(|i| t[..i].to_string()).unwrap_or_default();
            ensure!(cut(&f) == cut(b) && b.ends_with("no signature"), "differs", "{}: without features {}", show(q), diff(b, &f));
        } else {
            cx.class("same answer");
            ensure!(f == *b, "differs", "{}: without features {}", show(q), diff(b, &f));
        }
    }
    Ok(())
}
fn is_rsa(q: &Question, f: &str) -> bool {
    match q.entry {
        Entry::Sign => PrivateKey::from_string(&String::from_utf8_lossy(&q.args[0])).map(|k| matches!(k.kind, PrivateKeyKind::Rsa(_))).unwrap_or(false),
        _ => f.starts_with("ok ssh-rsa "),
    }
}
fn encrypted(file: &[u8]) -> bool {
    let t = String::from_utf8_lossy(file);
    let b: String = t.lines().filter(|l| !l.starts_with('-')).collect();
    crate::wire::unb64(&b).map(|b| b.windows(10).any(|w| w == b"aes256-ctr")).unwrap_or(false)
}

// ------------------------------------------------------------------ C34

/// A writer that takes few bytes at a time, is interrupted, and fails after `room` bytes.
struct Faulty {
    out: Vec<u8>,
    steps: Vec<u8>,
    at: usize,
    room: Option<usize>,
    how: u8,
    failed: bool,
    interrupts: usize,
}
impl std::io::Write for Faulty {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        use std::io::{Error, ErrorKind};
        if b.is_empty() {
            return Ok(0);
        }
        let step = self.steps[self.at % self.steps.len()];
        self.at += 1;
        if step == 0 && self.interrupts < 64 {
            self.interrupts += 1;
            return Err(Error::new(ErrorKind::Interrupted, "interrupted"));
        }
        let mut n = b.len().min(step.max(1) as usize);
        if let Some(r) = self.room {
            n = n.min(r - self.out.len());
            if n == 0 {
                self.failed = true;
                return match self.how {
                    0 => Ok(0),
                    1 => Err(Error::new(ErrorKind::BrokenPipe, "broken pipe")),
                    2 => Err(Error::new(ErrorKind::WouldBlock, "would block")),
                    _ => Err(Error::new(ErrorKind::Other, "disk full")),
                };
            }
        }
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn c34_write(s: &mut Src, cx: &mut Ctx) -> PResult {
    let k = key_any(s);
    let secret = s.bool();
    let comment = word(s);
    let h = s.blob(20);
    let whole = if secret { priv_armor(&priv_file(&k, s.u32(), &comment, (s.byte(), &h, b""))) } else if s.chance(80) { format!("{}\n", k.line()) } else { format!("{} {comment}\n", k.line()) };
    let n = 1 + s.below(8);
    let steps = (0..n)
        .map(|_| match s.below(5) {
            0 => 0,
            1 => 255,
            2 => 1,
            _ => s.byte(),
        })
        .collect::<Vec<u8>>();
    let room = match s.below(4) {
        0 => Some(s.below(whole.len())),
        1 => Some(whole.len() - 1 - s.below(whole.len().min(24))),
        _ => None,
    };
    let mut w = Faulty { out: vec![], steps: steps.clone(), at: 0, room, how: s.below(4) as u8, failed: false, interrupts: 0 };
    cx.nontrivial(&(&whole, &steps, room, w.how));
    cx.class(if room.is_some() { "fails" } else { "fragments" });
    cx.desc(|| format!("{} {} key of {} bytes, chunks {steps:?}, room {room:?}", k.alg.plain(), if secret { "private" } else { "public" }, whole.len()));
    let r = if secret {
        let key = PrivateKey::from_string(&whole).map_err(|e| Fail { kind: "rejected-valid".into(), msg: format!("{e}") })?;
        guarded(|| key.write(&mut w))
    } else {
        let key = PublicKey::from_string(&whole).map_err(|e| Fail { kind: "rejected-valid".into(), msg: format!("{e}") })?;
        guarded(|| key.write(&mut w))
    };
    let r = match r {
        Ok(r) => r,
        Err(m) => return fail("panic", m),
    };
    ensure!(whole.as_bytes().starts_with(&w.out), "other-bytes", "the writer got {:?}, which does not begin {whole:?}", String::from_utf8_lossy(&w.out));
    match r {
        Ok(()) => ensure!(w.out.len() == whole.len(), "incomplete", "write() succeeded although only {} of {} bytes arrived (chunks {steps:?}, room {room:?})", w.out.len(), whole.len()),
        Err(e) => ensure!(w.failed, "spurious-error", "write() failed ({e}) although the writer did not"),
    }
    Ok(())
}

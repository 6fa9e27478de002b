//! C13, C14, C15: detached signatures and security key signatures.

use super::common::*;
use crate::crypto::*;
use crate::engine::*;
use crate::gen::*;
use crate::sshk;
use crate::wire::{b64, R, W};
use sshcerts::ssh::{Certificate, HashAlgorithm, SshSignature, VerifiedSshSignature};
use sshcerts::PublicKey;

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C13",
            rule: "A detached signature is made independently (all key types, both hashes) and message, namespace, expected key, fields or framing are altered in a chosen way; the library must accept exactly what an independent SSHSIG verifier accepts, and report exactly the fields. A second facet compares with ssh-keygen -Y check-novalidate, a third reads signatures made by ssh-keygen. Non-trivial: every case; distinct by signature, message, namespace and expected key.",
            facets: vec![
                facet("altered", 18000, 180000, c13_altered),
                facet("bit-flip", 6000, 100000, c13_flip),
                facet("ssh-keygen-verdict", 300, 3000, c13_keygen),
                facet("ssh-keygen-signs", 120, 1200, c13_keygen_signs),
            ],
        },
        Property {
            id: "C14",
            rule: "The library signs a generated message in a generated namespace with a generated software key and hash; the armored form is checked against an independent parser and OpenSSL, read back, verified for the message and for altered ones, and given to ssh-keygen -Y. Non-trivial: every case with a non-empty namespace; distinct by key, message, namespace and hash.",
            facets: vec![facet("create", 28000, 240000, c14_create), facet("refused", 16000, 100000, c14_refused), facet("ssh-keygen-accepts", 1200, 7500, c14_keygen)],
        },
        Property {
            id: "C15",
            rule: "A security key is emulated in software; its signatures over certificates and detached messages are altered in application, flags, counter, trailer, key or signed data, or replaced by plain signatures; acceptance must coincide with independent verification of the U2F construction. Non-trivial: every case; distinct by the signed object.",
            facets: vec![facet("certificate", 40000, 300000, c15_cert), facet("detached", 40000, 300000, c15_sig)],
        },
    ]
}

#[derive(Clone, Debug)]
pub struct Sshsig {
    pub magic: Vec<u8>,
    pub version: u32,
    pub blob: Vec<u8>,
    pub ns: Vec<u8>,
    pub reserved: Vec<u8>,
    pub hash: Vec<u8>,
    pub sig: Vec<u8>,
    pub tail: Vec<u8>,
}
impl Sshsig {
    pub fn bytes(&self) -> Vec<u8> {
        W::new().raw(&self.magic).u32(self.version).bytes(&self.blob).bytes(&self.ns).bytes(&self.reserved).bytes(&self.hash).bytes(&self.sig).raw(&self.tail).0
    }
}
pub fn signed_data(ns: &[u8], hash: &str, msg: &[u8]) -> Vec<u8> {
    let h = if hash == "sha256" { sha256(msg) } else { sha512(msg) };
    W::new().raw(b"SSHSIG").bytes(ns).bytes(b"").str(hash).bytes(&h).0
}
pub fn make(k: &Key, ns: &str, hash: &str, msg: &[u8], o: &SigOpts) -> Sshsig {
    let sig = k.sign(&signed_data(ns.as_bytes(), hash, msg), o);
    Sshsig { magic: b"SSHSIG".to_vec(), version: 1, blob: k.blob(), ns: ns.as_bytes().to_vec(), reserved: vec![], hash: hash.as_bytes().to_vec(), sig, tail: vec![] }
}
struct RefSig {
    key: RefPub,
    ns: String,
    hash: String,
    sig: Vec<u8>,
}
fn ref_parse(b: &[u8]) -> Option<RefSig> {
    let mut r = R::new(b);
    if r.take(6)? != b"SSHSIG" || r.u32()? != 1 {
        return None;
    }
    let key = parse_pub(r.bytes()?)?;
    let ns = r.str()?.to_string();
    if ns.is_empty() {
        return None;
    }
    r.bytes()?;
    let hash = r.str()?.to_string();
    if hash != "sha256" && hash != "sha512" {
        return None;
    }
    let sig = r.bytes()?.to_vec();
    if r.left() != 0 {
        return None;
    }
    Some(RefSig { key, ns, hash, sig })
}
fn ref_valid(b: &[u8], msg: &[u8], ns: &str, expect: Option<&[u8]>) -> Option<RefSig> {
    let s = ref_parse(b)?;
    if s.ns != ns {
        return None;
    }
    if let Some(e) = expect {
        if parse_pub(e).as_ref() != Some(&s.key) {
            return None;
        }
    }
    if verify(&s.key, &s.sig, &signed_data(s.ns.as_bytes(), &s.hash, msg), false) {
        Some(s)
    } else {
        None
    }
}
pub fn sig_armor(b: &[u8]) -> String {
    armor(SIG_BEGIN, SIG_END, b, 70, "\n") + "\n"
}
/// Compare the library's whole treatment with the reference's.
fn judge(file: &[u8], text: &str, msg: &[u8], ns: &str, expect: Option<&(Vec<u8>, Option<String>)>) -> PResult {
    let ctx = || format!("{} message {} namespace {ns:?} expected {:?}", hex(file), hex(msg), expect.map(|e| hex(&e.0)));
    let parsed = SshSignature::from_armored_string(text);
    let rp = ref_parse(file);
    let sg = match (parsed, &rp) {
        (Ok(_), None) => return fail("accepted-malformed", format!("malformed signature file accepted: {}", ctx())),
        (Err(e), Some(_)) => return fail("rejected-wellformed", format!("well-formed signature file rejected ({e}): {}", ctx())),
        (Err(_), None) => return Ok(()),
        (Ok(s), Some(r)) => {
            if let Err(m) = same_pub(&s.pubkey, &r.key) {
                return fail("fields", m);
            }
            ensure!(s.namespace == r.ns && s.hash_algorithm.as_str() == r.hash && s.signature == r.sig, "fields", "fields differ: {}", ctx());
            s
        }
    };
    let key = match expect {
        Some((b, c)) => match PublicKey::from_bytes(b) {
            Ok(mut k) => {
                k.comment = c.clone();
                Some(k)
            }
            Err(e) => return fail("pub-load", format!("{e}")),
        },
        None => None,
    };
    let want = ref_valid(file, msg, ns, expect.map(|e| &e.0[..]));
    match (VerifiedSshSignature::from_ssh_signature(msg, sg, ns, key), want) {
        (Ok(_), None) => fail("accepted-invalid", format!("verified although it must not: {}", ctx())),
        (Err(e), Some(_)) => fail("rejected-valid", format!("a valid signature does not verify ({e}): {}", ctx())),
        (Ok(v), Some(r)) => {
            ensure!(v.message == msg, "fields", "the verified message differs");
            if let Err(m) = same_pub(&v.signature.pubkey, &r.key) {
                return fail("fields", m);
            }
            ensure!(v.signature.namespace == r.ns && v.signature.hash_algorithm.as_str() == r.hash && v.signature.signature == r.sig, "fields", "verified fields differ: {}", ctx());
            Ok(())
        }
        _ => Ok(()),
    }
}
fn message(s: &mut Src) -> Vec<u8> {
    match s.weighted(&[2, 5, 2]) {
        0 => vec![],
        1 => {
            let n = if s.chance(1) { 1 << 20 } else { size(s, 300) };
            s.blob(n)
        }
        _ => text(s).into_bytes(),
    }
}
fn namespace(s: &mut Src) -> String {
    match s.below(3) {
        0 => s.pick(&["file", "git", "email", "file@example.com"]).to_string(),
        _ => text_nonempty(s),
    }
}

fn c13_altered(s: &mut Src, cx: &mut Ctx) -> PResult {
    let k = key_signing(s);
    let ns = namespace(s);
    let hash = *s.pick(&["sha512", "sha256"]);
    let msg = message(s);
    let mut o = SigOpts::gen(s);
    if o.rsa_hash == RsaHash::Sha1 && s.chance(200) {
        o.rsa_hash = RsaHash::Sha256;
    }
    let mut g = make(&k, &ns, hash, &msg, &o);
    let (mut vmsg, mut vns) = (msg.clone(), ns.clone());
    let mut expect = match s.below(3) {
        0 => None,
        1 => Some((k.blob(), None)),
        _ => Some((k.blob(), Some(text(s)))),
    };
    let mut text_edit = 0;
    let what = match s.below(25) {
        0 | 1 => "intact",
        2 => {
            mangle(s, &mut vmsg);
            "message"
        }
        3 => {
            vns = match s.below(5) {
                0 => String::new(),
                1 => format!("{ns} "),
                2 => ns.to_uppercase(),
                3 => namespace(s),
                _ => ns.chars().take(ns.chars().count() - 1).collect(),
            };
            "expected namespace"
        }
        4 => {
            g.ns = namespace(s).into_bytes();
            if s.bool() {
                vns = String::from_utf8(g.ns.clone()).unwrap();
            }
            "namespace in the file"
        }
        5 => {
            let e = key_any(s);
            expect = Some((e.blob(), None));
            "another expected key"
        }
        6 => {
            let e = key_of(s, k.alg);
            g.blob = e.blob();
            if s.bool() {
                expect = Some((e.blob(), None));
            }
            "another key of the type in the file"
        }
        7 => {
            let e = key_any(s);
            g.blob = e.blob();
            expect = None;
            "a key of another type in the file"
        }
        8 => {
            g.hash = if hash == "sha512" { b"sha256".to_vec() } else { b"sha512".to_vec() };
            "other hash name"
        }
        9 => {
            g.hash = s.pick(&[&b"sha1"[..], b"sha384", b"SHA512", b"", b"md5", b"sha512 ", b"sha512\0", b"\xff"]).to_vec();
            "unsupported hash name"
        }
        10 => {
            g.version = *s.pick(&[0, 2, 0x0100_0000, u32::MAX, 0x101]);
            "version"
        }
        11 => {
            g.magic = s.pick(&[&b"SSHSIF"[..], b"sshsig", b"SSHSI", b"SSHSIGG", b"", b"SSHSIG\0"]).to_vec();
            "magic"
        }
        12 => {
            let n = if s.chance(80) { big(s) } else { s.range(1, 40) };
            g.reserved = if s.bool() { s.blob(n) } else { vec![0xff; n] };
            "reserved data (to be ignored)"
        }
        13 => {
            let n = s.range(1, 9);
            g.tail = s.bytes(n);
            "trailing data"
        }
        14 => {
            mangle(s, &mut g.sig);
            "signature bytes"
        }
        15 => {
            // A signature over something else by the same key.
            let other = match s.below(5) {
                0 => msg.clone(),
                1 => signed_data(ns.as_bytes(), if hash == "sha256" { "sha512" } else { "sha256" }, &msg),
                2 => signed_data(b"", hash, &msg),
                3 => W::new().raw(b"SSHSIG").str(&ns).str("x").str(hash).bytes(&sha512(&msg)).0,
                _ => signed_data(ns.as_bytes(), hash, b"other"),
            };
            g.sig = k.sign(&other, &o);
            "signature over something else"
        }
        16 => {
            o.rsa_hash = RsaHash::Sha1;
            g = make(&k, &ns, hash, &msg, &o);
            "RSA with SHA-1"
        }
        17 => {
            // Relabel the signature.
            let mut r = R::new(&g.sig);
            r.str();
            let rest = g.sig[r.p..].to_vec();
            let name = *s.pick(&["ssh-rsa", "rsa-sha2-256", "rsa-sha2-512", "ssh-ed25519", "ecdsa-sha2-nistp256", "ecdsa-sha2-nistp384", "sk-ssh-ed25519@openssh.com", "ssh-rsa-cert-v01@openssh.com", "ssh-ed25519-cert-v01@openssh.com", "ecdsa-sha2-nistp256-cert-v01@openssh.com", "ecdsa-sha2-nistp521", "", "bogus"]);
            g.sig = W::new().str(name).raw(&rest).0;
            "relabelled signature"
        }
        18 => {
            g.ns = vec![];
            vns = String::new();
            g.sig = k.sign(&signed_data(b"", hash, &msg), &o);
            "empty namespace, properly signed"
        }
        19 => {
            g.ns = vec![b'a', 0xff];
            "namespace that is no text"
        }
        20 => {
            mangle(s, &mut g.blob);
            expect = None;
            "damaged key"
        }
        21 => {
            g.sig = W(g.sig).u8(0).0;
            "data after the signature"
        }
        22 => {
            text_edit = 1 + s.below(8);
            "armor"
        }
        23 => {
            // The message moved into the namespace and the like.
            let j = String::from_utf8_lossy(&msg).into_owned();
            vns = format!("{ns}{j}");
            vmsg = vec![];
            "shifted boundary"
        }
        _ => {
            expect = Some((k.blob(), None));
            if let Some(e) = &mut expect {
                let mut kk = k.clone();
                if kk.alg.is_sk() {
                    kk.app.push('x');
                    e.0 = kk.blob();
                } else {
                    e.0 = key_of(s, k.alg).blob();
                }
            }
            "expected key close to the signer's"
        }
    };
    let file = g.bytes();
    if file.windows(9).any(|w| w == b"rsa-sha2-") && parse_pub(&g.blob).is_none() {
        return Ok(());
    }
    cx.class(what);
    cx.nontrivial(&(&file, &vmsg, &vns, expect.as_ref().map(|e| &e.0), text_edit));
    cx.desc(|| format!("{} {hash} {what}, namespace {vns:?}, {}", k.alg.plain(), hex(&file)));
    let mut t = match s.below(4) {
        0 => armor(SIG_BEGIN, SIG_END, &file, 76, "\r\n"),
        1 => armor(SIG_BEGIN, SIG_END, &file, 1 << 20, "\n"),
        _ => sig_armor(&file),
    };
    if text_edit > 0 {
        let b = b64(&file);
        t = match text_edit {
            1 => format!("{b}\n{SIG_END}\n"),
            2 => format!("{SIG_BEGIN}\n{b}\n"),
            3 => format!("-----BEGIN SSH SIGNATUR-----\n{b}\n{SIG_END}\n"),
            4 => format!("{SIG_BEGIN}\n{b}\n-----END PGP SIGNATURE-----\n"),
            5 => format!("{SIG_BEGIN}\n!{b}\n{SIG_END}\n"),
            6 => format!("{SIG_BEGIN}\n{}\n{SIG_END}\n", &b[..(b.len() / 8) * 4]),
            _ => {
                // One character that belongs nowhere, inside or at an end of any line.
                let mut t = armor(SIG_BEGIN, SIG_END, &file, 70, "\n");
                let c = *s.pick(&[' ', '\t', '-', '.', '\u{a0}', '\0', '\r', '*']);
                let at = match s.below(4) {
                    0 => s.below(SIG_BEGIN.len() + 1),
                    1 => t.trim_end().len() - s.below(SIG_END.len() + 1),
                    2 => SIG_BEGIN.len() + 1,
                    _ => s.below(t.trim_end().len() + 1),
                };
                // A carriage return before a line feed is part of the line end.
                let c = if c == '\r' && (t[at..].starts_with('\n') || t[at..].is_empty()) { ' ' } else { c };
                let c = if s.chance(30) && (SIG_BEGIN.len() + 1..t.len() - SIG_END.len() - 6).contains(&at) { '=' } else { c };
                t.insert(at, c);
                t
            }
        };
        ensure!(SshSignature::from_armored_string(&t).is_err(), "accepted-malformed", "damaged armor accepted:\n{t}");
        return Ok(());
    }
    judge(&file, &t, &vmsg, &vns, expect.as_ref())
}

fn c13_flip(s: &mut Src, cx: &mut Ctx) -> PResult {
    let k = key_signing(s);
    let ns = "file";
    let hash = *s.pick(&["sha512", "sha256"]);
    let mut o = SigOpts::gen(s);
    if o.rsa_hash == RsaHash::Sha1 {
        o.rsa_hash = RsaHash::Sha512;
    }
    let mut file = make(&k, ns, hash, b"message", &o).bytes();
    let w = mangle(s, &mut file);
    if file.windows(9).any(|w| w == b"rsa-sha2-") && ref_parse(&file).is_none() && k.alg != Alg::Rsa {
        return Ok(());
    }
    cx.class(w);
    cx.nontrivial(&file);
    cx.desc(|| hex(&file));
    judge(&file, &sig_armor(&file), b"message", ns, None)
}

fn keygen_key(s: &mut Src, soft: bool) -> Key {
    let mut k = if soft { key_soft(s) } else { key_signing(s) };
    if k.alg.curve().is_some() && crate::wire::strip(&k.secret).len() * 2 < k.alg.field_len() + 4 {
        let raw = [&[0x5a; 4], &s.blob(k.alg.field_len() - 4)[..]].concat();
        k = Key::ec(k.alg, &raw, "");
    }
    if k.alg.is_sk() {
        k.app = "ssh:test".into();
    }
    k
}
fn arg_text(s: &mut Src) -> String {
    let t: String = namespace(s).chars().filter(|c| !"\0\n\r".contains(*c)).collect();
    if t.is_empty() || t.starts_with('-') {
        format!("n{t}")
    } else {
        t
    }
}

fn c13_keygen(s: &mut Src, cx: &mut Ctx) -> PResult {
    if !sshk::available() {
        return Ok(());
    }
    let k = keygen_key(s, false);
    let ns = arg_text(s);
    let hash = *s.pick(&["sha512", "sha256"]);
    let msg = message(s);
    let mut o = SigOpts::gen(s);
    if o.rsa_hash == RsaHash::Sha1 && s.bool() {
        o.rsa_hash = RsaHash::Sha512;
    }
    let mut g = make(&k, &ns, hash, &msg, &o);
    let (mut vmsg, mut vns) = (msg.clone(), ns.clone());
    let what = match s.below(8) {
        0 => {
            vmsg.push(b'x');
            "message"
        }
        1 => {
            vns.push('x');
            "namespace"
        }
        2 => {
            let i = s.below(g.sig.len());
            g.sig[i] ^= 1 << s.below(8);
            "signature"
        }
        3 => {
            g.reserved = b"reserved".to_vec();
            "reserved"
        }
        4 => {
            g.version = 2;
            "version"
        }
        _ => "intact",
    };
    let file = g.bytes();
    cx.class(what);
    cx.nontrivial(&(&file, &vmsg, &vns));
    cx.desc(|| format!("{} {what} {}", k.alg.plain(), hex(&file)));
    let lib = match SshSignature::from_armored_string(&sig_armor(&file)) {
        Ok(sg) => VerifiedSshSignature::from_ssh_signature(&vmsg, sg, &vns, None).is_ok(),
        Err(_) => false,
    };
    let sc = sshk::Scratch::new();
    let p = sc.file("sig", sig_armor(&file).as_bytes());
    let out = sshk::run(&["-Y", "check-novalidate", "-n", &vns, "-s", &p], Some(&vmsg), &[]);
    ensure!(out.ok == lib, "ssh-keygen", "the library says {lib}, ssh-keygen says {} ({} {}): {what} {}", out.ok, out.stdout.trim(), out.stderr.trim(), hex(&file));
    Ok(())
}

fn c13_keygen_signs(s: &mut Src, cx: &mut Ctx) -> PResult {
    if !sshk::available() {
        return Ok(());
    }
    let k = keygen_key(s, true);
    let ns = arg_text(s);
    let msg = message(s);
    let hash = *s.pick(&["sha512", "sha256"]);
    let sc = sshk::Scratch::new();
    let kf = sc.file("id", priv_armor(&priv_file(&k, 9, "c", (0, b"", b""))).as_bytes());
    let o = sshk::run(&["-Y", "sign", "-n", &ns, "-O", &format!("hashalg={hash}"), "-f", &kf], Some(&msg), &[]);
    if !o.ok {
        return fail("oracle", format!("ssh-keygen -Y sign failed: {}", o.stderr));
    }
    cx.class(k.alg.plain());
    cx.nontrivial(&o.stdout);
    cx.desc(|| format!("{} {hash} namespace {ns:?}", k.alg.plain()));
    let read = || SshSignature::from_armored_string(&o.stdout).map_err(|e| Fail { kind: "rejected-valid".into(), msg: format!("a signature by ssh-keygen is rejected: {e}\n{}", o.stdout) });
    let pk = lib_pub(&k)?;
    match VerifiedSshSignature::from_ssh_signature(&msg, read()?, &ns, Some(pk)) {
        Ok(v) => ensure!(v.signature.hash_algorithm.as_str() == hash && v.signature.namespace == ns, "fields", "fields of a signature by ssh-keygen differ"),
        Err(e) => return fail("rejected-valid", format!("a signature by ssh-keygen does not verify: {e}\n{}", o.stdout)),
    }
    let mut other = msg.clone();
    other.push(0);
    ensure!(VerifiedSshSignature::from_ssh_signature(&other, read()?, &ns, None).is_err(), "accepted-invalid", "verifies for another message");
    ensure!(VerifiedSshSignature::from_ssh_signature(&msg, read()?, &format!("{ns}x"), None).is_err(), "accepted-invalid", "verifies for another namespace");
    Ok(())
}

// ---------------------------------------------------------------- creating

fn hash_arg(i: usize) -> (Option<HashAlgorithm>, &'static str) {
    match i {
        0 => (None, "sha512"),
        1 => (Some(HashAlgorithm::Sha512), "sha512"),
        _ => (Some(HashAlgorithm::Sha256), "sha256"),
    }
}

fn c14_create(s: &mut Src, cx: &mut Ctx) -> PResult {
    let k = key_soft(s);
    let ns = namespace(s);
    let msg = message(s);
    let (ha, hash) = hash_arg(s.below(3));
    cx.class(k.alg.plain());
    cx.nontrivial(&(k.line(), &ns, &msg, hash));
    cx.desc(|| format!("{} {hash} namespace {ns:?} message {}", k.alg.plain(), hex(&msg)));
    let v = match VerifiedSshSignature::new_with_private_key(&msg, &ns, lib_priv(&k)?, ha) {
        Ok(v) => v,
        Err(e) => return fail("no-signature", format!("cannot sign: {e} ({})", k.line())),
    };
    ensure!(v.message == msg && v.signature.namespace == ns && v.signature.hash_algorithm.as_str() == hash, "fields", "the returned object has other fields");
    let t = v.to_string();
    ensure!(t == v.signature.to_string(), "armor", "the two text forms differ");
    // Armor.
    let lines: Vec<&str> = t.lines().collect();
    ensure!(lines.len() >= 3 && lines[0] == SIG_BEGIN && lines[lines.len() - 1] == SIG_END, "armor", "bad markers:\n{t}");
    let body = &lines[1..lines.len() - 1];
    ensure!(body.iter().all(|l| !l.is_empty() && l.len() <= 76), "armor", "bad line length:\n{t}");
    let file = match crate::wire::unb64(&body.concat()) {
        Some(f) => f,
        None => return fail("armor", format!("bad base64:\n{t}")),
    };
    let r = match ref_parse(&file) {
        Some(r) => r,
        None => return fail("malformed", format!("the created file is malformed: {}", hex(&file))),
    };
    ensure!(r.key == refpub(&k) && r.ns == ns && r.hash == hash, "fields", "the created file has other fields: {}", hex(&file));
    ensure!(ref_valid(&file, &msg, &ns, Some(&k.blob())).is_some(), "invalid", "the created signature does not verify: {}", hex(&file));
    let g = Sshsig { magic: b"SSHSIG".to_vec(), version: 1, blob: k.blob(), ns: ns.clone().into_bytes(), reserved: vec![], hash: hash.as_bytes().to_vec(), sig: r.sig.clone(), tail: vec![] };
    ensure!(g.bytes() == file, "malformed", "not the canonical encoding: {}", hex(&file));
    // Read back.
    let back = || SshSignature::from_armored_string(&t).map_err(|e| Fail { kind: "reparse".into(), msg: format!("the created file does not read back: {e}\n{t}") });
    let b = back()?;
    ensure!(b.pubkey == v.signature.pubkey && b.namespace == ns && b.hash_algorithm.as_str() == hash && b.signature == v.signature.signature && b.to_string() == t, "reparse", "reads back differently");
    ensure!(VerifiedSshSignature::from_ssh_signature(&msg, b, &ns, Some(lib_pub(&k)?)).is_ok(), "reparse", "does not verify after reading back");
    let mut other = msg.clone();
    mangle(s, &mut other);
    if other != msg {
        ensure!(VerifiedSshSignature::from_ssh_signature(&other, back()?, &ns, None).is_err(), "accepted-invalid", "verifies for another message {}", hex(&other));
    }
    Ok(())
}
fn c14_refused(s: &mut Src, cx: &mut Ctx) -> PResult {
    let a = s.below(3);
    let msg = message(s);
    let (ha, _) = hash_arg(s.below(3));
    let (k, ns) = match a {
        0 => (key_soft(s), String::new()),
        1 => (key_of(s, Alg::P521), namespace(s)),
        _ => {
            let alg = *s.pick(&[Alg::SkEd, Alg::SkP256]);
            (key_of(s, alg), namespace(s))
        }
    };
    cx.nontrivial(&(k.line(), &ns, &msg));
    cx.class(["empty namespace", "unsupported curve", "security key without hardware"][a]);
    match VerifiedSshSignature::new_with_private_key(&msg, &ns, lib_priv(&k)?, ha) {
        Ok(v) => fail("not-refused", format!("created a signature with {} in namespace {ns:?}: {v}", k.alg.plain())),
        Err(_) => Ok(()),
    }
}
fn c14_keygen(s: &mut Src, cx: &mut Ctx) -> PResult {
    if !sshk::available() {
        return Ok(());
    }
    let k = keygen_key(s, true);
    let ns = arg_text(s);
    let msg = message(s);
    let (ha, hash) = hash_arg(s.below(3));
    cx.class(k.alg.plain());
    cx.nontrivial(&(k.line(), &ns, &msg, hash));
    cx.desc(|| format!("{} {hash} namespace {ns:?}", k.alg.plain()));
    let v = VerifiedSshSignature::new_with_private_key(&msg, &ns, lib_priv(&k)?, ha).map_err(|e| Fail { kind: "no-signature".into(), msg: format!("{e}") })?;
    let sc = sshk::Scratch::new();
    let p = sc.file("sig", v.to_string().as_bytes());
    let f = sc.file("signers", format!("me {}\n", k.line()).as_bytes());
    let o = sshk::run(&["-Y", "verify", "-n", &ns, "-s", &p, "-I", "me", "-f", &f], Some(&msg), &[]);
    ensure!(o.ok, "ssh-keygen", "ssh-keygen rejects the signature: {} {}\n{v}", o.stdout.trim(), o.stderr.trim());
    let mut other = msg;
    other.push(1);
    let o = sshk::run(&["-Y", "verify", "-n", &ns, "-s", &p, "-I", "me", "-f", &f], Some(&other), &[]);
    ensure!(!o.ok, "ssh-keygen", "ssh-keygen accepts the signature for another message");
    Ok(())
}

// ---------------------------------------------------------------- security keys

/// A signature blob by the emulated token, altered in some way.
fn sk_sig(s: &mut Src, k: &Key, data: &[u8]) -> (Vec<u8>, &'static str) {
    let mut o = SigOpts::gen(s);
    if o.shape != Shape::Any && k.alg == Alg::SkEd {
        o.shape = Shape::Any;
    }
    let sig = k.sign(data, &o);
    let n = sig.len();
    let plain_alg = if k.alg == Alg::SkEd { Alg::Ed } else { Alg::P256 };
    match s.below(17) {
        0 | 1 | 2 => (sig, "intact"),
        3 => {
            let mut v = sig;
            v[n - 5] ^= 1 << s.below(8);
            (v, "flags")
        }
        4 => {
            let mut v = sig;
            v[n - 1 - s.below(4)] ^= 1 << s.below(8);
            (v, "counter")
        }
        5 => {
            let mut v = sig;
            v.truncate(n - 1 - s.below(5));
            (v, "trailer cut")
        }
        6 => {
            let mut v = sig;
            let e = s.range(1, 6);
            v.extend(s.bytes(e));
            (v, "trailer extended")
        }
        7 => {
            let mut kk = k.clone();
            kk.app = match s.below(4) {
                0 => String::new(),
                1 => format!("{}x", k.app),
                2 => k.app.to_uppercase(),
                _ => text(s),
            };
            (kk.sign(data, &o), "signed for another application")
        }
        8 => {
            let mut d = data.to_vec();
            mangle(s, &mut d);
            (k.sign(&d, &o), "signed other data")
        }
        9 => {
            let other = key_of(s, k.alg);
            let mut other = other;
            other.app = k.app.clone();
            (other.sign(data, &o), "signed by another token")
        }
        10 => {
            // A plain signature over the data under the security key's name.
            let mut p = k.clone();
            p.alg = plain_alg;
            let ps = p.sign(data, &o);
            let mut r = R::new(&ps);
            r.str();
            let rest = ps[r.p..].to_vec();
            let w = W::new().str(k.alg.plain()).raw(&rest);
            (if s.bool() { w.u8(o.flags).u32(o.counter).0 } else { w.0 }, "plain signature renamed")
        }
        11 => {
            let mut p = k.clone();
            p.alg = plain_alg;
            (p.sign(data, &o), "plain signature")
        }
        12 => {
            let mut r = R::new(&sig);
            r.str();
            let rest = sig[r.p..].to_vec();
            (W::new().str(plain_alg.plain()).raw(&rest).0, "named like a plain signature")
        }
        13 => {
            // The inner message laid out differently, but signed by the token's key.
            let mut p = k.clone();
            p.alg = plain_alg;
            let inner = match s.below(6) {
                0 => W::new().raw(&sha256(k.app.as_bytes())).u8(o.flags).u32(o.counter).raw(data).0,
                1 => W::new().raw(k.app.as_bytes()).u8(o.flags).u32(o.counter).raw(&sha256(data)).0,
                2 => W::new().raw(&sha256(k.app.as_bytes())).u32(o.counter).u8(o.flags).raw(&sha256(data)).0,
                3 => W::new().raw(&sha256(data)).u8(o.flags).u32(o.counter).raw(&sha256(k.app.as_bytes())).0,
                4 => W::new().raw(&sha256(k.app.as_bytes())).u8(o.flags).raw(&o.counter.to_le_bytes()).raw(&sha256(data)).0,
                _ => sha256(data),
            };
            let ps = p.sign(&inner, &o);
            let mut r = R::new(&ps);
            r.str();
            let rest = ps[r.p..].to_vec();
            (W::new().str(k.alg.plain()).raw(&rest).u8(o.flags).u32(o.counter).0, "other inner layout")
        }
        14 => {
            let mut v = sig;
            mangle(s, &mut v);
            (v, "damaged")
        }
        15 => {
            let mut v = sig.clone();
            let t = v.split_off(n - 5);
            let mut u = t;
            u.rotate_left(1);
            v.extend(u);
            (v, "trailer rotated")
        }
        _ => {
            let o2 = SigOpts { counter: o.counter.wrapping_add(1), ..o.clone() };
            let a = k.sign(data, &o2);
            let mut v = a[..a.len() - 5].to_vec();
            v.extend(W::new().u8(o.flags).u32(o.counter).0);
            (v, "trailer of another signature")
        }
    }
}
fn sk_key(s: &mut Src) -> Key {
    let a = *s.pick(&[Alg::SkEd, Alg::SkP256]);
    key_of(s, a)
}

fn c15_cert(s: &mut Src, cx: &mut Ctx) -> PResult {
    let mut m = CertM::gen(s);
    m.ca = sk_key(s);
    let tbs = m.tbs();
    let (bytes, what) = if s.chance(40) {
        // A software CA presenting a security key signature.
        let k = m.ca.clone();
        let o = SigOpts::gen(s);
        let mut p = k.clone();
        p.alg = if k.alg == Alg::SkEd { Alg::Ed } else { Alg::P256 };
        m.ca = p.clone();
        let tbs = m.tbs();
        let sig = match s.below(4) {
            0 => k.sign(&tbs, &o),
            1 => {
                let v = k.sign(&tbs, &o);
                let mut r = R::new(&v);
                r.str();
                W::new().str(p.alg.plain()).raw(&v[r.p..]).0
            }
            2 => W(p.sign(&tbs, &o)).u8(o.flags).u32(o.counter).0,
            _ => p.sign(&tbs, &o),
        };
        (attach(&tbs, &sig), "software CA")
    } else {
        let (sig, what) = sk_sig(s, &m.ca, &tbs);
        let mut t = tbs.clone();
        if s.chance(30) {
            // The application in the CA key changed after signing.
            let mut m2 = m.clone();
            m2.ca.app.push('y');
            t = m2.tbs();
        }
        (attach(&t, &sig), what)
    };
    cx.class(what);
    cx.nontrivial(&bytes);
    cx.desc(|| format!("{what}: {}", m.summary()));
    let want = ref_cert(&bytes);
    match (Certificate::from_bytes(&bytes), want) {
        (Ok(_), None) => fail("accepted-invalid", format!("{what}: accepted {}", hex(&bytes))),
        (Err(e), Some(_)) => fail("rejected-valid", format!("{what}: rejected ({e}) {}", hex(&bytes))),
        (Ok(c), Some(r)) => same_cert(&c, &r, &bytes),
        _ => Ok(()),
    }
}
fn c15_sig(s: &mut Src, cx: &mut Ctx) -> PResult {
    let k = sk_key(s);
    let ns = namespace(s);
    let msg = message(s);
    let hash = *s.pick(&["sha512", "sha256"]);
    let data = signed_data(ns.as_bytes(), hash, &msg);
    let (sig, what) = sk_sig(s, &k, &data);
    let mut g = make(&k, &ns, hash, &msg, &SigOpts::default());
    g.sig = sig;
    let what = match s.below(6) {
        0 => {
            let mut kk = k.clone();
            kk.app.push('z');
            g.blob = kk.blob();
            "application changed in the key"
        }
        1 => {
            let mut kk = k.clone();
            kk.alg = if k.alg == Alg::SkEd { Alg::Ed } else { Alg::P256 };
            g.blob = kk.blob();
            "software key presented"
        }
        _ => what,
    };
    let file = g.bytes();
    cx.class(what);
    cx.nontrivial(&(&file, &msg));
    cx.desc(|| format!("{what}: {}", hex(&file)));
    judge(&file, &sig_armor(&file), &msg, &ns, None)
}

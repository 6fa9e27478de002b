//! A question is an entry point of the library with its arguments; the answer is a
//! canonical rendering of everything observable about the result. Answers are compared
//! between processes, histories and builds, so they must not contain anything random
//! (ECDSA signatures) or unordered (maps). Depends on nothing but the library, so that it
//! can be built against it with any features.
#![allow(dead_code)]

use sshcerts::ssh::*;
use std::convert::TryFrom;
use std::fmt::Write as _;
use std::io::{Read, Write};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Entry {
    CertBytes,
    CertText,
    /// Certificate bytes and a signature to complete it with again.
    Complete,
    PubBytes,
    PubText,
    PrivText,
    PrivPass,
    PrivBytes,
    /// Private key text and a message.
    Sign,
    /// Armored signature, message, namespace.
    Sig,
    /// The same and the expected key.
    SigKey,
    Signer,
    Signers,
    Der,
    Name,
    Hash,
    X509,
    Csr,
    Spki,
    Chain,
    Att,
    Auth,
}
pub const ENTRIES: [Entry; 22] = [
    Entry::CertBytes,
    Entry::CertText,
    Entry::Complete,
    Entry::PubBytes,
    Entry::PubText,
    Entry::PrivText,
    Entry::PrivPass,
    Entry::PrivBytes,
    Entry::Sign,
    Entry::Sig,
    Entry::SigKey,
    Entry::Signer,
    Entry::Signers,
    Entry::Der,
    Entry::Name,
    Entry::Hash,
    Entry::X509,
    Entry::Csr,
    Entry::Spki,
    Entry::Chain,
    Entry::Att,
    Entry::Auth,
];

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Question {
    pub entry: Entry,
    pub args: Vec<Vec<u8>>,
}

fn hx(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn show_pub(o: &mut String, k: &PublicKey) {
    let mut v = vec![];
    let _ = k.write(&mut v);
    let _ = write!(
        o,
        "{} sk {} | {} | {:?} | {} | {} | {} {} {} | {}",
        k.key_type.name,
        k.key_type.is_sk,
        hx(&k.encode()),
        k.comment,
        k,
        k.bits(),
        k.fingerprint(),
        k.fingerprint_with(FingerprintKind::Sha384),
        k.fingerprint_with(FingerprintKind::Sha512),
        hx(&v)
    );
}
fn show_cert(o: &mut String, c: &Certificate) {
    let _ = write!(
        o,
        "{} nonce {} serial {} {:?} id {:?} principals {:?} valid {} {} reserved {} signature {} comment {:?} bytes {}\nkey ",
        c.key_type.name,
        hx(&c.nonce),
        c.serial,
        c.cert_type,
        c.key_id,
        c.principals,
        c.valid_after,
        c.valid_before,
        hx(&c.reserved),
        hx(&c.signature),
        c.comment,
        hx(&c.serialized)
    );
    show_pub(o, &c.key);
    o.push_str("\nca ");
    show_pub(o, &c.signature_key);
    for m in [&c.critical_options, &c.extensions] {
        let mut v: Vec<_> = m.iter().collect();
        v.sort();
        let _ = write!(o, "\noptions {v:?}");
    }
    let mut l: Vec<String> = format!("{c:#}").lines().map(|x| x.to_string()).collect();
    l.sort();
    let _ = write!(o, "\nline {c}\ntext {l:?}\ntbs {}", hx(&c.tbs_certificate()));
}
fn show_sign(o: &mut String, k: &PrivateKey, m: &[u8]) {
    match k.sign(m) {
        None => o.push_str("no signature"),
        Some(s) if matches!(k.kind, PrivateKeyKind::Ecdsa(_)) => {
            let name = s.get(4..).and_then(|t| t.get(..*s.get(3)? as usize)).unwrap_or(&[]);
            let _ = write!(o, "signature by {}", String::from_utf8_lossy(name));
        }
        Some(s) => {
            let _ = write!(o, "signature {}", hx(&s));
        }
    }
}
fn show_priv(o: &mut String, k: &PrivateKey) {
    let mut v = vec![];
    let _ = k.write(&mut v);
    let _ = write!(o, "{} {:?} {} {k}\n{}\n", k.key_type.name, k.comment, k.magic, hx(&v));
    show_pub(o, &k.pubkey);
    o.push('\n');
    show_sign(o, k, b"message");
}
fn show_signer(o: &mut String, a: &AllowedSigner) {
    let _ = write!(o, "{:?} ca {} ns {:?} after {:?} before {:?} as {a} key ", a.principals, a.cert_authority, a.namespaces, a.valid_after, a.valid_before);
    show_pub(o, &a.key);
}

type Res<T> = Result<T, sshcerts::error::Error>;
fn answer_inner(q: &Question) -> String {
    let a = |i: usize| -> &[u8] { q.args.get(i).map(|x| &x[..]).unwrap_or(&[]) };
    let t = |i: usize| -> String { String::from_utf8_lossy(a(i)).into_owned() };
    let mut o = String::new();
    fn done<T>(o: &mut String, r: Res<T>, f: impl FnOnce(&mut String, &T)) {
        match r {
            Ok(x) => {
                o.push_str("ok ");
                f(o, &x)
            }
            Err(e) => {
                let _ = write!(o, "error {e:?}");
            }
        }
    }
    match q.entry {
        Entry::CertBytes => done(&mut o, Certificate::from_bytes(a(0)), show_cert),
        Entry::CertText => done(&mut o, Certificate::from_string(&t(0)), show_cert),
        Entry::Complete => match Certificate::from_bytes(a(0)) {
            Ok(c) => done(&mut o, c.add_signature(a(1)), show_cert),
            Err(e) => {
                let _ = write!(o, "error at first {e:?}");
            }
        },
        Entry::PubBytes => done(&mut o, PublicKey::from_bytes(a(0)), show_pub),
        Entry::PubText => done(&mut o, PublicKey::from_string(&t(0)), show_pub),
        Entry::PrivText => done(&mut o, PrivateKey::from_string(&t(0)), show_priv),
        Entry::PrivPass => done(&mut o, PrivateKey::from_string_with_passphrase(&t(0), Some(t(1))), show_priv),
        Entry::PrivBytes => done(&mut o, PrivateKey::from_bytes(a(0)), show_priv),
        Entry::Sign => done(&mut o, PrivateKey::from_string(&t(0)), |o, k| {
            show_sign(o, k, a(1));
            let ns = if a(1).len() % 3 == 0 { "file" } else { "git" };
            match VerifiedSshSignature::new_with_private_key(a(1), ns, k.clone(), None) {
                Err(e) => {
                    let _ = write!(o, " detached error {e:?}");
                }
                Ok(v) if matches!(k.kind, PrivateKeyKind::Ecdsa(_)) => {
                    let _ = write!(o, " detached of {} bytes or so", v.to_string().len() / 100);
                }
                Ok(v) => {
                    let _ = write!(o, " detached {v}");
                }
            }
        }),
        Entry::Sig | Entry::SigKey => {
            let key = if q.entry == Entry::SigKey { PublicKey::from_string(&t(3)).ok() } else { None };
            match SshSignature::from_armored_string(&t(0)) {
                Ok(x) => {
                    let _ = write!(o, "read {} {:?} {} {x} ", x.namespace, x.hash_algorithm, hx(&x.signature));
                    show_pub(&mut o, &x.pubkey);
                    done(&mut o, VerifiedSshSignature::from_ssh_signature(a(1), x, &t(2), key), |o, v| {
                        let _ = write!(o, "verified {v}");
                    })
                }
                Err(e) => {
                    let _ = write!(o, "error {e:?}");
                }
            }
        }
        Entry::Signer => done(&mut o, AllowedSigner::from_string(&t(0)), show_signer),
        Entry::Signers => done(&mut o, AllowedSigners::from_string(&t(0)), |o, v| {
            for x in &v.0 {
                show_signer(o, x);
                o.push('\n');
            }
        }),
        Entry::Der => {
            let _ = write!(o, "{:?} {:?}", sshcerts::utils::asn_der_to_r_s(a(0)), sshcerts::utils::signature_convert_asn1_ecdsa_to_ssh(a(0)).map(|x| hx(&x)));
        }
        Entry::Name => {
            done(&mut o, KeyType::from_name(&t(0)), |o, k| {
                let _ = write!(o, "{k:?} {k} {} {}", k.as_cert_name(), k.as_pubkey_name());
            });
            done(&mut o, Curve::from_identifier(&t(0)), |o, c| {
                let _ = write!(o, "{c:?}");
            });
            let _ = write!(o, "{:?}", CertType::try_from(t(0).as_str()));
        }
        Entry::Hash => {
            for k in [FingerprintKind::Sha256, FingerprintKind::Sha384, FingerprintKind::Sha512] {
                let _ = write!(o, "{} ", Fingerprint::compute(k, a(0)));
            }
        }
        #[cfg(feature = "full")]
        Entry::X509 => done(&mut o, sshcerts::x509::extract_ssh_pubkey_from_x509_certificate(a(0)), show_pub),
        #[cfg(feature = "full")]
        Entry::Csr => done(&mut o, sshcerts::x509::extract_ssh_pubkey_from_x509_csr(a(0)), show_pub),
        #[cfg(feature = "full")]
        Entry::Spki => done(&mut o, sshcerts::x509::der_encoding_to_ssh_public_key(a(0)), show_pub),
        #[cfg(feature = "full")]
        Entry::Chain => {
            let root = t(2);
            let root = if root.is_empty() { None } else { Some(root.as_str()) };
            done(&mut o, sshcerts::yubikey::verification::verify_certificate_chain(a(0), a(1), root), |o, v| {
                let _ = write!(o, "{} {} {} {} ", v.firmware, v.serial, v.touch_policy, v.pin_policy);
                show_pub(o, &v.public_key);
            })
        }
        #[cfg(feature = "full")]
        Entry::Att => {
            let root = t(4);
            let root = if root.is_empty() { None } else { Some(root.as_str()) };
            done(&mut o, sshcerts::fido::verification::verify_auth_data(a(0), a(1), a(2), -7, a(3), root), |o, v| {
                let _ = write!(o, "{:?} {:?} {} ", v.firmware, v.aaguid, v.transports.as_ref().map(|x| x.len()).unwrap_or(99));
                show_auth(o, &v.auth_data);
            })
        }
        #[cfg(feature = "full")]
        Entry::Auth => done(&mut o, sshcerts::fido::AuthData::parse(a(0)), show_auth),
        #[cfg(not(feature = "full"))]
        _ => o.push_str("not built"),
    }
    o
}
#[cfg(feature = "full")]
fn show_auth(o: &mut String, v: &sshcerts::fido::AuthData) {
    let mut p: Vec<_> = v.cose_key.parameters.iter().collect();
    p.sort();
    let _ = write!(o, "{} {} {:?} {} {} {} {} {p:?} {} {} ", hx(&v.rpid_hash), v.flags, hx(&v.aaguid), v.sign_count, hx(&v.credential_id), v.cose_key.key_type, v.cose_key.algorithm, hx(&v.cose_key.key), v.user_presence());
    match v.ssh_public_key("ssh:") {
        Ok(k) => show_pub(o, &k),
        Err(e) => {
            let _ = write!(o, "error {e:?}");
        }
    }
}

pub fn answer(q: &Question) -> String {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| answer_inner(q))).unwrap_or_else(|_| "panic".into())
}

// ------------------------------------------------------------------ worker protocol

fn put(v: &mut Vec<u8>, b: &[u8]) {
    v.extend((b.len() as u32).to_be_bytes());
    v.extend(b);
}
/// Several threads, each with its list of questions (by number) to answer in order.
pub fn request(qs: &[Question], plan: &[Vec<usize>]) -> Vec<u8> {
    let mut v = vec![];
    v.extend((qs.len() as u32).to_be_bytes());
    for q in qs {
        v.push(ENTRIES.iter().position(|e| *e == q.entry).unwrap() as u8);
        v.push(q.args.len() as u8);
        for a in &q.args {
            put(&mut v, a);
        }
    }
    v.extend((plan.len() as u32).to_be_bytes());
    for p in plan {
        v.extend((p.len() as u32).to_be_bytes());
        for i in p {
            v.extend((*i as u32).to_be_bytes());
        }
    }
    v
}
struct In<'a>(&'a [u8]);
impl<'a> In<'a> {
    fn take(&mut self, n: usize) -> &'a [u8] {
        let (a, b) = self.0.split_at(n.min(self.0.len()));
        self.0 = b;
        a
    }
    fn u8(&mut self) -> u8 {
        self.take(1).first().copied().unwrap_or(0)
    }
    fn u32(&mut self) -> usize {
        self.take(4).iter().fold(0, |x, b| x << 8 | *b as usize)
    }
    fn bytes(&mut self) -> &'a [u8] {
        let n = self.u32();
        self.take(n)
    }
}
/// Child process: one request on standard input, the answers (length and text, thread by
/// thread) on standard output.
pub fn worker() -> i32 {
    let mut b = vec![];
    if std::io::stdin().lock().read_to_end(&mut b).is_err() {
        return 1;
    }
    let mut r = In(&b);
    let n = r.u32();
    let qs: Vec<Question> = (0..n)
        .map(|_| {
            let entry = ENTRIES[r.u8() as usize % ENTRIES.len()];
            let k = r.u8();
            Question { entry, args: (0..k).map(|_| r.bytes().to_vec()).collect() }
        })
        .collect();
    let threads = r.u32();
    let plan: Vec<Vec<usize>> = (0..threads)
        .map(|_| {
            let k = r.u32();
            (0..k).map(|_| r.u32()).collect()
        })
        .collect();
    let answers: Vec<Vec<String>> = if plan.len() == 1 {
        vec![plan[0].iter().map(|i| answer(&qs[*i])).collect()]
    } else {
        let gate = std::sync::Barrier::new(plan.len());
        std::thread::scope(|s| {
            let h: Vec<_> = plan
                .iter()
                .map(|p| {
                    let (qs, gate) = (&qs, &gate);
                    s.spawn(move || {
                        gate.wait();
                        p.iter().map(|i| answer(&qs[*i])).collect::<Vec<_>>()
                    })
                })
                .collect();
            h.into_iter().map(|x| x.join().unwrap_or_default()).collect()
        })
    };
    let mut out = vec![];
    for a in answers.iter().flatten() {
        put(&mut out, a.as_bytes());
    }
    if std::io::stdout().lock().write_all(&out).is_err() {
        return 1;
    }
    0
}
/// Run a worker on a request.
pub fn ask(cmd: &mut std::process::Command, qs: &[Question], plan: &[Vec<usize>]) -> Result<Vec<Vec<String>>, String> {
    use std::process::Stdio;
    let mut ch = cmd.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().map_err(|e| format!("cannot start the worker: {e}"))?;
    let mut i = ch.stdin.take().unwrap();
    let req = request(qs, plan);
    let h = std::thread::spawn(move || {
        let _ = i.write_all(&req);
    });
    let o = ch.wait_with_output().map_err(|e| e.to_string())?;
    let _ = h.join();
    let mut r = In(&o.stdout);
    let v: Vec<Vec<String>> = plan.iter().map(|p| p.iter().map(|_| String::from_utf8_lossy(r.bytes()).into_owned()).collect()).collect();
    if !o.status.success() {
        return Err(format!("died: {}", o.status));
    }
    Ok(v)
}

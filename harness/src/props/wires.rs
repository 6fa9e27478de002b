//! C20, C21, C22: wire encoding, readable certificates, DER signatures.

use super::common::*;
use crate::crypto::*;
use crate::engine::*;
use crate::gen::*;
use crate::wire::{b64, strip, R, W};
use openssl::bn::BigNum;
use openssl::ecdsa::EcdsaSig;
use sshcerts::ssh::{Certificate, PublicKey, Reader, Writer};
use sshcerts::utils::{asn_der_to_r_s, format_signature_for_ssh, signature_convert_asn1_ecdsa_to_ssh};
use std::collections::HashMap;

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C20",
            rule: "A generated sequence of writer operations is compared byte for byte with a reference codec and read back operation by operation with offsets checked; generated and damaged buffers are read with generated operation and seek sequences against the reference reader, which decides value, offset or failure. Non-trivial: at least one operation; distinct by operations and buffer.",
            facets: vec![facet("write-read", 1000000, 6250000, c20_write), facet("read-anything", 1500000, 10000000, c20_read)],
        },
        Property {
            id: "C21",
            rule: "A generated certificate is parsed and rendered; each line of the readable form is compared with an independent rendering of the encoded fields (order of options ignored), and the one-line form with type name, base64 and key id. Non-trivial: every case; distinct by certificate.",
            facets: vec![facet("render", 32000, 240000, c21_render)],
        },
        Property {
            id: "C22",
            rule: "Integer pairs of every size up to 48 bytes, biased to high bits and leading zeros, are DER-encoded by OpenSSL and converted; the result must be the SSH encoding of the same integers. Damaged encodings must be accepted exactly when a strict DER parser accepts them. Wrapping for a key must give its scheme name and signature. Non-trivial: every case; distinct by DER bytes.",
            facets: vec![facet("convert", 1440000, 5000000, c22_convert), facet("damaged", 1800000, 8000000, c22_damaged), facet("wrap", 360000, 1000000, c22_wrap)],
        },
    ]
}

#[derive(Clone, Debug, Hash)]
enum Op {
    Str(String),
    Bytes(Vec<u8>),
    Raw(Vec<u8>),
    U32(u32),
    U64(u64),
    Mpint(Vec<u8>),
    Vec(Vec<String>),
    Map(Vec<(String, String)>),
    C(String),
    Key(Vec<u8>),
    KeyData(Vec<u8>),
}

fn gen_op(s: &mut Src) -> Op {
    match s.below(11) {
        0 => Op::Str(text(s)),
        1 => {
            let n = if s.chance(8) { big(s) } else { s.len(300) };
            Op::Bytes(s.blob(n))
        }
        2 => {
            let n = if s.chance(8) { big(s) } else { s.len(40) };
            Op::Raw(s.blob(n))
        }
        3 => Op::U32(*s.pick(&[0, 1, 0x7fff_ffff, 0x8000_0000, u32::MAX]) ^ (s.byte() as u32)),
        4 => Op::U64(u64_edgy(s)),
        5 => {
            let n = if s.chance(8) { big(s) } else { s.len(80) };
            let mut v = s.blob(n);
            match s.below(4) {
                0 => {
                    let z = s.below(v.len() + 1);
                    v[..z].fill(0)
                }
                1 if !v.is_empty() => v[0] |= 0x80,
                2 if !v.is_empty() => v[0] = *s.pick(&[0x7f, 0x80, 0xff, 1]),
                _ => {}
            }
            Op::Mpint(v)
        }
        6 => {
            Op::Vec(texts(s, 6))
        }
        7 => Op::Map(options(s, 5)),
        8 => Op::C(text(s).replace('\0', "")),
        9 => Op::Key(key_any(s).blob()),
        _ => Op::KeyData(key_any(s).blob()),
    }
}
fn model(op: &Op, w: W) -> W {
    match op {
        Op::Str(x) => w.str(x),
        Op::Bytes(x) => w.bytes(x),
        Op::Raw(x) => w.raw(x),
        Op::U32(x) => w.u32(*x),
        Op::U64(x) => w.u64(*x),
        Op::Mpint(x) => w.mpint(x),
        Op::Vec(x) => w.bytes(&enc_strings(x)),
        Op::Map(x) => w.bytes(&enc_options(x)),
        Op::C(x) => w.raw(x.as_bytes()).u8(0),
        Op::Key(b) => w.bytes(b),
        Op::KeyData(b) => {
            let mut r = R::new(b);
            r.str();
            w.raw(&b[r.p..])
        }
    }
}

fn c20_write(s: &mut Src, cx: &mut Ctx) -> PResult {
    let n = s.len(14);
    let ops: Vec<Op> = (0..n).map(|_| gen_op(s)).collect();
    if !ops.is_empty() {
        cx.nontrivial(&ops);
    }
    cx.desc(|| format!("{ops:?}"));
    let mut w = if s.bool() { Writer::new() } else { Writer::default() };
    let mut m = W::new();
    let mut ends = vec![];
    for op in &ops {
        let before = w.as_bytes().to_vec();
        match op {
            Op::Str(x) => w.write_string(x),
            Op::Bytes(x) => w.write_bytes(x),
            Op::Raw(x) => w.write_raw_bytes(x),
            Op::U32(x) => w.write_u32(*x),
            Op::U64(x) => w.write_u64(*x),
            Op::Mpint(x) => w.write_mpint(x),
            Op::Vec(x) => w.write_string_vec(x),
            Op::Map(x) => w.write_string_map(&x.iter().cloned().collect::<HashMap<_, _>>()),
            Op::C(x) => w.write_cstring(x),
            Op::Key(b) | Op::KeyData(b) => {
                let k = PublicKey::from_bytes(b).map_err(|e| Fail { kind: "pub-load".into(), msg: format!("{e}") })?;
                if matches!(op, Op::Key(_)) {
                    w.write_pub_key(&k)
                } else {
                    w.write_pub_key_data(&k)
                }
            }
        }
        m = model(op, m);
        ensure!(w.as_bytes() == &m.0[..], "encoding", "{op:?} is written as {} instead of {}", hex(&w.as_bytes()[before.len().min(w.as_bytes().len())..]), hex(&m.0[before.len()..]));
        ends.push(m.0.len());
    }
    let bytes = w.into_bytes();
    ensure!(bytes == m.0, "encoding", "into_bytes differs from as_bytes");
    // Read everything back.
    let mut r = Reader::new(&bytes);
    let e = |op: &Op, e: sshcerts::error::Error| Fail { kind: "read-back".into(), msg: format!("{op:?} does not read back: {e}") };
    for (op, end) in ops.iter().zip(&ends) {
        let ok = match op {
            Op::Str(x) => r.read_string().map_err(|x| e(op, x))? == *x,
            Op::Bytes(x) => r.read_bytes().map_err(|x| e(op, x))? == *x,
            Op::Raw(x) if x.is_empty() => true,
            Op::Raw(x) => r.read_raw_bytes(x.len()).map_err(|x| e(op, x))? == *x,
            Op::U32(x) => r.read_u32().map_err(|x| e(op, x))? == *x,
            Op::U64(x) => r.read_u64().map_err(|x| e(op, x))? == *x,
            Op::Mpint(x) => r.read_positive_mpint().map_err(|x| e(op, x))? == strip(x),
            Op::Vec(x) => {
                let b = r.read_bytes().map_err(|x| e(op, x))?;
                let mut i = Reader::new(&b);
                let mut v = vec![];
                while i.get_offset() < b.len() {
                    v.push(i.read_string().map_err(|x| e(op, x))?);
                }
                v == *x
            }
            Op::Map(x) => {
                let b = r.read_bytes().map_err(|x| e(op, x))?;
                let mut i = Reader::new(&b);
                let mut v = vec![];
                while i.get_offset() < b.len() {
                    let k = i.read_string().map_err(|x| e(op, x))?;
                    let d = i.read_bytes().map_err(|x| e(op, x))?;
                    let val = if d.is_empty() { String::new() } else { Reader::new(&d).read_string().map_err(|x| e(op, x))? };
                    v.push((k, val));
                }
                v == *x
            }
            Op::C(x) => r.read_cstring().map_err(|x| e(op, x))? == *x,
            Op::Key(b) => r.read_bytes().map_err(|x| e(op, x))? == *b,
            Op::KeyData(b) => {
                let mut q = R::new(b);
                q.str();
                r.read_raw_bytes(b.len() - q.p).map_err(|x| e(op, x))? == b[q.p..]
            }
        };
        ensure!(ok, "read-back", "{op:?} reads back differently");
        ensure!(r.get_offset() == *end, "offset", "after {op:?} the offset is {} instead of {end}", r.get_offset());
    }
    Ok(())
}

fn c20_read(s: &mut Src, cx: &mut Ctx) -> PResult {
    // A buffer of valid values, damaged, or of noise.
    let mut buf = match s.below(3) {
        0 => {
            let n = s.len(80);
            s.bytes(n)
        }
        _ => {
            let n = s.len(6);
            let mut m = W::new();
            for _ in 0..n {
                let op = gen_op(s);
                m = model(&op, m);
            }
            m.0
        }
    };
    if s.bool() {
        mangle(s, &mut buf);
    }
    if s.chance(60) && buf.len() >= 4 {
        let i = s.below(buf.len() - 3);
        let v = *s.pick(&[u32::MAX, 0x7fff_ffff, 0x8000_0000, 0xffff_fffb, 0xffff_fffc, buf.len() as u32, (buf.len() - i) as u32, (buf.len() - i - 4) as u32]);
        buf[i..i + 4].copy_from_slice(&v.to_be_bytes());
    }
    let n = 1 + s.len(14);
    let mut r = Reader::new(&buf);
    let mut pos = 0usize;
    let mut trace = vec![];
    let mut fails = 0;
    for _ in 0..n {
        ensure!(r.get_offset() == pos, "offset", "the offset is {} instead of {pos}, after {trace:?} on {}", r.get_offset(), hex(&buf));
        let op = s.below(9);
        let rem: &[u8] = if pos <= buf.len() { &buf[pos..] } else { &[] };
        let mut m = R::new(rem);
        // (what the reader returned, what the model returns), both as bytes.
        let (name, got, want): (String, Option<Vec<u8>>, Option<Vec<u8>>) = match op {
            0 => ("read_bytes".into(), r.read_bytes().ok(), m.bytes().map(|x| x.to_vec())),
            1 => ("read_string".into(), r.read_string().ok().map(|x| x.into_bytes()), m.str().map(|x| x.as_bytes().to_vec())),
            2 => ("read_u32".into(), r.read_u32().ok().map(|x| x.to_be_bytes().to_vec()), m.u32().map(|x| x.to_be_bytes().to_vec())),
            3 => ("read_u64".into(), r.read_u64().ok().map(|x| x.to_be_bytes().to_vec()), m.u64().map(|x| x.to_be_bytes().to_vec())),
            4 => ("read_positive_mpint".into(), r.read_positive_mpint().ok(), m.mpint().map(|x| x.to_vec())),
            5 => {
                let l = match s.below(6) {
                    0 => usize::MAX,
                    1 => rem.len(),
                    2 => rem.len() + 1,
                    3 => usize::MAX - pos,
                    4 => 1 << s.below(64),
                    _ => s.below(20),
                };
                if l == 0 {
                    continue;
                }
                (format!("read_raw_bytes({l})"), r.read_raw_bytes(l).ok(), m.take(l).map(|x| x.to_vec()))
            }
            6 => {
                let end = rem.iter().position(|b| *b == 0);
                let want = end.and_then(|e| m.take(e + 1)).map(|x| x[..x.len() - 1].to_vec()).filter(|x| std::str::from_utf8(x).is_ok());
                ("read_cstring".into(), r.read_cstring().ok().map(|x| x.into_bytes()), want)
            }
            _ => {
                let to = match s.below(5) {
                    0 => 0,
                    1 => buf.len(),
                    2 => usize::MAX,
                    3 => buf.len() + s.below(9),
                    _ => s.below(buf.len() + 1),
                };
                let _ = r.set_offset(to);
                pos = to;
                trace.push(format!("seek {to}"));
                continue;
            }
        };
        ensure!(got == want, "value", "{name} at {pos} gives {:?} instead of {:?}, after {trace:?} on {}", got.map(|x| hex(&x)), want.map(|x| hex(&x)), hex(&buf));
        trace.push(name);
        if want.is_some() {
            pos += m.p;
        } else {
            // Where a failed read leaves the offset is not specified.
            fails += 1;
            let _ = r.set_offset(pos);
        }
    }
    cx.nontrivial(&(&buf, &trace));
    cx.class(if fails > 0 { "with failing reads" } else { "all succeed" });
    cx.desc(|| format!("{trace:?} on {}", hex(&buf)));
    Ok(())
}

// ---------------------------------------------------------------- rendering

fn oneline(s: &mut Src) -> String {
    text(s).chars().filter(|c| *c != '\n').collect()
}

fn c21_render(s: &mut Src, cx: &mut Ctx) -> PResult {
    let mut m = CertM::gen(s);
    // One line per entry, so that the lines can be compared as sets.
    m.key_id = oneline(s);
    for p in m.principals.iter_mut() {
        p.retain(|c| c != '\n');
    }
    for o in [&mut m.crit, &mut m.ext] {
        for (k, v) in o.iter_mut() {
            k.retain(|c| c != '\n');
            v.retain(|c| c != '\n');
        }
        o.sort();
        o.dedup_by(|a, b| a.0 == b.0);
    }
    match s.below(5) {
        0 => (m.after, m.before) = (0, u64::MAX),
        1 => m.after = 0,
        2 => m.before = u64::MAX,
        _ => {}
    }
    let tbs = m.tbs();
    let bytes = attach(&tbs, &m.ca.sign(&tbs, &SigOpts::gen(s)));
    cx.nontrivial(&bytes);
    cx.class(if (m.after, m.before) == (0, u64::MAX) { "forever" } else { "bounded" });
    cx.desc(|| m.summary());
    let mut c = Certificate::from_bytes(&bytes).map_err(|e| Fail { kind: "cert-load".into(), msg: format!("{e}") })?;
    // The comment it came with is not part of it.
    match s.below(4) {
        0 => c.comment = Some(word(s)),
        1 => {
            let line = format!("{} {} {}", m.subj.alg.cert(), b64(&bytes), word(s));
            c = Certificate::from_string(&line).map_err(|e| Fail { kind: "cert-load".into(), msg: format!("{e}") })?;
        }
        _ => {}
    }
    let one = c.to_string();
    let want = format!("{} {} {}", m.subj.alg.cert(), b64(&bytes), m.key_id);
    ensure!(one == want, "one-line", "displayed as {one:?} instead of {want:?}");
    let t = format!("{c:#}");
    let fp = |k: &Key| format!("SHA256:{}", b64(&sha256(&k.blob())).trim_end_matches('='));
    let mut lines: Vec<&str> = t.split('\n').collect();
    while lines.last() == Some(&"") {
        lines.pop();
    }
    let mut it = lines.into_iter().peekable();
    let mut next = |what: &str| it.next().map(|x| x.to_string()).ok_or(Fail { kind: "render".into(), msg: format!("no line for {what} in\n{t}") });
    let kind = if m.typ == 1 { "user certificate" } else { "host certificate" };
    let exact = |got: String, want: String| -> PResult {
        ensure!(got == want, "render", "{got:?} instead of {want:?} in\n{t}");
        Ok(())
    };
    exact(next("type")?, format!("Type: {} {kind}", m.subj.alg.cert()))?;
    exact(next("public key")?, format!("Public Key: {}-CERT {}", m.subj.alg.short(), fp(&m.subj)))?;
    exact(next("CA")?, format!("Signing CA: {} {} (using {})", m.ca.alg.short(), fp(&m.ca), m.ca.alg.plain()))?;
    exact(next("key id")?, format!("Key ID: \"{}\"", m.key_id))?;
    exact(next("serial")?, format!("Serial: {}", m.serial))?;
    exact(
        next("validity")?,
        if m.after == 0 && m.before == u64::MAX { "Valid: forever".into() } else { format!("Valid between: {} and {}", m.after, m.before) },
    )?;
    if m.principals.is_empty() {
        exact(next("principals")?, "Principals: (none)".into())?;
    } else {
        exact(next("principals")?, "Principals".into())?;
        for p in &m.principals {
            exact(next("principal")?, format!("\t{p}"))?;
        }
    }
    for (title, o, vals) in [("Critical Options:", &m.crit, true), ("Extensions:", &m.ext, false)] {
        if o.is_empty() {
            exact(next(title)?, format!("{title} (none)"))?;
            continue;
        }
        exact(next(title)?, title.into())?;
        let mut got = vec![];
        for _ in o.iter() {
            got.push(next("option")?);
        }
        let mut want: Vec<String> = o.iter().map(|(k, v)| if vals { format!("\t{k} {v}") } else { format!("\t{k}") }).collect();
        got.sort();
        want.sort();
        ensure!(got == want, "render", "{got:?} instead of {want:?} in\n{t}");
    }
    drop(next);
    let rest: Vec<&str> = it.collect();
    ensure!(rest.is_empty(), "render", "additional lines {rest:?} in\n{t}");
    Ok(())
}

// ---------------------------------------------------------------- DER

fn magnitude(s: &mut Src) -> Vec<u8> {
    let n = match s.below(4) {
        0 => 32,
        1 => 48,
        _ => 1 + s.below(48),
    };
    let mut v = s.blob(n);
    match s.below(6) {
        0 => v[0] = 0x80,
        1 => v[0] = 0x7f,
        2 => {
            let z = s.below(n);
            v[..z].fill(0)
        }
        3 => v[0] = 0xff,
        _ => {}
    }
    let v = strip(&v).to_vec();
    if v.is_empty() {
        vec![1]
    } else {
        v
    }
}
fn der_of(r: &[u8], s: &[u8]) -> Vec<u8> {
    EcdsaSig::from_private_components(BigNum::from_slice(r).unwrap(), BigNum::from_slice(s).unwrap()).unwrap().to_der().unwrap()
}
fn check_convert(der: &[u8], r: &[u8], s: &[u8]) -> PResult {
    match asn_der_to_r_s(der) {
        Some((a, b)) => ensure!(strip(a) == strip(r) && strip(b) == strip(s), "value", "{} read as {} and {}", hex(der), hex(a), hex(b)),
        None => return fail("rejected-valid", format!("{} refused", hex(der))),
    }
    let want = W::new().mpint(r).mpint(s).0;
    match signature_convert_asn1_ecdsa_to_ssh(der) {
        Some(x) => ensure!(x == want, "value", "{} converted to {} instead of {}", hex(der), hex(&x), hex(&want)),
        None => return fail("rejected-valid", format!("{} not converted", hex(der))),
    }
    Ok(())
}
fn c22_convert(s: &mut Src, cx: &mut Ctx) -> PResult {
    let (r, t) = (magnitude(s), magnitude(s));
    let der = der_of(&r, &t);
    cx.nontrivial(&der);
    cx.desc(|| hex(&der));
    check_convert(&der, &r, &t)
}
/// A strict DER reader for SEQUENCE { INTEGER, INTEGER }. None: malformed. Some(None): not judged.
fn strict_der(b: &[u8]) -> Option<Option<(Vec<u8>, Vec<u8>)>> {
    fn tlv<'a>(b: &'a [u8], tag: u8, long: &mut bool) -> Option<(&'a [u8], &'a [u8])> {
        if *b.first()? != tag {
            return None;
        }
        let l = *b.get(1)?;
        let (n, h) = match l {
            0..=0x7f => (l as usize, 2),
            // Long forms are only needed beyond the supported curves.
            0x81 => {
                *long = true;
                let n = *b.get(2)? as usize;
                if n < 0x80 {
                    return None;
                }
                (n, 3)
            }
            _ => return None,
        };
        if b.len() - h < n {
            return None;
        }
        Some((&b[h..h + n], &b[h + n..]))
    }
    let mut long = false;
    let (body, rest) = tlv(b, 0x30, &mut long)?;
    if !rest.is_empty() {
        return None;
    }
    let (r, rest) = tlv(body, 2, &mut long)?;
    let (s, rest) = tlv(rest, 2, &mut long)?;
    if !rest.is_empty() {
        return None;
    }
    for i in [r, s] {
        match i {
            [] => return None,
            [x, ..] if *x >= 0x80 => return None,
            [0, x, ..] if *x < 0x80 => return None,
            _ => {}
        }
    }
    // Zero is an integer, but no part of a signature.
    if long || r == [0] || s == [0] {
        return Some(None);
    }
    Some(Some((r.to_vec(), s.to_vec())))
}
fn c22_damaged(s: &mut Src, cx: &mut Ctx) -> PResult {
    let (r, t) = (magnitude(s), magnitude(s));
    let mut der = der_of(&r, &t);
    let int = |b: &[u8]| {
        let mut v = vec![2, b.len() as u8];
        v.extend_from_slice(b);
        v
    };
    let seq = |b: Vec<u8>| {
        let mut v = vec![0x30, b.len() as u8];
        v.extend(b);
        v
    };
    let (mr, mt) = (crate::wire::mpint(&r), crate::wire::mpint(&t));
    match s.below(15) {
        0..=3 => {
            for _ in 0..1 + s.below(2) {
                mangle(s, &mut der);
            }
        }
        // The outer length tells the truth about contents that end anywhere or are damaged.
        12 => {
            let mut b = [int(&mr), int(&mt)].concat();
            b.truncate(s.below(b.len()));
            der = seq(b);
        }
        13 => {
            let mut b = int(&mr);
            let t = int(&mt);
            b.extend_from_slice(&t[..s.below(4).min(t.len())]);
            der = seq(b);
        }
        14 => {
            let mut b = [int(&mr), int(&mt)].concat();
            mangle(s, &mut b);
            der = seq(b);
        }
        4 => der[1] = s.byte(),
        5 => {
            let i = 3;
            der[i] = s.byte();
        }
        6 => der = seq(int(&mr)),
        7 => der = seq([int(&mr), int(&mt), int(&[1])].concat()),
        8 => der = seq([int(&[&[0], &mr[..]].concat()), int(&mt)].concat()),
        9 => der = seq([int(strip(&mr)), int(strip(&mt))].concat()),
        10 => {
            let n = s.below(12);
            der = s.bytes(n);
            if s.bool() && der.len() > 2 {
                der[0] = 0x30;
                der[2] = 2;
            }
        }
        _ => der = seq([int(&[]), int(&mt)].concat()),
    }
    cx.nontrivial(&der);
    cx.desc(|| hex(&der));
    match strict_der(&der) {
        Some(Some((r, t))) => {
            cx.class("still well formed");
            check_convert(&der, &r, &t)
        }
        Some(None) => Ok(()),
        None => {
            cx.class("malformed");
            ensure!(signature_convert_asn1_ecdsa_to_ssh(&der).is_none() && asn_der_to_r_s(&der).is_none(), "accepted-malformed", "{} accepted as {:?}", hex(&der), asn_der_to_r_s(&der));
            Ok(())
        }
    }
}
fn c22_wrap(s: &mut Src, cx: &mut Ctx) -> PResult {
    let k = key_any(s);
    let pk = lib_pub(&k)?;
    let n = s.len(300);
    let (sig, body, name) = match k.alg {
        Alg::Rsa => {
            let b = s.blob(n);
            (b.clone(), Some(b), "rsa-sha2-512")
        }
        Alg::Ed | Alg::SkEd => {
            let b = s.blob(n);
            (b.clone(), Some(b), k.alg.plain())
        }
        a => {
            let (r, t) = (magnitude(s), magnitude(s));
            let mut der = der_of(&r, &t);
            if s.chance(60) {
                mangle(s, &mut der);
            }
            let body = match strict_der(&der) {
                Some(Some((r, t))) => Some(W::new().mpint(&r).mpint(&t).0),
                Some(None) => return Ok(()),
                None => None,
            };
            (der, body, a.plain())
        }
    };
    cx.nontrivial(&(k.line(), &sig));
    cx.class(k.alg.plain());
    cx.desc(|| format!("{} {}", k.alg.plain(), hex(&sig)));
    let got = format_signature_for_ssh(&pk, &sig);
    let want = body.map(|b| W::new().str(name).bytes(&b).0);
    ensure!(got == want, "wrap", "{} {} wrapped as {:?} instead of {:?}", k.alg.plain(), hex(&sig), got.map(|x| hex(&x)), want.map(|x| hex(&x)));
    Ok(())
}

//! An emulated PC/SC service with emulated YubiKey PIV applets behind it. The functions at the
//! end replace those of libpcsclite in this binary, so that the code under test talks to the
//! emulation. Every thread has a bus of its own.
//!
//! Written from NIST SP 800-73-4 and Yubico's description of its PIV extensions.

use openssl::symm::{Cipher, Crypter, Mode};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::ffi::{c_char, c_long, c_ulong, c_void, CStr};
use vharness::crypto::*;
use vharness::der;
use vharness::engine::SplitMix;

pub const P256: u8 = 0x11;
pub const P384: u8 = 0x14;
pub const RSA1024: u8 = 0x06;
pub const RSA2048: u8 = 0x07;

#[derive(Clone, Debug)]
pub struct SlotKey {
    pub alg: u8,
    pub key: Key,
    pub pin_policy: u8,
    pub touch_policy: u8,
    /// Made on the device, so that it can be attested.
    pub generated: bool,
}
impl PartialEq for SlotKey {
    fn eq(&self, o: &SlotKey) -> bool {
        (self.alg, self.key.rsa, &self.key.secret, self.pin_policy, self.touch_policy, self.generated) == (o.alg, o.key.rsa, &o.key.secret, o.pin_policy, o.touch_policy, o.generated)
    }
}

/// What a token holds for good.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Store {
    pub keys: BTreeMap<u8, SlotKey>,
    pub objects: BTreeMap<u32, Vec<u8>>,
    pub attestations: BTreeMap<u8, Vec<u8>>,
}

#[derive(Clone)]
pub struct Token {
    pub reader: String,
    pub serial: u32,
    pub version: [u8; 3],
    pub present: bool,
    /// Counts insertions: handles of an earlier one are dead.
    pub insertion: u32,
    pub store: Store,
    pub pin: Vec<u8>,
    pub tries: u8,
    pub mgm: Vec<u8>,
    pub rng: SplitMix,
    // session state
    pub piv: bool,
    pub yk: bool,
    pub pin_ok: bool,
    /// A PIN was given since the last use of a private key.
    pub pin_fresh: bool,
    pub mgm_ok: bool,
    witness: Option<[u8; 8]>,
    chain: Vec<u8>,
    chain_of: [u8; 3],
    out: Vec<u8>,
    /// Uses of private keys: slot, algorithm, input.
    pub used: Vec<(u8, u8, Vec<u8>)>,
    pub commands: u64,
}

impl Token {
    pub fn new(n: usize, serial: u32, version: [u8; 3], seed: u64) -> Token {
        Token {
            reader: format!("Yubico YubiKey OTP+FIDO+CCID {n:02} 00"),
            serial,
            version,
            present: true,
            insertion: 0,
            store: Store::default(),
            pin: b"123456".to_vec(),
            tries: 3,
            mgm: (1..=8).cycle().take(24).collect(),
            rng: SplitMix(seed),
            piv: false,
            yk: false,
            pin_ok: false,
            pin_fresh: false,
            mgm_ok: false,
            witness: None,
            chain: vec![],
            chain_of: [0; 3],
            out: vec![],
            used: vec![],
            commands: 0,
        }
    }
    pub fn reset(&mut self) {
        self.piv = false;
        self.yk = false;
        self.forget();
    }
    fn forget(&mut self) {
        self.pin_ok = false;
        self.pin_fresh = false;
        self.mgm_ok = false;
        self.witness = None;
        self.chain.clear();
        self.out.clear();
    }
    pub fn effective_pin_policy(slot: u8, policy: u8) -> u8 {
        match (policy, slot) {
            (0, 0x9c) => 3,
            (0, 0x9e) => 1,
            (0, _) => 2,
            (p, _) => p,
        }
    }
    /// May the key in the slot be used now?
    pub fn usable(&self, slot: u8) -> bool {
        self.store.keys.get(&slot).is_some_and(|k| match Token::effective_pin_policy(slot, k.pin_policy) {
            1 => true,
            2 => self.pin_ok,
            _ => self.pin_ok && self.pin_fresh,
        })
    }
    fn des(&self, encrypt: bool, block: &[u8]) -> Vec<u8> {
        let mode = if encrypt { Mode::Encrypt } else { Mode::Decrypt };
        let mut c = Crypter::new(Cipher::des_ede3_ecb(), mode, &self.mgm, None).expect("3DES");
        c.pad(false);
        let mut o = vec![0; 16];
        let n = c.update(block, &mut o).expect("3DES");
        o.truncate(n);
        o
    }
    fn random8(&mut self) -> [u8; 8] {
        self.rng.next().to_be_bytes()
    }
    pub fn fresh_key(&mut self, alg: u8) -> Option<Key> {
        let mut raw = vec![];
        for _ in 0..6 {
            raw.extend_from_slice(&self.rng.next().to_be_bytes());
        }
        Some(match alg {
            P256 => Key::ec(Alg::P256, &raw[..32], ""),
            P384 => Key::ec(Alg::P384, &raw, ""),
            RSA2048 | RSA1024 => {
                let bits = if alg == RSA2048 { 2048 } else { 1024 };
                let fit: Vec<usize> = rsa_fix().iter().enumerate().filter(|(_, f)| f.bits == bits && f.e == [1, 0, 1]).map(|x| x.0).collect();
                Key::rsa(*fit.get(raw[0] as usize % fit.len().max(1))?)
            }
            _ => return None,
        })
    }
    fn command(&mut self, apdu: &[u8]) -> Vec<u8> {
        self.commands += 1;
        let sw = |x: u16| x.to_be_bytes().to_vec();
        if apdu.len() < 5 || apdu.len() < 5 + apdu[4] as usize {
            return sw(0x6700);
        }
        let (cla, ins, p1, p2) = (apdu[0], apdu[1], apdu[2], apdu[3]);
        let data = &apdu[5..5 + apdu[4] as usize];
        if ins == 0xc0 {
            return self.more();
        }
        self.out.clear();
        // Parts of another command are forgotten.
        if self.chain_of != [ins, p1, p2] {
            self.chain.clear();
            self.chain_of = [ins, p1, p2];
        }
        if cla == 0x10 {
            self.chain.extend_from_slice(data);
            return sw(0x9000);
        }
        let mut full = std::mem::take(&mut self.chain);
        full.extend_from_slice(data);
        match self.execute(ins, p1, p2, &full) {
            Ok(r) => {
                self.out = r;
                self.more()
            }
            Err(s) => sw(s),
        }
    }
    fn more(&mut self) -> Vec<u8> {
        let n = self.out.len().min(256);
        let rest = self.out.split_off(n);
        let mut r = std::mem::replace(&mut self.out, rest);
        let s = if self.out.is_empty() { 0x9000 } else { 0x6100 | self.out.len().min(255) as u16 };
        r.extend_from_slice(&s.to_be_bytes());
        r
    }
    fn execute(&mut self, ins: u8, p1: u8, p2: u8, data: &[u8]) -> Result<Vec<u8>, u16> {
        if ins == 0xa4 {
            self.forget();
            self.piv = data.starts_with(&[0xa0, 0, 0, 3, 8]);
            self.yk = data.starts_with(&[0xa0, 0, 0, 5, 0x27, 0x20, 1]);
            return if self.piv || self.yk { Ok(vec![0x61, 0]) } else { Err(0x6a82) };
        }
        if self.yk {
            return match (ins, p1) {
                (1, 0x10) => Ok(self.serial.to_be_bytes().to_vec()),
                _ => Err(0x6d00),
            };
        }
        if !self.piv {
            return Err(0x6d00);
        }
        match ins {
            0xfd => Ok(self.version.to_vec()),
            0xf8 if self.version[0] >= 5 => Ok(self.serial.to_be_bytes().to_vec()),
            0x20 => self.verify(data),
            0x87 if p2 == 0x9b => self.authenticate(p1, data),
            0x87 => self.sign(p1, p2, data),
            0x47 => self.generate(p2, data),
            0xcb => {
                let id = object(data).ok_or(0x6a80u16)?.0;
                let o = self.store.objects.get(&id).ok_or(0x6a82u16)?;
                Ok(der::tlv(0x53, o))
            }
            0xdb => {
                if !self.mgm_ok {
                    return Err(0x6982);
                }
                let (id, rest) = object(data).ok_or(0x6a80u16)?;
                let (tag, v, left) = tlv(rest).ok_or(0x6a80u16)?;
                if tag != 0x53 || !left.is_empty() {
                    return Err(0x6a80);
                }
                if v.is_empty() {
                    self.store.objects.remove(&id);
                } else {
                    self.store.objects.insert(id, v.to_vec());
                }
                Ok(vec![])
            }
            0xf9 => match self.store.keys.get(&p1) {
                Some(k) if k.generated => self.store.attestations.get(&p1).cloned().ok_or(0x6f00),
                _ => Err(0x6a80),
            },
            _ => Err(0x6d00),
        }
    }
    fn verify(&mut self, data: &[u8]) -> Result<Vec<u8>, u16> {
        if self.tries == 0 {
            return Err(0x6983);
        }
        if data.is_empty() {
            return if self.pin_ok { Ok(vec![]) } else { Err(0x63c0 | self.tries as u16) };
        }
        if data.len() != 8 {
            return Err(0x6a80);
        }
        let mut want = self.pin.clone();
        want.resize(8, 0xff);
        if data == want {
            self.tries = 3;
            self.pin_ok = true;
            self.pin_fresh = true;
            Ok(vec![])
        } else {
            self.tries -= 1;
            self.pin_ok = false;
            self.pin_fresh = false;
            Err(if self.tries == 0 { 0x6983 } else { 0x63c0 | self.tries as u16 })
        }
    }
    fn authenticate(&mut self, alg: u8, data: &[u8]) -> Result<Vec<u8>, u16> {
        if alg != 3 {
            return Err(0x6a80);
        }
        let (tag, v, _) = tlv(data).ok_or(0x6a80u16)?;
        if tag != 0x7c {
            return Err(0x6a80);
        }
        if v == [0x80, 0] {
            let w = self.random8();
            self.witness = Some(w);
            let e = self.des(true, &w);
            return Ok(der::tlv(0x7c, &der::tlv(0x80, &e)));
        }
        let (t1, resp, rest) = tlv(v).ok_or(0x6a80u16)?;
        let (t2, chal, _) = tlv(rest).ok_or(0x6a80u16)?;
        if t1 != 0x80 || t2 != 0x81 || chal.len() != 8 {
            return Err(0x6a80);
        }
        match self.witness.take() {
            Some(w) if w == resp => {
                self.mgm_ok = true;
                let e = self.des(true, chal);
                Ok(der::tlv(0x7c, &der::tlv(0x82, &e)))
            }
            _ => Err(0x6982),
        }
    }
    fn sign(&mut self, alg: u8, slot: u8, data: &[u8]) -> Result<Vec<u8>, u16> {
        let k = self.store.keys.get(&slot).cloned().ok_or(0x6a80u16)?;
        if k.alg != alg {
            return Err(0x6a80);
        }
        if !self.usable(slot) {
            return Err(0x6982);
        }
        let (tag, mut v, _) = tlv(data).ok_or(0x6a80u16)?;
        if tag != 0x7c {
            return Err(0x6a80);
        }
        let mut input = None;
        while !v.is_empty() {
            let (t, x, rest) = tlv(v).ok_or(0x6a80u16)?;
            if t == 0x81 {
                input = Some(x.to_vec());
            }
            v = rest;
        }
        let input = input.ok_or(0x6a80u16)?;
        let sig = match alg {
            P256 | P384 => {
                if input.len() > k.key.alg.field_len() {
                    return Err(0x6a80);
                }
                let p = k.key.pkey();
                openssl::ecdsa::EcdsaSig::sign(&input, &p.ec_key().expect("key")).and_then(|s| s.to_der()).expect("sign")
            }
            _ => {
                let r = k.key.fix().key.rsa().expect("key");
                let mut o = vec![0; r.size() as usize];
                if input.len() != o.len() {
                    return Err(0x6a80);
                }
                r.private_encrypt(&input, &mut o, openssl::rsa::Padding::NONE).map_err(|_| 0x6a80u16)?;
                o
            }
        };
        self.pin_fresh = false;
        self.used.push((slot, alg, input));
        Ok(der::tlv(0x7c, &der::tlv(0x82, &sig)))
    }
    fn generate(&mut self, slot: u8, data: &[u8]) -> Result<Vec<u8>, u16> {
        if !self.mgm_ok {
            return Err(0x6982);
        }
        if !(slot == 0xf9 || (0x82..=0x95).contains(&slot) || matches!(slot, 0x9a | 0x9c | 0x9d | 0x9e)) {
            return Err(0x6b00);
        }
        let (tag, mut v, _) = tlv(data).ok_or(0x6a80u16)?;
        if tag != 0xac {
            return Err(0x6a80);
        }
        let (mut alg, mut pin_policy, mut touch_policy) = (0, 0, 0);
        while !v.is_empty() {
            let (t, x, rest) = tlv(v).ok_or(0x6a80u16)?;
            if x.len() != 1 {
                return Err(0x6a80);
            }
            match t {
                0x80 => alg = x[0],
                0xaa => pin_policy = x[0],
                0xab => touch_policy = x[0],
                _ => return Err(0x6a80),
            }
            v = rest;
        }
        let key = self.fresh_key(alg).ok_or(0x6a80u16)?;
        let r = match alg {
            P256 | P384 => der::tlv(0x86, &key.public),
            _ => {
                let mut b = der::tlv(0x81, &key.fix().n);
                b.extend_from_slice(&der::tlv(0x82, &key.fix().e));
                b
            }
        };
        self.store.keys.insert(slot, SlotKey { alg, key, pin_policy, touch_policy, generated: true });
        let n = 40 + (self.rng.next() % 1500) as usize;
        let mut blob = vec![];
        while blob.len() < n {
            blob.extend_from_slice(&self.rng.next().to_be_bytes());
        }
        self.store.attestations.insert(slot, der::tlv(0x30, &blob));
        let mut o = vec![0x7f];
        o.extend_from_slice(&der::tlv(0x49, &r));
        Ok(o)
    }
}

/// Tag, value, rest.
pub fn tlv(b: &[u8]) -> Option<(u8, &[u8], &[u8])> {
    let t = *b.first()?;
    let (n, h) = match *b.get(1)? {
        0x81 => (*b.get(2)? as usize, 3),
        0x82 => (u16::from_be_bytes([*b.get(2)?, *b.get(3)?]) as usize, 4),
        x if x <= 0x80 => (x as usize, 2),
        _ => return None,
    };
    let v = b.get(h..h + n)?;
    Some((t, v, &b[h + n..]))
}
fn object(b: &[u8]) -> Option<(u32, &[u8])> {
    let (t, v, rest) = tlv(b)?;
    if t != 0x5c || v.is_empty() || v.len() > 3 {
        return None;
    }
    Some((v.iter().fold(0u32, |a, x| a << 8 | *x as u32), rest))
}
/// The certificate object of a slot (SP 800-73-4 table 3, Yubico for f9).
pub fn object_of(slot: u8) -> u32 {
    match slot {
        0x9a => 0x5fc105,
        0x9c => 0x5fc10a,
        0x9d => 0x5fc10b,
        0x9e => 0x5fc101,
        0xf9 => 0x5fff01,
        r => 0x5fc10d + (r - 0x82) as u32,
    }
}
/// A certificate as it is stored.
pub fn cert_object(der_cert: &[u8]) -> Vec<u8> {
    let mut v = der::tlv(0x70, der_cert);
    v.extend_from_slice(&[0x71, 1, 0, 0xfe, 0]);
    v
}
pub fn cert_of(object: &[u8]) -> Option<&[u8]> {
    match tlv(object)? {
        (0x70, v, _) => Some(v),
        _ => None,
    }
}

// ------------------------------------------------------------------ the bus

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    /// A PC/SC error.
    Error(u32),
    /// A status word instead of executing the command.
    Status(u16),
    /// The command is executed, but its answer is lost.
    Lost(u32),
    /// The token is pulled out.
    Unplug,
}

#[derive(Default)]
pub struct Bus {
    pub tokens: Vec<Token>,
    contexts: Vec<i64>,
    handles: BTreeMap<i64, (usize, u32)>,
    next: i64,
    pub calls: u64,
    /// At which call what happens.
    pub fault: Option<(u64, Fault)>,
    pub fault_hit: bool,
}
thread_local! {
    static BUS: RefCell<Bus> = RefCell::new(Bus::default());
}
pub fn bus<T>(f: impl FnOnce(&mut Bus) -> T) -> T {
    BUS.with(|b| f(&mut b.borrow_mut()))
}
impl Bus {
    pub fn clear(&mut self) {
        *self = Bus { next: self.next, ..Bus::default() };
    }
    fn due(&mut self) -> Option<Fault> {
        self.calls += 1;
        match self.fault {
            Some((n, f)) if n == self.calls => {
                self.fault_hit = true;
                Some(f)
            }
            _ => None,
        }
    }
    fn live(&self, h: i64) -> Result<usize, u32> {
        let (t, ins) = *self.handles.get(&h).ok_or(INVALID_HANDLE)?;
        let tok = &self.tokens[t];
        if !tok.present || tok.insertion != ins {
            return Err(REMOVED);
        }
        Ok(t)
    }
}

const INVALID_HANDLE: u32 = 0x8010_0003;
const INSUFFICIENT: u32 = 0x8010_0008;
const UNKNOWN_READER: u32 = 0x8010_0009;
const NO_CARD: u32 = 0x8010_000c;
const NO_READERS: u32 = 0x8010_002e;
const REMOVED: u32 = 0x8010_0069;

#[repr(C)]
pub struct Pci(c_ulong, c_ulong);
#[no_mangle]
pub static g_rgSCardT0Pci: Pci = Pci(1, 16);
#[no_mangle]
pub static g_rgSCardT1Pci: Pci = Pci(2, 16);
#[no_mangle]
pub static g_rgSCardRawPci: Pci = Pci(4, 16);

fn ret(r: Result<(), u32>) -> c_long {
    match r {
        Ok(()) => 0,
        Err(e) => e as c_long,
    }
}

#[no_mangle]
pub unsafe extern "C" fn SCardEstablishContext(_: c_ulong, _: *const c_void, _: *const c_void, out: *mut c_long) -> c_long {
    bus(|b| {
        if let Some(Fault::Error(e)) = b.due() {
            return e as c_long;
        }
        b.next += 1;
        b.contexts.push(b.next);
        unsafe { *out = b.next };
        0
    })
}
#[no_mangle]
pub extern "C" fn SCardReleaseContext(c: c_long) -> c_long {
    bus(|b| {
        b.contexts.retain(|x| *x != c);
        0
    })
}
#[no_mangle]
pub extern "C" fn SCardIsValidContext(c: c_long) -> c_long {
    bus(|b| ret(if b.contexts.contains(&c) { Ok(()) } else { Err(INVALID_HANDLE) }))
}
#[no_mangle]
pub extern "C" fn SCardCancel(_: c_long) -> c_long {
    0
}
#[no_mangle]
pub unsafe extern "C" fn SCardListReaders(_: c_long, _: *const c_char, buf: *mut c_char, len: *mut c_ulong) -> c_long {
    bus(|b| {
        if let Some(Fault::Error(e)) = b.due() {
            return e as c_long;
        }
        let mut v = vec![];
        for t in b.tokens.iter().filter(|t| t.present) {
            v.extend_from_slice(t.reader.as_bytes());
            v.push(0);
        }
        if v.is_empty() {
            return NO_READERS as c_long;
        }
        v.push(0);
        unsafe {
            let room = *len as usize;
            *len = v.len() as c_ulong;
            if !buf.is_null() {
                if room < v.len() {
                    return INSUFFICIENT as c_long;
                }
                std::ptr::copy_nonoverlapping(v.as_ptr(), buf as *mut u8, v.len());
            }
        }
        0
    })
}
#[no_mangle]
pub unsafe extern "C" fn SCardConnect(_: c_long, reader: *const c_char, _: c_ulong, _: c_ulong, out: *mut c_long, proto: *mut c_ulong) -> c_long {
    let name = unsafe { CStr::from_ptr(reader) }.to_string_lossy().into_owned();
    bus(|b| {
        if let Some(Fault::Error(e)) = b.due() {
            return e as c_long;
        }
        let Some(i) = b.tokens.iter().position(|t| t.reader == name) else { return UNKNOWN_READER as c_long };
        if !b.tokens[i].present {
            return NO_CARD as c_long;
        }
        b.next += 1;
        let (h, ins) = (b.next, b.tokens[i].insertion);
        b.handles.insert(h, (i, ins));
        unsafe {
            *out = h;
            *proto = 2;
        }
        0
    })
}
#[no_mangle]
pub unsafe extern "C" fn SCardReconnect(h: c_long, _: c_ulong, _: c_ulong, init: c_ulong, proto: *mut c_ulong) -> c_long {
    bus(|b| {
        if let Some(Fault::Error(e)) = b.due() {
            return e as c_long;
        }
        match b.live(h) {
            Ok(t) => {
                if init != 0 {
                    b.tokens[t].reset();
                }
                unsafe { *proto = 2 };
                0
            }
            Err(e) => e as c_long,
        }
    })
}
#[no_mangle]
pub extern "C" fn SCardDisconnect(h: c_long, disposition: c_ulong) -> c_long {
    bus(|b| {
        let r = b.live(h);
        b.handles.remove(&h);
        if let (Ok(t), true) = (r, disposition != 0) {
            b.tokens[t].reset();
        }
        ret(r.map(|_| ()))
    })
}
#[no_mangle]
pub extern "C" fn SCardGetStatusChange(_: c_long, _: c_ulong, _: *mut c_void, _: c_ulong) -> c_long {
    0x8010_000au32 as c_long
}
#[no_mangle]
pub extern "C" fn SCardBeginTransaction(h: c_long) -> c_long {
    bus(|b| {
        if let Some(Fault::Error(e)) = b.due() {
            return e as c_long;
        }
        ret(b.live(h).map(|_| ()))
    })
}
#[no_mangle]
pub extern "C" fn SCardEndTransaction(h: c_long, _: c_ulong) -> c_long {
    bus(|b| ret(b.live(h).map(|_| ())))
}
#[no_mangle]
pub extern "C" fn SCardStatus(_: c_long, _: *mut c_char, _: *mut c_ulong, _: *mut c_ulong, _: *mut c_ulong, _: *mut u8, _: *mut c_ulong) -> c_long {
    0x8010_0001u32 as c_long
}
#[no_mangle]
pub extern "C" fn SCardGetAttrib(_: c_long, _: c_ulong, _: *mut u8, _: *mut c_ulong) -> c_long {
    0x8010_0001u32 as c_long
}
#[no_mangle]
pub extern "C" fn SCardSetAttrib(_: c_long, _: c_ulong, _: *const u8, _: c_ulong) -> c_long {
    0x8010_0001u32 as c_long
}
#[no_mangle]
pub extern "C" fn SCardControl(_: c_long, _: c_ulong, _: *const c_void, _: c_ulong, _: *mut c_void, _: c_ulong, _: *mut c_ulong) -> c_long {
    0x8010_0001u32 as c_long
}
#[no_mangle]
pub unsafe extern "C" fn SCardTransmit(h: c_long, _: *const c_void, send: *const u8, send_len: c_ulong, _: *mut c_void, recv: *mut u8, recv_len: *mut c_ulong) -> c_long {
    let apdu = unsafe { std::slice::from_raw_parts(send, send_len as usize) };
    bus(|b| {
        let due = b.due();
        let t = match b.live(h) {
            Ok(t) => t,
            Err(e) => return e as c_long,
        };
        let r = match due {
            Some(Fault::Error(e)) => return e as c_long,
            Some(Fault::Unplug) => {
                b.tokens[t].present = false;
                b.tokens[t].reset();
                return REMOVED as c_long;
            }
            Some(Fault::Status(s)) => s.to_be_bytes().to_vec(),
            Some(Fault::Lost(e)) => {
                b.tokens[t].command(apdu);
                return e as c_long;
            }
            None => b.tokens[t].command(apdu),
        };
        unsafe {
            if (*recv_len as usize) < r.len() {
                *recv_len = r.len() as c_ulong;
                return INSUFFICIENT as c_long;
            }
            std::ptr::copy_nonoverlapping(r.as_ptr(), recv, r.len());
            *recv_len = r.len() as c_ulong;
        }
        0
    })
}

/// Keeps the functions above in the binary, whatever the linker's order.
pub fn link() -> usize {
    let f: [*const (); 8] = [
        SCardEstablishContext as *const (),
        SCardListReaders as *const (),
        SCardConnect as *const (),
        SCardReconnect as *const (),
        SCardDisconnect as *const (),
        SCardBeginTransaction as *const (),
        SCardEndTransaction as *const (),
        SCardTransmit as *const (),
    ];
    f.iter().map(|x| *x as usize & 1).sum()
}

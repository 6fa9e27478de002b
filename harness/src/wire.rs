//! Reference implementation of the SSH wire encoding (RFC 4251 section 5),
//! written from the specification and sharing nothing with the code under test.

#[derive(Default, Clone)]
pub struct W(pub Vec<u8>);
impl W {
    pub fn new() -> W {
        W(vec![])
    }
    pub fn raw(mut self, b: &[u8]) -> W {
        self.0.extend_from_slice(b);
        self
    }
    pub fn u8(self, v: u8) -> W {
        self.raw(&[v])
    }
    pub fn u32(self, v: u32) -> W {
        self.raw(&v.to_be_bytes())
    }
    pub fn u64(self, v: u64) -> W {
        self.raw(&v.to_be_bytes())
    }
    pub fn bytes(self, b: &[u8]) -> W {
        self.u32(b.len() as u32).raw(b)
    }
    pub fn str(self, s: &str) -> W {
        self.bytes(s.as_bytes())
    }
    /// Non-negative integer from big-endian magnitude bytes.
    pub fn mpint(self, b: &[u8]) -> W {
        self.bytes(&mpint(b))
    }
}

/// The body of an mpint for a big-endian magnitude.
pub fn mpint(b: &[u8]) -> Vec<u8> {
    let b = strip(b);
    let mut v = Vec::with_capacity(b.len() + 1);
    if let Some(x) = b.first() {
        if x & 0x80 != 0 {
            v.push(0);
        }
    }
    v.extend_from_slice(b);
    v
}
pub fn strip(b: &[u8]) -> &[u8] {
    let n = b.iter().take_while(|x| **x == 0).count();
    &b[n..]
}
pub fn pad_left(b: &[u8], n: usize) -> Vec<u8> {
    let b = strip(b);
    let mut v = vec![0u8; n.saturating_sub(b.len())];
    v.extend_from_slice(b);
    v
}

/// Reference reader.
pub struct R<'a> {
    pub b: &'a [u8],
    pub p: usize,
}
impl<'a> R<'a> {
    pub fn new(b: &'a [u8]) -> R<'a> {
        R { b, p: 0 }
    }
    pub fn left(&self) -> usize {
        self.b.len() - self.p
    }
    pub fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if n > self.left() {
            return None;
        }
        self.p += n;
        Some(&self.b[self.p - n..self.p])
    }
    pub fn u8(&mut self) -> Option<u8> {
        self.take(1).map(|x| x[0])
    }
    pub fn u32(&mut self) -> Option<u32> {
        self.take(4).map(|x| u32::from_be_bytes([x[0], x[1], x[2], x[3]]))
    }
    pub fn u64(&mut self) -> Option<u64> {
        let a = self.u32()? as u64;
        let b = self.u32()? as u64;
        Some(a << 32 | b)
    }
    pub fn bytes(&mut self) -> Option<&'a [u8]> {
        let n = self.u32()? as usize;
        self.take(n)
    }
    pub fn str(&mut self) -> Option<&'a str> {
        std::str::from_utf8(self.bytes()?).ok()
    }
    /// Canonical non-negative mpint; returns the magnitude.
    pub fn mpint(&mut self) -> Option<&'a [u8]> {
        let b = self.bytes()?;
        match b {
            [] => Some(b),
            [0] => None,
            [0, x, ..] if *x < 0x80 => None,
            [0, ..] => Some(&b[1..]),
            [x, ..] if *x >= 0x80 => None,
            _ => Some(b),
        }
    }
}

const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
/// RFC 4648 base64 with padding.
pub fn b64(data: &[u8]) -> String {
    let mut s = String::with_capacity(data.len() * 4 / 3 + 4);
    for c in data.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                s.push(B64[(v >> (18 - 6 * i)) as usize & 63] as char);
            } else {
                s.push('=');
            }
        }
    }
    s
}
pub fn unb64(s: &str) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    if b.len() % 4 != 0 {
        return None;
    }
    let mut out = vec![];
    for (ci, c) in b.chunks(4).enumerate() {
        let last = (ci + 1) * 4 == b.len();
        let pad = c.iter().rev().take_while(|x| **x == b'=').count();
        if pad > 2 || (pad > 0 && !last) {
            return None;
        }
        let mut v = 0u32;
        for x in &c[..4 - pad] {
            v = v << 6 | B64.iter().position(|y| y == x)? as u32;
        }
        v <<= 6 * pad as u32;
        let by = [(v >> 16) as u8, (v >> 8) as u8, v as u8];
        out.extend_from_slice(&by[..3 - pad]);
    }
    Some(out)
}

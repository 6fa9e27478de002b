//! A small property-testing engine with internal shrinking.
//!
//! Every case is a *tape* of bytes. Generators draw from the tape, so the same
//! property function runs from a seeded random tape, from a shrunk tape, from a
//! replay file or from a coverage-guided fuzzer's input. Shrinking works on the
//! tape (delete / zero / lower bytes), so it needs no per-type shrinkers and can
//! never produce a value that the generator could not have produced.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- random

#[derive(Clone)]
pub struct SplitMix(pub u64);
impl SplitMix {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

pub fn fnv(data: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in data {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

// ---------------------------------------------------------------- tape

pub struct Src {
    tape: Vec<u8>,
    pos: usize,
    rng: Option<SplitMix>,
    buf: u64,
    left: u32,
    /// Index of the case in its facet (used by enumerating facets).
    pub index: u64,
    /// Words and texts drawn so far, to be drawn again elsewhere in the case.
    pub words: Vec<String>,
    /// Numbers already drawn in this case.
    pub nums: Vec<u64>,
    pub texts: Vec<String>,
}

impl Src {
    pub fn random(seed: u64, index: u64) -> Src {
        Src { tape: vec![], pos: 0, rng: Some(SplitMix(seed)), buf: 0, left: 0, index, words: vec![], nums: vec![], texts: vec![] }
    }
    pub fn replay(tape: &[u8], index: u64) -> Src {
        Src { tape: tape.to_vec(), pos: 0, rng: None, buf: 0, left: 0, index, words: vec![], nums: vec![], texts: vec![] }
    }
    pub fn consumed(&self) -> &[u8] {
        &self.tape[..self.pos.min(self.tape.len())]
    }
    /// How many tape bytes are still there (fuzzing and replay only).
    pub fn remaining(&self) -> usize {
        self.tape.len().saturating_sub(self.pos)
    }
    pub fn byte(&mut self) -> u8 {
        if self.pos < self.tape.len() {
            self.pos += 1;
            return self.tape[self.pos - 1];
        }
        match &mut self.rng {
            Some(r) => {
                if self.left == 0 {
                    self.buf = r.next();
                    self.left = 8;
                }
                let b = self.buf as u8;
                self.buf >>= 8;
                self.left -= 1;
                self.tape.push(b);
                self.pos += 1;
                b
            }
            // An exhausted tape reads as zeros, and every generator maps zero to its simplest value.
            None => {
                self.pos += 1;
                0
            }
        }
    }
    pub fn u16(&mut self) -> u16 {
        u16::from_be_bytes([self.byte(), self.byte()])
    }
    pub fn u32(&mut self) -> u32 {
        u32::from_be_bytes([self.byte(), self.byte(), self.byte(), self.byte()])
    }
    pub fn u64(&mut self) -> u64 {
        ((self.u32() as u64) << 32) | self.u32() as u64
    }
    /// Uniform-ish in 0..n; 0 is the simplest.
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0);
        if n == 1 {
            0
        } else if n <= 256 {
            self.byte() as usize % n
        } else if n <= 65536 {
            self.u16() as usize % n
        } else {
            self.u32() as usize % n
        }
    }
    pub fn range(&mut self, lo: usize, hi_incl: usize) -> usize {
        lo + self.below(hi_incl - lo + 1)
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    /// True with probability num/256; a zero byte gives false.
    pub fn chance(&mut self, num: u16) -> bool {
        (255 - self.byte() as u16) < num
    }
    pub fn bool(&mut self) -> bool {
        self.byte() & 1 == 1
    }
    /// Choose an index by weight.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut v = self.below(total as usize) as u32;
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= *x;
        }
        0
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.byte()).collect()
    }
    pub fn arr<const N: usize>(&mut self) -> [u8; N] {
        let mut a = [0u8; N];
        for x in a.iter_mut() {
            *x = self.byte();
        }
        a
    }
    /// Pseudo random bytes of any length for 8 tape bytes.
    pub fn blob(&mut self, n: usize) -> Vec<u8> {
        let mut r = SplitMix(self.u64());
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&r.next().to_le_bytes());
        }
        v.truncate(n);
        // A byte that the source names, at an end or somewhere.
        if n > 0 {
            if let Some(b) = crate::gen::known_number(self, 3, 255) {
                let at = match self.below(3) {
                    0 => 0,
                    1 => n - 1,
                    _ => self.below(n),
                };
                v[at] = b as u8;
            }
        }
        v
    }
    /// Length biased to small values with a tail up to max.
    pub fn len(&mut self, max: usize) -> usize {
        if let Some(n) = crate::gen::known_number(self, 3, max as u64) {
            return n as usize;
        }
        let m = match self.weighted(&[6, 3, 1]) {
            0 => max.min(4),
            1 => max.min(32),
            _ => max,
        };
        self.below(m + 1)
    }
}

// ---------------------------------------------------------------- results

#[derive(Debug, Clone)]
pub struct Fail {
    pub kind: String,
    pub msg: String,
}
pub type PResult = Result<(), Fail>;

pub fn fail<T>(kind: &str, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { kind: kind.to_string(), msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $kind:expr, $($arg:tt)+) => {
        if !($c) { return $crate::engine::fail($kind, format!($($arg)+)); }
    };
}

/// Per-case context filled in by the property function.
#[derive(Default)]
pub struct Ctx {
    pub nontrivial: Option<u64>,
    pub classes: Vec<&'static str>,
    pub desc: Option<String>,
    pub want_desc: bool,
    pub thorough: bool,
}
impl Ctx {
    /// Mark the case as non-trivial; `key` is what makes it distinct.
    pub fn nontrivial<H: Hash + ?Sized>(&mut self, key: &H) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        key.hash(&mut h);
        self.nontrivial = Some(h.finish());
    }
    pub fn class(&mut self, c: &'static str) {
        self.classes.push(c);
    }
    pub fn desc(&mut self, f: impl FnOnce() -> String) {
        if self.want_desc {
            let mut s = f();
            if s.len() > 700 {
                let mut n = 700;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s.push_str("...");
            }
            self.desc = Some(s);
        }
    }
}

pub type FacetFn = fn(&mut Src, &mut Ctx) -> PResult;

pub struct Facet {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub threads: usize,
    pub f: FacetFn,
}
pub fn facet(name: &'static str, quick: u64, thorough: u64, f: FacetFn) -> Facet {
    Facet { name, quick, thorough, threads: 0, f }
}
/// A facet whose cases must not run concurrently with one another.
pub fn facet_serial(name: &'static str, quick: u64, thorough: u64, f: FacetFn) -> Facet {
    Facet { name, quick, thorough, threads: 1, f }
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub facets: Vec<Facet>,
}

// ---------------------------------------------------------------- panics

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{m} at {loc}"));
    }));
}

/// Run something that must not panic; a panic becomes Err(description).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    panic::catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

// ---------------------------------------------------------------- crashes

/// What each thread is running, for the handler below.
struct Now {
    id: &'static str,
    facet: &'static str,
    seed: u64,
    index: u64,
}
thread_local! {
    static NOW: std::cell::Cell<Option<&'static Now>> = const { std::cell::Cell::new(None) };
}
/// Set while a recorded case is run again: a crash then is the reproduction.
pub static REPLAYING: AtomicBool = AtomicBool::new(false);
static CRASHED: AtomicBool = AtomicBool::new(false);
static mut REPLAY_DIR: [u8; 512] = [0; 512];

struct Buf {
    b: [u8; 1024],
    n: usize,
}
impl std::fmt::Write for Buf {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for x in s.bytes() {
            if self.n < self.b.len() {
                self.b[self.n] = x;
                self.n += 1;
            }
        }
        Ok(())
    }
}

/// A case that kills the process (stack overflow, abort on a failed allocation,
/// invalid memory access) is a violation like a panic: report it and end.
extern "C" fn on_crash(sig: libc::c_int) {
    use std::fmt::Write;
    if CRASHED.swap(true, Ordering::SeqCst) {
        unsafe { libc::pause() };
    }
    let now = NOW.try_with(|n| n.get()).ok().flatten();
    unsafe {
        if REPLAYING.load(Ordering::SeqCst) {
            let m = b"reproduced: the case ends the process\n";
            libc::write(1, m.as_ptr() as *const _, m.len());
            libc::_exit(1);
        }
        let Some(now) = now else {
            let m = b"HARNESS ERROR: crash outside a case\n";
            libc::write(2, m.as_ptr() as *const _, m.len());
            libc::_exit(3);
        };
        #[allow(static_mut_refs)]
        let dir = std::ffi::CStr::from_ptr(REPLAY_DIR.as_ptr() as *const _).to_str().unwrap_or("/verif/replays");
        let mut path = Buf { b: [0; 1024], n: 0 };
        let _ = write!(path, "{dir}/{}-{}-crash-{}-{}.replay", now.id, now.facet, now.seed, now.index);
        let p = std::str::from_utf8_unchecked(&path.b[..path.n]);
        let mut body = Buf { b: [0; 1024], n: 0 };
        let _ = write!(body, "property: {}\nfacet: {}\nindex: {}\nseed: {}\nkind: crash\nmessage: signal {sig} (stack overflow, abort or invalid access)\n", now.id, now.facet, now.index, now.seed);
        let mut cpath = [0u8; 1025];
        cpath[..path.n].copy_from_slice(&path.b[..path.n]);
        let fd = libc::open(cpath.as_ptr() as *const _, libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC, 0o644);
        if fd >= 0 {
            libc::write(fd, body.b.as_ptr() as *const _, body.n);
            libc::close(fd);
        }
        let mut out = Buf { b: [0; 1024], n: 0 };
        let _ = write!(out, "{} {}: case {} ended the process with signal {sig}\nVIOLATION property={} replay={p}\n", now.id, now.facet, now.index, now.id);
        libc::write(1, out.b.as_ptr() as *const _, out.n);
        libc::_exit(1);
    }
}
pub fn install_crash_handler(root: &str) {
    let dir = format!("{root}/replays");
    let _ = std::fs::create_dir_all(&dir);
    unsafe {
        #[allow(static_mut_refs)]
        REPLAY_DIR[..dir.len().min(500)].copy_from_slice(&dir.as_bytes()[..dir.len().min(500)]);
        for sig in [libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGILL, libc::SIGFPE] {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_crash as extern "C" fn(libc::c_int) as usize;
            sa.sa_flags = libc::SA_ONSTACK | libc::SA_NODEFER;
            libc::sigaction(sig, &sa, std::ptr::null_mut());
        }
    }
}

pub fn run_case(f: FacetFn, src: &mut Src, ctx: &mut Ctx) -> PResult {
    match panic::catch_unwind(AssertUnwindSafe(|| f(src, ctx))) {
        Ok(r) => r,
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow().clone());
            // An assumption of a property about what the library returns does not hold.
            if m.contains(" at src/props/") || m.contains("/harness/src/props/") {
                return fail("unexpected", format!("the library's answer breaks an assumption of the check: {m}"));
            }
            // Other panics inside the harness are errors of the check, not of the code under test.
            if m.contains(" at src/") || m.contains("/verif/harness/") || m.contains("/openssl-") {
                eprintln!("HARNESS ERROR: {m} tape={}", hex(src.consumed()));
                give_up();
                return Ok(());
            }
            fail("panic", format!("the code under test panicked: {m}"))
        }
    }
}

/// Set once a case has failed: from then on there is a violation to report.
static FAILED: AtomicBool = AtomicBool::new(false);
/// The check itself cannot go on. Caught by the runner.
pub fn cannot<T>(e: String) -> T {
    panic!("{e}")
}
/// An error of the check itself ends it, unless a violation was already found, which counts then.
pub fn give_up() {
    if !FAILED.load(Ordering::SeqCst) {
        std::process::exit(3);
    }
}

// ---------------------------------------------------------------- shrinking

fn still_fails(f: FacetFn, tape: &[u8], index: u64, kind: &str) -> Option<(Vec<u8>, Fail)> {
    let mut src = Src::replay(tape, index);
    let mut ctx = Ctx::default();
    match run_case(f, &mut src, &mut ctx) {
        Err(e) if e.kind == kind => {
            let mut used = src.consumed().to_vec();
            while used.last() == Some(&0) {
                used.pop();
            }
            Some((used, e))
        }
        _ => None,
    }
}

pub fn shrink(f: FacetFn, tape: &[u8], index: u64, first: Fail) -> (Vec<u8>, Fail, usize) {
    let kind = first.kind.clone();
    let mut best = tape.to_vec();
    let mut bf = first;
    let start = Instant::now();
    let mut runs = 0usize;
    let attempt = |cand: &[u8], best: &mut Vec<u8>, bf: &mut Fail, runs: &mut usize| -> bool {
        if *runs > 6000 || start.elapsed() > Duration::from_secs(20) {
            return false;
        }
        *runs += 1;
        if let Some((t, e)) = still_fails(f, cand, index, &kind) {
            if (t.len(), &t) < (best.len(), best) {
                *best = t;
                *bf = e;
                return true;
            }
        }
        false
    };
    let b0 = best.clone();
    attempt(&b0, &mut best, &mut bf, &mut runs);
    loop {
        let before = best.clone();
        // delete chunks
        for size in [256usize, 64, 32, 16, 8, 4, 2, 1] {
            let mut i = best.len();
            while i > 0 {
                let lo = i.saturating_sub(size);
                if lo < best.len() {
                    let mut c = best.clone();
                    c.drain(lo..i.min(best.len()));
                    attempt(&c, &mut best, &mut bf, &mut runs);
                }
                i = lo;
            }
        }
        // zero chunks
        for size in [64usize, 16, 8, 4, 2, 1] {
            let mut i = 0;
            while i < best.len() {
                let hi = (i + size).min(best.len());
                if best[i..hi].iter().any(|b| *b != 0) {
                    let mut c = best.clone();
                    c[i..hi].fill(0);
                    attempt(&c, &mut best, &mut bf, &mut runs);
                }
                i += size;
            }
        }
        // lower single bytes
        let mut i = 0;
        while i < best.len() {
            let mut lo = 0u8;
            while i < best.len() && lo < best[i] {
                let mid = lo + (best[i] - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if !attempt(&c, &mut best, &mut bf, &mut runs) {
                    lo = mid + 1;
                }
            }
            i += 1;
        }
        if best == before || runs > 6000 || start.elapsed() > Duration::from_secs(20) {
            break;
        }
    }
    (best, bf, runs)
}

// ---------------------------------------------------------------- running

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    let s: Vec<u8> = s.bytes().filter(|b| b.is_ascii_hexdigit()).collect();
    s.chunks(2)
        .filter(|c| c.len() == 2)
        .map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap())
        .collect()
}
pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f || (0xfff0..=0xffff).contains(&(c as u32)) => {
                o.push_str(&format!("\\u{:04x}", c as u32))
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Outcome {
    pub violations: u64,
    pub lines: Vec<String>,
}

pub fn case_seed(seed: u64, id: &str, facet: &str, index: u64) -> u64 {
    let mut r = SplitMix(seed ^ fnv(id.as_bytes()).rotate_left(17) ^ fnv(facet.as_bytes()) ^ index.wrapping_mul(0xD6E8FEB86659FD93));
    r.next();
    r.next()
}

struct Known {
    property: String,
    key: String,
    text: String,
}
fn load_known(path: &str) -> Vec<Known> {
    // Lines: `finding: property=<id> key=<facet/kind> <text>`; everything else is ignored.
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(path) {
        for l in s.lines() {
            if let Some(rest) = l.strip_prefix("finding: ") {
                let mut p = String::new();
                let mut k = String::new();
                let mut t = vec![];
                for w in rest.split(' ') {
                    if let Some(x) = w.strip_prefix("property=") {
                        p = x.to_string();
                    } else if let Some(x) = w.strip_prefix("key=") {
                        k = x.to_string();
                    } else {
                        t.push(w);
                    }
                }
                v.push(Known { property: p, key: k, text: t.join(" ") });
            }
        }
    }
    v
}

pub struct RunCfg {
    pub root: String,
    pub tier: String,
    pub seed: u64,
    pub scale: f64,
    pub max_s: u64,
    pub only_facet: Option<String>,
}

pub fn run_property(p: &Property, cfg: &RunCfg) -> i32 {
    let t0 = Instant::now();
    let thorough = cfg.tier == "thorough";
    let known = load_known(&format!("{}/known-findings.txt", cfg.root));
    let ncpu = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
    let mut evaluations = 0u64;
    let distinct: Mutex<HashSet<(usize, u64)>> = Mutex::new(HashSet::new());
    let classes: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
    let samples: Mutex<Vec<String>> = Mutex::new(vec![]);
    let mut facet_lines = vec![];
    let mut violations: Vec<(String, String, String)> = vec![];
    let known_hit: Mutex<BTreeMap<usize, u64>> = Mutex::new(BTreeMap::new());
    let mut truncated = vec![];

    for (fi, fc) in p.facets.iter().enumerate() {
        if let Some(o) = &cfg.only_facet {
            if o != fc.name {
                continue;
            }
        }
        let n = {
            let base = if thorough { fc.thorough } else { fc.quick };
            if cfg.scale == 1.0 { base } else { ((base as f64) * cfg.scale).ceil() as u64 }
        };
        let threads = if fc.threads == 0 { ncpu } else { fc.threads };
        let next = AtomicU64::new(0);
        let stop = AtomicU64::new(u64::MAX);
        let done = AtomicU64::new(0);
        let finished = AtomicUsize::new(0);
        let timed_out = AtomicBool::new(false);
        let first: Mutex<Option<(u64, Vec<u8>, Fail)>> = Mutex::new(None);
        let nontriv = AtomicU64::new(0);
        let cur: Vec<(AtomicU64, AtomicU64)> = (0..threads).map(|_| (AtomicU64::new(u64::MAX), AtomicU64::new(0))).collect();
        let f0 = Instant::now();
        std::thread::scope(|s| {
            for ti in 0..threads {
                let (next, stop, done, first, distinct, classes, samples, known, known_hit, finished, cur, timed_out, nontriv) =
                    (&next, &stop, &done, &first, &distinct, &classes, &samples, &known, &known_hit, &finished, &cur, &timed_out, &nontriv);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || {
                        let mut local_classes: BTreeMap<&'static str, u64> = BTreeMap::new();
                        let mut local_distinct: HashSet<u64> = HashSet::new();
                        loop {
                            let i = next.fetch_add(1, Ordering::SeqCst);
                            if i >= n || i > stop.load(Ordering::SeqCst) {
                                break;
                            }
                            if t0.elapsed().as_secs() > cfg.max_s {
                                timed_out.store(true, Ordering::SeqCst);
                                break;
                            }
                            let mut src = Src::random(case_seed(cfg.seed, p.id, fc.name, i), i);
                            let now = Now { id: p.id, facet: fc.name, seed: cfg.seed, index: i };
                            // Cleared before `now` goes out of scope.
                            NOW.with(|n| n.set(Some(unsafe { std::mem::transmute::<&Now, &'static Now>(&now) })));
                            let want = i < 2 || (i % (n / 4).max(1) == 0);
                            let mut ctx = Ctx { want_desc: want, thorough, ..Ctx::default() };
                            cur[ti].1.store(t0.elapsed().as_millis() as u64, Ordering::SeqCst);
                            cur[ti].0.store(i, Ordering::SeqCst);
                            let r = run_case(fc.f, &mut src, &mut ctx);
                            NOW.with(|n| n.set(None));
                            cur[ti].0.store(u64::MAX, Ordering::SeqCst);
                            done.fetch_add(1, Ordering::Relaxed);
                            for c in &ctx.classes {
                                *local_classes.entry(c).or_default() += 1;
                            }
                            if let Some(h) = ctx.nontrivial {
                                nontriv.fetch_add(1, Ordering::Relaxed);
                                local_distinct.insert(h);
                            }
                            if let Some(d) = ctx.desc {
                                let mut sm = samples.lock().unwrap();
                                let mine = sm.iter().filter(|x| x.starts_with(&format!("{}: ", fc.name))).count();
                                if mine < 3 {
                                    sm.push(format!("{}: {}", fc.name, d));
                                }
                            }
                            if let Err(e) = r {
                                let key = format!("{}/{}", fc.name, e.kind);
                                if let Some((ki, _)) = known.iter().enumerate().find(|(_, k)| k.property == p.id && k.key == key) {
                                    *known_hit.lock().unwrap().entry(ki).or_default() += 1;
                                    continue;
                                }
                                FAILED.store(true, Ordering::SeqCst);
                                let mut g = first.lock().unwrap();
                                if g.as_ref().map(|x| x.0 > i).unwrap_or(true) {
                                    *g = Some((i, src.consumed().to_vec(), e));
                                    stop.store(i, Ordering::SeqCst);
                                }
                            }
                        }
                        let mut g = classes.lock().unwrap();
                        for (c, k) in local_classes {
                            *g.entry(format!("{}/{}", fc.name, c)).or_default() += k;
                        }
                        drop(g);
                        distinct.lock().unwrap().extend(local_distinct.into_iter().map(|h| (fi, h)));
                        finished.fetch_add(1, Ordering::SeqCst);
                    })
                    .expect("spawn");
            }
            // Watchdog: a case that runs for over two minutes does not terminate in practice
            // (the slowest take well under a second).
            let (finished, cur) = (&finished, &cur);
            s.spawn(move || {
                while finished.load(Ordering::SeqCst) < threads {
                    std::thread::sleep(Duration::from_millis(20));
                    let now = t0.elapsed().as_millis() as u64;
                    for (i, at) in cur.iter() {
                        let idx = i.load(Ordering::SeqCst);
                        if idx != u64::MAX && now.saturating_sub(at.load(Ordering::SeqCst)) > 120_000 && i.load(Ordering::SeqCst) == idx {
                            let path = write_replay(cfg, p.id, fc.name, None, Some((cfg.seed, idx)), idx, &Fail { kind: "hang".into(), msg: "case did not finish within 120 s".into() });
                            println!("{} {}: case {} did not finish within 120 s", p.id, fc.name, idx);
                            println!("VIOLATION property={} replay={}", p.id, path);
                            write_evidence(p, cfg, t0, done_now(cur, idx), 1, &[], &BTreeMap::new(), &[format!("{}: hang at case {}", fc.name, idx)], &[], 1, &[]);
                            std::process::exit(1);
                        }
                    }
                }
            });
        });
        let d = done.load(Ordering::Relaxed);
        evaluations += d;
        if timed_out.load(Ordering::SeqCst) {
            truncated.push(fc.name.to_string());
        }
        facet_lines.push((fc.name.to_string(), d, nontriv.load(Ordering::Relaxed), f0.elapsed().as_secs_f64()));
        let got = first.lock().unwrap().take();
        if let Some((i, tape, e)) = got {
            println!("{} {}: case {} failed: [{}] {}", p.id, fc.name, i, e.kind, e.msg);
            // A candidate of the shrinker may hang or crash; the case as found counts then.
            let path = write_replay(cfg, p.id, fc.name, Some(&tape), None, i, &e);
            let over = std::sync::Arc::new(AtomicBool::new(false));
            let (o2, id) = (over.clone(), p.id);
            std::thread::spawn(move || {
                std::thread::sleep(Duration::from_secs(60));
                if !o2.load(Ordering::SeqCst) {
                    println!("VIOLATION property={id} replay={path}");
                    std::process::exit(1);
                }
            });
            let now = Now { id: p.id, facet: fc.name, seed: cfg.seed, index: i };
            NOW.with(|n| n.set(Some(unsafe { std::mem::transmute::<&Now, &'static Now>(&now) })));
            let (small, se, runs) = shrink(fc.f, &tape, i, e.clone());
            // Keep the shrunk tape only if it reproduces.
            let reproduces = (0..5).any(|_| still_fails(fc.f, &small, i, &e.kind).is_some());
            NOW.with(|n| n.set(None));
            over.store(true, Ordering::SeqCst);
            let unshrunk = write_replay(cfg, p.id, fc.name, Some(&tape), None, i, &e);
            let (tape, e) = if reproduces {
                let _ = std::fs::remove_file(unshrunk);
                (small, se)
            } else {
                (tape, e)
            };
            println!("{} {}: shrunk to {} tape bytes in {} runs: [{}] {}", p.id, fc.name, tape.len(), runs, e.kind, e.msg);
            let path = write_replay(cfg, p.id, fc.name, Some(&tape), None, i, &e);
            println!("VIOLATION property={} replay={}", p.id, path);
            violations.push((fc.name.into(), e.kind, path));
        }
    }
    for (ki, cnt) in known_hit.lock().unwrap().iter() {
        let k = &known[*ki];
        println!("KNOWN-FINDING: property={} {} ({} cases, key {})", p.id, k.text, cnt, k.key);
    }
    let nd = distinct.lock().unwrap().len() as u64;
    let sm = samples.lock().unwrap().clone();
    let cl = classes.lock().unwrap().clone();
    write_evidence(p, cfg, t0, evaluations, nd, &facet_lines, &cl, &sm, &truncated, violations.len() as u64, &violations);
    println!(
        "{} {} seed={} evaluations={} distinct_nontrivial={} violations={} wall={:.1}s{}",
        p.id,
        cfg.tier,
        cfg.seed,
        evaluations,
        nd,
        violations.len(),
        t0.elapsed().as_secs_f64(),
        if truncated.is_empty() { String::new() } else { format!(" (time cap reached in {})", truncated.join(",")) }
    );
    if violations.is_empty() {
        0
    } else {
        1
    }
}

fn done_now(cur: &[(AtomicU64, AtomicU64)], idx: u64) -> u64 {
    let _ = cur;
    idx
}

fn write_replay(cfg: &RunCfg, id: &str, facet: &str, tape: Option<&[u8]>, gen: Option<(u64, u64)>, index: u64, e: &Fail) -> String {
    let dir = format!("{}/replays", cfg.root);
    let _ = std::fs::create_dir_all(&dir);
    let h = fnv(format!("{}{}{:?}{:?}", facet, e.kind, tape, gen).as_bytes());
    let path = format!("{dir}/{id}-{facet}-{h:016x}.replay");
    let body = format!(
        "property: {id}\nfacet: {facet}\nindex: {index}\n{}{}kind: {}\nmessage: {}\n",
        crate::lit::record(),
        match (tape, gen) {
            (Some(t), _) => format!("tape: {}\n", hex(t)),
            (_, Some((s, _))) => format!("seed: {s}\n"),
            _ => String::new(),
        },
        e.kind,
        e.msg.replace('\n', "\\n")
    );
    let _ = std::fs::write(&path, body);
    path
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(
    p: &Property,
    cfg: &RunCfg,
    t0: Instant,
    evaluations: u64,
    distinct: u64,
    facets: &[(String, u64, u64, f64)],
    classes: &BTreeMap<String, u64>,
    samples: &[String],
    truncated: &[String],
    violations: u64,
    details: &[(String, String, String)],
) {
    let mut s = String::new();
    s.push_str("{\n");
    s.push_str(&format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n", json_str(p.id), json_str(&cfg.tier), cfg.seed));
    s.push_str(" \"coverage\": {\n");
    s.push_str(&format!("  \"evaluations\": {evaluations},\n  \"distinct_nontrivial\": {distinct},\n"));
    s.push_str(&format!("  \"rule\": {},\n", json_str(p.rule)));
    s.push_str("  \"samples\": [\n");
    s.push_str(&samples.iter().map(|x| format!("   {}", json_str(x))).collect::<Vec<_>>().join(",\n"));
    s.push_str("\n  ],\n  \"facets\": [\n");
    s.push_str(
        &facets
            .iter()
            .map(|(n, d, t, w)| format!("   {{\"name\": {}, \"cases\": {d}, \"nontrivial\": {t}, \"wall_s\": {w:.3}}}", json_str(n)))
            .collect::<Vec<_>>()
            .join(",\n"),
    );
    s.push_str("\n  ],\n  \"classes\": {\n");
    s.push_str(&classes.iter().map(|(k, v)| format!("   {}: {v}", json_str(k))).collect::<Vec<_>>().join(",\n"));
    s.push_str("\n  }");
    if !truncated.is_empty() {
        s.push_str(&format!(",\n  \"time_cap_reached_in\": [{}]", truncated.iter().map(|x| json_str(x)).collect::<Vec<_>>().join(", ")));
    }
    if !details.is_empty() {
        s.push_str(&format!(
            ",\n  \"violations\": [{}]",
            details.iter().map(|(f, k, r)| format!("{{\"facet\": {}, \"kind\": {}, \"replay\": {}}}", json_str(f), json_str(k), json_str(r))).collect::<Vec<_>>().join(", ")
        ));
    }
    s.push_str("\n },\n");
    s.push_str(&format!(" \"wall_s\": {:.3},\n \"violations\": {violations}\n}}\n", t0.elapsed().as_secs_f64()));
    let dir = format!("{}/evidence", cfg.root);
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(format!("{dir}/{}.json", p.id), s) {
        eprintln!("cannot write evidence: {e}");
        std::process::exit(2);
    }
}

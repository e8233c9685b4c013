//! Property-based testing engine with internal shrinking.
//!
//! A case is a sequence of choices (`u64`); generators turn choices into values. Random search draws
//! the choices from a generator seeded by (VERIF_SEED, check name, case index), so that every run is a
//! pure function of the code and VERIF_SEED. A failing case is shrunk on the choice sequence and the
//! shrunk sequence is the replay file; replaying does not involve the random generator at all.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

pub struct Fail {
    /// Stable signature: which clause failed (used for shrinking and for known findings).
    pub sig: String,
    pub msg: String,
}

pub enum Stop {
    Fail(Fail),
    Discard,
}

pub type R = Result<(), Stop>;

pub fn fail<T>(sig: &str, msg: String) -> Result<T, Stop> {
    Err(Stop::Fail(Fail { sig: sig.to_string(), msg }))
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !($cond) {
            return $crate::pbt::fail($sig, format!($($arg)*));
        }
    };
}

/// Unwrap a Result of the code under test; an Err is a violation.
#[macro_export]
macro_rules! ok {
    ($e:expr, $sig:expr, $($arg:tt)*) => {
        match $e {
            Ok(x) => x,
            Err(e) => return $crate::pbt::fail($sig, format!("unexpected error {:?}: {}", e, format!($($arg)*))),
        }
    };
}

pub struct SplitMix(u64);
impl SplitMix {
    pub fn new(seed: u64) -> Self {
        SplitMix(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

pub struct Src {
    buf: Vec<u64>,
    pos: usize,
    rng: Option<SplitMix>,
    pub overrun: bool,
}

/// Distinct non-trivial cases are counted up to this many per check.
const MAX_DISTINCT: usize = 30_000_000;

const MAX_CHOICES: usize = 100_000;

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { buf: Vec::new(), pos: 0, rng: Some(SplitMix::new(seed)), overrun: false }
    }
    pub fn replay(buf: &[u64]) -> Self {
        Src { buf: buf.to_vec(), pos: 0, rng: None, overrun: false }
    }
    pub fn used(&self) -> &[u64] {
        &self.buf[..self.pos.min(self.buf.len())]
    }
    /// A choice in 0..n (n = 0 means the whole range).
    pub fn draw(&mut self, n: u64) -> u64 {
        if self.pos >= MAX_CHOICES {
            self.overrun = true;
            return 0;
        }
        let v = match &mut self.rng {
            Some(r) => {
                let x = r.next();
                let v = if n == 0 { x } else { ((x as u128 * n as u128) >> 64) as u64 };
                self.buf.push(v);
                v
            }
            None => {
                if self.pos < self.buf.len() {
                    let x = self.buf[self.pos];
                    let v = if n == 0 { x } else { x % n };
                    self.buf[self.pos] = v;
                    v
                } else {
                    self.buf.push(0);
                    0
                }
            }
        };
        self.pos += 1;
        v
    }
    pub fn size(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.draw((hi - lo + 1) as u64) as usize
    }
    /// lo..=hi, rarely up to big
    pub fn dim(&mut self, lo: usize, hi: usize, big: usize) -> usize {
        if self.chance(1, 40) { self.size(lo, big) } else { self.size(lo, hi) }
    }
    /// like dim, very rarely next to sizes at which narrow counters and fixed buffers end
    pub fn wide(&mut self, lo: usize, hi: usize, big: usize) -> usize {
        if self.chance(1, 400) {
            *self.pick(&[lo, 31, 32, 33, 63, 64, 65, 99, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 768, 1000, 1024])
        } else {
            self.dim(lo, hi, big)
        }
    }
    pub fn bool(&mut self) -> bool {
        self.draw(2) == 1
    }
    /// true with probability num/den; shrinks to false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.draw(xs.len() as u64) as usize;
        &xs[i]
    }
    /// Weighted alternative; shrinks towards index 0
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut x = self.draw(total);
        for (i, &wi) in w.iter().enumerate() {
            if x < wi {
                return i;
            }
            x -= wi;
        }
        w.len() - 1
    }
    /// Uniform in [0,1)
    pub fn unit(&mut self) -> f64 {
        self.draw(1 << 53) as f64 / (1u64 << 53) as f64
    }
    /// In [lo, hi]: mostly uniform, sometimes on a coarse grid including both ends.
    pub fn f64(&mut self, lo: f64, hi: f64) -> f64 {
        if self.draw(6) == 0 {
            let k = self.draw(17);
            if k == 16 { hi } else { lo + (hi - lo) * (k as f64) / 16.0 }
        } else {
            lo + (hi - lo) * self.unit()
        }
    }
    /// Positive, log-uniform in [lo, hi], sometimes a power of ten or 1.
    pub fn f64_log(&mut self, lo: f64, hi: f64) -> f64 {
        let k = self.draw(8);
        let (a, b) = (lo.log10(), hi.log10());
        if k == 0 {
            if lo <= 1.0 && 1.0 <= hi { 1.0 } else { lo }
        } else if k == 1 {
            let e = self.draw(((b - a).floor() as u64) + 1) as f64;
            10f64.powf(a.ceil() + e).max(lo).min(hi)
        } else {
            10f64.powf(a + (b - a) * self.unit()).max(lo).min(hi)
        }
    }
    pub fn signed(&mut self, x: f64) -> f64 {
        if self.bool() { -x } else { x }
    }
    /// Any finite double: special values, short decimals, random bit patterns.
    pub fn f64_finite(&mut self) -> f64 {
        match self.draw(6) {
            0 => {
                let s = [0.0, 1.0, -1.0, 0.5, -0.0, 1e-15, 1e-10, 1e10, 1e15, 1e16, 1e17, 0.1, 0.2, 0.3, 1.0 / 3.0,
                    f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, f64::EPSILON, 123456789.123456789];
                *self.pick(&s)
            }
            1 => {
                let m = self.draw(20001) as f64 - 10000.0;
                let e = self.draw(7) as i32;
                m / 10f64.powi(e)
            }
            2 | 3 => {
                let x = self.f64_log(1e-20, 1e20);
                self.signed(x)
            }
            _ => {
                let x = f64::from_bits(self.draw(0));
                if x.is_finite() { x } else { 0.0 }
            }
        }
    }
    pub fn u128(&mut self) -> u128 {
        match self.draw(4) {
            0 => self.draw(1000) as u128,
            1 => self.draw(0) as u128,
            2 => u128::MAX - self.draw(1000) as u128,
            _ => ((self.draw(0) as u128) << 64) | self.draw(0) as u128,
        }
    }
    pub fn perm(&mut self, n: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() {
            let j = i - self.draw((i + 1) as u64) as usize; // all zeros = identity
            v.swap(i, j);
        }
        v
    }
}

#[derive(Default)]
pub struct Ctx {
    pub want: bool,
    pub log: String,
    pub nontrivial: bool,
    pub classes: Vec<&'static str>,
    pub oracle_checks: u64,
    pub excluded: Vec<String>,
    pub case_id: String,
}

impl Ctx {
    pub fn note<F: FnOnce() -> String>(&mut self, f: F) {
        if self.want && self.log.len() < 6000 {
            let s = f();
            self.log.push_str(&s);
            self.log.push_str("; ");
        }
    }
    pub fn class(&mut self, c: &'static str) {
        if !self.classes.contains(&c) {
            self.classes.push(c);
        }
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn checked(&mut self, n: u64) {
        self.oracle_checks += n;
    }
}

pub type PropFn = fn(&mut Src, &mut Ctx) -> R;

pub struct Check {
    pub prop: &'static str,
    pub name: &'static str,
    pub quick: usize,
    pub thorough: usize,
    pub rule: &'static str,
    pub shrink_budget: usize,
    pub f: PropFn,
}

thread_local! {
    static PANIC_MSG: RefCell<Option<String>> = RefCell::new(None);
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC_MSG.with(|p| *p.borrow_mut() = Some(format!("{} at {}", m, loc)));
    }));
}

/// Runs code of the tested crate, turning a panic into Err(message).
pub fn no_panic<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(_) => Err(PANIC_MSG.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".to_string())),
    }
}

pub enum Outcome {
    Pass,
    Discard,
    Fail(Fail),
}

pub fn run_case(f: PropFn, src: &mut Src, ctx: &mut Ctx) -> Outcome {
    match no_panic(|| f(src, ctx)) {
        Ok(Ok(())) => {
            if src.overrun { Outcome::Discard } else { Outcome::Pass }
        }
        Ok(Err(Stop::Discard)) => Outcome::Discard,
        Ok(Err(Stop::Fail(x))) => Outcome::Fail(x),
        Err(m) => Outcome::Fail(Fail { sig: "panic".to_string(), msg: format!("panicked: {}", m) }),
    }
}

pub fn hash_str(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

fn hash_buf(b: &[u64]) -> u64 {
    let mut h: u64 = 0x1234567;
    for &x in b {
        let mut m = SplitMix(h ^ x);
        h = m.next();
    }
    h
}

#[derive(Default)]
pub struct Report {
    pub evaluations: u64,
    pub discards: u64,
    pub nontrivial: HashSet<u64>,
    pub classes: BTreeMap<&'static str, u64>,
    pub oracle_checks: u64,
    pub samples: Vec<String>,
    pub known: Vec<(String, String)>,
    pub violation: Option<(Fail, Vec<u64>, String)>,
}

pub fn case_seed(seed: u64, name: &str, i: usize) -> u64 {
    let mut m = SplitMix(seed ^ hash_str(name));
    let a = m.next();
    let mut m = SplitMix(a ^ (i as u64).wrapping_mul(0x9E3779B97F4A7C15));
    m.next()
}

fn shrink(c: &Check, buf: Vec<u64>, first: Fail) -> (Fail, Vec<u64>) {
    let mut best = buf;
    let mut best_fail = first;
    let mut budget = c.shrink_budget;
    let t0 = std::time::Instant::now();
    let attempt = |cand: &[u64], best: &mut Vec<u64>, best_fail: &mut Fail, budget: &mut usize| -> bool {
        if *budget == 0 || t0.elapsed().as_secs() > 60 {
            *budget = 0;
            return false;
        }
        *budget -= 1;
        let mut src = Src::replay(cand);
        let mut ctx = Ctx::default();
        ctx.case_id = format!("{}-shrink", c.name);
        if let Outcome::Fail(f) = run_case(c.f, &mut src, &mut ctx) {
            if f.sig == best_fail.sig {
                let used = src.used().to_vec();
                if (used.len(), &used) < (best.len(), &*best) {
                    *best = used;
                    *best_fail = f;
                    return true;
                }
            }
        }
        false
    };
    loop {
        let before = best.clone();
        // delete blocks
        for size in [32usize, 16, 8, 4, 3, 2, 1] {
            let mut i = 0;
            while i + size <= best.len() && budget > 0 {
                let mut cand = best.clone();
                cand.drain(i..i + size);
                if !attempt(&cand, &mut best, &mut best_fail, &mut budget) {
                    i += 1.max(size / 2);
                }
            }
        }
        // zero blocks
        for size in [16usize, 4, 1] {
            let mut i = 0;
            while i < best.len() && budget > 0 {
                let e = (i + size).min(best.len());
                if best[i..e].iter().any(|&x| x != 0) {
                    let mut cand = best.clone();
                    for x in &mut cand[i..e] {
                        *x = 0;
                    }
                    attempt(&cand, &mut best, &mut best_fail, &mut budget);
                }
                i += size;
            }
        }
        // lower single values
        let mut i = 0;
        while i < best.len() && budget > 0 {
            let mut lo = 0u64;
            let mut guard = 0;
            while i < best.len() && lo < best[i] && guard < 70 && budget > 0 {
                guard += 1;
                let hi = best[i];
                let mid = lo + (hi - lo) / 2;
                let mut cand = best.clone();
                cand[i] = mid;
                if !attempt(&cand, &mut best, &mut best_fail, &mut budget) {
                    lo = mid + 1;
                }
            }
            i += 1;
        }
        if best == before || budget == 0 {
            break;
        }
    }
    (best_fail, best)
}

struct CaseOut {
    disc: bool,
    nontrivial: Option<u64>,
    classes: Vec<&'static str>,
    checks: u64,
    fail: Option<(Fail, Vec<u64>)>,
}

fn run_batch(c: &Check, from: usize, to: usize, seed: u64, known: &(dyn Fn(&str, &str) -> Option<String> + Sync)) -> BTreeMap<usize, CaseOut> {
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
    let next = AtomicUsize::new(from);
    let stop_at = AtomicUsize::new(usize::MAX);
    let outs: Mutex<BTreeMap<usize, CaseOut>> = Mutex::new(BTreeMap::new());
    let f = c.f;
    let name = c.name;
    std::thread::scope(|s| {
        for slot in 0..threads {
            let (next, stop_at, outs) = (&next, &stop_at, &outs);
            s.spawn(move || {
                let mut local: Vec<(usize, CaseOut)> = Vec::new();
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= to || i > stop_at.load(Ordering::SeqCst) {
                        break;
                    }
                    let mut src = Src::random(case_seed(seed, name, i));
                    let mut ctx = Ctx::default();
                    ctx.case_id = format!("{}-{}", name, i);
                    crate::guard::begin(slot, i);
                    let t = std::time::Instant::now();
                    let o = run_case(f, &mut src, &mut ctx);
                    SLOWEST_US.fetch_max(t.elapsed().as_micros() as u64, Ordering::Relaxed);
                    crate::guard::end(slot);
                    let mut out = CaseOut { disc: false, nontrivial: None, classes: ctx.classes, checks: ctx.oracle_checks, fail: None };
                    match o {
                        Outcome::Pass => {
                            if ctx.nontrivial {
                                out.nontrivial = Some(hash_buf(src.used()));
                            }
                        }
                        Outcome::Discard => out.disc = true,
                        Outcome::Fail(fl) => {
                            if known(&fl.sig, &fl.msg).is_none() {
                                stop_at.fetch_min(i, Ordering::SeqCst);
                            }
                            out.fail = Some((fl, src.used().to_vec()));
                        }
                    }
                    local.push((i, out));
                }
                outs.lock().unwrap().extend(local);
            });
        }
    });
    outs.into_inner().unwrap()
}

/// Duration of the slowest case so far, for the log.
pub static SLOWEST_US: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

pub fn run_check(c: &Check, cases: usize, seed: u64, known: &(dyn Fn(&str, &str) -> Option<String> + Sync)) -> Report {
    let f = c.f;
    let name = c.name;
    let mut rep = Report::default();
    let mut sample_idx = Vec::new();
    let mut from = 0;
    while from < cases && rep.violation.is_none() {
        let to = (from + 100_000).min(cases);
        let outs = run_batch(c, from, to, seed, known);
        from = to;
        for (i, o) in outs {
            if rep.violation.is_some() {
                break;
            }
            rep.evaluations += 1;
            rep.oracle_checks += o.checks;
            for cl in o.classes {
                *rep.classes.entry(cl).or_insert(0) += 1;
            }
            if o.disc {
                rep.discards += 1;
            }
            if let Some(h) = o.nontrivial {
                if rep.nontrivial.len() < MAX_DISTINCT && rep.nontrivial.insert(h) && sample_idx.len() < 3 {
                    sample_idx.push(i);
                }
            }
            if let Some((fl, buf)) = o.fail {
                match known(&fl.sig, &fl.msg) {
                    Some(k) => rep.known.push((k, fl.msg)),
                    None => {
                        crate::guard::shrinking(i);
                        let (fl, buf) = shrink(c, buf, fl);
                        let mut src = Src::replay(&buf);
                        let mut ctx = Ctx { want: true, case_id: format!("{}-desc", name), ..Ctx::default() };
                        let _ = run_case(f, &mut src, &mut ctx);
                        crate::guard::shrunk();
                        rep.violation = Some((fl, buf, ctx.log));
                    }
                }
            }
        }
    }
    for i in sample_idx {
        let mut src = Src::random(case_seed(seed, name, i));
        let mut ctx = Ctx { want: true, case_id: format!("{}-sample{}", name, i), ..Ctx::default() };
        crate::guard::begin(0, i);
        let _ = run_case(f, &mut src, &mut ctx);
        crate::guard::end(0);
        let mut s = format!("[{} #{}] {}", name, i, ctx.log);
        if s.len() > 900 {
            let mut e = 900;
            while !s.is_char_boundary(e) {
                e -= 1;
            }
            s.truncate(e);
            s.push_str("...");
        }
        rep.samples.push(s);
    }
    rep
}

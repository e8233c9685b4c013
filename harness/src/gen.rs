//! Shared generators and independent oracles (never calling the code under test for the expected value).

use crate::pbt::*;
use moledyn::prelude::*;
use std::path::PathBuf;

pub type P = Position<f64>;

pub fn pv(v: Vec<f64>) -> P {
    Position::new(v)
}

pub fn norm(v: &[f64]) -> f64 {
    let m = v.iter().fold(0.0f64, |a, x| a.max(x.abs()));
    if m == 0.0 || !m.is_finite() {
        return m;
    }
    m * v.iter().map(|x| (x / m) * (x / m)).sum::<f64>().sqrt()
}

pub fn close(a: f64, b: f64, rel: f64, abs: f64) -> bool {
    (a - b).abs() <= rel * a.abs().max(b.abs()) + abs
}

pub fn vclose(a: &[f64], b: &[f64], rel: f64, abs: f64) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| close(*x, *y, rel, abs))
}

pub fn bits(v: &[f64]) -> Vec<u64> {
    v.iter().map(|x| x.to_bits()).collect()
}

#[derive(Clone, Debug, PartialEq)]
pub enum Bc {
    Reflect,
    Periodic,
    Mixed(usize),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Sys {
    Circ { r: f64, dim: usize },
    Cubic { bc: Bc, l: f64, dim: usize },
    Cyl { d: usize, r: f64, l: f64, dim: usize },
}

pub fn bc_of(b: &Bc) -> BoundaryCond {
    match b {
        Bc::Reflect => BoundaryCond::Reflection,
        Bc::Periodic => BoundaryCond::Periodic,
        Bc::Mixed(d) => BoundaryCond::Mixed(*d),
    }
}

impl Sys {
    pub fn dim(&self) -> usize {
        match self {
            Sys::Circ { dim, .. } | Sys::Cubic { dim, .. } | Sys::Cyl { dim, .. } => *dim,
        }
    }
    pub fn build(&self) -> Box<dyn SystemCore<f64>> {
        match self {
            Sys::Circ { r, dim } => Box::new(ContCircSystem::new(*r, *dim)),
            Sys::Cubic { bc, l, dim } => Box::new(ContCubicSystem::new(bc_of(bc), *l, *dim)),
            Sys::Cyl { d, r, l, dim } => Box::new(ContCylindricalSystem::new(*d, *r, *l, *dim)),
        }
    }
    /// The same system made from parsed arguments.
    pub fn build_from_args(&self) -> Result<Box<dyn SystemCore<f64>>, Error> {
        match self {
            Sys::Circ { r, dim } => {
                let v = vec![format!("{}", r), format!("{}", dim)];
                Ok(Box::new(ContCircSystem::convert_from(&ContCircSystem::read_args_from_vec(&v)?)))
            }
            Sys::Cubic { bc, l, dim } => {
                let b = match bc {
                    Bc::Reflect => "Reflective".to_string(),
                    Bc::Periodic => "Periodic".to_string(),
                    Bc::Mixed(0) => format!("{}", BoundaryCond::Mixed(0)),
                    Bc::Mixed(d) => format!("{}", d),
                };
                let v = vec![b, format!("{}", l), format!("{}", dim)];
                Ok(Box::new(ContCubicSystem::convert_from(&ContCubicSystem::read_args_from_vec(&v)?)))
            }
            Sys::Cyl { d, r, l, dim } => {
                let (s, b) = if *d == 0 {
                    (format!("{}", SystemType::ContinuousCylindrical(0)), format!("{}", BoundaryCond::Mixed(0)))
                } else {
                    (format!("{}", d), format!("{}", d))
                };
                let v = vec![s, b, format!("{}", r), format!("{}", l), format!("{}", dim)];
                Ok(Box::new(ContCylindricalSystem::convert_from(&ContCylindricalSystem::read_args_from_vec(&v)?)))
            }
        }
    }
    pub fn text(&self) -> String {
        format!("{:?}", self)
    }
    /// Largest linear extent, used for scales and tolerances.
    pub fn scale(&self) -> f64 {
        match self {
            Sys::Circ { r, .. } => *r,
            Sys::Cubic { l, .. } => *l,
            Sys::Cyl { d, r, l, dim } => {
                if *d == 0 {
                    *l
                } else if d == dim {
                    *r
                } else {
                    r.max(*l)
                }
            }
        }
    }
    /// (radial dims, R) and per-axis half lengths for the remaining axes
    fn split(&self) -> (usize, f64, f64) {
        match self {
            Sys::Circ { r, dim } => (*dim, *r, 1.0),
            Sys::Cubic { l, .. } => (0, 1.0, *l),
            Sys::Cyl { d, r, l, .. } => (*d, *r, *l),
        }
    }
    /// Inclusion oracle: Some(true) inside, Some(false) outside, None within rounding of the wall.
    pub fn inside(&self, p: &[f64]) -> Option<bool> {
        let (d, r, l) = self.split();
        let mut near = false;
        if d > 0 {
            let s = norm(&p[..d]);
            if (s - r).abs() <= 1e-12 * r {
                near = true;
            } else if s > r {
                return Some(false);
            }
        }
        for x in &p[d..] {
            // coordinates are compared directly: no rounding involved
            if x.abs() > l {
                return Some(false);
            }
        }
        if near { None } else { Some(true) }
    }
    /// Inside up to rounding.
    pub fn inside_tol(&self, p: &[f64], tol: f64) -> bool {
        let (d, r, l) = self.split();
        norm(&p[..d]) <= r * (1.0 + tol) && p[d..].iter().all(|x| x.abs() <= l * (1.0 + tol))
    }
    /// An independent uniform point of the domain (own generator, own method).
    pub fn uniform(&self, g: &mut SplitMix) -> Vec<f64> {
        let (d, r, l) = self.split();
        let mut u = || (g.next() >> 11) as f64 / (1u64 << 52) as f64 - 1.0;
        let mut v: Vec<f64>;
        loop {
            v = (0..d).map(|_| r * u()).collect();
            if norm(&v) <= r {
                break;
            }
        }
        for _ in d..self.dim() {
            v.push(l * u());
        }
        v
    }
    /// A point of the domain: interior, near the wall or exactly on the centre.
    pub fn point(&self, s: &mut Src) -> Vec<f64> {
        let (d, r, l) = self.split();
        let dim = self.dim();
        let mut v = vec![0.0; dim];
        if d > 0 {
            let dir = unit_vec(s, d);
            let rho = match s.weighted(&[4, 3, 1]) {
                0 => r * s.f64(0.0, 0.999),
                1 => r * (1.0 - s.f64_log(1e-9, 1e-1)),
                _ => 0.0,
            };
            for i in 0..d {
                v[i] = dir[i] * rho;
            }
        }
        for x in v.iter_mut().skip(d) {
            *x = match s.weighted(&[4, 3, 1]) {
                0 => l * s.f64(-1.0, 1.0),
                1 => {
                    let y = l * (1.0 - s.f64_log(1e-12, 1e-1));
                    s.signed(y)
                }
                _ => {
                    let y = *s.pick(&[0.0, l, -l]);
                    y
                }
            };
        }
        v
    }
    /// Where one reflection or wrap takes start + displacement; None = refused. The flag tells whether
    /// the decision is within rounding of a boundary (then nothing is compared).
    pub fn fold(&self, q: &[f64]) -> (Option<Vec<f64>>, bool) {
        let mut q = q.to_vec();
        let mut close_call = false;
        let mut ok = true;
        let (d, r, l) = self.split();
        if d > 0 {
            let s = norm(&q[..d]);
            if (s - r).abs() <= 1e-11 * r || (s - 3.0 * r).abs() <= 1e-11 * r {
                close_call = true;
            }
            if s > r {
                let t = (2.0 * r - s) / s;
                for x in q[..d].iter_mut() {
                    *x *= t;
                }
                if s > 3.0 * r {
                    ok = false;
                }
            }
        }
        for i in d..q.len() {
            let x = q[i];
            if (x.abs() - l).abs() <= 1e-11 * l || (x.abs() - 3.0 * l).abs() <= 1e-11 * l {
                close_call = true;
            }
            if x.abs() > l {
                if x.abs() > 3.0 * l {
                    ok = false;
                }
                let reflect = match self {
                    Sys::Cubic { bc: Bc::Reflect, .. } => true,
                    Sys::Cubic { bc: Bc::Periodic, .. } => false,
                    Sys::Cubic { bc: Bc::Mixed(m), .. } => i < *m,
                    _ => false,
                };
                q[i] = if reflect {
                    if x > 0.0 { 2.0 * l - x } else { -2.0 * l - x }
                } else if x > 0.0 {
                    x - 2.0 * l
                } else {
                    x + 2.0 * l
                };
            }
        }
        (if ok { Some(q) } else { None }, close_call)
    }
}

pub fn unit_vec(s: &mut Src, dim: usize) -> Vec<f64> {
    // mostly random directions, sometimes a coordinate axis or a diagonal
    let k = s.weighted(&[6, 1, 1]);
    let v: Vec<f64> = match k {
        0 => (0..dim).map(|_| 2.0 * s.unit() - 1.0).collect(),
        1 => {
            let j = s.size(0, dim - 1);
            let sg = if s.bool() { -1.0 } else { 1.0 };
            (0..dim).map(|i| if i == j { sg } else { 0.0 }).collect()
        }
        _ => (0..dim).map(|_| if s.bool() { -1.0 } else { 1.0 }).collect(),
    };
    let n = norm(&v);
    if n < 1e-6 {
        let mut e = vec![0.0; dim];
        e[0] = 1.0;
        e
    } else {
        v.iter().map(|x| x / n).collect()
    }
}

/// Any system with its dimension at most `maxdim`.
pub fn system(s: &mut Src, maxdim: usize) -> Sys {
    let dim = s.size(1, maxdim);
    system_dim(s, dim)
}

/// As system, rarely with many more dimensions.
pub fn system_wide(s: &mut Src, maxdim: usize) -> Sys {
    let dim = s.wide(1, maxdim, 24);
    let mut y = system_dim(s, dim);
    if s.chance(1, 8) {
        let k = s.f64_log(1e-60, 1e60);
        match &mut y {
            Sys::Circ { r, .. } => *r *= k,
            Sys::Cubic { l, .. } => *l *= k,
            Sys::Cyl { r, l, .. } => {
                *r *= k;
                *l *= k;
            }
        }
    }
    y
}

pub fn system_dim(s: &mut Src, dim: usize) -> Sys {
    match s.weighted(&[3, 4, 4]) {
        0 => Sys::Circ { r: s.f64_log(1e-3, 1e3), dim },
        1 => {
            let bc = match s.weighted(&[2, 2, 3]) {
                0 => Bc::Reflect,
                1 => Bc::Periodic,
                _ => Bc::Mixed(s.size(0, dim)),
            };
            Sys::Cubic { bc, l: s.f64_log(1e-3, 1e3), dim }
        }
        _ => {
            let d = s.size(0, dim);
            let r = s.f64_log(1e-3, 1e3);
            let l = match s.weighted(&[3, 1]) {
                0 => s.f64_log(1e-3, 1e3),
                _ => r * s.f64(0.1, 10.0),
            };
            Sys::Cyl { d, r, l, dim }
        }
    }
}

pub fn sys_class(y: &Sys) -> &'static str {
    match y {
        Sys::Circ { .. } => "ball",
        Sys::Cubic { bc: Bc::Reflect, .. } => "cube-reflecting",
        Sys::Cubic { bc: Bc::Periodic, .. } => "cube-periodic",
        Sys::Cubic { bc: Bc::Mixed(_), .. } => "cube-mixed",
        Sys::Cyl { .. } => "cylinder",
    }
}

// ------------------------------------------------------------------ scratch directories

use std::sync::OnceLock;
static SCRATCH: OnceLock<PathBuf> = OnceLock::new();

pub fn scratch_root() -> PathBuf {
    SCRATCH
        .get_or_init(|| {
            let base = std::env::temp_dir();
            let p = base.join(format!("vharness-{}", std::process::id()));
            std::fs::create_dir_all(&p).expect("scratch");
            p
        })
        .clone()
}

pub fn remove_scratch_root() {
    if let Some(p) = SCRATCH.get() {
        let _ = std::fs::remove_dir_all(p);
    }
}

/// A fresh directory for one case, removed when dropped.
pub struct Scratch {
    pub path: PathBuf,
}

impl Scratch {
    pub fn new(ctx: &Ctx) -> Scratch {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let p = scratch_root().join(format!("{}-{}", ctx.case_id, N.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(&p).expect("scratch");
        Scratch { path: p }
    }
    pub fn dir(&self) -> String {
        format!("{}", self.path.display())
    }
    pub fn sub(&self, n: &str) -> String {
        format!("{}", self.path.join(n).display())
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.path);
    }
}

/// A seed for `rng_seed` whose `j`-th 64-bit output (from 0) is `x`: the generator is a 128-bit LCG with an
/// invertible step, so the state that outputs `x` is chosen and stepped back.
pub fn seed_with_output(x: u64, j: usize, hi: u64) -> u128 {
    const INC: u128 = (0xa02bdbf7bb3c0a7ac28fa16a64abf96 << 1) | 1;
    const MUL: u128 = 0x2360ED051FC65DA44385DF649FCCF645;
    let mut inv: u128 = 1; // Newton iteration for the inverse modulo 2^128
    for _ in 0..8 {
        inv = inv.wrapping_mul(2u128.wrapping_sub(MUL.wrapping_mul(inv)));
    }
    let back = |s: u128| s.wrapping_sub(INC).wrapping_mul(inv);
    let lo = hi ^ x.rotate_left((hi >> 58) as u32);
    let mut st = ((hi as u128) << 64) | lo as u128;
    for _ in 0..j + 2 {
        st = back(st); // one step before each output, and one in the seeding
    }
    st.wrapping_sub(INC)
}

/// A seed; one time in three one of its first outputs is an extreme one, which random seeds never show
/// (the smallest and largest uniform numbers, the edges and the tail of the normal distribution).
pub fn rng_seed_of(s: &mut Src) -> u128 {
    if !s.chance(1, 3) {
        return s.u128();
    }
    let j = s.size(0, 12);
    let x = match s.size(0, 6) {
        0 => 0,
        1 => u64::MAX,
        2 => s.size(0, 4095) as u64,                       // uniform: smallest; normal: any layer, near zero
        3 => u64::MAX - s.size(0, 4095) as u64,            // uniform: largest; normal: any layer, its far edge
        4 => (1u64 << 63) - 2048 + s.size(0, 4095) as u64, // the middle
        5 => s.draw(0) & !0xff,                             // the base layer of the normal distribution: its tail
        _ => 1u64 << s.size(0, 63),
    };
    seed_with_output(x, j, s.draw(0))
}

/// Parameters an agent carries along: they have no say in where it is placed, how it diffuses
/// or how far it is from another one, whatever their values.
#[derive(Clone, Copy, Debug)]
pub struct AgPar {
    pub rad: f64,
    pub alpha: f64,
    pub gamma: f64,
    pub strength: f64,
    pub d: f64,
}

fn ag_value(s: &mut Src, zero: bool, neg: bool, wide: bool) -> f64 {
    match s.weighted(&[8, if zero { 2 } else { 0 }, if neg { 2 } else { 0 }, if wide { 1 } else { 0 }, if wide { 1 } else { 0 }]) {
        0 => s.f64_log(1e-2, 10.0),
        1 => 0.0,
        2 => -s.f64_log(1e-2, 10.0),
        3 => s.f64_log(1e-15, 1e-6),
        _ => s.f64_log(1e6, 1e15),
    }
}

pub fn ag_par(s: &mut Src) -> AgPar {
    if s.chance(1, 3) {
        return AgPar { rad: 0.1, alpha: 1.0, gamma: 0.5, strength: 1.0, d: 1.0 };
    }
    AgPar {
        rad: ag_value(s, true, false, true),
        alpha: ag_value(s, true, true, false),
        gamma: ag_value(s, false, false, true),
        strength: ag_value(s, true, true, true),
        d: ag_value(s, true, false, true),
    }
}

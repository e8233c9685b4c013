//! C04 (random positions), C09 (determinism), C32 (random primitives).

use crate::gen::*;
use crate::pbt::*;
use crate::stat::*;
use crate::{ensure, ok};
use moledyn::prelude::*;
use moledyn::random_mod::*;

pub fn checks() -> Vec<Check> {
    vec![
        Check { prop: "C04", name: "c04_inside", quick: 250000, thorough: 15000000, shrink_budget: 2000, f: c04_inside,
            rule: "200 draws per case through both forms in a system of dimension 1..6, over vectors holding earlier positions, markers or garbage; non-trivial = dimension 2 or more" },
        Check { prop: "C04", name: "c04_uniform", quick: 3400, thorough: 200000, shrink_budget: 20, f: c04_uniform,
            rule: "20000 draws of one form in one system of dimension 1..4: radii, angles, axes, moments, correlations between axes and successive draws against their exact values; non-trivial = every case" },
        Check { prop: "C09", name: "c09_replay", quick: 90000, thorough: 5400000, shrink_budget: 600, f: c09_replay,
            rule: "a history of 1..40 random operations (numbers, vectors, positions, agents, displacements, trajectories) from one seed, run again on a new generator, in another thread and with other generators used in between; non-trivial = at least 5 different kinds of operation" },
        Check { prop: "C09", name: "c09_process", quick: 1200, thorough: 72000, shrink_budget: 20, f: c09_process,
            rule: "the same histories computed in another process; non-trivial = every case" },
        Check { prop: "C09", name: "c09_seeds", quick: 2000000, thorough: 120000000, shrink_budget: 1000, f: c09_seeds,
            rule: "pairs of different seeds (one flipped bit of the 128, sums, swapped halves, unrelated); non-trivial = seeds that differ in one bit" },
        Check { prop: "C32", name: "c32_forms", quick: 3000000, thorough: 180000000, shrink_budget: 2000, f: c32_forms,
            rule: "all forms of uniform and normal draws from equal states, dimension 0..12, over old contents; non-trivial = scaled form with non-zero old contents" },
        Check { prop: "C32", name: "c32_dist", quick: 8000, thorough: 480000, shrink_budget: 20, f: c32_dist,
            rule: "40000 numbers of one form: range, 64-cell chi-square, moments, correlation of neighbours and components; non-trivial = every case" },
        Check { prop: "C04", name: "c04_tail", quick: 96, thorough: 4800, shrink_budget: 4, f: c04_tail,
            rule: "2 million draws of one form in one system of dimension 1..4: number of draws next to the wall, the centre and the faces against the exact law; non-trivial = every case" },
        Check { prop: "C32", name: "c32_tail", quick: 160, thorough: 8000, shrink_budget: 4, f: c32_tail,
            rule: "8 million numbers of one form from one seed: number of extreme values on either side and next to the middle against the exact law; non-trivial = every case" },
    ]
}

// ---------------------------------------------------------------- C04

fn c04_inside(s: &mut Src, ctx: &mut Ctx) -> R {
    let y = system(s, 6);
    ctx.note(|| y.text());
    ctx.class(sys_class(&y));
    let sys = y.build();
    let seed = rng_seed_of(s);
    let mut rng = rng_seed(seed);
    let mut v = sys.position_out_of_system();
    let refill = s.size(0, 3);
    ctx.note(|| format!("seed {} refill {}", seed, refill));
    if y.dim() >= 2 {
        ctx.nontrivial();
    }
    for k in 0..100 {
        let a = ok!(sys.random_pos(&mut rng), "err", "{}", y.text());
        ctx.checked(2);
        ensure!(a.coordinate.len() == y.dim(), "dim", "{}: random position {:?}", y.text(), a.coordinate);
        ensure!(y.inside_tol(&a.coordinate, 1e-12), "alloc", "{}: draw {} at {:?} is outside", y.text(), k, a.coordinate);
        match refill {
            0 => {}
            1 => v = sys.position_out_of_system(),
            2 => {
                for x in v.coordinate.iter_mut() {
                    *x = s.f64_finite();
                }
            }
            _ => v = a.clone(),
        }
        let before = v.coordinate.clone();
        ok!(sys.random_pos_to_vec(&mut rng, &mut v), "err", "{}", y.text());
        ensure!(v.coordinate.len() == y.dim(), "dim", "{}: random position {:?}", y.text(), v.coordinate);
        ensure!(y.inside_tol(&v.coordinate, 1e-12), "inplace", "{}: draw {} into {:?} gives {:?}, which is outside", y.text(), k, before, v.coordinate);
        ensure!(sys.check_inclusion(&v).ok() == Some(true) && sys.check_inclusion(&a).ok() == Some(true), "inclusion", "{}: {:?} or {:?} reported as outside", y.text(), a.coordinate, v.coordinate);
        ensure!(v.coordinate != a.coordinate, "repeat", "{}: two successive draws at {:?}", y.text(), v.coordinate);
    }
    Ok(())
}

/// Chi-square and correlation tests of samples scaled to U(0,1).
pub fn test_uniform(u: &[f64], what: &str) -> R {
    let mut c = vec![0u64; 64];
    for &x in u {
        ensure!(x >= -1e-9 && x <= 1.0 + 1e-9, "range", "{}: value {} outside of 0..1", what, x);
        c[bin(x.max(0.0), 64)] += 1;
    }
    let z = chi2_uniform_z(&c);
    ensure!(z < Z, "chi2", "{}: not uniform, chi-square z={:.1} of {} samples, counts {:?}", what, z, u.len(), &c[..8]);
    let (m, v) = mean_var(u);
    let zm = (m - 0.5) / (1.0 / 12.0 / u.len() as f64).sqrt();
    ensure!(zm.abs() < Z, "mean", "{}: mean {} (z={:.1})", what, m, zm);
    let zv = (v - 1.0 / 12.0) / ((1.0 / 80.0 - 1.0 / 144.0) / u.len() as f64).sqrt();
    ensure!(zv.abs() < Z, "variance", "{}: variance {} (z={:.1})", what, v, zv);
    for lag in 1..3 {
        let z = corr_z(&u[..u.len() - lag], &u[lag..]);
        ensure!(z.abs() < Z, "lag", "{}: successive values are correlated (lag {}, z={:.1})", what, lag, z);
    }
    Ok(())
}

fn test_corr(a: &[f64], b: &[f64], what: &str) -> R {
    let z = corr_z(a, b);
    ensure!(z.abs() < Z, "corr", "{} are correlated (z={:.1})", what, z);
    let (ma, _) = mean_var(a);
    let (mb, _) = mean_var(b);
    let a2: Vec<f64> = a.iter().map(|x| (x - ma) * (x - ma)).collect();
    let b2: Vec<f64> = b.iter().map(|x| (x - mb) * (x - mb)).collect();
    let z = corr_z(&a2, &b2);
    ensure!(z.abs() < Z, "corr2", "the squares of {} are correlated (z={:.1})", what, z);
    Ok(())
}

fn c04_uniform(s: &mut Src, ctx: &mut Ctx) -> R {
    let y = system(s, 4);
    let sys = y.build();
    let seed = rng_seed_of(s);
    let form = s.size(0, 2);
    let n = 20000;
    ctx.note(|| format!("{} seed {} form {}", y.text(), seed, form));
    ctx.class(sys_class(&y));
    ctx.class(["allocating", "in place", "alternating"][form]);
    ctx.nontrivial();
    let mut rng = rng_seed(seed);
    let mut v = sys.position_out_of_system();
    let mut cols: Vec<Vec<f64>> = vec![Vec::with_capacity(n); y.dim()];
    for k in 0..n {
        let inplace = form == 1 || (form == 2 && k % 2 == 1);
        if inplace {
            ok!(sys.random_pos_to_vec(&mut rng, &mut v), "err", "{}", y.text());
        } else {
            v = ok!(sys.random_pos(&mut rng), "err", "{}", y.text());
        }
        for i in 0..y.dim() {
            cols[i].push(v.coordinate[i]);
        }
    }
    let (d, r, l) = match &y {
        Sys::Circ { r, dim } => (*dim, *r, 1.0),
        Sys::Cubic { l, .. } => (0, 1.0, *l),
        Sys::Cyl { d, r, l, .. } => (*d, *r, *l),
    };
    let t = y.text();
    ctx.checked(5);
    if d > 0 {
        let rad: Vec<f64> = (0..n).map(|k| (norm(&(0..d).map(|i| cols[i][k]).collect::<Vec<_>>()) / r).powi(d as i32)).collect();
        test_uniform(&rad, &format!("{}: d-th power of the radius", t))?;
        for i in 0..d {
            // sign of every coordinate is balanced, independent of the others
            let (m, v) = mean_var(&cols[i]);
            let want = r * r / (d as f64 + 2.0);
            let zm = m / (want / n as f64).sqrt();
            ensure!(zm.abs() < Z, "mean", "{}: mean of coordinate {} is {} (z={:.1})", t, i, m, zm);
            let e4 = 3.0 * r.powi(4) / ((d as f64 + 2.0) * (d as f64 + 4.0));
            let zv = (v - want) / ((e4 - want * want) / n as f64).sqrt();
            ensure!(zv.abs() < Z, "variance", "{}: variance of coordinate {} is {} instead of {} (z={:.1})", t, i, v, want, zv);
            for j in 0..i {
                let z = corr_z(&cols[i], &cols[j]);
                ensure!(z.abs() < Z, "corr", "{}: coordinates {} and {} are correlated (z={:.1})", t, i, j, z);
                let ang: Vec<f64> = (0..n).map(|k| (cols[i][k].atan2(cols[j][k]) / (2.0 * PI) + 0.5).min(1.0)).collect();
                test_uniform(&ang, &format!("{}: angle between coordinates {} and {}", t, i, j))?;
                let zc = corr_z(&ang, &rad);
                ensure!(zc.abs() < Z, "corr", "{}: radius and angle are correlated (z={:.1})", t, zc);
            }
            let z = corr_z(&cols[i][..n - 1], &cols[i][1..]);
            ensure!(z.abs() < Z, "lag", "{}: successive coordinates {} are correlated (z={:.1})", t, i, z);
        }
        for j in d..y.dim() {
            test_corr(&rad, &cols[j], &format!("{}: radius and coordinate {}", t, j))?;
        }
    }
    for i in d..y.dim() {
        let u: Vec<f64> = cols[i].iter().map(|x| (x / l + 1.0) / 2.0).collect();
        test_uniform(&u, &format!("{}: coordinate {}", t, i))?;
        for j in 0..i {
            test_corr(&cols[i], &cols[j], &format!("{}: coordinates {} and {}", t, i, j))?;
            let z = corr_z(&cols[i][..n - 1], &cols[j][1..]);
            ensure!(z.abs() < Z, "cross-lag", "{}: coordinates {} and {} of successive draws are correlated (z={:.1})", t, i, j, z);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C09

#[derive(Debug, Clone)]
enum Op {
    Uniform,
    UniformVec(usize),
    UniformTo(usize),
    UniformNs(usize, f64, f64),
    Gauss,
    GaussVec(usize),
    GaussTo(usize),
    GaussNs(usize, f64, f64),
    Pos(Sys),
    PosTo(Sys),
    Agent(usize, Sys, AgPar),
    Renew(usize, Sys, AgPar),
    Move(usize, usize, f64, AgPar),
    Walk(usize, Sys, usize, f64, AgPar),
}

fn gen_op(s: &mut Src) -> Op {
    match s.size(0, 13) {
        0 => Op::Uniform,
        1 => Op::UniformVec(s.dim(0, 5, 40)),
        2 => Op::UniformTo(s.dim(0, 5, 40)),
        3 => Op::UniformNs(s.dim(0, 5, 40), s.f64(-3.0, 0.0), s.f64(0.0, 3.0)),
        4 => Op::Gauss,
        5 => Op::GaussVec(s.dim(0, 5, 40)),
        6 => Op::GaussTo(s.dim(0, 5, 40)),
        7 => Op::GaussNs(s.dim(0, 5, 40), s.f64(-3.0, 3.0), s.f64(0.0, 3.0)),
        8 => Op::Pos(system(s, 3)),
        9 => Op::PosTo(system(s, 3)),
        10 => Op::Agent(s.size(0, 3), system(s, 3), ag_par(s)),
        11 => Op::Renew(s.size(0, 3), system(s, 3), ag_par(s)),
        12 => Op::Move(s.size(0, 3), s.size(1, 4), s.f64_log(1e-4, 1.0), ag_par(s)),
        _ => Op::Walk(s.size(0, 3), system(s, 3), s.size(1, 30), s.f64_log(1e-3, 0.1), ag_par(s)),
    }
}

fn op_kind(o: &Op) -> usize {
    match o {
        Op::Uniform => 0,
        Op::UniformVec(_) => 1,
        Op::UniformTo(_) => 2,
        Op::UniformNs(..) => 3,
        Op::Gauss => 4,
        Op::GaussVec(_) => 5,
        Op::GaussTo(_) => 6,
        Op::GaussNs(..) => 7,
        Op::Pos(_) => 8,
        Op::PosTo(_) => 9,
        Op::Agent(..) => 10,
        Op::Renew(..) => 11,
        Op::Move(..) => 12,
        Op::Walk(..) => 13,
    }
}

fn far_target(dim: usize, scale: f64) -> ContBulkTarget {
    ContBulkTarget::new(pv(vec![0.0; dim]), 0.05 * scale)
}

fn small_scale(y: &Sys) -> f64 {
    match y {
        Sys::Circ { r, .. } => *r,
        Sys::Cubic { l, .. } => *l,
        Sys::Cyl { r, l, .. } => r.min(*l),
    }
}

fn run_ops(seed: u128, ops: &[Op], noise: bool) -> Result<Vec<u64>, Error> {
    let mut rng = rng_seed(seed);
    let mut other = rng_seed(seed ^ 0x1234_5678_9abc);
    let mut out = Vec::new();
    let fixed = |n: usize| pv((0..n).map(|i| 0.25 + i as f64).collect());
    for (i, o) in ops.iter().enumerate() {
        if noise {
            // the same functions on an unrelated generator
            let _ = get_uniform(&mut other);
            let _ = get_gaussian(&mut other);
            let mut v = fixed(3);
            get_gaussian_to_vec(&mut other, &mut v);
            get_uniform_to_vec_nonstandard(&mut other, &mut v, -1.0, 1.0);
            // and with related parameters: swapped, same sum, product or ratio, another dimension
            match o {
                Op::Move(k, dim, dt, q) => {
                    let mut rel = vec![(*dt, 1.0), (0.5, dt + 0.5), (2.0, dt / 2.0), (2.0, dt * 2.0), (1.0, dt * 3.0), (3.0, *dt), (dt + 0.5, 0.5)];
                    let turn = i + (seed % 7) as usize;
                    rel.rotate_left(turn % 7);
                    rel.truncate(1 + turn % 3);
                    for (d, h) in rel {
                        let mt = MoveType::Brownian(d);
                        let mut v = fixed(*dim);
                        macro_rules! go {
                            ($a:expr) => {{
                                let a = $a;
                                let _ = a.random_move(&mut other, h)?;
                                a.random_move_to_vec(&mut other, h, &mut v)?;
                            }};
                        }
                        match k {
                            0 => go!(ContPassiveIndepAgent::new(mt, fixed(*dim))),
                            1 => go!(ContPassiveMergeAgent::new(mt, fixed(*dim), q.rad, q.alpha)),
                            2 => go!(ContPassiveExpAgent::new(InteractType::Exponential(*dim, q.gamma), mt, fixed(*dim), q.strength)),
                            _ => go!(ContPassiveLJAgent::new(InteractType::LennardJones(q.gamma), mt, fixed(*dim), q.strength)),
                        }
                    }
                }
                Op::UniformNs(n, a, b) => {
                    for (x, y) in [(*b, *b + 1.0), (*a - 1.0, *b - 1.0), (*a, *b + 1.0), (*a - 1.0, *b + 1.0)] {
                        get_uniform_to_vec_nonstandard(&mut other, &mut fixed(*n), x, y);
                    }
                }
                Op::GaussNs(n, a, b) => {
                    for (x, y) in [(*b, a.abs()), (*a + 1.0, *b), (*a, *b + 1.0), (*a - 1.0, *b + 1.0)] {
                        get_gaussian_to_vec_nonstandard(&mut other, &mut fixed(*n), x, y);
                    }
                }
                Op::Pos(y) | Op::PosTo(y) => {
                    let z = match y.clone() {
                        Sys::Circ { dim, r } => Sys::Circ { dim, r: r * 2.0 },
                        Sys::Cubic { bc, l, dim } => Sys::Cubic { bc, l: l * 2.0, dim },
                        Sys::Cyl { d, r, l, dim } => Sys::Cyl { d, r: l, l: r, dim },
                    };
                    let sys = z.build();
                    let _ = sys.random_pos(&mut other)?;
                    sys.random_pos_to_vec(&mut other, &mut fixed(z.dim()))?;
                }
                _ => {}
            }
        }
        match o {
            Op::Uniform => out.push(get_uniform(&mut rng).to_bits()),
            Op::UniformVec(n) => out.extend(bits(&get_uniform_vec(&mut rng, *n).coordinate)),
            Op::UniformTo(n) => {
                let mut v = fixed(*n);
                get_uniform_to_vec(&mut rng, &mut v);
                out.extend(bits(&v.coordinate));
            }
            Op::UniformNs(n, a, b) => {
                let mut v = fixed(*n);
                get_uniform_to_vec_nonstandard(&mut rng, &mut v, *a, *b);
                out.extend(bits(&v.coordinate));
            }
            Op::Gauss => out.push(get_gaussian(&mut rng).to_bits()),
            Op::GaussVec(n) => out.extend(bits(&get_gaussian_vec(&mut rng, *n).coordinate)),
            Op::GaussTo(n) => {
                let mut v = fixed(*n);
                get_gaussian_to_vec(&mut rng, &mut v);
                out.extend(bits(&v.coordinate));
            }
            Op::GaussNs(n, a, b) => {
                let mut v = fixed(*n);
                get_gaussian_to_vec_nonstandard(&mut rng, &mut v, *a, *b);
                out.extend(bits(&v.coordinate));
            }
            Op::Pos(y) => out.extend(bits(&y.build().random_pos(&mut rng)?.coordinate)),
            Op::PosTo(y) => {
                let sys = y.build();
                let mut v = fixed(y.dim());
                sys.random_pos_to_vec(&mut rng, &mut v)?;
                out.extend(bits(&v.coordinate));
            }
            Op::Agent(k, y, q) => {
                let sys = y.build();
                let t = far_target(y.dim(), small_scale(y));
                let mt = MoveType::Brownian(1.0);
                let p = match k {
                    0 => ContPassiveIndepAgent::new_uniform(&*sys, &t, &mut rng, mt)?.pos,
                    1 => ContPassiveMergeAgent::new_uniform(&*sys, &t, &mut rng, mt, q.rad, q.alpha)?.pos,
                    2 => ContPassiveExpAgent::new_uniform(&*sys, &t, &mut rng, InteractType::Exponential(y.dim(), q.gamma), mt, q.strength)?.pos,
                    _ => ContPassiveLJAgent::new_uniform(&*sys, &t, &mut rng, InteractType::LennardJones(q.gamma), mt, q.strength)?.pos,
                };
                out.extend(bits(&p.coordinate));
            }
            Op::Renew(k, y, q) => {
                let sys = y.build();
                let t = far_target(y.dim(), small_scale(y));
                let mt = MoveType::Brownian(1.0);
                let p0 = fixed(y.dim());
                let p = match k {
                    0 => { let mut a = ContPassiveIndepAgent::new(mt, p0); a.renew_uniform(&*sys, &t, &mut rng)?; a.pos }
                    1 => { let mut a = ContPassiveMergeAgent::new(mt, p0, q.rad, q.alpha); a.renew_uniform(&*sys, &t, &mut rng)?; a.pos }
                    2 => { let mut a = ContPassiveExpAgent::new(InteractType::Exponential(y.dim(), q.gamma), mt, p0, q.strength); a.renew_uniform(&*sys, &t, &mut rng)?; a.pos }
                    _ => { let mut a = ContPassiveLJAgent::new(InteractType::LennardJones(q.gamma), mt, p0, q.strength); a.renew_uniform(&*sys, &t, &mut rng)?; a.pos }
                };
                out.extend(bits(&p.coordinate));
            }
            Op::Move(k, dim, dt, q) => {
                let mt = MoveType::Brownian(1.0);
                let p0 = fixed(*dim);
                let mut v = fixed(*dim);
                macro_rules! go {
                    ($a:expr) => {{
                        let a = $a;
                        out.extend(bits(&a.random_move(&mut rng, *dt)?.coordinate));
                        a.random_move_to_vec(&mut rng, *dt, &mut v)?;
                        out.extend(bits(&v.coordinate));
                    }};
                }
                match k {
                    0 => go!(ContPassiveIndepAgent::new(mt, p0)),
                    1 => go!(ContPassiveMergeAgent::new(mt, p0, q.rad, q.alpha)),
                    2 => go!(ContPassiveExpAgent::new(InteractType::Exponential(*dim, q.gamma), mt, p0, q.strength)),
                    _ => go!(ContPassiveLJAgent::new(InteractType::LennardJones(q.gamma), mt, p0, q.strength)),
                }
            }
            Op::Walk(k, y, n, step, q) => {
                let sys = y.build();
                let dt = (small_scale(y) * step).powi(2) / 2.0;
                let mt = MoveType::Brownian(1.0);
                let p0 = pv(vec![0.0; y.dim()]);
                let mut mv = pv(vec![0.0; y.dim()]);
                macro_rules! go {
                    ($a:expr) => {{
                        let mut a = $a;
                        for _ in 0..*n {
                            mv.clear();
                            a.random_move_to_vec(&mut rng, dt, &mut mv)?;
                            let b = a.pos.clone();
                            if sys.check_bc(&mut a.pos, &mut mv).is_err() {
                                a.pos = b;
                            }
                        }
                        out.extend(bits(&a.pos.coordinate));
                    }};
                }
                match k {
                    0 => go!(ContPassiveIndepAgent::new(mt, p0)),
                    1 => go!(ContPassiveMergeAgent::new(mt, p0, q.rad, q.alpha)),
                    2 => go!(ContPassiveExpAgent::new(InteractType::Exponential(y.dim(), q.gamma), mt, p0, q.strength)),
                    _ => go!(ContPassiveLJAgent::new(InteractType::LennardJones(q.gamma), mt, p0, q.strength)),
                }
            }
        }
    }
    out.push(get_uniform(&mut rng).to_bits());
    Ok(out)
}

fn gen_history(s: &mut Src) -> (u128, Vec<Op>) {
    let seed = rng_seed_of(s);
    let n = s.size(1, 40);
    let ops = (0..n).map(|_| gen_op(s)).collect();
    (seed, ops)
}

fn c09_replay(s: &mut Src, ctx: &mut Ctx) -> R {
    let (seed, ops) = gen_history(s);
    ctx.note(|| format!("seed {} {:?}", seed, ops));
    let mut kinds: Vec<usize> = ops.iter().map(op_kind).collect();
    kinds.sort();
    kinds.dedup();
    if kinds.len() >= 5 {
        ctx.nontrivial();
    }
    let a = ok!(run_ops(seed, &ops, false), "err", "first run");
    let b = ok!(run_ops(seed, &ops, true), "err", "second run");
    ctx.checked(2);
    ensure!(a == b, "again", "seed {}: the second run differs from value {:?} on", seed, a.iter().zip(&b).position(|(x, y)| x != y));
    let c = std::thread::scope(|sc| sc.spawn(|| run_ops(seed, &ops, false)).join());
    let c = match c {
        Ok(Ok(c)) => c,
        _ => return fail("thread-err", "run in another thread failed".to_string()),
    };
    ensure!(a == c, "thread", "seed {}: the run in another thread differs from value {:?} on", seed, a.iter().zip(&c).position(|(x, y)| x != y));
    Ok(())
}

fn digest(v: &[u64]) -> String {
    let mut h = 0xcbf29ce484222325u64;
    for x in v {
        h = hash_str(&format!("{:x}-{:x}", h, x));
    }
    format!("{:016x}-{}", h, v.len())
}

/// Entry of the child process: choices on the command line, digest on standard output.
pub fn trace_main(choices: &str) -> String {
    let buf: Vec<u64> = choices.split(',').filter_map(|x| x.parse().ok()).collect();
    let mut src = Src::replay(&buf);
    let (seed, ops) = gen_history(&mut src);
    match run_ops(seed, &ops, false) {
        Ok(v) => digest(&v),
        Err(e) => format!("error {:?}", e),
    }
}

fn c09_process(s: &mut Src, ctx: &mut Ctx) -> R {
    let (seed, ops) = gen_history(s);
    ctx.note(|| format!("seed {} {:?}", seed, ops));
    ctx.nontrivial();
    let a = digest(&ok!(run_ops(seed, &ops, false), "err", "run"));
    let exe = std::env::current_exe().map_err(|_| Stop::Discard)?;
    let arg = s.used().iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    let o = std::process::Command::new(exe).arg("trace").arg(arg).output().map_err(|_| Stop::Discard)?;
    let b = String::from_utf8_lossy(&o.stdout).trim().to_string();
    ctx.checked(1);
    ensure!(a == b, "process", "seed {}: another process computes {} instead of {}", seed, b, a);
    Ok(())
}

fn c09_seeds(s: &mut Src, ctx: &mut Ctx) -> R {
    let a = s.u128();
    let b = match s.weighted(&[6, 1, 1, 1, 1]) {
        0 => {
            ctx.nontrivial();
            ctx.class("one bit");
            a ^ (1u128 << s.size(0, 127))
        }
        1 => a.wrapping_add(1 + s.draw(1000) as u128),
        2 => (a << 64) | (a >> 64),
        3 => !a,
        _ => s.u128(),
    };
    if a == b {
        return Err(Stop::Discard);
    }
    ctx.note(|| format!("seeds {:#x} {:#x}", a, b));
    let mut r1 = rng_seed(a);
    let mut r2 = rng_seed(b);
    let x: Vec<u64> = (0..8).map(|_| get_uniform(&mut r1).to_bits()).collect();
    let y: Vec<u64> = (0..8).map(|_| get_uniform(&mut r2).to_bits()).collect();
    ctx.checked(1);
    let same = x.iter().zip(&y).filter(|(p, q)| p == q).count();
    ensure!(same <= 2, "same", "seeds {:#x} and {:#x} share {} of their first 8 numbers", a, b, same);
    Ok(())
}

// ---------------------------------------------------------------- C32

fn c32_forms(s: &mut Src, ctx: &mut Ctx) -> R {
    let seed = rng_seed_of(s);
    let dim = s.wide(0, 12, 70);
    let skip = s.size(0, 5);
    let mut rng = rng_seed(seed);
    for _ in 0..skip {
        let _ = get_uniform(&mut rng);
    }
    let old: Vec<f64> = (0..dim).map(|_| if s.chance(1, 4) { 0.0 } else { let m = s.f64_log(1e-3, 1e3); s.signed(m) }).collect();
    let gauss = s.bool();
    let (p, q) = if gauss {
        let m = s.f64(-10.0, 10.0);
        let sd = if s.chance(1, 8) { 0.0 } else { s.f64_log(1e-3, 1e3) };
        (m, sd)
    } else {
        let a = s.f64(-10.0, 10.0);
        let w = if s.chance(1, 8) { 0.0 } else { s.f64_log(1e-3, 1e3) };
        (a, a + w)
    };
    ctx.note(|| format!("seed {} skip {} dim {} old {:?} {} {} {}", seed, skip, dim, old, if gauss { "normal" } else { "uniform" }, p, q));
    ctx.class(if gauss { "normal" } else { "uniform" });
    if old.iter().any(|x| *x != 0.0) {
        ctx.nontrivial();
    }
    let mut r0 = rng.clone();
    let base: Vec<f64> = (0..dim).map(|_| if gauss { get_gaussian(&mut r0) } else { get_uniform(&mut r0) }).collect();
    let end = get_uniform(&mut r0);
    for x in &base {
        ensure!(x.is_finite() && (gauss || (*x > 0.0 && *x < 1.0)), "range", "number {}", x);
    }
    if base.iter().any(|x| if gauss { x.abs() > 4.5 || x.abs() < 1e-9 } else { *x < 1e-9 || *x > 1.0 - 1e-9 }) {
        ctx.class("extreme");
    }
    // allocating
    let mut r1 = rng.clone();
    let v1 = if gauss { get_gaussian_vec(&mut r1, dim) } else { get_uniform_vec(&mut r1, dim) };
    ctx.checked(3);
    ensure!(v1.coordinate == base, "vec", "vector {:?}, numbers {:?}", v1.coordinate, base);
    ensure!(get_uniform(&mut r1) == end, "state", "the vector form leaves another state");
    // in place, over anything
    let mut r2 = rng.clone();
    let stale: Vec<f64> = if s.chance(1, 6) {
        old.iter().map(|o| if s.bool() { *o } else { *s.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, -0.0]) }).collect()
    } else {
        old.clone()
    };
    let mut v2 = pv(stale.clone());
    if gauss {
        get_gaussian_to_vec(&mut r2, &mut v2)
    } else {
        get_uniform_to_vec(&mut r2, &mut v2)
    };
    ensure!(v2.coordinate == base, "to-vec", "in place over {:?}: {:?}, numbers {:?}", stale, v2.coordinate, base);
    ensure!(get_uniform(&mut r2) == end, "state", "the in-place form leaves another state");
    // scaled
    let mut r3 = rng.clone();
    let mut v3 = pv(old.clone());
    if gauss {
        get_gaussian_to_vec_nonstandard(&mut r3, &mut v3, p, q)
    } else {
        get_uniform_to_vec_nonstandard(&mut r3, &mut v3, p, q)
    };
    let want: Vec<f64> = base.iter().zip(&old).map(|(b, o)| o + if gauss { p + b * q } else { p + b * (q - p) }).collect();
    let sc = p.abs() + q.abs() * 8.0 + old.iter().fold(0.0f64, |a, x| a.max(x.abs()));
    ensure!(vclose(&v3.coordinate, &want, 1e-12, 1e-13 * sc), "scaled", "scaled form over {:?} with {} {}: {:?}, expected {:?}", old, p, q, v3.coordinate, want);
    ensure!(get_uniform(&mut r3) == end, "state", "the scaled form leaves another state");
    Ok(())
}

fn c32_dist(s: &mut Src, ctx: &mut Ctx) -> R {
    let seed = rng_seed_of(s);
    let gauss = s.bool();
    let form = s.size(0, 3);
    let dim = if form == 0 { 1 } else { s.dim(1, 5, 40) };
    let n = 40000 / dim;
    let (p, q) = (s.f64(-5.0, 5.0), s.f64_log(1e-2, 1e2));
    ctx.note(|| format!("seed {} {} form {} dim {} parameters {} {}", seed, if gauss { "normal" } else { "uniform" }, form, dim, p, q));
    ctx.nontrivial();
    ctx.class(if gauss { "normal" } else { "uniform" });
    let mut rng = rng_seed(seed);
    let mut v = pv(vec![7.5; dim]);
    let mut cols: Vec<Vec<f64>> = vec![Vec::with_capacity(n); dim];
    for _ in 0..n {
        match (form, gauss) {
            (0, false) => v.coordinate[0] = get_uniform(&mut rng),
            (0, true) => v.coordinate[0] = get_gaussian(&mut rng),
            (1, false) => v = get_uniform_vec(&mut rng, dim),
            (1, true) => v = get_gaussian_vec(&mut rng, dim),
            (2, false) => get_uniform_to_vec(&mut rng, &mut v),
            (2, true) => get_gaussian_to_vec(&mut rng, &mut v),
            (_, false) => {
                v.coordinate.iter_mut().for_each(|x| *x = 0.0);
                get_uniform_to_vec_nonstandard(&mut rng, &mut v, p, p + q);
                v.coordinate.iter_mut().for_each(|x| *x = (*x - p) / q);
            }
            (_, true) => {
                v.coordinate.iter_mut().for_each(|x| *x = 0.0);
                get_gaussian_to_vec_nonstandard(&mut rng, &mut v, p, q);
                v.coordinate.iter_mut().for_each(|x| *x = (*x - p) / q);
            }
        }
        for i in 0..dim {
            cols[i].push(v.coordinate[i]);
        }
    }
    ctx.checked(dim as u64 * 6);
    for i in 0..dim {
        let what = format!("{} form {} component {}", if gauss { "normal" } else { "uniform" }, form, i);
        if gauss {
            test_normal(&cols[i], 1.0, &what)?;
        } else {
            if form != 3 {
                for x in &cols[i] {
                    ensure!(*x > 0.0 && *x < 1.0, "range", "{}: {}", what, x);
                }
            }
            test_uniform(&cols[i], &what)?;
        }
        for j in 0..i {
            test_corr(&cols[i], &cols[j], &format!("{}: components {} and {}", what, i, j))?;
        }
    }
    Ok(())
}

/// Numbers of extreme values in a long stream.
pub struct Tails {
    gauss: bool,
    n: u64,
    low: [u64; 5],
    high: [u64; 5],
    mid: [u64; 3],
}

const TAIL_G: [f64; 5] = [3.0, 3.5, 4.0, 4.25, 4.4];
const TAIL_U: [f64; 5] = [1e-3, 3e-4, 1e-4, 3e-5, 1e-5];
const TAIL_M: [f64; 3] = [1e-3, 1e-4, 1e-5];

impl Tails {
    pub fn new(gauss: bool) -> Tails {
        Tails { gauss, n: 0, low: [0; 5], high: [0; 5], mid: [0; 3] }
    }
    /// A standard normal number, or one that should be uniform on 0..1.
    #[inline]
    pub fn add(&mut self, x: f64) {
        self.n += 1;
        if self.gauss {
            let a = x.abs();
            if a > TAIL_G[0] {
                let side = if x < 0.0 { &mut self.low } else { &mut self.high };
                for i in 0..5 {
                    side[i] += (a > TAIL_G[i]) as u64;
                }
            } else if a < TAIL_M[0] {
                for i in 0..3 {
                    self.mid[i] += (a < TAIL_M[i]) as u64;
                }
            }
        } else if x < TAIL_U[0] {
            for i in 0..5 {
                self.low[i] += (x < TAIL_U[i]) as u64;
            }
        } else if x > 1.0 - TAIL_U[0] {
            for i in 0..5 {
                self.high[i] += (x > 1.0 - TAIL_U[i]) as u64;
            }
        } else {
            let a = (x - 0.5).abs();
            if a < TAIL_M[0] {
                for i in 0..3 {
                    self.mid[i] += (a < TAIL_M[i]) as u64;
                }
            }
        }
    }
    pub fn test(&self, what: &str) -> R {
        let n = self.n as f64;
        for i in 0..5 {
            let p = if self.gauss { 0.5 * erfc(TAIL_G[i] / 2f64.sqrt()) } else { TAIL_U[i] };
            for (k, side) in [(self.low[i], "low"), (self.high[i], "high")] {
                ensure!(!poisson_rare(k, n * p), "tail", "{}: {} of {} values beyond the {} limit {} instead of {}", what, k, n, side, if self.gauss { TAIL_G[i] } else { TAIL_U[i] }, n * p);
            }
        }
        for i in 0..3 {
            let p = if self.gauss { 2.0 * TAIL_M[i] / (2.0 * PI).sqrt() } else { 2.0 * TAIL_M[i] };
            ensure!(!poisson_rare(self.mid[i], n * p), "middle", "{}: {} of {} values closer than {} to the middle instead of {}", what, self.mid[i], n, TAIL_M[i], n * p);
        }
        Ok(())
    }
}

fn c32_tail(s: &mut Src, ctx: &mut Ctx) -> R {
    let seed = rng_seed_of(s);
    let gauss = s.bool();
    let form = s.size(0, 3);
    let dim = if form == 0 { 1 } else { s.dim(1, 5, 40) };
    let n = 8_000_000 / dim;
    ctx.note(|| format!("seed {} {} form {} dim {}", seed, if gauss { "normal" } else { "uniform" }, form, dim));
    ctx.nontrivial();
    ctx.class(if gauss { "normal" } else { "uniform" });
    let mut rng = rng_seed(seed);
    let mut v = pv(vec![7.5; dim]);
    let mut t = Tails::new(gauss);
    for _ in 0..n {
        match (form, gauss) {
            (0, false) => v.coordinate[0] = get_uniform(&mut rng),
            (0, true) => v.coordinate[0] = get_gaussian(&mut rng),
            (1, false) => v = get_uniform_vec(&mut rng, dim),
            (1, true) => v = get_gaussian_vec(&mut rng, dim),
            (2, false) => get_uniform_to_vec(&mut rng, &mut v),
            (2, true) => get_gaussian_to_vec(&mut rng, &mut v),
            (_, false) => {
                v.coordinate.iter_mut().for_each(|x| *x = 0.0);
                get_uniform_to_vec_nonstandard(&mut rng, &mut v, 0.0, 1.0);
            }
            (_, true) => {
                v.coordinate.iter_mut().for_each(|x| *x = 0.0);
                get_gaussian_to_vec_nonstandard(&mut rng, &mut v, 0.0, 1.0);
            }
        }
        for x in &v.coordinate {
            t.add(*x);
        }
    }
    ctx.checked(13);
    t.test(&format!("{} form {}", if gauss { "normal" } else { "uniform" }, form))
}

fn c04_tail(s: &mut Src, ctx: &mut Ctx) -> R {
    let y = system(s, 4);
    let sys = y.build();
    let seed = rng_seed_of(s);
    let inplace = s.bool();
    let n = 2_000_000;
    ctx.note(|| format!("{} seed {} in place {}", y.text(), seed, inplace));
    ctx.class(sys_class(&y));
    ctx.nontrivial();
    let mut rng = rng_seed(seed);
    let mut v = sys.position_out_of_system();
    let (d, r, l) = match &y {
        Sys::Circ { r, dim } => (*dim, *r, 1.0),
        Sys::Cubic { l, .. } => (0, 1.0, *l),
        Sys::Cyl { d, r, l, .. } => (*d, *r, *l),
    };
    let mut round = Tails::new(false);
    let mut flat: Vec<Tails> = (d..y.dim()).map(|_| Tails::new(false)).collect();
    for _ in 0..n {
        if inplace {
            ok!(sys.random_pos_to_vec(&mut rng, &mut v), "err", "{}", y.text());
        } else {
            v = ok!(sys.random_pos(&mut rng), "err", "{}", y.text());
        }
        if d > 0 {
            round.add((norm(&v.coordinate[..d]) / r).powi(d as i32));
        }
        for i in d..y.dim() {
            flat[i - d].add((v.coordinate[i] / l + 1.0) / 2.0);
        }
    }
    ctx.checked(13 * (flat.len() as u64 + 1));
    if d > 0 {
        round.test(&format!("{}: d-th power of the radius", y.text()))?;
    }
    for (i, t) in flat.iter().enumerate() {
        t.test(&format!("{}: coordinate {}", y.text(), d + i))?;
    }
    Ok(())
}

/// Samples against N(0, var).
pub fn test_normal(xs: &[f64], var: f64, what: &str) -> R {
    let n = xs.len() as f64;
    let sd = var.sqrt();
    let u: Vec<f64> = xs.iter().map(|x| phi(x / sd)).collect();
    let (m, _) = mean_var(xs);
    let zm = m / (var / n).sqrt();
    ensure!(zm.abs() < Z, "normal-mean", "{}: mean {} (z={:.1})", what, m, zm);
    let v = xs.iter().map(|x| x * x).sum::<f64>() / n;
    let zv = (v / var - 1.0) / (2.0 / n).sqrt();
    ensure!(zv.abs() < Z, "normal-variance", "{}: variance {} instead of {} (z={:.1})", what, v, var, zv);
    let k = xs.iter().map(|x| (x / sd).powi(4)).sum::<f64>() / n;
    let zk = (k - 3.0) / (96.0 / n).sqrt();
    ensure!(zk.abs() < 2.0 * Z, "normal-kurtosis", "{}: fourth moment {} (z={:.1})", what, k, zk);
    test_uniform(&u, &format!("{} (distribution function)", what))
}

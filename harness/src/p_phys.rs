//! C30: programs composed of the building blocks against closed-form physics.

use crate::gen::*;
use crate::p_random::{test_normal, test_uniform};
use crate::pbt::*;
use crate::stat::*;
use crate::{ensure, ok};
use moledyn::prelude::*;
use moledyn::random_mod::get_gaussian_vec;
use moledyn::system_mod::cont_circ::check_bc_exact;

pub fn checks() -> Vec<Check> {
    vec![
        Check { prop: "C30", name: "c30_diffusion", quick: 10000, thorough: 600000, shrink_budget: 25, f: c30_diffusion,
            rule: "400..4000 walkers (any agent kind, both displacement forms) from a point of a wide domain of any shape, dimension 1..4, moved K=1..40 steps of a constant or growing clock: normal law of variance 2 D t with t read from the clock; non-trivial = more than one step" },
        Check { prop: "C30", name: "c30_uniform", quick: 2100, thorough: 120000, shrink_budget: 25, f: c30_uniform,
            rule: "6000 walkers placed uniformly, moved 1..30 steps of generated width, in reflecting, periodic and mixed cubes, straight parts of cylinders, balls by exact and radial reflection: still uniform; non-trivial = walls were hit by at least 5 percent of moves" },
        Check { prop: "C30", name: "c30_mfpt", quick: 96, thorough: 5700, shrink_budget: 6, f: c30_mfpt,
            rule: "4000 first-passage programs (balls of dimension 1..3, one-dimensional cubes with any boundary and off-centre target; uniform or fixed start) against the closed-form mean with the discrete-time correction of the target radius; non-trivial = every case" },
        Check { prop: "C30", name: "c30_order", quick: 110, thorough: 6600, shrink_budget: 6, f: c30_order,
            rule: "first of n=2..8 searchers (list of agents renewed for each ensemble) in one dimension against the integral of the n-th power of the survival probability; non-trivial = every case" },
        Check { prop: "C30", name: "c30_merge", quick: 360000, thorough: 21000000, shrink_budget: 300, f: c30_merge,
            rule: "coalescence program of 2..12 particles in any domain run step by step against an independent cluster model fed with the same random numbers: positions, sizes, diffusion coefficients, number of clusters; non-trivial = at least one merge" },
        Check { prop: "C30", name: "c30_pair", quick: 100000, thorough: 6000000, shrink_budget: 300, f: c30_pair,
            rule: "two noise-free interacting agents: exponential pair along exp(r/g)=exp(r0/g)+2(s/g^2)t, Lennard-Jones pair into its minimum, centre of mass and direction kept; non-trivial = dimension 2 or more" },
        Check { prop: "C30", name: "c30_descent", quick: 100000, thorough: 6000000, shrink_budget: 300, f: c30_descent,
            rule: "2..8 noise-free interacting agents moved by the pair traversal: total potential never rises, centre of mass rests, motion equals an independent sum over pairs; non-trivial = three or more agents" },
        Check { prop: "C30", name: "c30_boltzmann", quick: 760, thorough: 45000, shrink_budget: 6, f: c30_boltzmann,
            rule: "4000 interacting pairs started in the Boltzmann law of a one-dimensional box and moved 40 noisy steps keep it; non-trivial = strong interaction" },
        Check { prop: "C30", name: "c30_pipeline", quick: 10000, thorough: 600000, shrink_budget: 60, f: c30_pipeline,
            rule: "first-passage program writing its data file through the set-up macros into several sets, then analysed: number, mean and deviation of the written samples; non-trivial = more than one file" },
    ]
}

// ---------------------------------------------------------------- agents by kind

pub fn mover(kind: usize, q: &AgPar, pos: Vec<f64>, mt: MoveType) -> Box<dyn Passive<f64, f64>> {
    let dim = pos.len();
    match kind {
        0 => Box::new(ContPassiveIndepAgent::new(mt, pv(pos))),
        1 => Box::new(ContPassiveMergeAgent::new(mt, pv(pos), q.rad, q.alpha)),
        2 => Box::new(ContPassiveExpAgent::new(InteractType::Exponential(dim, q.gamma), mt, pv(pos), q.strength)),
        _ => Box::new(ContPassiveLJAgent::new(InteractType::LennardJones(q.gamma), mt, pv(pos), q.strength)),
    }
}

const KINDS: [&str; 4] = ["indep", "merge", "exp", "lj"];

/// (t, dt) of the first k steps of a generated clock whose steps are at most dt.
fn clock(s: &mut Src, dt: f64, k: usize) -> (String, Vec<(f64, f64)>) {
    if s.bool() {
        let c = ConstStep::new(dt).unwrap();
        (format!("ConstStep {}", dt), c.into_diff().take(k).collect())
    } else {
        let lo = dt * s.f64_log(1e-4, 0.5);
        let len = s.size(2, 20);
        let c = ExponentialStep::new(lo, dt, len).unwrap();
        (format!("ExponentialStep {} {} {}", lo, dt, len), c.into_diff().take(k).collect())
    }
}

// ---------------------------------------------------------------- free diffusion

fn c30_diffusion(s: &mut Src, ctx: &mut Ctx) -> R {
    let dim = s.size(1, 4);
    let kind = s.size(0, 3);
    let d = s.f64_log(1e-3, 1e3);
    let dt = s.f64_log(1e-6, 1e2);
    let k = s.size(1, 40);
    let (ctext, steps) = clock(s, dt, k);
    ensure!(steps.len() == k, "clock", "{}: {} steps instead of {}", ctext, steps.len(), k);
    // each item is a time and the step to the next one
    let t = steps[k - 1].0 + steps[k - 1].1;
    let sd = (2.0 * d * t).sqrt();
    let big = sd * 40.0 * s.f64_log(1.0, 100.0);
    let y = match s.size(0, 2) {
        0 => Sys::Circ { r: big, dim },
        1 => {
            let bc = match s.size(0, 2) {
                0 => Bc::Reflect,
                1 => Bc::Periodic,
                _ => Bc::Mixed(s.size(0, dim)),
            };
            Sys::Cubic { bc, l: big, dim }
        }
        _ => Sys::Cyl { d: s.size(1, dim), r: big, l: big * 1.5, dim },
    };
    let sys = y.build();
    let x0: Vec<f64> = (0..dim).map(|_| s.f64(-0.3, 0.3) * big).collect();
    let form = s.bool();
    let n = (60000 / (k * dim)).clamp(400, 4000);
    let seed = rng_seed_of(s);
    ctx.note(|| format!("{} walkers of kind {} D={} {} K={} t={} in {} from {:?} form {} seed {}", n, KINDS[kind], d, ctext, k, t, y.text(), x0, form, seed));
    ctx.class(KINDS[kind]);
    ctx.class(if form { "in place" } else { "allocating" });
    if k > 1 {
        ctx.nontrivial();
    }
    let q = ag_par(s);
    let a = mover(kind, &q, x0.clone(), MoveType::Brownian(d));
    let mut rng = rng_seed(seed);
    let mut xs: Vec<Vec<f64>> = vec![Vec::with_capacity(n); dim];
    let mut mv = pv(vec![0.0; dim]);
    for _ in 0..n {
        let mut p = pv(x0.clone());
        for &(_, h) in &steps {
            if form {
                mv.clear();
                ok!(a.random_move_to_vec(&mut rng, h, &mut mv), "move", "{}", ctext);
                ok!(sys.check_bc(&mut p, &mut mv), "bc", "{}", y.text());
            } else {
                let mut m = ok!(a.random_move(&mut rng, h), "move", "{}", ctext);
                ok!(sys.check_bc(&mut p, &mut m), "bc", "{}", y.text());
            }
        }
        for i in 0..dim {
            xs[i].push((p.coordinate[i] - x0[i]) / sd);
        }
    }
    for i in 0..dim {
        test_normal(&xs[i], 1.0, &format!("direction {} after {} steps", i, k))?;
        for j in 0..i {
            let z = corr_z(&xs[i], &xs[j]);
            ensure!(z.abs() < Z, "correlation", "directions {} and {}: z={:.1}", i, j, z);
        }
    }
    ctx.checked(dim as u64 * 5);
    Ok(())
}

// ---------------------------------------------------------------- uniform population

fn c30_uniform(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = 6000usize;
    let kind = s.size(0, 3);
    let k = s.size(1, 30);
    let mode = s.weighted(&[4, 2, 2, 2]);
    let (y, sd) = match mode {
        0 => {
            let dim = s.size(1, 4);
            let l = s.f64_log(1e-3, 1e3);
            let bc = match s.size(0, 2) {
                0 => Bc::Reflect,
                1 => Bc::Periodic,
                _ => Bc::Mixed(s.size(0, dim)),
            };
            (Sys::Cubic { bc, l, dim }, l * s.f64(0.02, 0.25))
        }
        1 => {
            let dim = s.size(2, 4);
            let d = s.size(1, dim - 1);
            let r = s.f64_log(1e-2, 1e2);
            let l = r * s.f64(0.3, 3.0);
            (Sys::Cyl { d, r, l, dim }, r.min(l) * s.f64(0.02, 0.1))
        }
        2 => {
            let dim = s.size(1, 4);
            let r = s.f64_log(1e-2, 1e2);
            (Sys::Circ { r, dim }, r * s.f64(0.02, 0.3))
        }
        _ => {
            let dim = s.size(1, 3);
            let r = s.f64_log(1e-2, 1e2);
            (Sys::Circ { r, dim }, r * s.f64(0.01, 0.03))
        }
    };
    let dim = y.dim();
    let seed = rng_seed_of(s);
    let dcoef = s.f64_log(1e-2, 1e2);
    let dt = sd * sd / (2.0 * dcoef);
    ctx.note(|| format!("{} walkers of kind {} in {} step width {} K={} mode {} seed {}", n, KINDS[kind], y.text(), sd, k, mode, seed));
    ctx.class(["cube", "cylinder", "ball, exact", "ball, radial"][mode]);
    let sys = y.build();
    let circ = match &y {
        Sys::Circ { r, dim } => Some(ContCircSystem::new(*r, *dim)),
        _ => None,
    };
    let q = ag_par(s);
    let a = mover(kind, &q, vec![0.0; dim], MoveType::Brownian(dcoef));
    let mut rng = rng_seed(seed);
    let mut ps: Vec<P> = Vec::with_capacity(n);
    for _ in 0..n {
        ps.push(ok!(sys.random_pos(&mut rng), "random_pos", "{}", y.text()));
    }
    let mut mv = pv(vec![0.0; dim]);
    let (mut hits, mut refused) = (0usize, 0usize);
    for _ in 0..k {
        for p in ps.iter_mut() {
            mv.clear();
            ok!(a.random_move_to_vec(&mut rng, dt, &mut mv), "move", "");
            let old = p.clone();
            let end: Vec<f64> = (0..dim).map(|i| old.coordinate[i] + mv.coordinate[i]).collect();
            if y.inside(&end) == Some(false) {
                hits += 1;
            }
            let res = if mode == 2 { check_bc_exact(circ.unwrap(), p, &mut mv) } else { sys.check_bc(p, &mut mv) };
            if res.is_err() {
                // a move refused by the exact reflection needs several reflections: the walker stays,
                // which keeps the uniform law since the reversed path is refused as well
                ensure!(mode == 2, "refused", "{}: move of width {} refused", y.text(), sd);
                refused += 1;
                *p = old;
            }
        }
    }
    if hits * 20 >= n * k {
        ctx.nontrivial();
    }
    let _ = refused;
    match &y {
        Sys::Cubic { l, .. } => {
            for i in 0..dim {
                let u: Vec<f64> = ps.iter().map(|p| (p.coordinate[i] / l + 1.0) / 2.0).collect();
                test_uniform(&u, &format!("direction {}", i))?;
            }
        }
        Sys::Cyl { d, l, .. } => {
            for i in *d..dim {
                let u: Vec<f64> = ps.iter().map(|p| (p.coordinate[i] / l + 1.0) / 2.0).collect();
                test_uniform(&u, &format!("direction {}", i))?;
            }
        }
        Sys::Circ { r, .. } => {
            let mut u: Vec<f64> = ps.iter().map(|p| (norm(&p.coordinate) / r).powi(dim as i32)).collect();
            if mode == 2 {
                test_uniform(&u, "volume fraction")?;
            } else {
                let ks = ks_uniform(&mut u);
                let tol = KS + (n as f64).sqrt() * dim as f64 * sd / r;
                ensure!(ks < tol, "radial", "volume fraction not uniform: KS {} (allowed {})", ks, tol);
            }
        }
    }
    // no direction is preferred and directions are independent
    for i in 0..dim {
        let xi: Vec<f64> = ps.iter().map(|p| p.coordinate[i]).collect();
        let (m, v) = mean_var(&xi);
        let z = m / (v / n as f64).sqrt();
        ensure!(z.abs() < Z, "balance", "mean of direction {}: z={:.1}", i, z);
        for j in 0..i {
            let xj: Vec<f64> = ps.iter().map(|p| p.coordinate[j]).collect();
            let z = corr_z(&xi, &xj);
            ensure!(z.abs() < Z, "correlation", "directions {} and {}: z={:.1}", i, j, z);
        }
    }
    ctx.checked(2 * dim as u64);
    Ok(())
}

// ---------------------------------------------------------------- first passage

/// Closed-form mean first-passage time from radius x to an absorbing sphere a inside a reflecting one R.
fn mfpt_ball(dim: usize, x: f64, a: f64, r: f64, d: f64) -> f64 {
    match dim {
        1 => (r * (x - a) - (x * x - a * a) / 2.0) / d,
        2 => r * r / (2.0 * d) * (x / a).ln() - (x * x - a * a) / (4.0 * d),
        _ => r.powi(3) / (3.0 * d) * (1.0 / a - 1.0 / x) - (x * x - a * a) / (6.0 * d),
    }
}

/// The same averaged over a uniform start in the shell.
fn mfpt_ball_uniform(dim: usize, start: f64, a: f64, r: f64, d: f64) -> f64 {
    let m = 4000;
    let (mut num, mut den) = (0.0, 0.0);
    for i in 0..m {
        let x = start + (r - start) * (i as f64 + 0.5) / m as f64;
        let w = x.powi(dim as i32 - 1);
        num += w * mfpt_ball(dim, x, a, r, d);
        den += w;
    }
    num / den
}

/// Discrete-time correction: an absorbing wall seen only at the steps acts as one set back by this
/// fraction of the step width.
const SETBACK: f64 = 0.5826;

fn c30_mfpt(s: &mut Src, ctx: &mut Ctx) -> R {
    let scale = s.f64_log(1e-2, 1e2);
    let d = s.f64_log(1e-2, 1e2);
    let dim = s.size(1, 3);
    let sigma = scale * s.f64(0.015, 0.025);
    let dt = sigma * sigma / (2.0 * d);
    let a = scale * s.f64(0.3, 0.6);
    let ae = a - SETBACK * sigma;
    let kind = s.size(0, 3);
    let n = 4000usize;
    let seed = rng_seed_of(s);
    let uniform = s.bool();
    let (y, centre, start, want) = {
        let off = if dim == 1 && s.bool() { s.f64(-0.35, 0.35) * scale } else { 0.0 };
        if dim == 1 && s.bool() {
            let bc = if s.bool() { Bc::Periodic } else { Bc::Reflect };
            let y = Sys::Cubic { bc: bc.clone(), l: scale, dim: 1 };
            let (w1, w2) = match bc {
                Bc::Periodic => (scale - a, scale - a),
                _ => (scale + off - a, scale - off - a),
            };
            // interval of width w with one absorbing end, seen from the start region
            let q = |w: f64, e: f64| {
                // mean over a uniform start in [0,w] of the time to leave through the end set back by e
                let we = w + e;
                // T(z) = (we*z - z^2/2)/d, z the distance to the effective wall, z in [e, we]
                ((we * we * we / 2.0 - we * we * we / 6.0) - (we * e * e / 2.0 - e * e * e / 6.0)) / w / d
            };
            let e = SETBACK * sigma;
            if uniform {
                let t = (w1 * q(w1, e) + w2 * q(w2, e)) / (w1 + w2);
                (y, vec![off], None, t)
            } else {
                let z = s.f64(0.2, 0.9) * w2;
                let we = w2 + e;
                let t = (we * (z + e) - (z + e) * (z + e) / 2.0) / d;
                let x = off + a + z;
                let x = if bc == Bc::Periodic && x > scale { x - 2.0 * scale } else { x };
                (y, vec![off], Some(vec![x]), t)
            }
        } else {
            let y = if s.bool() { Sys::Circ { r: scale, dim } } else { Sys::Cyl { d: dim, r: scale, l: scale * s.f64(0.3, 3.0), dim } };
            if uniform {
                (y, vec![0.0; dim], None, mfpt_ball_uniform(dim, a, ae, scale, d))
            } else {
                let x = a + s.f64(0.2, 0.9) * (scale - a);
                let mut p = vec![0.0; dim];
                let i = s.size(0, dim - 1);
                p[i] = s.signed(x);
                (y, vec![0.0; dim], Some(p), mfpt_ball(dim, x, ae, scale, d))
            }
        }
    };
    let expo = s.bool();
    ctx.note(|| format!("{} searchers of kind {} in {} target {:?} r={} start {:?} D={} dt={} {} seed {}", n, KINDS[kind], y.text(), centre, a, start, d, dt, if expo { "growing" } else { "constant" }, seed));
    ctx.nontrivial();
    ctx.class(match (&y, uniform) {
        (Sys::Cubic { bc: Bc::Periodic, .. }, _) => "1d periodic",
        (Sys::Cubic { .. }, _) => "1d reflecting",
        (_, true) => "ball, uniform start",
        (_, false) => "ball, fixed start",
    });
    let sys = y.build();
    let target = ContBulkTarget::new(pv(centre.clone()), a);
    let mut rng = rng_seed(seed);
    let mt = MoveType::Brownian(d);
    let mut times = Vec::with_capacity(n);
    let limit = 400.0 * scale * scale / d;
    let q = ag_par(s);
    ctx.note(|| format!("{:?}", q));
    let proto = mover(kind, &q, vec![0.0; dim], mt);
    let cs = ConstStep::new(dt).unwrap();
    let es = ExponentialStep::new(dt * 0.01, dt, 3).unwrap();
    let mut mv = pv(vec![0.0; dim]);
    for _ in 0..n {
        let mut p = match &start {
            Some(p) => pv(p.clone()),
            None => {
                // as the agents do
                ok!(ContPassiveIndepAgent::new_uniform(&*sys, &target, &mut rng, mt), "create", "").pos
            }
        };
        macro_rules! run {
            ($c:expr) => {{
                let mut fpt = f64::NAN;
                for (t0, h) in $c.into_diff() {
                    let time = t0 + h;
                    mv.clear();
                    ok!(proto.random_move_to_vec(&mut rng, h, &mut mv), "move", "");
                    ok!(sys.check_bc(&mut p, &mut mv), "bc", "{}", y.text());
                    if ok!(target.check_find(&p), "find", "") {
                        fpt = time;
                        break;
                    }
                    ensure!(time < limit, "never", "target not found within {} (mean {})", limit, want);
                }
                fpt
            }};
        }
        let t = if expo { run!(es) } else { run!(cs) };
        times.push(t);
    }
    let (m, v) = mean_var(&times);
    let tol = Z * (v / n as f64).sqrt() + 0.03 * want + 0.1 * want * (sigma / a);
    ctx.checked(1);
    ensure!((m - want).abs() < tol, "mean", "mean first-passage time {} of {} runs, closed form {} (allowed deviation {})", m, n, want, tol);
    Ok(())
}

fn c30_order(s: &mut Src, ctx: &mut Ctx) -> R {
    let l = s.f64_log(1e-1, 10.0);
    let d = s.f64_log(1e-1, 10.0);
    let n = s.size(2, 8);
    let a = l * s.f64(0.1, 0.4);
    let sigma = (l - a) * 0.02;
    let dt = sigma * sigma / (2.0 * d);
    let periodic = s.bool();
    let seed = rng_seed_of(s);
    let ens = 4000usize;
    ctx.note(|| format!("first of {} searchers, l={} a={} D={} dt={} periodic {} seed {}", n, l, a, d, dt, periodic, seed));
    ctx.nontrivial();
    // survival of a uniform start in an interval of width w absorbing at one end, reflecting at the other
    let w = l - a + SETBACK * sigma;
    let eps = SETBACK * sigma / w; // searchers start outside of the target, not up to the effective wall
    let surv = |t: f64| -> f64 {
        let mut x = 0.0;
        for k in 0..200 {
            let q = (2 * k + 1) as f64 * std::f64::consts::PI / 2.0;
            let e = q * q * d * t / (w * w);
            if e > 700.0 {
                break;
            }
            x += 2.0 / (q * q) * (q * eps).cos() / (1.0 - eps) * (-e).exp();
        }
        x
    };
    let (mut want, mut t) = (0.0, 0.0);
    // integrate on a grid growing from fine to coarse
    let mut h = 1e-6 * w * w / d;
    let mut f0 = 1.0f64;
    while t < 20.0 * w * w / d {
        let fm = surv(t + h / 2.0).powi(n as i32);
        let f1 = surv(t + h).powi(n as i32);
        want += h * (f0 + 4.0 * fm + f1) / 6.0;
        t += h;
        f0 = f1;
        h = (h * 1.05).min(0.01 * w * w / d);
    }
    let y = Sys::Cubic { bc: if periodic { Bc::Periodic } else { Bc::Reflect }, l, dim: 1 };
    let sys = y.build();
    let target = ContBulkTarget::new(pv(vec![0.0]), a);
    let mut rng = rng_seed(seed);
    let mut agents = Vec::new();
    for _ in 0..n {
        agents.push(ok!(ContPassiveIndepAgent::new_uniform(&*sys, &target, &mut rng, MoveType::Brownian(d)), "create", ""));
    }
    let mut list = LinkedList::from(agents);
    let mut mv = pv(vec![0.0]);
    let clock = ConstStep::new(dt).unwrap();
    let mut times = Vec::new();
    for _ in 0..ens {
        for x in list.contents.iter_mut() {
            ok!(x.renew_uniform(&*sys, &target, &mut rng), "renew", "");
        }
        ok!(list.connect_all(), "connect", "");
        'outer: for (t0, h) in clock.into_diff() {
            let time = t0 + h;
            list.into_iter();
            let mut met = 0;
            while let Some(x) = list.get_mut() {
                met += 1;
                mv.clear();
                ok!(x.random_move_to_vec(&mut rng, h, &mut mv), "move", "");
                ok!(sys.check_bc(&mut x.pos, &mut mv), "bc", "");
                if ok!(target.check_find(&x.pos), "find", "") {
                    times.push(time);
                    break 'outer;
                }
            }
            ensure!(met == n, "met", "{} of {} searchers moved", met, n);
            ensure!(time < 1000.0 * w * w / d, "never", "no searcher finds the target");
        }
    }
    let (m, v) = mean_var(&times);
    // within one step the searchers are looked at one after the other
    let tol = Z * (v / ens as f64).sqrt() + 0.03 * want + 2.0 * dt;
    ctx.checked(1);
    ensure!((m - want).abs() < tol, "mean", "mean of {} first times {}, expected {} (allowed deviation {})", ens, m, want, tol);
    Ok(())
}

// ---------------------------------------------------------------- coalescence

fn c30_merge(s: &mut Src, ctx: &mut Ctx) -> R {
    let y = system(s, 3);
    let dim = y.dim();
    let sys = y.build();
    let small = match &y {
        Sys::Circ { r, .. } => *r,
        Sys::Cubic { l, .. } => *l,
        Sys::Cyl { d, r, l, dim } => if *d == 0 { *l } else if d == dim { *r } else { r.min(*l) },
    };
    let n = s.size(2, 12);
    let radius = small * s.f64(0.01, 0.4);
    let alpha = *s.pick(&[0.0, 0.5, 1.0, 1.0 / 3.0, 2.0]);
    let d = s.f64_log(1e-2, 1e2);
    let sd = small * s.f64(0.01, 0.2);
    let dt = sd * sd / (2.0 * d);
    let steps = s.size(1, 40);
    let seed = rng_seed_of(s);
    let in_place = s.bool();
    ctx.note(|| format!("{} particles of radius {} alpha {} D={} dt={} in {} {} steps in place {} seed {}", n, radius, alpha, d, dt, y.text(), steps, in_place, seed));
    let target = ContBulkTarget::new(pv(vec![0.0; dim]), 0.0);
    let mut rng = rng_seed(seed);
    let mut agents = Vec::new();
    for _ in 0..n {
        agents.push(ok!(ContPassiveMergeAgent::new_uniform(&*sys, &target, &mut rng, MoveType::Brownian(d), radius, alpha), "create", ""));
    }
    // model: position, size, live
    let mut model: Vec<(Vec<f64>, usize, bool)> = agents.iter().map(|a| (a.pos.coordinate.clone(), 1usize, true)).collect();
    let mut list = LinkedList::from(agents);
    let mut mrng = rng.clone();
    let mut merges = 0usize;
    let mut mv = pv(vec![0.0; dim]);
    for step in 0..steps {
        list.into_iter();
        let mut order = Vec::new();
        while let Some((i, a)) = list.enumerate_mut() {
            order.push(i);
            if in_place {
                mv.clear();
                ok!(a.random_move_to_vec(&mut rng, dt, &mut mv), "move", "");
                ok!(sys.check_bc(&mut a.pos, &mut mv), "bc", "{}", y.text());
            } else {
                let mut m = ok!(a.random_move(&mut rng, dt), "move", "");
                ok!(sys.check_bc(&mut a.pos, &mut m), "bc", "{}", y.text());
            }
        }
        let live: Vec<usize> = (0..n).filter(|&i| model[i].2).collect();
        ensure!(order == live, "order", "step {}: moved {:?}, live clusters {:?}", step, order, live);
        for &i in &live {
            let dc = d * (model[i].1 as f64).powf(-alpha);
            let g = get_gaussian_vec(&mut mrng, dim);
            let dp: Vec<f64> = g.coordinate.iter().map(|x| x * (2.0 * dc * dt).sqrt()).collect();
            let q: Vec<f64> = (0..dim).map(|k| model[i].0[k] + dp[k]).collect();
            let (end, near) = y.fold(&q);
            if near {
                return Err(Stop::Discard);
            }
            let got = list.contents[i].pos.coordinate.clone();
            ctx.checked(1);
            match end {
                Some(e) => {
                    ensure!(vclose(&e, &got, 1e-9, 1e-9 * y.scale()), "position", "step {} cluster {} of size {}: at {:?}, model {:?}", step, i, model[i].1, got, e);
                }
                None => return Err(Stop::Discard),
            }
            model[i].0 = got;
        }
        // merge touching clusters
        list.into_double_iter();
        let mut seen = Vec::new();
        let mut did: Vec<(usize, usize)> = Vec::new();
        while let Some((i, a, j, b)) = list.enumerate_double() {
            seen.push((i, j));
            let r = ok!(a.mutual_distance(b), "distance", "");
            if r < 2.0 * radius {
                did.push((i, j));
                ok!(list.merge(i, j), "merge", "{} {}", i, j);
                merges += 1;
            }
        }
        // model of the same sweep
        let mut want = Vec::new();
        let mut wdid = Vec::new();
        for i in 0..n {
            if !model[i].2 {
                continue;
            }
            for j in i + 1..n {
                if !model[j].2 {
                    continue;
                }
                want.push((i, j));
                let r = norm(&(0..dim).map(|k| model[i].0[k] - model[j].0[k]).collect::<Vec<_>>());
                if (r - 2.0 * radius).abs() < 1e-12 * radius {
                    return Err(Stop::Discard);
                }
                if r < 2.0 * radius {
                    wdid.push((i, j));
                    model[i].1 += model[j].1;
                    model[j].2 = false;
                }
            }
        }
        ctx.checked(3 + n as u64);
        ensure!(did == wdid, "merged", "step {}: merged {:?}, model {:?}", step, did, wdid);
        ensure!(seen == want, "pairs", "step {}: pairs {:?}, model {:?}", step, seen, want);
        let mut total = 0;
        let mut count = 0;
        list.into_iter();
        while let Some((i, a)) = list.enumerate() {
            count += 1;
            total += a.size();
            let dc = d * (model[i].1 as f64).powf(-alpha);
            ensure!(model[i].2 && a.size() == model[i].1, "size", "step {} cluster {}: size {} model {:?}", step, i, a.size(), model[i]);
            match a.mtype {
                MoveType::Brownian(x) => ensure!(close(x, dc, 1e-9, 0.0), "diffusion", "cluster {} of size {}: D={} expected {}", i, model[i].1, x, dc),
                ref x => return fail("diffusion", format!("{:?}", x)),
            }
        }
        ensure!(total == n && count == n - merges, "conserved", "step {}: {} clusters of total size {} after {} merges of {} particles", step, count, total, merges, n);
    }
    if merges > 0 {
        ctx.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------- interacting agents

enum Pot {
    Exp(f64, f64), // range, strength
    Lj(f64, f64),  // size, strength
}
impl Pot {
    fn v(&self, r: f64) -> f64 {
        match self {
            Pot::Exp(g, s) => s * (-r / g).exp(),
            Pot::Lj(a, s) => {
                let q = (a / r).powi(6);
                4.0 * s * (q * q - q)
            }
        }
    }
    fn f(&self, r: f64) -> f64 {
        match self {
            Pot::Exp(g, s) => s / g * (-r / g).exp(),
            Pot::Lj(a, s) => {
                let q = (a / r).powi(6);
                24.0 * s / r * (2.0 * q * q - q)
            }
        }
    }
}

/// One sweep of the documented program: displacement of every agent from all pair forces.
macro_rules! sweep {
    ($list:ident, $moves:ident, $disp:ident, $dt:expr, $dim:expr) => {{
        $moves.clear();
        $list.into_double_iter();
        while let Some((i, a, j, b)) = $list.enumerate_double() {
            let r = ok!(a.mutual_displacement_to_vec(b, &mut $disp), "mutual", "");
            let f = a.force(r) * $dt;
            $disp.mut_scalar_mul(f);
            $moves.contents[i].mut_sub(&$disp);
            $moves.contents[j].mut_add(&$disp);
        }
    }};
}

fn far_system(s: &mut Src, dim: usize, size: f64) -> Sys {
    match s.size(0, 2) {
        0 => Sys::Circ { r: size, dim },
        1 => Sys::Cubic { bc: if s.bool() { Bc::Reflect } else { Bc::Periodic }, l: size, dim },
        _ => Sys::Cyl { d: s.size(1, dim), r: size, l: size, dim },
    }
}

fn c30_pair(s: &mut Src, ctx: &mut Ctx) -> R {
    let dim = s.size(1, 4);
    let g = s.f64_log(1e-2, 1e2);
    let st = s.f64_log(1e-2, 1e2);
    let lj = s.bool();
    let y = far_system(s, dim, 1000.0 * g);
    let sys = y.build();
    let c: Vec<f64> = (0..dim).map(|_| s.f64(-5.0, 5.0) * g).collect();
    let u = unit_vec(s, dim);
    let r0 = if lj { g * s.f64(1.02, 1.6) } else { g * s.f64(0.3, 3.0) };
    let neg = !lj && s.bool(); // attractive exponential pair
    let st = if neg { -st } else { st };
    let x1: Vec<f64> = (0..dim).map(|i| c[i] - u[i] * r0 / 2.0).collect();
    let x2: Vec<f64> = (0..dim).map(|i| c[i] + u[i] * r0 / 2.0).collect();
    let n = 800usize;
    let in_place = s.bool();
    ctx.note(|| format!("{} pair range {} strength {} at distance {} around {:?} direction {:?} in {}", if lj { "LJ" } else { "exp" }, g, st, r0, c, u, y.text()));
    ctx.class(if lj { "Lennard-Jones" } else if neg { "exponential attractive" } else { "exponential repulsive" });
    if dim > 1 {
        ctx.nontrivial();
    }
    let pot = if lj { Pot::Lj(g, st) } else { Pot::Exp(g, st) };
    // step such that the distance changes slowly, total time such that something happens
    let dt = if lj { 5e-4 * g * g / st } else { 0.002 * g * g / st.abs() };
    // an attractive pair must not pass through itself
    let n = if neg {
        let tend = ((r0 / g).exp() - (0.1f64).exp()) * g * g / (2.0 * st.abs());
        ((0.7 * tend / dt) as usize).min(n)
    } else {
        n
    };
    macro_rules! go {
        ($new:expr) => {{
            let mut list = LinkedList::from(vec![$new(x1.clone()), $new(x2.clone())]);
            let mut moves = LinkedList::from(vec![pv(vec![0.0; dim]); 2]);
            let mut disp = pv(vec![0.0; dim]);
            let mut rng = rng_seed(1);
            for _ in 0..n {
                sweep!(list, moves, disp, dt, dim);
                list.into_iter();
                while let Some((i, a)) = list.enumerate_mut() {
                    let mut m = moves.contents[i].clone();
                    if in_place {
                        // no noise: adds a displacement of width zero
                        let mut z = pv(vec![0.0; dim]);
                        ok!(a.random_move_to_vec(&mut rng, dt, &mut z), "move", "");
                        m.mut_add(&z);
                    }
                    ok!(sys.check_bc(&mut a.pos, &mut m), "bc", "{}", y.text());
                }
            }
            (list.contents[0].pos.coordinate.clone(), list.contents[1].pos.coordinate.clone())
        }};
    }
    let mt = MoveType::Brownian(0.0);
    let (p, q) = if lj {
        go!(|x: Vec<f64>| ContPassiveLJAgent::new(InteractType::LennardJones(g), mt, pv(x), st))
    } else {
        go!(|x: Vec<f64>| ContPassiveExpAgent::new(InteractType::Exponential(dim, g), mt, pv(x), st))
    };
    let sep: Vec<f64> = (0..dim).map(|i| q[i] - p[i]).collect();
    let r = norm(&sep);
    ctx.checked(3);
    for i in 0..dim {
        let m = (p[i] + q[i]) / 2.0;
        ensure!((m - c[i]).abs() < 1e-9 * g, "centre", "centre of the pair moved from {:?} to {:?} {:?}", c, p, q);
    }
    if n > 0 {
        let cosang: f64 = (0..dim).map(|i| sep[i] / r * u[i]).sum();
        ensure!(cosang > 1.0 - 1e-9, "direction", "pair turned: {:?} -> {:?}", u, sep);
    }
    let t = n as f64 * dt;
    let want = match pot {
        Pot::Exp(..) => g * ((r0 / g).exp() + 2.0 * st * t / (g * g)).ln(),
        Pot::Lj(..) => {
            // independent integration with a much finer step
            let mut x = r0;
            let h = t / (n as f64 * 4.0);
            for _ in 0..n * 4 {
                let k1 = 2.0 * pot.f(x);
                let k2 = 2.0 * pot.f(x + h * k1 / 2.0);
                x += h * k2;
            }
            x
        }
    };
    let tol = 0.02 * (want - r0).abs() + 1e-9 * g + if lj { 1e-4 * g } else { 0.0 };
    ensure!((r - want).abs() < tol, "distance", "distance {} after time {}, expected {} (from {})", r, t, want, r0);
    if lj {
        let rm = g * 2f64.powf(1.0 / 6.0);
        ensure!((r - rm).abs() < (r0 - rm).abs() + 1e-6 * g, "relax", "distance {} is further from the minimum {} than {}", r, rm, r0);
    }
    Ok(())
}

fn c30_descent(s: &mut Src, ctx: &mut Ctx) -> R {
    let dim = s.size(1, 3);
    let n = s.size(2, 8);
    let g = s.f64_log(1e-2, 1e2);
    let st = s.f64_log(1e-2, 1e2);
    let lj = s.bool();
    let y = far_system(s, dim, 1000.0 * g);
    let sys = y.build();
    // places at least 1.05 ranges apart
    let mut xs: Vec<Vec<f64>> = Vec::new();
    let mut tries = 0;
    while xs.len() < n && tries < 400 {
        tries += 1;
        let w = if dim == 1 { 10.0 } else { 3.0 };
        let x: Vec<f64> = (0..dim).map(|_| s.f64(-w, w) * g).collect();
        let lim = if lj { 1.05 } else { 0.05 };
        if xs.iter().all(|p| norm(&(0..dim).map(|i| p[i] - x[i]).collect::<Vec<_>>()) > lim * g) {
            xs.push(x);
        }
    }
    if xs.len() < 2 {
        return Err(Stop::Discard);
    }
    let n = xs.len();
    ctx.note(|| format!("{} {} agents range {} strength {} at {:?} in {}", n, if lj { "LJ" } else { "exp" }, g, st, xs, y.text()));
    ctx.class(if lj { "Lennard-Jones" } else { "exponential" });
    if n > 2 {
        ctx.nontrivial();
    }
    let dt = if lj { 2e-5 } else { 1e-2 / n as f64 } * g * g / st;
    let steps = 60usize;
    let pot = if lj { Pot::Lj(g, st) } else { Pot::Exp(g, st) };
    let energy = |v: &Vec<Vec<f64>>| -> f64 {
        let mut e = 0.0;
        for i in 0..v.len() {
            for j in 0..i {
                e += pot.v(norm(&(0..dim).map(|k| v[i][k] - v[j][k]).collect::<Vec<_>>()));
            }
        }
        e
    };
    macro_rules! go {
        ($new:expr) => {{
            let mut list = LinkedList::from(xs.iter().map(|x| $new(x.clone())).collect::<Vec<_>>());
            let mut moves = LinkedList::from(vec![pv(vec![0.0; dim]); n]);
            let mut disp = pv(vec![0.0; dim]);
            let mut cur = xs.clone();
            let mut e = energy(&cur);
            let e0 = e.abs() + st;
            for step in 0..steps {
                sweep!(list, moves, disp, dt, dim);
                // independent sum over pairs
                let mut want = cur.clone();
                for i in 0..n {
                    for j in 0..n {
                        if i != j {
                            let d: Vec<f64> = (0..dim).map(|k| cur[i][k] - cur[j][k]).collect();
                            let r = norm(&d);
                            for k in 0..dim {
                                want[i][k] += pot.f(r) * dt * d[k] / r;
                            }
                        }
                    }
                }
                // the agents' own potentials add up to the energy
                let mut ev = 0.0;
                list.into_double_iter();
                while let Some((a, b)) = list.get_double() {
                    ev += a.potential(ok!(a.mutual_distance(b), "distance", ""));
                }
                ctx.checked(3);
                ensure!(close(ev, e, 1e-9, 1e-9 * e0), "energy", "step {}: sum of pair potentials {} expected {}", step, ev, e);
                list.into_iter();
                while let Some((i, a)) = list.enumerate_mut() {
                    ok!(sys.check_bc(&mut a.pos, &mut moves.contents[i]), "bc", "{}", y.text());
                }
                for i in 0..n {
                    let p = &list.contents[i].pos.coordinate;
                    ensure!(vclose(p, &want[i], 1e-9, 1e-9 * g), "motion", "step {} agent {}: at {:?}, expected {:?}", step, i, p, want[i]);
                    cur[i] = p.clone();
                }
                let e2 = energy(&cur);
                ensure!(e2 <= e + 1e-9 * e0, "descent", "step {}: potential rises from {} to {}", step, e, e2);
                e = e2;
            }
            for k in 0..dim {
                let m0: f64 = xs.iter().map(|x| x[k]).sum::<f64>() / n as f64;
                let m1: f64 = cur.iter().map(|x| x[k]).sum::<f64>() / n as f64;
                ensure!((m0 - m1).abs() < 1e-9 * g, "centre", "centre of mass moved from {} to {}", m0, m1);
            }
        }};
    }
    let mt = MoveType::Brownian(1.0);
    if lj {
        go!(|x: Vec<f64>| ContPassiveLJAgent::new(InteractType::LennardJones(g), mt, pv(x), st))
    } else {
        go!(|x: Vec<f64>| ContPassiveExpAgent::new(InteractType::Exponential(dim, g), mt, pv(x), st))
    }
    Ok(())
}

fn c30_boltzmann(s: &mut Src, ctx: &mut Ctx) -> R {
    let g = s.f64_log(1e-1, 10.0);
    let d = s.f64_log(1e-1, 10.0); // kT in these units (mobility 1)
    let lj = s.bool();
    let l = g * s.f64(1.0, 2.0);
    let beta = if lj { s.f64(0.5, 2.0) } else { let b = s.f64(1.0, 3.0); s.signed(b) };
    let st = beta * d;
    let npairs = 4000usize;
    let steps = 40usize;
    let sd = g * if lj { 0.004 } else { 0.02 };
    let dt = sd * sd / (2.0 * d);
    let seed = rng_seed_of(s);
    ctx.note(|| format!("{} pairs of {} agents range {} strength {} kT {} in a box of half length {} seed {}", npairs, if lj { "LJ" } else { "exp" }, g, st, d, l, seed));
    ctx.class(if lj { "Lennard-Jones" } else { "exponential" });
    ctx.nontrivial();
    let pot = if lj { Pot::Lj(g, st) } else { Pot::Exp(g, st) };
    // rejection from the uniform law
    let vmin = if lj { -st } else { 0f64.min(st) };
    let mut own = SplitMix::new(seed as u64 ^ 0x5bd1e995);
    let mut unit = move || (own.next() >> 11) as f64 / (1u64 << 53) as f64;
    let obs = |r: f64| (-r / g).exp();
    let mut before = Vec::new();
    let mut after = Vec::new();
    let sys = ContCubicSystem::new(BoundaryCond::Reflection, l, 1);
    let mut rng = rng_seed(seed);
    let mut disp = pv(vec![0.0]);
    while before.len() < npairs {
        let (a, b) = (l * (2.0 * unit() - 1.0), l * (2.0 * unit() - 1.0));
        let r = (a - b).abs();
        if r == 0.0 || unit() >= (-(pot.v(r) - vmin) / d).exp() {
            continue;
        }
        before.push((obs(r), (a / l).powi(2) + (b / l).powi(2)));
        let mt = MoveType::Brownian(d);
        macro_rules! go {
            ($new:expr) => {{
                let mut p = $new(a);
                let mut q = $new(b);
                for _ in 0..steps {
                    let r = ok!(p.mutual_displacement_to_vec(&q, &mut disp), "mutual", "");
                    let f = p.force(r) * dt;
                    let (mut m1, mut m2) = (pv(vec![0.0]), pv(vec![0.0]));
                    ok!(p.random_move_to_vec(&mut rng, dt, &mut m1), "move", "");
                    ok!(q.random_move_to_vec(&mut rng, dt, &mut m2), "move", "");
                    disp.mut_scalar_mul(f);
                    m1.mut_sub(&disp);
                    m2.mut_add(&disp);
                    ok!(sys.check_bc(&mut p.pos, &mut m1), "bc", "");
                    ok!(sys.check_bc(&mut q.pos, &mut m2), "bc", "");
                }
                (p.pos.coordinate[0], q.pos.coordinate[0])
            }};
        }
        let (x, z) = if lj {
            go!(|x: f64| ContPassiveLJAgent::new(InteractType::LennardJones(g), mt, pv(vec![x]), st))
        } else {
            go!(|x: f64| ContPassiveExpAgent::new(InteractType::Exponential(1, g), mt, pv(vec![x]), st))
        };
        after.push((obs((x - z).abs()), (x / l).powi(2) + (z / l).powi(2)));
    }
    for (k, name) in ["exp(-r/g)", "(x1^2+x2^2)/l^2"].iter().enumerate() {
        let f = |v: &Vec<(f64, f64)>| -> Vec<f64> { v.iter().map(|p| if k == 0 { p.0 } else { p.1 }).collect() };
        let (b, a) = (f(&before), f(&after));
        let diff: Vec<f64> = a.iter().zip(&b).map(|(x, y)| x - y).collect();
        let (m, v) = mean_var(&diff);
        let (mb, _) = mean_var(&b);
        let tol = Z * (v / npairs as f64).sqrt() + 0.01 * mb;
        ctx.checked(1);
        ensure!(m.abs() < tol, "stationary", "mean of {} changed by {} from {} (allowed {})", name, m, mb, tol);
    }
    Ok(())
}

// ---------------------------------------------------------------- program and analysis together

construct_dataset!(PhysData, ContCubicSystem, sys_arg, ContCubicSystemArguments,
                [sys_size, f64, dim, usize ];
                ContBulkTarget, target_arg, ContBulkTargetArguments,
                [target_size, f64];
                ContPassiveIndepAgent, agent_arg, ContPassiveIndepAgentArguments,
                [num_agent, usize];
                ExponentialStep, time_arg, ExponentialStepArguments,
                [dt_min, f64, dt_max, f64, length, usize, tmax, f64];
                {VariableSimulation, sim_arg, VariableSimulationArguments,
                [idx_set, usize]});

/// The documented program with given arguments; returns what it wrote.
fn program(args: Vec<String>, out: &mut Vec<f64>) -> Result<(), Error> {
    setup_simulation_fixed!(args, 15, 1, TimeAnalysis, "PHYS", dataset, PhysData,
        sys_arg, ContCubicSystem, target_arg, ContBulkTarget,
        agent_arg, ContPassiveIndepAgent,
        time_arg, ExponentialStep, sim_arg, VariableSimulation);
    let output_dir = sim_arg.output_dir.clone();
    let num_agent = agent_arg.num_agent;
    let dim = sys_arg.dim;
    let mut rng: Pcg64 = rng_seed(sim_arg.seed);
    export_simulation_info!(dataset, output_dir, writer, WIDTH, "PHYS",
                            ContCubicSystem, sys, sys_arg,
                            ContBulkTarget, target, target_arg,
                            ContPassiveIndepAgent, vec_agents, agent_arg,
                            ExponentialStep, timeiter, time_arg,
                            VariableSimulation, simulation, sim_arg);
    let mut list = LinkedList::from(vec_agents);
    let mut single = Position::<f64>::new(vec![0f64; dim]);
    if list.contents.len() != num_agent {
        panic!("{} agents made instead of {}", list.contents.len(), num_agent);
    }
    for _ in 0..simulation.num_ensemble {
        let mut fpt = 0f64;
        for a in &mut list.contents {
            a.renew_uniform(&sys, &target, &mut rng)?;
        }
        list.connect_all()?;
        'outer: for (time, dt) in timeiter.into_diff() {
            fpt = time + dt;
            list.into_iter();
            while let Some(a) = list.get_mut() {
                single.clear();
                a.random_move_to_vec(&mut rng, dt, &mut single)?;
                sys.check_bc(&mut a.pos, &mut single)?;
                if target.check_find(&a.pos)? {
                    break 'outer;
                }
            }
        }
        write!(&mut writer, "{}\n", fpt).map_err(Error::make_error_io)?;
        out.push(fpt);
    }
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

fn c30_pipeline(s: &mut Src, ctx: &mut Ctx) -> R {
    let sc = Scratch::new(ctx);
    let dir = sc.path.join("data");
    let dirs = dir.to_str().unwrap().to_string();
    let dim = s.size(1, 3);
    let l = s.f64_log(0.5, 20.0);
    let size = l;
    let a = l * s.f64(0.3, 0.8);
    let d = s.f64_log(1e-1, 1e1);
    let sets = s.size(1, 3);
    let groups = s.size(1, 2);
    let bc = if s.bool() { "Reflective" } else { "Periodic" };
    let length = s.size(10, 20); // fewer are refused in arguments
    let dt = (0.1 * l).powi(2) / (2.0 * d);
    let tmax = dt * s.f64(20.0, 4000.0);
    let mut all: Vec<(usize, Vec<f64>)> = Vec::new();
    ctx.note(|| format!("dim {} l {} target {} D {} {} files in {} groups tmax {}", dim, l, a, d, sets, groups, tmax));
    if sets > 1 {
        ctx.nontrivial();
    }
    for gidx in 0..groups {
        let num = 1 + gidx * 2;
        for k in 0..sets {
            let ne = s.size(1, 12);
            let seed = rng_seed_of(s);
            let zeros = vec!["0"; dim].join(",");
            let args: Vec<String> = vec!["prog".to_string(), bc.to_string(), format!("{}", l), format!("{}", dim), zeros, format!("{}", a),
                format!("{}", d), "Uniform".to_string(), format!("{}", num),
                format!("{}", dt * 0.01), format!("{}", dt), format!("{}", length), format!("{}", tmax),
                format!("{}", ne), format!("{}", k), format!("{}", seed), dirs.clone()];
            let mut out = Vec::new();
            ok!(program(args, &mut out), "program", "set {}", k);
            ensure!(out.len() == ne, "count", "{} samples of {}", out.len(), ne);
            match all.iter_mut().find(|x| x.0 == num) {
                Some(x) => x.1.extend(out),
                None => all.push((num, out)),
            }
        }
    }
    let files = std::fs::read_dir(&dir).map(|r| r.count()).unwrap_or(0);
    ensure!(files == groups * sets, "files", "{} files for {} runs", files, groups * sets);
    // analyse through the same program
    let nbin = s.size(10, 40);
    let top = tmax * 1.1;
    let mut args: Vec<String> = vec!["prog".to_string(), "0".to_string(), format!("{}", top)];
    if s.bool() {
        args.push(format!("{}", nbin));
    } else {
        args.push(format!("{}", top / nbin as f64));
        args.push(format!("{}", 1.5));
    }
    args.push(dirs.clone());
    let mut none = Vec::new();
    ok!(program(args.clone(), &mut none), "analysis", "{:?}", args);
    let mut rows: Vec<(usize, usize, f64, f64)> = Vec::new();
    let mut results = 0;
    for e in std::fs::read_dir(&dir).unwrap().flatten() {
        let f = e.path().join("brief_result.dat");
        if let Ok(t) = std::fs::read_to_string(&f) {
            results += 1;
            for l in t.lines().skip(1) {
                let v: Vec<f64> = l.split_whitespace().filter_map(|w| w.parse().ok()).collect();
                // sys_size dim target_size num_agent dt_min dt_max length tmax | samples mean deviation
                ensure!(v.len() == 11, "row", "summary row {:?}", l);
                ensure!(v[0] == size && v[1] == dim as f64 && v[2] == a && v[6] == length as f64 && v[7] == tmax, "parameters", "summary row {:?}", l);
                rows.push((v[3] as usize, v[8] as usize, v[9], v[10]));
            }
        }
    }
    ensure!(results == 1, "results", "{} summaries in {}", results, dirs);
    ctx.checked(all.len() as u64);
    ensure!(rows.len() == all.len(), "groups", "{} rows in the summary for {} parameter sets", rows.len(), all.len());
    for (num, v) in &all {
        let (m, var) = mean_var(v);
        let sd = var.sqrt();
        let pos = rows.iter().position(|r| r.0 == *num);
        ensure!(pos.is_some(), "summary", "no row for {} agents in {:?}", num, rows);
        let r = rows[pos.unwrap()];
        let big = v.iter().fold(0.0f64, |a, x| a.max(x.abs()));
        ensure!(r.1 == v.len() && close(r.2, m, 1e-9, 0.0) && (r.3 - sd).abs() <= 1e-6 * big, "summary", "{} agents: {} samples of mean {} deviation {}, summary says {:?}", num, v.len(), m, sd, r);
        rows.remove(pos.unwrap());
    }
    Ok(())
}

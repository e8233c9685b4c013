//! C06, C07, C08, C10, C11 and the agent and target parts of C20 and C29.

use crate::gen::*;
use crate::p_random::{test_normal, test_uniform, Tails};
use crate::pbt::*;
use crate::stat::*;
use crate::{ensure, ok};
use moledyn::prelude::*;
use moledyn::random_mod::get_uniform;

pub fn checks() -> Vec<Check> {
    vec![
        Check { prop: "C06", name: "c06_start", quick: 1200000, thorough: 72000000, shrink_budget: 2000, f: c06_start,
            rule: "agents of each kind created uniformly, or renewed 1..5 times after use in another dimension, at another place, from arguments or merged, in a system of dimension 1..4 with a target anywhere in it; non-trivial = renewal of an agent used before" },
        Check { prop: "C06", name: "c06_uniform", quick: 10000, thorough: 600000, shrink_budget: 20, f: c06_uniform,
            rule: "8000 creations or renewals in one system with a concentric target: radial law of the allowed region, balance of every coordinate, correlations; non-trivial = every case" },
        Check { prop: "C06", name: "c06_tail", quick: 64, thorough: 3200, shrink_budget: 4, f: c06_tail,
            rule: "1 million creations or renewals in one system of dimension 1..3 with a target somewhere in it: number of places next to the walls and next to the rim of the target against the exact law; non-trivial = every case" },
        Check { prop: "C07", name: "c07_find", quick: 3000000, thorough: 180000000, shrink_budget: 2000, f: c07_find,
            rule: "target of generated place and radius, searcher at a distance from a relative 1e-9 to several radii off, dimension 1..8; non-trivial = within 1 percent of the radius" },
        Check { prop: "C07", name: "c07_exact", quick: 2000000, thorough: 120000000, shrink_budget: 2000, f: c07_exact,
            rule: "dyadic centres and offsets along axes or 3-4-5 triangles, where the distance is exact, including exactly the radius; non-trivial = distance equal to the radius" },
        Check { prop: "C08", name: "c08_dist", quick: 12000, thorough: 720000, shrink_budget: 20, f: c08_dist,
            rule: "20000/dim displacements of one agent (kind, D, dt, dimension 1..5, form): normal law with variance 2 D dt, correlations between directions and successive steps; non-trivial = every case" },
        Check { prop: "C08", name: "c08_forms", quick: 3000000, thorough: 180000000, shrink_budget: 2000, f: c08_forms,
            rule: "one displacement in both forms over generated contents, scaling between two (D, dt), unsupported motion; non-trivial = non-zero old contents" },
        Check { prop: "C08", name: "c08_tail", quick: 120, thorough: 6000, shrink_budget: 4, f: c08_tail,
            rule: "8 million displacement components of one agent from one seed: number of extreme and of tiny displacements in either direction against the normal law; non-trivial = every case" },
        Check { prop: "C10", name: "c10_force", quick: 3000000, thorough: 180000000, shrink_budget: 2000, f: c10_force,
            rule: "agent made by constructor, arguments, uniform creation, copy or renewal (also into another dimension); potential and force at 8 distances against the formulas and the difference quotient; non-trivial = made otherwise than by the constructor" },
        Check { prop: "C11", name: "c11_mutual", quick: 3000000, thorough: 180000000, shrink_budget: 2000, f: c11_mutual,
            rule: "pairs of agents of each kind and dimension 1..8, near and far, all queries and both orders; non-trivial = dimension 2 or more" },
        Check { prop: "C20", name: "c20_agents", quick: 1500000, thorough: 90000000, shrink_budget: 2000, f: c20_agents,
            rule: "valid and inconsistent agent parameters through constructor, uniform creation and arguments; non-trivial = inconsistent parameters" },
        Check { prop: "C29", name: "c29_agents", quick: 2000000, thorough: 120000000, shrink_budget: 2000, f: c29_agents,
            rule: "agent and target operations with partners, vectors or targets of another dimension 0..9; non-trivial = every case" },
    ]
}

// ---------------------------------------------------------------- C06

fn small_scale(y: &Sys) -> f64 {
    match y {
        Sys::Circ { r, .. } => *r,
        Sys::Cubic { l, .. } => *l,
        Sys::Cyl { d, r, l, dim } => if *d == 0 { *l } else if d == dim { *r } else { r.min(*l) },
    }
}

fn c06_start(s: &mut Src, ctx: &mut Ctx) -> R {
    let y = system(s, 4);
    let dim = y.dim();
    let sys = y.build();
    let centre = if s.bool() { y.point(s) } else { vec![0.0; dim] };
    let mut rad = small_scale(&y) * s.f64(0.0, 0.5);
    if s.chance(1, 100) {
        // a target that covers all of the domain but about 1/16 to 1/512 of it
        let mut g = SplitMix::new(s.draw(u64::MAX));
        let k = s.size(2, 64);
        let mut far: Vec<f64> = (0..1024).map(|_| norm(&y.uniform(&mut g).iter().zip(&centre).map(|(a, b)| a - b).collect::<Vec<_>>())).collect();
        far.sort_by(|a, b| b.partial_cmp(a).unwrap());
        rad = far[k];
        ctx.class("target covers most of the domain");
    }
    let target = ContBulkTarget::new(pv(centre.clone()), rad);
    let seed = rng_seed_of(s);
    let mut rng = rng_seed(seed);
    let kind = s.size(0, 3);
    let how = s.size(0, 4);
    let times = s.size(1, 5);
    let odim = s.size(1, 5);
    let par = ag_par(s);
    let d0 = if s.chance(1, 4) { par.d } else { s.f64_log(1e-3, 1e3) };
    let a0 = if kind == 1 { par.alpha } else { par.strength };
    let g0 = if kind == 1 { par.rad } else { par.gamma };
    let mt = MoveType::Brownian(d0);
    let merges: Vec<usize> = (0..s.size(0, 4)).map(|_| s.size(1, 5)).collect();
    ctx.note(|| format!("{} target {:?} r={} seed {} kind {} how {} other dim {} D {} {:?} merges {:?}", y.text(), centre, rad, seed, kind, how, odim, d0, par, merges));
    ctx.class(["indep", "merge", "exp", "lj"][kind]);
    ctx.class(["new_uniform", "renew same dim", "renew other dim", "renew after arguments", "renew after uniform elsewhere"][how]);
    if how > 0 {
        ctx.nontrivial();
    }
    // 'elsewhere' system for how == 4
    let y2 = system_dim(s, odim);
    let t2 = ContBulkTarget::new(pv(vec![0.0; odim]), 0.1 * small_scale(&y2));
    let start = match how {
        1 => y.point(s),
        _ => (0..odim).map(|_| s.f64(-5.0, 5.0)).collect(),
    };
    let spec = s.bool();
    let itype_text = if spec { format!("{}", pv(start.clone())).replace(' ', "").replace('(', "").replace(')', "") } else { "Uniform".to_string() };
    macro_rules! place_ok {
        ($pos:expr, $d:expr, $when:expr) => {{
            let p: &P = &$pos;
            ctx.checked(4);
            ensure!(p.coordinate.len() == dim, "dim", "{}: {} position {:?} in dimension {}", y.text(), $when, p.coordinate, dim);
            ensure!($d == dim, "agent-dim", "{}: {} agent says dimension {}", y.text(), $when, $d);
            ensure!(y.inside_tol(&p.coordinate, 1e-12), "outside", "{}: {} position {:?}", y.text(), $when, p.coordinate);
            let dist = norm(&p.coordinate.iter().zip(&centre).map(|(a, b)| a - b).collect::<Vec<_>>());
            ensure!(dist >= rad * (1.0 - 1e-12), "on-target", "{}: {} position {:?} is on the target at {:?} of radius {}", y.text(), $when, p.coordinate, centre, rad);
        }};
    }
    macro_rules! drive {
        ($ty:ident, $args:expr, $uni:expr, $new:expr, $dimf:ident, $use:expr, $law:expr) => {{
            if how == 0 {
                let a = ok!($uni(&*sys, &target, &mut rng, dim), "create", "{}", y.text());
                place_ok!(a.pos, a.$dimf, "created");
                ensure!(a.mtype == mt, "params", "created with {:?} instead of {:?}", a.mtype, mt);
                ensure!(a.itype == InitType::Uniform, "params", "created with {:?}", a.itype);
            } else {
                let mut a = match how {
                    1 | 2 => $new(pv(start.clone())),
                    3 => {
                        let v: Vec<String> = $args;
                        let ar = ok!($ty::read_args_from_vec(&v), "args", "{:?}", v);
                        let mut l = $ty::convert_from(&ar);
                        ensure!(l.len() == 1, "count", "{} agents", l.len());
                        l.remove(0)
                    }
                    _ => ok!($uni(&*y2.build(), &t2, &mut rng, odim), "create", "{}", y2.text()),
                };
                let fresh = a.clone();
                for k in 0..times {
                    $use(&mut a)?;
                    if k == 0 && s.bool() {
                        // moved somewhere else in between
                        for x in a.pos.coordinate.iter_mut() {
                            *x = 17.0;
                        }
                    }
                    ok!(a.renew_uniform(&*sys, &target, &mut rng), "renew", "{}", y.text());
                    place_ok!(a.pos, a.$dimf, "renewed");
                    let mut b = a.clone();
                    let mut f = fresh.clone();
                    b.pos = f.pos.clone();
                    b.$dimf = f.$dimf;
                    let (mb, mf) = (b.mtype, f.mtype);
                    let same_d = match (mb, mf) {
                        (MoveType::Brownian(x), MoveType::Brownian(z)) => close(x, z, 1e-9, 0.0),
                        (x, z) => x == z,
                    };
                    b.mtype = mt;
                    f.mtype = mt;
                    $law(&mut b, &f)?;
                    ctx.checked(2);
                    ensure!(same_d, "diffusion", "{:?} before, {:?} after renewal", mf, mb);
                    ensure!(b == f, "params", "renewal changed {:?} to {:?}", f, b);
                }
            }
        }};
    }
    match kind {
        0 => drive!(
            ContPassiveIndepAgent,
            vec![format!("{}", d0), itype_text.clone(), "1".into()],
            |y: &dyn SystemCore<f64>, t: &ContBulkTarget, r: &mut Pcg64, _d: usize| ContPassiveIndepAgent::new_uniform(y, t, r, mt),
            |p: P| ContPassiveIndepAgent::new(mt, p),
            dim,
            |_a: &mut ContPassiveIndepAgent| -> R { Ok(()) },
            |_b: &mut ContPassiveIndepAgent, _f: &ContPassiveIndepAgent| -> R { Ok(()) }
        ),
        1 => drive!(
            ContPassiveMergeAgent,
            vec![format!("{}", d0), itype_text.clone(), format!("{}", g0), format!("{}", a0), "1".into()],
            |y: &dyn SystemCore<f64>, t: &ContBulkTarget, r: &mut Pcg64, _d: usize| ContPassiveMergeAgent::new_uniform(y, t, r, mt, g0, a0),
            |p: P| ContPassiveMergeAgent::new(mt, p, g0, a0),
            dim,
            |a: &mut ContPassiveMergeAgent| -> R {
                for &m in &merges {
                    ok!(a.add_size(m), "merge", "size {}", m);
                }
                Ok(())
            },
            |_b: &mut ContPassiveMergeAgent, _f: &ContPassiveMergeAgent| -> R { Ok(()) }
        ),
        2 => drive!(
            ContPassiveExpAgent,
            vec![format!("{}", d0), itype_text.clone(), format!("{}", g0), format!("{}", odim), format!("{}", a0), "1".into()],
            |y: &dyn SystemCore<f64>, t: &ContBulkTarget, r: &mut Pcg64, d: usize| ContPassiveExpAgent::new_uniform(y, t, r, InteractType::Exponential(d, g0), mt, a0),
            |p: P| ContPassiveExpAgent::new(InteractType::Exponential(p.dim(), g0), mt, p, a0),
            exp_dim,
            |_a: &mut ContPassiveExpAgent| -> R { Ok(()) },
            |b: &mut ContPassiveExpAgent, f: &ContPassiveExpAgent| -> R {
                // its interaction names the dimension, which follows the system
                ensure!(b.int_type == InteractType::Exponential(dim, g0), "interaction", "renewed in dimension {}: {:?}", dim, b.int_type);
                b.int_type = f.int_type;
                Ok(())
            }
        ),
        _ => drive!(
            ContPassiveLJAgent,
            vec![format!("{}", d0), itype_text.clone(), format!("{}", g0), format!("{}", a0), "1".into()],
            |y: &dyn SystemCore<f64>, t: &ContBulkTarget, r: &mut Pcg64, _d: usize| ContPassiveLJAgent::new_uniform(y, t, r, InteractType::LennardJones(g0), mt, a0),
            |p: P| ContPassiveLJAgent::new(InteractType::LennardJones(g0), mt, p, a0),
            dim,
            |_a: &mut ContPassiveLJAgent| -> R { Ok(()) },
            |_b: &mut ContPassiveLJAgent, _f: &ContPassiveLJAgent| -> R { Ok(()) }
        ),
    }
    Ok(())
}

fn c06_tail(s: &mut Src, ctx: &mut Ctx) -> R {
    let y = system(s, 3);
    let dim = y.dim();
    let sys = y.build();
    let (d, r, l) = match &y {
        Sys::Circ { r, dim } => (*dim, *r, *r),
        Sys::Cubic { l, .. } => (0, *l, *l),
        Sys::Cyl { d, r, l, .. } => (*d, *r, *l),
    };
    // wholly inside, away from the walls
    let c: Vec<f64> = {
        let p = y.point(s);
        p.iter().map(|x| 0.3 * x).collect()
    };
    let a = r.min(l) * s.f64(0.02, 0.4);
    let target = ContBulkTarget::new(pv(c.clone()), a);
    let seed = rng_seed_of(s);
    let mut rng = rng_seed(seed);
    let kind = s.size(0, 3);
    let renew = s.bool();
    let par = ag_par(s);
    ctx.note(|| format!("{} target {:?} radius {} seed {} kind {} renew {} {:?}", y.text(), c, a, seed, kind, renew, par));
    ctx.nontrivial();
    ctx.class(sys_class(&y));
    let mt = MoveType::Brownian(par.d);
    let n = 1_000_000;
    const E: f64 = 2e-3;
    let (mut wall, mut rim, mut face) = (0u64, 0u64, vec![[0u64; 2]; dim]);
    let mut see = |p: &[f64]| {
        if d > 0 && norm(&p[..d]) > r * (1.0 - E) {
            wall += 1;
        }
        for i in d..dim {
            if p[i] > l * (1.0 - E) {
                face[i][1] += 1;
            } else if p[i] < -l * (1.0 - E) {
                face[i][0] += 1;
            }
        }
        let mut q = 0.0;
        for i in 0..dim {
            q += (p[i] - c[i]) * (p[i] - c[i]);
        }
        if q < (a * (1.0 + E)) * (a * (1.0 + E)) {
            rim += 1;
        }
    };
    macro_rules! sample {
        ($new:expr) => {{
            let mut ag = ok!($new, "create", "{}", y.text());
            for _ in 0..n {
                if renew {
                    ok!(ag.renew_uniform(&*sys, &target, &mut rng), "renew", "{}", y.text());
                } else {
                    ag = ok!($new, "create", "{}", y.text());
                }
                see(&ag.pos.coordinate);
            }
        }};
    }
    match kind {
        0 => sample!(ContPassiveIndepAgent::new_uniform(&*sys, &target, &mut rng, mt)),
        1 => sample!(ContPassiveMergeAgent::new_uniform(&*sys, &target, &mut rng, mt, par.rad, par.alpha)),
        2 => sample!(ContPassiveExpAgent::new_uniform(&*sys, &target, &mut rng, InteractType::Exponential(dim, par.gamma), mt, par.strength)),
        _ => sample!(ContPassiveLJAgent::new_uniform(&*sys, &target, &mut rng, InteractType::LennardJones(par.gamma), mt, par.strength)),
    }
    let unit = |k: usize| [1.0, 2.0, PI, 4.0 / 3.0 * PI][k];
    let all = unit(d) * r.powi(d as i32) * (2.0 * l).powi((dim - d) as i32);
    let hole = unit(dim) * a.powi(dim as i32);
    let free = all - hole;
    let law = |k: u64, vol: f64, what: &str| -> R {
        let e = n as f64 * vol / free;
        ensure!(!poisson_rare(k, e), "edge", "{}: {} of {} places next to {} instead of {}", y.text(), k, n, what, e);
        Ok(())
    };
    ctx.checked(2 + 2 * (dim - d) as u64);
    if d > 0 {
        law(wall, all * (1.0 - (1.0 - E).powi(d as i32)), "the round wall")?;
    }
    for i in d..dim {
        law(face[i][0], all * E / 2.0, "a lower face")?;
        law(face[i][1], all * E / 2.0, "an upper face")?;
    }
    law(rim, hole * ((1.0 + E).powi(dim as i32) - 1.0), "the target")
}

fn c06_uniform(s: &mut Src, ctx: &mut Ctx) -> R {
    let dim = s.size(1, 3);
    let ball = s.bool();
    let l = s.f64_log(1e-2, 1e2);
    let y = if ball { Sys::Circ { r: l, dim } } else { Sys::Cubic { bc: if s.bool() { Bc::Reflect } else { Bc::Periodic }, l, dim } };
    let sys = y.build();
    let a = l * s.f64(0.05, 0.6);
    let target = ContBulkTarget::new(pv(vec![0.0; dim]), a);
    let seed = rng_seed_of(s);
    let mut rng = rng_seed(seed);
    let kind = s.size(0, 3);
    let renew = s.bool();
    ctx.note(|| format!("{} target radius {} seed {} kind {} renew {}", y.text(), a, seed, kind, renew));
    ctx.nontrivial();
    let par = ag_par(s);
    ctx.note(|| format!("{:?}", par));
    let mt = MoveType::Brownian(par.d);
    let n = 8000;
    let mut ps: Vec<Vec<f64>> = Vec::with_capacity(n);
    macro_rules! sample {
        ($new:expr) => {{
            let mut ag = ok!($new, "create", "{}", y.text());
            for _ in 0..n {
                if renew {
                    ok!(ag.renew_uniform(&*sys, &target, &mut rng), "renew", "{}", y.text());
                } else {
                    ag = ok!($new, "create", "{}", y.text());
                }
                ps.push(ag.pos.coordinate.clone());
            }
        }};
    }
    match kind {
        0 => sample!(ContPassiveIndepAgent::new_uniform(&*sys, &target, &mut rng, mt)),
        1 => sample!(ContPassiveMergeAgent::new_uniform(&*sys, &target, &mut rng, mt, par.rad, par.alpha)),
        2 => sample!(ContPassiveExpAgent::new_uniform(&*sys, &target, &mut rng, InteractType::Exponential(dim, par.gamma), mt, par.strength)),
        _ => sample!(ContPassiveLJAgent::new_uniform(&*sys, &target, &mut rng, InteractType::LennardJones(par.gamma), mt, par.strength)),
    }
    let d = dim as i32;
    let u: Vec<f64> = if ball {
        ps.iter().map(|p| (norm(p).powi(d) - a.powi(d)) / (l.powi(d) - a.powi(d))).collect()
    } else {
        // outside of the box around the target the law of the largest coordinate is known
        ps.iter()
            .map(|p| p.iter().fold(0.0f64, |m, x| m.max(x.abs())))
            .filter(|m| *m > a)
            .map(|m| (m.powi(d) - a.powi(d)) / (l.powi(d) - a.powi(d)))
            .collect()
    };
    ctx.checked(1 + dim as u64);
    test_uniform(&u, &format!("{} target radius {}: radial law", y.text(), a))?;
    if !ball {
        // share of the box around the target: box minus ball over all allowed places
        let vball = match dim {
            1 => 2.0 * a,
            2 => PI * a * a,
            _ => 4.0 / 3.0 * PI * a * a * a,
        };
        let p = ((2.0 * l).powi(d) - (2.0 * a).powi(d)) / ((2.0 * l).powi(d) - vball);
        let z = (u.len() as f64 - n as f64 * p) / (n as f64 * p * (1.0 - p)).max(1e-9).sqrt();
        ensure!(dim == 1 || z.abs() < Z, "share", "{}: {} of {} places outside of the box around the target, expected share {} (z={:.1})", y.text(), u.len(), n, p, z);
    }
    for i in 0..dim {
        let c: Vec<f64> = ps.iter().map(|p| p[i]).collect();
        let (m, v) = mean_var(&c);
        let z = m / (v / n as f64).sqrt();
        ensure!(z.abs() < Z, "mean", "{}: mean of coordinate {} is {} (z={:.1})", y.text(), i, m, z);
        let z = corr_z(&c[..n - 1], &c[1..]);
        ensure!(z.abs() < Z, "lag", "{}: successive places are correlated (z={:.1})", y.text(), z);
        for j in 0..i {
            let e: Vec<f64> = ps.iter().map(|p| p[j]).collect();
            let z = corr_z(&c, &e);
            ensure!(z.abs() < Z, "corr", "{}: coordinates are correlated (z={:.1})", y.text(), z);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C07

fn make_target(s: &mut Src, c: &[f64], r: f64) -> Result<ContBulkTarget, Stop> {
    if s.chance(1, 4) && !c.is_empty() {
        let txt = c.iter().map(|x| format!("{}", x)).collect::<Vec<_>>().join(if s.bool() { ":" } else { "," });
        let v = vec![txt, format!("{}", r)];
        let a = ok!(ContBulkTarget::read_args_from_vec(&v), "args", "{:?}", v);
        Ok(ContBulkTarget::convert_from(&a))
    } else {
        Ok(ContBulkTarget::new(pv(c.to_vec()), r))
    }
}

fn c07_find(s: &mut Src, ctx: &mut Ctx) -> R {
    let dim = s.wide(1, 8, 24);
    let r = s.f64_log(1e-6, 1e3);
    let off = r * s.f64_log(1e-2, 1e3);
    let c: Vec<f64> = (0..dim).map(|_| off * s.f64(-1.0, 1.0)).collect();
    let k = match s.weighted(&[4, 2, 1]) {
        0 => { let g = s.f64_log(1e-9, 0.99); 1.0 + s.signed(g) }
        1 => s.f64(0.0, 4.0),
        _ => 0.0,
    };
    let u = unit_vec(s, dim);
    let p: Vec<f64> = (0..dim).map(|i| c[i] + u[i] * r * k).collect();
    let t = make_target(s, &c, r)?;
    let d = norm(&p.iter().zip(&c).map(|(a, b)| a - b).collect::<Vec<_>>());
    ctx.note(|| format!("target {:?} r={} searcher {:?}", c, r, p));
    let pp = pv(p.clone());
    let got_d = ok!(t.distance(&pp), "err", "distance");
    ctx.checked(2);
    ensure!(close(got_d, d, 1e-12, 0.0), "distance", "target {:?} searcher {:?}: distance {} instead of {}", c, p, got_d, d);
    let found = ok!(t.check_find(&pp), "err", "check_find");
    if (d - r).abs() <= 1e-12 * r {
        ctx.class("within-rounding");
        return Ok(());
    }
    ctx.class(if d < r { "found" } else { "not found" });
    if (d / r - 1.0).abs() < 1e-2 {
        ctx.nontrivial();
    }
    ensure!(found == (d < r), "find", "target {:?} r={} searcher {:?} at distance {}: found {}", c, r, p, d, found);
    ensure!(pp.coordinate == p, "changed", "position changed by the query");
    Ok(())
}

fn c07_exact(s: &mut Src, ctx: &mut Ctx) -> R {
    let dim = s.wide(1, 6, 24);
    let unit = 2f64.powi(if s.chance(1, 4) { s.size(0, 600) as i32 - 300 } else { s.size(0, 8) as i32 - 4 });
    let c: Vec<f64> = (0..dim).map(|_| unit * (s.size(0, 32) as f64 - 16.0)).collect();
    let r = unit * 5.0 * s.size(0, 4) as f64;
    let k = s.size(0, 6) as f64;
    let dist = unit * 5.0 * k;
    let mut p = c.clone();
    let i = s.size(0, dim - 1);
    if dim >= 2 && s.bool() {
        let j = (i + 1 + s.size(0, dim - 2)) % dim;
        p[i] += s.signed(3.0 * unit * k);
        p[j] += s.signed(4.0 * unit * k);
    } else {
        p[i] += s.signed(dist);
    }
    ctx.note(|| format!("target {:?} r={} searcher {:?} distance {}", c, r, p, dist));
    let t = make_target(s, &c, r)?;
    let got_d = ok!(t.distance(&pv(p.clone())), "err", "distance");
    let found = ok!(t.check_find(&pv(p.clone())), "err", "check_find");
    ctx.checked(2);
    ensure!(got_d == dist, "distance", "target {:?} searcher {:?}: distance {} instead of {}", c, p, got_d, dist);
    ensure!(found == (dist < r), "find", "target {:?} r={} searcher {:?} at distance {}: found {}", c, r, p, dist, found);
    if dist == r {
        ctx.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------- C08

/// Runs $body with $a bound to an agent of the chosen kind.
macro_rules! with_agent {
    ($kind:expr, $q:expr, $mt:expr, $pos:expr, $a:ident => $body:block) => {
        match $kind {
            0 => { let $a = ContPassiveIndepAgent::new($mt, $pos); $body }
            1 => { let $a = ContPassiveMergeAgent::new($mt, $pos, $q.rad, $q.alpha); $body }
            2 => { let pp = $pos; let $a = ContPassiveExpAgent::new(InteractType::Exponential(pp.dim(), $q.gamma), $mt, pp, $q.strength); $body }
            _ => { let $a = ContPassiveLJAgent::new(InteractType::LennardJones($q.gamma), $mt, $pos, $q.strength); $body }
        }
    };
}

fn c08_dist(s: &mut Src, ctx: &mut Ctx) -> R {
    let dim = s.dim(1, 5, 24);
    let kind = s.size(0, 3);
    let d0 = s.f64_log(1e-6, 1e6);
    let dt = s.f64_log(1e-9, 1e3);
    let inplace = s.bool();
    let seed = rng_seed_of(s);
    let n = 20000 / dim;
    let par = ag_par(s);
    ctx.note(|| format!("kind {} dim {} D {} dt {} in place {} seed {} {:?}", kind, dim, d0, dt, inplace, seed, par));
    ctx.nontrivial();
    ctx.class(["indep", "merge", "exp", "lj"][kind]);
    let mut rng = rng_seed(seed);
    let mut cols: Vec<Vec<f64>> = vec![Vec::with_capacity(n); dim];
    with_agent!(kind, par, MoveType::Brownian(d0), pv(vec![0.5; dim]), a => {
        let mut v = pv(vec![0.0; dim]);
        for _ in 0..n {
            if inplace {
                v.coordinate.iter_mut().for_each(|x| *x = 0.0);
                ok!(a.random_move_to_vec(&mut rng, dt, &mut v), "err", "move");
            } else {
                v = ok!(a.random_move(&mut rng, dt), "err", "move");
                ensure!(v.coordinate.len() == dim, "dim", "displacement {:?} of dimension {}", v.coordinate, dim);
            }
            for i in 0..dim {
                cols[i].push(v.coordinate[i]);
            }
        }
    });
    let var = 2.0 * d0 * dt;
    ctx.checked(dim as u64 * 6);
    for i in 0..dim {
        test_normal(&cols[i], var, &format!("displacement {} of kind {} with D={} dt={}", i, kind, d0, dt))?;
        for j in 0..i {
            let z = corr_z(&cols[i], &cols[j]);
            ensure!(z.abs() < Z, "corr", "directions {} and {} are correlated (z={:.1})", i, j, z);
            let z = corr_z(&cols[i][1..], &cols[j][..n - 1]);
            ensure!(z.abs() < Z, "corr", "directions {} and {} of successive steps are correlated (z={:.1})", i, j, z);
            let sq = |c: &Vec<f64>| c.iter().map(|x| x * x / var).collect::<Vec<f64>>();
            let z = corr_z(&sq(&cols[i]), &sq(&cols[j]));
            ensure!(z.abs() < Z, "corr", "squares of directions {} and {} are correlated (z={:.1})", i, j, z);
        }
    }
    Ok(())
}

fn c08_tail(s: &mut Src, ctx: &mut Ctx) -> R {
    let dim = s.dim(1, 5, 24);
    let kind = s.size(0, 3);
    let d0 = s.f64_log(1e-6, 1e6);
    let dt = s.f64_log(1e-9, 1e3);
    let inplace = s.bool();
    let seed = rng_seed_of(s);
    let par = ag_par(s);
    ctx.note(|| format!("kind {} dim {} D {} dt {} in place {} seed {} {:?}", kind, dim, d0, dt, inplace, seed, par));
    ctx.nontrivial();
    ctx.class(["indep", "merge", "exp", "lj"][kind]);
    let mut rng = rng_seed(seed);
    let sd = (2.0 * d0 * dt).sqrt();
    let mut t = Tails::new(true);
    with_agent!(kind, par, MoveType::Brownian(d0), pv(vec![0.5; dim]), a => {
        let mut v = pv(vec![0.0; dim]);
        for _ in 0..8_000_000 / dim {
            if inplace {
                v.coordinate.iter_mut().for_each(|x| *x = 0.0);
                ok!(a.random_move_to_vec(&mut rng, dt, &mut v), "err", "move");
            } else {
                v = ok!(a.random_move(&mut rng, dt), "err", "move");
            }
            for x in &v.coordinate {
                t.add(x / sd);
            }
        }
    });
    ctx.checked(13);
    t.test(&format!("displacements of kind {} with D={} dt={}", kind, d0, dt))
}

fn c08_forms(s: &mut Src, ctx: &mut Ctx) -> R {
    let dim = s.wide(1, 8, 40);
    let kind = s.size(0, 3);
    let zero = s.chance(1, 20);
    let d0 = if zero { 0.0 } else { s.f64_log(1e-6, 1e6) };
    let dt = if zero && s.bool() { 0.0 } else { s.f64_log(1e-9, 1e3) };
    let (d1, dt1) = (s.f64_log(1e-6, 1e6), s.f64_log(1e-9, 1e3));
    // pairs with a common sum, product or ratio, swapped or otherwise related
    let related = !zero && s.chance(1, 4);
    let (d0, dt, d1, dt1) = if related {
        let (a, b) = ((1 + s.size(0, 15)) as f64 / 16.0, (1 + s.size(0, 15)) as f64 / 16.0);
        let (c, d) = match s.size(0, 5) {
            0 => (b, a),
            1 => (a / 2.0, b + a / 2.0),
            2 => (a * 2.0, b / 2.0),
            3 => (a * 4.0, b * 4.0),
            4 => (a + 1.0, b + 1.0),
            _ => if s.bool() { (a, b * 3.0) } else { (a * 3.0, b) },
        };
        (a, b, c, d)
    } else {
        (d0, dt, d1, dt1)
    };
    let seed = rng_seed_of(s);
    let sd = (2.0 * d0 * dt).sqrt();
    let old: Vec<f64> = (0..dim).map(|_| if s.chance(1, 3) { 0.0 } else { let m = sd.max(1e-9) * s.f64_log(1e-3, 1e3); s.signed(m) }).collect();
    let par = ag_par(s);
    ctx.note(|| format!("kind {} dim {} D {} dt {} old {:?} seed {} {:?}", kind, dim, d0, dt, old, seed, par));
    if old.iter().any(|x| *x != 0.0) {
        ctx.nontrivial();
    }
    if related {
        ctx.class("related parameters");
    }
    let levy = s.chance(1, 6);
    let base = rng_seed(seed);
    if levy {
        ctx.class("unsupported");
        let mut r = base.clone();
        let mut v = pv(old.clone());
        let (a, b) = with_agent!(kind, par, MoveType::Levy, pv(vec![0.5; dim]), a => {
            (a.random_move(&mut r, dt).is_err(), a.random_move_to_vec(&mut r, dt, &mut v).is_err())
        });
        ctx.checked(2);
        ensure!(a && b, "levy", "unsupported motion is not refused ({}, {})", a, b);
        ensure!(v.coordinate == old, "levy-changed", "refused displacement left {:?} of {:?}", v.coordinate, old);
        return Ok(());
    }
    let (mut r1, mut r2) = (base.clone(), base.clone());
    let mut v = pv(old.clone());
    let mv = with_agent!(kind, par, MoveType::Brownian(d0), pv(vec![0.5; dim]), a => {
        ok!(a.random_move_to_vec(&mut r2, dt, &mut v), "err", "in place");
        ok!(a.random_move(&mut r1, dt), "err", "move")
    });
    ctx.checked(3);
    ensure!(mv.coordinate.len() == dim && v.coordinate.len() == dim, "dim", "displacement {:?} / {:?}", mv.coordinate, v.coordinate);
    let want: Vec<f64> = old.iter().zip(&mv.coordinate).map(|(a, b)| a + b).collect();
    let big = old.iter().fold(0.0f64, |a, x| a.max(x.abs())) + 8.0 * sd;
    ensure!(vclose(&v.coordinate, &want, 1e-12, 1e-13 * big), "in-place", "over {:?}: {:?}, displacement {:?}", old, v.coordinate, mv.coordinate);
    ensure!(get_uniform(&mut r1) == get_uniform(&mut r2), "state", "the two forms leave different random states");
    // same random numbers, other D and dt
    let mut r3 = base.clone();
    let mv2 = with_agent!(kind, par, MoveType::Brownian(d1), pv(vec![-0.5; dim]), a => { ok!(a.random_move(&mut r3, dt1), "err", "move") });
    let ratio = ((d0 * dt) / (d1 * dt1)).sqrt();
    let scaled: Vec<f64> = mv2.coordinate.iter().map(|x| x * ratio).collect();
    ensure!(vclose(&mv.coordinate, &scaled, 1e-11, 1e-300), "scaling", "D={} dt={}: {:?}; D={} dt={}: {:?}", d0, dt, mv.coordinate, d1, dt1, mv2.coordinate);
    Ok(())
}

// ---------------------------------------------------------------- C10

fn c10_force(s: &mut Src, ctx: &mut Ctx) -> R {
    let dim = s.size(1, 4);
    let len = if s.chance(1, 4) { s.f64_log(1e-12, 1e12) } else { s.f64_log(1e-3, 1e3) };
    let strength = {
        let m = if s.chance(1, 4) { s.f64_log(1e-12, 1e12) } else { s.f64_log(1e-3, 1e3) };
        if s.chance(1, 30) { 0.0 } else if s.chance(1, 4) { -m } else { m }
    };
    let mt = MoveType::Brownian(if s.chance(1, 10) { 0.0 } else { s.f64_log(1e-3, 1e3) });
    let exp = s.bool();
    let way = s.size(0, 5);
    let y = system_dim(s, dim);
    let ydim2 = s.size(1, 4);
    let y2 = system_dim(s, ydim2);
    let mut rng = rng_seed(rng_seed_of(s));
    let far = |d: usize| ContBulkTarget::new(pv(vec![0.0; d]), 0.0);
    ctx.note(|| format!("{} length {} strength {} dim {} way {} {} {}", if exp { "exp" } else { "lj" }, len, strength, dim, way, y.text(), y2.text()));
    ctx.class(if exp { "exp" } else { "lj" });
    ctx.class(["new", "arguments", "uniform", "copy", "renewed", "renewed elsewhere"][way]);
    if way != 0 {
        ctx.nontrivial();
    }
    let xs: Vec<f64> = (0..8).map(|_| match s.weighted(&[4, 4, 1, 1]) { 0 => s.f64_log(0.2, 50.0), 1 => s.f64(0.5, 3.0), 2 => s.f64_log(1e-3, 500.0), _ => s.f64(300.0, 690.0) }).collect();
    let pos = pv(y.point(s));
    let ptxt = pos.coordinate.iter().map(|x| format!("{}", x)).collect::<Vec<_>>().join(",");
    let e = Error::make_error_syntax(ErrorCode::InvalidType);
    let vals: Vec<(f64, f64, f64, f64)>;
    macro_rules! eval {
        ($a:expr) => {{
            let a = $a;
            vals = xs.iter().map(|x| { let r = x * len; let h = r * 1e-5; (a.potential(r), a.force(r), a.potential(r + h), a.potential(r - h)) }).collect();
        }};
    }
    let _ = e;
    if exp {
        let it = InteractType::Exponential(dim, len);
        let new = || ContPassiveExpAgent::new(it, mt, pos.clone(), strength);
        match way {
            0 => eval!(new()),
            1 => {
                let v = vec![format!("{}", mt), if s.bool() { "Uniform".to_string() } else { ptxt.clone() }, format!("{}", len), format!("{}", dim), format!("{}", strength), "2".to_string()];
                let a = ok!(ContPassiveExpAgent::read_args_from_vec(&v), "args", "{:?}", v);
                let l = ContPassiveExpAgent::convert_from(&a);
                ensure!(l.len() == 2, "count", "{} agents", l.len());
                eval!(l[1].clone())
            }
            2 => eval!(ok!(ContPassiveExpAgent::new_uniform(&*y.build(), &far(dim), &mut rng, it, mt, strength), "uniform", "{}", y.text())),
            3 => { let a = new(); eval!(a.clone()) }
            4 => { let mut a = new(); ok!(a.renew_uniform(&*y.build(), &far(dim), &mut rng), "renew", ""); eval!(a) }
            _ => { let mut a = new(); ok!(a.renew_uniform(&*y2.build(), &far(y2.dim()), &mut rng), "renew", ""); eval!(a) }
        }
    } else {
        let it = InteractType::LennardJones(len);
        let new = || ContPassiveLJAgent::new(it, mt, pos.clone(), strength);
        match way {
            0 => eval!(new()),
            1 => {
                let v = vec![format!("{}", mt), if s.bool() { "Uniform".to_string() } else { ptxt.clone() }, format!("{}", len), format!("{}", strength), "2".to_string()];
                let a = ok!(ContPassiveLJAgent::read_args_from_vec(&v), "args", "{:?}", v);
                let l = ContPassiveLJAgent::convert_from(&a);
                ensure!(l.len() == 2, "count", "{} agents", l.len());
                eval!(l[1].clone())
            }
            2 => eval!(ok!(ContPassiveLJAgent::new_uniform(&*y.build(), &far(dim), &mut rng, it, mt, strength), "uniform", "{}", y.text())),
            3 => { let a = new(); eval!(a.clone()) }
            4 => { let mut a = new(); ok!(a.renew_uniform(&*y.build(), &far(dim), &mut rng), "renew", ""); eval!(a) }
            _ => { let mut a = new(); ok!(a.renew_uniform(&*y2.build(), &far(y2.dim()), &mut rng), "renew", ""); eval!(a) }
        }
    }
    for (x, (v, f, vp, vm)) in xs.iter().zip(&vals) {
        let r = x * len;
        ctx.checked(3);
        let (wv, wf, tolv, tolf, third) = if exp {
            let b = (-x).exp();
            (strength * b, strength / len * b, 1e-11 * (strength * b).abs() + 1e-321, 1e-11 * (strength / len * b).abs() + 1e-321, (strength / len * b).abs() * x * x)
        } else {
            let i6 = x.powi(-6);
            let scale = 4.0 * strength.abs() * i6 * (i6 + 1.0);
            let fs = 24.0 * strength.abs() / r * i6 * (2.0 * i6 + 1.0);
            (4.0 * strength * (i6 * i6 - i6), 24.0 * strength / r * (2.0 * i6 * i6 - i6), 1e-11 * scale, 1e-11 * fs, fs * 400.0)
        };
        ensure!((v - wv).abs() <= tolv, "potential", "{} length {} strength {}: potential({}) = {} instead of {}", if exp { "exp" } else { "lj" }, len, strength, r, v, wv);
        ensure!((f - wf).abs() <= tolf, "force", "{} length {} strength {}: force({}) = {} instead of {}", if exp { "exp" } else { "lj" }, len, strength, r, f, wf);
        if v.abs() < 1e-290 && wv != 0.0 {
            continue;
        }
        let h = r * 1e-5;
        let q = -(vp - vm) / (2.0 * h);
        let noise = 1e-15 * (vp.abs() + vm.abs() + tolv * 1e11) / h * 4.0;
        ensure!((q - f).abs() <= third * 1e-9 + noise + 1e-8 * f.abs(), "gradient", "{} length {} strength {}: force({}) = {}, difference quotient {}", if exp { "exp" } else { "lj" }, len, strength, r, f, q);
    }
    Ok(())
}

// ---------------------------------------------------------------- C11

fn c11_mutual(s: &mut Src, ctx: &mut Ctx) -> R {
    let dim = s.wide(1, 8, 40);
    let kind = s.size(0, 3);
    let base = s.f64_log(1e-6, 1e6);
    let a: Vec<f64> = (0..dim).map(|_| base * s.f64(-1.0, 1.0)).collect();
    let sep = base * s.f64_log(1e-9, 1e3);
    let u = unit_vec(s, dim);
    let b: Vec<f64> = if s.bool() { (0..dim).map(|i| a[i] + sep * u[i]).collect() } else { (0..dim).map(|_| base * s.f64(-1.0, 1.0)).collect() };
    let diff: Vec<f64> = b.iter().zip(&a).map(|(x, y)| x - y).collect();
    let dist = norm(&diff);
    if dist == 0.0 {
        return Err(Stop::Discard);
    }
    let want: Vec<f64> = diff.iter().map(|x| x / dist).collect();
    let old: Vec<f64> = (0..dim).map(|_| s.f64(-1e3, 1e3)).collect();
    ctx.note(|| format!("kind {} {:?} {:?} over {:?}", kind, a, b, old));
    ctx.class(["indep", "merge", "exp", "lj"][kind]);
    if dim >= 2 {
        ctx.nontrivial();
    }
    let (p, q) = (ag_par(s), ag_par(s));
    ctx.note(|| format!("{:?} {:?}", p, q));
    let (mt, mu) = (MoveType::Brownian(p.d), if s.chance(1, 8) { MoveType::Levy } else { MoveType::Brownian(q.d) });
    macro_rules! go {
        ($x:expr, $y:expr) => {{
            let (x, y) = ($x, $y);
            let (x0, y0) = (x.clone(), y.clone());
            for (p, q, sg) in [(&x, &y, 1.0), (&y, &x, -1.0)] {
                let w: Vec<f64> = want.iter().map(|t| t * sg).collect();
                let (v, d) = ok!(p.mutual_displacement(q), "err", "displacement");
                ensure!(close(d, dist, 1e-12, 0.0), "distance", "{:?} {:?}: distance {} instead of {}", a, b, d, dist);
                ensure!(vclose(&v.coordinate, &w, 0.0, 1e-12), "direction", "{:?} to {:?}: direction {:?} instead of {:?}", p.pos.coordinate, q.pos.coordinate, v.coordinate, w);
                let mut t = pv(old.clone());
                let d = ok!(p.mutual_displacement_to_vec(q, &mut t), "err", "in place");
                ensure!(close(d, dist, 1e-12, 0.0), "distance-in-place", "{:?} {:?}: distance {} instead of {}", a, b, d, dist);
                ensure!(vclose(&t.coordinate, &w, 0.0, 1e-12), "direction-in-place", "{:?} to {:?} over {:?}: direction {:?} instead of {:?}", p.pos.coordinate, q.pos.coordinate, old, t.coordinate, w);
                let d = ok!(p.mutual_distance(q), "err", "distance");
                ensure!(close(d, dist, 1e-12, 0.0), "plain-distance", "{:?} {:?}: distance {} instead of {}", a, b, d, dist);
                ctx.checked(5);
            }
            ensure!(x == x0 && y == y0, "changed", "agents changed by the query");
            ensure!(x.pos().coordinate == a, "pos", "pos() is {:?}", x.pos().coordinate);
        }};
    }
    match kind {
        0 => go!(ContPassiveIndepAgent::new(mt, pv(a.clone())), ContPassiveIndepAgent::new(mu, pv(b.clone()))),
        1 => go!(ContPassiveMergeAgent::new(mt, pv(a.clone()), p.rad, p.alpha), ContPassiveMergeAgent::new(mu, pv(b.clone()), q.rad, q.alpha)),
        2 => go!(ContPassiveExpAgent::new(InteractType::Exponential(dim, p.gamma), mt, pv(a.clone()), p.strength), ContPassiveExpAgent::new(InteractType::Exponential(dim, q.gamma), mu, pv(b.clone()), q.strength)),
        _ => go!(ContPassiveLJAgent::new(InteractType::LennardJones(p.gamma), mt, pv(a.clone()), p.strength), ContPassiveLJAgent::new(InteractType::LennardJones(q.gamma), mu, pv(b.clone()), q.strength)),
    }
    Ok(())
}

// ---------------------------------------------------------------- C20 agents

fn c20_agents(s: &mut Src, ctx: &mut Ctx) -> R {
    let dim = s.dim(1, 5, 9);
    let far = if s.chance(1, 6) { 1e250 } else { 1.0 };
    let pos = pv((0..dim).map(|_| s.f64(-10.0, 10.0) * far).collect());
    let d0 = if s.chance(1, 6) { s.f64_log(1e-300, 1e300) } else { s.f64_log(1e-6, 1e6) };
    let mt = if s.chance(1, 8) { MoveType::Levy } else { MoveType::Brownian(d0) };
    let e = if s.chance(1, 6) { 1e30 } else { 1e3 };
    let len = s.f64_log(1.0 / e, e);
    let st = { let m = s.f64_log(1.0 / e, e); s.signed(m) };
    let n = if s.chance(1, 100) { s.size(6, 400) } else { s.size(0, 5) };
    let k = s.size(1, 6);
    let it = match s.weighted(&[3, 3, 1, 1]) {
        0 => InteractType::Exponential(if s.chance(1, 3) { k } else { dim }, len),
        1 => InteractType::LennardJones(len),
        2 => InteractType::Coulomb2D,
        _ => InteractType::Coulomb3D,
    };
    let uniform = s.bool();
    let ptxt = pos.coordinate.iter().map(|x| format!("{}", x)).collect::<Vec<_>>().join(",");
    let itxt = if uniform { "Uniform".to_string() } else { ptxt };
    let kind = s.size(0, 3);
    ctx.note(|| format!("kind {} {:?} {:?} {:?} strength {} n {} uniform {}", kind, pos.coordinate, mt, it, st, n, uniform));
    ctx.class(["indep", "merge", "exp", "lj"][kind]);
    let y = system_dim(s, dim);
    let sys = y.build();
    let t = ContBulkTarget::new(pv(vec![0.0; dim]), 0.0);
    let mut rng = rng_seed(rng_seed_of(s));
    macro_rules! read {
        ($ty:ident, $v:expr) => {{
            let v: Vec<String> = $v;
            ok!($ty::read_args_from_vec(&v), "read", "{:?}", v)
        }};
    }
    macro_rules! all_same {
        ($l:expr, $new:expr, $dimf:ident, $udim:expr) => {{
            let l = $l;
            ensure!(l.len() == n, "count", "{} agents instead of {}", l.len(), n);
            let mut want = $new;
            if uniform {
                want.itype = InitType::Uniform;
                want.pos = pv(vec![]);
                want.$dimf = $udim;
            }
            for a in &l {
                ctx.checked(1);
                ensure!(*a == want, "convert", "arguments give {:?}, constructor {:?}", a, want);
            }
        }};
    }
    match kind {
        0 => {
            let a = read!(ContPassiveIndepAgent, vec![format!("{}", mt), itxt, format!("{}", n)]);
            let new = ContPassiveIndepAgent::new(mt, pos.clone());
            ensure!(new.mtype == mt && new.pos == pos && new.dim == dim && new.itype == InitType::SpecificPosition(pos.clone()), "fields", "{:?}", new);
            all_same!(ContPassiveIndepAgent::convert_from(&a), new, dim, 0);
        }
        1 => {
            let a = read!(ContPassiveMergeAgent, vec![format!("{}", mt), itxt, format!("{}", len), format!("{}", st), format!("{}", n)]);
            let new = ContPassiveMergeAgent::new(mt, pos.clone(), len, st);
            ensure!(new.mtype == mt && new.pos == pos && new.dim == dim && new.ptl_radius == len && new.alpha == st && new.size == 1, "fields", "{:?}", new);
            all_same!(ContPassiveMergeAgent::convert_from(&a), new, dim, 0);
        }
        2 => {
            let (isexp, d) = match it { InteractType::Exponential(d, _) => (true, d), _ => (false, 0) };
            let valid = isexp && d == dim;
            if !valid {
                ctx.nontrivial();
            }
            let new = no_panic(|| ContPassiveExpAgent::new(it, mt, pos.clone(), st));
            ctx.checked(2);
            ensure!(new.is_ok() == valid, "new", "exponential agent at {:?} with {:?}: constructor {}", pos.coordinate, it, if new.is_ok() { "accepts" } else { "refuses" });
            let u = no_panic(|| ContPassiveExpAgent::new_uniform(&*sys, &t, &mut rng, it, mt, st));
            match u {
                Ok(u) => {
                    ensure!(u.is_ok() == valid, "uniform", "exponential agent in dimension {} with {:?}: {:?}", dim, it, u);
                    if let Ok(u) = u {
                        ensure!(u.int_type == it && u.mtype == mt && u.gamma == len && u.strength == st && u.exp_dim == dim, "uniform-fields", "{:?}", u);
                    }
                }
                Err(m) => return fail("uniform-panic", format!("uniform creation with {:?}: {}", it, m)),
            }
            if isexp {
                let a = read!(ContPassiveExpAgent, vec![format!("{}", mt), itxt, format!("{}", len), format!("{}", d), format!("{}", st), format!("{}", n)]);
                let l = no_panic(|| ContPassiveExpAgent::convert_from(&a));
                ensure!(l.is_ok() == (uniform || d == dim), "convert", "exponential agents of dimension {} at {:?}: conversion {}", d, a.itype, if l.is_ok() { "accepts" } else { "refuses" });
                if let (Ok(l), Ok(new)) = (l, new) {
                    ensure!(new.int_type == it && new.mtype == mt && new.gamma == len && new.strength == st && new.exp_dim == dim && new.pos == pos, "fields", "{:?}", new);
                    all_same!(l, new, exp_dim, d);
                }
            }
        }
        _ => {
            let valid = match it { InteractType::LennardJones(_) => true, _ => false };
            if !valid {
                ctx.nontrivial();
            }
            let new = no_panic(|| ContPassiveLJAgent::new(it, mt, pos.clone(), st));
            ctx.checked(2);
            ensure!(new.is_ok() == valid, "new", "Lennard-Jones agent with {:?}: constructor {}", it, if new.is_ok() { "accepts" } else { "refuses" });
            let u = no_panic(|| ContPassiveLJAgent::new_uniform(&*sys, &t, &mut rng, it, mt, st));
            match u {
                Ok(u) => {
                    ensure!(u.is_ok() == valid, "uniform", "Lennard-Jones agent with {:?}: {:?}", it, u);
                    if let Ok(u) = u {
                        ensure!(u.int_type == it && u.mtype == mt && u.ptl_size == len && u.strength == st && u.dim == dim, "uniform-fields", "{:?}", u);
                    }
                }
                Err(m) => return fail("uniform-panic", format!("uniform creation with {:?}: {}", it, m)),
            }
            let a = read!(ContPassiveLJAgent, vec![format!("{}", mt), itxt, format!("{}", len), format!("{}", st), format!("{}", n)]);
            let l = no_panic(|| ContPassiveLJAgent::convert_from(&a));
            let l = match l { Ok(l) => l, Err(m) => return fail("convert-panic", m) };
            let new = ContPassiveLJAgent::new(InteractType::LennardJones(len), mt, pos.clone(), st);
            ensure!(new.mtype == mt && new.ptl_size == len && new.strength == st && new.dim == dim && new.pos == pos, "fields", "{:?}", new);
            all_same!(l, new, dim, 0);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C29 agents

fn c29_agents(s: &mut Src, ctx: &mut Ctx) -> R {
    let dim = s.size(1, 6);
    let mut other = s.size(0, 9);
    if other >= dim {
        other += 1;
    }
    let kind = s.size(0, 3);
    let op = s.weighted(&[4, 4, 4, 4, 4, 4, 3]);
    let a: Vec<f64> = (0..dim).map(|_| s.f64(-1.0, 1.0)).collect();
    let b: Vec<f64> = (0..other).map(|_| s.f64(-1.0, 1.0)).collect();
    let c: Vec<f64> = (0..dim).map(|_| 2.0 + s.f64(-1.0, 1.0)).collect();
    let mut rng = rng_seed(rng_seed_of(s));
    let dt = s.f64_log(1e-3, 1.0);
    ctx.note(|| format!("kind {} op {} dimensions {} {}", kind, op, dim, other));
    ctx.class(["partner", "partner in place", "vector", "partner distance", "displacement", "target", "unplaced"][op]);
    ctx.nontrivial();
    ctx.checked(1);
    if op == 5 {
        let t = ContBulkTarget::new(pv(a.clone()), 10.0);
        let p = pv(b.clone());
        let r = no_panic(|| (t.check_find(&p).is_err(), t.distance(&p).is_err()));
        match r {
            Ok((x, y)) => ensure!(x && y, "accepted", "target of dimension {} accepts {:?}", dim, b),
            Err(m) => return fail("panic", format!("target of dimension {} with {:?}: {}", dim, b, m)),
        }
        // creation and renewal in a system of another dimension than the target
        if other > 0 {
            let y = system_dim(s, other.min(5));
            let sys = y.build();
            if y.dim() != dim {
                let mt = MoveType::Brownian(1.0);
                let r = no_panic(|| ContPassiveIndepAgent::new_uniform(&*sys, &t, &mut rng, mt).is_err() && ContPassiveMergeAgent::new_uniform(&*sys, &t, &mut rng, mt, 0.1, 1.0).is_err()
                    && ContPassiveExpAgent::new_uniform(&*sys, &t, &mut rng, InteractType::Exponential(y.dim(), 0.1), mt, 1.0).is_err()
                    && ContPassiveLJAgent::new_uniform(&*sys, &t, &mut rng, InteractType::LennardJones(0.1), mt, 1.0).is_err());
                match r {
                    Ok(x) => ensure!(x, "accepted", "agents created in dimension {} with a target of dimension {}", y.dim(), dim),
                    Err(m) => return fail("panic", m),
                }
            }
        }
        return Ok(());
    }
    if op == 6 {
        // agents made from arguments that ask for random positions have no position yet
        let q = ag_par(s);
        let mt = MoveType::Brownian(q.d);
        let v0 = if s.bool() { a.clone() } else { b.clone() };
        macro_rules! un {
            ($placed:expr, $ty:ident, $arg:expr) => {{
                let x = $placed;
                let u = $ty::convert_from(&$arg).remove(0);
                ctx.note(|| format!("{:?} {:?} into {:?}", x, u, v0));
                let (x0, u0) = (x.clone(), u.clone());
                let mut v = pv(v0.clone());
                let r = no_panic(|| {
                    x.mutual_displacement(&u).is_err() && u.mutual_displacement(&x).is_err() && x.mutual_distance(&u).is_err() && u.mutual_distance(&x).is_err()
                        && x.mutual_displacement_to_vec(&u, &mut v).is_err() && u.mutual_displacement_to_vec(&x, &mut v).is_err()
                        && (v.dim() == 0 || u.mutual_displacement_to_vec(&u, &mut v).is_err())
                });
                match r {
                    Ok(r) => ensure!(r, "accepted", "agent {:?} and unplaced agent {:?} into {:?}", x, u, v0),
                    Err(m) => return fail("panic", format!("agent {:?} and unplaced agent {:?} into {:?}: {}", x, u, v0, m)),
                }
                ensure!(v.coordinate == v0, "changed", "refused mutual displacement left {:?} of {:?}", v.coordinate, v0);
                ensure!(x == x0 && u == u0, "agent-changed", "refused operation changed an agent");
            }};
        }
        let it = InitType::<f64>::Uniform;
        match kind {
            0 => un!(ContPassiveIndepAgent::new(mt, pv(a.clone())), ContPassiveIndepAgent,
                ContPassiveIndepAgentArguments { agent_type: AgentType::ContinuousPassiveIndependent, mtype: mt, itype: it, num_agent: 1 }),
            1 => un!(ContPassiveMergeAgent::new(mt, pv(a.clone()), q.rad, q.alpha), ContPassiveMergeAgent,
                ContPassiveMergeAgentArguments { agent_type: AgentType::ContinuousPassiveInteracting, size: 1, mtype: mt, itype: it, ptl_radius: q.rad, alpha: q.alpha, num_agent: 1 }),
            2 => un!(ContPassiveExpAgent::new(InteractType::Exponential(dim, q.gamma), mt, pv(a.clone()), q.strength), ContPassiveExpAgent,
                ContPassiveExpAgentArguments { agent_type: AgentType::ContinuousPassiveInteracting, mtype: mt, itype: it, gamma: q.gamma, exp_dim: dim, strength: q.strength, num_agent: 1 }),
            _ => un!(ContPassiveLJAgent::new(InteractType::LennardJones(q.gamma), mt, pv(a.clone()), q.strength), ContPassiveLJAgent,
                ContPassiveLJAgentArguments { agent_type: AgentType::ContinuousPassiveInteracting, mtype: mt, itype: it, ptl_size: q.gamma, strength: q.strength, num_agent: 1 }),
        }
        return Ok(());
    }
    macro_rules! go {
        ($mk:expr) => {{
            let mk = $mk;
            let x = mk(a.clone());
            let z = mk(c.clone());
            let (x0, z0) = (x.clone(), z.clone());
            match op {
                0 => {
                    let y = mk(b.clone());
                    let r = no_panic(|| (x.mutual_displacement(&y).is_err(), y.mutual_displacement(&x).is_err()));
                    match r {
                        Ok((p, q)) => ensure!(p && q, "accepted", "mutual displacement of dimensions {} and {}", dim, other),
                        Err(m) => return fail("panic", m),
                    }
                }
                1 => {
                    let y = mk(b.clone());
                    // vector of the one or of the other dimension
                    for v0 in [a.clone(), b.clone()] {
                        for (p, q) in [(&x, &y), (&y, &x)] {
                            let mut v = pv(v0.clone());
                            let r = no_panic(|| p.mutual_displacement_to_vec(q, &mut v));
                            match r {
                                Ok(r) => ensure!(r.is_err(), "accepted", "mutual displacement of dimensions {} and {}: {:?}", dim, other, r),
                                Err(m) => return fail("panic", m),
                            }
                            ensure!(v.coordinate == v0, "changed", "refused mutual displacement left {:?} of {:?}", v.coordinate, v0);
                        }
                    }
                }
                2 => {
                    let mut v = pv(b.clone());
                    let r = no_panic(|| x.mutual_displacement_to_vec(&z, &mut v));
                    match r {
                        Ok(r) => ensure!(r.is_err(), "accepted", "mutual displacement into dimension {}: {:?}", other, r),
                        Err(m) => return fail("panic", m),
                    }
                    ensure!(v.coordinate == b, "changed", "refused mutual displacement left {:?} of {:?}", v.coordinate, b);
                }
                3 => {
                    let y = mk(b.clone());
                    let r = no_panic(|| (x.mutual_distance(&y).is_err(), y.mutual_distance(&x).is_err()));
                    match r {
                        Ok((p, q)) => ensure!(p && q, "accepted", "distance of dimensions {} and {}", dim, other),
                        Err(m) => return fail("panic", m),
                    }
                }
                _ => {
                    let mut v = pv(b.clone());
                    let r = no_panic(|| x.random_move_to_vec(&mut rng, dt, &mut v));
                    match r {
                        Ok(r) => ensure!(r.is_err(), "accepted", "displacement of dimension {} into dimension {}", dim, other),
                        Err(m) => return fail("panic", m),
                    }
                    ensure!(v.coordinate == b, "changed", "refused displacement left {:?} of {:?}", v.coordinate, b);
                }
            }
            ensure!(x == x0 && z == z0, "agent-changed", "refused operation changed an agent");
        }};
    }
    let q = ag_par(s);
    ctx.note(|| format!("{:?}", q));
    let mt = MoveType::Brownian(q.d);
    match kind {
        0 => go!(|p: Vec<f64>| ContPassiveIndepAgent::new(mt, pv(p))),
        1 => go!(|p: Vec<f64>| ContPassiveMergeAgent::new(mt, pv(p), q.rad, q.alpha)),
        2 => go!(|p: Vec<f64>| ContPassiveExpAgent::new(InteractType::Exponential(p.len(), q.gamma), mt, pv(p), q.strength)),
        _ => go!(|p: Vec<f64>| ContPassiveLJAgent::new(InteractType::LennardJones(q.gamma), mt, pv(p), q.strength)),
    }
    Ok(())
}

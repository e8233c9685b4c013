//! C01, C02, C03, C05 and the system parts of C20 and C29.

use crate::gen::*;
use crate::pbt::*;
use crate::{ensure, ok};
use moledyn::prelude::*;
use moledyn::system_mod::cont_circ::{check_bc_exact, check_bc_first_order};

pub fn checks() -> Vec<Check> {
    vec![
        Check { prop: "C01", name: "c01_history", quick: 1200000, thorough: 72000000, shrink_budget: 3000, f: c01_history,
            rule: "system of any shape, boundary type and dimension 1..8, start inside (also near and on the wall), 1..40 moves from tiny to several domain sizes; non-trivial = at least one accepted move crosses the boundary" },
        Check { prop: "C01", name: "c01_agents", quick: 60000, thorough: 3600000, shrink_budget: 500, f: c01_agents,
            rule: "agents of each kind walk 50..300 random steps in a generated system, refused steps drawn again; non-trivial = some step crossed the boundary" },
        Check { prop: "C01", name: "c01_extreme", quick: 600000, thorough: 36000000, shrink_budget: 2000, f: c01_extreme,
            rule: "the move has a component of 1e6 domain sizes or more, an infinite one or one that is not a number; or starts at the exact centre of a ball" },
        Check { prop: "C02", name: "c02_fold", quick: 3000000, thorough: 180000000, shrink_budget: 3000, f: c02_fold,
            rule: "one move in a generated system compared with an independent coordinate-wise fold; non-trivial = the move crosses at least one wall and is not within rounding of one" },
        Check { prop: "C02", name: "c02_grid", quick: 2000000, thorough: 120000000, shrink_budget: 3000, f: c02_grid,
            rule: "moves between dyadic grid points of cubes and flat cylinders, where the fold is exact, including ends exactly on a wall and at the limit of acceptance; non-trivial = a wall is crossed or met" },
        Check { prop: "C03", name: "c03_exact", quick: 3000000, thorough: 180000000, shrink_budget: 3000, f: c03_exact,
            rule: "reflection constructed from wall point, incidence angle and path lengths before and after the wall, dimension 1..8; non-trivial = oblique incidence in dimension 2 or more" },
        Check { prop: "C03", name: "c03_orders", quick: 3000000, thorough: 180000000, shrink_budget: 3000, f: c03_orders,
            rule: "short steps near the wall (relative step 1e-5..1e-2) treated by the three methods; non-trivial = the wall is crossed" },
        Check { prop: "C05", name: "c05_marker", quick: 1200000, thorough: 72000000, shrink_budget: 2000, f: c05_marker,
            rule: "marker position of a generated system through both interfaces, also over old vector contents; non-trivial = every case" },
        Check { prop: "C05", name: "c05_inclusion", quick: 3000000, thorough: 180000000, shrink_budget: 2000, f: c05_inclusion,
            rule: "points inside, outside, a relative 1e-9 next to and exactly on the walls; non-trivial = within a relative 1e-2 of a wall" },
        Check { prop: "C20", name: "c20_systems", quick: 1500000, thorough: 90000000, shrink_budget: 2000, f: c20_systems,
            rule: "valid and invalid parameters of the three systems through constructor and argument conversion; non-trivial = invalid parameters or a split equal to 0 or the dimension" },
        Check { prop: "C29", name: "c29_systems", quick: 2000000, thorough: 120000000, shrink_budget: 2000, f: c29_systems,
            rule: "system operations with vectors of another dimension (0..10); non-trivial = every case" },
    ]
}

/// A displacement for the system at the position: from tiny to several domain sizes, sometimes aimed at a wall.
fn displacement(s: &mut Src, y: &Sys, p: &[f64]) -> Vec<f64> {
    let dim = y.dim();
    match s.weighted(&[4, 3, 2, 2, 2]) {
        0 => {
            // one common length scale
            let m = y.scale() * s.f64_log(1e-6, 5.0);
            let u = unit_vec(s, dim);
            u.iter().map(|x| x * m).collect()
        }
        1 => {
            // every coordinate on its own scale
            (0..dim)
                .map(|i| {
                    let ext = coord_extent(y, i);
                    let m = match s.weighted(&[2, 3, 3, 1]) {
                        0 => 0.0,
                        1 => s.f64_log(1e-4, 0.5),
                        2 => s.f64(0.5, 2.0),
                        _ => s.f64(2.0, 5.0),
                    };
                    s.signed(ext * m)
                })
                .collect()
        }
        2 => {
            // outwards: along the position itself
            let n = norm(p);
            let m = y.scale() * s.f64_log(1e-4, 4.0);
            if n == 0.0 { vec![m; dim] } else { p.iter().map(|x| x / n * m).collect() }
        }
        3 => {
            // to a given multiple of the wall in one coordinate
            let j = s.size(0, dim - 1);
            let mut v = vec![0.0; dim];
            let t = s.f64(0.9, 3.2) * coord_extent(y, j);
            let t = s.signed(t);
            v[j] = t - p[j];
            v
        }
        _ => (0..dim).map(|i| { let e = coord_extent(y, i); e * s.f64(-0.3, 0.3) }).collect(),
    }
}

fn coord_extent(y: &Sys, i: usize) -> f64 {
    match y {
        Sys::Circ { r, .. } => *r,
        Sys::Cubic { l, .. } => *l,
        Sys::Cyl { d, r, l, .. } => if i < *d { *r } else { *l },
    }
}

fn c01_history(s: &mut Src, ctx: &mut Ctx) -> R {
    let y = system_wide(s, 8);
    ctx.note(|| y.text());
    ctx.class(sys_class(&y));
    let sys = y.build();
    let mut pos = y.point(s);
    if y.inside(&pos) == None {
        // the start is inside up to rounding only: pull it in
        for x in pos.iter_mut() {
            *x *= 0.999;
        }
    }
    ctx.note(|| format!("start {:?}", pos));
    let mut p = pv(pos.clone());
    let n = s.size(1, 40);
    let mut crossed = false;
    for k in 0..n {
        let dp = displacement(s, &y, &p.coordinate);
        let before = p.coordinate.clone();
        let raw: Vec<f64> = before.iter().zip(&dp).map(|(a, b)| a + b).collect();
        let mut d = pv(dp.clone());
        ctx.note(|| format!("move {:?}", dp));
        let res = match no_panic(|| sys.check_bc(&mut p, &mut d)) {
            Ok(r) => r,
            Err(m) => return fail("panic", format!("{}: move {} of {:?} by {:?}: {}", y.text(), k, before, dp, m)),
        };
        match res {
            Ok(()) => {
                ctx.checked(2);
                ensure!(p.coordinate.len() == y.dim(), "dim", "dimension changed to {}", p.coordinate.len());
                ensure!(y.inside_tol(&p.coordinate, 1e-12), "left", "{}: move {} from {:?} by {:?} ended outside at {:?}", y.text(), k, before, dp, p.coordinate);
                ensure!(sys.check_inclusion(&p).ok() == Some(true), "inclusion", "{}: accepted move {} from {:?} by {:?} ended at {:?}, reported as outside", y.text(), k, before, dp, p.coordinate);
                if y.inside(&raw) == Some(false) {
                    crossed = true;
                }
            }
            Err(_) => {
                ctx.class("refused");
                p = pv(before);
            }
        }
    }
    if crossed {
        ctx.class("crossed");
        ctx.nontrivial();
    }
    Ok(())
}

fn c01_agents(s: &mut Src, ctx: &mut Ctx) -> R {
    let y = system(s, 4);
    let sys = y.build();
    ctx.note(|| y.text());
    let seed = rng_seed_of(s);
    let mut rng = rng_seed(seed);
    let mut pos = y.point(s);
    for x in pos.iter_mut() {
        *x *= 0.999;
    }
    let d0 = s.f64_log(1e-2, 10.0);
    let small = match &y {
        Sys::Circ { r, .. } => *r,
        Sys::Cubic { l, .. } => *l,
        Sys::Cyl { r, l, .. } => r.min(*l),
    };
    let dt = (small * s.f64_log(1e-2, 0.7)).powi(2) / (2.0 * d0);
    let kind = s.size(0, 3);
    let n = s.size(50, 300);
    ctx.note(|| format!("seed {} start {:?} D {} dt {} kind {} steps {}", seed, pos, d0, dt, kind, n));
    let q = ag_par(s);
    ctx.note(|| format!("{:?}", q));
    let mt = MoveType::Brownian(d0);
    let mut mv = pv(vec![0.0; y.dim()]);
    let mut crossed = false;
    macro_rules! walk {
        ($a:expr) => {{
            let mut a = $a;
            for k in 0..n {
                let before = a.pos.coordinate.clone();
                mv.clear();
                ok!(a.random_move_to_vec(&mut rng, dt, &mut mv), "move", "step {}", k);
                let raw: Vec<f64> = before.iter().zip(&mv.coordinate).map(|(a, b)| a + b).collect();
                if sys.check_bc(&mut a.pos, &mut mv).is_err() {
                    a.pos = pv(before);
                    continue;
                }
                ctx.checked(1);
                ensure!(y.inside_tol(&a.pos.coordinate, 1e-12), "left", "{}: step {} from {:?} ended outside at {:?}", y.text(), k, before, a.pos.coordinate);
                if y.inside(&raw) == Some(false) {
                    crossed = true;
                }
            }
        }};
    }
    match kind {
        0 => walk!(ContPassiveIndepAgent::new(mt, pv(pos))),
        1 => walk!(ContPassiveMergeAgent::new(mt, pv(pos), q.rad, q.alpha)),
        2 => walk!(ContPassiveExpAgent::new(InteractType::Exponential(y.dim(), q.gamma), mt, pv(pos), q.strength)),
        _ => walk!(ContPassiveLJAgent::new(InteractType::LennardJones(q.gamma), mt, pv(pos), q.strength)),
    }
    if crossed {
        ctx.nontrivial();
        ctx.class("crossed");
    }
    Ok(())
}

/// Moves no sensible step makes: overflowing, infinite, not a number; and the
/// three treatments of the wall of a ball, also from its exact centre.
/// A history of them: accepted moves end inside, a move that ends nowhere is refused.
fn c01_extreme(s: &mut Src, ctx: &mut Ctx) -> R {
    let y = system_wide(s, 8);
    let sys = y.build();
    ctx.note(|| y.text());
    ctx.class(sys_class(&y));
    let dim = y.dim();
    let ball = match &y {
        Sys::Circ { r, dim } => Some(ContCircSystem::new(*r, *dim)),
        _ => None,
    };
    let mut pos = if s.chance(1, 3) { vec![0.0; dim] } else { y.point(s) };
    if y.inside(&pos) == None {
        for x in pos.iter_mut() {
            *x *= 0.999;
        }
    }
    for _ in 0..s.size(1, 4) {
        let mut dp = displacement(s, &y, &pos);
        let centre = ball.is_some() && pos.iter().all(|x| *x == 0.0);
        let mut nowhere = false;
        if !(centre && s.bool()) {
            for i in 0..dim {
                if i > 0 && s.bool() {
                    continue;
                }
                let big = s.weighted(&[3, 3, 2, 2]);
                dp[i] = match big {
                    0 => { let v = coord_extent(&y, i) * s.f64_log(1e6, 1e60); s.signed(v) }
                    1 => { let v = s.f64_log(1e150, 1.7e308); s.signed(v) }
                    2 => s.signed(f64::INFINITY),
                    _ => f64::NAN,
                };
                if !dp[i].is_finite() {
                    nowhere = true;
                }
            }
            ctx.class(if nowhere { "not finite" } else { "huge" });
            ctx.nontrivial();
        } else {
            ctx.class("from the centre");
            ctx.nontrivial();
        }
        let how = if ball.is_some() { s.size(0, 2) } else { 0 };
        ctx.note(|| format!("from {:?} by {:?}, treatment {}", pos, dp, how));
        let mut p = pv(pos.clone());
        let mut d = pv(dp.clone());
        let res = no_panic(|| match (how, &ball) {
            (1, Some(b)) => check_bc_exact(*b, &mut p, &mut d).is_ok(),
            (2, Some(b)) => check_bc_first_order(*b, &mut p, &mut d).is_ok(),
            _ => sys.check_bc(&mut p, &mut d).is_ok(),
        });
        let accepted = match res {
            Ok(a) => a,
            Err(m) => return fail("panic", format!("{}: from {:?} by {:?}, treatment {}: {}", y.text(), pos, dp, how, m)),
        };
        ctx.checked(1);
        if accepted {
            ensure!(y.inside_tol(&p.coordinate, 1e-9), "left", "{}: from {:?} by {:?}, treatment {}: accepted at {:?}", y.text(), pos, dp, how, p.coordinate);
            ensure!(!nowhere, "nowhere", "{}: from {:?} by {:?}, treatment {}: a move that ends nowhere was accepted at {:?}", y.text(), pos, dp, how, p.coordinate);
            pos = p.coordinate.clone();
            if y.inside(&pos) == None {
                for x in pos.iter_mut() {
                    *x *= 0.999;
                }
            }
        } else {
            ctx.class("refused");
        }
    }
    Ok(())
}

fn c02_fold(s: &mut Src, ctx: &mut Ctx) -> R {
    let y = system_wide(s, 8);
    let sys = if s.chance(1, 4) { ok!(y.build_from_args(), "args", "{}", y.text()) } else { y.build() };
    let start = y.point(s);
    let dp = displacement(s, &y, &start);
    ctx.note(|| format!("{} from {:?} by {:?}", y.text(), start, dp));
    ctx.class(sys_class(&y));
    let raw: Vec<f64> = start.iter().zip(&dp).map(|(a, b)| a + b).collect();
    let (want, close_call) = y.fold(&raw);
    let mut p = pv(start.clone());
    let mut d = pv(dp.clone());
    let res = match no_panic(|| sys.check_bc(&mut p, &mut d)) {
        Ok(r) => r,
        Err(m) => return fail("panic", format!("{} from {:?} by {:?}: {}", y.text(), start, dp, m)),
    };
    if close_call {
        ctx.class("within-rounding");
        return Ok(());
    }
    ctx.checked(1);
    match (&want, &res) {
        (Some(w), Ok(())) => {
            // round part and straight directions may have very different extents
            let round = match &y {
                Sys::Circ { dim, .. } => *dim,
                Sys::Cubic { .. } => 0,
                Sys::Cyl { d, .. } => *d,
            };
            let got = &p.coordinate;
            let mut good = got.len() == w.len();
            if good && round > 0 {
                let scale = norm(&raw[..round]).max(norm(&start[..round])).max(norm(&dp[..round])).max(coord_extent(&y, 0));
                good = vclose(&got[..round], &w[..round], 1e-11, 1e-12 * scale);
            }
            for i in round..w.len() {
                let scale = raw[i].abs().max(start[i].abs()).max(dp[i].abs()).max(coord_extent(&y, i));
                good &= i < got.len() && (got[i] - w[i]).abs() <= 1e-12 * scale;
            }
            ensure!(good, "end",
                "{} from {:?} by {:?}: ended at {:?}, expected {:?}", y.text(), start, dp, p.coordinate, w);
            if y.inside(&raw) == Some(false) {
                ctx.nontrivial();
                ctx.class("folded");
            } else {
                ctx.class("stayed");
            }
        }
        (None, Err(_)) => {
            ctx.nontrivial();
            ctx.class("refused");
        }
        (Some(w), Err(e)) => {
            return fail("refused", format!("{} from {:?} by {:?}: refused with {:?}, expected {:?}", y.text(), start, dp, e, w));
        }
        (None, Ok(())) => {
            return fail("accepted", format!("{} from {:?} by {:?}: accepted at {:?} although one fold does not bring it back", y.text(), start, dp, p.coordinate));
        }
    }
    Ok(())
}

fn c02_grid(s: &mut Src, ctx: &mut Ctx) -> R {
    let dim = s.dim(1, 6, 24);
    let l = dyadic(s);
    let y = match s.weighted(&[2, 2, 3, 1]) {
        0 => Sys::Cubic { bc: Bc::Reflect, l, dim },
        1 => Sys::Cubic { bc: Bc::Periodic, l, dim },
        2 => Sys::Cubic { bc: Bc::Mixed(s.size(0, dim)), l, dim },
        _ => Sys::Cyl { d: 0, r: 1.0, l, dim },
    };
    let sys = y.build();
    let g = l / 8.0;
    let start: Vec<f64> = (0..dim).map(|_| g * (s.size(0, 16) as f64 - 8.0)).collect();
    let dp: Vec<f64> = start
        .iter()
        .map(|x| match s.weighted(&[2, 3, 2]) {
            0 => 0.0,
            1 => g * (s.size(0, 64) as f64 - 32.0),
            _ => {
                let t = *s.pick(&[l, -l, 3.0 * l, -3.0 * l, 3.0 * l + g, -3.0 * l - g, l + g, -l - g, 2.0 * l, -2.0 * l]);
                t - x
            }
        })
        .collect();
    ctx.note(|| format!("{} from {:?} by {:?}", y.text(), start, dp));
    ctx.class(sys_class(&y));
    let raw: Vec<f64> = start.iter().zip(&dp).map(|(a, b)| a + b).collect();
    let (want, _) = y.fold(&raw);
    let mut p = pv(start.clone());
    let mut d = pv(dp.clone());
    let res = sys.check_bc(&mut p, &mut d);
    ctx.checked(1);
    match (&want, &res) {
        (Some(w), Ok(())) => {
            ensure!(&p.coordinate == w, "end", "{} from {:?} by {:?}: ended at {:?}, expected {:?}", y.text(), start, dp, p.coordinate, w);
            ctx.class("accepted");
        }
        (None, Err(_)) => ctx.class("refused"),
        _ => return fail("decision", format!("{} from {:?} by {:?}: result {:?} at {:?}, expected {:?}", y.text(), start, dp, res, p.coordinate, want)),
    }
    if raw.iter().any(|x| x.abs() >= l) {
        ctx.nontrivial();
    }
    Ok(())
}

/// Unit vectors n (wall normal) and u with u.n = c
fn incidence(s: &mut Src, dim: usize, cmin: f64) -> (Vec<f64>, Vec<f64>, f64) {
    let n = unit_vec(s, dim);
    if dim == 1 {
        return (n.clone(), n, 1.0);
    }
    let c = match s.weighted(&[4, 1, 1]) {
        0 => s.f64(cmin, 1.0),
        1 => 1.0,
        _ => cmin + (1.0 - cmin) * s.f64_log(1e-3, 1.0),
    };
    // a tangent direction
    let mut t = unit_vec(s, dim);
    for attempt in 0..2 {
        let dot: f64 = t.iter().zip(&n).map(|(a, b)| a * b).sum();
        for i in 0..dim {
            t[i] -= dot * n[i];
        }
        let m = norm(&t);
        if m < 1e-3 && attempt == 0 {
            // pick the axis least aligned with n
            let mut j = 0;
            for i in 0..dim {
                if n[i].abs() < n[j].abs() {
                    j = i;
                }
            }
            t = vec![0.0; dim];
            t[j] = 1.0;
            continue;
        }
        for x in t.iter_mut() {
            *x /= m;
        }
    }
    let sn = (1.0 - c * c).max(0.0).sqrt();
    let u: Vec<f64> = n.iter().zip(&t).map(|(a, b)| a * c + b * sn).collect();
    (n, u, c)
}

fn c03_exact(s: &mut Src, ctx: &mut Ctx) -> R {
    let dim = s.dim(1, 8, 24);
    let r0 = s.f64_log(1e-3, 1e3);
    let (n, u, c) = incidence(s, dim, 0.05);
    let sys = ContCircSystem::new(r0, dim);
    let a = 2.0 * r0 * c * match s.weighted(&[3, 1]) { 0 => s.f64(0.01, 0.99), _ => s.f64_log(1e-4, 0.5) };
    let b = 2.0 * r0 * c * match s.weighted(&[4, 1, 1]) { 0 => s.f64(0.01, 0.99), 1 => s.f64_log(1e-4, 0.5), _ => s.f64(1.01, 2.0) };
    let start: Vec<f64> = (0..dim).map(|i| r0 * n[i] - a * u[i]).collect();
    let dp: Vec<f64> = u.iter().map(|x| x * (a + b)).collect();
    let end: Vec<f64> = (0..dim).map(|i| r0 * n[i] + b * (u[i] - 2.0 * c * n[i])).collect();
    let inside = b < 2.0 * r0 * c;
    // a chord: from a point exactly on the wall through the ball to another one
    let (start, dp, end, a) = if dim >= 2 && s.chance(1, 6) {
        let i = s.size(0, dim - 1);
        let side = s.signed(1.0);
        // the direction with the cosine -c to the outward normal at the start
        let mut t = unit_vec(s, dim);
        t[i] = 0.0;
        let m = norm(&t);
        if m < 1e-3 {
            t = vec![0.0; dim];
            t[(i + 1) % dim] = 1.0;
        } else {
            t.iter_mut().for_each(|x| *x /= m);
        }
        let sn = (1.0 - c * c).max(0.0).sqrt();
        let mut v: Vec<f64> = t.iter().map(|x| x * sn).collect();
        v[i] = -side * c;
        let mut start = vec![0.0; dim];
        start[i] = side * r0;
        let a = 2.0 * r0 * c;
        let out: Vec<f64> = (0..dim).map(|j| (start[j] + a * v[j]) / r0).collect();
        ctx.class("from the wall");
        let dp: Vec<f64> = v.iter().map(|x| x * (a + b)).collect();
        let end: Vec<f64> = (0..dim).map(|j| r0 * out[j] + b * (v[j] - 2.0 * c * out[j])).collect();
        (start, dp, end, a)
    } else {
        (start, dp, end, a)
    };
    ctx.note(|| format!("ball r={} dim={} from {:?} by {:?}, wall after {} of {}", r0, dim, start, dp, a, a + b));
    let mut p = pv(start.clone());
    let mut d = pv(dp.clone());
    let res = match no_panic(|| check_bc_exact(sys, &mut p, &mut d)) {
        Ok(r) => r,
        Err(m) => return fail("panic", m),
    };
    ctx.checked(1);
    if inside {
        ctx.class("reflected");
        ok!(res, "refused", "ball r={} from {:?} by {:?}: expected {:?}", r0, start, dp, end);
        ensure!(vclose(&p.coordinate, &end, 0.0, 1e-9 * r0), "end", "ball r={} from {:?} by {:?}: ended at {:?}, mirror reflection gives {:?}", r0, start, dp, p.coordinate, end);
    } else {
        ctx.class("refused");
        ensure!(res.is_err(), "accepted", "ball r={} from {:?} by {:?}: accepted at {:?} although the reflected path leaves again", r0, start, dp, p.coordinate);
    }
    if dim >= 2 && c < 0.999 {
        ctx.nontrivial();
    }
    // a path that stays inside is not touched by any of the three treatments
    let frac = s.f64(0.0, 0.95) * a / (a + b);
    let short: Vec<f64> = dp.iter().map(|x| x * frac).collect();
    let want: Vec<f64> = start.iter().zip(&short).map(|(x, y)| x + y).collect();
    if norm(&start) < r0 * (1.0 - 1e-12) && norm(&want) < r0 * (1.0 - 1e-12) {
        for m in 0..3 {
            let mut p = pv(start.clone());
            let mut d = pv(short.clone());
            let res = match m {
                0 => check_bc_exact(sys, &mut p, &mut d),
                1 => check_bc_first_order(sys, &mut p, &mut d),
                _ => sys.check_bc(&mut p, &mut d),
            };
            ctx.checked(1);
            ok!(res, "inner-refused", "method {}: {:?} by {:?}", m, start, short);
            ensure!(vclose(&p.coordinate, &want, 1e-14, 1e-14 * r0), "inner", "method {}: {:?} by {:?} ended at {:?}", m, start, short, p.coordinate);
        }
    }
    Ok(())
}

fn c03_orders(s: &mut Src, ctx: &mut Ctx) -> R {
    let dim = s.dim(1, 8, 24);
    let r0 = s.f64_log(1e-3, 1e3);
    let (n, u, c) = incidence(s, dim, 0.3);
    let eps = s.f64_log(1e-5, 1e-2);
    let a = r0 * eps * s.f64(0.05, 0.95);
    let b = r0 * eps * s.f64(0.05, 0.95);
    let start: Vec<f64> = (0..dim).map(|i| r0 * n[i] - a * u[i]).collect();
    let dp: Vec<f64> = u.iter().map(|x| x * (a + b)).collect();
    let end: Vec<f64> = (0..dim).map(|i| r0 * n[i] + b * (u[i] - 2.0 * c * n[i])).collect();
    ctx.note(|| format!("ball r={} dim={} from {:?} by {:?}", r0, dim, start, dp));
    let sys = ContCircSystem::new(r0, dim);
    ctx.nontrivial();
    let names = ["exact", "first-order", "radial"];
    for m in 0..3 {
        let mut p = pv(start.clone());
        let mut d = pv(dp.clone());
        let res = match m {
            0 => check_bc_exact(sys, &mut p, &mut d),
            1 => check_bc_first_order(sys, &mut p, &mut d),
            _ => sys.check_bc(&mut p, &mut d),
        };
        ctx.checked(1);
        ok!(res, "refused", "{}: from {:?} by {:?}", names[m], start, dp);
        let err = norm(&p.coordinate.iter().zip(&end).map(|(x, y)| x - y).collect::<Vec<_>>());
        let lim = if m == 0 { 1e-9 * r0 } else { 5.0 * eps * eps * r0 / c + 1e-12 * r0 };
        if std::env::var("VH_MEASURE").is_ok() && m > 0 {
            eprintln!("M {} {} {}", m, err / (eps * eps * r0), c);
        }
        ensure!(err <= lim, "order", "{} treatment of {:?} by {:?} in a ball of radius {} ended at {:?}, {} away from {:?} (relative step {})", names[m], start, dp, r0, p.coordinate, err, end, eps);
    }
    Ok(())
}

/// A power of two, mostly near one
fn dyadic(s: &mut Src) -> f64 {
    2f64.powi(match s.draw(5) {
        0 => s.size(0, 600) as i32 - 300,
        1 => s.size(0, 60) as i32 - 30,
        _ => s.size(0, 8) as i32 - 4,
    })
}

fn c05_marker(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut y = system_wide(s, 10);
    // also extreme sizes
    if s.chance(1, 4) {
        let big = s.f64_log(1e-30, 1e30);
        match &mut y {
            Sys::Circ { r, .. } => *r = big,
            Sys::Cubic { l, .. } => *l = big,
            Sys::Cyl { r, l, .. } => {
                if s.bool() {
                    *r = big;
                } else {
                    *l = big;
                }
            }
        }
    }
    ctx.note(|| y.text());
    ctx.class(sys_class(&y));
    ctx.nontrivial();
    let sys = y.build();
    let m = sys.position_out_of_system();
    ctx.checked(4);
    ensure!(m.coordinate.len() == y.dim(), "dim", "{}: marker {:?}", y.text(), m);
    ensure!(y.inside(&m.coordinate) == Some(false), "inside", "{}: marker {:?} is inside", y.text(), m.coordinate);
    let inc = ok!(sys.check_inclusion(&m), "err", "{}", y.text());
    ensure!(!inc, "inclusion", "{}: marker {:?} reported as inside", y.text(), m.coordinate);
    let old: Vec<f64> = (0..y.dim()).map(|_| s.f64_finite()).collect();
    let mut v = pv(old.clone());
    ok!(sys.position_out_of_system_to_vec(&mut v), "err", "{} over {:?}", y.text(), old);
    ensure!(v.coordinate == m.coordinate, "differ", "{}: {:?} and, over {:?}, {:?}", y.text(), m.coordinate, old, v.coordinate);
    Ok(())
}

fn c05_inclusion(s: &mut Src, ctx: &mut Ctx) -> R {
    let y;
    let pos: Vec<f64>;
    let want: bool;
    if s.chance(1, 3) {
        // dyadic: exact decision, also on the walls
        let dim = s.dim(1, 6, 24);
        let l = 5.0 * dyadic(s);
        let r = if s.chance(1, 4) { 5.0 * dyadic(s) } else { l };
        let kind = s.weighted(&[2, 2, 3]);
        let d;
        y = match kind {
            0 => {
                d = dim;
                Sys::Circ { r, dim }
            }
            1 => {
                d = 0;
                Sys::Cubic { bc: Bc::Reflect, l, dim }
            }
            _ => {
                d = s.size(0, dim);
                Sys::Cyl { d, r, l, dim }
            }
        };
        let mut v = vec![0.0; dim];
        let mut inside = true;
        if d > 0 {
            // axis point or 3-4-5 point of radius k/5 * r
            let k = s.size(0, 10) as f64;
            if k > 5.0 {
                inside = false;
            }
            let i = s.size(0, d - 1);
            let rho = r / 5.0 * k;
            if d >= 2 && s.bool() {
                let j = (i + 1 + s.size(0, d - 2)) % d;
                // rho*(3/5, 4/5): exact when rho is a multiple of 5 units
                let unit = if k == 5.0 || k == 10.0 || k == 0.0 { rho / 5.0 } else { rho };
                if k == 5.0 || k == 10.0 || k == 0.0 {
                    v[i] = s.signed(3.0 * unit);
                    v[j] = s.signed(4.0 * unit);
                } else {
                    v[i] = s.signed(rho);
                }
            } else {
                v[i] = s.signed(rho);
            }
        }
        for x in v.iter_mut().skip(d) {
            let k = if s.chance(1, 6) { s.size(0, 10) } else { s.size(0, 5) } as f64;
            if k > 5.0 {
                inside = false;
            }
            *x = s.signed(l / 5.0 * k);
        }
        pos = v;
        want = inside;
        ctx.class("exact");
        ctx.nontrivial();
    } else {
        y = system_wide(s, 8);
        let mut v = y.point(s);
        match s.weighted(&[4, 6, 6, 1]) {
            0 => {}
            3 => {
                // nowhere: no point of the domain has such a coordinate
                let i = s.size(0, y.dim() - 1);
                v[i] = match s.size(0, 3) {
                    0 => f64::NAN,
                    1 => s.signed(f64::INFINITY),
                    2 => f64::MAX,
                    _ => { let x = s.f64_log(1e150, 1e308); s.signed(x) }
                };
                let sys = y.build();
                ctx.class("nowhere");
                ctx.checked(1);
                let res = no_panic(|| sys.check_inclusion(&pv(v.clone())).ok());
                ensure!(matches!(res, Ok(Some(false))), "nowhere", "{}: {:?} is {:?}", y.text(), v, res);
                ctx.nontrivial();
                return Ok(());
            }
            1 => {
                // scaled about the wall
                let i = s.size(0, y.dim() - 1);
                let e = coord_extent(&y, i);
                let x = e * (1.0 + { let g = s.f64_log(1e-9, 2.0); s.signed(g) });
                v[i] = s.signed(x);
            }
            _ => {
                // radially about the wall
                let n = norm(&v);
                let k = y.scale() * (1.0 + { let g = s.f64_log(1e-9, 2.0); s.signed(g) });
                if n > 0.0 {
                    for x in v.iter_mut() {
                        *x *= k / n;
                    }
                }
            }
        }
        pos = v;
        match y.inside(&pos) {
            Some(w) => want = w,
            None => {
                ctx.class("within-rounding");
                return Ok(());
            }
        }
        let shrunk: Vec<f64> = pos.iter().map(|x| x * 0.99).collect();
        let grown: Vec<f64> = pos.iter().map(|x| x * 1.01).collect();
        if y.inside(&shrunk) != y.inside(&grown) {
            ctx.nontrivial();
        }
    }
    ctx.note(|| format!("{} at {:?}", y.text(), pos));
    ctx.class(if want { "inside" } else { "outside" });
    let sys = if s.chance(1, 5) { ok!(y.build_from_args(), "args", "{}", y.text()) } else { y.build() };
    ctx.checked(1);
    let p = pv(pos.clone());
    let got = ok!(sys.check_inclusion(&p), "err", "{} at {:?}", y.text(), pos);
    ensure!(got == want, "inclusion", "{} at {:?}: inclusion {}, expected {}", y.text(), pos, got, want);
    ensure!(p.coordinate == pos, "changed", "the query changed the position");
    Ok(())
}

fn maybe_bad(s: &mut Src) -> f64 {
    match s.weighted(&[5, 1, 1, 2, 1, 1]) {
        0 => {
            let e = if s.chance(1, 6) { 1e300 } else { 1e12 };
            s.f64_log(1.0 / e, e)
        }
        1 => 0.0,
        2 => -0.0,
        3 => -s.f64_log(1e-12, 1e12),
        4 => f64::NAN,
        _ => f64::MIN_POSITIVE,
    }
}

fn c20_systems(s: &mut Src, ctx: &mut Ctx) -> R {
    // Splits are drawn around the dimension, which is rarely much larger than anyone needs.
    let many = s.chance(1, 16);
    let dim = if many { s.size(6, 1_000_000) } else { s.size(0, 5) };
    let low = if many { dim - 3 } else { 0 };
    match s.size(0, 2) {
        0 => {
            let r = maybe_bad(s);
            let valid = r > 0.0 && dim > 0;
            ctx.note(|| format!("ball r={} dim={}", r, dim));
            if !valid {
                ctx.nontrivial();
            }
            let a = no_panic(|| ContCircSystem::new(r, dim));
            let args = ok!(ContCircSystem::read_args_from_vec(&vec![format!("{}", r), format!("{}", dim)]), "read", "r={} dim={}", r, dim);
            let b = no_panic(|| ContCircSystem::convert_from(&args));
            ctx.checked(3);
            ensure!(a.is_ok() == valid, "new", "ball r={} dim={}: constructor {}", r, dim, if a.is_ok() { "accepts" } else { "refuses" });
            ensure!(b.is_ok() == valid, "convert", "ball r={} dim={}: conversion {}", r, dim, if b.is_ok() { "accepts" } else { "refuses" });
            if let (Ok(a), Ok(b)) = (a, b) {
                ensure!(a == b, "same", "{:?} and {:?}", a, b);
                ensure!(a.sys_size == r && a.dim == dim && a.sys_type == SystemType::ContinuousCircular && a.bctype == BoundaryCond::Reflection, "fields", "r={} dim={} gives {:?}", r, dim, a);
            }
        }
        1 => {
            let l = maybe_bad(s);
            let bc = match s.size(0, 2) {
                0 => BoundaryCond::Reflection,
                1 => BoundaryCond::Periodic,
                _ => BoundaryCond::Mixed(low + s.size(0, 7)),
            };
            let split_ok = match bc {
                BoundaryCond::Mixed(d) => d <= dim,
                _ => true,
            };
            let valid = l > 0.0 && dim > 0 && split_ok;
            ctx.note(|| format!("cube {:?} l={} dim={}", bc, l, dim));
            if !valid || bc == BoundaryCond::Mixed(dim) || bc == BoundaryCond::Mixed(0) {
                ctx.nontrivial();
            }
            let a = no_panic(|| ContCubicSystem::new(bc, l, dim));
            let args = ok!(ContCubicSystem::read_args_from_vec(&vec![format!("{}", bc), format!("{}", l), format!("{}", dim)]), "read", "{:?} {} {}", bc, l, dim);
            let b = no_panic(|| ContCubicSystem::convert_from(&args));
            ctx.checked(3);
            ensure!(a.is_ok() == valid, "new", "cube {:?} l={} dim={}: constructor {}", bc, l, dim, if a.is_ok() { "accepts" } else { "refuses" });
            ensure!(b.is_ok() == valid, "convert", "cube {:?} l={} dim={}: conversion {}", bc, l, dim, if b.is_ok() { "accepts" } else { "refuses" });
            if let (Ok(a), Ok(b)) = (a, b) {
                ensure!(a == b, "same", "{:?} and {:?}", a, b);
                ensure!(a.sys_size == l && a.dim == dim && a.bctype == bc && a.sys_type == SystemType::ContinuousRectangular, "fields", "{:?} l={} dim={} gives {:?}", bc, l, dim, a);
            }
        }
        _ => {
            let r = maybe_bad(s);
            let l = maybe_bad(s);
            let d = low + s.size(0, 7);
            let valid = r > 0.0 && l > 0.0 && dim > 0 && d <= dim;
            ctx.note(|| format!("cylinder d={} r={} l={} dim={}", d, r, l, dim));
            if !valid || d == 0 || d == dim {
                ctx.nontrivial();
            }
            let a = no_panic(|| ContCylindricalSystem::new(d, r, l, dim));
            ctx.checked(3);
            ensure!(a.is_ok() == valid, "new", "cylinder d={} r={} l={} dim={}: constructor {}", d, r, l, dim, if a.is_ok() { "accepts" } else { "refuses" });
            let (st, bc) = match s.weighted(&[4, 1, 1, 1, 1]) {
                0 => (SystemType::ContinuousCylindrical(d), BoundaryCond::Mixed(d)),
                1 => (SystemType::ContinuousCylindrical(d), BoundaryCond::Mixed(d + 1)),
                2 => (SystemType::ContinuousCircular, BoundaryCond::Mixed(d)),
                3 => (SystemType::ContinuousCylindrical(d), BoundaryCond::Periodic),
                _ => (SystemType::ContinuousCylindrical(d), BoundaryCond::Reflection),
            };
            let consistent = st == SystemType::ContinuousCylindrical(d) && bc == BoundaryCond::Mixed(d);
            let args = ok!(
                ContCylindricalSystem::read_args_from_vec(&vec![format!("{}", st), format!("{}", bc), format!("{}", r), format!("{}", l), format!("{}", dim)]),
                "read", "{:?} {:?} {} {} {}", st, bc, r, l, dim
            );
            let b = no_panic(|| ContCylindricalSystem::convert_from(&args));
            ensure!(b.is_ok() == (valid && consistent), "convert", "cylinder {:?} {:?} r={} l={} dim={}: conversion {}", st, bc, r, l, dim, if b.is_ok() { "accepts" } else { "refuses" });
            if let (Ok(a), Ok(b)) = (a, b) {
                ensure!(a == b, "same", "{:?} and {:?}", a, b);
                ensure!(a.sys_radius == r && a.sys_length == l && a.dim == dim, "fields", "r={} l={} dim={} gives {:?}", r, l, dim, a);
            }
        }
    }
    Ok(())
}

fn c29_systems(s: &mut Src, ctx: &mut Ctx) -> R {
    let y = system(s, 6);
    let sys = y.build();
    let dim = y.dim();
    let mut other = s.size(0, 9);
    if other >= dim {
        other += 1;
    }
    ctx.note(|| format!("{} vector dimension {}", y.text(), other));
    ctx.class(if other < dim { "short" } else { "long" });
    ctx.nontrivial();
    let scale = y.scale();
    let vals = |s: &mut Src, n: usize| -> Vec<f64> { (0..n).map(|_| scale * s.f64(-0.4, 0.4)).collect() };
    let wrong = vals(s, other);
    let right = vals(s, dim);
    ctx.checked(1);
    macro_rules! refused {
        ($what:expr, $e:expr) => {
            match no_panic(|| $e) {
                Ok(r) => ensure!(r.is_err(), "accepted", "{}: {} with dimension {} gives {:?}", y.text(), $what, other, r),
                Err(m) => return fail("panic", format!("{}: {} with dimension {}: {}", y.text(), $what, other, m)),
            }
        };
    }
    match s.size(0, 6) {
        0 => {
            let p = pv(wrong.clone());
            refused!("inclusion", sys.check_inclusion(&p));
        }
        1 => {
            // wrong position, wrong displacement, or both
            let k = s.size(0, 2);
            let (a, b) = match k {
                0 => (wrong.clone(), right.clone()),
                1 => (right.clone(), wrong.clone()),
                _ => (wrong.clone(), wrong.clone()),
            };
            let mut p = pv(a.clone());
            let mut d = pv(b.clone());
            refused!("move", sys.check_bc(&mut p, &mut d));
            ensure!(p.coordinate == a && d.coordinate == b, "changed", "{}: refused move of {:?} by {:?} left {:?}, {:?}", y.text(), a, b, p.coordinate, d.coordinate);
        }
        2 => {
            let mut rng = rng_seed(rng_seed_of(s));
            let mut v = pv(wrong.clone());
            refused!("random position", sys.random_pos_to_vec(&mut rng, &mut v));
            ensure!(v.coordinate == wrong, "changed", "{}: refused draw left {:?} of {:?}", y.text(), v.coordinate, wrong);
        }
        3 => {
            let mut v = pv(wrong.clone());
            refused!("outside position", sys.position_out_of_system_to_vec(&mut v));
            ensure!(v.coordinate == wrong, "changed", "{}: refused marker left {:?} of {:?}", y.text(), v.coordinate, wrong);
        }
        k => {
            let ball = ContCircSystem::new(scale, dim);
            let (a, b) = match s.size(0, 2) {
                0 => (wrong.clone(), right.clone()),
                1 => (right.clone(), wrong.clone()),
                _ => (wrong.clone(), wrong.clone()),
            };
            let mut p = pv(a.clone());
            let mut d = pv(b.clone());
            if k == 4 {
                refused!("exact reflection", check_bc_exact(ball, &mut p, &mut d));
            } else {
                refused!("first order reflection", check_bc_first_order(ball, &mut p, &mut d));
            }
            ensure!(p.coordinate == a && d.coordinate == b, "changed", "refused move of {:?} by {:?} left {:?}, {:?}", a, b, p.coordinate, d.coordinate);
        }
    }
    Ok(())
}

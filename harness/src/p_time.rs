//! C15, C16: clocks; C20 for clocks.

use crate::gen::*;
use crate::pbt::*;
use crate::{ensure, ok};
use moledyn::prelude::*;

pub fn checks() -> Vec<Check> {
    vec![
        Check { prop: "C15", name: "c15_schedule", quick: 1200000, thorough: 72000000, shrink_budget: 2000, f: c15_schedule,
            rule: "steps 1e-15..1e10 (dyadic in a third of the cases, where every comparison is exact), limits of 0..400 steps on and off multiples, none, or changed on the way; by new and from arguments; also read with steps from the start and from the middle; non-trivial = at least three times yielded and the limit reached" },
        Check { prop: "C15", name: "c15_history", quick: 1200000, thorough: 72000000, shrink_budget: 2000, f: c15_history,
            rule: "history of 1..25 operations (next, reads with steps, renew, new limits, refused limits, copies) against a model; non-trivial = a renewal after at least two steps" },
        Check { prop: "C15", name: "c15_long", quick: 4000, thorough: 240000, shrink_budget: 200, f: c15_long,
            rule: "runs of 1e4..1e5 steps; non-trivial = always" },
        Check { prop: "C16", name: "c16_schedule", quick: 1200000, thorough: 72000000, shrink_budget: 2000, f: c16_schedule,
            rule: "minimal steps 1e-15..1e5, ratio of maximal to minimal step 1..1e12 (also equal, also a power of the growth ratio), blocks of 1..40, sometimes up to 1500 steps, growth ratio default or set (valid, capped, refused), limits none or anywhere, by new and from arguments; non-trivial = at least two increases, or the maximal step reached" },
        Check { prop: "C16", name: "c16_history", quick: 1200000, thorough: 72000000, shrink_budget: 2000, f: c16_history,
            rule: "history of 1..25 operations (next, reads with steps, renew, new limits, refused limits and ratios, copies) on a growing-step clock against a fresh clock with the same parameters; non-trivial = a renewal after at least one increase" },
        Check { prop: "C20", name: "c20_clocks", quick: 3000000, thorough: 180000000, shrink_budget: 2000, f: c20_clocks,
            rule: "valid and invalid clock parameters (steps at and around 1e-15, zero, negative; minimal above maximal; block lengths around 0 and 10; negative limits) by both routes; non-trivial = a refused parameter set" },
    ]
}

fn txt(x: f64) -> String {
    format!("{}", x)
}

fn const_from_args(dt: f64, tmax: f64) -> Result<ConstStep, String> {
    let v = vec![txt(dt), txt(tmax)];
    let a = ConstStep::read_args_from_vec(&v).map_err(|e| format!("{:?}", e))?;
    no_panic(|| ConstStep::convert_from(&a))
}

fn exp_from_args(a: f64, b: f64, n: usize, tmax: f64) -> Result<ExponentialStep, String> {
    let v = vec![txt(a), txt(b), format!("{}", n), txt(tmax)];
    let g = ExponentialStep::read_args_from_vec(&v).map_err(|e| format!("{:?}", e))?;
    no_panic(|| ExponentialStep::convert_from(&g))
}

/// Steps (dt) and whether arithmetic on small multiples is exact.
fn step_size(s: &mut Src) -> (f64, bool) {
    if s.draw(3) == 0 {
        let m = s.size(1, 1023) as f64;
        let e = s.draw(31) as i32 - 20;
        (m * 2f64.powi(e), true)
    } else {
        (s.f64_log(1e-15, 1e10), false)
    }
}

fn c15_schedule(s: &mut Src, ctx: &mut Ctx) -> R {
    let (dt, exact) = step_size(s);
    let nmax = s.size(0, 400) as f64;
    let limit = match s.weighted(&[3, 3, 2, 1]) {
        0 => dt * nmax,
        1 => dt * (nmax + s.f64(0.01, 0.99)),
        2 => dt * s.f64(0.001, 3.0),
        _ => 0.0,
    };
    if limit != 0.0 && limit < 1e-15 {
        return Err(Stop::Discard);
    }
    let from_args = s.bool();
    ctx.note(|| format!("dt={} limit={} exact={} from_args={}", dt, limit, exact, from_args));
    let mut c = if from_args {
        match const_from_args(dt, limit) {
            Ok(c) => c,
            Err(e) => return fail("refused", format!("valid clock dt={} tmax={} refused: {}", dt, limit, e)),
        }
    } else {
        let mut c = ok!(ConstStep::new(dt), "refused", "dt={}", dt);
        if limit != 0.0 || s.bool() {
            ok!(c.set_tmax(limit), "refused-limit", "{}", limit);
        }
        c
    };
    let cap = 600;
    let times: Vec<f64> = c.clone().take(cap).collect();
    let diffs: Vec<(f64, f64)> = c.into_diff().take(cap).collect();
    let again: Vec<f64> = c.clone().take(cap).collect();
    ensure!(times == again, "disturbed", "reading with steps disturbed the clock");
    ensure!(times.len() == diffs.len() && times.iter().zip(&diffs).all(|(a, b)| *a == b.0), "diff-times",
        "times {:?}.. differ from those read with steps {:?}..", &times[..times.len().min(5)], &diffs[..diffs.len().min(5)]);
    ensure!(!times.is_empty() && times[0] == 0.0, "start", "first time {:?}", times.first());
    for (k, &t) in times.iter().enumerate() {
        let e = k as f64 * dt;
        let tol = if exact { 0.0 } else { (k as f64 + 1.0) * 2.3e-16 * e };
        ensure!((t - e).abs() <= tol, "multiple", "time {} is {} instead of {}", k, t, e);
        let d = diffs[k].1;
        if k + 1 < times.len() {
            let g = times[k + 1] - t;
            ensure!((d - g).abs() <= if exact { 0.0 } else { 4e-16 * times[k + 1] }, "step", "step {} is {} but the times differ by {}", k, d, g);
        }
        ensure!(close(d, dt, 1e-12, 0.0) || k + 1 < times.len(), "last-step", "last step {}", d);
    }
    let last = *times.last().unwrap();
    if limit == 0.0 {
        ensure!(times.len() == cap, "infinite", "clock without limit stopped at {}", last);
    } else {
        ensure!(last <= limit, "beyond", "time {} beyond the limit {}", last, limit);
        let tol = if exact { 0.0 } else { 1e-12 * limit };
        ensure!(times.len() == cap || last + dt > limit - tol, "early", "stopped at {} though {} is within the limit {}", last, last + dt, limit);
        if times.len() >= 3 && times.len() < cap {
            ctx.nontrivial();
        }
        // exhausted clocks stay exhausted
        let mut d = c.clone();
        for _ in 0..times.len() {
            d.next();
        }
        if times.len() < cap {
            ensure!(d.next().is_none() && d.next().is_none(), "revived", "a clock at its end yields again");
            d.renew();
            let r: Vec<f64> = d.take(cap).collect();
            ensure!(r == times, "renew", "renewed clock yields {:?}..", &r[..r.len().min(5)]);
        }
    }
    // both routes alike
    let mut o = if from_args {
        let mut o = ok!(ConstStep::new(dt), "refused", "dt={}", dt);
        ok!(o.set_tmax(limit), "refused-limit", "{}", limit);
        o
    } else {
        match const_from_args(dt, limit) {
            Ok(c) => c,
            Err(e) => return fail("refused", format!("valid clock dt={} tmax={} refused: {}", dt, limit, e)),
        }
    };
    let ot: Vec<(f64, f64)> = o.into_diff().take(cap).collect();
    ensure!(ot == diffs, "routes", "the two routes differ: {:?}.. {:?}..", &ot[..ot.len().min(4)], &diffs[..diffs.len().min(4)]);
    // from the middle
    let j = s.size(0, times.len().min(20) - 1);
    for _ in 0..j {
        c.next();
        o.next();
    }
    let rest: Vec<(f64, f64)> = c.into_diff().take(cap - j).collect();
    ensure!(rest[..] == diffs[j..], "middle", "read with steps from the {}th time: {:?}..", j, &rest[..rest.len().min(4)]);
    ensure!(c.next() == times.get(j).cloned(), "middle-next", "next after reading with steps");
    ctx.checked(2 * times.len() as u64 + 8);
    Ok(())
}

/// Reading with steps goes on where the clock is, gives the same times as reading without, the distances between them,
/// and leaves the clock alone.
fn with_steps<T>(c: &T, n: usize) -> R
where
    T: TimeIterator + Iterator<Item = f64> + Clone + PartialEq,
    moledyn::time_mod::TimeDiffIterator<T>: Iterator<Item = (f64, f64)>,
{
    let before = c.clone();
    let got: Vec<(f64, f64)> = c.into_diff().take(n).collect();
    ensure!(&before == c, "disturbed", "reading with steps disturbed the clock");
    let mut other = c.clone();
    let times: Vec<f64> = other.by_ref().take(n).collect();
    ensure!(times.len() == got.len() && times.iter().zip(&got).all(|(a, b)| a == &b.0), "with-steps", "the clock yields {:?}, with steps {:?}", times, got);
    for (i, x) in got.iter().enumerate() {
        if let Some(next) = times.get(i + 1) {
            // the step may be taken before the sum is rounded
            ensure!((x.0 + x.1 - next).abs() <= 1e-15 * next.abs() + 1e-12 * x.1, "with-steps", "step {} at {}, next time {}", x.1, x.0, next);
        }
    }
    Ok(())
}

fn c15_history(s: &mut Src, ctx: &mut Ctx) -> R {
    let (dt, exact) = step_size(s);
    let mut c = ok!(ConstStep::new(dt), "refused", "dt={}", dt);
    let (mut k, mut lim) = (0usize, f64::INFINITY);
    let mut steps_seen = 0;
    ctx.note(|| format!("dt={}", dt));
    for _ in 0..s.size(1, 25) {
        match s.draw(7) {
            0 | 1 => {
                for _ in 0..s.size(1, 4) {
                    let e = k as f64 * dt;
                    let t = c.next();
                    let near = !exact && (e - lim).abs() <= 1e-12 * e.max(dt);
                    ctx.note(|| format!("next={:?}", t));
                    match t {
                        Some(t) => {
                            ensure!(close(t, e, if exact { 0.0 } else { 1e-13 }, 0.0), "multiple", "time {} is {}", k, t);
                            ensure!(t <= lim, "beyond", "time {} beyond {}", t, lim);
                            k += 1;
                            steps_seen += 1;
                        }
                        None => {
                            ensure!(e > lim || near, "early", "stopped before {} with limit {}", e, lim);
                        }
                    }
                    if near {
                        return Ok(());
                    }
                }
            }
            2 => {
                ctx.note(|| "renew".into());
                c.renew();
                k = 0;
                ensure!(c.current_time() == 0.0, "renew", "current time {} after renewal", c.current_time());
                if steps_seen >= 2 {
                    ctx.nontrivial();
                }
            }
            3 => {
                let t = match s.draw(3) {
                    0 => 0.0,
                    1 => dt * s.size(0, 12) as f64,
                    _ => dt * s.f64(0.1, 12.0),
                };
                if t > 0.0 && t < 1e-15 {
                    continue;
                }
                ctx.note(|| format!("limit {}", t));
                ok!(c.set_tmax(t), "refused-limit", "{}", t);
                lim = if t == 0.0 { f64::INFINITY } else { t };
            }
            4 => {
                let t = if s.chance(1, 6) { f64::NAN } else { -s.f64_log(1e-300, 1e10) };
                ctx.note(|| format!("limit {}", t));
                ensure!(c.set_tmax(t).is_err(), "negative-limit", "limit {} accepted", t);
            }
            5 => {
                with_steps(&c, s.size(0, 5))?;
            }
            _ => {
                let mut d = c.clone();
                d.next();
                d.renew();
            }
        }
        ensure!(c.dt() == dt, "dt", "step {}", c.dt());
        ctx.checked(1);
    }
    Ok(())
}

fn c15_long(s: &mut Src, ctx: &mut Ctx) -> R {
    let (dt, exact) = step_size(s);
    let n = s.size(10_000, 100_000);
    let mut c = ok!(ConstStep::new(dt), "refused", "dt={}", dt);
    let lim = dt * (n as f64 + 0.5);
    if lim < 1e-15 {
        return Err(Stop::Discard);
    }
    ok!(c.set_tmax(lim), "refused-limit", "{}", lim);
    ctx.note(|| format!("dt={} n={}", dt, n));
    ctx.nontrivial();
    let mut k = 0usize;
    for (t, d) in c.into_diff() {
        let e = k as f64 * dt;
        ensure!((t - e).abs() <= if exact && n < (1 << 20) { 0.0 } else { (k as f64 + 1.0) * 2.3e-16 * e }, "multiple", "time {} is {} instead of {}", k, t, e);
        ensure!(close(d, dt, 1e-12, 0.0), "step", "step {} is {}", k, d);
        k += 1;
        if k > n + 2 {
            break;
        }
    }
    ensure!(k == n + 1, "count", "{} times, expected {}", k, n + 1);
    ctx.checked(k as u64);
    Ok(())
}

struct Exp {
    lo: f64,
    hi: f64,
    n: usize,
}

fn exp_params(s: &mut Src, min_len: usize) -> Exp {
    let lo = s.f64_log(1e-15, 1e5);
    let hi = match s.weighted(&[1, 4, 2, 2]) {
        0 => lo,
        1 => lo * s.f64_log(1.0, 1e6),
        2 => {
            let g = *s.pick(&[1.2f64, 10.0, 2.0]);
            // the maximal step is a whole number of increases away, or almost
            let off = if s.bool() { 0.0 } else { let x = 10f64.powi(-(s.size(2, 9) as i32)); s.signed(x) };
            lo * g.powi(s.size(1, 6) as i32) * (1.0 + off)
        }
        _ => lo * s.f64_log(1.0, 1e12),
    };
    let n = match s.weighted(&[90, 60, 1]) {
        0 => s.size(min_len, min_len + 9),
        1 => s.size(min_len, 40),
        _ => s.size(41, 1500),
    };
    Exp { lo, hi: hi.max(lo), n }
}

/// Step of block b with growth ratio g.
fn block_step(p: &Exp, g: f64, b: usize) -> f64 {
    let mut d = p.lo;
    for _ in 0..b {
        if d < p.hi {
            d = (d * g).min(p.hi);
        }
    }
    d
}

fn c16_schedule(s: &mut Src, ctx: &mut Ctx) -> R {
    let from_args = s.bool();
    let p = exp_params(s, if from_args { 10 } else { 1 });
    let limited = s.chance(2, 3);
    let limit = if limited {
        match s.draw(3) {
            0 => p.lo * s.f64(0.1, 300.0),
            1 => p.lo * s.size(0, 30) as f64,
            _ => p.hi * s.f64_log(1e-2, 1e2),
        }
    } else {
        0.0
    };
    if limit != 0.0 && limit < 1e-15 {
        return Err(Stop::Discard);
    }
    ctx.note(|| format!("min={} max={} block={} limit={} from_args={}", p.lo, p.hi, p.n, limit, from_args));
    let mut c = if from_args {
        match exp_from_args(p.lo, p.hi, p.n, limit) {
            Ok(c) => c,
            Err(e) => return fail("refused", format!("valid clock refused: {}", e)),
        }
    } else {
        let mut c = ok!(ExponentialStep::new(p.lo, p.hi, p.n), "refused", "valid clock");
        if limit != 0.0 || s.bool() {
            ok!(c.set_tmax(limit), "refused-limit", "{}", limit);
        }
        c
    };
    ensure!(c.inc > 1.0 && c.inc.is_finite(), "ratio", "growth ratio {}", c.inc);
    match s.draw(4) {
        0 => {
            let r = 1.0 + s.f64_log(1e-3, 20.0);
            ok!(c.set_inc(r), "refused-ratio", "{}", r);
            ctx.note(|| format!("ratio {}", r));
            if r <= p.n as f64 / 2.0 || r <= 1.2 {
                ensure!(close(c.inc, r, 1e-15, 0.0), "ratio-set", "asked for the ratio {}, got {}", r, c.inc);
            } else {
                ensure!(c.inc <= r, "ratio-cap", "asked for the ratio {}, got {}", r, c.inc);
            }
        }
        1 => {
            let old = c.inc;
            let r = *s.pick(&[1.0, 0.999999, 0.5, 0.0, -0.0, -1.0, -2.0, f64::MIN, f64::NAN]);
            ensure!(c.set_inc(r).is_err(), "ratio-accepted", "ratio {} accepted", r);
            ensure!(c.inc == old, "ratio-changed", "ratio {} after a refused one", c.inc);
        }
        _ => {}
    }
    ensure!(c.inc > 1.0, "ratio", "growth ratio {}", c.inc);
    let g = c.inc;
    let cap = s.size(1, 6) * p.n * 3 + 3;
    let diffs: Vec<(f64, f64)> = c.into_diff().take(cap).collect();
    let times: Vec<f64> = c.clone().take(cap).collect();
    ensure!(times.len() == diffs.len() && times.iter().zip(&diffs).all(|(a, b)| *a == b.0), "diff-times", "times read with steps differ");
    ensure!(!times.is_empty() && times[0] == 0.0, "start", "first time {:?}", times.first());
    let mut e = 0.0f64;
    for (k, &(t, d)) in diffs.iter().enumerate() {
        let want = block_step(&p, g, k / p.n);
        ensure!(close(d, want, 1e-11, 0.0), "step", "step {} (block {}) is {} instead of {} (ratio {})", k, k / p.n, d, want, g);
        ensure!(d <= p.hi, "max-step", "step {} is {} above the maximum {}", k, d, p.hi);
        ensure!(close(t, e, 1e-11, 0.0), "time", "time {} is {} instead of {}", k, t, e);
        ensure!(!limited || limit == 0.0 || t <= limit, "beyond", "time {} beyond the limit {}", t, limit);
        e += want;
        if k + 1 < times.len() {
            ensure!((times[k + 1] - t - d).abs() <= 4e-16 * times[k + 1], "difference", "step {} is {} but the times differ by {}", k, d, times[k + 1] - t);
        }
    }
    if diffs.len() > 2 * p.n {
        ctx.class("two increases");
        ctx.nontrivial();
    }
    if diffs.last().map(|x| x.1 == p.hi).unwrap_or(false) && p.hi > p.lo {
        ctx.class("maximal step reached");
        ctx.nontrivial();
    }
    if diffs.len() < cap {
        ctx.class("limit reached");
        ensure!(limited && limit > 0.0, "infinite", "clock without limit stopped after {} times", diffs.len());
        ensure!(e > limit * (1.0 - 1e-10), "early", "stopped though {} is within {}", e, limit);
        let mut d = c.clone();
        for _ in 0..diffs.len() {
            d.next();
        }
        ensure!(d.next().is_none() && d.next().is_none(), "revived", "a clock at its end yields again");
        d.renew();
        ensure!(d.into_diff().take(cap).collect::<Vec<_>>() == diffs, "renew", "renewed clock differs");
    }
    // renewal in the middle, reading from the middle
    let j = s.size(0, diffs.len() - 1);
    let mut d = c.clone();
    for _ in 0..j {
        d.next();
    }
    let rest: Vec<(f64, f64)> = d.into_diff().take(cap - j).collect();
    ensure!(rest[..] == diffs[j..], "middle", "read with steps from the {}th time", j);
    d.renew();
    ensure!(d.current_time() == 0.0, "renew", "current time after renewal {}", d.current_time());
    ensure!(d.into_diff().take(cap).collect::<Vec<_>>() == diffs, "renew", "clock renewed after {} times differs", j);
    // both routes alike apart from the ratio
    if p.n >= 10 {
        let o = if from_args {
            let mut o = ok!(ExponentialStep::new(p.lo, p.hi, p.n), "refused", "valid clock");
            ok!(o.set_tmax(limit), "refused-limit", "{}", limit);
            o
        } else {
            match exp_from_args(p.lo, p.hi, p.n, limit) {
                Ok(c) => c,
                Err(e) => return fail("refused", format!("valid clock refused: {}", e)),
            }
        };
        let mut o = o;
        ensure!(o.inc > 1.0, "ratio", "growth ratio {}", o.inc);
        ok!(o.set_inc(g), "refused-ratio", "{}", g);
        let mut cc = c.clone();
        ok!(cc.set_inc(g), "refused-ratio", "{}", g);
        ensure!(cc.inc == o.inc, "ratio-set", "asked for the ratio {}, got {} and {}", g, cc.inc, o.inc);
        let diffs: Vec<(f64, f64)> = cc.into_diff().take(cap).collect();
        ensure!(o.into_diff().take(cap).collect::<Vec<_>>() == diffs, "routes", "the two routes differ");
    }
    ctx.checked(3 * diffs.len() as u64);
    Ok(())
}

fn c16_history(s: &mut Src, ctx: &mut Ctx) -> R {
    let p = exp_params(s, 1);
    let mut c = ok!(ExponentialStep::new(p.lo, p.hi, p.n), "refused", "valid clock");
    let mut g = if s.bool() {
        let r = 1.0 + s.f64_log(1e-3, 5.0);
        ok!(c.set_inc(r), "refused-ratio", "{}", r);
        c.inc
    } else {
        c.inc
    };
    let mut lim = f64::INFINITY;
    let (mut k, mut e) = (0usize, 0.0f64);
    ctx.note(|| format!("min={} max={} block={} ratio={}", p.lo, p.hi, p.n, g));
    let mut increased = false;
    let mut d = p.lo;
    for _ in 0..s.size(1, 25) {
        match s.draw(9) {
            0 | 1 | 2 => {
                for _ in 0..s.size(1, 2 * p.n) {
                    let near = (e - lim).abs() <= 1e-10 * e.max(p.lo);
                    if k > 0 && k % p.n == 0 && e <= lim && d < p.hi {
                        d = (d * g).min(p.hi);
                    }
                    let t = c.next();
                    match t {
                        Some(t) => {
                            ensure!(close(t, e, 1e-11, 0.0), "time", "time {} is {} instead of {}", k, t, e);
                            ensure!(t <= lim, "beyond", "time {} beyond {}", t, lim);
                            ensure!(close(c.dt(), d, 1e-11, 0.0), "step", "step {} is {} instead of {}", k, c.dt(), d);
                            e += d;
                            k += 1;
                            if k > p.n {
                                increased = true;
                            }
                        }
                        None => {
                            ensure!(e > lim || near, "early", "stopped before {} with limit {}", e, lim);
                            // the limit of a stopped clock is not moved on: renew instead
                            c.renew();
                            k = 0;
                            e = 0.0;
                            d = p.lo;
                        }
                    }
                    if near {
                        return Ok(());
                    }
                }
                ctx.note(|| format!("at {}", k));
            }
            3 | 4 => {
                ctx.note(|| "renew".into());
                c.renew();
                k = 0;
                e = 0.0;
                d = p.lo;
                if increased {
                    ctx.nontrivial();
                }
            }
            5 => {
                let t = match s.draw(2) {
                    0 => 0.0,
                    _ => p.lo * s.f64(0.1, 60.0),
                };
                if t > 0.0 && t < 1e-15 {
                    continue;
                }
                ctx.note(|| format!("limit {}", t));
                ok!(c.set_tmax(t), "refused-limit", "{}", t);
                lim = if t == 0.0 { f64::INFINITY } else { t };
            }
            6 => {
                let t = if s.chance(1, 6) { f64::NAN } else { -s.f64_log(1e-300, 1e10) };
                ensure!(c.set_tmax(t).is_err(), "negative-limit", "limit {} accepted", t);
                ensure!(c.set_inc(1.0 - s.f64(0.0, 3.0)).is_err(), "ratio-accepted", "ratio of at most 1 accepted");
                ensure!(c.inc == g, "ratio-changed", "ratio {}", c.inc);
            }
            // between two increases the ratio may be set anew: it holds from the next increase on
            7 if k == 0 || k % p.n != 0 => {
                let r = 1.0 + s.f64_log(1e-3, 5.0);
                ctx.note(|| format!("ratio {}", r));
                ok!(c.set_inc(r), "refused-ratio", "{}", r);
                g = c.inc;
                ensure!(g > 1.0 && g <= r, "ratio-set", "asked for the ratio {}, got {}", r, g);
                if k > 0 {
                    ctx.class("ratio set under way");
                }
            }
            _ => {
                with_steps(&c, s.size(0, 2 * p.n))?;
            }
        }
        ctx.checked(1);
    }
    Ok(())
}

fn bad_or_good(s: &mut Src) -> f64 {
    match s.draw(4) {
        0 => *s.pick(&[0.0, -0.0, -1.0, 9.99e-16, 1e-16, 5e-324, -1e-15, f64::MIN, -1e300, f64::NAN]),
        1 => *s.pick(&[1e-15, 1.0000001e-15, 1e-14, f64::MAX]),
        2 => s.f64_log(1e-15, 1e300),
        _ => s.f64_log(1e-15, 1e10),
    }
}

fn c20_clocks(s: &mut Src, ctx: &mut Ctx) -> R {
    let tmax = match s.weighted(&[4, 3, 1, 4]) {
        0 => 0.0,
        1 => -s.f64_log(1e-300, 1e10),
        2 => f64::NAN,
        _ => { let e = if s.chance(1, 4) { 1e300 } else { 1e10 }; s.f64_log(1e-15, e) }
    };
    if s.bool() {
        let dt = bad_or_good(s);
        ctx.note(|| format!("constant step dt={} tmax={}", dt, tmax));
        let valid = dt >= 1e-15;
        let direct = ok!(no_panic(|| ConstStep::new(dt)), "panic", "dt={}", dt);
        ensure!(direct.is_ok() == valid, "direct", "step {} {}", dt, if valid { "refused" } else { "accepted" });
        let args = const_from_args(dt, tmax);
        ensure!(args.is_ok() == (valid && tmax >= 0.0), "args", "step {} limit {}: {:?}", dt, tmax, args);
        if let (Ok(a), Ok(mut d)) = (args, direct) {
            ok!(d.set_tmax(tmax), "refused-limit", "{}", tmax);
            ensure!(a == d, "same", "{:?} and {:?}", a, d);
            ensure!(a.dt == dt && a.current == 0.0, "given", "{:?}", a);
            ctx.class("valid");
        } else {
            ctx.nontrivial();
        }
    } else {
        let (lo, hi) = match s.draw(3) {
            0 => (bad_or_good(s), bad_or_good(s)),
            1 => {
                let x = bad_or_good(s);
                (x, x)
            }
            _ => {
                let x = s.f64_log(1e-15, 1e10);
                (x, x * s.f64_log(0.1, 1e3))
            }
        };
        let n = if s.chance(1, 8) { s.draw(u64::MAX) as usize } else { *s.pick(&[0usize, 1, 2, 3, 9, 10, 11, 100]) };
        ctx.note(|| format!("growing step min={} max={} block={} tmax={}", lo, hi, n, tmax));
        let valid = lo >= 1e-15 && lo <= hi && n > 0;
        let direct = ok!(no_panic(|| ExponentialStep::new(lo, hi, n)), "panic", "min={} max={} block={}", lo, hi, n);
        ensure!(direct.is_ok() == valid, "direct", "min={} max={} block={}: {:?}", lo, hi, n, direct);
        let args = exp_from_args(lo, hi, n, tmax);
        ensure!(!args.is_ok() || (valid && tmax >= 0.0), "args-accepted", "min={} max={} block={} limit={} accepted", lo, hi, n, tmax);
        ensure!(args.is_ok() || !(valid && n >= 10 && tmax >= 0.0), "args-refused", "min={} max={} block={} limit={} refused: {:?}", lo, hi, n, tmax, args);
        if let (Ok(mut a), Ok(mut d)) = (args, direct) {
            ok!(d.set_tmax(tmax), "refused-limit", "{}", tmax);
            ensure!(a.inc > 1.0 && d.inc > 1.0, "ratio", "{} {}", a.inc, d.inc);
            a.inc = d.inc;
            ensure!(a == d, "same", "{:?} and {:?}", a, d);
            ensure!(a.titype == TimeType::Exponential(lo, hi, n) && a.dt == lo && a.current == 0.0, "given", "{:?}", a);
            ctx.class("valid");
        } else {
            ctx.nontrivial();
        }
    }
    ctx.checked(3);
    Ok(())
}

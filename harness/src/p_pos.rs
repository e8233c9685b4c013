//! C28: vector algebra; C29 for the vector queries.

use crate::gen::*;
use crate::pbt::*;
use crate::{ensure, ok};
use moledyn::prelude::*;

pub fn checks() -> Vec<Check> {
    vec![
        Check { prop: "C28", name: "c28_real", quick: 2400000, thorough: 140000000, shrink_budget: 3000, f: c28_real,
            rule: "real vectors of dimension 1..12 with components of magnitude 1e-60..1e60, zeros and special values; every operation in every form against the component-wise definition (bit for bit where no sum is involved); non-trivial = dimension at least 2 with two components of different magnitude" },
        Check { prop: "C28", name: "c28_int", quick: 3000000, thorough: 180000000, shrink_budget: 3000, f: c28_int,
            rule: "integer vectors of dimension 1..12 over the whole range of i32, results inside it; every operation against 64-bit arithmetic and against the same real vector; non-trivial = dimension at least 2 and a component beyond 65536" },
        Check { prop: "C28", name: "c28_history", quick: 2000000, thorough: 120000000, shrink_budget: 3000, f: c28_history,
            rule: "history of 1..30 in-place operations on a vector against a plain Vec; non-trivial = at least three different operations" },
        Check { prop: "C29", name: "c29_vectors", quick: 4000000, thorough: 240000000, shrink_budget: 2000, f: c29_vectors,
            rule: "distance, inner product and taxicab distance of vectors of different dimensions 0..8, real and integer, both orders; non-trivial = always" },
    ]
}

fn comp(s: &mut Src) -> f64 {
    match s.draw(8) {
        0 => 0.0,
        1 => s.draw(21) as f64 - 10.0,
        2 => *s.pick(&[-0.0, 1.0, -1.0, 0.5, 1e-15, 1e15, 1e-60, 1e60]),
        3 | 4 => {
            let x = s.f64_log(1e-60, 1e60);
            s.signed(x)
        }
        _ => {
            let x = s.f64_log(1e-6, 1e6);
            s.signed(x)
        }
    }
}

fn rvec(s: &mut Src, n: usize) -> Vec<f64> {
    (0..n).map(|_| comp(s)).collect()
}

/// The real number n representable numbers further from zero.
fn next_up(x: f64, n: i64) -> f64 {
    if x == 0.0 { x } else { f64::from_bits((x.to_bits() as i64 + n) as u64) }
}

fn eq_bits(a: &P, b: &[f64], sig: &str, what: &str) -> R {
    ensure!(bits(&a.coordinate) == bits(b), sig, "{}: got {:?}, component-wise {:?}", what, a.coordinate, b);
    Ok(())
}

fn c28_real(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = s.wide(1, 12, 70);
    let a = rvec(s, n);
    let b = match s.weighted(&[6, 1, 1, 2]) {
        0 => rvec(s, n),
        1 => a.clone(),
        2 => a.iter().map(|x| -x).collect(),
        // close to each other and far from the origin
        _ => {
            let e = if s.bool() { s.f64_log(1e-17, 1e-3) } else { 0.0 };
            a.iter().map(|x| match s.draw(4) {
                0 => *x,
                1 => x * (1.0 + e),
                2 => next_up(*x, 1 + s.draw(3) as i64),
                _ => next_up(*x, -1 - s.draw(3) as i64),
            }).collect()
        }
    };
    let k = comp(s);
    ctx.note(|| format!("a={:?} b={:?} k={}", a, b, k));
    let mags: Vec<f64> = a.iter().map(|x| x.abs()).collect();
    if n >= 2 && mags.iter().cloned().fold(0.0, f64::max) > 10.0 * mags.iter().cloned().fold(f64::INFINITY, f64::min) {
        ctx.nontrivial();
    }
    let (mut pa, mut pb) = (pv(a.clone()), pv(b.clone()));
    let sum: Vec<f64> = a.iter().zip(&b).map(|(x, y)| x + y).collect();
    let dif: Vec<f64> = a.iter().zip(&b).map(|(x, y)| x - y).collect();
    let sca: Vec<f64> = a.iter().map(|x| x * k).collect();
    eq_bits(&(&pa + &pb), &sum, "add", "&a + &b")?;
    eq_bits(&(&mut pa + &mut pb), &sum, "add-mut", "&mut a + &mut b")?;
    eq_bits(&(&pa - &pb), &dif, "sub", "&a - &b")?;
    eq_bits(&(&mut pa - &mut pb), &dif, "sub-mut", "&mut a - &mut b")?;
    eq_bits(&pa.scalar_mul(k), &sca, "scalar", "scalar_mul")?;
    let mut c = pa.clone();
    c.mut_add(&pb);
    eq_bits(&c, &sum, "mut-add", "mut_add")?;
    let mut c = pa.clone();
    c.mut_sub(&pb);
    eq_bits(&c, &dif, "mut-sub", "mut_sub")?;
    let mut c = pa.clone();
    c.mut_scalar_mul(k);
    eq_bits(&c, &sca, "mut-scalar", "mut_scalar_mul")?;
    let mut c = pa.clone();
    c.mut_add_bench(&pb);
    eq_bits(&c, &sum, "mut-add-bench", "mut_add_bench")?;

    let nd = pa.norm();
    ensure!(close(nd, norm(&a), 1e-12, 1e-70), "norm", "norm {} vs {}", nd, norm(&a));
    let d = ok!(pa.distance(&pb), "distance-err", "same dimension");
    ensure!(close(d, norm(&dif), 1e-12, 1e-70), "distance", "distance {} vs {}", d, norm(&dif));
    let d2 = ok!(pb.distance(&pa), "distance-err", "same dimension");
    ensure!(close(d2, d, 1e-12, 0.0), "distance-sym", "distance {} and back {}", d, d2);
    let ip = ok!(pa.inner_product(&pb), "inner-err", "same dimension");
    let (mut e, mut t) = (0.0, 0.0);
    for (x, y) in a.iter().zip(&b) {
        e += x * y;
        t += (x * y).abs();
    }
    ensure!((ip - e).abs() <= 1e-13 * t, "inner", "inner product {} vs {}", ip, e);
    let sq = ok!(pa.inner_product(&pa), "inner-err", "itself");
    ensure!(close(sq, nd * nd, 1e-12, 1e-120), "inner-norm", "<a,a> {} vs |a|^2 {}", sq, nd * nd);
    // operands untouched
    eq_bits(&pa, &a, "operand", "left operand after the operations")?;
    eq_bits(&pb, &b, "operand", "right operand after the operations")?;

    // component access
    ensure!(pa.dim() == n, "dim", "dim {}", pa.dim());
    for i in 0..n {
        ensure!(pa[i].to_bits() == a[i].to_bits(), "index", "component {} is {}", i, pa[i]);
    }
    let (i, j) = {
        let i = s.size(0, n);
        (i, s.size(i, n))
    };
    ensure!(bits(&pa[i..j]) == bits(&a[i..j]), "slice", "[{}..{}] is {:?}", i, j, &pa[i..j]);
    ensure!(bits(&pa[..j]) == bits(&a[..j]), "slice-to", "[..{}] is {:?}", j, &pa[..j]);
    ensure!(bits(&pa[i..]) == bits(&a[i..]), "slice-from", "[{}..] is {:?}", i, &pa[i..]);
    ensure!(bits(&pa.iter().cloned().collect::<Vec<f64>>()) == bits(&a), "iter", "iter over {:?}", pa.coordinate);
    ensure!(bits(&pa.clone().into_iter().collect::<Vec<f64>>()) == bits(&a), "into-iter", "into_iter over {:?}", pa.coordinate);
    let mut c = pa.clone();
    for (x, y) in c.iter_mut().zip(&b) {
        *x = *y;
    }
    eq_bits(&c, &b, "iter-mut", "iter_mut assignment")?;
    let mut c = pa.clone();
    c.extend(b.iter().cloned());
    let mut e = a.clone();
    e.extend(&b);
    eq_bits(&c, &e, "extend", "extend")?;
    let mut c = pa.clone();
    c.push(k);
    let mut e = a.clone();
    e.push(k);
    eq_bits(&c, &e, "push", "push")?;
    let mut c = pa.clone();
    c.clear();
    ensure!(c.dim() == n && c.iter().all(|x| *x == 0.0), "clear", "cleared {:?}", c.coordinate);
    ensure!((pa == pb) == (a == b), "eq", "a == b is {}", pa == pb);
    ctx.checked(26 + n as u64);
    Ok(())
}

fn icomp(s: &mut Src) -> i64 {
    match s.draw(4) {
        0 => s.draw(21) as i64 - 10,
        1 => s.draw(200_001) as i64 - 100_000,
        2 => s.draw(1 << 32) as i64 - (1 << 31),
        _ => *s.pick(&[0, 1, -1, 46340, 46341, -46341, 65536, 92682, i32::MAX as i64, i32::MIN as i64]),
    }
}

fn c28_int(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = s.wide(1, 12, 70);
    let a: Vec<i64> = (0..n).map(|_| icomp(s)).collect();
    let b: Vec<i64> = (0..n).map(|_| icomp(s)).collect();
    let k = *s.pick(&[0i64, 1, -1, 2, 3, -7, 1000]);
    ctx.note(|| format!("a={:?} b={:?} k={}", a, b, k));
    if n >= 2 && a.iter().chain(&b).any(|x| x.abs() > 65536) {
        ctx.nontrivial();
    }
    let fits = |v: &[i64]| v.iter().all(|x| *x >= i32::MIN as i64 && *x <= i32::MAX as i64);
    let i32v = |v: &[i64]| v.iter().map(|x| *x as i32).collect::<Vec<i32>>();
    let f = |v: &[i64]| v.iter().map(|x| *x as f64).collect::<Vec<f64>>();
    let (mut pa, mut pb) = (Position::<i32>::new(i32v(&a)), Position::<i32>::new(i32v(&b)));
    let (fa, fb) = (pv(f(&a)), pv(f(&b)));
    let sum: Vec<i64> = a.iter().zip(&b).map(|(x, y)| x + y).collect();
    let dif: Vec<i64> = a.iter().zip(&b).map(|(x, y)| x - y).collect();
    let sca: Vec<i64> = a.iter().map(|x| x * k).collect();
    let same = |p: &Position<i32>, e: &[i64], sig: &str| -> R {
        ensure!(p.coordinate == i32v(e), sig, "got {:?}, component-wise {:?}", p.coordinate, e);
        Ok(())
    };
    if fits(&sum) {
        ctx.class("sum");
        same(&(&pa + &pb), &sum, "add")?;
        same(&(&mut pa + &mut pb), &sum, "add-mut")?;
        let mut c = pa.clone();
        c.mut_add(&pb);
        same(&c, &sum, "mut-add")?;
        let mut c = pa.clone();
        c.mut_add_bench(&pb);
        same(&c, &sum, "mut-add-bench")?;
    }
    if fits(&dif) {
        ctx.class("difference");
        same(&(&pa - &pb), &dif, "sub")?;
        same(&(&mut pa - &mut pb), &dif, "sub-mut")?;
        let mut c = pa.clone();
        c.mut_sub(&pb);
        same(&c, &dif, "mut-sub")?;
    }
    if fits(&sca) {
        ctx.class("scaled");
        same(&pa.scalar_mul(k as i32), &sca, "scalar")?;
        let mut c = pa.clone();
        c.mut_scalar_mul(k as i32);
        same(&c, &sca, "mut-scalar")?;
    }
    let e = norm(&f(&a));
    ensure!(close(pa.norm(), e, 1e-12, 0.0), "norm", "norm {} vs {}", pa.norm(), e);
    ensure!(close(pa.norm(), fa.norm(), 1e-12, 0.0), "norm-agree", "integer {} real {}", pa.norm(), fa.norm());
    let d = ok!(pa.distance(&pb), "distance-err", "same dimension");
    let e = norm(&f(&dif));
    ensure!(close(d, e, 1e-12, 0.0), "distance", "distance {} vs {}", d, e);
    let df = ok!(fa.distance(&fb), "distance-err", "same dimension");
    ensure!(close(d, df, 1e-12, 0.0), "distance-agree", "integer {} real {}", d, df);
    let taxi: i64 = dif.iter().map(|x| x.abs()).sum();
    if taxi <= i32::MAX as i64 {
        ctx.class("taxi");
        let t = ok!(pa.taxi_distance(&pb), "taxi-err", "same dimension");
        ensure!(t as i64 == taxi, "taxi", "taxicab {} vs {}", t, taxi);
        let t = ok!(pb.taxi_distance(&pa), "taxi-err", "same dimension");
        ensure!(t as i64 == taxi, "taxi-sym", "taxicab {} vs {}", t, taxi);
    }
    same(&pa, &a, "operand")?;
    same(&pb, &b, "operand")?;
    ensure!(pa.dim() == n, "dim", "dim {}", pa.dim());
    let mut c = pa.clone();
    c.clear();
    same(&c, &vec![0; n], "clear")?;
    let j = s.size(0, n);
    ensure!(pa[j..] == i32v(&a)[j..] && pa[..j] == i32v(&a)[..j], "slice", "slices at {}", j);
    ctx.checked(14);
    Ok(())
}

fn c28_history(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = s.wide(1, 6, 40);
    let mut m = rvec(s, n);
    let mut p = pv(m.clone());
    let mut kinds = std::collections::BTreeSet::new();
    for _ in 0..s.size(1, 30) {
        let op = s.draw(9);
        kinds.insert(op);
        match op {
            0 => {
                let b = rvec(s, m.len());
                ctx.note(|| format!("add {:?}", b));
                p.mut_add(&pv(b.clone()));
                for (x, y) in m.iter_mut().zip(&b) {
                    *x += y;
                }
            }
            1 => {
                let b = rvec(s, m.len());
                ctx.note(|| format!("sub {:?}", b));
                p.mut_sub(&pv(b.clone()));
                for (x, y) in m.iter_mut().zip(&b) {
                    *x -= y;
                }
            }
            2 => {
                let k = s.f64(-2.0, 2.0);
                ctx.note(|| format!("mul {}", k));
                p.mut_scalar_mul(k);
                for x in m.iter_mut() {
                    *x *= k;
                }
            }
            3 => {
                let i = s.size(0, m.len() - 1);
                let x = comp(s);
                ctx.note(|| format!("[{}] = {}", i, x));
                p[i] = x;
                m[i] = x;
            }
            4 if m.len() < 12 => {
                let x = comp(s);
                ctx.note(|| format!("push {}", x));
                p.push(x);
                m.push(x);
            }
            5 if m.len() < 12 => {
                let b = { let k = s.dim(0, 3, 60); rvec(s, k) };
                ctx.note(|| format!("extend {:?}", b));
                match s.draw(3) {
                    0 => p.extend(b.clone()),
                    1 => {
                        // an iterator that does not know its length
                        let mut it = b.clone().into_iter();
                        p.extend(std::iter::from_fn(move || it.next()));
                    }
                    _ => p.extend(b.iter().chain(&b[..0]).filter(|_| true).cloned()),
                }
                m.extend(b);
            }
            6 => {
                ctx.note(|| "clear".into());
                p.clear();
                for x in m.iter_mut() {
                    *x = 0.0;
                }
            }
            7 => {
                ctx.note(|| "double by iter_mut".into());
                for x in p.iter_mut() {
                    *x *= 2.0;
                }
                for x in m.iter_mut() {
                    *x *= 2.0;
                }
            }
            _ => {
                ctx.note(|| "clone_from".into());
                let q = pv(m.clone());
                p.clone_from(&q);
            }
        }
        eq_bits(&p, &m, "history", "after the operation")?;
        ctx.checked(1);
        if m.iter().any(|x| !x.is_finite() || x.abs() > 1e200) {
            break;
        }
    }
    if kinds.len() >= 3 {
        ctx.nontrivial();
    }
    Ok(())
}

fn c29_vectors(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = s.wide(0, 8, 40);
    let m = {
        let m = s.size(0, 7);
        if m >= n { m + 1 } else { m }
    };
    let a = rvec(s, n);
    let b = rvec(s, m);
    ctx.note(|| format!("a={:?} b={:?}", a, b));
    ctx.nontrivial();
    let (pa, pb) = (pv(a.clone()), pv(b.clone()));
    let chk = |r: Result<bool, String>, what: &str| -> R {
        match r {
            Ok(true) => Ok(()),
            Ok(false) => fail(what, format!("{} of dimensions {} and {} accepted", what, n, m)),
            Err(e) => fail("panic", format!("{} of dimensions {} and {} panicked: {}", what, n, m, e)),
        }
    };
    chk(no_panic(|| pa.distance(&pb).is_err()), "distance")?;
    chk(no_panic(|| pa.inner_product(&pb).is_err()), "inner-product")?;
    eq_bits(&pa, &a, "changed", "left")?;
    eq_bits(&pb, &b, "changed", "right")?;
    let ia = Position::<i32>::new(a.iter().map(|x| *x as i32).collect());
    let ib = Position::<i32>::new(b.iter().map(|x| *x as i32).collect());
    let (ca, cb) = (ia.clone(), ib.clone());
    chk(no_panic(|| ia.distance(&ib).is_err()), "distance-int")?;
    chk(no_panic(|| ia.taxi_distance(&ib).is_err()), "taxi-distance")?;
    ensure!(ia == ca && ib == cb, "changed", "operands changed");
    ctx.checked(6);
    Ok(())
}

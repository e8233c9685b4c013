//! C12, C13, C14: the agent list against a plain model.

use crate::gen::*;
use crate::pbt::*;
use crate::{ensure, ok};
use moledyn::prelude::*;

pub fn checks() -> Vec<Check> {
    vec![
        Check { prop: "C12", name: "c12_model", quick: 2000000, thorough: 120000000, shrink_budget: 4000, f: c12_model,
            rule: "history of 1..40, sometimes up to 400 operations (append, delete existing/dead/missing/first/last, reconnect, full and partial traversals by each of the five cursors, deletions and content changes during a traversal, abandoned pair traversals) on lists of 0..12 elements, compared with a plain model after every step; non-trivial = a deletion while a traversal is under way" },
        Check { prop: "C12", name: "c12_large", quick: 6000, thorough: 360000, shrink_budget: 200, f: c12_large,
            rule: "lists of 100..2000 elements, long runs of deletions and appends, full traversals; non-trivial = every case" },
        Check { prop: "C12", name: "c12_clear", quick: 600000, thorough: 36000000, shrink_budget: 1000, f: c12_clear,
            rule: "lists of vectors with some deleted: clearing zeroes the vectors of all live elements and keeps their dimension; non-trivial = at least one deleted and two live" },
        Check { prop: "C13", name: "c13_pairs", quick: 3000000, thorough: 180000000, shrink_budget: 4000, f: c13_pairs,
            rule: "pair traversal by the three cursors (also mixed) over lists of 0..10 elements with earlier history, elements deleted between steps (first or second of the pair, next, last, any, refused); non-trivial = at least one deletion under way and a pair after it" },
        Check { prop: "C13", name: "c13_coalesce", quick: 600000, thorough: 36000000, shrink_budget: 2000, f: c13_coalesce,
            rule: "merging agents on a line coalesced during one pair traversal, as the coalescence programs do; non-trivial = at least two merges in one traversal" },
        Check { prop: "C13", name: "c13_large", quick: 5000, thorough: 300000, shrink_budget: 60, f: c13_large,
            rule: "pair traversals over lists of 60..400 elements with earlier deletions, runs of deletions at random moments of the traversal; non-trivial = at least 300 live elements at the start and a deletion under way" },
        Check { prop: "C14", name: "c14_large", quick: 6000, thorough: 360000, shrink_budget: 200, f: c14_large,
            rule: "20..400 particles merged at random down to few clusters, sizes up to 2^52 by direct growth, exponents of both signs; non-trivial = every case" },
        Check { prop: "C14", name: "c14_merge", quick: 600000, thorough: 36000000, shrink_budget: 4000, f: c14_merge,
            rule: "history of 1..40 merges (valid, self, dead, missing, unsupported motion), ensemble renewals and direct merges of 1..12 agents; non-trivial = at least one cluster of size 3 or more and one refused merge" },
    ]
}

#[derive(Clone)]
struct Model {
    vals: Vec<i64>,
    alive: Vec<bool>,
}

impl Model {
    fn live(&self) -> Vec<usize> {
        (0..self.vals.len()).filter(|&i| self.alive[i]).collect()
    }
    /// next live index after `last`
    fn next(&self, last: Option<usize>) -> Option<usize> {
        let from = last.map(|x| x + 1).unwrap_or(0);
        (from..self.vals.len()).find(|&i| self.alive[i])
    }
    fn next_pair(&self, last: Option<(usize, usize)>) -> Option<(usize, usize)> {
        let live = self.live();
        for (a, &i) in live.iter().enumerate() {
            for &j in &live[a + 1..] {
                if last.map(|l| (i, j) > l).unwrap_or(true) {
                    return Some((i, j));
                }
            }
        }
        None
    }
}

/// One step of a single traversal with cursor kind k: (index if the cursor tells it, content)
fn step(l: &mut LinkedList<i64>, k: usize, change: Option<i64>) -> Option<(Option<usize>, Option<i64>)> {
    match k {
        0 => l.get().map(|v| (None, Some(*v))),
        1 => l.get_mut().map(|v| {
            let old = *v;
            if let Some(c) = change {
                *v = c;
            }
            (None, Some(old))
        }),
        2 => l.enumerate().map(|(i, v)| (Some(i), Some(*v))),
        3 => l.enumerate_mut().map(|(i, v)| {
            let old = *v;
            if let Some(c) = change {
                *v = c;
            }
            (Some(i), Some(old))
        }),
        _ => l.indicies().map(|i| (Some(i), None)),
    }
}

fn full(l: &mut LinkedList<i64>, m: &Model, k: usize, when: &str) -> R {
    l.into_iter();
    let mut last = None;
    let mut n = 0;
    loop {
        let want = m.next(last);
        let got = step(l, k, None);
        match (want, got) {
            (None, None) => break,
            (Some(w), Some((i, v))) => {
                ensure!(i.map(|x| x == w).unwrap_or(true) && v.map(|x| x == m.vals[w]).unwrap_or(true), "visit", "{}: cursor {} visits {:?} with content {:?}, expected index {} content {}", when, k, i, v, w, m.vals[w]);
                last = Some(w);
            }
            (w, g) => return fail("visit-end", format!("{}: cursor {} visits {:?}, expected {:?} (live {:?})", when, k, g, w, m.live())),
        }
        n += 1;
        if n > m.vals.len() + 10 {
            return fail("endless", format!("{}: traversal does not end", when));
        }
    }
    ensure!(step(l, k, None).is_none(), "after-end", "{}: a finished traversal goes on", when);
    Ok(())
}

fn c12_model(s: &mut Src, ctx: &mut Ctx) -> R {
    let n0 = s.size(0, 6);
    let mut counter = 0i64;
    let mut fresh = || {
        counter += 1;
        counter * 7
    };
    let init: Vec<i64> = (0..n0).map(|_| fresh()).collect();
    let mut l = if n0 == 0 && s.bool() { LinkedList::new() } else { LinkedList::from(init.clone()) };
    let mut m = Model { vals: init, alive: vec![true; n0] };
    ctx.note(|| format!("list of {}", n0));
    let nops = if s.chance(1, 40) { s.size(41, 400) } else { s.size(1, 40) };
    for opn in 0..nops {
        let op = s.weighted(&[4, 5, 2, 3, 3, 3, 2]);
        match op {
            0 => {
                if m.vals.len() < 14 {
                    let v = fresh();
                    l.push(v);
                    m.vals.push(v);
                    m.alive.push(true);
                    ctx.note(|| format!("push #{}", m.vals.len() - 1));
                }
            }
            1 => {
                let i = pick_index(s, &m);
                del(&mut l, &mut m, i, ctx)?;
            }
            2 => {
                ok!(l.connect_all(), "connect", "connect_all");
                m.alive.iter_mut().for_each(|x| *x = true);
                ctx.note(|| "connect_all".into());
            }
            3 => {
                let k = s.size(0, 4);
                ctx.note(|| format!("traverse {}", k));
                full(&mut l, &m, k, &format!("operation {}", opn))?;
                ctx.checked(1);
            }
            4 => {
                // abandoned traversal
                let k = s.size(0, 4);
                let steps = s.size(0, 5);
                l.into_iter();
                for _ in 0..steps {
                    step(&mut l, k, None);
                }
                ctx.note(|| format!("partial {} x{}", k, steps));
            }
            5 => {
                // traversal with deletions and content changes under way
                let k0 = s.size(0, 4);
                let mixed = s.chance(1, 4);
                l.into_iter();
                ctx.note(|| format!("traverse {} with deletions", k0));
                let mut last: Option<usize> = None;
                let mut guard = 0;
                loop {
                    // deletions before this step
                    while s.chance(1, 4) {
                        let i = match s.size(0, 3) {
                            0 => m.next(last),
                            1 => last,
                            2 => m.live().last().copied(),
                            _ => Some(pick_index(s, &m)),
                        };
                        if let Some(i) = i {
                            if del(&mut l, &mut m, i, ctx)? {
                                ctx.nontrivial();
                                ctx.class("deletion under way");
                            }
                        }
                    }
                    let k = if mixed { s.size(0, 4) } else { k0 };
                    let change = if s.chance(1, 3) { Some(fresh()) } else { None };
                    let want = m.next(last);
                    let got = step(&mut l, k, change);
                    ctx.checked(1);
                    match (want, got) {
                        (None, None) => break,
                        (Some(w), Some((i, v))) => {
                            ctx.note(|| format!("visit #{}", w));
                            ensure!(i.map(|x| x == w).unwrap_or(true) && v.map(|x| x == m.vals[w]).unwrap_or(true), "visit-under-way", "cursor {} visits {:?} with content {:?}, expected index {} content {}", k, i, v, w, m.vals[w]);
                            last = Some(w);
                            if let (Some(c), true) = (change, k == 1 || k == 3) {
                                m.vals[w] = c;
                            }
                        }
                        (w, g) => return fail("visit-end-under-way", format!("cursor {} visits {:?}, expected {:?} (live {:?}, last {:?})", k, g, w, m.live(), last)),
                    }
                    guard += 1;
                    if guard > 40 {
                        return fail("endless", "traversal does not end".into());
                    }
                    if s.chance(1, 30) {
                        break;
                    }
                }
            }
            _ => {
                // abandoned pair traversal
                l.into_double_iter();
                let steps = s.size(0, 8);
                for _ in 0..steps {
                    l.indicies_double();
                }
                ctx.note(|| format!("partial pairs x{}", steps));
            }
        }
    }
    let k = s.size(0, 4);
    full(&mut l, &m, k, "finally")?;
    // contents and the final reconnection
    ok!(l.connect_all(), "connect", "connect_all");
    m.alive.iter_mut().for_each(|x| *x = true);
    full(&mut l, &m, 2, "after reconnection")?;
    ctx.checked(2);
    Ok(())
}

fn pick_index(s: &mut Src, m: &Model) -> usize {
    let n = m.vals.len();
    let live = m.live();
    match s.weighted(&[5, 2, 2, 1, 1]) {
        0 if !live.is_empty() => *s.pick(&live),
        1 if !live.is_empty() => live[0],
        2 if !live.is_empty() => live[live.len() - 1],
        3 => n + s.size(0, 2),
        _ => s.size(0, n),
    }
}

fn del(l: &mut LinkedList<i64>, m: &mut Model, i: usize, ctx: &mut Ctx) -> Result<bool, Stop> {
    ctx.note(|| format!("del #{}", i));
    let valid = i < m.vals.len() && m.alive[i];
    let r = match no_panic(|| l.del(i)) {
        Ok(r) => r,
        Err(e) => return fail("del-panic", format!("del({}): {}", i, e)),
    };
    ensure!(r.is_ok() == valid, "del-result", "del({}) gives {:?}, live {:?} of {}", i, r, m.live(), m.vals.len());
    if valid {
        m.alive[i] = false;
    }
    Ok(valid)
}

fn c12_large(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = s.size(100, 2000);
    let init: Vec<i64> = (0..n as i64).map(|x| x * 3 + 1).collect();
    let mut l = LinkedList::from(init.clone());
    let mut m = Model { vals: init, alive: vec![true; n] };
    ctx.nontrivial();
    ctx.note(|| format!("list of {}", n));
    let mut live: Vec<usize> = (0..n).collect();
    for _ in 0..3 {
        let cut = s.size(0, live.len());
        for _ in 0..cut {
            let j = s.size(0, live.len() - 1);
            let i = live.remove(j);
            ok!(l.del(i), "del", "del({})", i);
            m.alive[i] = false;
        }
        for _ in 0..s.size(0, 20) {
            l.push(-5);
            m.vals.push(-5);
            m.alive.push(true);
            live.push(m.vals.len() - 1);
        }
        let k = s.size(0, 4);
        full(&mut l, &m, k, "large")?;
        ctx.checked(1);
        if s.chance(1, 3) {
            ok!(l.connect_all(), "connect", "");
            m.alive.iter_mut().for_each(|x| *x = true);
            live = (0..m.vals.len()).collect();
            full(&mut l, &m, k, "large reconnected")?;
        }
    }
    Ok(())
}

fn c12_clear(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = s.size(0, 8);
    let vs: Vec<Vec<f64>> = (0..n).map(|_| { let d = s.size(0, 4); (0..d).map(|_| s.f64_finite()).collect() }).collect();
    let mut l = LinkedList::from(vs.iter().map(|v| pv(v.clone())).collect::<Vec<_>>());
    let mut alive = vec![true; n];
    for i in 0..n {
        if s.chance(1, 3) {
            ok!(l.del(i), "del", "{}", i);
            alive[i] = false;
        }
    }
    ctx.note(|| format!("{:?} live {:?}", vs, alive));
    let nl = alive.iter().filter(|x| **x).count();
    if nl >= 2 && nl < n {
        ctx.nontrivial();
    }
    if s.bool() {
        l.into_iter();
        l.get();
    }
    l.clear();
    l.into_iter();
    let mut k = 0;
    while let Some((i, v)) = l.enumerate() {
        ensure!(alive.get(i).copied().unwrap_or(false), "dead", "element {} visited after clearing", i);
        ensure!(v.coordinate == vec![0.0; vs[i].len()], "clear", "element {} is {:?} after clearing", i, v.coordinate);
        k += 1;
        if k > n {
            return fail("endless", "traversal does not end".into());
        }
    }
    ctx.checked(nl as u64 + 1);
    ensure!(k == nl, "count", "{} elements visited, {} live", k, nl);
    Ok(())
}

fn pair_step(l: &mut LinkedList<i64>, k: usize) -> Option<(Option<(usize, usize)>, Option<(i64, i64)>)> {
    match k {
        0 => l.get_double().map(|(a, b)| (None, Some((*a, *b)))),
        1 => l.enumerate_double().map(|(i, a, j, b)| (Some((i, j)), Some((*a, *b)))),
        _ => l.indicies_double().map(|p| (Some(p), None)),
    }
}

fn c13_pairs(s: &mut Src, ctx: &mut Ctx) -> R {
    let n0 = s.size(0, 8);
    let init: Vec<i64> = (0..n0 as i64).map(|x| 100 + x).collect();
    let mut l = LinkedList::from(init.clone());
    let mut m = Model { vals: init, alive: vec![true; n0] };
    ctx.note(|| format!("list of {}", n0));
    // earlier history
    let nh = if s.chance(1, 20) { s.size(7, 60) } else { s.size(0, 6) };
    for _ in 0..nh {
        match s.size(0, 4) {
            0 => {
                let i = pick_index(s, &m);
                del(&mut l, &mut m, i, ctx)?;
            }
            1 if m.vals.len() < 14 => {
                let v = 200 + m.vals.len() as i64;
                l.push(v);
                m.vals.push(v);
                m.alive.push(true);
                ctx.note(|| "push".into());
            }
            2 => {
                l.into_iter();
                for _ in 0..s.size(0, 4) {
                    l.get();
                }
            }
            3 => {
                l.into_double_iter();
                for _ in 0..s.size(0, 6) {
                    l.get_double();
                }
            }
            _ => {
                ok!(l.connect_all(), "connect", "");
                m.alive.iter_mut().for_each(|x| *x = true);
                ctx.note(|| "connect_all".into());
            }
        }
    }
    l.into_double_iter();
    ctx.note(|| format!("pairs of {:?}", m.live()));
    let k0 = s.size(0, 2);
    let mixed = s.chance(1, 4);
    let dels = s.bool();
    let mut last: Option<(usize, usize)> = None;
    let mut deleted = false;
    let cap = m.vals.len() * m.vals.len() + 10;
    let mut guard = 0;
    loop {
        while dels && s.chance(1, 5) {
            let i = match s.size(0, 5) {
                0 => last.map(|l| l.0),
                1 => last.map(|l| l.1),
                2 => m.next_pair(last).map(|p| p.0),
                3 => m.next_pair(last).map(|p| p.1),
                4 => m.live().last().copied(),
                _ => Some(pick_index(s, &m)),
            };
            if let Some(i) = i {
                if del(&mut l, &mut m, i, ctx)? {
                    deleted = true;
                    ctx.class("deletion under way");
                }
            }
        }
        let k = if mixed { s.size(0, 2) } else { k0 };
        let want = m.next_pair(last);
        let got = match no_panic(|| pair_step(&mut l, k)) {
            Ok(g) => g,
            Err(e) => return fail("panic", format!("pair cursor {}: {} (last {:?}, live {:?})", k, e, last, m.live())),
        };
        ctx.checked(1);
        match (want, got) {
            (None, None) => break,
            (Some(w), Some((i, v))) => {
                ctx.note(|| format!("pair {:?}", w));
                ensure!(i.map(|x| x == w).unwrap_or(true) && v.map(|x| x == (m.vals[w.0], m.vals[w.1])).unwrap_or(true), "pair", "pair cursor {} visits {:?} with contents {:?}, expected {:?}", k, i, v, w);
                last = Some(w);
                if deleted {
                    ctx.nontrivial();
                }
            }
            (w, g) => return fail("pair-end", format!("pair cursor {} visits {:?}, expected {:?} (live {:?}, last {:?})", k, g, w, m.live(), last)),
        }
        guard += 1;
        if guard > cap {
            return fail("endless", "pair traversal does not end".into());
        }
    }
    ensure!(pair_step(&mut l, k0).is_none(), "after-end", "a finished pair traversal goes on");
    full(&mut l, &m, 2, "after the pair traversal")?;
    Ok(())
}

fn c13_coalesce(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = s.size(2, 10);
    let rad = 1.0;
    let xs: Vec<f64> = (0..n).map(|_| s.f64(0.0, n as f64)).collect();
    let agents: Vec<_> = xs.iter().map(|x| ContPassiveMergeAgent::new(MoveType::Brownian(1.0), pv(vec![*x]), rad, 1.0)).collect();
    let mut l = LinkedList::from(agents);
    ctx.note(|| format!("agents at {:?}", xs));
    let mut m = Model { vals: vec![0; n], alive: vec![true; n] };
    let mut size = vec![1usize; n];
    let mut last = None;
    let mut merges = 0;
    let thr = s.f64(0.1, 2.0);
    l.into_double_iter();
    let mut guard = 0;
    loop {
        let want = m.next_pair(last);
        let got = l.enumerate_double().map(|(i, a, j, b)| (i, j, (a.pos[0] - b.pos[0]).abs()));
        ctx.checked(1);
        match (want, got) {
            (None, None) => break,
            (Some(w), Some((i, j, d))) if w == (i, j) => {
                last = Some(w);
                if d < thr {
                    // the first absorbs the second, or the other way round
                    let (p, q) = if s.bool() { (i, j) } else { (j, i) };
                    ok!(l.merge(p, q), "merge", "merge({}, {})", p, q);
                    m.alive[q] = false;
                    size[p] += size[q];
                    merges += 1;
                    ctx.note(|| format!("merge {} into {}", q, p));
                }
            }
            (w, g) => return fail("pair", format!("pair traversal visits {:?}, expected {:?} (live {:?}, last {:?})", g, w, m.live(), last)),
        }
        guard += 1;
        if guard > n * n + 10 {
            return fail("endless", "pair traversal does not end".into());
        }
    }
    if merges >= 2 {
        ctx.nontrivial();
    }
    l.into_iter();
    let mut total = 0;
    while let Some((i, a)) = l.enumerate() {
        ensure!(m.alive[i] && a.size == size[i], "size", "cluster {} of size {}, expected {}", i, a.size, size[i]);
        total += a.size;
    }
    ensure!(total == n, "total", "total size {} of {} particles", total, n);
    Ok(())
}

fn c14_merge(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = s.size(1, 12);
    let alpha = match s.weighted(&[3, 1, 1]) {
        0 => s.f64(-1.0, 2.0),
        1 => 1.0,
        _ => 0.0,
    };
    let same = s.bool();
    let d0 = s.f64_log(1e-3, 1e3);
    let ds: Vec<f64> = (0..n).map(|_| if same { d0 } else { s.f64_log(1e-3, 1e3) }).collect();
    let levy: Vec<bool> = (0..n).map(|_| s.chance(1, 12)).collect();
    ctx.note(|| format!("{} agents D {:?} alpha {} levy {:?}", n, ds, alpha, levy));
    let from_args = same && !levy.contains(&true) && s.bool();
    let mut l = if from_args {
        let v = vec![format!("{}", d0), "0,0".to_string(), "0.1".to_string(), format!("{}", alpha), format!("{}", n)];
        let a = ok!(ContPassiveMergeAgent::read_args_from_vec(&v), "args", "{:?}", v);
        LinkedList::from(ContPassiveMergeAgent::convert_from(&a))
    } else {
        LinkedList::from((0..n).map(|i| ContPassiveMergeAgent::new(if levy[i] { MoveType::Levy } else { MoveType::Brownian(ds[i]) }, pv(vec![i as f64, 0.0]), 0.1, alpha)).collect::<Vec<_>>())
    };
    let mut alive = vec![true; n];
    let mut size = vec![1usize; n];
    let mut merged_ops = vec![0usize; n];
    let mut rng = rng_seed(rng_seed_of(s));
    let mut refused = false;
    let mut big = false;
    for _ in 0..s.size(1, 40) {
        match s.weighted(&[10, 1, 1]) {
            0 => {
                let pick = |s: &mut Src, alive: &Vec<bool>| -> usize {
                    let live: Vec<usize> = (0..n).filter(|&i| alive[i]).collect();
                    match s.weighted(&[7, 1, 1]) {
                        0 if !live.is_empty() => *s.pick(&live),
                        1 => n + s.size(0, 2),
                        _ => s.size(0, n - 1),
                    }
                };
                let i = pick(s, &alive);
                let j = if s.chance(1, 8) { i } else { pick(s, &alive) };
                let valid = i != j && i < n && j < n && alive[i] && alive[j] && !levy[i];
                let before: Vec<ContPassiveMergeAgent> = l.contents.clone();
                ctx.note(|| format!("merge({}, {})", i, j));
                let r = match no_panic(|| l.merge(i, j)) {
                    Ok(r) => r,
                    Err(e) => return fail("panic", format!("merge({}, {}): {}", i, j, e)),
                };
                ensure!(r.is_ok() == valid, "result", "merge({}, {}) gives {:?}", i, j, r);
                if valid {
                    alive[j] = false;
                    size[i] += size[j];
                    merged_ops[i] += 1;
                    if size[i] >= 3 {
                        big = true;
                    }
                    for k in 0..n {
                        ensure!(k == i || !alive[k] || l.contents[k] == before[k], "other-changed", "merge({}, {}) changed cluster {}", i, j, k);
                    }
                } else {
                    refused = true;
                    for k in 0..n {
                        ensure!(l.contents[k] == before[k], "refused-changed", "refused merge({}, {}) changed cluster {} from {:?} to {:?}", i, j, k, before[k], l.contents[k]);
                    }
                }
            }
            1 => {
                // next ensemble, possibly in a system of another dimension, or of the clusters left only
                let d = if s.chance(1, 3) { s.size(1, 4) } else { 2 };
                let (ball, cube) = (ContCircSystem::new(5.0, d), ContCubicSystem::new(BoundaryCond::Periodic, 5.0, d));
                let sys: &dyn SystemCore<f64> = if s.bool() { &ball } else { &cube };
                let target = ContBulkTarget::new(pv(vec![0.0; d]), 0.1);
                let all = s.chance(3, 4);
                if all {
                    ok!(l.connect_all(), "connect", "");
                }
                l.into_iter();
                while let Some((i, a)) = l.enumerate_mut() {
                    if !levy[i] {
                        ok!(a.renew_uniform(sys, &target, &mut rng), "renew", "{}", i);
                        size[i] = 1;
                        merged_ops[i] += 1;
                    }
                }
                if all {
                    alive.iter_mut().for_each(|x| *x = true);
                }
                // clusters with unsupported motion never grow
                ctx.note(|| format!("renew {} in {} dimensions", if all { "all" } else { "those left" }, d));
            }
            _ => {
                // direct merge of two agents, outside of the list
                let live: Vec<usize> = (0..n).filter(|&i| alive[i]).collect();
                if live.len() >= 2 {
                    let i = *s.pick(&live);
                    let j = *s.pick(&live);
                    let mut a = l.contents[i].clone();
                    let b = l.contents[j].clone();
                    let before = a.clone();
                    let r = a.merge(&b);
                    ensure!(r.is_ok() == !levy[i], "direct", "merge of agents gives {:?}", r);
                    if levy[i] {
                        ensure!(a == before, "direct-changed", "refused merge changed {:?} to {:?}", before, a);
                    } else {
                        let nn = size[i] + size[j];
                        ensure!(a.size == nn && a.size() == nn, "direct-size", "merged size {} instead of {}", a.size, nn);
                        let want = ds[i] * (nn as f64).powf(-alpha);
                        match a.mtype {
                            MoveType::Brownian(d) => ensure!(close(d, want, 1e-9, 0.0), "direct-law", "cluster of size {} diffuses with {} instead of {}", nn, d, want),
                            x => return fail("direct-law", format!("motion {:?}", x)),
                        }
                        let mut c = a.clone();
                        c.size = before.size;
                        c.mtype = before.mtype;
                        ensure!(c == before, "direct-params", "merge changed {:?} to {:?}", before, a);
                        ensure!(b == l.contents[j], "direct-other", "merge changed the other agent");
                    }
                }
            }
        }
        // whole state
        ctx.checked(n as u64 + 1);
        l.into_iter();
        let mut seen = Vec::new();
        let mut total = 0;
        while let Some((i, a)) = l.enumerate() {
            seen.push(i);
            total += a.size();
            ensure!(i < n && a.size() == size[i], "size", "cluster {} has size {}, expected {}", i, a.size(), size[i]);
            match a.mtype {
                MoveType::Brownian(d) => {
                    let want = ds[i] * (size[i] as f64).powf(-alpha);
                    ensure!(close(d, want, 1e-12 * (4.0 + merged_ops[i] as f64), 0.0), "law", "cluster {} of size {} diffuses with {} instead of {} (alpha {})", i, size[i], d, want, alpha);
                }
                MoveType::Levy => ensure!(levy[i], "motion", "cluster {} changed its motion", i),
            }
            if seen.len() > n {
                return fail("endless", "traversal does not end".into());
            }
        }
        let live: Vec<usize> = (0..n).filter(|&i| alive[i]).collect();
        ensure!(seen == live, "live", "live clusters {:?}, expected {:?}", seen, live);
        let want: usize = live.iter().map(|&i| size[i]).sum();
        ensure!(total == want, "total", "total size {} instead of {}", total, want);
    }
    if refused && big {
        ctx.nontrivial();
    }
    Ok(())
}

fn c13_large(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = if s.chance(1, 30) { s.size(500, 1200) } else { s.size(60, 400) };
    let init: Vec<i64> = (0..n as i64).map(|x| 1000 + 7 * x).collect();
    let mut l = LinkedList::from(init.clone());
    let mut m = Model { vals: init, alive: vec![true; n] };
    for _ in 0..s.size(0, 30) {
        let i = s.size(0, n - 1);
        del(&mut l, &mut m, i, ctx)?;
    }
    let start = m.live().len();
    l.into_double_iter();
    ctx.note(|| format!("pairs of {} in a list of {}", start, n));
    // the list of live elements and the place of the pair in it
    let mut live = m.live();
    let total = start * start.saturating_sub(1) / 2;
    let mut stops: Vec<usize> = (0..s.size(0, 12)).map(|_| s.size(0, total)).collect();
    stops.sort();
    let k = s.size(0, 2);
    let mut last: Option<(usize, usize)> = None;
    let mut seen = 0;
    loop {
        while stops.first() == Some(&seen) {
            stops.remove(0);
            for _ in 0..s.size(1, 20) {
                let i = match s.size(0, 4) {
                    0 => last.map(|x| x.0).unwrap_or(0),
                    1 => last.map(|x| x.1).unwrap_or(1),
                    2 => live.last().copied().unwrap_or(0),
                    3 => last.map(|x| x.1 + 1).unwrap_or(2),
                    _ => s.size(0, n - 1),
                };
                if del(&mut l, &mut m, i, ctx)? && start >= 300 {
                    ctx.nontrivial();
                }
            }
            live = m.live();
        }
        // next pair after `last` among the live ones
        let want = match last {
            None => if live.len() >= 2 { Some((live[0], live[1])) } else { None },
            Some((a, b)) => {
                let after = |x: usize| Some(live.partition_point(|&y| y <= x)).filter(|&p| p < live.len());
                match (live.binary_search(&a), after(b)) {
                    (Ok(_), Some(q)) => Some((a, live[q])),
                    _ => match after(a) {
                        Some(q) if q + 1 < live.len() => Some((live[q], live[q + 1])),
                        _ => None,
                    },
                }
            }
        };
        let got = match no_panic(|| pair_step(&mut l, k)) {
            Ok(g) => g,
            Err(e) => return fail("large-panic", format!("pair cursor {}: {} (last {:?})", k, e, last)),
        };
        match (want, got) {
            (None, None) => break,
            (Some(w), Some((i, v))) => {
                ensure!(i.map(|x| x == w).unwrap_or(true) && v.map(|x| x == (m.vals[w.0], m.vals[w.1])).unwrap_or(true), "large-pair", "pair cursor {} visits {:?} with contents {:?}, expected {:?}", k, i, v, w);
                last = Some(w);
            }
            (w, g) => return fail("large-end", format!("pair cursor {} visits {:?}, expected {:?} (last {:?})", k, g, w, last)),
        }
        seen += 1;
    }
    ctx.checked(seen as u64);
    Ok(())
}

fn c14_large(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = if s.chance(1, 30) { s.size(400, 1500) } else { s.size(20, 400) };
    let alpha = match s.weighted(&[3, 1, 1]) {
        0 => s.f64(-1.0, 2.0),
        1 => 1.0,
        _ => -0.5,
    };
    let d0 = s.f64_log(1e-3, 1e3);
    ctx.nontrivial();
    ctx.note(|| format!("{} particles D {} alpha {}", n, d0, alpha));
    let mut l = LinkedList::from((0..n).map(|i| ContPassiveMergeAgent::new(MoveType::Brownian(d0), pv(vec![i as f64]), 0.1, alpha)).collect::<Vec<_>>());
    let mut live: Vec<usize> = (0..n).collect();
    let mut size = vec![1usize; n];
    let mut ops = vec![0usize; n];
    let grow = s.chance(1, 3);
    if grow {
        for _ in 0..s.size(1, 6) {
            let i = s.size(0, n - 1);
            let g = 1usize << s.size(0, 52);
            let g = g + s.size(0, 1000.min(g));
            if size[i] < 1 << 53 {
                ok!(l.contents[i].add_size(g), "grow", "size {} grows by {}", size[i], g);
                size[i] += g;
                ops[i] += 1;
            }
        }
    }
    let total: usize = size.iter().sum();
    let keep = s.size(1, n);
    while live.len() > keep {
        let p = s.size(0, live.len() - 1);
        let mut q = s.size(0, live.len() - 2);
        if q >= p {
            q += 1;
        }
        let (i, j) = (live[p], live[q]);
        ok!(l.merge(i, j), "merge", "merge({}, {})", i, j);
        size[i] += size[j];
        ops[i] += 1;
        live.remove(q);
        // the two it concerns, at once
        ensure!(l.contents[i].size() == size[i], "large-size", "cluster {} has size {}, expected {}", i, l.contents[i].size(), size[i]);
        ensure!(l.merge(i, j).is_err() && l.merge(j, i).is_err(), "large-dead", "merge with the absorbed cluster {} accepted", j);
    }
    l.into_iter();
    let mut seen = Vec::new();
    let mut sum = 0;
    while let Some((i, a)) = l.enumerate() {
        seen.push(i);
        sum += a.size();
        ensure!(a.size() == size[i], "large-size", "cluster {} has size {}, expected {}", i, a.size(), size[i]);
        match a.mtype {
            MoveType::Brownian(d) => {
                let want = d0 * (size[i] as f64).powf(-alpha);
                ensure!(close(d, want, 1e-12 * (4.0 + ops[i] as f64), 0.0), "large-law", "cluster {} of size {} diffuses with {} instead of {} (alpha {})", i, size[i], d, want, alpha);
            }
            x => return fail("large-law", format!("motion {:?}", x)),
        }
        if seen.len() > n {
            return fail("endless", "traversal does not end".into());
        }
    }
    ctx.checked(seen.len() as u64 + 2);
    ensure!(seen == live, "large-live", "{} clusters enumerated, {} expected", seen.len(), live.len());
    ensure!(sum == total, "large-total", "total size {} instead of {}", sum, total);
    Ok(())
}

//! C24, C25, C26: data set keys, directory analysis, data file names.

use crate::gen::*;
use crate::p_analysis::*;
use crate::pbt::*;
use crate::{ensure, ok};
use moledyn::prelude::*;
use std::collections::{BTreeMap, BTreeSet};

pub fn checks() -> Vec<Check> {
    vec![
        Check { prop: "C24", name: "c24_keys", quick: 2000000, thorough: 120000000, shrink_budget: 2000, f: c24_keys,
            rule: "pairs of parameter sets of 4 data set types, equal or differing in one parameter by one rounding unit up to a factor, by sign, or in the run parameter only, built directly and from the parameters of the parts; non-trivial = a difference of one identifying parameter below 1e-9 relative" },
        Check { prop: "C24", name: "c24_pool", quick: 200000, thorough: 12000000, shrink_budget: 1000, f: c24_pool,
            rule: "1..40 parameter sets drawn from a small set of nearly equal ones, pooled in a map; the number and the content of the pools are compared with pooling by value; non-trivial = a pool with two members and at least two pools" },
        Check { prop: "C24", name: "c24_file", quick: 30000, thorough: 1800000, shrink_budget: 300, f: c24_file,
            rule: "generated parameters of three data set types written to a data file and read back: the key is that of the parameters, the remaining lines are the data; damaged or foreign files give no key; non-trivial = a readable file with data" },
        Check { prop: "C25", name: "c25_directory", quick: 5200, thorough: 310000, shrink_budget: 150, f: c25_directory,
            rule: "directory with 1..4, sometimes up to 20 (nearly equal) parameter sets x 1..4 files with arbitrary names and run indices, 0..12, sometimes up to 300 data lines each, files without samples, foreign and unreadable files, sub-directories, earlier analyses; three analyses, both argument forms, analysed 1..3 times; summary rows, distribution files and profiles are compared with an independent computation from the pooled samples; non-trivial = a parameter set spread over at least two files with samples" },
        Check { prop: "C25", name: "c25_split", quick: 6000, thorough: 360000, shrink_budget: 100, f: c25_split,
            rule: "the same samples in one file and split over several files with other names and order (metamorphic): counts and rows equal, statistics up to rounding; non-trivial = at least two files with samples" },
        Check { prop: "C25", name: "c25_damaged", quick: 30000, thorough: 1800000, shrink_budget: 200, f: c25_damaged,
            rule: "directory with one damaged data line (garbage, missing or surplus number, blank, broken record, not text), unreadable or wrong number of arguments, unusable bins, or no directory: must be an error, not a panic, and the data files stay as they are; non-trivial = always" },
        Check { prop: "C25", name: "c25_concurrent", quick: 1500, thorough: 90000, shrink_budget: 60, f: c25_concurrent,
            rule: "2..6 analyses of one directory started together, with widths and prefixes of their own: every one that succeeds has a result directory of its own that holds its complete results, at least one succeeds, the others report an error, nothing else is made; non-trivial = at least two succeed or one is refused" },
        Check { prop: "C31", name: "c31_wide", quick: 1500, thorough: 90000, shrink_budget: 100, f: c31_wide,
            rule: "directories of vectors of 1..300 numbers, the number given or found; the summary row has a mean and a deviation for every number and all agree with reference statistics; non-trivial = more than 10 numbers" },
        Check { prop: "C26", name: "c26_names", quick: 1500000, thorough: 90000000, shrink_budget: 2000, f: c26_names,
            rule: "pairs of parameter sets of 5 data set types incl. run parameters, equal or differing by as little as one rounding unit, prefixes; names are compared with an independent rendering and pairwise; non-trivial = the pair differs" },
    ]
}

// ------------------------------------------------------------------ parameter sets as plain values

#[derive(Clone, Copy, Debug, PartialEq)]
enum V {
    F(f64),
    U(usize),
}

impl V {
    fn text(&self) -> String {
        match self {
            V::F(x) => format!("{}", x),
            V::U(x) => format!("{}", x),
        }
    }
    fn bits(&self) -> u64 {
        match self {
            V::F(x) => x.to_bits(),
            V::U(x) => *x as u64,
        }
    }
    fn f(&self) -> f64 {
        match self {
            V::F(x) => *x,
            V::U(x) => *x as f64,
        }
    }
}

construct_dataset!(SetE, ContCircSystem, sys_arg, ContCircSystemArguments, [sys_size, f64, dim, usize];
                   ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64];
                   ContPassiveLJAgent, agent_arg, ContPassiveLJAgentArguments, [ptl_size, f64, strength, f64, num_agent, usize];
                   ExponentialStep, time_arg, ExponentialStepArguments, [dt_min, f64, dt_max, f64, length, usize, tmax, f64];
                   {ProcessSimulation, sim_arg, ProcessSimulationArguments, [period, f64, idx_set, usize]});

/// Field kinds of the five data set types: (name, is float, is run parameter).
const SHAPES: [&[(&str, bool, bool)]; 5] = [
    &[("sys_size", true, false), ("dim", false, false), ("target_size", true, false), ("num_agent", false, false), ("dt", true, false), ("tmax", true, false), ("idx_set", false, true)],
    &[("sys_radius", true, false), ("sys_length", true, false), ("dim", false, false), ("ptl_radius", true, false), ("alpha", true, false), ("num_agent", false, false),
        ("dt_min", true, false), ("dt_max", true, false), ("length", false, false), ("tmax", true, false)],
    &[("target_size", true, false)],
    &[("gamma", true, false), ("strength", true, false), ("num_agent", false, false), ("dim", false, false), ("sys_size", true, false)],
    &[("sys_size", true, false), ("dim", false, false), ("target_size", true, false), ("ptl_size", true, false), ("strength", true, false), ("num_agent", false, false),
        ("dt_min", true, false), ("dt_max", true, false), ("length", false, false), ("tmax", true, false), ("period", true, true), ("idx_set", false, true)],
];

fn f(v: V) -> f64 {
    v.f()
}
fn u(v: V) -> usize {
    match v {
        V::U(x) => x,
        V::F(x) => x as usize,
    }
}
fn set_a(p: &[V]) -> SetA {
    SetA { sys_size: f(p[0]), dim: u(p[1]), target_size: f(p[2]), num_agent: u(p[3]), dt: f(p[4]), tmax: f(p[5]), idx_set: u(p[6]) }
}
fn set_b(p: &[V]) -> SetB {
    SetB { sys_radius: f(p[0]), sys_length: f(p[1]), dim: u(p[2]), ptl_radius: f(p[3]), alpha: f(p[4]), num_agent: u(p[5]), dt_min: f(p[6]), dt_max: f(p[7]), length: u(p[8]), tmax: f(p[9]) }
}
fn set_c(p: &[V]) -> SetC {
    SetC { target_size: f(p[0]) }
}
fn set_d(p: &[V]) -> SetD {
    SetD { gamma: f(p[0]), strength: f(p[1]), num_agent: u(p[2]), dim: u(p[3]), sys_size: f(p[4]) }
}
fn set_e(p: &[V]) -> SetE {
    SetE { sys_size: f(p[0]), dim: u(p[1]), target_size: f(p[2]), ptl_size: f(p[3]), strength: f(p[4]), num_agent: u(p[5]), dt_min: f(p[6]), dt_max: f(p[7]), length: u(p[8]), tmax: f(p[9]),
        period: f(p[10]), idx_set: u(p[11]) }
}

macro_rules! with_sets {
    ($k:expr, $p:expr, $q:expr, |$a:ident, $b:ident| $body:expr) => {
        match $k {
            0 => { let ($a, $b) = (set_a($p), set_a($q)); $body }
            1 => { let ($a, $b) = (set_b($p), set_b($q)); $body }
            2 => { let ($a, $b) = (set_c($p), set_c($q)); $body }
            3 => { let ($a, $b) = (set_d($p), set_d($q)); $body }
            _ => { let ($a, $b) = (set_e($p), set_e($q)); $body }
        }
    };
}

fn par(s: &mut Src, float: bool) -> V {
    if float {
        V::F(match s.weighted(&[3, 2, 2, 1]) {
            0 => s.f64_log(1e-6, 1e6),
            1 => {
                let x = s.f64_log(1e-150, 1e150);
                s.signed(x)
            }
            2 => s.draw(1000) as f64 / 8.0,
            _ => s.draw(5) as f64,
        })
    } else {
        V::U(match s.draw(3) {
            0 => s.size(0, 10),
            1 => s.size(0, 100000),
            _ => s.draw(u64::MAX) as usize >> s.size(0, 40),
        })
    }
}

/// Parameter values with short texts, so that file names stay below the limit of the file system.
fn short_params(s: &mut Src) -> Vec<V> {
    SHAPES[0]
        .iter()
        .map(|x| if x.1 { V::F(if s.chance(1, 8) { 0.0 } else { let y = s.f64_log(1e-4, 1e6); if s.chance(1, 6) { -y } else { y } }) } else { V::U(s.size(0, 1000)) })
        .collect()
}

fn params(s: &mut Src, k: usize) -> Vec<V> {
    SHAPES[k].iter().map(|x| par(s, x.1)).collect()
}

/// Another value, possibly as close as one rounding unit.
fn nudge(s: &mut Src, v: V) -> V {
    match v {
        V::F(x) => {
            let y = match s.weighted(&[4, 2, 2, 1, 1, 1]) {
                0 => f64::from_bits(if x == 0.0 { 1 } else if s.bool() { x.to_bits() + 1 } else { x.to_bits() - 1 }),
                1 => x * (1.0 + 10f64.powi(-(s.size(1, 15) as i32))),
                2 => x + *s.pick(&[1e-3, 1e-6, 1e-9, 1e-12, 1e-15, 1.0]),
                3 => -x,
                4 => x * 2.0,
                _ => s.f64_log(1e-6, 1e6),
            };
            V::F(if y == 0.0 { 0.0 } else { y })
        }
        V::U(x) => V::U(match s.draw(3) {
            0 => x.saturating_add(1),
            1 => x.saturating_sub(1),
            _ => s.size(0, 100),
        }),
    }
}

fn key_of(k: usize, p: &[V]) -> Vec<u64> {
    p.iter().zip(SHAPES[k]).filter(|x| !(x.1).2).map(|x| x.0.bits()).collect()
}

fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn pair_of(s: &mut Src, ctx: &mut Ctx) -> (usize, Vec<V>, Vec<V>) {
    let k = s.size(0, 4);
    let p = params(s, k);
    let mut q = p.clone();
    let n = s.weighted(&[1, 6, 1]);
    for _ in 0..n {
        let j = s.size(0, p.len() - 1);
        q[j] = nudge(s, q[j]);
    }
    ctx.note(|| format!("type {} {:?} and {:?}", k, p, q));
    (k, p, q)
}

fn c24_keys(s: &mut Src, ctx: &mut Ctx) -> R {
    let (k, p, q) = pair_of(s, ctx);
    let same = key_of(k, &p) == key_of(k, &q);
    with_sets!(k, &p, &q, |a, b| {
        ensure!((a == b) == same && (b == a) == same, if same { "split" } else { "confused" }, "{:?} and {:?} compare {}", a, b, a == b);
        ensure!(a == a && b == b, "reflexive", "{:?}", a);
        let mut m = HashMap::new();
        m.insert(a, 1);
        *m.entry(b).or_insert(0) += 1;
        ensure!(m.len() == if same { 1 } else { 2 }, "map", "{:?} and {:?} take {} places in a map", a, b, m.len());
        if same {
            ensure!(hash_of(&a) == hash_of(&b), "hash", "equal {:?} and {:?} hash differently", a, b);
        }
        let c = a;
        ensure!(c == a && hash_of(&c) == hash_of(&a), "copy", "{:?}", a);
    });
    if !same {
        let d = p.iter().zip(&q).zip(SHAPES[k]).filter(|x| !(x.1).2).map(|x| ((x.0).0.f() - (x.0).1.f()).abs() / (x.0).0.f().abs().max(1e-300)).fold(0.0, f64::max);
        if d < 1e-9 {
            ctx.nontrivial();
            ctx.class("near");
        } else {
            ctx.class("different");
        }
    } else {
        ctx.class(if p == q { "equal" } else { "run parameter only" });
    }
    Ok(())
}

fn c24_pool(s: &mut Src, ctx: &mut Ctx) -> R {
    let k = s.size(0, 4);
    let base = params(s, k);
    let mut menu = vec![base.clone()];
    for _ in 0..s.size(0, 4) {
        let mut q = s.pick(&menu).clone();
        let j = s.size(0, q.len() - 1);
        q[j] = nudge(s, q[j]);
        menu.push(q);
    }
    let n = s.size(1, 40);
    let list: Vec<Vec<V>> = (0..n).map(|_| s.pick(&menu).clone()).collect();
    ctx.note(|| format!("type {} {:?}", k, list));
    let mut want: BTreeMap<Vec<u64>, Vec<usize>> = BTreeMap::new();
    for (i, p) in list.iter().enumerate() {
        want.entry(key_of(k, p)).or_default().push(i);
    }
    let mut want: Vec<Vec<usize>> = want.into_values().collect();
    want.sort();
    macro_rules! pool {
        ($mk:ident) => {{
            let mut m = HashMap::new();
            for (i, p) in list.iter().enumerate() {
                m.entry($mk(p)).or_insert_with(Vec::new).push(i);
            }
            let mut v: Vec<Vec<usize>> = m.into_values().collect();
            v.sort();
            v
        }};
    }
    let got = match k {
        0 => pool!(set_a),
        1 => pool!(set_b),
        2 => pool!(set_c),
        3 => pool!(set_d),
        _ => pool!(set_e),
    };
    ensure!(got == want, "pools", "pools {:?} instead of {:?} for {:?}", got, want, list);
    if want.len() >= 2 && want.iter().any(|w| w.len() >= 2) {
        ctx.nontrivial();
    }
    Ok(())
}

// ------------------------------------------------------------------ data files

fn show(s: &mut Src, v: V) -> String {
    match v {
        V::F(x) => match s.draw(3) {
            0 => format!("{}", x),
            1 => format!("{:e}", x),
            _ => format!("{:?}", x),
        },
        V::U(x) => format!("{}", x),
    }
}

const HEAD: &str = "========================    DESCRIPTIONS    ==========================\n";
const START: &str = "========================     DATA STARTS    ==========================\n";

fn pos_text(s: &mut Src, d: usize) -> String {
    (0..d).map(|_| format!("{}", s.draw(9) as f64 - 4.0)).collect::<Vec<_>>().join(",")
}

/// The header of a data file of type A (0), B (1) or E (4), made by the parts themselves, and the key.
fn header(s: &mut Src, k: usize, p: &[V], width: usize) -> Result<String, Stop> {
    let mut t = String::from(HEAD);
    let d = s.size(1, 3);
    macro_rules! part {
        ($ty:ty, $args:expr) => {{
            let v: Vec<String> = $args;
            let a = ok!(<$ty>::read_args_from_vec(&v), "arguments", "{:?} for {}", v, stringify!($ty));
            t.push_str(&a.print_configuration(width));
            a
        }};
    }
    let mt = format!("{}", s.f64_log(1e-3, 1e3));
    let it = s.pick(&["Uniform", "1,2"]).to_string();
    match k {
        0 => {
            let a = part!(ContCircSystem, vec![show(s, p[0]), show(s, p[1])]);
            let b = part!(ContBulkTarget, vec![pos_text(s, d), show(s, p[2])]);
            let c = part!(ContPassiveIndepAgent, vec![mt, it, show(s, p[3])]);
            let e = part!(ConstStep, vec![show(s, p[4]), show(s, p[5])]);
            let x = part!(VariableSimulation, vec![format!("{}", s.size(0, 1000)), show(s, p[6]), format!("{}", s.u128()), "/some/dir: x".to_string()]);
            let n = SetA::new(&a, &b, &c, &e, &x);
            ensure!(bits_a(&n) == p.iter().map(|v| v.bits()).collect::<Vec<_>>(), "new", "key {:?} of parameters {:?}", n, p);
        }
        1 => {
            let a = part!(ContCylindricalSystem, vec!["1".to_string(), "Reflective".to_string(), show(s, p[0]), show(s, p[1]), show(s, p[2])]);
            let c = part!(ContPassiveMergeAgent, vec![mt, it, show(s, p[3]), show(s, p[4]), show(s, p[5])]);
            let e = part!(ExponentialStep, vec![show(s, p[6]), show(s, p[7]), show(s, p[8]), show(s, p[9])]);
            let n = SetB::new(&a, &c, &e);
            ensure!(n == set_b(p), "new", "key {:?} of parameters {:?}", n, p);
        }
        _ => {
            let a = part!(ContCircSystem, vec![show(s, p[0]), show(s, p[1])]);
            let b = part!(ContBulkTarget, vec![pos_text(s, d), show(s, p[2])]);
            let c = part!(ContPassiveLJAgent, vec![mt, it, show(s, p[3]), show(s, p[4]), show(s, p[5])]);
            let e = part!(ExponentialStep, vec![show(s, p[6]), show(s, p[7]), show(s, p[8]), show(s, p[9])]);
            let x = part!(ProcessSimulation, vec![format!("{}", s.size(0, 1000)), show(s, p[10]), show(s, p[11]), format!("{}", s.u128()), "out".to_string()]);
            let n = SetE::new(&a, &b, &c, &e, &x);
            ensure!(n == set_e(p) && n.period.to_bits() == f(p[10]).to_bits() && n.idx_set == u(p[11]), "new", "key {:?} of parameters {:?}", n, p);
        }
    }
    t.push_str(START);
    Ok(t)
}

fn bits_a(n: &SetA) -> Vec<u64> {
    vec![n.sys_size.to_bits(), n.dim as u64, n.target_size.to_bits(), n.num_agent as u64, n.dt.to_bits(), n.tmax.to_bits(), n.idx_set as u64]
}

fn c24_file(s: &mut Src, ctx: &mut Ctx) -> R {
    let k = *s.pick(&[0usize, 1, 4]);
    let p = params(s, k);
    let width = s.size(10, 30);
    let mut text = header(s, k, &p, width)?;
    let nl = s.size(0, 5);
    let data: Vec<String> = (0..nl).map(|_| format!("{}", s.f64_log(1e-3, 1e3))).collect();
    for d in &data {
        text.push_str(d);
        text.push('\n');
    }
    let mode = s.weighted(&[5, 1, 1]);
    let lines: Vec<&str> = text.lines().collect();
    let text = match mode {
        0 => text.clone(),
        1 => {
            // cut inside the configuration
            let n = s.size(0, lines.len() - data.len() - 2);
            lines[..n].iter().map(|l| format!("{}\n", l)).collect()
        }
        _ => {
            let j = *s.pick(&[1usize, 2, 3]);
            lines.iter().enumerate().filter(|x| x.0 != j).map(|x| format!("{}\n", x.1)).collect()
        }
    };
    ctx.note(|| format!("type {} mode {} parameters {:?} file\n{}", k, mode, p, text));
    let sc = Scratch::new(ctx);
    let path = sc.sub("data.dat");
    std::fs::write(&path, &text).unwrap();
    macro_rules! rd {
        ($ty:ty, $mk:ident) => {
            match ok!(no_panic(|| <$ty>::from_file(&path)), "panic", "reading a file") {
                Ok((key, rest)) => {
                    ensure!(mode == 0, "accepted", "damaged file gives the key {:?}", key);
                    let want = $mk(&p);
                    ensure!(key == want && format!("{:?}", key) == format!("{:?}", want), "key", "read {:?} instead of {:?}", key, want);
                    let rest: Vec<String> = rest.map(|x| x.unwrap()).collect();
                    ensure!(rest.len() == data.len() + 1 && rest[1..] == data[..], "rest", "lines after the configuration: {:?} instead of the separator and {:?}", rest, data);
                    if nl > 0 {
                        ctx.nontrivial();
                    }
                }
                Err(e) => ensure!(mode != 0, "refused", "a written file is refused: {:?}", e),
            }
        };
    }
    match k {
        0 => rd!(SetA, set_a),
        1 => rd!(SetB, set_b),
        _ => rd!(SetE, set_e),
    }
    Ok(())
}

// ------------------------------------------------------------------ names

fn prefix(s: &mut Src) -> String {
    if s.chance(1, 3) {
        let n = s.size(0, 6);
        (0..n).map(|_| *s.pick(&['_', '.', '-', ' ', 'a', 'Z', '0', '(', '=', '%', ',', 'é', '{', '}', ':', '\\', '\t'])).collect()
    } else {
        s.pick(&["RTS_N_PTL", "", "x", "MFPT_data.v2", "a b", "sys_size_1", "Ünï", ".dat", "RTS_", "v1."]).to_string()
    }
}

fn c26_names(s: &mut Src, ctx: &mut Ctx) -> R {
    let (k, p, q) = pair_of(s, ctx);
    let pre = prefix(s);
    let name = |p: &[V], run: bool| {
        let mut t = pre.clone();
        for (v, x) in p.iter().zip(SHAPES[k]) {
            if run || !x.2 {
                t.push_str(&format!("_{}_{}", x.0, v.text()));
            }
        }
        t + ".dat"
    };
    let run_of = |p: &[V]| -> Vec<u64> { p.iter().map(|x| x.bits()).collect() };
    let same_all = run_of(&p) == run_of(&q);
    let same_key = key_of(k, &p) == key_of(k, &q);
    with_sets!(k, &p, &q, |a, b| {
        let (x, y) = (a.export_file(&pre), b.export_file(&pre));
        ensure!(x.starts_with(&pre) && x.ends_with(".dat"), "frame", "name {:?} with prefix {:?}", x, pre);
        ensure!(x == name(&p, true), "name", "name {:?} instead of {:?}", x, name(&p, true));
        ensure!((x == y) == same_all, if same_all { "unstable" } else { "shared" }, "{:?} and {:?} are named {:?} and {:?}", a, b, x, y);
        let (x, y) = (a.export_file_removed_idx(&pre), b.export_file_removed_idx(&pre));
        ensure!(x == name(&p, false), "pooled-name", "pooled name {:?} instead of {:?}", x, name(&p, false));
        ensure!((x == y) == same_key, if same_key { "pooled-unstable" } else { "pooled-shared" }, "{:?} and {:?} are pooled under {:?} and {:?}", a, b, x, y);
    });
    if !same_all {
        ctx.nontrivial();
        ctx.class(if same_key { "other run" } else { "other parameters" });
    } else {
        ctx.class("equal");
    }
    Ok(())
}

// ------------------------------------------------------------------ directories

#[derive(Clone, Debug)]
struct Job {
    kind: usize, // 0 times, 1 vectors, 2 processes
    nvar: Vec<usize>, // numbers per line of each parameter set (vectors)
    given_nvar: usize,
    l: Layout,
    by_number: bool,
    args: Vec<String>, // without the directory
    width: usize,
    prefix: String,
}

fn job(s: &mut Src, sets: usize) -> Job {
    let kind = s.size(0, 2);
    let l = loop {
        let l = layout(s);
        if l.form != Form::Default {
            break l;
        }
    };
    let auto = s.bool();
    let vars = |s: &mut Src| match s.weighted(&[120, 4, 1]) {
        0 => s.size(1, 4),
        1 => s.size(5, 25),
        _ => s.size(60, 140),
    };
    let n0 = vars(s);
    let nvar: Vec<usize> = (0..sets).map(|_| if auto { vars(s) } else { n0 }).collect();
    let given_nvar = if auto { 0 } else { n0 };
    let mut args = Vec::new();
    if kind == 1 {
        args.push(format!("{}", given_nvar));
    }
    args.push(format!("{}", l.given_min));
    args.push(format!("{}", l.max));
    match l.form {
        Form::Num(n) => args.push(format!("{}", n)),
        _ => {
            args.push(format!("{}", l.b));
            args.push(format!("{:e}", l.r));
        }
    }
    // an analysis works with the bin sizes that belong to a number of bins
    let by_number = matches!(l.form, Form::Num(_));
    let mut l = l;
    l.form = Form::Sizes { bin: l.b, lbin: l.r };
    Job { by_number, kind, nvar, given_nvar, l, args, width: s.size(1, 30), prefix: s.pick(&["RTS", "mfpt_", "p.q"]).to_string() }
}

/// One data line and its values: for times and vectors the numbers, for processes the records.
#[derive(Clone, Debug)]
struct Line {
    text: String,
    nums: Vec<f64>,
    recs: Vec<(f64, f64)>,
}

fn num_text(s: &mut Src, x: f64) -> String {
    let t = match s.draw(4) {
        0 | 1 => format!("{}", x),
        2 => format!("{:e}", x),
        _ => format!("{:.17e}", x),
    };
    if !x.is_finite() || !s.chance(1, 12) {
        return t;
    }
    // the same number written longer
    match s.draw(3) {
        0 if !t.starts_with('-') => format!("+{}", t),
        1 if !t.starts_with('-') => format!("{}{}", "0".repeat(s.size(1, 60)), t),
        _ if t.contains('.') && !t.contains('e') => format!("{}{}", t, "0".repeat(s.size(1, 60))),
        _ => t,
    }
}

/// Blanks before a line.
fn lead(s: &mut Src) -> String {
    if s.chance(1, 12) { s.pick(&[" ", "\t", "  "]).repeat(s.size(1, 30)) } else { String::new() }
}

fn line(s: &mut Src, j: &Job, set: usize) -> Line {
    match j.kind {
        0 | 1 => {
            let n = if j.kind == 0 { 1 } else { j.nvar[set] };
            let nums: Vec<f64> = (0..n).map(|_| j.l.value(s)).collect();
            let mut t = lead(s);
            for (i, &x) in nums.iter().enumerate() {
                if i > 0 {
                    t.push_str(*s.pick(&["\t", " ", "   "]));
                }
                t.push_str(&num_text(s, x));
            }
            t.push_str(*s.pick(&["", "\t", " "]));
            Line { text: t, nums, recs: vec![] }
        }
        _ => {
            let n = s.size(0, 6);
            let recs = records(s, &j.l, n);
            let mut t = lead(s);
            for (i, &(a, b)) in recs.iter().enumerate() {
                if i > 0 {
                    t.push_str(*s.pick(&["\t", " "]));
                }
                t.push_str(&format!("({},{})", num_text(s, a), num_text(s, b)));
            }
            Line { text: t, nums: vec![], recs }
        }
    }
}

fn analyze(j: &Job, dir: &str) -> Result<Result<(), Error>, String> {
    let mut a = j.args.clone();
    a.push(dir.to_string());
    run_analyze(j.kind, &a, j.width, &j.prefix)
}

fn run_analyze(kind: usize, a: &[String], width: usize, prefix: &str) -> Result<Result<(), Error>, String> {
    no_panic(|| match kind {
        0 => TimeAnalysis::analyze::<SetA>(a, width, prefix),
        1 => TimeVecAnalysis::analyze::<SetA>(a, width, prefix),
        _ => ProcessAnalysis::analyze::<SetA>(a, width, prefix),
    })
}

fn snapshot(dir: &Path) -> BTreeMap<String, Vec<u8>> {
    let mut m = BTreeMap::new();
    fn walk(p: &Path, rel: &str, m: &mut BTreeMap<String, Vec<u8>>) {
        for e in std::fs::read_dir(p).unwrap() {
            let e = e.unwrap();
            let r = format!("{}/{}", rel, e.file_name().to_string_lossy());
            if e.path().is_dir() {
                m.insert(format!("{}/", r), vec![]);
                walk(&e.path(), &r, m);
            } else {
                // a link to nothing has no contents
                m.insert(r, std::fs::read(e.path()).unwrap_or_default());
            }
        }
    }
    walk(dir, "", &mut m);
    m
}

fn analysis_dirs(dir: &Path) -> BTreeSet<String> {
    std::fs::read_dir(dir)
        .unwrap()
        .map(|e| e.unwrap())
        .filter(|e| e.path().is_dir())
        .map(|e| e.file_name().to_string_lossy().to_string())
        .filter(|n| n.starts_with("analysis_"))
        .collect()
}

struct Made {
    sets: Vec<Vec<V>>,
    lines: Vec<Vec<Line>>, // per set, all of its files together
    spread: bool,
}

fn distinct_sets(s: &mut Src, n: usize) -> Vec<Vec<V>> {
    let mut sets: Vec<Vec<V>> = vec![short_params(s)];
    let mut tries = 0;
    while sets.len() < n && tries < 20 {
        tries += 1;
        let mut q = s.pick(&sets).clone();
        let j = s.size(0, 5);
        q[j] = nudge(s, q[j]);
        if q[j].text().len() > 30 {
            continue;
        }
        if sets.iter().all(|x| key_of(0, x) != key_of(0, &q)) {
            sets.push(q);
        }
    }
    sets
}

/// Fills a directory with data files, foreign files, and sub-directories.
fn fill(s: &mut Src, j: &Job, sets: Vec<Vec<V>>, dir: &Path, foreign: bool) -> Result<Made, Stop> {
    let mut lines: Vec<Vec<Line>> = Vec::new();
    let mut names: Vec<String> = (0..90).map(|i| match i % 10 {
        5 => format!(".hidden{}", i),
        6 => format!("d{} with blanks.dat", i),
        7 => format!("analysis_{}", i),
        8 => format!("{}-\u{fc}\u{3b1}.txt~", i),
        9 => format!("brief_result.dat{}", i),
        k => format!("{}{}", ["data_", "x", "Z_", "file.", "RTS_sys_size_"][k], i),
    }).collect();
    let perm = s.perm(names.len());
    names = perm.iter().map(|&i| names[i].clone()).collect();
    let mut spread = false;
    let body = |s: &mut Src, name: &str, p: &[V], ls: &[Line]| -> R {
        let mut t = header(s, 0, p, 15)?;
        for (i, l) in ls.iter().enumerate() {
            t.push_str(&l.text);
            if i + 1 < ls.len() || s.chance(7, 8) || l.text.trim().is_empty() {
                t.push('\n');
            }
        }
        if s.chance(1, 8) {
            // the file is somewhere else, the directory has a link to it
            let away = dir.parent().unwrap().join("elsewhere");
            std::fs::create_dir_all(&away).unwrap();
            std::fs::write(away.join(name), t).unwrap();
            match s.draw(3) {
                0 => std::fs::hard_link(away.join(name), dir.join(name)).unwrap(),
                1 => std::os::unix::fs::symlink(Path::new("../elsewhere").join(name), dir.join(name)).unwrap(),
                _ => std::os::unix::fs::symlink(away.join(name), dir.join(name)).unwrap(),
            }
        } else {
            std::fs::write(dir.join(name), t).unwrap();
        }
        Ok(())
    };
    for (k, p) in sets.iter().enumerate() {
        let nf = s.size(1, 4);
        let mut all = Vec::new();
        let mut filled = 0;
        for i in 0..nf {
            let nl = if s.chance(1, 6) { 0 } else if s.chance(1, 60) { s.size(13, 300) } else { s.size(1, 12) };
            let ls: Vec<Line> = (0..nl).map(|_| line(s, j, k)).collect();
            let mut q = p.clone();
            q[6] = V::U(if s.bool() { i + 1 } else { s.size(0, 3) });
            let name = names.pop().unwrap();
            body(s, &name, &q, &ls)?;
            filled += (nl > 0) as usize;
            all.extend(ls);
        }
        spread |= filled >= 2;
        lines.push(all);
    }
    if foreign {
        for _ in 0..s.size(0, 4) {
            let name = names.pop().unwrap();
            let bytes: Vec<u8> = match s.draw(8) {
                6 => {
                    // links to nothing and to a directory with data files
                    if s.bool() {
                        std::os::unix::fs::symlink("nothing-here", dir.join(&name)).unwrap();
                    } else {
                        let away = dir.parent().unwrap().join("linked");
                        std::fs::create_dir_all(&away).unwrap();
                        std::fs::write(away.join("data_1"), header(s, 0, &sets[0].clone(), 15)? + "123.0\n").unwrap();
                        std::os::unix::fs::symlink("../linked", dir.join(&name)).unwrap();
                    }
                    continue;
                }
                0 => vec![],
                1 => b"some notes\nnot a data file\n1.5\n2.5\n".to_vec(),
                2 => vec![0xff, 0xfe, 0x00, 0x80, b'\n', 0xc3, b'\n'],
                3 => {
                    // data of another kind of simulation
                    let k = if s.bool() { 1 } else { 4 };
                    let p = params(s, k);
                    let t = header(s, k, &p, 15)?;
                    format!("{}{}", t, s.pick(&["", "123.0\n", "123.0 1.0\n(1,2)\n"])).into_bytes()
                }
                7 => {
                    // two lines of the configuration exchanged, or one under another name
                    let t = header(s, 0, &sets[0].clone(), 15)?;
                    let mut ls: Vec<String> = t.lines().map(|x| x.to_string()).collect();
                    let n = ls.len();
                    let i = s.size(1, n - 3);
                    if s.bool() {
                        ls.swap(i, i + 1);
                    } else {
                        ls[i] = format!("_{}", ls[i]);
                    }
                    ls.push("123.0".to_string());
                    ls.join("\n").into_bytes()
                }
                4 => {
                    // configuration cut short
                    let t = header(s, 0, &sets[0].clone(), 15)?;
                    let ls: Vec<&str> = t.lines().collect();
                    let n = s.size(0, ls.len() - 3);
                    ls[..n].join("\n").into_bytes()
                }
                _ => b"1.0\n2.0\n3.0\n".to_vec(),
            };
            std::fs::write(dir.join(&name), bytes).unwrap();
        }
        for i in 0..s.size(0, 2) {
            let d = dir.join(*s.pick(&["sub", "analysis_20200101", "old.dat"])).join(format!("{}", i));
            std::fs::create_dir_all(&d).unwrap();
            let t = header(s, 0, &sets[0].clone(), 15)? + "123.0\n";
            std::fs::write(d.join("data_1"), &t).unwrap();
            std::fs::write(d.parent().unwrap().join("data_2"), &t).unwrap();
        }
    }
    Ok(Made { sets, lines, spread })
}

/// Compares one analysis directory with the samples it has to describe.
fn check_output(j: &Job, m: &Made, out: &Path) -> R {
    let sum = out.join(if j.kind == 2 { "brief_data.dat" } else { "brief_result.dat" });
    let text = ok!(std::fs::read_to_string(&sum), "no-summary", "{}", sum.display());
    let mut it = text.lines();
    let head = it.next().unwrap_or("");
    let want_head: String = match j.kind {
        0 => SetA::export_form(j.width) + &TimeAnalysis::export_form(j.width),
        1 => SetA::export_form(j.width) + &TimeVecAnalysis::export_form(j.width),
        _ => SetA::export_form(j.width) + &ProcessAnalysis::export_form(j.width),
    };
    ensure!(head.trim_end() == want_head.trim_end(), "header", "summary header {:?} instead of {:?}", head, want_head);
    let mut rows: Vec<Vec<f64>> = Vec::new();
    for l in it {
        let mut r = Vec::new();
        for w in l.split_whitespace() {
            r.push(ok!(w.parse::<f64>(), "row", "summary row {:?}", l));
        }
        rows.push(r);
    }
    let mut expected_files = BTreeSet::new();
    let mut used = vec![false; rows.len()];
    let mut count = 0;
    for (k, p) in m.sets.iter().enumerate() {
        let ls = &m.lines[k];
        if ls.is_empty() {
            continue;
        }
        count += 1;
        let key: Vec<f64> = p[..6].iter().map(|v| v.f()).collect();
        let hits: Vec<usize> = (0..rows.len()).filter(|&i| rows[i].len() >= 6 && rows[i][..6].iter().zip(&key).all(|(a, b)| a.to_bits() == b.to_bits())).collect();
        ensure!(hits.len() == 1, if hits.is_empty() { "lost-set" } else { "double-set" }, "{} summary rows for the parameter set {:?}:\n{}", hits.len(), p, text);
        used[hits[0]] = true;
        let r = &rows[hits[0]][6..];
        let fname = set_a(p).export_file_removed_idx(&j.prefix);
        let lin = ok!(std::fs::read_to_string(out.join("linear_distribution").join(&fname)), "no-distribution", "linear {}", fname);
        let log = ok!(std::fs::read_to_string(out.join("logarithmic_distribution").join(&fname)), "no-distribution", "logarithmic {}", fname);
        expected_files.insert(fname);
        ensure!(!r.is_empty() && r[0] == ls.len() as f64, "ensemble", "{:?} samples reported for {:?}, {} were written", r.first(), p, ls.len());
        if j.kind == 2 {
            let recs: Vec<(f64, f64)> = ls.iter().flat_map(|l| l.recs.clone()).collect();
            ensure!(r.len() == 3, "row", "summary row {:?}", r);
            if recs.is_empty() {
                ensure!(lin.is_empty() && log.is_empty(), "profile", "profile of no records: {:?}", lin);
            } else {
                check_stats("long-term", r[1], r[2], &recs.iter().map(|x| x.1).collect::<Vec<_>>())?;
                check_profile(&j.l, &lin, &recs, false)?;
                check_profile(&j.l, &log, &recs, true)?;
            }
        } else {
            let nv = if j.kind == 0 { 1 } else { j.nvar[k] };
            ensure!(r.len() == 1 + 2 * nv, "row", "summary row {:?} for {} variables", r, nv);
            let data: Vec<Vec<f64>> = (0..nv).map(|i| ls.iter().map(|l| l.nums[i]).collect()).collect();
            for i in 0..nv {
                check_stats("pooled", r[1 + 2 * i], r[2 + 2 * i], &data[i])?;
            }
            check_hist(&j.l, &lin, &data, false)?;
            check_hist(&j.l, &log, &data, true)?;
        }
    }
    ensure!(rows.len() == count, "surplus-row", "{} summary rows for {} parameter sets with samples:\n{}", rows.len(), count, text);
    let files = snapshot(out);
    for d in ["/linear_distribution/", "/logarithmic_distribution/"] {
        let got: BTreeSet<String> = files.keys().filter_map(|f| f.strip_prefix(d)).filter(|f| !f.is_empty()).map(|f| f.to_string()).collect();
        ensure!(got == expected_files, "files", "{} holds {:?} instead of {:?}", d, got, expected_files);
    }
    Ok(())
}

fn c25_directory(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = if s.chance(1, 30) { s.size(5, 20) } else { s.size(1, 4) };
    let sets = distinct_sets(s, n);
    let j = job(s, sets.len());
    let sc = Scratch::new(ctx);
    let dir = sc.path.join(*s.pick(&["data", "data", "data", "two words", ".out", "-d", "\u{3b1}\u{fc}", "analysis_20200101", "a.dat"]));
    std::fs::create_dir_all(&dir).unwrap();
    let m = fill(s, &j, sets, &dir, true)?;
    // the directory may be given by a link to it
    let given = if s.chance(1, 6) { sc.path.join("link") } else { dir.clone() };
    if given != dir {
        std::os::unix::fs::symlink(&dir, &given).unwrap();
    }
    ctx.note(|| format!("{:?} in {:?} sets={:?} lines={:?}", j, given, m.sets, m.lines));
    ctx.class(["times", "vectors", "processes"][j.kind]);
    ctx.class(if j.by_number { "by number" } else { "by sizes" });
    let runs = s.size(1, 3);
    let mut before = snapshot(&dir);
    let mut dirs = analysis_dirs(&dir);
    for i in 0..runs {
        let slash = s.chance(1, 4);
        let d = format!("{}{}", given.display(), if slash { "/" } else { "" });
        match analyze(&j, &d) {
            Err(e) => return fail("panic", e),
            Ok(Err(e)) => return fail("refused", format!("analysis {:?} of a sound directory fails: {:?}", j.args, e)),
            Ok(Ok(())) => {}
        }
        let now = analysis_dirs(&dir);
        let new: Vec<&String> = now.difference(&dirs).collect();
        ensure!(new.len() == 1, "result-directory", "run {}: new result directories {:?}, before {:?}", i, new, dirs);
        let after = snapshot(&dir);
        let tag = format!("/{}/", new[0]);
        for (f, b) in &before {
            ensure!(after.get(f) == Some(b), "overwritten", "run {} changed {}", i, f);
        }
        for f in after.keys() {
            ensure!(before.contains_key(f) || f.starts_with(&tag), "stray-file", "run {} made {}", i, f);
        }
        check_output(&j, &m, &dir.join(new[0]))?;
        ctx.checked(m.sets.len() as u64);
        before = after;
        if i + 1 < runs && s.chance(1, 8) {
            // many results of earlier analyses of the same day
            let base: String = new[0].chars().take("analysis_20200101".len()).collect();
            for k in 0..s.size(8, 120) {
                let _ = std::fs::create_dir(dir.join(format!("{}_{}", base, k)));
            }
            ctx.class("many earlier results");
            before = snapshot(&dir);
            dirs = analysis_dirs(&dir);
            continue;
        }
        dirs = now;
    }
    if m.spread {
        ctx.nontrivial();
    }
    Ok(())
}

/// Vectors of very many numbers: every one has its columns in the summary.
fn c31_wide(s: &mut Src, ctx: &mut Ctx) -> R {
    let sets = distinct_sets(s, 1);
    let mut j = job(s, 1);
    let n = s.size(1, 300);
    let auto = s.bool();
    j.kind = 1;
    j.nvar = vec![n];
    j.given_nvar = if auto { 0 } else { n };
    let mut args = vec![format!("{}", j.given_nvar)];
    args.extend(j.args.iter().rev().take(j.args.len().min(if j.by_number { 3 } else { 4 })).rev().cloned());
    j.args = args;
    let sc = Scratch::new(ctx);
    let dir = sc.path.join("data");
    std::fs::create_dir_all(&dir).unwrap();
    let m = fill(s, &j, sets, &dir, false)?;
    ctx.note(|| format!("{:?} sets={:?}", j, m.sets));
    match analyze(&j, &dir.display().to_string()) {
        Err(e) => return fail("panic", e),
        Ok(Err(e)) => return fail("refused", format!("analysis {:?} of a sound directory fails: {:?}", j.args, e)),
        Ok(Ok(())) => {}
    }
    let new = analysis_dirs(&dir);
    ensure!(new.len() == 1, "result-directory", "result directories {:?}", new);
    check_output(&j, &m, &dir.join(new.iter().next().unwrap()))?;
    if n > 10 {
        ctx.nontrivial();
    }
    ctx.class(if n > 64 { "over 64" } else { "up to 64" });
    ctx.checked(2 * n as u64);
    Ok(())
}

fn c25_split(s: &mut Src, ctx: &mut Ctx) -> R {
    let p = short_params(s);
    let j = job(s, 1);
    let nl = s.size(1, 30);
    let ls: Vec<Line> = (0..nl).map(|_| line(s, &j, 0)).collect();
    ctx.note(|| format!("{:?} lines={:?}", j, ls));
    let sc = Scratch::new(ctx);
    let mut res: Vec<BTreeMap<String, Vec<u8>>> = Vec::new();
    for round in 0..2 {
        let dir = sc.path.join(format!("d{}", round));
        std::fs::create_dir_all(&dir).unwrap();
        let parts = if round == 0 { 1 } else { s.size(2, 5) };
        let order: Vec<usize> = if round == 0 { (0..nl).collect() } else { s.perm(nl) };
        let mut files: Vec<Vec<usize>> = vec![vec![]; parts];
        for i in order {
            let k = s.size(0, parts - 1);
            files[k].push(i);
        }
        if round == 1 && files.iter().filter(|x| !x.is_empty()).count() >= 2 {
            ctx.nontrivial();
        }
        for (k, x) in files.iter().enumerate() {
            let mut q = p.clone();
            q[6] = V::U(k);
            let mut t = header(s, 0, &q, 15)?;
            for &i in x {
                t.push_str(&ls[i].text);
                t.push('\n');
            }
            std::fs::write(dir.join(format!("f{}", (k * 7) % 11)), t).unwrap();
        }
        match analyze(&j, &format!("{}", dir.display())) {
            Err(e) => return fail("panic", e),
            Ok(Err(e)) => return fail("refused", format!("analysis fails: {:?}", e)),
            Ok(Ok(())) => {}
        }
        let d = analysis_dirs(&dir);
        ensure!(d.len() == 1, "result-directory", "{:?}", d);
        let out = dir.join(d.iter().next().unwrap());
        check_output(&j, &Made { sets: vec![p.clone()], lines: vec![ls.clone()], spread: true }, &out)?;
        res.push(snapshot(&out));
    }
    if j.kind != 2 {
        for (f, b) in &res[0] {
            if f.contains("distribution/") {
                ensure!(res[1].get(f) == Some(b), "split", "{} depends on how the samples are split over files", f);
            }
        }
    }
    Ok(())
}

fn c25_concurrent(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = s.size(1, 3);
    let sets = distinct_sets(s, n);
    let j = job(s, sets.len());
    let sc = Scratch::new(ctx);
    let dir = sc.path.join("data");
    std::fs::create_dir_all(&dir).unwrap();
    let m = fill(s, &j, sets, &dir, false)?;
    if m.lines.iter().all(|l| l.is_empty()) {
        return Err(Stop::Discard);
    }
    let k = s.size(2, 6);
    let jobs: Vec<Job> = (0..k)
        .map(|i| {
            let mut x = j.clone();
            x.width = s.size(1, 30);
            x.prefix = format!("run{}", i);
            x
        })
        .collect();
    ctx.note(|| format!("{:?} sets={:?} lines={:?}", jobs, m.sets, m.lines));
    ctx.class(["times", "vectors", "processes"][j.kind]);
    let before = snapshot(&dir);
    let d = format!("{}", dir.display());
    let gate = std::sync::Barrier::new(k);
    let res: Vec<Result<Result<(), Error>, String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = jobs
            .iter()
            .map(|x| {
                let (gate, d) = (&gate, &d);
                sc.spawn(move || {
                    gate.wait();
                    analyze(x, d)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let after = snapshot(&dir);
    for (f, b) in &before {
        ensure!(after.get(f) == Some(b), "overwritten", "an analysis changed {}", f);
    }
    let dirs = analysis_dirs(&dir);
    let mut done = 0;
    let mut taken = BTreeSet::new();
    for (x, r) in jobs.iter().zip(&res) {
        match r {
            Err(e) => return fail("panic", e.clone()),
            Ok(Err(_)) => {}
            Ok(Ok(())) => {
                done += 1;
                // its directory is the one with files of its prefix
                let mine: Vec<&String> = dirs.iter().filter(|q| after.keys().any(|f| f.starts_with(&format!("/{}/linear_distribution/{}_", q, x.prefix)))).collect();
                ensure!(mine.len() == 1, "result-directory", "{} of {} analyses at once has results in {:?}", x.prefix, k, mine);
                ensure!(taken.insert(mine[0].clone()), "shared", "two of {} analyses at once share {}", k, mine[0]);
                check_output(x, &m, &dir.join(mine[0]))?;
                ctx.checked(1);
            }
        }
    }
    ensure!(done >= 1, "refused", "none of {} analyses at once succeeds: {:?}", k, res);
    ensure!(dirs.len() == done, "stray-directory", "{} analyses succeeded and left {:?}", done, dirs);
    if done >= 2 || done < k {
        ctx.nontrivial();
    }
    Ok(())
}

fn c25_damaged(s: &mut Src, ctx: &mut Ctx) -> R {
    let p = short_params(s);
    let mut j = job(s, 1);
    ctx.nontrivial();
    ctx.class(["times", "vectors", "processes"][j.kind]);
    let sc = Scratch::new(ctx);
    let dir = sc.path.join("data");
    std::fs::create_dir_all(&dir).unwrap();
    let nl = s.size(0, 6);
    let mut texts: Vec<Vec<u8>> = (0..nl).map(|_| line(s, &j, 0).text.into_bytes()).collect();
    let mode = s.weighted(&[5, 3, 1, 2, 1]);
    let mut args;
    let what: String;
    match mode {
        0 if s.chance(1, 3) => {
            // separators, comments, another header, a number with a stray character in it
            let at = if j.kind == 1 && j.given_nvar == 0 && nl > 0 { s.size(1, nl) } else { s.size(0, nl) };
            let bad: Vec<u8> = match s.draw(4) {
                0 => s.pick(&["=====================     DATA    =====================", "====", "----------", "# 1.5", "#", "// end", "% 2", "time", "...", "\u{feff}1.5", "1.5;", "1.5\0", "EOF"]).as_bytes().to_vec(),
                1 => {
                    let h = header(s, 0, &p, 15)?;
                    h.trim_end_matches('\n').as_bytes().to_vec()
                }
                _ => {
                    let l = line(s, &j, 0).text;
                    let mut cs: Vec<char> = l.chars().collect();
                    let i = s.size(0, cs.len());
                    cs.insert(i, *s.pick(&['x', '#', ';', '=', '_', '/', '"', '\u{661}', '\0']));
                    cs.into_iter().collect::<String>().into_bytes()
                }
            };
            what = format!("data line {:?} at {}", String::from_utf8_lossy(&bad), at);
            texts.insert(at, bad);
            args = j.args.clone();
            args.push(format!("{}", dir.display()));
        }
        0 => {
            let bad: Vec<u8> = match j.kind {
                0 => s.pick(&[&b"abc"[..], b"", b"1.0 2.0", b"1,5", b"0x10", b"--1", b"1.0e", b"\xff\xfe", b"(1,2)"]).to_vec(),
                1 => {
                    let n = j.nvar[0];
                    match s.draw(6) {
                        0 => b"".to_vec(),
                        1 => b"a b c".to_vec(),
                        2 if j.given_nvar > 0 || nl > 0 => vec!["1.5"; n + 1].join(" ").into_bytes(),
                        3 if n > 1 && (j.given_nvar > 0 || nl > 0) => vec!["1.5"; n - 1].join(" ").into_bytes(),
                        4 => {
                            let mut v = vec!["1.5"; n];
                            v[n - 1] = "1.5x";
                            v.join("\t").into_bytes()
                        }
                        _ => b"\xff\xfe".to_vec(),
                    }
                }
                _ => s.pick(&[&b"(1.0)"[..], b"(1.0,x)", b"(1,2,3)", b"abc", b"(,)", b"(1.0 ,2.0)", b"\xff\xfe", b"(1,2)\t(3;4)", b"(1,2)(3,4)"]).to_vec(),
            };
            let at = if j.kind == 1 && bad.len() > 3 && j.given_nvar == 0 && nl > 0 { s.size(1, nl) } else { s.size(0, nl) };
            what = format!("data line {:?} at {}", String::from_utf8_lossy(&bad), at);
            texts.insert(at, bad);
            args = j.args.clone();
            args.push(format!("{}", dir.display()));
        }
        1 => {
            args = j.args.clone();
            args.push(format!("{}", dir.display()));
            let k = s.size(0, args.len() - 2);
            args[k] = s.pick(&["abc", "", "1.0.0", "1,5", "--1", "0x1"]).to_string();
            what = format!("argument {} is {:?}", k, args[k]);
        }
        2 => {
            args = j.args.clone();
            match s.draw(3) {
                0 => {
                    let n = args.len() - 1;
                    args.truncate(s.size(0, n.min(2)));
                }
                1 => args.extend(vec![format!("{}", dir.display()); 4]),
                _ => args.clear(),
            }
            what = format!("{} arguments", args.len());
        }
        4 => {
            // nothing to analyse
            let away = sc.path.join("away");
            let given = match s.draw(4) {
                0 => away.clone(),
                1 => away.join("deeper"),
                2 => {
                    std::fs::write(&away, "x").unwrap();
                    away.clone()
                }
                _ => {
                    std::os::unix::fs::symlink(sc.path.join("gone"), &away).unwrap();
                    away.clone()
                }
            };
            args = j.args.clone();
            args.push(format!("{}", given.display()));
            what = "missing directory".to_string();
        }
        _ => {
            // unusable bins, with at least one readable data file
            if texts.is_empty() {
                texts.push(line(s, &j, 0).text.into_bytes());
            }
            let o = (j.kind == 1) as usize;
            match s.draw(4) {
                0 => j.args[o] = format!("{}", -s.f64_log(1e-3, 1e3)),
                2 => {
                    // not a number, or without end
                    let k = s.size(0, if j.by_number { 1 } else { 3 });
                    j.args[o + k] = s.pick(&["NaN", "nan", "inf", "infinity", "1e999"]).to_string();
                }
                1 => {
                    let t = j.args[o].clone();
                    j.args[o] = j.args[o + 1].clone();
                    j.args[o + 1] = t;
                }
                _ => match j.by_number {
                    true => j.args[o + 2] = format!("{}", s.size(0, 9)),
                    false => {
                        if s.bool() {
                            j.args[o + 2] = s.pick(&["0", "-1.5"]).to_string()
                        } else {
                            j.args[o + 3] = s.pick(&["1", "0.5", "0", "-2"]).to_string()
                        }
                    }
                },
            }
            args = j.args.clone();
            args.push(format!("{}", dir.display()));
            what = "unusable bins".to_string();
        }
    }
    let mut t = header(s, 0, &p, 15)?.into_bytes();
    for x in &texts {
        t.extend(x);
        t.push(b'\n');
    }
    std::fs::write(dir.join("data_1"), &t).unwrap();
    ctx.note(|| format!("kind {} args {:?}: {} in {:?}", j.kind, args, what, String::from_utf8_lossy(&t)));
    let around = snapshot(&sc.path);
    match run_analyze(j.kind, &args, j.width, &j.prefix) {
        Err(e) => return fail("panic", format!("{} makes the analysis panic: {}", what, e)),
        Ok(Ok(())) => return fail(["damaged-line", "unreadable-argument", "argument-count", "unusable-bins", "missing-directory"][mode], format!("{} goes unnoticed", what)),
        Ok(Err(_)) => {}
    }
    ensure!(std::fs::read(dir.join("data_1")).ok() == Some(t), "data-changed", "the data file was changed");
    if mode == 4 {
        let now = snapshot(&sc.path);
        ensure!(now == around, "made", "the analysis of a missing directory made {:?}", now.keys().filter(|k| !around.contains_key(*k)).collect::<Vec<_>>());
    }
    Ok(())
}

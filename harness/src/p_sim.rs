//! C27: the one-line set-up, for every combination of building blocks, run as separate programs.

use crate::gen::*;
use crate::p_analysis::check_stats;
use crate::pbt::*;
use crate::{ensure, ok};
use moledyn::prelude::*;
use std::process::{Command, Stdio};

pub fn checks() -> Vec<Check> {
    vec![
        Check { prop: "C27", name: "c27_compile", quick: 1, thorough: 1, shrink_budget: 1, f: c27_compile,
            rule: "the 216 programs made from the one-line set-up build; non-trivial = always" },
        Check { prop: "C27", name: "c27_run", quick: 10000, thorough: 600000, shrink_budget: 120, f: c27_run,
            rule: "a combination of 3 systems, 4 agents, 2 clocks, 3 simulation kinds and 3 analyses with generated arguments: variables and parts seen by the program, name and content of its file, header read back; non-trivial = always" },
        Check { prop: "C27", name: "c27_refuse", quick: 13000, thorough: 780000, shrink_budget: 120, f: c27_refuse,
            rule: "a combination called with a wrong number of arguments (0..24), one unreadable argument (of a run or of an analysis), one invalid value or an output directory that cannot be made, sometimes after a good run: error, usage text, files as before; non-trivial = always" },
        Check { prop: "C27", name: "c27_analyse", quick: 3700, thorough: 220000, shrink_budget: 60, f: c27_analyse,
            rule: "1..4 runs of one combination over 1..2 parameter sets with generated data, then the same program with analysis arguments: one row per parameter set with its parameters, number, mean and deviation of the pooled data; non-trivial = two parameter sets" },
        Check { prop: "C24", name: "c24_programs", quick: 2500, thorough: 150000, shrink_budget: 60, f: c24_programs,
            rule: "two runs of a program made by the one-line set-up (216 combinations) that differ in one parameter of system, target, agent or clock (by a rounding unit up to a factor), or only in a run parameter, then its analysis: two rows or one pooled row; non-trivial = another parameter" },
        Check { prop: "C26", name: "c26_programs", quick: 2500, thorough: 150000, shrink_budget: 60, f: c26_programs,
            rule: "two runs of a program made by the one-line set-up that are the same or differ in one parameter or run parameter: one data file or two; non-trivial = different runs" },
        Check { prop: "C34", name: "c34_storage", quick: 6000, thorough: 600000, shrink_budget: 60, f: c34_storage,
            rule: "a run, or an analysis of 1..3 data files (sometimes with so many variables that a row is longer than a buffer), of one of the 216 programs with the size of files limited at any byte: failure naming the cause exactly if a file does not fit, else the same files as without limit; non-trivial = a file does not fit" },
        Check { prop: "C27", name: "c27_fixed", quick: 20000, thorough: 1200000, shrink_budget: 300, f: c27_fixed,
            rule: "the set-up with given arguments behind 0..3 leading ones: parts and file as given, analysis of the directory, refusal of other counts; non-trivial = some leading arguments" },
    ]
}

fn bin() -> String {
    std::env::var("VSIM_BIN").unwrap_or_else(|_| format!("{}/target/debug/vsim", crate::report::root().display()))
}

fn c27_compile(_s: &mut Src, ctx: &mut Ctx) -> R {
    ctx.nontrivial();
    ctx.checked(1);
    ctx.note(|| "building the 216 programs".to_string());
    if let Ok(log) = std::env::var("VSIM_BUILD_FAILED") {
        let t = std::fs::read_to_string(&log).unwrap_or_default();
        let first: Vec<&str> = t.lines().filter(|l| l.starts_with("error")).take(5).collect();
        return fail("compile", format!("programs made by the one-line set-up do not build: {:?}", first));
    }
    ensure!(std::path::Path::new(&bin()).exists(), "compile", "{} is missing", bin());
    Ok(())
}

const AN: usize = 3;
const SY: usize = 3;
const AG: usize = 4;
const TI: usize = 2;
const SI: usize = 3;

#[derive(Clone, Debug)]
struct Combo {
    an: usize,
    sy: usize,
    ag: usize,
    ti: usize,
    si: usize,
}
impl Combo {
    fn any(s: &mut Src) -> Combo {
        Combo { an: s.size(0, AN - 1), sy: s.size(0, SY - 1), ag: s.size(0, AG - 1), ti: s.size(0, TI - 1), si: s.size(0, SI - 1) }
    }
    fn index(&self) -> usize {
        (((self.an * SY + self.sy) * AG + self.ag) * TI + self.ti) * SI + self.si
    }
    fn analysis(&self) -> &'static str {
        ["TimeAnalysis", "TimeVecAnalysis", "ProcessAnalysis"][self.an]
    }
}

/// One argument of a program: its text, the value the program should see (debug form), and the name.
#[derive(Clone, Debug)]
struct Arg {
    name: &'static str,
    text: String,
    value: String,
    key: Option<String>, // printed value in the file name, for arguments of the data set
    file_only: bool,     // not in the summary
}

fn arg<T: fmt::Debug>(name: &'static str, text: String, v: &T) -> Arg {
    Arg { name, text, value: format!("{:?}", v), key: None, file_only: false }
}
fn key<T: fmt::Debug + fmt::Display>(name: &'static str, text: String, v: &T, file_only: bool) -> Arg {
    Arg { name, text, value: format!("{:?}", v), key: Some(format!("{}", v)), file_only }
}

fn ftext(s: &mut Src, x: f64) -> String {
    match s.draw(3) {
        0 => format!("{}", x),
        1 => format!("{:e}", x),
        _ => format!("{:?}", x),
    }
}

/// Four significant digits: file names hold every parameter and end at 255 bytes.
fn short(s: &mut Src, lo: f64, hi: f64) -> f64 {
    format!("{:.3e}", s.f64_log(lo, hi)).parse::<f64>().unwrap().max(lo)
}

fn args_of(s: &mut Src, c: &Combo, dir: &str) -> Vec<Arg> {
    let mut v = Vec::new();
    let dim = s.size(1, 4);
    let r = short(s, 1e-3, 1e3);
    match c.sy {
        0 => {
            let t = ftext(s, r);
            v.push(key("sys_size", t, &r, false));
            v.push(key("dim", format!("{}", dim), &dim, false));
        }
        1 => {
            let (t, b) = match s.size(0, 2) {
                0 => ("Reflective".to_string(), BoundaryCond::Reflection),
                1 => ("Periodic".to_string(), BoundaryCond::Periodic),
                _ => {
                    let m = s.size(1, dim);
                    (format!("{}", m), BoundaryCond::Mixed(m))
                }
            };
            v.push(arg("bctype", t, &b));
            let t = ftext(s, r);
            v.push(key("sys_size", t, &r, false));
            v.push(key("dim", format!("{}", dim), &dim, false));
        }
        _ => {
            let d = s.size(1, dim);
            v.push(arg("sys_type", format!("{}", d), &SystemType::ContinuousCylindrical(d)));
            v.push(arg("bctype", format!("{}", d), &BoundaryCond::Mixed(d)));
            let t = ftext(s, r);
            v.push(key("sys_radius", t, &r, false));
            let l = short(s, 1e-3, 1e3);
            let t = ftext(s, l);
            v.push(key("sys_length", t, &l, false));
            v.push(key("dim", format!("{}", dim), &dim, false));
        }
    }
    let p: Vec<f64> = (0..dim).map(|_| s.f64(-4.0, 4.0)).collect();
    let sep = *s.pick(&[",", ":"]);
    v.push(arg("target_pos", p.iter().map(|x| format!("{}", x)).collect::<Vec<_>>().join(sep), &Position::<f64>::new(p)));
    let a = short(s, 1e-3, 1e3);
    let t = ftext(s, a);
    v.push(key("target_size", t, &a, false));
    let d = short(s, 1e-3, 1e3);
    let t = ftext(s, d);
    v.push(arg("mtype", t, &MoveType::Brownian(d)));
    if s.bool() {
        v.push(arg("itype", "Uniform".to_string(), &InitType::<f64>::Uniform));
    } else {
        let p: Vec<f64> = (0..dim).map(|_| s.f64(-4.0, 4.0)).collect();
        let t = p.iter().map(|x| format!("{}", x)).collect::<Vec<_>>().join(",");
        v.push(arg("itype", t, &InitType::SpecificPosition(Position::<f64>::new(p))));
    }
    let n = s.size(1, 5);
    let g = short(s, 1e-3, 1e3);
    let h = short(s, 1e-3, 1e3);
    let (gt, ht) = (ftext(s, g), ftext(s, h));
    match c.ag {
        0 => {}
        1 => {
            v.push(key("ptl_radius", gt, &g, false));
            v.push(key("alpha", ht, &h, false));
        }
        2 => {
            v.push(key("gamma", gt, &g, false));
            v.push(arg("exp_dim", format!("{}", dim), &dim));
            v.push(key("strength", ht, &h, false));
        }
        _ => {
            v.push(key("ptl_size", gt, &g, false));
            v.push(key("strength", ht, &h, false));
        }
    }
    v.push(key("num_agent", format!("{}", n), &n, false));
    let tmax = short(s, 1e-3, 1e6);
    let dt = short(s, 1e-6, 1e-1);
    if c.ti == 0 {
        let t = ftext(s, dt);
        v.push(key("dt", t, &dt, false));
    } else {
        let hi = dt * s.size(1, 5000) as f64;
        let hi = format!("{:.5e}", hi).parse::<f64>().unwrap().max(dt);
        let t = ftext(s, dt);
        v.push(key("dt_min", t, &dt, false));
        let t = ftext(s, hi);
        v.push(key("dt_max", t, &hi, false));
        let len = s.size(10, 40);
        v.push(key("length", format!("{}", len), &len, false));
    }
    let t = ftext(s, tmax);
    v.push(key("tmax", t, &tmax, false));
    let ne = s.size(0, 2000);
    let idx = s.size(0, 100);
    let seed = s.u128();
    v.push(arg("num_ensemble", format!("{}", ne), &ne));
    match c.si {
        0 => {
            v.push(key("idx_set", format!("{}", idx), &idx, true));
            v.push(arg("seed", format!("{}", seed), &seed));
        }
        1 => {
            v.push(arg("seed", format!("{}", seed), &seed));
            v.push(key("n_thrd", format!("{}", idx), &idx, true));
        }
        _ => {
            let p = short(s, 1e-3, 1e3);
            let t = ftext(s, p);
            v.push(key("period", t, &p, true));
            v.push(key("idx_set", format!("{}", idx), &idx, true));
            v.push(arg("seed", format!("{}", seed), &seed));
        }
    }
    v.push(arg("output_dir", dir.to_string(), &dir.to_string()));
    v
}

struct Outcome {
    code: Option<i32>,
    out: String,
    err: String,
}

fn launch(c: &Combo, args: &[String], cwd: &Path, data: Option<&str>) -> Outcome {
    launch_limited(c, args, cwd, data, None)
}

extern "C" {
    fn setrlimit(what: i32, lim: *const [u64; 2]) -> i32;
    fn signal(n: i32, h: usize) -> usize;
}

/// Runs a program; with a limit, no file can grow beyond that many bytes (as on a full disk: a write is first cut
/// short, then refused).
fn launch_limited(c: &Combo, args: &[String], cwd: &Path, data: Option<&str>, limit: Option<u64>) -> Outcome {
    let mut cmd = Command::new(bin());
    cmd.args(args).current_dir(cwd).env("VSIM_COMBO", format!("{}", c.index())).env_remove("VSIM_DATA").env("RUST_BACKTRACE", "0").stdin(Stdio::null());
    if let Some(d) = data {
        let f = cwd.parent().unwrap().join("input-lines");
        std::fs::write(&f, d).unwrap();
        cmd.env("VSIM_DATA", f);
    }
    if let Some(n) = limit {
        use std::os::unix::process::CommandExt;
        // RLIMIT_FSIZE = 1, SIGXFSZ = 25, SIG_IGN = 1: both survive exec
        unsafe {
            cmd.pre_exec(move || {
                signal(25, 1);
                if setrlimit(1, &[n, n]) != 0 {
                    return Err(std::io::Error::last_os_error());
                }
                Ok(())
            });
        }
    }
    let o = cmd.output().expect("start program");
    Outcome { code: o.status.code(), out: String::from_utf8_lossy(&o.stdout).to_string(), err: String::from_utf8_lossy(&o.stderr).to_string() }
}

fn tree(d: &Path) -> Vec<String> {
    let mut v = Vec::new();
    let mut todo = vec![d.to_path_buf()];
    while let Some(p) = todo.pop() {
        if let Ok(r) = std::fs::read_dir(&p) {
            for e in r.flatten() {
                let q = e.path();
                v.push(q.strip_prefix(d).unwrap().display().to_string());
                if q.is_dir() {
                    todo.push(q);
                }
            }
        }
    }
    v.sort();
    v
}

/// (debug form or empty, header text) of the parts, made in this process from the same texts.
fn parts(c: &Combo, t: &[String], width: usize) -> Result<(Vec<String>, String), Stop> {
    let mut at = 0;
    let mut dbg = Vec::new();
    let mut text = String::new();
    macro_rules! part {
        ($ty:ty) => {{
            let n = <$ty>::NUM_ARGS;
            ensure!(at + n <= t.len(), "arguments", "{} takes {} arguments", stringify!($ty), n);
            let a = ok!(<$ty>::read_args_from_vec(&t[at..at + n]), "arguments", "{:?} for {}", &t[at..at + n], stringify!($ty));
            at += n;
            text.push_str(&a.print_configuration(width));
            <$ty>::convert_from(&a)
        }};
    }
    match c.sy {
        0 => dbg.push(format!("{:?}", part!(ContCircSystem))),
        1 => dbg.push(format!("{:?}", part!(ContCubicSystem))),
        _ => dbg.push(format!("{:?}", part!(ContCylindricalSystem))),
    }
    dbg.push(format!("{:?}", part!(ContBulkTarget)));
    match c.ag {
        0 => dbg.push(format!("{:?}", part!(ContPassiveIndepAgent))),
        1 => dbg.push(format!("{:?}", part!(ContPassiveMergeAgent))),
        2 => dbg.push(format!("{:?}", part!(ContPassiveExpAgent))),
        _ => dbg.push(format!("{:?}", part!(ContPassiveLJAgent))),
    }
    match c.ti {
        0 => dbg.push(format!("{:?}", part!(ConstStep))),
        _ => dbg.push(format!("{:?}", part!(ExponentialStep))),
    }
    match c.si {
        0 => {
            let _ = part!(VariableSimulation);
        }
        1 => {
            let _ = part!(ParVariableSimulation);
        }
        _ => {
            let _ = part!(ProcessSimulation);
        }
    }
    ensure!(at == t.len(), "arguments", "the parts take {} arguments, {} were generated", at, t.len());
    Ok((dbg, text))
}

/// Reads the parts back from the header of a file and prints them again.
fn reread(c: &Combo, file: &Path, width: usize) -> Result<String, Stop> {
    let f = ok!(File::open(file), "header", "{}", file.display());
    let mut lines = BufReader::new(f).lines();
    let _ = lines.next();
    let mut text = String::new();
    macro_rules! part {
        ($ty:ty) => {{
            let a = ok!(<$ty>::read_args_from_lines(&mut lines), "header", "{} in {}", stringify!($ty), file.display());
            text.push_str(&a.print_configuration(width));
        }};
    }
    match c.sy {
        0 => part!(ContCircSystem),
        1 => part!(ContCubicSystem),
        _ => part!(ContCylindricalSystem),
    }
    part!(ContBulkTarget);
    match c.ag {
        0 => part!(ContPassiveIndepAgent),
        1 => part!(ContPassiveMergeAgent),
        2 => part!(ContPassiveExpAgent),
        _ => part!(ContPassiveLJAgent),
    }
    match c.ti {
        0 => part!(ConstStep),
        _ => part!(ExponentialStep),
    }
    match c.si {
        0 => part!(VariableSimulation),
        1 => part!(ParVariableSimulation),
        _ => part!(ProcessSimulation),
    }
    Ok(text)
}

fn dirs(s: &mut Src, sc: &Scratch) -> (PathBuf, String, PathBuf) {
    let cwd = sc.path.join("cwd");
    std::fs::create_dir_all(&cwd).unwrap();
    let sub = s.pick(&["out", "a/b/c", "d.1"]).to_string();
    let abs = s.bool();
    let full = cwd.join(&sub);
    (cwd.clone(), if abs { full.display().to_string() } else { sub }, full)
}

use std::path::PathBuf;

fn classes(c: &Combo, ctx: &mut Ctx) {
    ctx.class(["TimeAnalysis", "TimeVecAnalysis", "ProcessAnalysis"][c.an]);
    ctx.class(["ball", "cube", "cylinder"][c.sy]);
    ctx.class(["indep", "merge", "exp", "lj"][c.ag]);
    ctx.class(["constant step", "growing step"][c.ti]);
    ctx.class(["variable", "parallel", "process"][c.si]);
}

fn file_name_ok(name: &str, c: &Combo, a: &[Arg]) -> R {
    let rest = match name.strip_prefix(&format!("P{}", c.index())) {
        Some(r) => r,
        None => return fail("file-name", format!("file {} does not start with the prefix P{}", name, c.index())),
    };
    let want: String = a.iter().filter_map(|x| x.key.as_ref().map(|k| format!("_{}_{}", x.name, k))).collect();
    ensure!(rest.starts_with(&want) && rest.ends_with(".dat"), "file-name", "file {} of parameters {}", name, want);
    Ok(())
}

fn c27_run(s: &mut Src, ctx: &mut Ctx) -> R {
    let c = Combo::any(s);
    classes(&c, ctx);
    ctx.nontrivial();
    let sc = Scratch::new(ctx);
    let (cwd, dir, full) = dirs(s, &sc);
    let a = args_of(s, &c, &dir);
    let t: Vec<String> = a.iter().map(|x| x.text.clone()).collect();
    let lines: String = (0..s.size(0, 5)).map(|_| format!("{:.5e}\n", s.f64(0.0, 10.0))).collect();
    ctx.note(|| format!("{:?} ({}) {:?} data {:?}", c, c.analysis(), t, lines));
    if s.chance(1, 6) {
        // the same run was made before: its file makes room
        let earlier: String = (0..s.size(1, 12)).map(|_| format!("{:.5e}\n", s.f64(0.0, 10.0))).collect();
        ctx.note(|| format!("after a run with data {:?}", earlier));
        let o = launch(&c, &t, &cwd, Some(&earlier));
        ensure!(o.code == Some(0), "run", "program ended with {:?}: {}", o.code, o.err);
    }
    let o = launch(&c, &t, &cwd, Some(&lines));
    ensure!(o.code == Some(0), "run", "program ended with {:?}: {}", o.code, o.err);
    // what the program saw
    let mut seen: std::collections::BTreeMap<&str, &str> = std::collections::BTreeMap::new();
    for l in o.out.lines() {
        if let Some(r) = l.strip_prefix("VAR ") {
            let (n, v) = r.split_once(' ').unwrap_or((r, ""));
            seen.insert(n, v);
        }
    }
    for x in &a {
        if x.name == "bctype" || x.name == "sys_type" {
            continue; // not declared as variables
        }
        ctx.checked(1);
        ensure!(seen.get(x.name) == Some(&x.value.as_str()), "variable", "{} is {:?}, given {} ({})", x.name, seen.get(x.name), x.text, x.value);
    }
    let (dbg, text) = parts(&c, &t, 15)?;
    for (n, v) in ["sys", "target", "vec_agents", "timeiter"].iter().zip(&dbg) {
        ctx.checked(1);
        ensure!(seen.get(n) == Some(&v.as_str()), "part", "{} is {:?} instead of {}", n, seen.get(n), v);
    }
    // independent facts about the parts
    let val = |n: &str| a.iter().find(|x| x.name == n).map(|x| x.value.clone()).unwrap_or_default();
    let mut want = vec![val("num_ensemble"), val("seed"), val("output_dir")];
    match c.si {
        0 => want.push(val("idx_set")),
        1 => want.push(val("n_thrd")),
        _ => {
            want.push(val("idx_set"));
            want.push(val("period"));
        }
    }
    let sim = format!("SIM ({})", want.join(", "));
    ensure!(o.out.lines().any(|l| l == sim), "part", "simulation is {:?} instead of {}", o.out.lines().find(|l| l.starts_with("SIM")), sim);
    let sysv = seen["sys"];
    for n in ["sys_size", "sys_radius", "sys_length", "bctype", "sys_type", "dim"] {
        let v = val(n);
        if !v.is_empty() {
            ensure!(sysv.contains(&v), "part", "system {} of {} {}", sysv, n, v);
        }
    }
    // files
    let files = tree(&cwd);
    let made: Vec<&String> = files.iter().filter(|f| cwd.join(f).is_file()).collect();
    ensure!(made.len() == 1, "files", "files made: {:?}", files);
    let path = cwd.join(made[0]);
    ensure!(path.parent() == Some(full.as_path()), "files", "file {} is not in {}", path.display(), full.display());
    file_name_ok(path.file_name().unwrap().to_str().unwrap(), &c, &a)?;
    let body = ok!(std::fs::read_to_string(&path), "files", "{}", path.display());
    let mut it = body.splitn(2, '\n');
    let head = it.next().unwrap_or("");
    let rest = it.next().unwrap_or("");
    ensure!(head.starts_with("===") && head.contains("DESCRIPTIONS"), "header", "file starts with {:?}", head);
    ensure!(rest.starts_with(&text), "header", "header\n{}\nconfiguration of the parts\n{}", rest, text);
    let rest = &rest[text.len()..];
    let mut it = rest.splitn(2, '\n');
    let sep = it.next().unwrap_or("");
    ensure!(sep.starts_with("===") && sep.contains("DATA STARTS"), "header", "configuration ends with {:?}", sep);
    ensure!(it.next() == Some(lines.as_str()), "data", "data written {:?}, in the file {:?}", lines, rest);
    let again = reread(&c, &path, 15)?;
    ensure!(again == text, "reread", "header read back as\n{}\ninstead of\n{}", again, text);
    ctx.checked(6);
    Ok(())
}

fn usage_ok(c: &Combo, err: &str) -> R {
    macro_rules! has {
        ($($ty:ty),*) => {{ $(
            for l in <$ty>::brief_info().lines() {
                ensure!(err.contains(l), "usage", "usage text does not list {} ({:?}):\n{}", stringify!($ty), l, err);
            }
        )* }};
    }
    match c.sy {
        0 => has!(ContCircSystem),
        1 => has!(ContCubicSystem),
        _ => has!(ContCylindricalSystem),
    }
    has!(ContBulkTarget);
    match c.ag {
        0 => has!(ContPassiveIndepAgent),
        1 => has!(ContPassiveMergeAgent),
        2 => has!(ContPassiveExpAgent),
        _ => has!(ContPassiveLJAgent),
    }
    match c.ti {
        0 => has!(ConstStep),
        _ => has!(ExponentialStep),
    }
    match c.si {
        0 => has!(VariableSimulation),
        1 => has!(ParVariableSimulation),
        _ => has!(ProcessSimulation),
    }
    match c.an {
        0 => has!(TimeAnalysis),
        1 => has!(TimeVecAnalysis),
        _ => has!(ProcessAnalysis),
    }
    Ok(())
}

/// The arguments with the i-th one (and what belongs to it) outside its domain, if there is such a value.
fn spoil(s: &mut Src, a: &[Arg], i: usize) -> Option<Vec<String>> {
    let mut t: Vec<String> = a.iter().map(|x| x.text.clone()).collect();
    match a[i].name {
        "sys_size" | "sys_radius" | "sys_length" => t[i] = s.pick(&["0", "-1", "-0.001"]).to_string(),
        "dim" => t[i] = "0".to_string(),
        "tmax" => t[i] = s.pick(&["-1", "-1e-3"]).to_string(),
        "dt" | "dt_min" => t[i] = s.pick(&["0", "-0.01", "1e-17"]).to_string(),
        "dt_max" => t[i] = format!("{}", a[i - 1].text.parse::<f64>().unwrap() * 0.5),
        "length" => t[i] = "0".to_string(),
        "sys_type" => {
            let d = a.iter().find(|x| x.name == "dim").unwrap().text.parse::<usize>().unwrap() + s.size(1, 3);
            t[i] = format!("{}", d);
            t[i + 1] = format!("{}", d);
        }
        "bctype" if i == 1 => t[i] = s.pick(&["Reflective", "Periodic"]).to_string(), // of a cylinder
        "bctype" => t[i] = format!("{}", a.iter().find(|x| x.name == "dim").unwrap().text.parse::<usize>().unwrap() + s.size(1, 3)),
        "exp_dim" if a.iter().any(|x| x.name == "itype" && x.text != "Uniform") => t[i] = format!("{}", a[i].text.parse::<usize>().unwrap() + s.size(1, 3)),
        _ => return None,
    }
    Some(t)
}

fn contents(d: &Path) -> Vec<Option<Vec<u8>>> {
    tree(d).iter().map(|f| std::fs::read(d.join(f)).ok()).collect()
}

/// Base arguments and the same with one argument changed: None if the i-th one cannot be.
fn vary(s: &mut Src, base: &[Arg], i: usize) -> Option<Vec<Arg>> {
    let mut b = base.to_vec();
    let (name, file_only) = (b[i].name, b[i].file_only);
    b[i].key.as_ref()?;
    match name {
        "dim" | "num_agent" | "length" | "idx_set" | "n_thrd" => {
            let x = b[i].text.parse::<usize>().unwrap() + s.size(1, 3);
            b[i] = key(name, format!("{}", x), &x, file_only);
        }
        _ => {
            let x = b[i].text.parse::<f64>().unwrap();
            // the smallest step goes down, the others up, so that the clock stays valid
            let up = name != "dt_min";
            let y = match s.size(0, 2) {
                0 => f64::from_bits(if up { x.to_bits() + 1 } else { x.to_bits() - 1 }),
                1 => if up { x * 1.0009765625 } else { x * 0.9990234375 },
                _ => if up { x * 2.0 } else { x * 0.5 },
            };
            b[i] = key(name, format!("{}", y), &y, file_only);
        }
    }
    Some(b)
}

/// Two runs in one directory: (combination, directory of the program, output directory and its text, number of
/// variables, numbers of data lines, kind of change: 0 none, 1 run parameter, 2 another parameter).
fn two_runs(s: &mut Src, ctx: &mut Ctx, sc: &Scratch, same: bool) -> Result<(Combo, PathBuf, PathBuf, String, usize, [usize; 2], usize), Stop> {
    let c = Combo::any(s);
    classes(&c, ctx);
    let (cwd, dir, full) = dirs(s, sc);
    let nvar = s.size(1, 3);
    let a = args_of(s, &c, &dir);
    let (b, kind) = if same && s.chance(1, 4) {
        (a.clone(), 0)
    } else {
        let run_only = s.chance(1, 4);
        let list: Vec<usize> = (0..a.len()).filter(|&i| a[i].key.is_some() && a[i].file_only == run_only).collect();
        let i = *s.pick(&list);
        (vary(s, &a, i).unwrap(), if run_only { 1 } else { 2 })
    };
    ctx.class(["same run", "run parameter", "parameter"][kind]);
    let mut n = [0; 2];
    for (k, v) in [&a, &b].iter().enumerate() {
        n[k] = s.size(1, 5);
        let (text, _) = data_lines(s, c.an, nvar, n[k]);
        let t: Vec<String> = v.iter().map(|x| x.text.clone()).collect();
        ctx.note(|| format!("{:?} ({}) run {:?} data {:?}", c, c.analysis(), t, text));
        let o = launch(&c, &t, &cwd, Some(&text));
        ensure!(o.code == Some(0), "run", "program ended with {:?}: {}", o.code, o.err);
    }
    Ok((c, cwd, full, dir, nvar, n, kind))
}

fn have_programs(ctx: &mut Ctx) -> bool {
    // that they build is C27's business
    let yes = std::env::var("VSIM_BUILD_FAILED").is_err() && std::path::Path::new(&bin()).exists();
    if !yes {
        ctx.class("programs not built");
    }
    yes
}

fn c24_programs(s: &mut Src, ctx: &mut Ctx) -> R {
    if !have_programs(ctx) {
        return Ok(());
    }
    let sc = Scratch::new(ctx);
    let (c, cwd, full, dir, nvar, n, kind) = two_runs(s, ctx, &sc, false)?;
    if kind == 2 {
        ctx.nontrivial();
    }
    let mut t: Vec<String> = vec!["0".to_string(), "12".to_string(), "24".to_string(), dir];
    if c.an == 1 {
        t.insert(0, format!("{}", nvar));
    }
    ctx.note(|| format!("analysis {:?}", t));
    let o = launch(&c, &t, &cwd, None);
    ensure!(o.code == Some(0), "analysis", "program ended with {:?}: {}", o.code, o.err);
    let after = tree(&full);
    let sums: Vec<&String> = after.iter().filter(|f| f.ends_with("brief_result.dat") || f.ends_with("brief_data.dat")).collect();
    ensure!(sums.len() == 1, "summary", "summaries {:?} in {:?}", sums, after);
    let text = ok!(std::fs::read_to_string(full.join(sums[0])), "summary", "{}", sums[0]);
    let back = if c.an == 1 { 2 * nvar } else { 2 };
    let mut got: Vec<f64> = Vec::new();
    for l in text.lines().skip(1) {
        let w: Vec<&str> = l.split_whitespace().collect();
        ensure!(w.len() > back, "summary", "row {:?}", l);
        got.push(ok!(w[w.len() - 1 - back].parse::<f64>(), "summary", "row {:?}", l));
    }
    got.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let mut want: Vec<f64> = if kind == 1 { vec![(n[0] + n[1]) as f64] } else { n.iter().map(|x| *x as f64).collect() };
    want.sort_by(|a, b| a.partial_cmp(b).unwrap());
    ctx.checked(1);
    ensure!(got == want, "pooling", "samples per row {:?}, expected {:?}:\n{}", got, want, text);
    Ok(())
}

fn c26_programs(s: &mut Src, ctx: &mut Ctx) -> R {
    if !have_programs(ctx) {
        return Ok(());
    }
    let sc = Scratch::new(ctx);
    let (_, _, full, _, _, _, kind) = two_runs(s, ctx, &sc, true)?;
    if kind > 0 {
        ctx.nontrivial();
    }
    let files = tree(&full);
    ctx.checked(1);
    ensure!(files.len() == if kind == 0 { 1 } else { 2 }, "names", "data files {:?}", files);
    Ok(())
}

/// Files below a directory with their contents; the lines of a summary (whose order is free) sorted.
fn files_of(d: &Path) -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<(String, Vec<u8>)> = Vec::new();
    for f in tree(d) {
        if let Ok(b) = std::fs::read(d.join(&f)) {
            let mut l: Vec<&[u8]> = b.split_inclusive(|c| *c == b'\n').collect();
            if f.ends_with("brief_result.dat") || f.ends_with("brief_data.dat") {
                l.sort();
            }
            v.push((f.clone(), l.concat()));
        }
    }
    v
}

fn c34_storage(s: &mut Src, ctx: &mut Ctx) -> R {
    if !have_programs(ctx) {
        return Ok(());
    }
    let c = Combo::any(s);
    classes(&c, ctx);
    let sc = Scratch::new(ctx);
    let (cwd, dir, full) = dirs(s, &sc);
    let a = args_of(s, &c, &dir);
    let mut run: Vec<String> = a.iter().map(|x| x.text.clone()).collect();
    let cause = "File too large";
    if s.chance(1, 20) {
        // a value whose digits make the name of the data file longer than names can be
        ctx.class("name too long");
        ctx.nontrivial();
        let i = a.iter().position(|x| x.name == "target_size").unwrap();
        run[i] = if s.bool() { format!("1e-{}", s.size(260, 300)) } else { format!("1e{}", s.size(260, 300)) };
        ctx.note(|| format!("{:?} run {:?}", c, run));
        let o = launch(&c, &run, &cwd, None);
        ctx.checked(1);
        ensure!(o.code == Some(1) && o.err.contains("File name too long"), "unreported", "a data file that cannot be named: {:?} {}", o.code, o.err);
        ensure!(files_of(&full).is_empty(), "content", "files {:?}", tree(&full));
        return Ok(());
    }
    if s.chance(1, 3) {
        // a simulation sets up its data file
        ctx.class("run");
        let o = launch(&c, &run, &cwd, None);
        ensure!(o.code == Some(0), "run", "program ended with {:?}: {}", o.code, o.err);
        let want = files_of(&full);
        ensure!(want.len() == 1, "run", "files {:?}", tree(&full));
        let size = want[0].1.len() as u64;
        let limit = if s.chance(1, 8) { size } else { s.draw(size + 40) };
        std::fs::remove_file(full.join(&want[0].0)).unwrap();
        ctx.note(|| format!("{:?} run {:?} with files up to {} bytes (needs {})", c, run, limit, size));
        let o = launch_limited(&c, &run, &cwd, None, Some(limit));
        ctx.checked(1);
        if limit < size {
            ctx.nontrivial();
            ensure!(o.code == Some(1), "unreported", "limit {} of {} bytes: the set-up ended with {:?} {}", limit, size, o.code, o.err);
            ensure!(o.err.contains(cause), "cause", "limit {} of {} bytes: {}", limit, size, o.err);
        } else {
            ensure!(o.code == Some(0), "refused", "limit {} for {} bytes: {:?} {}", limit, size, o.code, o.err);
            ensure!(files_of(&full) == want, "content", "file differs under a limit that is large enough");
        }
        return Ok(());
    }
    ctx.class("analysis");
    let many = c.an == 1 && s.bool();
    let nvar = if many { s.size(100, 500) } else { s.size(1, 4) };
    if many {
        ctx.class("long rows");
    }
    let sets = s.size(1, 3);
    let mut one = a.clone();
    for _ in 0..sets {
        let n = if many { s.size(1, 2) } else { s.size(1, 12) };
        let (text, _) = data_lines(s, c.an, nvar, n);
        let t: Vec<String> = one.iter().map(|x| x.text.clone()).collect();
        let o = launch(&c, &t, &cwd, Some(&text));
        ensure!(o.code == Some(0), "run", "program ended with {:?}: {}", o.code, o.err);
        let list: Vec<usize> = (0..a.len()).filter(|&i| a[i].key.is_some() && !a[i].file_only).collect();
        let i = *s.pick(&list);
        one = vary(s, &one, i).unwrap();
    }
    let mut t: Vec<String> = vec!["0".to_string(), "12".to_string(), format!("{}", s.size(10, 40)), dir];
    if s.bool() {
        // bin sizes: either profile may be the longest of the files
        t[2] = s.pick(&["0.3", "1", "5"]).to_string();
        t.insert(3, s.pick(if many { &["1.3", "1.5", "2"] } else { &["1.02", "1.05", "2"] }).to_string());
    }
    if c.an == 1 {
        t.insert(0, format!("{}", nvar));
    }
    let data = files_of(&full);
    let o = launch(&c, &t, &cwd, None);
    ensure!(o.code == Some(0), "analysis", "program ended with {:?}: {}", o.code, o.err);
    let first = |d: &Path, not: &str| -> Option<String> { std::fs::read_dir(d).unwrap().flatten().map(|e| e.file_name().to_string_lossy().to_string()).find(|f| f.starts_with("analysis_") && f != not) };
    let one_dir = match first(&full, "") {
        Some(d) => d,
        None => return fail("analysis", format!("no result in {:?}", tree(&full))),
    };
    let want = files_of(&full.join(&one_dir));
    let sizes: Vec<u64> = want.iter().map(|x| x.1.len() as u64).collect();
    let need = *sizes.iter().max().unwrap();
    // near the size of one of the files, or anywhere
    let limit = match s.size(0, 2) {
        0 => s.draw(need + 40),
        1 => (*s.pick(&sizes) + s.draw(3)).saturating_sub(1),
        _ => need.saturating_sub(s.draw(need.min(30) + 1)),
    };
    ctx.note(|| format!("{:?} ({}) analysis {:?} with files up to {} bytes (needs {:?})", c, c.analysis(), t, limit, sizes));
    let o = launch_limited(&c, &t, &cwd, None, Some(limit));
    ctx.checked(2);
    let two_dir = first(&full, &one_dir);
    if limit < need {
        ctx.nontrivial();
        ensure!(o.code == Some(1), "unreported", "limit {} of {} bytes: the analysis ended with {:?} {}", limit, need, o.code, o.err);
        ensure!(o.err.contains(cause), "cause", "limit {} of {} bytes: {}", limit, need, o.err);
    } else {
        ensure!(o.code == Some(0), "refused", "limit {} for {} bytes: {:?} {}", limit, need, o.code, o.err);
        ensure!(two_dir.is_some(), "content", "no result in {:?}", tree(&full));
        ensure!(files_of(&full.join(two_dir.as_ref().unwrap())) == want, "content", "results differ under a limit that is large enough");
    }
    ensure!(files_of(&full.join(&one_dir)) == want, "overwritten", "the earlier results changed");
    let now: Vec<(String, Vec<u8>)> = files_of(&full).into_iter().filter(|f| !f.0.starts_with("analysis_")).collect();
    ensure!(now == data, "data-changed", "the data files changed");
    Ok(())
}

fn c27_refuse(s: &mut Src, ctx: &mut Ctx) -> R {
    let c = Combo::any(s);
    classes(&c, ctx);
    ctx.nontrivial();
    let sc = Scratch::new(ctx);
    let (cwd, dir, _) = dirs(s, &sc);
    let a = args_of(s, &c, &dir);
    let total = a.len();
    let mut t: Vec<String> = a.iter().map(|x| x.text.clone()).collect();
    let need = if c.an == 1 { 5 } else { 4 };
    let how = s.weighted(&[4, 4, 2, 1, 4]);
    if s.chance(1, 4) {
        // a good run before
        let o = launch(&c, &t, &cwd, Some("1.0\n2.0\n"));
        ensure!(o.code == Some(0), "run", "program ended with {:?}: {}", o.code, o.err);
        ctx.class("after a good run");
    }
    match how {
        0 => {
            // wrong count, near the right one or anything
            let n = loop {
                let n = if s.bool() { s.size(0, total + 5) } else { *s.pick(&[total - 1, total + 1, need - 1, need + 2, 0]) };
                if n != total && n != need && n != need + 1 {
                    break n;
                }
            };
            while t.len() < n {
                t.push("1".to_string());
            }
            t.truncate(n);
            ctx.class("wrong count");
        }
        1 => {
            let i = s.size(0, total - 2);
            t[i] = s.pick(&["x", "", "--help", "1.2.3", "0x10", "?,?"]).to_string();
            ctx.class("unreadable argument");
        }
        2 => {
            // analysis with unreadable numbers
            t = vec!["0".to_string(), "10".to_string(), "20".to_string(), "missing/dir".to_string()];
            if s.bool() {
                t.insert(3, "1.5".to_string());
                t[2] = "0.5".to_string();
            }
            if c.an == 1 {
                t.insert(0, "0".to_string());
            }
            if s.chance(1, 3) {
                ctx.class("analysis of a missing directory");
            } else {
                let i = s.size(0, t.len() - 2);
                t[i] = s.pick(&["x", "", "1.2.3"]).to_string();
                ctx.class("unreadable analysis argument");
            }
        }
        4 => {
            let i = loop {
                let i = s.size(0, total - 2);
                if spoil(s, &a, i).is_some() {
                    break i;
                }
            };
            t = spoil(s, &a, i).unwrap();
            ctx.class("invalid value");
        }
        _ => {
            // output directory cannot be made: a file is in the way
            std::fs::write(cwd.join("block"), "x").unwrap();
            *t.last_mut().unwrap() = "block/sub".to_string();
            ctx.class("output directory blocked");
        }
    }
    ctx.note(|| format!("{:?} ({}) {:?} how {}", c, c.analysis(), t, how));
    let (before, old) = (tree(&cwd), contents(&cwd));
    let o = launch(&c, &t, &cwd, None);
    ctx.checked(3);
    ensure!(o.code != Some(0), "accepted", "program called with {:?} ends well, saying {}", t, o.out);
    // invalid values are refused by the conversion, with a message
    ensure!(o.code == Some(1) || (how == 4 && o.code == Some(101) && !o.err.is_empty()), "crash", "program called with {:?} ends with {:?}: {}", t, o.code, o.err);
    let after = tree(&cwd);
    ensure!(before == after, "files", "refused call left {:?} of {:?}", after, before);
    ensure!(old == contents(&cwd), "files", "refused call changed a file among {:?}", after);
    ensure!(!o.out.contains("VAR "), "accepted", "program went on: {}", o.out);
    if how == 0 {
        usage_ok(&c, &o.err)?;
    }
    Ok(())
}

/// Data lines for one run and, per variable, the values (for processes the last element is the value).
fn data_lines(s: &mut Src, an: usize, nvar: usize, n: usize) -> (String, Vec<Vec<f64>>) {
    let mut text = String::new();
    let mut vals: Vec<Vec<f64>> = vec![Vec::new(); if an == 1 { nvar } else { 1 }];
    for _ in 0..n {
        match an {
            0 => {
                let x = s.f64(0.1, 10.0);
                text.push_str(&format!("{}\n", x));
                vals[0].push(x);
            }
            1 => {
                for v in vals.iter_mut() {
                    let x = s.f64(0.1, 10.0);
                    text.push_str(&format!("{}\t", x));
                    v.push(x);
                }
                text.push('\n');
            }
            _ => {
                for _ in 0..s.size(1, 3) {
                    let (t, x) = (s.f64(0.1, 10.0), s.f64(-5.0, 5.0));
                    text.push_str(&format!("({},{})\t", t, x));
                    vals[0].push(x);
                }
                text.push('\n');
            }
        }
    }
    (text, vals)
}

fn c27_analyse(s: &mut Src, ctx: &mut Ctx) -> R {
    let c = Combo::any(s);
    classes(&c, ctx);
    let sc = Scratch::new(ctx);
    let (cwd, dir, full) = dirs(s, &sc);
    let nvar = s.size(1, 3);
    let base = args_of(s, &c, &dir);
    let nsets = s.size(1, 2);
    if nsets == 2 {
        ctx.nontrivial();
    }
    let mut want: Vec<(Vec<f64>, usize, Vec<Vec<f64>>)> = Vec::new();
    for k in 0..nsets {
        let mut a = base.clone();
        if k == 1 {
            // another value of one of its parameters
            let list: Vec<usize> = (0..a.len()).filter(|&i| a[i].key.is_some() && !a[i].file_only).collect();
            let i = *s.pick(&list);
            let up = a[i].name != "dt_min";
            if let Ok(n) = a[i].text.parse::<usize>().map(|n| n + 1) {
                a[i] = if a[i].value.contains('.') { let x = n as f64; key(a[i].name, format!("{}", x), &x, false) } else { key(a[i].name, format!("{}", n), &n, false) };
            } else {
                let x = a[i].text.parse::<f64>().unwrap() * if up { 2.0 } else { 0.5 };
                a[i] = key(a[i].name, format!("{}", x), &x, false);
            }
        }
        let mut keyv: Vec<f64> = Vec::new();
        for x in a.iter().filter(|x| x.key.is_some() && !x.file_only) {
            keyv.push(x.key.as_ref().unwrap().parse().unwrap());
        }
        let runs = s.size(1, 2);
        let mut n = 0;
        let mut all: Vec<Vec<f64>> = vec![Vec::new(); if c.an == 1 { nvar } else { 1 }];
        for r in 0..runs {
            let mut b = a.clone();
            let f = b.iter().position(|x| x.name == "idx_set" || x.name == "n_thrd").unwrap();
            b[f] = key(b[f].name, format!("{}", r), &r, true);
            let lines = s.size(1, 6);
            let (text, vals) = data_lines(s, c.an, nvar, lines);
            n += lines;
            for (x, y) in all.iter_mut().zip(vals) {
                x.extend(y);
            }
            let t: Vec<String> = b.iter().map(|x| x.text.clone()).collect();
            ctx.note(|| format!("{:?} ({}) run {:?} data {:?}", c, c.analysis(), t, text));
            let o = launch(&c, &t, &cwd, Some(&text));
            ensure!(o.code == Some(0), "run", "program ended with {:?}: {}", o.code, o.err);
        }
        want.push((keyv, n, all));
    }
    let mut t: Vec<String> = Vec::new();
    if c.an == 1 {
        t.push(format!("{}", nvar));
    }
    t.push("0".to_string());
    t.push("12".to_string());
    if s.bool() {
        t.push("24".to_string());
    } else {
        t.push("0.5".to_string());
        t.push("1.5".to_string());
    }
    t.push(dir.clone());
    ctx.note(|| format!("analysis {:?}", t));
    let before = tree(&full).len();
    let o = launch(&c, &t, &cwd, None);
    ensure!(o.code == Some(0), "analysis", "program ended with {:?}: {}", o.code, o.err);
    ensure!(!o.out.contains("VAR "), "analysis", "the analysis went on with a simulation: {}", o.out);
    let after = tree(&full);
    ensure!(after.len() > before, "analysis", "nothing was written");
    let sums: Vec<&String> = after.iter().filter(|f| f.ends_with("brief_result.dat") || f.ends_with("brief_data.dat")).collect();
    ensure!(sums.len() == 1, "summary", "summaries {:?} in {:?}", sums, after);
    let text = ok!(std::fs::read_to_string(full.join(sums[0])), "summary", "{}", sums[0]);
    let mut rows: Vec<Vec<f64>> = Vec::new();
    for l in text.lines().skip(1) {
        let mut r = Vec::new();
        for w in l.split_whitespace() {
            r.push(ok!(w.parse::<f64>(), "summary", "row {:?}", l));
        }
        rows.push(r);
    }
    ensure!(rows.len() == want.len(), "summary", "{} rows for {} parameter sets:\n{}", rows.len(), want.len(), text);
    for (k, n, v) in &want {
        ctx.checked(2);
        let hits: Vec<&Vec<f64>> = rows.iter().filter(|r| r.len() > k.len() && r[..k.len()] == k[..]).collect();
        ensure!(hits.len() == 1, "summary", "{} rows for parameters {:?}:\n{}", hits.len(), k, text);
        let r = &hits[0][k.len()..];
        ensure!(r.len() == 1 + 2 * v.len(), "summary", "row {:?}", hits[0]);
        ensure!(r[0] == *n as f64, "ensemble", "{} samples reported, {} written", r[0], n);
        for (i, x) in v.iter().enumerate() {
            check_stats("pooled", r[1 + 2 * i], r[2 + 2 * i], x)?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- set-up with given arguments

mod fixed {
    use moledyn::prelude::*;
    construct_dataset!(FixData, ContCylindricalSystem, sys_arg, ContCylindricalSystemArguments,
                    [sys_radius, f64, sys_length, f64, dim, usize ];
                    ContBulkTarget, target_arg, ContBulkTargetArguments,
                    [target_size, f64];
                    ContPassiveMergeAgent, agent_arg, ContPassiveMergeAgentArguments,
                    [ptl_radius, f64, alpha, f64, num_agent, usize];
                    ConstStep, time_arg, ConstStepArguments,
                    [dt, f64, tmax, f64];
                    {ProcessSimulation, sim_arg, ProcessSimulationArguments,
                    [period, f64, idx_set, usize]});

    macro_rules! fixed {
        ($name:ident, $skip:expr, $an:ty) => {
            #[allow(unused_variables)]
            pub fn $name(args: &Vec<String>, seen: &mut Vec<String>) -> Result<(), Error> {
                setup_simulation_fixed!(args, 15, $skip, $an, "FIX", dataset, FixData,
                    sys_arg, ContCylindricalSystem, target_arg, ContBulkTarget,
                    agent_arg, ContPassiveMergeAgent,
                    time_arg, ConstStep, sim_arg, ProcessSimulation);
                let output_dir = sim_arg.output_dir.clone();
                export_simulation_info!(dataset, output_dir, writer, WIDTH, "FIX",
                                        ContCylindricalSystem, sys, sys_arg,
                                        ContBulkTarget, target, target_arg,
                                        ContPassiveMergeAgent, vec_agents, agent_arg,
                                        ConstStep, timeiter, time_arg,
                                        ProcessSimulation, simulation, sim_arg);
                seen.push(format!("{:?}", sys));
                seen.push(format!("{:?}", target));
                seen.push(format!("{:?}", vec_agents));
                seen.push(format!("{:?}", timeiter));
                write!(&mut writer, "(1,2)\t(3,4)\n(5,6)\n").map_err(Error::make_error_io)?;
                writer.flush().map_err(Error::make_error_io)?;
                Ok(())
            }
        };
    }
    fixed!(skip0, 0, ProcessAnalysis);
    fixed!(skip1, 1, ProcessAnalysis);
    fixed!(skip2, 2, ProcessAnalysis);
    fixed!(skip3, 3, ProcessAnalysis);
}

fn c27_fixed(s: &mut Src, ctx: &mut Ctx) -> R {
    let c = Combo { an: 2, sy: 2, ag: 1, ti: 0, si: 2 };
    let skip = s.size(0, 3);
    let f = [fixed::skip0, fixed::skip1, fixed::skip2, fixed::skip3][skip];
    if skip > 0 {
        ctx.nontrivial();
    }
    let sc = Scratch::new(ctx);
    let full = sc.path.join("out");
    let dir = full.display().to_string();
    let a = args_of(s, &c, &dir);
    let t: Vec<String> = a.iter().map(|x| x.text.clone()).collect();
    let lead: Vec<String> = (0..skip).map(|i| format!("lead{}", i)).collect();
    let call = |v: &[String]| -> Vec<String> { lead.iter().cloned().chain(v.iter().cloned()).collect() };
    ctx.note(|| format!("skip {} {:?}", skip, t));
    let mut seen = Vec::new();
    // refused first: nothing is written
    let n = loop {
        let n = s.size(0, t.len() + 4);
        if n != t.len() && n != 4 && n != 5 {
            break n;
        }
    };
    let mut w = t.clone();
    while w.len() < n {
        w.push("1".to_string());
    }
    w.truncate(n);
    if s.chance(1, 20) {
        // prints its usage on the error stream, so not in every case
        let mut given = call(&w);
        if skip > 0 && s.chance(1, 4) {
            // not even the leading ones are there
            given.truncate(s.size(0, skip - 1));
        }
        match no_panic(|| quiet(|| f(&given, &mut seen))) {
            Err(e) => return fail("panic", format!("{:?}: {}", given, e)),
            Ok(Ok(())) => return fail("accepted", format!("{} arguments accepted", n)),
            Ok(Err(_)) => {}
        }
        ensure!(!full.exists(), "files", "refused call made {:?}", tree(&full));
    }
    ok!(f(&call(&t), &mut seen), "run", "{:?}", t);
    let (dbg, _) = parts(&c, &t, 15)?;
    ensure!(seen == dbg, "part", "parts {:?} instead of {:?}", seen, dbg);
    let files = tree(&full);
    ensure!(files.len() == 1, "files", "{:?}", files);
    let mut it = files[0].strip_prefix("FIX").map(|x| x.to_string());
    let want: String = a.iter().filter_map(|x| x.key.as_ref().map(|k| format!("_{}_{}", x.name, k))).collect();
    ensure!(it.take().map(|x| x.starts_with(&want)).unwrap_or(false), "file-name", "file {} of parameters {}", files[0], want);
    let mut an: Vec<String> = vec!["0".to_string(), "10".to_string()];
    if s.bool() {
        an.push("20".to_string());
    } else {
        an.push("0.5".to_string());
        an.push("1.5".to_string());
    }
    an.push(dir.clone());
    ok!(f(&call(&an), &mut seen), "analysis", "{:?}", an);
    let after = tree(&full);
    let sums: Vec<&String> = after.iter().filter(|f| f.ends_with("brief_data.dat")).collect();
    ensure!(sums.len() == 1, "summary", "{:?}", after);
    let text = ok!(std::fs::read_to_string(full.join(sums[0])), "summary", "");
    let row: Vec<f64> = text.lines().nth(1).unwrap_or("").split_whitespace().filter_map(|w| w.parse().ok()).collect();
    ensure!(text.lines().count() == 2 && row.len() >= 3 && row[row.len() - 3] == 2.0, "summary", "{}", text);
    check_stats("pooled", row[row.len() - 2], row[row.len() - 1], &[2.0, 4.0, 6.0])?;
    ctx.checked(5);
    Ok(())
}

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(from: i32, to: i32) -> i32;
    fn close(fd: i32) -> i32;
}

/// The usage text goes to the error stream, where nobody wants to read it thousands of times.
fn quiet<T>(f: impl FnOnce() -> T) -> T {
    use std::os::fd::AsRawFd;
    static LOCK: std::sync::Mutex<()> = std::sync::Mutex::new(());
    let _one = LOCK.lock().unwrap_or_else(|e| e.into_inner());
    let null = File::options().write(true).open("/dev/null").expect("/dev/null");
    struct Restore(i32);
    impl Drop for Restore {
        fn drop(&mut self) {
            unsafe {
                dup2(self.0, 2);
                close(self.0);
            }
        }
    }
    let saved = unsafe { dup(2) };
    if saved < 0 {
        return f();
    }
    let _back = Restore(saved);
    unsafe { dup2(null.as_raw_fd(), 2) };
    f()
}

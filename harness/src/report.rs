//! Command line, evidence, replay files, known findings.

use crate::guard;
use crate::pbt::*;
use std::fs;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::time::Instant;

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn write(fd: i32, buf: *const std::ffi::c_void, n: usize) -> isize;
    fn _exit(code: i32) -> !;
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Known {
    pub prop: String,
    pub sig: String,
    pub text: String,
}

/// `KNOWN property=<id> sig=<signature> <text>` lines; `fixed:` lines and others are ignored.
fn load_known(root: &Path) -> Vec<Known> {
    let mut v = Vec::new();
    if let Ok(s) = fs::read_to_string(root.join("KNOWN_FINDINGS.txt")) {
        for l in s.lines() {
            if let Some(rest) = l.strip_prefix("KNOWN ") {
                let mut it = rest.splitn(3, ' ');
                let p = it.next().unwrap_or("").trim_start_matches("property=").to_string();
                let g = it.next().unwrap_or("").trim_start_matches("sig=").to_string();
                let t = it.next().unwrap_or("").to_string();
                v.push(Known { prop: p, sig: g, text: t });
            }
        }
    }
    v
}

pub struct Out {
    fd: i32,
}
impl Out {
    pub fn line(&self, s: &str) {
        let mut b = s.as_bytes().to_vec();
        b.push(b'\n');
        let mut off = 0;
        while off < b.len() {
            let n = unsafe { write(self.fd, b[off..].as_ptr() as *const _, b.len() - off) };
            if n <= 0 {
                break;
            }
            off += n as usize;
        }
    }
}

/// Seconds a single case may take; the slowest ordinary ones need one or two.
const HANG: u64 = 100;

/// A case that ended the search or never ended is run alone; only if that shows it again it is reported.
fn confirm(id: &str, checks: &[Check], num: usize, cases: &[usize], what: &str, seed: u64, tier: &str, replay: Option<&str>) -> i32 {
    eprintln!("[{}] the search stopped: {}; cases under way: {:?}", id, what, cases);
    if let Some(p) = replay {
        println!("VIOLATION property={} replay={}", id, p);
        return 1;
    }
    let c = match checks.get(num) {
        Some(c) => c,
        None => return 2,
    };
    for &i in cases {
        let args: Vec<String> =
            ["check", id, "--tier", tier, "--only", c.name, "--case"].iter().map(|s| s.to_string()).chain([format!("{}", i)]).collect();
        match guard::supervise(&args, HANG) {
            Some(guard::End::Code(1)) => return 1,
            Some(guard::End::Bad(_, _, w)) => {
                let dir = root().join("replays");
                let _ = fs::create_dir_all(&dir);
                let p = dir.join(format!("{}-{}-case{}-seed{}.txt", id, c.name, i, seed));
                let text = format!(
                    "property: {}\ncheck: {}\nsignature: no-result\nseed: {}\nindex: {}\nmessage: {}\n# replay: bash /verif/check.sh {} replay {}\n",
                    id, c.name, seed, i, w, id, p.display()
                );
                let _ = fs::write(&p, text);
                let ev = format!(
                    "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": 1,\n  \"rule\": {},\n  \"samples\": [{}]\n }},\n \"assumptions\": [],\n \"wall_s\": 0,\n \"violations\": 1\n}}\n",
                    esc(id), esc(tier), seed, i + 1, esc(c.rule), esc(&format!("[{} violating, case {}] {}", c.name, i, w))
                );
                let _ = fs::write(root().join("evidence").join(format!("{}.json", id)), ev);
                println!("VIOLATION property={} replay={}", id, p.display());
                return 1;
            }
            _ => {}
        }
    }
    eprintln!("[{}] none of the cases does it again alone", id);
    2
}

fn do_case(out: &Out, c: &Check, i: usize, seed: u64) -> i32 {
    guard::begin(0, i);
    let mut src = Src::random(case_seed(seed, c.name, i));
    let mut ctx = Ctx { want: true, case_id: format!("{}-case", c.name), ..Ctx::default() };
    let o = run_case(c.f, &mut src, &mut ctx);
    guard::end(0);
    crate::gen::remove_scratch_root();
    if let Outcome::Fail(f) = o {
        let p = write_replay(c.prop, c.name, &f, src.used(), &ctx.log, seed);
        eprintln!("{}: {}", f.sig, f.msg);
        out.line(&format!("VIOLATION property={} replay={}", c.prop, p));
        return 1;
    }
    0
}

pub fn root() -> PathBuf {
    match std::env::var("VERIF_ROOT") {
        Ok(s) => PathBuf::from(s),
        Err(_) => PathBuf::from("/verif"),
    }
}

fn usage() -> i32 {
    eprintln!("usage: vharness check <ID> [--tier quick|thorough] [--replay FILE] | list");
    2
}

pub fn run(args: &[String], checks: Vec<Check>) -> i32 {
    if args.len() >= 2 && args[1] == "list" {
        for c in &checks {
            println!("{} {} quick={} thorough={}", c.prop, c.name, c.quick, c.thorough);
        }
        return 0;
    }
    if args.len() >= 3 && args[1] == "trace" {
        println!("{}", crate::p_random::trace_main(&args[2]));
        return 0;
    }
    if args.len() < 3 || args[1] != "check" {
        return usage();
    }
    let id = args[2].clone();
    let mut tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".to_string());
    let mut replay: Option<String> = None;
    let mut only: Option<String> = None;
    let mut case: Option<usize> = None;
    let mut i = 3;
    while i < args.len() {
        match args[i].as_str() {
            "--tier" if i + 1 < args.len() => {
                tier = args[i + 1].clone();
                i += 1;
            }
            "--replay" if i + 1 < args.len() => {
                replay = Some(args[i + 1].clone());
                i += 1;
            }
            "--only" if i + 1 < args.len() => {
                only = Some(args[i + 1].clone());
                i += 1;
            }
            "--case" if i + 1 < args.len() => {
                case = args[i + 1].parse().ok();
                i += 1;
            }
            _ => return usage(),
        }
        i += 1;
    }
    let thorough = tier == "thorough";
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let checks: Vec<Check> = checks
        .into_iter()
        .filter(|c| c.prop == id && only.as_ref().map(|o| c.name == o).unwrap_or(true))
        .collect();
    if checks.is_empty() {
        eprintln!("no check for {}", id);
        return 2;
    }
    if std::env::var_os("VH_CHILD").is_none() {
        let n = if thorough { 600 } else { HANG };
        match guard::supervise(&args[1..], n) {
            Some(guard::End::Code(c)) => return c,
            Some(guard::End::Bad(num, cases, what)) => return confirm(&id, &checks, num, &cases, &what, seed, &tier, replay.as_deref()),
            None => {
                eprintln!("cannot start the search");
                return 2;
            }
        }
    }
    guard::child_init();
    // The code under test prints progress on stdout: keep our own lines apart from it.
    let saved = unsafe { dup(1) };
    let null = fs::OpenOptions::new().write(true).open("/dev/null").expect("/dev/null");
    {
        use std::os::unix::io::AsRawFd;
        unsafe { dup2(null.as_raw_fd(), 1) };
    }
    let out = Out { fd: saved };
    install_panic_hook();

    if let Some(p) = replay {
        return do_replay(&out, &checks, &p);
    }
    if let Some(i) = case {
        return do_case(&out, &checks[0], i, seed);
    }

    // Watchdog: an unfinished run is no answer, not a violation.
    let limit: u64 = std::env::var("VERIF_WATCHDOG").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 6 * 3600 } else { 780 });
    std::thread::spawn(move || {
        std::thread::sleep(std::time::Duration::from_secs(limit));
        eprintln!("watchdog: no result after {} s", limit);
        crate::gen::remove_scratch_root();
        unsafe { _exit(2) }
    });

    let t0 = Instant::now();
    let known = load_known(&root());
    let mut evals = 0u64;
    let mut disc = 0u64;
    let mut nontriv = 0u64;
    let mut oracle = 0u64;
    let mut violations = 0;
    let mut code = 0;
    let mut samples: Vec<String> = Vec::new();
    let mut rules: Vec<String> = Vec::new();
    let mut per: Vec<String> = Vec::new();
    for (num, c) in checks.iter().enumerate() {
        guard::check(num);
        let n = if thorough { c.thorough } else { c.quick };
        let pid = id.clone();
        let kn = |sig: &str, _msg: &str| -> Option<String> {
            let full = format!("{}:{}", c.name, sig);
            known.iter().find(|k| k.prop == pid && k.sig == full).map(|k| k.text.clone())
        };
        let t1 = Instant::now();
        let rep = run_check(c, n, seed, &kn);
        evals += rep.evaluations;
        disc += rep.discards;
        nontriv += rep.nontrivial.len() as u64;
        oracle += rep.oracle_checks;
        rules.push(format!("{}: {}", c.name, c.rule));
        samples.extend(rep.samples.iter().cloned());
        let classes: Vec<String> = rep.classes.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect();
        per.push(format!(
            "{{\"check\": {}, \"evaluations\": {}, \"discards\": {}, \"distinct_nontrivial\": {}, \"oracle_comparisons\": {}, \"classes\": {{{}}}}}",
            esc(c.name), rep.evaluations, rep.discards, rep.nontrivial.len(), rep.oracle_checks, classes.join(", ")
        ));
        eprintln!(
            "[{}] {} cases={} discards={} nontrivial={} oracle={} classes={:?} slowest={}ms {:.1}s",
            id, c.name, rep.evaluations, rep.discards, rep.nontrivial.len(), rep.oracle_checks, rep.classes, SLOWEST_US.swap(0, std::sync::atomic::Ordering::Relaxed) / 1000, t1.elapsed().as_secs_f64()
        );
        let mut said: Vec<String> = Vec::new();
        for (k, _) in &rep.known {
            if !said.contains(k) {
                out.line(&format!("KNOWN-FINDING: property={} {}", id, k));
                said.push(k.clone());
            }
        }
        if let Some((fl, buf, log)) = rep.violation {
            violations += 1;
            let p = write_replay(&id, c.name, &fl, &buf, &log, seed);
            eprintln!("[{}] {} FAILED {}: {}\n  case: {}", id, c.name, fl.sig, fl.msg, log);
            samples.push(format!("[{} violating] {}: {} | {}", c.name, fl.sig, fl.msg, log));
            if code == 0 {
                out.line(&format!("VIOLATION property={} replay={}", id, p));
            }
            code = 1;
            break;
        }
    }
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"discards\": {},\n  \"distinct_nontrivial\": {},\n  \"oracle_comparisons\": {},\n  \"rule\": {},\n  \"per_check\": [\n   {}\n  ],\n  \"samples\": [\n   {}\n  ]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        esc(&id),
        esc(if thorough { "thorough" } else { "quick" }),
        seed,
        evals,
        disc,
        nontriv,
        oracle,
        esc(&rules.join(" | ")),
        per.join(",\n   "),
        samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",\n   "),
        [
            "generated-input search: a pass covers the cases generated in this run, not all inputs",
            "parameters are finite numbers; sizes and dimensions within the ranges of the generators",
            "statistical clauses use fixed sample sizes and thresholds of at least 6.5 standard deviations"
        ]
        .iter()
        .map(|s| esc(s))
        .collect::<Vec<_>>()
        .join(", "),
        t0.elapsed().as_secs_f64(),
        violations
    );
    let dir = root().join("evidence");
    let _ = fs::create_dir_all(&dir);
    if let Err(e) = fs::write(dir.join(format!("{}.json", id)), ev) {
        eprintln!("cannot write evidence: {}", e);
        return 2;
    }
    crate::gen::remove_scratch_root();
    if code == 0 {
        out.line(&format!("OK property={} cases={} nontrivial={} wall={:.1}s", id, evals, nontriv, t0.elapsed().as_secs_f64()));
    }
    code
}

pub fn write_replay(id: &str, check: &str, fl: &Fail, buf: &[u64], log: &str, seed: u64) -> String {
    let dir = root().join("replays");
    let _ = fs::create_dir_all(&dir);
    let p = dir.join(format!("{}-{}-{:016x}.txt", id, check, {
        let mut h = hash_str(&fl.sig);
        for &b in buf {
            h = hash_str(&format!("{}-{}", h, b));
        }
        h
    }));
    let mut f = match fs::File::create(&p) {
        Ok(f) => f,
        Err(_) => return p.display().to_string(),
    };
    let _ = writeln!(f, "property: {}", id);
    let _ = writeln!(f, "check: {}", check);
    let _ = writeln!(f, "signature: {}", fl.sig);
    let _ = writeln!(f, "seed: {}", seed);
    let _ = writeln!(f, "choices: {}", buf.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
    let _ = writeln!(f, "message: {}", fl.msg.replace('\n', "\\n"));
    let _ = writeln!(f, "case: {}", log.replace('\n', "\\n"));
    let _ = writeln!(f, "# replay: bash /verif/check.sh {} replay {}", id, p.display());
    p.display().to_string()
}

fn do_replay(out: &Out, checks: &[Check], path: &str) -> i32 {
    let s = match fs::read_to_string(path) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("{}: {}", path, e);
            return 2;
        }
    };
    let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(k)).map(|x| x.trim().to_string());
    let name = get("check:").unwrap_or_default();
    let c = match checks.iter().find(|c| c.name == name) {
        Some(c) => c,
        None => {
            eprintln!("no check {}", name);
            return 2;
        }
    };
    if let (Some(i), Some(seed)) = (get("index:").and_then(|x| x.parse().ok()), get("seed:").and_then(|x| x.parse().ok())) {
        return do_case(out, c, i, seed);
    }
    let buf: Vec<u64> = get("choices:").unwrap_or_default().split_whitespace().filter_map(|x| x.parse().ok()).collect();
    let mut src = Src::replay(&buf);
    let mut ctx = Ctx { want: true, case_id: format!("{}-replay", name), ..Ctx::default() };
    guard::begin(0, 0);
    let o = run_case(c.f, &mut src, &mut ctx);
    guard::end(0);
    crate::gen::remove_scratch_root();
    eprintln!("case: {}", ctx.log);
    match o {
        Outcome::Fail(f) => {
            eprintln!("{}: {}", f.sig, f.msg);
            out.line(&format!("VIOLATION property={} replay={}", c.prop, path));
            1
        }
        Outcome::Discard => {
            eprintln!("discarded");
            0
        }
        Outcome::Pass => {
            out.line("no violation on this case");
            0
        }
    }
}

//! Supervision: the search runs in a child process, so that a case that never ends, exhausts the stack
//! or the memory, or aborts is found, confirmed alone and reported, instead of ending the whole check.

use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, ExitStatus};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::OnceLock;
use std::time::{Duration, Instant};

pub const SLOTS: usize = 64;
const SHRINK: usize = 40;
const CHECK: usize = 41;

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn setrlimit(what: i32, lim: *const [u64; 2]) -> i32;
    fn prctl(a: i32, b: u64, c: u64, d: u64, e: u64) -> i32;
}

static MAP: OnceLock<usize> = OnceLock::new();

fn map(p: &Path) -> Option<usize> {
    use std::os::fd::AsRawFd;
    let f = std::fs::File::options().read(true).write(true).open(p).ok()?;
    let a = unsafe { mmap(std::ptr::null_mut(), SLOTS * 8, 3, 1, f.as_raw_fd(), 0) };
    if a as isize == -1 {
        None
    } else {
        Some(a as usize)
    }
}

fn at(base: usize, i: usize) -> &'static AtomicU64 {
    unsafe { &*((base + 8 * i) as *const AtomicU64) }
}

fn set(i: usize, v: u64) {
    if let Some(b) = MAP.get() {
        at(*b, i).store(v, Ordering::Relaxed);
    }
}

/// Called in the child: from now on begin/end are seen by the supervisor.
pub fn child_init() {
    if let Ok(p) = std::env::var("VH_CHILD") {
        if let Some(b) = map(Path::new(&p)) {
            let _ = MAP.set(b);
        }
        unsafe {
            prctl(1, 9, 0, 0, 0); // ends with the supervisor
            setrlimit(9, &[14 << 30, 14 << 30]); // address space
            setrlimit(4, &[0, 0]); // no core files
        }
    }
}

pub fn check(i: usize) {
    set(CHECK, i as u64);
}
pub fn begin(slot: usize, case: usize) {
    set(slot, case as u64 + 1);
}
pub fn end(slot: usize) {
    set(slot, 0);
}
pub fn shrinking(case: usize) {
    set(SHRINK, case as u64 + 1);
}
pub fn shrunk() {
    set(SHRINK, 0);
}

pub enum End {
    Code(i32),
    /// died or hung: number of the check, candidate cases, what happened
    Bad(usize, Vec<usize>, String),
}

fn spawn(args: &[String], file: &Path) -> Option<Child> {
    let exe = std::env::current_exe().ok()?;
    Command::new(exe).args(args).env("VH_CHILD", file).spawn().ok()
}

fn clean(pid: u32) {
    let _ = std::fs::remove_dir_all(std::env::temp_dir().join(format!("vharness-{}", pid)));
}

fn how(s: &ExitStatus) -> String {
    match s.signal() {
        Some(6) => "it aborted (signal 6: stack or memory exhausted, or a panic that cannot be caught)".to_string(),
        Some(n) => format!("it was ended by signal {}", n),
        None => format!("it ended with {:?}", s.code()),
    }
}

/// Runs `args` in a child under supervision. `hang` = seconds one case may take.
pub fn supervise(args: &[String], hang: u64) -> Option<End> {
    let file: PathBuf = std::env::temp_dir().join(format!("vharness-slots-{}", std::process::id()));
    std::fs::write(&file, vec![0u8; SLOTS * 8]).ok()?;
    let r = supervise_with(args, hang, &file);
    let _ = std::fs::remove_file(&file);
    r
}

fn supervise_with(args: &[String], hang: u64, file: &Path) -> Option<End> {
    let base = map(file)?;
    let mut child = spawn(args, file)?;
    let pid = child.id();
    let mut last: Vec<(u64, Instant)> = (0..=SHRINK).map(|_| (0, Instant::now())).collect();
    let mut nap = 2;
    loop {
        let st = match child.try_wait() {
            Ok(s) => s,
            Err(_) => return None,
        };
        let cases = |f: &dyn Fn(usize) -> bool| -> Vec<usize> {
            let mut v = Vec::new();
            for i in (0..=SHRINK).rev() {
                let x = at(base, i).load(Ordering::Relaxed);
                if x > 0 && f(i) {
                    v.push(x as usize - 1);
                }
            }
            v
        };
        let num = at(base, CHECK).load(Ordering::Relaxed) as usize;
        if let Some(s) = st {
            clean(pid);
            return Some(match s.code() {
                Some(c) if s.signal().is_none() => End::Code(c),
                _ => End::Bad(num, cases(&|_| true), how(&s)),
            });
        }
        let now = Instant::now();
        let mut stuck = Vec::new();
        for (i, l) in last.iter_mut().enumerate() {
            let x = at(base, i).load(Ordering::Relaxed);
            let allow = if i == SHRINK { hang + 60 } else { hang };
            if x == 0 || x != l.0 {
                *l = (x, now);
            } else if now.duration_since(l.1).as_secs() >= allow {
                stuck.push(i);
            }
        }
        if !stuck.is_empty() {
            let v = cases(&|i| stuck.contains(&i));
            let _ = child.kill();
            let _ = child.wait();
            clean(pid);
            return Some(End::Bad(num, v, format!("it had not ended after {} s", hang)));
        }
        std::thread::sleep(Duration::from_millis(nap));
        nap = (nap * 2).min(100);
    }
}

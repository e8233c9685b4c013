//! C34: failures are reported with their cause, nothing is lost silently (the limited-storage runs are in p_sim.rs).

use crate::gen::*;
use crate::pbt::*;
use crate::{ensure, ok};
use moledyn::analysis::{VarN, VarTime};
use moledyn::error::Category;
use moledyn::prelude::*;

pub fn checks() -> Vec<Check> {
    vec![
        Check { prop: "C34", name: "c34_causes", quick: 150000, thorough: 9000000, shrink_budget: 1000, f: c34_causes,
            rule: "pairs of errors of all kinds, made directly or by a refused operation of the library (dimensions, texts, parameters, unusable files and directories): category, text, equality; non-trivial = a refused operation" },
        Check { prop: "C34", name: "c34_writers", quick: 60000, thorough: 3600000, shrink_budget: 300, f: c34_writers,
            rule: "results of the three analyses exported to writers that take 1..40 bytes at a time, are interrupted, or fail after any number of bytes: complete text or an I/O error; non-trivial = the writer fails before the end" },
    ]
}

type P = Position<f64>;

fn codes() -> Vec<ErrorCode> {
    vec![
        ErrorCode::InvalidDimension, ErrorCode::InvalidType, ErrorCode::InvalidConfiguration, ErrorCode::InvalidNumberOfArguments,
        ErrorCode::InvalidArgumentInput, ErrorCode::InvalidFormat, ErrorCode::InvalidFile, ErrorCode::TooLargeTimeStep,
        ErrorCode::FeatureNotProvided, ErrorCode::UnexpectedEnd,
    ]
}

fn text(s: &mut Src) -> String {
    let n = s.size(0, 12);
    (0..n).map(|_| *s.pick(&['a', 'Z', ' ', '{', '}', '"', '\n', '7', '-', 'é', '%'])).collect()
}

/// An error, its category and (where it carries one) its message.
fn some_error(s: &mut Src, ctx: &mut Ctx) -> Result<(Error, Category, Option<String>), Stop> {
    let d = s.size(1, 6);
    let e = d + s.size(1, 3);
    let v = |n: usize| P::new(vec![0.25; n]);
    macro_rules! refused {
        ($what:expr, $r:expr) => {{
            ctx.nontrivial();
            match no_panic(|| $r) {
                Err(m) => return Err(fail::<()>("panic", format!("{}: {}", $what, m)).unwrap_err()),
                Ok(Ok(_)) => return Err(fail::<()>("accepted", format!("{} is accepted", $what)).unwrap_err()),
                Ok(Err(x)) => x,
            }
        }};
    }
    let k = s.size(0, 12);
    Ok(match k {
        0 => {
            let t = text(s);
            (Error::make_error_msg(t.clone()), Category::Data, Some(t))
        }
        1 => {
            let t = text(s);
            let kind = *s.pick(&[io::ErrorKind::NotFound, io::ErrorKind::PermissionDenied, io::ErrorKind::InvalidData, io::ErrorKind::Other, io::ErrorKind::Interrupted, io::ErrorKind::UnexpectedEof]);
            (Error::make_error_io(io::Error::new(kind, t.clone())), Category::Io, Some(t))
        }
        2 => {
            let n = s.size(1, 40) as i32;
            (Error::make_error_io(io::Error::from_raw_os_error(n)), Category::Io, Some(io::Error::from_raw_os_error(n).to_string()))
        }
        3 => {
            let c = codes();
            let n = s.size(0, c.len() - 1);
            let t = c[n].to_string();
            (Error::make_error_syntax(codes().remove(n)), Category::Syntax, Some(t))
        }
        4 => (refused!("a position of another dimension", ContCircSystem::new(1.0, d).check_inclusion(&v(e))), Category::Syntax, None),
        5 => (refused!("a target of another dimension", ContBulkTarget::new(v(d), 0.1).check_find(&v(e))), Category::Syntax, None),
        6 => (refused!("a vector of another dimension", v(d).distance(&v(e))), Category::Syntax, None),
        7 => (refused!("an unreadable position", "1:x".parse::<P>()), Category::Syntax, None),
        8 => (refused!("a negative clock step", ConstStep::new(-s.f64_log(1e-9, 1e9))), Category::Syntax, None),
        9 => (refused!("an argument that is not a number", ContBulkTarget::read_args_from_vec(&["0:0".to_string(), "abc".to_string()])), Category::Syntax, None),
        10 => {
            // a data directory that is a file, or lies below one
            let sc = Scratch::new(ctx);
            std::fs::write(sc.path.join("f"), text(s)).unwrap();
            let dir = if s.bool() { sc.sub("f") } else { sc.sub("f/data") };
            let mut a = vec!["0".to_string(), "12".to_string(), "24".to_string(), dir];
            ctx.class("directory is a file");
            let x = match s.size(0, 2) {
                0 => refused!("a file instead of a directory", TimeAnalysis::analyze::<SetF>(&a, 10, "p")),
                1 => {
                    a.insert(0, "2".to_string());
                    refused!("a file instead of a directory", TimeVecAnalysis::analyze::<SetF>(&a, 10, "p"))
                }
                _ => refused!("a file instead of a directory", ProcessAnalysis::analyze::<SetF>(&a, 10, "p")),
            };
            (x, Category::Io, None)
        }
        11 => {
            // a prefix that makes the names of the results too long
            let sc = Scratch::new(ctx);
            let kind = s.size(0, 2);
            let mut t: Vec<u8> = b"========================    DESCRIPTIONS    ==========================\n".to_vec();
            let x = ok!(ContBulkTarget::read_args_from_vec(&["0:0".to_string(), format!("{}", s.f64_log(1e-3, 1e3))]), "arguments", "target");
            t.extend(x.print_configuration(15).as_bytes());
            t.extend(b"========================     DATA STARTS    ==========================\n");
            t.extend([&b"1.5\n"[..], b"1.5 2.5\n", b"(1.5,2.5)\n"][kind]);
            std::fs::write(sc.path.join("data"), &t).unwrap();
            let mut a = vec!["0".to_string(), "12".to_string(), "24".to_string(), sc.dir()];
            let p = "p".repeat(s.size(250, 300));
            ctx.class("result name too long");
            let x = match kind {
                0 => refused!("a name that is too long", TimeAnalysis::analyze::<SetF>(&a, 10, &p)),
                1 => {
                    a.insert(0, "2".to_string());
                    refused!("a name that is too long", TimeVecAnalysis::analyze::<SetF>(&a, 10, &p))
                }
                _ => refused!("a name that is too long", ProcessAnalysis::analyze::<SetF>(&a, 10, &p)),
            };
            (x, Category::Io, None)
        }
        _ => {
            // a data file whose data is not text, or no data of the analysis
            let sc = Scratch::new(ctx);
            let kind = s.size(0, 2);
            let binary = s.bool();
            ctx.class(if binary { "data not text" } else { "damaged data" });
            let mut t: Vec<u8> = b"========================    DESCRIPTIONS    ==========================\n".to_vec();
            let x = ok!(ContBulkTarget::read_args_from_vec(&["0:0".to_string(), format!("{}", s.f64_log(1e-3, 1e3))]), "arguments", "target");
            t.extend(x.print_configuration(15).as_bytes());
            t.extend(b"========================     DATA STARTS    ==========================\n");
            let n = s.size(0, 30);
            for _ in 0..n {
                t.extend(match kind {
                    0 => &b"1.5\n"[..],
                    1 => b"1.5\t2.5\n",
                    _ => b"(1.5,2.5)\t(2.5,1)\n",
                });
            }
            if binary {
                t.extend(*s.pick(&[&b"\xff\n"[..], b"1.5\xc3\n", b"\x80\x80", b"(1,\xed\xa0\x80)\n"]));
            } else {
                t.extend(*s.pick(&[&b"abc\n"[..], b"(1;2)", b"1.5x 3\n"]));
            }
            std::fs::write(sc.path.join("data"), &t).unwrap();
            let mut a = vec!["0".to_string(), "12".to_string(), "24".to_string(), sc.dir()];
            let x = match kind {
                0 => refused!("damaged data", TimeAnalysis::analyze::<SetF>(&a, 10, "p")),
                1 => {
                    a.insert(0, "2".to_string());
                    refused!("damaged data", TimeVecAnalysis::analyze::<SetF>(&a, 10, "p"))
                }
                _ => refused!("damaged data", ProcessAnalysis::analyze::<SetF>(&a, 10, "p")),
            };
            (x, if binary { Category::Io } else { Category::Syntax }, None)
        }
    })
}

construct_dataset!(SetF, ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]);

fn c34_causes(s: &mut Src, ctx: &mut Ctx) -> R {
    let (a, ca, ta) = some_error(s, ctx)?;
    let (b, cb, tb) = some_error(s, ctx)?;
    ctx.note(|| format!("{:?} ({:?}) and {:?} ({:?})", a, ca, b, cb));
    for (x, c, t) in [(&a, ca, &ta), (&b, cb, &tb)] {
        ctx.checked(3);
        ensure!(x.classify() == c, "category", "{:?} is of category {:?}, not {:?}", x, x.classify(), c);
        ensure!((x.is_io(), x.is_data(), x.is_syntax()) == (c == Category::Io, c == Category::Data, c == Category::Syntax), "category",
            "{:?}: io {} data {} syntax {}", x, x.is_io(), x.is_data(), x.is_syntax());
        let d = x.to_string();
        match t {
            Some(t) => ensure!(&d == t, "text", "{:?} prints {:?} instead of {:?}", x, d, t),
            None => ensure!(!d.is_empty(), "text", "{:?} prints nothing", x),
        }
    }
    ctx.checked(2);
    ensure!((a == b) == (ca == cb) && (b == a) == (ca == cb), "equality", "{:?} == {:?}: {}", a, b, a == b);
    // each reason has a text of its own
    if let (Some(t), Some(u)) = (&ta, &tb) {
        if ca == Category::Syntax && cb == Category::Syntax {
            let same = format!("{:?}", a) == format!("{:?}", b);
            ensure!((t == u) == same && !t.is_empty(), "text", "{:?} and {:?} print {:?} and {:?}", a, b, t, u);
        }
    }
    Ok(())
}

/// Takes at most `step` bytes per call, is interrupted in every `intr`-th call, fails after `limit` bytes.
struct Slow {
    got: Vec<u8>,
    step: usize,
    intr: usize,
    calls: usize,
    limit: Option<usize>,
    hit: bool,
}
impl Write for Slow {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if b.is_empty() {
            return Ok(0);
        }
        if self.intr > 0 && self.calls % self.intr == 0 {
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        let mut n = b.len().min(self.step);
        if let Some(l) = self.limit {
            n = n.min(l - self.got.len());
            if n == 0 {
                self.hit = true;
                return Err(io::Error::new(io::ErrorKind::Other, "storage is full"));
            }
        }
        self.got.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn c34_writers(s: &mut Src, ctx: &mut Ctx) -> R {
    let kind = s.size(0, 2);
    let n = s.size(0, 20);
    let prec = s.size(1, 24);
    let nvar = s.size(1, 5);
    let what = s.size(0, 2);
    let step = s.size(1, 40);
    let intr = if s.bool() { s.size(2, 5) } else { 0 };
    let fails = s.bool();
    let at = s.draw(1 << 32);
    // result directories that are missing, or files
    let missing = if what == 0 && s.chance(1, 4) { s.size(1, 3) } else { 0 };
    // a name no file can have
    let long = what == 0 && missing == 0 && s.chance(1, 6);
    let stuck = if what == 0 && missing == 0 && !long && s.chance(1, 4) { s.size(1, 2) } else { 0 };
    let name = if long { "n".repeat(s.size(256, 300)) } else { "f".to_string() };
    ctx.class(["times", "vectors", "processes"][kind]);
    ctx.class(["whole", "linear", "logarithmic"][what]);
    let sc = if what == 0 {
        let sc = Scratch::new(ctx);
        for (k, d) in ["linear_distribution", "logarithmic_distribution"].iter().enumerate() {
            if missing & (1 << k) == 0 {
                std::fs::create_dir_all(sc.path.join(d)).unwrap();
            } else if s.bool() {
                std::fs::write(sc.path.join(d), "x").unwrap();
            }
        }
        Some(sc)
    } else {
        None
    };
    macro_rules! go {
        ($ty:ident, $fill:expr) => {{
            let mut a = $ty::default();
            ok!(a.update_from_bin_size(0.0, 12.0, 0.5, 1.5), "bins", "0..12");
            a.allocate_vectors();
            $fill(&mut a)?;
            let call = |w: &mut Slow| -> Result<(), Error> {
                match what {
                    0 => a.export(prec, w, &sc.as_ref().unwrap().dir(), &name),
                    1 => a.export_distribution(prec, w),
                    _ => a.export_log_scaled_distribution(prec, w),
                }
            };
            let mut full = Slow { got: Vec::new(), step: usize::MAX, intr: 0, calls: 0, limit: None, hit: false };
            if missing > 0 || long {
                ctx.class("result file cannot be made");
                ctx.nontrivial();
                ctx.note(|| format!("analysis {} export with result directories missing {} name {:?}", kind, missing, name));
                match no_panic(|| call(&mut full)) {
                    Err(e) => return fail("panic", e),
                    Ok(Ok(())) => return fail("unreported", "success although a result file cannot be made".to_string()),
                    Ok(Err(e)) => ensure!(e.is_io(), "cause", "{:?}", e),
                }
                return Ok(());
            }
            ok!(call(&mut full), "export", "unlimited");
            if stuck > 0 {
                // one of the result files lies on a device that takes nothing
                let (mut lin, mut log) = (Vec::new(), Vec::new());
                ok!(a.export_distribution(prec, &mut lin), "export", "to memory");
                ok!(a.export_log_scaled_distribution(prec, &mut log), "export", "to memory");
                let (d, text) = if stuck == 1 { ("linear_distribution", lin) } else { ("logarithmic_distribution", log) };
                let path = sc.as_ref().unwrap().path.join(d).join(&name);
                ok!(std::fs::remove_file(&path), "export", "no file {}", d);
                std::os::unix::fs::symlink("/dev/full", &path).unwrap();
                ctx.class("a result file on a full device");
                ctx.note(|| format!("analysis {} export, {} of {} bytes on a full device", kind, d, text.len()));
                let mut w = Slow { got: Vec::new(), step: usize::MAX, intr: 0, calls: 0, limit: None, hit: false };
                let r = match no_panic(|| call(&mut w)) {
                    Ok(r) => r,
                    Err(e) => return fail("panic", e),
                };
                ctx.checked(1);
                let whole = std::fs::symlink_metadata(&path).map_or(false, |m| m.is_file()) && std::fs::read(&path).map_or(false, |b| b == text);
                match r {
                    Ok(()) => ensure!(text.is_empty() || whole, "unreported", "success although {} bytes of {} went to a full device", text.len(), d),
                    Err(e) => {
                        ctx.nontrivial();
                        ensure!(!text.is_empty(), "refused", "nothing to write, but {:?}", e);
                        ensure!(e.is_io() && e.to_string().contains("No space left"), "cause", "{:?}", e);
                    }
                }
                return Ok(());
            }
            let need = full.got.len();
            let limit = if fails { Some((at % (need as u64 + 20)) as usize) } else { None };
            ctx.note(|| format!("analysis {} export {} of {} bytes, {} bytes at a time, interrupted {}, limit {:?}", kind, what, need, step, intr, limit));
            let mut w = Slow { got: Vec::new(), step, intr, calls: 0, limit, hit: false };
            let r = match no_panic(|| call(&mut w)) {
                Ok(r) => r,
                Err(e) => return fail("panic", e),
            };
            ctx.checked(2);
            if limit.map_or(false, |l| l < need) {
                ctx.nontrivial();
                match r {
                    Ok(()) => return fail("unreported", format!("success although {} of {} bytes were written", w.got.len(), need)),
                    Err(e) => ensure!(e.is_io() && e.to_string() == "storage is full", "cause", "{:?}", e),
                }
                ensure!(full.got.starts_with(&w.got), "content", "{:?} is no beginning of {:?}", String::from_utf8_lossy(&w.got), String::from_utf8_lossy(&full.got));
            } else {
                ok!(r, "refused", "limit {:?} for {} bytes", limit, need);
                ensure!(w.got == full.got, "content", "{:?} instead of {:?}", String::from_utf8_lossy(&w.got), String::from_utf8_lossy(&full.got));
            }
        }};
    }
    match kind {
        0 => go!(TimeAnalysis, |a: &mut TimeAnalysis| -> R {
            for _ in 0..n {
                Var1::add_ensemble(a, s.f64(0.1, 11.9));
            }
            Var1::draw(a);
            Ok(())
        }),
        1 => go!(TimeVecAnalysis, |a: &mut TimeVecAnalysis| -> R {
            for _ in 0..n {
                VarN::add_ensemble(a, (0..10).map(|_| s.f64(0.1, 11.9)).collect());
            }
            VarN::draw(a);
            Ok(())
        }),
        _ => go!(ProcessAnalysis, |a: &mut ProcessAnalysis| -> R {
            for _ in 0..n {
                for _ in 0..nvar {
                    let t = format!("({},{})", s.f64(0.1, 11.9), s.f64(-3.0, 3.0));
                    VarTime::add_pair(a, ok!(t.parse(), "pair", "{}", t));
                }
                VarTime::add_ensemble(a);
            }
            VarTime::draw(a);
            Ok(())
        }),
    }
    Ok(())
}

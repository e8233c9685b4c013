//! C17, C18, C19, C33: text forms, configuration blocks, malformed input, usage text.

use crate::gen::*;
use crate::pbt::*;
use crate::{ensure, ok};
use moledyn::prelude::*;
use std::fmt::Debug;

pub fn checks() -> Vec<Check> {
    vec![
        Check { prop: "C17", name: "c17_roundtrip", quick: 2100000, thorough: 120000000, shrink_budget: 2000, f: c17_roundtrip,
            rule: "one value of each of the ten kinds (numbers: special, short decimals, 1e-20..1e20, random bit patterns) printed and read; non-trivial = the value carries a number that needs more than six digits" },
        Check { prop: "C17", name: "c17_forms", quick: 2200000, thorough: 130000000, shrink_budget: 2000, f: c17_forms,
            rule: "command-line forms of kinds of motion, initialisations, boundary conditions, shapes, interactions, clocks and positions, with separators, brackets and blanks; non-trivial = the form is not the printed one" },
        Check { prop: "C18", name: "c18_blocks", quick: 60000, thorough: 3600000, shrink_budget: 2000, f: c18_blocks,
            rule: "1..6 configuration blocks of the 13 building blocks written to one file at widths 0..40 and read back in order, data lines following; non-trivial = at least two blocks" },
        Check { prop: "C18", name: "c18_args", quick: 1500000, thorough: 90000000, shrink_budget: 2000, f: c18_args,
            rule: "argument lists of the 13 building blocks in any accepted form with blanks around; non-trivial = blanks around or a short form" },
        Check { prop: "C19", name: "c19_text", quick: 3000000, thorough: 180000000, shrink_budget: 3000, f: c19_text,
            rule: "text for each of the ten kinds: printed forms truncated before a number, with damaged or missing numbers, unknown keywords, random text over the alphabet of the forms; must be refused, or (where the words are insignificant) give only numbers that are in the text; non-trivial = text that must be refused" },
        Check { prop: "C19", name: "c19_args", quick: 2200000, thorough: 130000000, shrink_budget: 3000, f: c19_args,
            rule: "argument lists of the 13 building blocks with a wrong length or one unreadable argument; non-trivial = always" },
        Check { prop: "C19", name: "c19_blocks", quick: 60000, thorough: 3600000, shrink_budget: 3000, f: c19_blocks,
            rule: "configuration blocks truncated at a line, with two lines exchanged, one missing or under another name, without separator, with an unreadable or empty value, bytes that are not text, or an empty file; non-trivial = always" },
        Check { prop: "C33", name: "c33_blocks", quick: 750000, thorough: 45000000, shrink_budget: 2000, f: c33_blocks,
            rule: "usage text of each of the 13 building blocks at widths 0..40 against accepted argument lists: exchanging the argument at the place of a name changes the printed value of that name alone; non-trivial = always" },
        Check { prop: "C33", name: "c33_own", quick: 30000, thorough: 1800000, shrink_budget: 500, f: c33_own,
            rule: "three parameter structures made with the crate's macro (1, 9 with long names, 26 arguments) and generated values; usage names, descriptions, accepted number and places of the values; non-trivial = more than one argument" },
        Check { prop: "C33", name: "c33_analyses", quick: 6000, thorough: 360000, shrink_budget: 200, f: c33_analyses,
            rule: "usage text of each analysis at widths 0..40; analysing an empty directory with as many arguments as announced; each named argument made unreadable in turn; non-trivial = always" },
    ]
}

// ------------------------------------------------------------------ values

fn num(s: &mut Src) -> f64 {
    // open ends are written as infinite numbers
    match s.draw(40) {
        38 => f64::INFINITY,
        39 => f64::NEG_INFINITY,
        _ => s.f64_finite(),
    }
}

fn idx(s: &mut Src) -> usize {
    match s.draw(4) {
        0 => s.size(0, 5),
        1 => s.size(0, 1000),
        2 => usize::MAX - s.size(0, 5),
        _ => s.draw(0) as usize,
    }
}

fn posn(s: &mut Src) -> P {
    let n = s.wide(1, 6, 40);
    pv((0..n).map(|_| num(s)).collect())
}

fn mtype(s: &mut Src) -> MoveType {
    if s.draw(5) == 0 { MoveType::Levy } else { MoveType::Brownian(num(s)) }
}

fn itype(s: &mut Src) -> InitType<f64> {
    if s.draw(3) == 0 { InitType::Uniform } else { InitType::SpecificPosition(posn(s)) }
}

fn bctype(s: &mut Src) -> BoundaryCond {
    match s.draw(3) {
        0 => BoundaryCond::Periodic,
        1 => BoundaryCond::Reflection,
        _ => BoundaryCond::Mixed(idx(s)),
    }
}

fn systype(s: &mut Src) -> SystemType {
    match s.draw(6) {
        0 => SystemType::ContinuousCircular,
        1 => SystemType::ContinuousRectangular,
        2 => SystemType::Lattice,
        3 => SystemType::Network,
        _ => SystemType::ContinuousCylindrical(idx(s)),
    }
}

fn interact(s: &mut Src) -> InteractType {
    match s.draw(6) {
        0 => InteractType::Coulomb2D,
        1 => InteractType::Coulomb3D,
        2 | 3 => InteractType::LennardJones(num(s)),
        _ => InteractType::Exponential(idx(s), num(s)),
    }
}

const TARGETS: [TargetType; 5] = [
    TargetType::ContinuousInBulk,
    TargetType::ContinuousAtBoundary,
    TargetType::LatticeInBulk,
    TargetType::LatticeAtBoundary,
    TargetType::NetworkSingleNode,
];

const AGENTS: [AgentType; 12] = [
    AgentType::ContinuousPassiveIndependent,
    AgentType::ContinuousPassiveInteracting,
    AgentType::ContinuousActiveIndependent,
    AgentType::ContinuousActiveInteracting,
    AgentType::LatticePassiveIndependent,
    AgentType::LatticePassiveInteracting,
    AgentType::LatticeActiveIndependent,
    AgentType::LatticeActiveInteracting,
    AgentType::NetworkPassiveIndependent,
    AgentType::NetworkPassiveInteracting,
    AgentType::NetworkActiveIndependent,
    AgentType::NetworkActiveInteracting,
];

fn timetype(s: &mut Src) -> TimeType {
    let p = |s: &mut Src| s.f64_log(1e-15, 1e15);
    if s.bool() { TimeType::Constant(p(s)) } else { TimeType::Exponential(p(s), p(s), idx(s)) }
}

/// Prints, reads, compares (by Debug text, which tells -0 from 0 and prints every digit).
fn back<T: Display + Debug + FromStr>(x: &T, kind: &'static str, ctx: &mut Ctx) -> R
where
    T::Err: Debug,
{
    let t = format!("{}", x);
    ctx.class(kind);
    ctx.note(|| format!("{} {:?} printed {:?}", kind, x, t));
    match no_panic(|| t.parse::<T>()) {
        Err(p) => fail("panic", format!("reading {:?} panicked: {}", t, p)),
        Ok(Err(e)) => fail(kind, format!("{:?} is refused: {:?}", t, e)),
        Ok(Ok(y)) => {
            ensure!(format!("{:?}", y) == format!("{:?}", x), kind, "{:?} printed as {:?} is read as {:?}", x, t, y);
            ctx.checked(1);
            Ok(())
        }
    }
}

fn long_digits(t: &str) -> bool {
    t.split(|c: char| !c.is_ascii_digit()).any(|x| x.len() > 6)
}

fn c17_roundtrip(s: &mut Src, ctx: &mut Ctx) -> R {
    match s.draw(11) {
        0 => {
            let x = mtype(s);
            if long_digits(&format!("{}", x)) { ctx.nontrivial(); }
            back(&x, "move", ctx)
        }
        1 => {
            let x = itype(s);
            if long_digits(&format!("{}", x)) { ctx.nontrivial(); }
            back(&x, "init", ctx)
        }
        2 => {
            let x = interact(s);
            if long_digits(&format!("{}", x)) { ctx.nontrivial(); }
            back(&x, "interaction", ctx)
        }
        3 => {
            let x = bctype(s);
            if long_digits(&format!("{}", x)) { ctx.nontrivial(); }
            back(&x, "boundary", ctx)
        }
        4 => {
            let x = systype(s);
            if long_digits(&format!("{}", x)) { ctx.nontrivial(); }
            back(&x, "system", ctx)
        }
        5 => { let x = *s.pick(&TARGETS); back(&x, "target", ctx) }
        6 => { let x = *s.pick(&AGENTS); back(&x, "agent", ctx) }
        7 if s.chance(1, 16) => {
            // the position of an agent that is not placed yet, bare and inside an initialisation
            ctx.class("no components");
            ctx.nontrivial();
            let x = P::new(vec![]);
            let t = format!("{}|{:e}|{:.3e}", x, x, x);
            ensure!(t == "||", "position-none", "a position without components is written as {:?}", t);
            let i = InitType::SpecificPosition(x);
            let t = format!("{}", i);
            ensure!(t.parse::<InitType<f64>>() != Ok(InitType::Uniform), "position-none", "{:?} is read as uniform", t);
            ctx.checked(2);
            Ok(())
        }
        7 => {
            let x = posn(s);
            if x.dim() > 1 { ctx.nontrivial(); }
            back(&x, "position", ctx)?;
            // full-precision exponent form
            let t = format!("{:e}", x);
            let y = ok!(t.parse::<P>(), "position-exp", "{:?}", t);
            ensure!(format!("{:?}", y) == format!("{:?}", x), "position-exp", "{:?} printed as {:?} is read as {:?}", x, t, y);
            // rounded exponent form
            let t = format!("{:.8e}", x);
            let y = ok!(t.parse::<P>(), "position-exp", "{:?}", t);
            ensure!(x.dim() == y.dim(), "position-exp-dim", "{:?} -> {:?}", x, y);
            for (a, b) in x.iter().zip(y.iter()) {
                ensure!(!b.is_finite() || close(*a, *b, 1e-8, 1e-300), "position-exp-digits", "{} printed as {:?} is read as {}", a, t, b);
            }
            Ok(())
        }
        8 => {
            let n = s.wide(1, 6, 40);
            let x = Position::<i32>::new((0..n).map(|_| s.draw(1 << 32) as u32 as i32).collect());
            ctx.nontrivial();
            back(&x, "integer position", ctx)?;
            back(&InitType::SpecificPosition(x), "integer init", ctx)
        }
        _ => {
            let x = timetype(s);
            ctx.class("time");
            ctx.nontrivial();
            let t = format!("{}", x);
            ctx.note(|| format!("{:?} printed {:?}", x, t));
            let y = ok!(t.parse::<TimeType>(), "time", "{:?}", t);
            let near = |a: f64, b: f64| close(a, b, 5.1e-6, 0.0);
            let same = match (x, y) {
                (TimeType::Constant(a), TimeType::Constant(b)) => near(a, b),
                (TimeType::Exponential(a, b, n), TimeType::Exponential(c, d, m)) => near(a, c) && near(b, d) && n == m,
                _ => false,
            };
            ensure!(same, "time", "{:?} printed as {:?} is read as {:?}", x, t, y);
            // printed again it is the same text: nothing beyond the printed digits is lost
            ensure!(format!("{}", y) == t, "time-stable", "{:?} printed again {:?}", t, format!("{}", y));
            ctx.checked(2);
            Ok(())
        }
    }
}

/// A text of a number that reads back to it.
fn numtext(s: &mut Src, x: f64) -> String {
    match s.draw(4) {
        0 | 1 => format!("{}", x),
        2 => format!("{:e}", x),
        _ => format!("{:?}", x),
    }
}

fn blanks(s: &mut Src) -> &'static str {
    *s.pick(&["", "", " ", "  ", "\t", " \t "])
}

fn ptext(s: &mut Src, p: &P, inner_blanks: bool) -> String {
    let mixed = s.bool();
    let mut t = String::new();
    let br = s.draw(3);
    if br == 1 {
        t.push('(');
    }
    let sep = *s.pick(&[",", ":"]);
    for (i, x) in p.iter().enumerate() {
        if i > 0 {
            if inner_blanks {
                t.push_str(blanks(s));
            }
            let c = if mixed { *s.pick(&[",", ":"]) } else { sep };
            t.push_str(c);
            if inner_blanks {
                t.push_str(blanks(s));
            }
        }
        t.push_str(&numtext(s, *x));
    }
    if br == 1 {
        t.push(')');
    }
    t
}

fn c17_forms(s: &mut Src, ctx: &mut Ctx) -> R {
    fn want<T: FromStr + Debug>(t: &str, x: &T, sig: &'static str, ctx: &mut Ctx) -> R
    where
        T::Err: Debug,
    {
        ctx.class(sig);
        ctx.note(|| format!("{:?} for {:?}", t, x));
        let y = match no_panic(|| t.parse::<T>()) {
            Err(p) => return fail("panic", format!("reading {:?} panicked: {}", t, p)),
            Ok(y) => ok!(y, sig, "{:?} for {:?}", t, x),
        };
        ensure!(format!("{:?}", y) == format!("{:?}", x), sig, "{:?} is read as {:?} instead of {:?}", t, y, x);
        ctx.checked(1);
        ctx.nontrivial();
        Ok(())
    }
    let k = s.draw(8);
    match k {
        0 => {
            if s.draw(4) == 0 {
                return want("Levy", &MoveType::Levy, "move", ctx);
            }
            let x = num(s);
            let t = format!("{}{}{}", blanks(s), numtext(s, x), blanks(s));
            want(&t, &MoveType::Brownian(x), "move", ctx)
        }
        1 => {
            let x = itype(s);
            let t = match &x {
                InitType::Uniform => "Uniform".to_string(),
                InitType::SpecificPosition(p) => ptext(s, p, false),
            };
            let t = format!("{}{}{}", blanks(s), t, blanks(s));
            want(&t, &x, "init", ctx)
        }
        2 => {
            let (t, x) = match s.draw(3) {
                0 => ("Reflective".to_string(), BoundaryCond::Reflection),
                1 => ("Periodic".to_string(), BoundaryCond::Periodic),
                _ => {
                    let n = idx(s).max(1);
                    (format!("{}", n), BoundaryCond::Mixed(n))
                }
            };
            let t = format!("{}{}{}", blanks(s), t, blanks(s));
            want(&t, &x, "boundary", ctx)
        }
        3 => {
            let (t, x) = match s.draw(5) {
                0 => ("Circular".to_string(), SystemType::ContinuousCircular),
                1 => ("Rectangular".to_string(), SystemType::ContinuousRectangular),
                2 => ("Lattice".to_string(), SystemType::Lattice),
                3 => ("Network".to_string(), SystemType::Network),
                _ => {
                    let n = idx(s).max(1);
                    (format!("{}", n), SystemType::ContinuousCylindrical(n))
                }
            };
            let t = format!("{}{}{}", blanks(s), t, blanks(s));
            want(&t, &x, "system", ctx)
        }
        4 => {
            let x = interact(s);
            let t = match x {
                InteractType::Coulomb2D => "Coulomb2D".to_string(),
                InteractType::Coulomb3D => "Coulomb3D".to_string(),
                InteractType::LennardJones(a) => format!("LennardJones({})", numtext(s, a)),
                InteractType::Exponential(d, g) => format!("Exponential({},{})", d, numtext(s, g)),
            };
            want(&t, &x, "interaction", ctx)
        }
        5 => {
            let x = timetype(s);
            let t = match x {
                TimeType::Constant(a) => numtext(s, a),
                TimeType::Exponential(a, b, n) => format!("{} {} {}", numtext(s, a), numtext(s, b), n),
            };
            let t = format!("{}{}{}", blanks(s), t, blanks(s));
            want(&t, &x, "time", ctx)
        }
        _ => {
            let x = posn(s);
            let t = format!("{}{}{}", blanks(s), ptext(s, &x, true), blanks(s));
            want(&t, &x, "position", ctx)
        }
    }
}

// ------------------------------------------------------------------ building blocks

/// One building block's arguments, erased.
pub trait Block {
    fn name(&self) -> &'static str;
    fn nargs(&self) -> usize;
    fn print(&self, w: usize) -> String;
    fn debug(&self) -> String;
    /// Debug text of what is read
    fn read(&self, l: &mut Lines<BufReader<File>>) -> Result<String, Error>;
    fn from_vec(&self, v: &[String]) -> Result<String, Error>;
    /// Configuration printed after reading an argument list
    fn print_vec(&self, v: &[String], w: usize) -> Result<String, Error>;
    fn info(&self, w: usize) -> String;
    fn brief(&self) -> String;
    /// Debug text of the arguments put together with `new`, number of arguments
    fn built(&self) -> (String, usize);
    /// Debug text after `clear`, and of the same arguments with every parameter at its default
    fn cleared(&self) -> (String, String);
}

pub struct Made {
    pub block: Box<dyn Block>,
    /// argument texts in order
    pub texts: Vec<String>,
    /// argument names in order and the printed value of each
    pub names: Vec<&'static str>,
    /// number of lines of its configuration
    pub lines: usize,
}

macro_rules! block {
    ($wrap:ident, $st:ty, $arg:ty, $name:expr; $($f:ident),*) => {
        pub struct $wrap(pub $arg);
        impl Block for $wrap {
            fn name(&self) -> &'static str {
                $name
            }
            fn nargs(&self) -> usize {
                <$st as Argument<$arg>>::NUM_ARGS
            }
            fn print(&self, w: usize) -> String {
                self.0.print_configuration(w)
            }
            fn debug(&self) -> String {
                format!("{:?}", self.0)
            }
            fn read(&self, l: &mut Lines<BufReader<File>>) -> Result<String, Error> {
                <$st as Argument<$arg>>::read_args_from_lines(l).map(|x| format!("{:?}", x))
            }
            fn from_vec(&self, v: &[String]) -> Result<String, Error> {
                <$st as Argument<$arg>>::read_args_from_vec(v).map(|x| format!("{:?}", x))
            }
            fn print_vec(&self, v: &[String], w: usize) -> Result<String, Error> {
                <$st as Argument<$arg>>::read_args_from_vec(v).map(|x| x.print_configuration(w))
            }
            fn info(&self, w: usize) -> String {
                <$st as Argument<$arg>>::info(w)
            }
            fn brief(&self) -> String {
                <$st as Argument<$arg>>::brief_info()
            }
            fn built(&self) -> (String, usize) {
                (format!("{:?}", <$arg>::new($(self.0.$f.clone()),*)), <$arg>::NUM_ARGS)
            }
            fn cleared(&self) -> (String, String) {
                let mut x = self.0.clone();
                x.clear();
                let mut y = self.0.clone();
                $(y.$f = Default::default();)*
                (format!("{:?}", x), format!("{:?}", y))
            }
        }
    };
}

block!(BCirc, ContCircSystem, ContCircSystemArguments, "ball"; sys_size, dim);
block!(BCubic, ContCubicSystem, ContCubicSystemArguments, "cube"; bctype, sys_size, dim);
block!(BCyl, ContCylindricalSystem, ContCylindricalSystemArguments, "cylinder"; sys_type, bctype, sys_radius, sys_length, dim);
block!(BBulk, ContBulkTarget, ContBulkTargetArguments, "target"; target_pos, target_size);
block!(BIndep, ContPassiveIndepAgent, ContPassiveIndepAgentArguments, "independent agent"; mtype, itype, num_agent);
block!(BMerge, ContPassiveMergeAgent, ContPassiveMergeAgentArguments, "merging agent"; mtype, itype, ptl_radius, alpha, num_agent);
block!(BExp, ContPassiveExpAgent, ContPassiveExpAgentArguments, "exponential agent"; mtype, itype, gamma, exp_dim, strength, num_agent);
block!(BLJ, ContPassiveLJAgent, ContPassiveLJAgentArguments, "Lennard-Jones agent"; mtype, itype, ptl_size, strength, num_agent);
block!(BConst, ConstStep, ConstStepArguments, "constant clock"; dt, tmax);
block!(BGrow, ExponentialStep, ExponentialStepArguments, "growing clock"; dt_min, dt_max, length, tmax);
block!(BVar, VariableSimulation, VariableSimulationArguments, "simulation"; num_ensemble, idx_set, seed, output_dir);
block!(BPar, ParVariableSimulation, ParVariableSimulationArguments, "parallel simulation"; num_ensemble, seed, n_thrd, output_dir);
block!(BProc, ProcessSimulation, ProcessSimulationArguments, "process simulation"; num_ensemble, period, idx_set, seed, output_dir);

pub const KINDS: u64 = 13;

fn t_num(s: &mut Src, x: f64, plain: bool) -> String {
    if plain { format!("{}", x) } else { numtext(s, x) }
}

fn t_move(s: &mut Src, m: &MoveType, plain: bool) -> String {
    match m {
        MoveType::Levy => if plain { format!("{}", m) } else { "Levy".into() },
        MoveType::Brownian(d) => if plain || s.bool() { format!("Brownian with diffusion coefficient {}", d) } else { numtext(s, *d) },
    }
}

fn t_init(s: &mut Src, m: &InitType<f64>, plain: bool) -> String {
    match m {
        InitType::Uniform => if plain || s.bool() { "Initialize agents uniformly".into() } else { "Uniform".into() },
        InitType::SpecificPosition(p) => {
            if plain || s.bool() {
                format!("Initialize all agents at {}", p.iter().map(|x| format!("{}", x)).collect::<Vec<_>>().join(","))
            } else {
                ptext(s, p, false)
            }
        }
    }
}

fn t_bc(s: &mut Src, m: &BoundaryCond, plain: bool) -> String {
    let long = plain || s.bool();
    match m {
        BoundaryCond::Periodic => if long { "Periodic Boundary Condition".into() } else { "Periodic".into() },
        BoundaryCond::Reflection => if long { "Reflective Boundary Condtion".into() } else { "Reflective".into() },
        BoundaryCond::Mixed(d) => if long || *d == 0 { format!("Mixed Boundary Condition. 0..{0:} : Reflection, {0:}.. : Periodic", d) } else { format!("{}", d) },
    }
}

fn t_sys(s: &mut Src, m: &SystemType, plain: bool) -> String {
    let long = plain || s.bool();
    match m {
        SystemType::ContinuousCircular => if long { "Continuous Circular system.".into() } else { "Circular".into() },
        SystemType::ContinuousRectangular => if long { "Continuous Rectangular system.".into() } else { "Rectangular".into() },
        SystemType::Lattice => if long { "Lattice system.".into() } else { "Lattice".into() },
        SystemType::Network => if long { "Network system.".into() } else { "Network".into() },
        SystemType::ContinuousCylindrical(d) => {
            if long || *d == 0 { format!("Continuous Cylindrical system. 0..{0:} : Circular, {0:}.. : Rectangular", d) } else { format!("{}", d) }
        }
    }
}

fn path_text(s: &mut Src) -> String {
    let n = s.size(1, 12);
    let al = ["a", "Z", "/", ".", "_", "-", "0", "9", ":", "::", ",", "(", " b", "é", "나", "=", "#", "\\", "\"", "..", "\tq", "%", "{}", "~"];
    (0..n).map(|_| *s.pick(&al)).collect::<String>().trim().to_string()
}

/// A building block with generated arguments; `plain` = printed forms only.
pub fn made(s: &mut Src, kind: u64, plain: bool) -> Made {
    fn m<B: Block + 'static>(b: B, texts: Vec<String>, names: Vec<&'static str>, fixed: usize) -> Made {
        let lines = texts.len() + fixed;
        Made { block: Box::new(b), texts, names, lines }
    }
    match kind {
        0 => {
            let (a, d) = (num(s), idx(s));
            m(BCirc(ContCircSystemArguments { sys_type: SystemType::ContinuousCircular, bctype: BoundaryCond::Reflection, sys_size: a, dim: d }),
                vec![t_num(s, a, plain), format!("{}", d)], vec!["sys_size", "dim"], 2)
        }
        1 => {
            let (b, a, d) = (bctype(s), num(s), idx(s));
            m(BCubic(ContCubicSystemArguments { sys_type: SystemType::ContinuousRectangular, bctype: b, sys_size: a, dim: d }),
                vec![t_bc(s, &b, plain), t_num(s, a, plain), format!("{}", d)], vec!["bctype", "sys_size", "dim"], 1)
        }
        2 => {
            let (y, b, r, l, d) = (systype(s), bctype(s), num(s), num(s), idx(s));
            m(BCyl(ContCylindricalSystemArguments { sys_type: y, bctype: b, sys_radius: r, sys_length: l, dim: d }),
                vec![t_sys(s, &y, plain), t_bc(s, &b, plain), t_num(s, r, plain), t_num(s, l, plain), format!("{}", d)],
                vec!["sys_type", "bctype", "sys_radius", "sys_length", "dim"], 0)
        }
        3 => {
            let (p, r) = (posn(s), num(s));
            let pt = if plain { p.iter().map(|x| format!("{}", x)).collect::<Vec<_>>().join(",") } else { ptext(s, &p, true) };
            m(BBulk(ContBulkTargetArguments { target_type: TargetType::ContinuousInBulk, target_pos: p, target_size: r }),
                vec![pt, t_num(s, r, plain)], vec!["target_pos", "target_size"], 1)
        }
        4 => {
            let (mt, it, n) = (mtype(s), itype(s), idx(s));
            let t = vec![t_move(s, &mt, plain), t_init(s, &it, plain), format!("{}", n)];
            m(BIndep(ContPassiveIndepAgentArguments { agent_type: AgentType::ContinuousPassiveIndependent, mtype: mt, itype: it, num_agent: n }),
                t, vec!["mtype", "itype", "num_agent"], 1)
        }
        5 => {
            let (mt, it, r, a, n) = (mtype(s), itype(s), num(s), num(s), idx(s));
            let t = vec![t_move(s, &mt, plain), t_init(s, &it, plain), t_num(s, r, plain), t_num(s, a, plain), format!("{}", n)];
            m(BMerge(ContPassiveMergeAgentArguments { agent_type: AgentType::ContinuousPassiveInteracting, size: 1, mtype: mt, itype: it, ptl_radius: r, alpha: a, num_agent: n }),
                t, vec!["mtype", "itype", "ptl_radius", "alpha", "num_agent"], 2)
        }
        6 => {
            let (mt, it, g, d, st, n) = (mtype(s), itype(s), num(s), idx(s), num(s), idx(s));
            let t = vec![t_move(s, &mt, plain), t_init(s, &it, plain), t_num(s, g, plain), format!("{}", d), t_num(s, st, plain), format!("{}", n)];
            m(BExp(ContPassiveExpAgentArguments { agent_type: AgentType::ContinuousPassiveInteracting, mtype: mt, itype: it, gamma: g, exp_dim: d, strength: st, num_agent: n }),
                t, vec!["mtype", "itype", "gamma", "exp_dim", "strength", "num_agent"], 1)
        }
        7 => {
            let (mt, it, g, st, n) = (mtype(s), itype(s), num(s), num(s), idx(s));
            let t = vec![t_move(s, &mt, plain), t_init(s, &it, plain), t_num(s, g, plain), t_num(s, st, plain), format!("{}", n)];
            m(BLJ(ContPassiveLJAgentArguments { agent_type: AgentType::ContinuousPassiveInteracting, mtype: mt, itype: it, ptl_size: g, strength: st, num_agent: n }),
                t, vec!["mtype", "itype", "ptl_size", "strength", "num_agent"], 1)
        }
        8 => {
            let (a, b) = (num(s), num(s));
            m(BConst(ConstStepArguments { dt: a, tmax: b }), vec![t_num(s, a, plain), t_num(s, b, plain)], vec!["dt", "tmax"], 0)
        }
        9 => {
            let (a, b, n, c) = (num(s), num(s), idx(s), num(s));
            m(BGrow(ExponentialStepArguments { dt_min: a, dt_max: b, length: n, tmax: c }),
                vec![t_num(s, a, plain), t_num(s, b, plain), format!("{}", n), t_num(s, c, plain)],
                vec!["dt_min", "dt_max", "length", "tmax"], 0)
        }
        10 => {
            let (n, i, x, d) = (idx(s), idx(s), s.u128(), path_text(s));
            m(BVar(VariableSimulationArguments { num_ensemble: n, idx_set: i, seed: x, output_dir: d.clone() }),
                vec![format!("{}", n), format!("{}", i), format!("{}", x), d], vec!["num_ensemble", "idx_set", "seed", "output_dir"], 0)
        }
        11 => {
            let (n, i, x, d) = (idx(s), idx(s), s.u128(), path_text(s));
            m(BPar(ParVariableSimulationArguments { num_ensemble: n, seed: x, n_thrd: i, output_dir: d.clone() }),
                vec![format!("{}", n), format!("{}", x), format!("{}", i), d], vec!["num_ensemble", "seed", "n_thrd", "output_dir"], 0)
        }
        _ => {
            let (n, p, i, x, d) = (idx(s), num(s), idx(s), s.u128(), path_text(s));
            m(BProc(ProcessSimulationArguments { num_ensemble: n, period: p, idx_set: i, seed: x, output_dir: d.clone() }),
                vec![format!("{}", n), t_num(s, p, plain), format!("{}", i), format!("{}", x), d],
                vec!["num_ensemble", "period", "idx_set", "seed", "output_dir"], 0)
        }
    }
}

fn open_lines(path: &str) -> Lines<BufReader<File>> {
    BufReader::new(File::open(path).expect("scratch file")).lines()
}

// ------------------------------------------------------------------ C18

fn c18_blocks(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = s.size(1, 6);
    let w = s.size(0, 40);
    let blocks: Vec<Made> = (0..n).map(|_| { let k = s.draw(KINDS); made(s, k, true) }).collect();
    if n >= 2 {
        ctx.nontrivial();
    }
    let mut text = String::new();
    for b in &blocks {
        ctx.class(b.block.name());
        let t = b.block.print(w);
        ctx.note(|| format!("{} width {}: {}", b.block.name(), w, t.replace('\n', " | ")));
        ensure!(t.ends_with('\n') && t.lines().count() == b.lines, "lines", "{} prints {} lines, it has {} parameters: {:?}", b.block.name(), t.lines().count(), b.lines, t);
        text.push_str(&t);
    }
    let tail = ["========= DATA STARTS =========", "0.5", "1.25"];
    for l in tail {
        text.push_str(l);
        text.push('\n');
    }
    let dir = Scratch::new(ctx);
    let path = dir.sub("conf.dat");
    std::fs::write(&path, &text).expect("scratch file");
    let mut lines = open_lines(&path);
    for b in &blocks {
        let r = match no_panic(|| b.block.read(&mut lines)) {
            Err(p) => return fail("panic", format!("reading {} panicked: {}", b.block.name(), p)),
            Ok(r) => ok!(r, "refused", "{} printed as {:?}", b.block.name(), b.block.print(w)),
        };
        ensure!(r == b.block.debug(), "value", "{} is read as {}", b.block.debug(), r);
        ctx.checked(1);
    }
    for l in tail {
        let x = lines.next().map(|x| x.unwrap_or_default());
        ensure!(x.as_deref() == Some(l), "consumed", "after the blocks comes {:?} instead of {:?}", x, l);
    }
    Ok(())
}

fn c18_args(s: &mut Src, ctx: &mut Ctx) -> R {
    let k = s.draw(KINDS);
    let b = made(s, k, false);
    ctx.class(b.block.name());
    let v: Vec<String> = b.texts.iter().map(|t| format!("{}{}{}", blanks(s), t, blanks(s))).collect();
    ctx.note(|| format!("{} {:?}", b.block.name(), v));
    ctx.nontrivial();
    let r = match no_panic(|| b.block.from_vec(&v)) {
        Err(p) => return fail("panic", format!("reading {:?} panicked: {}", v, p)),
        Ok(r) => ok!(r, "refused", "{} {:?}", b.block.name(), v),
    };
    ensure!(r == b.block.debug(), "value", "{:?} is read as {} instead of {}", v, r, b.block.debug());
    ctx.checked(1);
    let (built, n) = b.block.built();
    ensure!(n == b.texts.len() && b.block.nargs() == n, "number", "{} has {} arguments, {} and {} are reported", b.block.name(), b.texts.len(), n, b.block.nargs());
    ensure!(built == b.block.debug(), "built", "put together from its parameters, {} is {}", b.block.debug(), built);
    let (clear, want) = b.block.cleared();
    ensure!(clear == want, "cleared", "cleared, {} is {} instead of {}", b.block.debug(), clear, want);
    ctx.checked(2);
    Ok(())
}

// ------------------------------------------------------------------ C19

/// Text no number parser accepts.
fn not_a_number(s: &mut Src) -> String {
    const FIXED: [&str; 22] = ["", "x", "1x", "--1", "1..2", "1e", "e5", "0x10", "1_000", "½", "1 2", "one", "1,5,", ".", "-", "+", "1e+", "1.2.3", "12a", "NaNa", "1d5", "١"];
    if s.bool() {
        return s.pick(&FIXED).to_string();
    }
    // a number with something before, inside or after it
    let x = match s.draw(3) {
        0 => format!("{}", s.size(0, 30)),
        1 => format!("{}.{}", s.size(0, 30), s.size(0, 99)),
        _ => format!("{:e}", num(s)),
    };
    let more = *s.pick(&["f", "d", "F", "L", "f64", "f32", "u", "i", "usize", "_", "%", "m", "/", "/2", "*1", "+1", "-1", "-", "+", ".", "..", ".0.", "e", "E", "e1e1", "e1.5", "^2", ";", "'", "\"", "=", "#", "$", "~",
        "|", "é", "∞", "\u{0}", "0x", "inf", "NaN", "a", "b", "_0", "&", "!", "?", "<", ">", "[", "]", "{", "}", "\\", "`", "@"]);
    let t = match s.draw(6) {
        0 => format!("{}{}", more, x),
        1 => {
            let i = s.size(0, x.len());
            format!("{}{}{}", &x[..i], more, &x[i..])
        }
        2 => format!("{}{}{}", more, x, more),
        _ => format!("{}{}", x, more),
    };
    if t.parse::<f64>().is_ok() {
        return "x".to_string();
    }
    t
}

fn kind_refuses(kind: usize, t: &str) -> Result<Option<String>, String> {
    // Some(debug) when accepted
    fn p<T: FromStr + Debug>(t: &str) -> Option<String> {
        t.parse::<T>().ok().map(|x| format!("{:?}", x))
    }
    no_panic(|| match kind {
        0 => p::<MoveType>(t),
        1 => p::<InitType<f64>>(t),
        2 => p::<InteractType>(t),
        3 => p::<BoundaryCond>(t),
        4 => p::<SystemType>(t),
        5 => p::<TargetType>(t),
        6 => p::<AgentType>(t),
        7 => p::<Position<f64>>(t),
        8 => p::<TimeType>(t),
        9 => p::<Position<i32>>(t),
        _ => p::<moledyn::analysis::Pair<f64>>(t),
    })
}

const KINDNAMES: [&str; 11] = ["move", "init", "interaction", "boundary", "system", "target", "agent", "position", "time", "integer position", "pair"];

/// The numbers of a value, from its Debug text.
fn numbers_of(debug: &str) -> Vec<f64> {
    let mut v = Vec::new();
    let mut cur = String::new();
    let mut prev = ' ';
    for c in debug.chars().chain(std::iter::once(' ')) {
        let inside = c.is_ascii_digit() || c == '.' || c == '-' || c == '+' || (c == 'e' && cur.chars().any(|x| x.is_ascii_digit()));
        if inside && !(cur.is_empty() && prev.is_ascii_alphabetic()) {
            cur.push(c);
        } else {
            if let Ok(x) = cur.parse::<f64>() {
                v.push(x);
            }
            cur.clear();
        }
        prev = c;
    }
    v
}

/// All numbers in the text: words between separators, whole or after "..".
fn numbers_in(t: &str) -> Vec<f64> {
    let mut v = Vec::new();
    for w in t.split(|c: char| c.is_whitespace() || ",:()".contains(c)) {
        if let Ok(x) = w.parse::<f64>() {
            v.push(x);
        }
        let mut rest = w;
        while let Some(i) = rest.find("..") {
            rest = &rest[i + 2..];
            if let Ok(x) = rest.parse::<f64>() {
                v.push(x);
            }
        }
    }
    v
}

fn c19_text(s: &mut Src, ctx: &mut Ctx) -> R {
    let kind = s.size(0, 10);
    let value = match kind {
        0 => format!("{}", mtype(s)),
        1 => format!("{}", itype(s)),
        2 => format!("{}", interact(s)),
        3 => format!("{}", bctype(s)),
        4 => format!("{}", systype(s)),
        5 => format!("{}", *s.pick(&TARGETS)),
        6 => format!("{}", *s.pick(&AGENTS)),
        7 => format!("{}", posn(s)),
        8 => format!("{}", timetype(s)),
        9 => format!("{},{}", s.draw(1000), s.draw(1000) as i64 - 500),
        _ => format!("{},{}", num(s), num(s)),
    };
    let name = KINDNAMES[kind];
    // (text, must be refused)
    let (t, must) = match s.draw(12) {
        // a short form with a damaged number
        10 | 11 => {
            let bad = not_a_number(s);
            let t = match kind {
                2 => match s.draw(3) {
                    0 => format!("LennardJones({})", bad),
                    1 => format!("Exponential({},0.5)", bad),
                    _ => format!("Exponential(2,{})", bad),
                },
                1 | 7 | 9 | 10 => match s.draw(4) {
                    0 => format!("1,{}", bad),
                    1 => format!("({},2)", bad),
                    2 => format!("1,2,{}", bad),
                    _ => format!("{},{}", bad, bad),
                },
                8 => match s.draw(4) {
                    0 => bad,
                    1 => format!("{} 1 10", bad),
                    2 => format!("1e-3 {} 10", bad),
                    _ => format!("1e-3 1 {}", if s.bool() { bad } else { s.pick(&["1.5", "-1", "1e3", "18446744073709551616"]).to_string() }),
                },
                3 | 4 => if s.bool() { bad } else { s.pick(&["1.5", "-1", "1e3", "18446744073709551616", "1.0", "0..2", "inf"]).to_string() },
                _ => bad,
            };
            ctx.class("short form");
            (t, true)
        }
        // more or fewer words than the form has; the interactions are told apart by them
        9 => {
            let mut w: Vec<String> = value.split(' ').map(|x| x.to_string()).collect();
            match s.draw(4) {
                0 => w.push(format!("{}", s.draw(100))),
                1 => w.push(s.pick(&["x", "D", "0.5", "with", "nothing"]).to_string()),
                2 => {
                    let again = w.clone();
                    w.extend(again);
                }
                _ => {
                    let i = s.size(0, w.len() - 1);
                    w.remove(i);
                }
            }
            let must = kind == 2;
            if kind == 10 {
                // more or fewer numbers than two
                let n = *s.pick(&[1usize, 3, 4, 5]);
                (vec!["1.5"; n].join(","), true)
            } else {
                (w.join(" "), must)
            }
        }
        // nothing
        0 => (blanks(s).to_string(), true),
        // unknown keyword
        1 => {
            let w = *s.pick(&["Foo", "levy", "uniform", "reflective", "periodic", "Brownia", "Cylindrica", "Exponentia", "Lennard-Jones", "Constantly", "Coulomb4D", "system.",
                "?", "∞", "(", ")", "()", "(,)", ",", ":", "Initialize", "Continuous", "Exponential()", "LennardJones", "LennardJones()", "Exponential(2)", "Exponential(2,)", "Exponential(,1)",
                "Exponential(2,1,3)", "Exponential(x,1)", "Exponential(2,x)", "LennardJones(x)", "Brownian", "Mixed", "Continuous Cylindrical", "Continuous Spherical", "Constant", "Exponential",
                "Initialize all agents at", "Initialize all agents", "Brownian with diffusion coefficient", "0 1", "1 2", "1 2 3 4", "1 2 x", "Coulomb potential in 4 D", "Target in Bulk", "Target",
                "Passive", "0,", ",0", "1,,2", "1:x", "x:1", "Mixed Boundary Condition.", "Mixed Boundary Condition. 2..3", "Continuous Cylindrical system. ..2", "Mixed Boundary Condition. 0..",
                "Coulomb potential in x D", "Coulomb", "Lennard", "Lennard Jones potential with particle size", "0", "-1", "1.5"]);
            let must = match (kind, w) {
                // forms of the kind after all
                (0, "-1") | (0, "0") | (0, "1.5") => false,
                (1, "0") | (1, "-1") | (1, "1.5") => false,
                (7, "0") | (7, "-1") | (7, "1.5") => false,
                (8, "0") | (8, "-1") | (8, "1.5") => false,
                (9, "0") | (9, "-1") => false,
                (10, "Exponential(2,1,3)") => true,
                // keyword alone decides for these
                (1, "Initialize all agents") => true,
                _ => true,
            };
            (w.to_string(), must)
        }
        // a number of the printed form damaged: replace the last or first word holding a digit
        2 | 3 => {
            let words: Vec<&str> = value.split(' ').collect();
            let with: Vec<usize> = significant(kind, &words);
            if with.is_empty() {
                // no number: damage the first word
                let mut w: Vec<String> = words.iter().map(|x| x.to_string()).collect();
                // initialisations are told apart by the second word
                if kind == 1 && s.bool() {
                    w[1] = "agent".to_string();
                } else {
                    w[0] = match s.draw(3) {
                        0 => format!("{}x", w[0]),
                        1 => format!("x{}", w[0]),
                        _ => "Foo".to_string(),
                    };
                }
                (w.join(" "), true)
            } else {
                let mut w: Vec<String> = words.iter().map(|x| x.to_string()).collect();
                if kind != 7 && kind < 9 && s.chance(1, 6) {
                    // the keyword damaged, or gone
                    if s.bool() || words.len() < 3 {
                        w[0] = if s.bool() { "Foo".to_string() } else { format!("{}x", w[0]) };
                    } else {
                        w.remove(0);
                    }
                    ctx.class("keyword");
                    (w.join(" "), true)
                } else {
                let i = *s.pick(&with);
                let bad = not_a_number(s);
                let (txt, must) = damage(s, kind, &w[i], &bad);
                w[i] = txt;
                (w.join(" "), must)
                }
            }
        }
        // truncated before the (last significant) number
        4 => {
            let words: Vec<&str> = value.split(' ').collect();
            let with = significant(kind, &words);
            if with.is_empty() || kind == 7 || kind >= 9 {
                (blanks(s).to_string(), true)
            } else {
                let k = s.size(0, *with.last().unwrap());
                let first = words[0];
                let cut = words[..k].join(" ");
                // a truncated text may be another form of the same kind (keyword alone): only of kinds without one
                let other = kind == 1 && k >= 2 && words.get(1) == Some(&"agents");
                let _ = first;
                (cut, !other)
            }
        }
        // random cut anywhere
        5 => {
            let cs: Vec<char> = value.chars().collect();
            let k = s.size(0, cs.len());
            (cs[..k].iter().collect(), false)
        }
        // random edit
        6 => {
            let mut cs: Vec<char> = value.chars().collect();
            for _ in 0..s.size(1, 3) {
                let al: Vec<char> = "0123456789.,:()- +exE\tD..é".chars().collect();
                let c = *s.pick(&al);
                let i = s.size(0, cs.len());
                match s.draw(3) {
                    0 => cs.insert(i, c),
                    1 if i < cs.len() => {
                        cs.remove(i);
                    }
                    _ if i < cs.len() => cs[i] = c,
                    _ => cs.push(c),
                }
            }
            (cs.into_iter().collect(), false)
        }
        // random words
        7 => {
            let ws = ["Brownian", "Levy", "with", "1", "2.5", "-3", "Uniform", "Initialize", "all", "agents", "at", "0,0", "(1,2)", "Exponential", "Exponential(2,0.5)", "Coulomb",
                "Coulomb2D", "potential", "in", "2", "D", "Lennard", "Jones", "LennardJones(1)", "Mixed", "Boundary", "Condition.", "0..2", "0..", "Continuous", "Circular",
                "Cylindrical", "system.", "Constant", "Time", "step", "size", "from", "to", "é", "0..é", "..", "a..b", "가나"];
            let n = s.size(1, 14);
            ((0..n).map(|_| *s.pick(&ws)).collect::<Vec<_>>().join(" "), false)
        }
        // random characters
        _ => {
            let n = s.size(0, 12);
            let t: String = (0..n)
                .map(|_| {
                    let al = ['0', '1', '9', '.', ',', ':', '(', ')', '-', '+', 'e', ' ', 'x', 'L', 'é', '가', '\u{0}', '\n'];
                    *s.pick(&al)
                })
                .collect();
            (t, false)
        }
    };
    ctx.class(name);
    ctx.note(|| format!("{} from {:?}{}", name, t, if must { " must be refused" } else { "" }));
    let got = match kind_refuses(kind, &t) {
        Ok(x) => x,
        Err(p) => return fail("panic", format!("reading {} from {:?} panicked: {}", name, t, p)),
    };
    ctx.checked(1);
    if must {
        ctx.nontrivial();
        ensure!(got.is_none(), name, "{:?} is read as {}", t, got.clone().unwrap_or_default());
    } else if let Some(d) = got {
        let have = numbers_in(&t);
        if kind == 10 {
            let n = t.matches(',').count() + 1;
            ensure!(n == 2, "components", "{:?} with {} components is read as {}", t, n, d);
        }
        if kind == 7 || kind == 9 {
            // every component counts
            let want = t.matches(|c| c == ',' || c == ':').count() + 1;
            let n = d.split('[').nth(1).map_or(0, |x| x.split(',').count());
            ensure!(n == want, "components", "{:?} with {} components is read as {}", t, want, d);
        }
        for x in numbers_of(&d) {
            // positions printed by Debug as Position { coordinate: [..] }
            ensure!(have.iter().any(|h| h == &x || (h - x).abs() <= 1e-15 * x.abs()), "invented", "{:?} is read as {}: no {} in the text", t, d, x);
        }
    }
    Ok(())
}

/// Words of a printed form that carry the value's numbers (the first mention, for split dimensions).
fn significant(kind: usize, words: &[&str]) -> Vec<usize> {
    match (kind, words[0]) {
        (0, "Brownian") => vec![4],
        (1, _) if words.get(1) == Some(&"all") => vec![4],
        (2, "Exponential") => vec![4, 9],
        (2, "Coulomb") => vec![3],
        (2, "Lennard") => vec![6],
        (3, "Mixed") => vec![3],
        (4, "Continuous") if words[1] == "Cylindrical" => vec![3],
        (7, _) | (9, _) | (10, _) => vec![0],
        (8, "Constant") => vec![5],
        (8, "Exponential") => vec![5, 7, 13],
        _ => vec![],
    }
}

/// Damages the number(s) in one word; tells whether the whole must be refused.
fn damage(s: &mut Src, kind: usize, word: &str, bad: &str) -> (String, bool) {
    if bad.contains(' ') || bad.contains(',') {
        return ("x".to_string(), true);
    }
    match kind {
        3 | 4 => (format!("0..{}", bad), true),
        1 | 7 | 9 | 10 => {
            // one component of the position
            let mut c: Vec<String> = word.split(',').map(|x| x.to_string()).collect();
            let i = s.size(0, c.len() - 1);
            c[i] = bad.to_string();
            (c.join(","), true)
        }
        _ => (if bad.is_empty() { "x".into() } else { bad.to_string() }, true),
    }
}

fn c19_args(s: &mut Src, ctx: &mut Ctx) -> R {
    let k = s.draw(KINDS);
    let b = made(s, k, false);
    ctx.class(b.block.name());
    ctx.nontrivial();
    let mut v = b.texts.clone();
    let what = if s.bool() {
        // wrong length
        match s.draw(4) {
            0 => v.clear(),
            1 => {
                let i = s.size(0, v.len() - 1);
                v.remove(i);
            }
            2 => {
                let i = s.size(0, v.len());
                let t = (*s.pick(&["", "1", "extra", "Uniform"])).to_string();
                v.insert(i, t);
            }
            _ => {
                let w = v.clone();
                v.extend(w);
            }
        }
        "length"
    } else {
        let free = ["output_dir"];
        let c: Vec<usize> = (0..v.len()).filter(|&i| !free.contains(&b.names[i])).collect();
        let i = *s.pick(&c);
        v[i] = match s.draw(3) {
            0 => not_a_number(s).replace("1 2", "1x"),
            1 => (*s.pick(&["Foo", "", "  ", "(", "?", "Brownian", "Mixed", "Initialize all agents at x", "Continuous Cylindrical system. 0..x", "Brownian with diffusion coefficient", "1,x", "x,1"])).to_string(),
            _ => {
                // damage an integer: negative or fractional
                if ["dim", "num_agent", "exp_dim", "length", "num_ensemble", "idx_set", "n_thrd", "seed"].contains(&b.names[i]) {
                    (*s.pick(&["-1", "1.5", "1e3", "340282366920938463463374607431768211456", "-0.0"])).to_string()
                } else {
                    "?".to_string()
                }
            }
        };
        // "1,5," and the like are also no positions; all of the above are unreadable for every parameter
        "value"
    };
    ctx.note(|| format!("{} {} {:?}", b.block.name(), what, v));
    match no_panic(|| b.block.from_vec(&v)) {
        Err(p) => fail("panic", format!("reading {:?} panicked: {}", v, p)),
        Ok(Ok(x)) => fail(what, format!("{} accepts {:?} as {}", b.block.name(), v, x)),
        Ok(Err(_)) => {
            ctx.checked(1);
            Ok(())
        }
    }
}

fn c19_blocks(s: &mut Src, ctx: &mut Ctx) -> R {
    let k = s.draw(KINDS);
    let b = made(s, k, true);
    let w = s.size(0, 20);
    ctx.class(b.block.name());
    ctx.nontrivial();
    let text = b.block.print(w);
    let mut lines: Vec<Vec<u8>> = text.lines().map(|l| l.as_bytes().to_vec()).collect();
    let is_dir = |l: &[u8]| l.starts_with(b"output_dir");
    let what = match s.draw(8) {
        5 => {
            // two lines exchanged
            if lines.len() < 2 {
                return Err(Stop::Discard);
            }
            let i = s.size(0, lines.len() - 2);
            let j = s.size(i + 1, lines.len() - 1);
            lines.swap(i, j);
            "lines exchanged"
        }
        6 => {
            // a line missing; the file goes on after the block
            let i = s.size(0, lines.len() - 1);
            let after = if s.bool() { lines.clone() } else { made(s, k, true).block.print(w).lines().map(|l| l.as_bytes().to_vec()).collect() };
            lines.remove(i);
            lines.extend(after);
            if lines[i] == text.lines().nth(i).unwrap().as_bytes() {
                return Err(Stop::Discard);
            }
            "line missing"
        }
        7 => {
            // another name before the separator
            let i = s.size(0, lines.len() - 1);
            let l = String::from_utf8_lossy(&lines[i]).to_string();
            let mut it = l.splitn(2, ':');
            let (name, rest) = (it.next().unwrap().trim().to_string(), it.next().unwrap().to_string());
            let new = match s.draw(4) {
                0 => String::new(),
                1 => format!("{}x", name),
                2 => name[..name.len() - 1].to_string(),
                _ => s.pick(&["data", "?", "# a", "time", "dim_", "=="]).to_string(),
            };
            lines[i] = format!("{}: {}", new, rest.trim()).into_bytes();
            "name"
        }
        0 => {
            let n = s.size(0, lines.len() - 1);
            lines.truncate(n);
            "truncated"
        }
        1 => {
            let i = s.size(0, lines.len() - 1);
            let l = String::from_utf8_lossy(&lines[i]).replace(':', " ");
            lines[i] = l.into_bytes();
            "no separator"
        }
        2 | 3 => {
            let c: Vec<usize> = (0..lines.len()).filter(|&i| !is_dir(&lines[i])).collect();
            let i = *s.pick(&c);
            let l = String::from_utf8_lossy(&lines[i]).to_string();
            let name = l.splitn(2, ':').next().unwrap().to_string();
            let bad = if s.bool() { not_a_number(s).replace("1 2", "1x") } else { (*s.pick(&["", "?", "Foo", "Brownian with diffusion coefficient x", "Mixed Boundary Condition. 0..x"])).to_string() };
            lines[i] = format!("{}: {}", name, bad).into_bytes();
            "value"
        }
        _ => {
            let i = s.size(0, lines.len() - 1);
            lines[i].extend_from_slice(&[0xff, 0xfe, 0x80]);
            "not text"
        }
    };
    let dir = Scratch::new(ctx);
    let path = dir.sub("conf.dat");
    {
        let mut f = File::create(&path).expect("scratch file");
        for l in &lines {
            f.write_all(l).expect("scratch file");
            f.write_all(b"\n").expect("scratch file");
        }
    }
    ctx.note(|| format!("{} {}: {}", b.block.name(), what, lines.iter().map(|l| String::from_utf8_lossy(l).to_string()).collect::<Vec<_>>().join(" | ")));
    let mut l = open_lines(&path);
    match no_panic(|| b.block.read(&mut l)) {
        Err(p) => fail("panic", format!("reading a damaged block ({}) panicked: {}", what, p)),
        Ok(Ok(x)) => fail(what, format!("damaged block ({}) read as {}", what, x)),
        Ok(Err(_)) => {
            ctx.checked(1);
            Ok(())
        }
    }
}

// ------------------------------------------------------------------ C33

fn brief_names(t: &str) -> Vec<String> {
    let mut v = Vec::new();
    let mut rest = t.splitn(2, " arguments : ").nth(1).unwrap_or("");
    while let Some(i) = rest.find('(') {
        let r = &rest[i + 1..];
        match r.find(')') {
            Some(j) => {
                v.push(r[..j].to_string());
                rest = &r[j + 1..];
            }
            None => break,
        }
    }
    v
}

fn info_names(t: &str) -> Vec<(String, String)> {
    t.lines()
        .map(|l| {
            let mut it = l.splitn(2, ':');
            (it.next().unwrap_or("").trim().to_string(), it.next().unwrap_or("").trim().to_string())
        })
        .collect()
}

fn c33_blocks(s: &mut Src, ctx: &mut Ctx) -> R {
    let k = s.draw(KINDS);
    let b = made(s, k, true);
    let c = made(s, k, true);
    let w = s.size(0, 40);
    ctx.class(b.block.name());
    ctx.nontrivial();
    let name = b.block.name();
    let brief = b.block.brief();
    let info = info_names(&b.block.info(w));
    ctx.note(|| format!("{} width {}: {:?} {:?}", name, w, brief, info));
    let names = brief_names(&brief);
    ensure!(names.len() == b.block.nargs(), "count", "{}: {:?} names {} arguments, {} are announced", name, brief, names.len(), b.block.nargs());
    ensure!(info.iter().map(|x| x.0.clone()).collect::<Vec<_>>() == names, "order", "{}: overview {:?}, descriptions {:?}", name, names, info);
    ensure!(info.iter().all(|x| !x.1.is_empty()), "description", "{}: {:?}", name, info);
    // accepted in that number only
    let r0 = match b.block.print_vec(&b.texts, w) {
        Ok(x) => x,
        Err(e) => return fail("refused", format!("{}: {} arguments {:?} refused: {:?}", name, b.texts.len(), b.texts, e)),
    };
    ensure!(b.texts.len() == names.len(), "number", "{}: usage names {} arguments, {} are accepted", name, names.len(), b.texts.len());
    let conf = |t: &str| -> Vec<(String, String)> { info_names(t) };
    let base = conf(&r0);
    let i = s.size(0, names.len() - 1);
    let mut v = b.texts.clone();
    v[i] = c.texts[i].clone();
    let r1 = match b.block.print_vec(&v, w) {
        Ok(x) => x,
        Err(e) => return fail("refused", format!("{}: {:?} refused: {:?}", name, v, e)),
    };
    let now = conf(&r1);
    ensure!(base.len() == now.len(), "lines", "{:?} and {:?}", base, now);
    for (x, y) in base.iter().zip(&now) {
        ensure!(x.0 == y.0, "lines", "{:?} and {:?}", x, y);
        if x.0 == names[i] {
            // the value printed at that name is the text given there
            ensure!(y.1 == c.texts[i].trim(), "parameter", "{}: argument {} ({}) given as {:?}, its parameter is {:?}", name, i, names[i], c.texts[i], y.1);
        } else {
            ensure!(x.1 == y.1, "other", "{}: argument {} ({}) changed {} from {:?} to {:?}", name, i, names[i], x.0, x.1, y.1);
        }
    }
    ensure!(now.iter().any(|x| x.0 == names[i]), "missing", "{}: no parameter {}", name, names[i]);
    ctx.checked(4 + now.len() as u64);
    Ok(())
}

mod own {
    use moledyn::prelude::*;
    pub struct One;
    impl_argument_trait!(One, "One", OneArguments, 1; x, f64, "The only one");
    pub struct Nine;
    impl_argument_trait!(Nine, "A structure of nine arguments with rather long names", NineArguments, 9;
        first_argument_of_the_structure, f64, "First one. ex) 1.0", second_argument_of_the_structure, usize, "Second one",
        third_argument_of_the_structure, String, "Third one", fourth_argument_of_the_structure, f64, "Fourth one",
        fifth_argument_of_the_structure, f64, "Fifth one", sixth_argument_of_the_structure, u128, "Sixth one",
        seventh_argument_of_the_structure, String, "Seventh one", eighth_argument_of_the_structure, usize, "Eighth one",
        ninth_argument_of_the_structure, f64, "Ninth one");
    pub struct Many;
    impl_argument_trait!(Many, "Many", ManyArguments, 26; a, f64, "a", b, usize, "b", c, f64, "c", d, usize, "d", e, f64, "e", f, usize, "f",
        g, f64, "g", h, usize, "h", i, f64, "i", j, usize, "j", k, f64, "k", l, usize, "l", m, f64, "m", n, usize, "n", o, f64, "o", p, usize, "p",
        q, f64, "q", r, usize, "r", s, f64, "s", t, usize, "t", u, f64, "u", v, usize, "v", w, f64, "w", x, usize, "x", y, f64, "y", z, usize, "z");
}

/// Parameter structures a program makes for itself with the crate's macro.
fn c33_own(s: &mut Src, ctx: &mut Ctx) -> R {
    fn go<A, B: Argument<A>>(s: &mut Src, ctx: &mut Ctx, kinds: &str, names: &[&str], print: fn(&A, usize) -> String) -> R {
        let w = s.size(0, 60);
        let brief = brief_names(&B::brief_info());
        let info = info_names(&B::info(w));
        ctx.note(|| format!("width {}: {:?} {:?}", w, B::brief_info(), info));
        ensure!(B::NUM_ARGS == names.len() && brief == names, "names", "{:?} instead of {:?}", brief, names);
        ensure!(info.iter().map(|x| x.0.as_str()).collect::<Vec<_>>() == names && info.iter().all(|x| !x.1.is_empty()), "descriptions", "{:?} instead of {:?}", info, names);
        let texts: Vec<String> = kinds.chars().map(|k| match k {
            'f' => { let x = s.f64_finite(); format!("{}", x) }
            'u' => format!("{}", s.draw(1 << 62)),
            'w' => format!("{}", s.u128()),
            _ => { let n = s.size(1, 30); (0..n).map(|i| if i == 0 || i + 1 == n { 'x' } else { *s.pick(&['a', ' ', ':', '/', '(', ')', ',', '.']) }).collect() }
        }).collect();
        for n in 0..names.len() + 3 {
            let v: Vec<String> = texts.iter().cycle().take(n).cloned().collect();
            let r = B::read_args_from_vec(&v);
            ensure!(r.is_ok() == (n == names.len()), "number", "{} arguments {}", n, if r.is_ok() { "accepted" } else { "refused" });
            if let Ok(a) = r {
                let lines = info_names(&print(&a, w));
                ensure!(lines.len() == n && (0..n).all(|i| lines[i].0 == names[i] && lines[i].1 == texts[i]), "values", "{:?} are {:?}", texts, lines);
            }
        }
        ctx.checked(2 * names.len() as u64 + 4);
        if names.len() > 1 {
            ctx.nontrivial();
        }
        Ok(())
    }
    match s.draw(3) {
        0 => go::<own::OneArguments, own::One>(s, ctx, "f", &["x"], own::OneArguments::print_configuration),
        1 => {
            let names: Vec<String> = ["first", "second", "third", "fourth", "fifth", "sixth", "seventh", "eighth", "ninth"].iter().map(|x| format!("{}_argument_of_the_structure", x)).collect();
            go::<own::NineArguments, own::Nine>(s, ctx, "fusffwsuf", &names.iter().map(|x| x.as_str()).collect::<Vec<_>>(), own::NineArguments::print_configuration)
        }
        _ => {
            let names: Vec<String> = (b'a'..=b'z').map(|c| (c as char).to_string()).collect();
            go::<own::ManyArguments, own::Many>(s, ctx, &"fu".repeat(13), &names.iter().map(|x| x.as_str()).collect::<Vec<_>>(), own::ManyArguments::print_configuration)
        }
    }
}

construct_dataset!(TextData, ContBulkTarget, _target_arg, ContBulkTargetArguments, [target_size, f64];
    ConstStep, _time_arg, ConstStepArguments, [dt, f64]);

fn c33_analyses(s: &mut Src, ctx: &mut Ctx) -> R {
    fn go<A: Analysis>(name: &'static str, s: &mut Src, ctx: &mut Ctx, values: &[(&str, &str)]) -> R {
        let w = s.size(0, 40);
        ctx.class(name);
        ctx.nontrivial();
        let brief = A::brief_info();
        let names = brief_names(&brief);
        let info = info_names(&A::info(w));
        ctx.note(|| format!("{} width {}: {:?} {:?}", name, w, brief, info));
        ensure!(!names.is_empty(), "count", "{}: {:?}", name, brief);
        ensure!(info.iter().map(|x| x.0.clone()).collect::<Vec<_>>() == names, "order", "{}: overview {:?}, descriptions {:?}", name, names, info);
        ensure!(info.iter().all(|x| !x.1.is_empty()), "description", "{}: {:?}", name, info);
        let dir = Scratch::new(ctx);
        let mut args = Vec::new();
        for n in &names {
            let v = match values.iter().find(|x| x.0 == n) {
                Some(v) => v.1.to_string(),
                None if n == "output_dir" => dir.dir(),
                None => return fail("name", format!("{}: unknown argument {}", name, n)),
            };
            args.push(v);
        }
        let r = no_panic(|| A::analyze::<TextData>(&args, 15, "p"));
        match r {
            Err(p) => return fail("panic", format!("{}: {:?} panicked: {}", name, args, p)),
            Ok(r) => ok!(r, "refused", "{}: the announced arguments {:?}", name, args),
        };
        // the directory is the one named
        let made = std::fs::read_dir(&dir.path).map(|d| d.count()).unwrap_or(0);
        ensure!(made == 1, "directory", "{}: analysis of {:?} made {} entries there", name, args, made);
        // each argument is read at its place
        let i = s.size(0, names.len() - 1);
        let mut bad = args.clone();
        bad[i] = if names[i] == "output_dir" { dir.sub("missing-file") } else { "unreadable".to_string() };
        if names[i] == "output_dir" {
            std::fs::write(dir.sub("missing-file"), "x").expect("scratch file");
        }
        match no_panic(|| A::analyze::<TextData>(&bad, 15, "p")) {
            Err(p) => return fail("panic", format!("{}: {:?} panicked: {}", name, bad, p)),
            Ok(Ok(())) => return fail("unreadable", format!("{}: {:?} accepted", name, bad)),
            Ok(Err(_)) => {}
        }
        // the number a program expects: that many (a number of bins) or one more (two bin sizes)
        ensure!(names.len() == A::NUM_ARGS + 1, "announced number", "{}: {} arguments expected or one more, {} announced", name, A::NUM_ARGS, names.len());
        let mut short = args.clone();
        short.truncate(names.len() - 3);
        short.push(format!("{}", 10 + s.draw(90)));
        short.push(args[names.len() - 1].clone());
        match no_panic(|| A::analyze::<TextData>(&short, 15, "p")) {
            Err(p) => return fail("panic", format!("{}: {:?} panicked: {}", name, short, p)),
            Ok(r) => ok!(r, "refused short form", "{}: the expected number of arguments {:?}", name, short),
        };
        // wrong numbers
        for n in [0, 1, 2, names.len() + 1, names.len() + 2] {
            let v: Vec<String> = args.iter().cycle().take(n).cloned().collect();
            match no_panic(|| A::analyze::<TextData>(&v, 15, "p")) {
                Err(p) => return fail("panic", format!("{}: {} arguments panicked: {}", name, n, p)),
                Ok(Ok(())) => return fail("number", format!("{}: {} arguments accepted", name, n)),
                Ok(Err(_)) => {}
            }
        }
        ctx.checked(11);
        Ok(())
    }
    let vals = [("num_var", "3"), ("min_time", "0.1"), ("max_time", "10"), ("bin_size", "0.5"), ("lbin_size", "1.5")];
    match s.draw(3) {
        0 => go::<TimeAnalysis>("time", s, ctx, &vals),
        1 => go::<TimeVecAnalysis>("time vector", s, ctx, &vals),
        _ => go::<ProcessAnalysis>("process", s, ctx, &vals),
    }
}

//! C21, C22, C23, C31: histograms, sample statistics, process profiles, summary columns.

use crate::gen::*;
use crate::pbt::*;
use crate::{ensure, ok};
use moledyn::analysis::{Pair, VarN, VarTime};
use moledyn::prelude::*;

pub fn checks() -> Vec<Check> {
    vec![
        Check { prop: "C21", name: "c21_histogram", quick: 50000, thorough: 3000000, shrink_budget: 2000, f: c21_histogram,
            rule: "bin layout by sizes (dyadic in a third of the cases, where bins are decided exactly), by number of bins, or default; 0..150, sometimes up to 5000 samples (per variable) everywhere incl. exactly at, one rounding unit beside and beyond the range ends, on bin edges, duplicates, negative, zero; single and 10-variable analyses; every exported row is compared with an independent assignment (both neighbours allowed within rounding of an edge); non-trivial = at least two non-empty bins and at least one sample outside the range" },
        Check { prop: "C21", name: "c21_layout", quick: 1500000, thorough: 90000000, shrink_budget: 2000, f: c21_layout,
            rule: "valid and unusable layouts (negative or crossing limits, bin sizes <= 0, growth <= 1, fewer than 10 bins) for the three analyses; conversion of a number of bins to bin sizes; agreement of bin positions; non-trivial = an unusable layout" },
        Check { prop: "C22", name: "c22_statistics", quick: 220000, thorough: 13000000, shrink_budget: 2000, f: c22_statistics,
            rule: "1..200, sometimes up to 20000 values over 200 decades, constant, nearly constant, of mixed sign; random order and a permutation; three analyses; against two-pass reference in compensated arithmetic; non-trivial = at least 3 distinct values" },
        Check { prop: "C22", name: "c22_clear", quick: 22000, thorough: 1300000, shrink_budget: 1000, f: c22_clear,
            rule: "history of 1..5 fill (and draw) / clear rounds; after each clear the next fill must export byte for byte what a new analysis exports; non-trivial = a cleared analysis that held data in range" },
        Check { prop: "C23", name: "c23_profile", quick: 64000, thorough: 3800000, shrink_budget: 2000, f: c23_profile,
            rule: "0..20, sometimes up to 400 processes of 0..50, sometimes up to 3000 records (time, value), values of both signs and zero, times everywhere incl. range ends and outside; against an independent grouping of the records (records within rounding of a bin edge left out); non-trivial = a bin with at least two different values" },
        Check { prop: "C31", name: "c31_columns", quick: 400000, thorough: 24000000, shrink_budget: 1000, f: c31_columns,
            rule: "parameter sets of 4 data set types (integers, floats over 300 decades), samples, widths 1..40; the header is split by its names, rows are read back and compared with parameters and reference statistics by column name; non-trivial = at least two samples" },
    ]
}

// ------------------------------------------------------------------ layouts

#[derive(Clone, Debug, PartialEq)]
pub enum Form {
    Sizes { bin: f64, lbin: f64 },
    Num(usize),
    Default,
}

#[derive(Clone, Debug)]
pub struct Layout {
    pub min: f64, // as stored: at least 1e-15
    pub given_min: f64,
    pub max: f64,
    pub b: f64,
    pub r: f64,
    pub form: Form,
    pub exact: bool,
}

pub const TINY: f64 = 1e-15;

pub fn layout(s: &mut Src) -> Layout {
    match s.weighted(&[4, 4, 4, 1]) {
        0 => {
            // dyadic: edges and samples are multiples of b/8
            let e = s.size(0, 40) as i32 - 20;
            let b = 2f64.powi(e);
            let k = s.size(1, 4000) as f64;
            let n = s.size(1, 200) as f64;
            let frac = s.size(0, 7) as f64 / 8.0;
            let (min, max) = (k * b, k * b + (n + frac) * b);
            let r = *s.pick(&[2.0, 1.5, 1.25, 1.0625]);
            Layout { min, given_min: min, max, b, r, form: Form::Sizes { bin: b, lbin: r }, exact: true }
        }
        1 => {
            let min = if s.chance(1, 4) { 0.0 } else { s.f64_log(1e-6, 1e6) };
            let span = if min == 0.0 { s.f64_log(1e-3, 1e6) } else { min * s.f64_log(1e-3, 1e4) };
            let max = min + span;
            let b = span / s.f64(0.3, 300.0);
            let m = min.max(TINY);
            let want = s.f64(1.0, 300.0);
            let r = (max / m).powf(1.0 / want).max(1.001);
            Layout { min: m, given_min: min, max, b, r, form: Form::Sizes { bin: b, lbin: r }, exact: false }
        }
        2 => {
            let n = s.size(10, 300);
            let (min, max) = if s.chance(1, 3) {
                // exactly representable edges
                let k = s.size(1, 50) as f64;
                (k, k + n as f64 * *s.pick(&[0.25, 0.5, 1.0, 2.0, 8.0]))
            } else {
                let min = if s.chance(1, 4) { 0.0 } else { s.f64_log(1e-6, 1e6) };
                (min, if min == 0.0 { s.f64_log(1e-3, 1e6) } else { min * (1.0 + s.f64_log(1e-3, 1e4)) })
            };
            let m = min.max(TINY);
            Layout { min: m, given_min: min, max, b: (max - m) / n as f64, r: (max / m).powf(1.0 / n as f64), form: Form::Num(n), exact: false }
        }
        _ => Layout { min: TINY, given_min: TINY, max: 1e13, b: 1e10, r: 1.2, form: Form::Default, exact: false },
    }
}

pub fn apply<A: Bin>(a: &mut A, l: &Layout) -> Result<(), Error> {
    match l.form {
        Form::Sizes { bin, lbin } => a.update_from_bin_size(l.given_min, l.max, bin, lbin)?,
        Form::Num(n) => a.update_from_num_bin(l.given_min, l.max, n)?,
        Form::Default => return Ok(()),
    }
    a.allocate_vectors();
    Ok(())
}

fn next_up(x: f64) -> f64 {
    f64::from_bits(x.to_bits() + 1)
}
fn next_down(x: f64) -> f64 {
    f64::from_bits(x.to_bits() - 1)
}

impl Layout {
    pub fn in_range(&self, v: f64) -> bool {
        v >= self.min && v <= self.max
    }
    fn last_linear(&self) -> Option<i64> {
        if let Form::Num(n) = self.form { Some(n as i64 - 1) } else { None }
    }
    /// Allowed linear bins of a value in range.
    pub fn lin(&self, v: f64) -> (i64, i64) {
        let x = (v - self.min) / self.b;
        let tol = if self.exact { 0.0 } else { 1e-9 + 8.0 * f64::EPSILON * (v.abs() + self.min) / self.b };
        let (mut lo, mut hi) = ((x - tol).floor() as i64, (x + tol).floor() as i64);
        if v == self.max && x.fract() <= tol {
            lo = lo.min(x.floor() as i64 - 1);
        }
        if let Some(n) = self.last_linear() {
            lo = lo.min(n);
            hi = hi.min(n);
        }
        (lo.max(0), hi.max(0))
    }
    /// Allowed logarithmic bins of a value in range.
    pub fn log(&self, v: f64) -> (i64, i64) {
        let lr = self.r.ln();
        let x = (v / self.min).ln() / lr;
        let tol = 1e-9 + 16.0 * f64::EPSILON * (x + 1.0) / lr;
        let (mut lo, mut hi) = ((x - tol).floor() as i64, (x + tol).floor() as i64);
        if let Some(n) = self.last_linear() {
            lo = lo.min(n);
            hi = hi.min(n);
        }
        (lo.max(0), hi.max(0))
    }
    pub fn lin_centre(&self, i: i64) -> f64 {
        self.min + (i as f64 + 0.5) * self.b
    }
    pub fn log_centre(&self, i: i64) -> f64 {
        self.min * self.r.powf(i as f64 + 0.5)
    }
    pub fn lin_index(&self, t: f64) -> Option<i64> {
        let x = (t - self.min) / self.b - 0.5;
        let tol = 1e-6 + 4000.0 * f64::EPSILON * (t.abs() + self.min) / self.b;
        if (x - x.round()).abs() <= tol && x > -0.5 { Some(x.round() as i64) } else { None }
    }
    pub fn log_index(&self, t: f64) -> Option<i64> {
        let lr = self.r.ln();
        let x = (t / self.min).ln() / lr - 0.5;
        let tol = 1e-6 + 4000.0 * f64::EPSILON * (x.abs() + 1.0) / lr;
        if (x - x.round()).abs() <= tol && x > -0.5 { Some(x.round() as i64) } else { None }
    }
    fn log_width(&self, i: i64) -> f64 {
        self.min * self.r.powf(i as f64) * (self.r - 1.0)
    }
    fn rtol(&self, i: i64) -> f64 {
        1e-9 + 32.0 * f64::EPSILON * (i as f64 + 2.0) / (self.r - 1.0)
    }
    pub fn value(&self, s: &mut Src) -> f64 {
        if self.exact && s.bool() {
            // multiples of an eighth of the bin size, also outside
            let n = ((self.max - self.min) / self.b * 8.0).round() as i64;
            let k = s.draw(n as u64 + 9) as i64 - 4;
            return self.min + k as f64 * self.b / 8.0;
        }
        match s.weighted(&[6, 4, 2, 2, 1, 1, 1, 1, 2]) {
            0 => s.f64(self.min, self.max),
            1 => s.f64_log(self.min, self.max),
            2 => self.max,
            3 => self.min,
            4 => next_up(self.max),
            5 => next_down(self.min),
            6 => self.max * s.f64(1.0, 3.0),
            7 => {
                if s.bool() { 0.0 } else { -s.f64(0.0, self.max) }
            }
            _ => {
                // near or on an edge
                let n = (self.max - self.min) / self.b;
                let k = s.f64(0.0, n + 1.0).floor();
                let v = self.min + k * self.b;
                let v = if v <= 0.0 { self.min } else { v };
                match s.draw(3) {
                    0 => v,
                    1 => next_up(v),
                    _ => next_down(v),
                }
            }
        }
    }
}

pub fn values(s: &mut Src, l: &Layout, n: usize) -> Vec<f64> {
    let mut v: Vec<f64> = Vec::new();
    for _ in 0..n {
        let x = if !v.is_empty() && s.chance(1, 8) { *s.pick(&v) } else { l.value(s) };
        v.push(x);
    }
    v
}

// ------------------------------------------------------------------ exported tables

pub fn rows(text: &str) -> Result<Vec<Vec<f64>>, Stop> {
    let mut out = Vec::new();
    for l in text.lines() {
        let mut r = Vec::new();
        for w in l.split_whitespace() {
            match w.parse::<f64>() {
                Ok(x) => r.push(x),
                Err(_) => return fail("unreadable-row", format!("exported row {:?}", l)),
            }
        }
        out.push(r);
    }
    Ok(out)
}

pub fn lin_text<A: Analysis>(a: &A, prec: usize) -> Result<String, Stop> {
    let mut w: Vec<u8> = Vec::new();
    ok!(a.export_distribution(prec, &mut w), "export", "linear distribution");
    Ok(String::from_utf8(w).unwrap_or_default())
}

pub fn log_text<A: Analysis>(a: &A, prec: usize) -> Result<String, Stop> {
    let mut w: Vec<u8> = Vec::new();
    ok!(a.export_log_scaled_distribution(prec, &mut w), "export", "logarithmic distribution");
    Ok(String::from_utf8(w).unwrap_or_default())
}

/// Checks one exported distribution with `vars` variables: samples[k] are those of variable k.
pub fn check_hist(l: &Layout, text: &str, samples: &[Vec<f64>], log: bool) -> Result<usize, Stop> {
    let which = if log { "log" } else { "linear" };
    let sig = |x: &str| format!("{}-{}", which, x);
    let rows = rows(text)?;
    let vars = samples.len();
    let mut last = -1i64;
    let mut table: Vec<(i64, Vec<f64>)> = Vec::new();
    for r in &rows {
        ensure!(r.len() == 1 + 2 * vars, &sig("columns"), "row {:?} for {} variables", r, vars);
        let i = match if log { l.log_index(r[0]) } else { l.lin_index(r[0]) } {
            Some(i) => i,
            None => return fail(&sig("centre"), format!("row {:?} stands at no bin centre of {:?}", r, l)),
        };
        ensure!(i > last, &sig("order"), "bin {} after bin {}", i, last);
        last = i;
        let c = if log { l.log_centre(i) } else { l.lin_centre(i) };
        let ctol = if log { l.rtol(i) * c } else { 1e-6 * l.b + 4000.0 * f64::EPSILON * c };
        ensure!((r[0] - c).abs() <= ctol, &sig("centre"), "row {:?}: centre of bin {} is {}", r, i, c);
        ensure!((0..vars).any(|k| r[1 + 2 * k] > 0.0), &sig("empty-bin"), "empty bin exported: {:?}", r);
        table.push((i, r.clone()));
    }
    for k in 0..vars {
        let n_all = samples[k].len() as f64;
        let mut lo = std::collections::BTreeMap::new();
        let mut hi = std::collections::BTreeMap::new();
        let mut total = 0u64;
        for &v in &samples[k] {
            if l.in_range(v) {
                total += 1;
                let (a, b) = if log { l.log(v) } else { l.lin(v) };
                if a == b {
                    *lo.entry(a).or_insert(0u64) += 1;
                }
                for i in a..=b {
                    *hi.entry(i).or_insert(0u64) += 1;
                }
            }
        }
        let mut got_total = 0u64;
        for (i, r) in &table {
            let n = r[1 + 2 * k];
            ensure!(n >= 0.0 && n.fract() == 0.0, &sig("count"), "count {} in {:?}", n, r);
            let n = n as u64;
            got_total += n;
            let (a, b) = (*lo.get(i).unwrap_or(&0), *hi.get(i).unwrap_or(&0));
            ensure!(n >= a && n <= b, &sig("count"), "bin {} (centre {}) of variable {} holds {} samples instead of {}..{} (layout {:?}, samples {:?})",
                i, r[0], k, n, a, b, l, samples[k]);
            let width = if log { l.log_width(*i) } else { l.b };
            let d = n as f64 / (n_all * width);
            ensure!(close(r[2 + 2 * k], d, if log { l.rtol(*i) } else { 1e-9 }, 0.0), &sig("density"),
                "bin {} of variable {}: density {} instead of {} ({} of {} samples, width {})", i, k, r[2 + 2 * k], d, n, n_all, width);
        }
        ensure!(got_total == total, &sig("total"), "{} samples of variable {} counted, {} are in range {}..{}: {:?}", got_total, k, total, l.min, l.max, samples[k]);
        for (i, a) in &lo {
            ensure!(table.iter().any(|(j, _)| j == i), &sig("missing-bin"), "bin {} with {} samples is not exported", i, a);
        }
    }
    Ok(rows.len())
}

fn c21_histogram(s: &mut Src, ctx: &mut Ctx) -> R {
    let l = layout(s);
    let vars = if s.chance(1, 4) { 10 } else { 1 };
    let n = if s.chance(1, 300) { s.size(200, 5000) } else if vars == 1 { s.size(0, 150) } else { s.size(1, 25) };
    let mut data: Vec<Vec<f64>> = (0..vars).map(|_| values(s, &l, n)).collect();
    if s.chance(1, 12) {
        // values that are in no range
        for d in data.iter_mut() {
            for x in d.iter_mut() {
                if s.chance(1, 8) {
                    *x = *s.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
                }
            }
        }
    }
    ctx.note(|| format!("{:?} vars={} samples={:?}", l, vars, data));
    ctx.class(match l.form { Form::Sizes { .. } if l.exact => "dyadic", Form::Sizes { .. } => "by sizes", Form::Num(_) => "by number", Form::Default => "default" });
    ctx.class(if vars == 1 { "single" } else { "vector" });
    let prec = s.size(0, 30);
    let (lin, log) = if vars == 1 {
        let mut a = TimeAnalysis::default();
        ok!(apply(&mut a, &l), "refused", "layout {:?}", l);
        for &v in &data[0] {
            a.add_ensemble(v);
        }
        if n > 0 || s.bool() {
            a.draw();
        }
        (lin_text(&a, prec)?, log_text(&a, prec)?)
    } else {
        let mut a = TimeVecAnalysis::default();
        ok!(apply(&mut a, &l), "refused", "layout {:?}", l);
        for j in 0..n {
            VarN::add_ensemble(&mut a, (0..vars).map(|k| data[k][j]).collect());
        }
        VarN::draw(&mut a);
        (lin_text(&a, prec)?, log_text(&a, prec)?)
    };
    if n == 0 {
        ensure!(lin.is_empty() && log.is_empty(), "no-samples", "rows without samples: {:?} {:?}", lin, log);
        return Ok(());
    }
    let a = check_hist(&l, &lin, &data, false)?;
    check_hist(&l, &log, &data, true)?;
    ctx.checked(2 * (n * vars) as u64);
    if a >= 2 && data.iter().any(|d| d.iter().any(|&v| !l.in_range(v))) {
        ctx.nontrivial();
    }
    Ok(())
}

fn layout_outcome<A: Bin + Default>(min: f64, max: f64, how: &Form) -> Result<bool, String> {
    no_panic(|| {
        let mut a = A::default();
        match how {
            Form::Sizes { bin, lbin } => a.update_from_bin_size(min, max, *bin, *lbin).is_ok(),
            Form::Num(n) => a.update_from_num_bin(min, max, *n).is_ok() && A::convert_num_bin_to_bin_size(min, max, *n).is_ok(),
            Form::Default => true,
        }
    })
}

fn c21_layout(s: &mut Src, ctx: &mut Ctx) -> R {
    let base = layout(s);
    let (mut min, mut max) = (base.given_min, base.max);
    let mut form = base.form.clone();
    if form == Form::Default {
        form = Form::Num(s.size(10, 1000));
    }
    let mut good = true;
    match s.weighted(&[3, 1, 1, 2, 2, 1, 1]) {
        0 => {}
        5 => {
            // not a number, or without end
            good = false;
            let x = *s.pick(&[f64::NAN, f64::NAN, f64::INFINITY]);
            match (s.draw(3), &mut form) {
                (0, _) => max = x,
                (1, Form::Sizes { bin, .. }) => *bin = x,
                (2, Form::Sizes { lbin, .. }) => *lbin = x,
                _ => min = x,
            }
        }
        6 => {
            // no range to divide
            if let Form::Num(_) = form {
                good = false;
                max = if min < TINY && s.bool() { TINY * s.f64(0.0, 1.0) } else { min };
            }
        }
        1 => {
            min = -s.f64_log(1e-12, 1e3);
            good = false;
        }
        2 => {
            let m = max;
            max = min * s.f64(0.0, 0.999);
            min = m;
            good = false;
        }
        3 => {
            good = false;
            match &mut form {
                Form::Sizes { bin, .. } => *bin = if s.bool() { 0.0 } else { -*bin },
                Form::Num(n) => *n = s.size(0, 9),
                _ => {}
            }
        }
        _ => match &mut form {
            Form::Sizes { lbin, .. } => {
                good = false;
                *lbin = *s.pick(&[1.0, 0.5, 0.0, -2.0, 1.0 - 1e-12]);
            }
            Form::Num(n) => *n = 10,
            _ => {}
        },
    }
    ctx.note(|| format!("min={} max={} {:?} good={}", min, max, form, good));
    let k = s.draw(3);
    let got = match k {
        0 => layout_outcome::<TimeAnalysis>(min, max, &form),
        1 => layout_outcome::<TimeVecAnalysis>(min, max, &form),
        _ => layout_outcome::<ProcessAnalysis>(min, max, &form),
    };
    match got {
        Err(m) => return fail("panic", format!("layout {} {} {:?}: {}", min, max, form, m)),
        Ok(g) => ensure!(g == good, if good { "refused" } else { "accepted" }, "layout {} {} {:?} is {}", min, max, form, if g { "accepted" } else { "refused" }),
    }
    if !good {
        ctx.nontrivial();
        return Ok(());
    }
    if let Form::Num(n) = form {
        let (b, r) = ok!(TimeAnalysis::convert_num_bin_to_bin_size(min, max, n), "refused", "convert");
        let m = min.max(TINY);
        ensure!(close(b, (max - m) / n as f64, 1e-12, 0.0), "convert-linear", "bin size {} for {}..{} in {} bins", b, min, max, n);
        ensure!(close(r.ln() * n as f64, (max / m).ln(), 1e-9, 0.0) || close(r.powi(n as i32), max / m, 1e-9, 0.0), "convert-log", "growth {} for {}..{} in {} bins", r, min, max, n);
        ensure!(TimeVecAnalysis::convert_num_bin_to_bin_size(min, max, n).ok() == Some((b, r)) && ProcessAnalysis::convert_num_bin_to_bin_size(min, max, n).ok() == Some((b, r)),
            "convert-differs", "the analyses convert {} bins differently", n);
    }
    // bin positions
    let mut l = base.clone();
    l.form = form;
    if let Form::Num(n) = l.form {
        l.b = (max - l.min) / n as f64;
        l.r = (max / l.min).powf(1.0 / n as f64);
        l.exact = false;
    }
    let mut t = TimeAnalysis::default();
    let mut v = TimeVecAnalysis::default();
    let mut p = ProcessAnalysis::default();
    ok!(apply(&mut t, &l), "refused", "{:?}", l);
    ok!(apply(&mut v, &l), "refused", "{:?}", l);
    ok!(apply(&mut p, &l), "refused", "{:?}", l);
    for _ in 0..4 {
        let x = if s.chance(1, 20) { *s.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]) } else { l.value(s) };
        let (a, b) = (t.bin_pos(x), t.lbin_pos(x));
        ensure!((a, b) == (v.bin_pos(x), v.lbin_pos(x)) && (a, b) == (p.bin_pos(x), p.lbin_pos(x)), "position-differs", "value {} of {:?}", x, l);
        if l.in_range(x) {
            let (c, d) = (l.lin(x), l.log(x));
            match (a, b) {
                (Some(a), Some(b)) => {
                    ensure!((a as i64) >= c.0 && (a as i64) <= c.1, "position", "value {} is put in bin {} instead of {:?}: {:?}", x, a, c, l);
                    ensure!((b as i64) >= d.0 && (b as i64) <= d.1, "log-position", "value {} is put in bin {} instead of {:?}: {:?}", x, b, d, l);
                }
                _ => return fail("position", format!("value {} in range has no bin: {:?}", x, l)),
            }
        } else {
            ensure!(a.is_none() && b.is_none(), "position-outside", "value {} outside has bin {:?} {:?}: {:?}", x, a, b, l);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ statistics

/// Sum with error compensation (Neumaier).
pub fn csum(v: impl Iterator<Item = f64>) -> f64 {
    let (mut s, mut c) = (0.0f64, 0.0f64);
    for x in v {
        let t = s + x;
        if s.abs() >= x.abs() {
            c += (s - t) + x;
        } else {
            c += (x - t) + s;
        }
        s = t;
    }
    s + c
}

pub fn check_stats(sig: &str, mean: f64, sd: f64, v: &[f64]) -> R {
    let n = v.len() as f64;
    let m = csum(v.iter().cloned()) / n;
    let var = csum(v.iter().map(|x| (x - m) * (x - m))) / n;
    let abs = csum(v.iter().map(|x| x.abs())) / n;
    let sq = csum(v.iter().map(|x| x * x)) / n;
    ensure!((mean - m).abs() <= 1e-12 * abs, &format!("{}-mean", sig), "mean {} instead of {} of {:?}", mean, m, v);
    ensure!(sd >= 0.0, &format!("{}-stddev", sig), "standard deviation {} of {:?}", sd, v);
    ensure!((sd * sd - var).abs() <= 1e-11 * sq, &format!("{}-stddev", sig), "standard deviation {} instead of {} of {:?}", sd, var.sqrt(), v);
    Ok(())
}

pub fn sample_values(s: &mut Src, n: usize) -> Vec<f64> {
    let kind = s.weighted(&[3, 2, 1, 2, 2]);
    let c = s.f64_log(1e-100, 1e100);
    let c = s.signed(c);
    (0..n)
        .map(|_| match kind {
            0 => s.f64_log(1e-3, 1e6),
            1 => {
                let x = s.f64_log(1e-100, 1e100);
                s.signed(x)
            }
            2 => c,
            3 => c * (1.0 + s.f64(-1e-3, 1e-3)),
            _ => {
                let x = s.f64(0.0, 10.0);
                s.signed(x)
            }
        })
        .collect()
}

fn single(v: &[f64], l: &Layout) -> Result<TimeAnalysis, Stop> {
    let mut a = TimeAnalysis::default();
    ok!(apply(&mut a, l), "refused", "layout {:?}", l);
    for &x in v {
        a.add_ensemble(x);
    }
    a.draw();
    Ok(a)
}

fn summary<A: Analysis>(a: &A, prec: usize) -> Result<Vec<f64>, Stop> {
    let t = ok!(a.export_mean_stddev(prec), "export", "summary");
    let r = rows(&t)?;
    ensure!(r.len() == 1, "summary-row", "summary {:?}", t);
    Ok(r[0].clone())
}

fn pair(t: f64, v: f64) -> Result<Pair<f64>, Stop> {
    let txt = format!("({},{})", t, v);
    match txt.parse::<Pair<f64>>() {
        Ok(p) => Ok(p),
        Err(e) => fail("pair", format!("record {:?} is not readable: {:?}", txt, e)),
    }
}

fn c22_statistics(s: &mut Src, ctx: &mut Ctx) -> R {
    let l = layout(s);
    let n = if s.chance(1, 400) { s.size(201, 20000) } else { s.size(1, 200) };
    let kind = s.weighted(&[3, 1, 2]);
    let prec = s.size(0, 30);
    match kind {
        0 => {
            ctx.class("single");
            let v = if s.chance(1, 3) { values(s, &l, n) } else { sample_values(s, n) };
            let perm = s.perm(n);
            ctx.note(|| format!("single {:?} perm {:?}", v, perm));
            let w: Vec<f64> = perm.iter().map(|&i| v[i]).collect();
            let (a, b) = (single(&v, &l)?, single(&w, &l)?);
            for x in [&a, &b] {
                let r = summary(x, prec)?;
                ensure!(r.len() == 3 && r[0] == n as f64, "ensemble", "summary {:?} of {} samples", r, n);
                check_stats("single", r[1], r[2], &v)?;
            }
            // counts do not depend on the order at all
            ensure!(lin_text(&a, prec)? == lin_text(&b, prec)? && log_text(&a, prec)? == log_text(&b, prec)?, "order", "histogram depends on the order of {:?}", v);
            nontrivial3(&v, ctx);
        }
        1 => {
            ctx.class("vector");
            let n = s.size(1, 40);
            let data: Vec<Vec<f64>> = (0..10).map(|_| sample_values(s, n)).collect();
            ctx.note(|| format!("vector {:?}", data));
            let mut a = TimeVecAnalysis::default();
            ok!(apply(&mut a, &l), "refused", "layout {:?}", l);
            for j in 0..n {
                VarN::add_ensemble(&mut a, data.iter().map(|d| d[j]).collect());
            }
            VarN::draw(&mut a);
            let r = summary(&a, prec)?;
            ensure!(r.len() == 21 && r[0] == n as f64, "ensemble", "summary {:?} of {} samples", r, n);
            for k in 0..10 {
                check_stats("vector", r[1 + 2 * k], r[2 + 2 * k], &data[k])?;
            }
            nontrivial3(&data[0], ctx);
        }
        _ => {
            ctx.class("process");
            let v = sample_values(s, n);
            let mut a = ProcessAnalysis::default();
            ok!(apply(&mut a, &l), "refused", "layout {:?}", l);
            let mut proc = 0;
            for &x in &v {
                let t = l.value(s);
                a.add_pair(pair(t, x)?);
                if s.chance(1, 5) {
                    VarTime::add_ensemble(&mut a);
                    proc += 1;
                }
            }
            ctx.note(|| format!("process values {:?} processes {}", v, proc));
            VarTime::draw(&mut a);
            let r = summary(&a, prec)?;
            ensure!(r.len() == 3 && r[0] == proc as f64, "ensemble", "summary {:?} of {} processes", r, proc);
            check_stats("process", r[1], r[2], &v)?;
            nontrivial3(&v, ctx);
        }
    }
    Ok(())
}

fn nontrivial3(v: &[f64], ctx: &mut Ctx) {
    let mut b: Vec<u64> = v.iter().map(|x| x.to_bits()).collect();
    b.sort();
    b.dedup();
    if b.len() >= 3 {
        ctx.nontrivial();
    }
}

fn all_text<A: Analysis>(a: &A, prec: usize) -> Result<String, Stop> {
    Ok(format!("{}\n--\n{}--\n{}", ok!(a.export_mean_stddev(prec), "export", "summary"), lin_text(a, prec)?, log_text(a, prec)?))
}

#[derive(Clone, Debug)]
struct Fill {
    vals: Vec<f64>,
    times: Vec<f64>,
    draw: bool,
}

fn c22_clear(s: &mut Src, ctx: &mut Ctx) -> R {
    let l = layout(s);
    let kind = s.draw(3);
    let n = s.size(2, 5);
    let fills: Vec<Fill> = (0..n)
        .map(|_| {
            let m = if kind == 1 { 10 * s.size(0, 6) } else { s.size(0, 40) };
            Fill { vals: if s.bool() { values(s, &l, m) } else { sample_values(s, m) }, times: values(s, &l, m), draw: s.chance(3, 4) }
        })
        .collect();
    ctx.note(|| format!("kind={} layout={:?} rounds={:?}", kind, l, fills));
    macro_rules! go {
        ($ty:ty, $fill:expr, $draw:expr) => {{
            let mut a = <$ty>::default();
            ok!(apply(&mut a, &l), "refused", "layout {:?}", l);
            for (i, f) in fills.iter().enumerate() {
                $fill(&mut a, f)?;
                let last = i + 1 == fills.len();
                if f.draw || last {
                    $draw(&mut a);
                }
                if i > 0 && (f.draw || last) {
                    let mut b = <$ty>::default();
                    ok!(apply(&mut b, &l), "refused", "layout {:?}", l);
                    $fill(&mut b, f)?;
                    $draw(&mut b);
                    let (x, y) = (all_text(&a, 5)?, all_text(&b, 5)?);
                    ensure!(x == y, "cleared", "after clear, round {} exports\n{}\ninstead of\n{}", i, x, y);
                    ctx.checked(1);
                }
                if !last {
                    if f.vals.iter().chain(&f.times).any(|&v| l.in_range(v)) && !f.vals.is_empty() {
                        ctx.nontrivial();
                    }
                    a.clear();
                }
            }
        }};
    }
    match kind {
        0 => go!(TimeAnalysis, |a: &mut TimeAnalysis, f: &Fill| -> R { f.vals.iter().for_each(|&v| a.add_ensemble(v)); Ok(()) }, |a: &mut TimeAnalysis| a.draw()),
        1 => go!(TimeVecAnalysis, |a: &mut TimeVecAnalysis, f: &Fill| -> R { f.vals.chunks(10).for_each(|c| VarN::add_ensemble(a, c.to_vec())); Ok(()) },
            |a: &mut TimeVecAnalysis| VarN::draw(a)),
        _ => go!(ProcessAnalysis, |a: &mut ProcessAnalysis, f: &Fill| -> R {
            for (i, (&t, &v)) in f.times.iter().zip(&f.vals).enumerate() {
                a.add_pair(pair(t, v)?);
                if i % 3 == 0 {
                    VarTime::add_ensemble(a);
                }
            }
            Ok(())
        }, |a: &mut ProcessAnalysis| VarTime::draw(a)),
    }
    Ok(())
}

// ------------------------------------------------------------------ processes

/// Checks an exported time profile; the records must not lie within rounding of a bin edge.
pub fn check_profile(l: &Layout, text: &str, recs: &[(f64, f64)], log: bool) -> Result<usize, Stop> {
    let which = if log { "log" } else { "linear" };
    let sig = |x: &str| format!("{}-{}", which, x);
    let mut groups: std::collections::BTreeMap<i64, Vec<f64>> = std::collections::BTreeMap::new();
    for &(t, v) in recs {
        if l.in_range(t) {
            let (a, _) = if log { l.log(t) } else { l.lin(t) };
            groups.entry(a).or_default().push(v);
        }
    }
    let rows = rows(text)?;
    let mut seen = Vec::new();
    for r in &rows {
        ensure!(r.len() == 4, &sig("columns"), "row {:?}", r);
        let i = match if log { l.log_index(r[0]) } else { l.lin_index(r[0]) } {
            Some(i) => i,
            None => return fail(&sig("centre"), format!("row {:?} stands at no bin centre of {:?}", r, l)),
        };
        ensure!(seen.last().map_or(true, |&j| j < i), &sig("order"), "bin {} after {:?}", i, seen);
        seen.push(i);
        match groups.get(&i) {
            None => return fail(&sig("count"), format!("row {:?} for bin {} without records of {:?}", r, i, recs)),
            Some(g) => {
                ensure!(r[1] == g.len() as f64, &sig("count"), "bin {} has {} records instead of {}: {:?}", i, r[1], g.len(), g);
                check_stats(&sig("bin"), r[2], r[3], g)?;
            }
        }
    }
    for (i, g) in &groups {
        ensure!(seen.contains(i), &sig("missing-bin"), "bin {} with records {:?} is not exported", i, g);
    }
    Ok(groups.values().filter(|g| g.iter().any(|x| *x != g[0])).count())
}

pub fn records(s: &mut Src, l: &Layout, n: usize) -> Vec<(f64, f64)> {
    let mut out = Vec::new();
    for _ in 0..n {
        // a time without end belongs to no bin
        let t = if s.chance(1, 60) { s.signed(f64::INFINITY) } else { l.value(s) };
        if l.in_range(t) {
            let (a, b) = l.lin(t);
            let (c, d) = l.log(t);
            if a != b || c != d {
                continue;
            }
        }
        let x = match s.weighted(&[3, 2, 1]) {
            0 => s.f64(0.0, 10.0),
            1 => s.f64_log(1e-6, 1e6),
            _ => 0.0,
        };
        out.push((t, s.signed(x)));
    }
    out
}

fn c23_profile(s: &mut Src, ctx: &mut Ctx) -> R {
    let l = layout(s);
    let np = if s.chance(1, 200) { s.size(21, 400) } else { s.size(0, 20) };
    let mut a = ProcessAnalysis::default();
    ok!(apply(&mut a, &l), "refused", "layout {:?}", l);
    let mut all = Vec::new();
    for _ in 0..np {
        let n = if s.chance(1, 2000) { s.size(51, 3000) } else { s.size(0, 50) };
        let recs = records(s, &l, n);
        for &(t, v) in &recs {
            a.add_pair(pair(t, v)?);
        }
        VarTime::add_ensemble(&mut a);
        all.extend(recs);
    }
    ctx.note(|| format!("{:?} processes={} records={:?}", l, np, all));
    let prec = s.size(0, 30);
    if all.is_empty() {
        ensure!(lin_text(&a, prec)?.is_empty() && log_text(&a, prec)?.is_empty(), "no-records", "rows without records");
        return Ok(());
    }
    VarTime::draw(&mut a);
    let n = check_profile(&l, &lin_text(&a, prec)?, &all, false)?;
    check_profile(&l, &log_text(&a, prec)?, &all, true)?;
    let r = summary(&a, prec)?;
    ensure!(r.len() == 3 && r[0] == np as f64, "ensemble", "summary {:?} of {} processes", r, np);
    check_stats("long-term", r[1], r[2], &all.iter().map(|x| x.1).collect::<Vec<_>>())?;
    ctx.checked(all.len() as u64);
    if n > 0 {
        ctx.nontrivial();
    }
    Ok(())
}

// ------------------------------------------------------------------ summary columns

construct_dataset!(SetA, ContCircSystem, sys_arg, ContCircSystemArguments, [sys_size, f64, dim, usize];
                   ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64];
                   ContPassiveIndepAgent, agent_arg, ContPassiveIndepAgentArguments, [num_agent, usize];
                   ConstStep, time_arg, ConstStepArguments, [dt, f64, tmax, f64];
                   {VariableSimulation, sim_arg, VariableSimulationArguments, [idx_set, usize]});
construct_dataset!(SetB, ContCylindricalSystem, sys_arg, ContCylindricalSystemArguments, [sys_radius, f64, sys_length, f64, dim, usize];
                   ContPassiveMergeAgent, agent_arg, ContPassiveMergeAgentArguments, [ptl_radius, f64, alpha, f64, num_agent, usize];
                   ExponentialStep, time_arg, ExponentialStepArguments, [dt_min, f64, dt_max, f64, length, usize, tmax, f64]);
construct_dataset!(SetC, ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64]);
construct_dataset!(SetD, ContPassiveExpAgent, agent_arg, ContPassiveExpAgentArguments, [gamma, f64, strength, f64, num_agent, usize];
                   ContCubicSystem, sys_arg, ContCubicSystemArguments, [dim, usize, sys_size, f64]);

fn anyf(s: &mut Src) -> f64 {
    match s.weighted(&[3, 3, 1]) {
        0 => s.f64_log(1e-6, 1e6),
        1 => {
            let x = s.f64_log(1e-150, 1e150);
            s.signed(x)
        }
        _ => s.draw(100) as f64,
    }
}

fn anyu(s: &mut Src) -> usize {
    match s.draw(3) {
        0 => s.size(0, 10),
        1 => s.size(0, 100000),
        _ => s.draw(1 << 52) as usize,
    }
}

/// Whether a header holds exactly these names in this order, blank separated and padded to the width.
fn header_is(h: &str, names: &[String], width: usize) -> bool {
    let mut rest = h;
    for n in names {
        if !rest.starts_with(n.as_str()) {
            return false;
        }
        rest = &rest[n.len()..];
        let pad = rest.len() - rest.trim_start().len();
        // a name as wide as the column must still be apart from the next one
        if pad < width.saturating_sub(n.len()).max(1) && !rest.is_empty() {
            return false;
        }
        rest = rest.trim_start();
    }
    rest.is_empty()
}

fn c31_columns(s: &mut Src, ctx: &mut Ctx) -> R {
    let width = s.size(1, 40);
    let which = s.draw(4);
    let (fh, names, row, row_wide): (String, Vec<(&str, f64)>, String, String);
    macro_rules! set {
        ($d:expr, $ty:ty, [$($f:ident),*]) => {{
            let d: $ty = $d;
            fh = <$ty>::export_form(width);
            names = vec![$((stringify!($f), d.$f as f64)),*];
            row = ok!(d.export_data(width), "export", "{:?}", d);
            row_wide = ok!(d.export_data(width + 7), "export", "{:?}", d);
            ctx.note(|| format!("{:?} width={}", d, width));
        }};
    }
    match which {
        0 => set!(SetA { sys_size: anyf(s), dim: anyu(s), target_size: anyf(s), num_agent: anyu(s), dt: anyf(s), tmax: anyf(s), idx_set: anyu(s) }, SetA,
            [sys_size, dim, target_size, num_agent, dt, tmax]),
        1 => set!(SetB { sys_radius: anyf(s), sys_length: anyf(s), dim: anyu(s), ptl_radius: anyf(s), alpha: anyf(s), num_agent: anyu(s), dt_min: anyf(s), dt_max: anyf(s), length: anyu(s), tmax: anyf(s) },
            SetB, [sys_radius, sys_length, dim, ptl_radius, alpha, num_agent, dt_min, dt_max, length, tmax]),
        2 => set!(SetC { target_size: anyf(s) }, SetC, [target_size]),
        _ => set!(SetD { gamma: anyf(s), strength: anyf(s), num_agent: anyu(s), dim: anyu(s), sys_size: anyf(s) }, SetD, [gamma, strength, num_agent, dim, sys_size]),
    }
    // samples
    let n = s.size(1, 20);
    let kind = s.draw(3);
    let vars = if kind == 1 { 10 } else { 1 };
    let data: Vec<Vec<f64>> = (0..vars).map(|_| (0..n).map(|_| s.f64_log(1e-3, 1e3)).collect()).collect();
    let np = s.size(0, 5);
    let (ah, srow): (String, String);
    match kind {
        0 => {
            let mut a = TimeAnalysis::default();
            data[0].iter().for_each(|&x| a.add_ensemble(x));
            a.draw();
            ah = TimeAnalysis::export_form(width);
            srow = ok!(a.export_mean_stddev(width), "export", "summary");
        }
        1 => {
            let mut a = TimeVecAnalysis::default();
            for j in 0..n {
                VarN::add_ensemble(&mut a, data.iter().map(|d| d[j]).collect());
            }
            VarN::draw(&mut a);
            ah = TimeVecAnalysis::export_form(width);
            srow = ok!(a.export_mean_stddev(width), "export", "summary");
        }
        _ => {
            let mut a = ProcessAnalysis::default();
            for &x in &data[0] {
                a.add_pair(pair(1.0, x)?);
            }
            for _ in 0..np {
                VarTime::add_ensemble(&mut a);
            }
            VarTime::draw(&mut a);
            ah = ProcessAnalysis::export_form(width);
            srow = ok!(a.export_mean_stddev(width), "export", "summary");
        }
    }
    ctx.class(["single", "vector", "process"][kind as usize]);
    let mut all: Vec<String> = names.iter().map(|x| x.0.to_string()).collect();
    let stat: [&str; 3] = [["ensemble", "mean", "stddev"], ["ensemble", "meantime", "stddev"], ["ensemble", "long_term_mean", "long_term_stddev"]][kind as usize];
    all.extend(stat.iter().map(|x| x.to_string()));
    let header = format!("{}{}", fh, ah);
    ensure!(header_is(&header, &all, width), "header", "header {:?} instead of the names {:?} at width {}", header, all, width);
    let line = format!("{}{}", row, srow);
    let cells: Vec<&str> = line.split('\t').map(|x| x.trim()).filter(|x| !x.is_empty()).collect();
    let ncols = names.len() + 1 + 2 * vars;
    ensure!(cells.len() == ncols, "columns", "row {:?} has {} columns, {} are announced", line, cells.len(), ncols);
    // the announced columns, then for vectors the pair (mean, stddev) for each further variable
    for (k, (name, x)) in names.iter().enumerate() {
        let y: f64 = ok!(cells[k].parse::<f64>(), "unreadable", "column {} is {:?}", name, cells[k]);
        ensure!(y.to_bits() == x.to_bits() || y == *x, "value", "column {} is {} instead of {}: {:?}", name, y, x, line);
    }
    let k = names.len();
    let count: f64 = ok!(cells[k].parse::<f64>(), "unreadable", "ensemble {:?}", cells[k]);
    ensure!(count == if kind == 2 { np as f64 } else { n as f64 }, "ensemble", "ensemble {} of {} samples / {} processes", count, n, np);
    for v in 0..vars {
        let m: f64 = ok!(cells[k + 1 + 2 * v].parse::<f64>(), "unreadable", "mean {:?}", cells[k + 1 + 2 * v]);
        let d: f64 = ok!(cells[k + 2 + 2 * v].parse::<f64>(), "unreadable", "stddev {:?}", cells[k + 2 + 2 * v]);
        check_stats("column", m, d, &data[v])?;
    }
    // the width pads, it does not round
    let a: Vec<&str> = row.split_whitespace().collect();
    let b: Vec<&str> = row_wide.split_whitespace().collect();
    ensure!(a == b, "width-rounds", "numbers depend on the column width: {:?} {:?}", a, b);
    if n >= 2 {
        ctx.nontrivial();
    }
    Ok(())
}

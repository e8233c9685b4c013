//! Statistics for the sampling properties: every test is a z-score against a fixed threshold.

/// Standard-normal CDF (Abramowitz-Stegun 7.1.26 is too coarse; use the erfc continued expansion).
pub fn phi(x: f64) -> f64 {
    0.5 * erfc(-x / std::f64::consts::SQRT_2)
}

/// Complementary error function, relative error about 1e-7 (Numerical Recipes erfcc).
pub fn erfc(x: f64) -> f64 {
    let z = x.abs();
    let t = 1.0 / (1.0 + 0.5 * z);
    let r = t
        * (-z * z - 1.26551223
            + t * (1.00002368
                + t * (0.37409196
                    + t * (0.09678418
                        + t * (-0.18628806
                            + t * (0.27886807 + t * (-1.13520398 + t * (1.48851587 + t * (-0.82215223 + t * 0.17087277)))))))))
            .exp();
    if x >= 0.0 { r } else { 2.0 - r }
}

/// z-score of a chi-square statistic with k degrees of freedom (Wilson-Hilferty).
pub fn chi2_z(chi2: f64, k: f64) -> f64 {
    let c = 2.0 / (9.0 * k);
    ((chi2 / k).powf(1.0 / 3.0) - (1.0 - c)) / c.sqrt()
}

/// z-score of counts against equal probabilities.
pub fn chi2_uniform_z(counts: &[u64]) -> f64 {
    let n: u64 = counts.iter().sum();
    let e = n as f64 / counts.len() as f64;
    let c: f64 = counts.iter().map(|&x| (x as f64 - e).powi(2) / e).sum();
    chi2_z(c, (counts.len() - 1) as f64)
}

/// Threshold for all z-scores.
pub const Z: f64 = 6.5;

pub fn mean_var(xs: &[f64]) -> (f64, f64) {
    let n = xs.len() as f64;
    let m = xs.iter().sum::<f64>() / n;
    let v = xs.iter().map(|x| (x - m) * (x - m)).sum::<f64>() / n;
    (m, v)
}

/// Bin of u in [0,1) among n.
pub fn bin(u: f64, n: usize) -> usize {
    ((u * n as f64) as usize).min(n - 1)
}

/// Sample correlation times sqrt(n): approximately standard normal for independent samples.
pub fn corr_z(xs: &[f64], ys: &[f64]) -> f64 {
    let n = xs.len() as f64;
    let (mx, vx) = mean_var(xs);
    let (my, vy) = mean_var(ys);
    let c = xs.iter().zip(ys).map(|(x, y)| (x - mx) * (y - my)).sum::<f64>() / n;
    if vx <= 0.0 || vy <= 0.0 {
        return f64::INFINITY;
    }
    c / (vx * vy).sqrt() * n.sqrt()
}

/// Kolmogorov-Smirnov distance times sqrt(n) for samples of a uniform variable on [0,1].
/// P(K > 4.8) is about 2e-20.
pub fn ks_uniform(us: &mut Vec<f64>) -> f64 {
    us.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
    let n = us.len() as f64;
    let mut d: f64 = 0.0;
    for (i, &u) in us.iter().enumerate() {
        d = d.max((u - i as f64 / n).abs()).max(((i + 1) as f64 / n - u).abs());
    }
    d * n.sqrt()
}
pub const KS: f64 = 4.8;

/// Whether k events where lambda are expected (Poisson) has a probability below 1e-13 on its side.
pub fn poisson_rare(k: u64, lambda: f64) -> bool {
    let x = k as f64;
    if lambda <= 0.0 {
        return k > 0;
    }
    // Chernoff bound of either tail
    let e = if k == 0 { -lambda } else { x - lambda - x * (x / lambda).ln() };
    e < -30.0
}

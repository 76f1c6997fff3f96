//! Random draws: supports, moments, masks and distinctness of streams.

use crate::client::Cx;
use crate::cx::*;
use crate::ops::N;
use crate::refm::{Shp, EPS};
use crate::rt::{host, Rng};
use prima_undine::functions::{BasicFunctions, RandomDeviceFunctions};
use prima_undine::{initializers, Randomizer, Tensor};
use prima_undine_contrib::functions::ContribFunctions;
use std::collections::HashMap;

/// Draws seen in this run: long enough prefixes may not repeat.
static mut SEEN: *mut HashMap<Vec<u32>, (usize, String)> = std::ptr::null_mut();
fn seen() -> &'static mut HashMap<Vec<u32>, (usize, String)> {
    unsafe {
        if SEEN.is_null() {
            SEEN = Box::into_raw(Box::new(HashMap::new()));
        }
        &mut *SEEN
    }
}
pub fn reset() {
    seen().clear();
}

/// Sums for the moment tests, per distribution, standardised.
#[derive(Default, Clone)]
pub struct Moment {
    n: f64,
    s1: f64,
    s2: f64,
    lag: f64,
    nlag: f64,
}
static mut MOMS: *mut HashMap<String, Moment> = std::ptr::null_mut();
fn moms() -> &'static mut HashMap<String, Moment> {
    unsafe {
        if MOMS.is_null() {
            MOMS = Box::into_raw(Box::new(HashMap::new()));
        }
        &mut *MOMS
    }
}
pub fn reset_moments() {
    moms().clear();
}

/// Standardised samples (mean 0, variance 1, fourth moment `m4`) enter the running sums.
fn feed(name: &str, z: &[f64]) {
    let m = moms().entry(name.to_string()).or_default();
    for (i, &x) in z.iter().enumerate() {
        m.n += 1.;
        m.s1 += x;
        m.s2 += x * x - 1.;
        if i > 0 {
            m.lag += x * z[i - 1];
            m.nlag += 1.;
        }
    }
}
/// Elements next to each other along any axis, the batch included, are independent.
fn axes(what: &str, s: &Shp, z: &[f64]) {
    let along = |name: &str, n: usize, low: usize| {
        if n < 2 {
            return;
        }
        let m = moms().entry(format!("{} along {}", what, name)).or_default();
        for i in 0..z.len() {
            if i / low % n + 1 < n {
                m.lag += z[i] * z[i + low];
                m.nlag += 1.;
            }
        }
    };
    for d in 0..s.d.len() as u32 {
        along(["dimension 0", "dimension 1", "a higher dimension"][(d as usize).min(2)], s.dim(d) as usize, s.low(d));
    }
    along("the batch", s.b as usize, s.vol());
}
/// At the end of a run: sums within 7 standard deviations (plus slack for small samples).
pub fn check_moments() {
    let mut names: Vec<&String> = moms().keys().collect();
    names.sort();
    for k in names {
        let m = &moms()[k];
        if m.nlag >= 100. && m.lag.abs() > 7. * m.nlag.sqrt() + 25. {
            viol("random", format!("{}: draws are correlated ({:.3} over {})", k, m.lag / m.nlag, m.nlag));
        }
        if m.n < 400. {
            continue;
        }
        // variance of z^2 - 1: uniform 0.8, normal 2, bernoulli(p) at most ~ 8 for the p used
        let t1 = 7. * m.n.sqrt() + 20.;
        let t2 = 7. * (9. * m.n).sqrt() + 100.;
        if m.s1.abs() > t1 {
            viol("random", format!("{}: mean of {} draws is off by {:.2} standard errors", k, m.n, m.s1 / m.n.sqrt()));
        }
        if m.s2.abs() > t2 {
            viol("random", format!("{}: variance of {} draws is off ({:.3} instead of 1, standardised)", k, m.n, 1. + m.s2 / m.n));
        }
    }
}

fn distinct(what: &str, d: &[f64]) {
    // standardised continuous draws: 8 values do not repeat by chance (2^-96)
    if d.len() >= 8 {
        // quantised, so that one stream shows under different parameters, too
        let key: Vec<u32> = d[..8].iter().map(|x| (x * 4096.).round() as i32 as u32).collect();
        if let Some((t, w)) = seen().insert(key, (crate::rt::tid(), what.to_string())) {
            viol("random", format!("two draws gave the same values ({} in client {}, {} in client {})", w, t, what, crate::rt::tid()));
        }
    }
}

fn phi(x: f64) -> f64 {
    // Abramowitz and Stegun 26.2.17, good to 1e-7
    let t = 1. / (1. + 0.2316419 * x.abs());
    let q = (-x * x / 2.).exp() / (2. * std::f64::consts::PI).sqrt() * t * (0.319381530 + t * (-0.356563782 + t * (1.781477937 + t * (-1.821255978 + t * 1.330274429))));
    if x >= 0. {
        1. - q
    } else {
        q
    }
}

/// One draw that is large enough to be judged by itself: moments, the whole distribution
/// function, and for a bounded law the ends of the support. Each bound fails by chance with a
/// probability below 1e-12.
fn whole(what: &str, uniform: bool, z: &[f64]) {
    let n = z.len() as f64;
    if n < 300. {
        return;
    }
    hit("large-draw");
    let m = z.iter().sum::<f64>() / n;
    let v = z.iter().map(|x| x * x).sum::<f64>() / n - 1.;
    let vv: f64 = if uniform { 0.8 } else { 2. };
    if m.abs() > 7.5 / n.sqrt() || v.abs() > 9. * (vv / n).sqrt() {
        viol("random", format!("{}: standardised mean {:.3} and variance {:.3} of {} values", what, m, v + 1., n));
    }
    let mut s = z.to_vec();
    s.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let mut dist = 0f64;
    for (i, &x) in s.iter().enumerate() {
        let f = if uniform { (x / 12f64.sqrt() + 0.5).clamp(0., 1.) } else { phi(x) };
        dist = dist.max((f - i as f64 / n).abs()).max((f - (i as f64 + 1.) / n).abs());
    }
    if dist * n.sqrt() > 4.2 {
        viol("random", format!("{}: the distribution of {} values is off by {:.3}", what, n, dist));
    }
    if uniform {
        let (lo, hi) = (s[0] / 12f64.sqrt() + 0.5, 0.5 - s[s.len() - 1] / 12f64.sqrt());
        if lo.max(hi) * n > 30. {
            viol("random", format!("{}: {} values leave out {:.3} of the range", what, n, lo.max(hi)));
        }
    }
}

fn check_bern(what: &str, p: f64, s: &Shp, d: &[f32]) {
    if p > 0. && p < 1. {
        let sd = (p * (1. - p)).sqrt();
        let z: Vec<f64> = d.iter().map(|&x| (x as f64 - p) / sd).collect();
        feed(&format!("bernoulli({:.2})", p), &z);
        axes("a mask", s, &z);
        if d.len() >= 64 {
            let k: Vec<u32> = d[..64].iter().map(|&x| x.to_bits()).collect();
            // 64 fair-ish coin flips repeat with probability < 1e-12 for the p used
            if (0.3..=0.7).contains(&p) {
                if let Some((t, w)) = seen().insert(k, (crate::rt::tid(), what.to_string())) {
                    viol("random", format!("two masks are the same ({} in client {}, {} in client {})", w, t, what, crate::rt::tid()));
                }
            }
        }
    }
}
fn check_unif(what: &str, lo: f64, hi: f64, s: &Shp, d: &[f32]) {
    let (m, sd) = ((lo + hi) / 2., (hi - lo) / 12f64.sqrt());
    let z: Vec<f64> = d.iter().map(|&x| (x as f64 - m) / sd).collect();
    whole(what, true, &z);
    feed("uniform", &z);
    feed(what, &z);
    axes("a uniform draw", s, &z);
    distinct(what, &z);
}
fn check_norm(what: &str, mean: f64, sd: f64, s: &Shp, d: &[f32]) {
    let z: Vec<f64> = d.iter().map(|&x| (x as f64 - mean) / sd).collect();
    whole(what, false, &z);
    feed("normal", &z);
    feed(what, &z);
    axes("a normal draw", s, &z);
    distinct(what, &z);
}

/// Draws on a second device, or straight from a generator: these do not wait for the first one.
fn elsewhere(cx: &Cx, k: u32, shp: &Shp, r: &mut Rng) {
    let (lo, w) = (*r.pick(&[-1f32, 0., 2.5]), *r.pick(&[1f32, 0.5, 3.]));
    let p = *r.pick(&[0.5f32, 0.25, 0.75]);
    let dev = cx.other;
    let (ss, n) = (shp.sut(), shp.size());
    let direct = r.chance(1, 2);
    let k = if direct { k % 4 } else { k % 3 };
    let d = call("a draw on another device", || {
        if direct {
            let mut g = prima_undine::DefaultRandomizer::new();
            let mut d = vec![f32::NAN; n];
            match k {
                0 => g.fill_bernoulli(p, &mut d),
                1 => g.fill_uniform(lo, lo + w, &mut d),
                2 => g.fill_normal(lo, w, &mut d),
                _ => g.fill_log_normal(lo, w, &mut d),
            }
            d
        } else {
            match k {
                0 => dev.random_bernoulli(ss, p),
                1 => dev.random_uniform(ss, lo, lo + w),
                _ => dev.random_normal(ss, lo, w),
            }
            .to_vec()
        }
    });
    let mut d = match d {
        Some(d) => host(|| d.to_vec()),
        None => return,
    };
    if k == 3 {
        d.iter_mut().for_each(|x| *x = x.ln());
    }
    let ok = |x: f32| match k {
        0 => x == 0. || x == 1.,
        1 => x >= lo && x <= lo + w,
        _ => x.is_finite() && (x - lo).abs() < 12. * w,
    };
    if d.len() != n || d.iter().any(|&x| !ok(x)) {
        viol("random", format!("law {} drawn {}: {} values, or some outside the support", k, if direct { "from a generator" } else { "on another device" }, d.len()));
    }
    match k {
        0 => check_bern("a Bernoulli draw elsewhere", p as f64, shp, &d),
        1 => check_unif("a uniform draw elsewhere", lo as f64, (lo + w) as f64, shp, &d),
        _ => check_norm("a normal draw elsewhere", lo as f64, w as f64, shp, &d),
    }
    hit("draw-elsewhere");
}

/// Parameters made with the initializers, and tensors initialised again in place.
fn init(cx: &mut Cx, shp: &Shp, r: &mut Rng) {
    let dev = cx.dev;
    let kind = r.below(5);
    let sh = if kind > 1 {
        shp.withb(1)
    } else if shp.matrix() && r.chance(1, 2) {
        shp.withb(1)
    } else {
        match r.below(5) {
            0 => Shp::new(&[r.range(60, 300) as u32, r.range(1, 6) as u32], 1),
            1 => Shp::new(&[r.range(1, 6) as u32, r.range(60, 300) as u32], 1),
            2 => Shp::new(&[r.range(300, 700) as u32], 1),
            _ => Shp::new(&[r.range(1, 6) as u32, r.range(1, 6) as u32], 1),
        }
    };
    let scale = *r.pick(&[1f32, 0.5, 2.]);
    let (a, w) = (*r.pick(&[-1f32, 0., 2.5]), *r.pick(&[1f32, 0.5, 3.]));
    let ss = sh.sut();
    let t = call("new_parameter(initializer)", || {
        let p = match kind {
            0 | 1 => dev.new_parameter(ss, &initializers::XavierUniform::new(scale)),
            2 => dev.new_parameter(ss, &initializers::Uniform::new(a, a + w)),
            3 => dev.new_parameter(ss, &initializers::Normal::new(a, w)),
            _ => dev.new_parameter(ss, &initializers::Constant::new(a)),
        };
        dev.copy_tensor(&p.value)
    });
    let t = match t {
        Some(t) => t,
        None => return,
    };
    let bound = scale as f64 * (6. / (sh.dim(0) + sh.dim(1)) as f64).sqrt();
    match kind {
        0 | 1 => {
            let what = match sh.dim(0).cmp(&sh.dim(1)) {
                std::cmp::Ordering::Less => "a Xavier draw for a wide matrix",
                std::cmp::Ordering::Equal => "a Xavier draw for a square matrix",
                _ => "a Xavier draw for a tall matrix",
            };
            cx.keep_random(what, t, &sh, &|x| x.abs() as f64 <= bound * (1. + 4. * EPS), &|d| check_unif(what, -bound, bound, &sh, d))
        }
        2 => cx.keep_random("a uniform initializer", t, &sh, &|x| x >= a && x <= a + w, &|d| check_unif("a uniform initializer", a as f64, (a + w) as f64, &sh, d)),
        3 => cx.keep_random("a normal initializer", t, &sh, &|x| x.is_finite() && (x - a).abs() < 12. * w, &|d| check_norm("a normal initializer", a as f64, w as f64, &sh, d)),
        _ => cx.keep_random("a constant initializer", t, &sh, &|x| x == a, &|_| ()),
    }
}

pub fn draw(cx: &mut Cx, k: u32, shp: &Shp, r: &mut Rng) {
    if r.chance(1, 5) {
        return elsewhere(cx, k, shp, r);
    }
    let large;
    let shp = if r.chance(1, 5) {
        let n = r.range(300, 900) as u32;
        large = match r.below(4) {
            0 => Shp::new(&[n], 1),
            1 => Shp::new(&[n / 4, 4], 1 + (n % 2)),
            2 => Shp::new(&[3], n / 3 + 1),
            _ => Shp::new(&[2, n / 6 + 1, 3], 1),
        };
        &large
    } else {
        shp
    };
    let dev = cx.dev;
    let ss = shp.sut();
    match k % 8 {
        0 | 1 => {
            let p = *r.pick(&[0.5f32, 0.5, 0.25, 0.75, 0., 1.]);
            if let Some(t) = call("random_bernoulli", || dev.random_bernoulli(ss, p)) {
                cx.keep_random(&format!("random_bernoulli({})", p), t, shp, &|x| (x == 0. && p < 1.) || (x == 1. && p > 0.), &|d| check_bern("a Bernoulli draw", p as f64, shp, d));
            }
        }
        2 => {
            let lo = *r.pick(&[-1f32, 0., 2.5, -3.]);
            let hi = lo + *r.pick(&[1f32, 0.5, 6.]);
            if let Some(t) = call("random_uniform", || dev.random_uniform(ss, lo, hi)) {
                cx.keep_random("random_uniform", t, shp, &|x| x >= lo && x <= hi, &|d| check_unif("a uniform draw", lo as f64, hi as f64, shp, d));
            }
        }
        3 => {
            let m = *r.pick(&[0f32, -1., 4.]);
            let sd = *r.pick(&[1f32, 0.5, 3.]);
            if let Some(t) = call("random_normal", || dev.random_normal(ss, m, sd)) {
                cx.keep_random("random_normal", t, shp, &|x| x.is_finite() && (x - m).abs() < 12. * sd, &|d| check_norm("a normal draw", m as f64, sd as f64, shp, d));
            }
        }
        4 => {
            // degenerate normal
            if let Some(t) = call("random_normal", || dev.random_normal(ss, 1.5, 0.)) {
                cx.keep_random("random_normal(sd 0)", t, shp, &|x| x == 1.5, &|_| ());
            }
        }
        5 => init(cx, shp, r),
        _ => {
            // dropout, eager or lazy, elementwise or along a dimension
            let rate = *r.pick(&[0.5f32, 0.25, 0.75, 0.5, 0.25, 0., 1.]);
            let enabled = !r.chance(1, 10);
            let p = if enabled { 1. - rate } else { 1. };
            let node = k % 2 == 0;
            let dim = if r.chance(1, 2) { Some(r.below((shp.d.len() as u64 + 1).min(8)) as u32) } else { None };
            let data: Vec<f32> = (0..shp.size()).map(|_| 1. + r.below(8) as f32).collect();
            let t = match cx.make(&crate::refm::TVal::new(shp.clone(), data.clone())) {
                Some(t) => Box::new(t),
                None => return,
            };
            let tr: &'static Tensor<'static> = unsafe { &*(&*t as *const Tensor<'static>) };
            let y = call("dropout", || {
                if node {
                    let n = N::from(tr);
                    let z = match dim {
                        None => n.dropout(rate, enabled),
                        Some(d) => n.dropout_dim(d, rate, enabled),
                    };
                    // a second look must show the same mask, and so must the gradient
                    let a = z.to_vec();
                    z.backward();
                    let g = n.inner_gradient().to_vec();
                    (a, z.to_vec(), g)
                } else {
                    let z = match dim {
                        None => tr.dropout(rate, enabled),
                        Some(d) => tr.dropout_dim(d, rate, enabled),
                    };
                    (z.to_vec(), z.to_vec(), vec![])
                }
            });
            if let Err(p) = crate::rt::sut_try(move || drop(t)) {
                unexpected("dropping a tensor", p);
            }
            let (a, b, g) = match y {
                Some(y) => host(|| (y.0.to_vec(), y.1.to_vec(), y.2.to_vec())),
                None => return,
            };
            if !crate::refm::bits_eq(&a, &b) {
                viol("random", "evaluating the same dropout twice gives different masks".into());
            }
            let mut mask = vec![];
            for i in 0..a.len() {
                let want = data[i] as f64 / p as f64;
                let on = (a[i] as f64 - want).abs() <= 8. * EPS * want;
                if node {
                    let want = if on { 1. / p as f64 } else { 0. };
                    if g.len() != a.len() || (g[i] as f64 - want).abs() > 8. * EPS * want {
                        viol("random", format!("dropout(rate {}) gives {:?} for {:?}, but the gradient {:?}", rate, a[i], data[i], g.get(i)));
                    }
                }
                if !on && a[i] != 0. {
                    viol("random", format!("dropout(rate {}) of {:?} gives {:?}", rate, data[i], a[i]));
                }
                mask.push(if on { 1f32 } else { 0. });
            }
            match dim {
                None => check_bern("a dropout mask", p as f64, shp, &mask),
                Some(d) => {
                    let (n, low) = (shp.dim(d) as usize, shp.low(d));
                    let mut lanes = vec![];
                    for i in 0..mask.len() / n {
                        let base = (i / low) * low * n + i % low;
                        if (0..n).any(|j| mask[base + j * low] != mask[base]) {
                            viol("random", format!("dropout_dim({}) of shape {:?} is not constant along that dimension", d, shp));
                        }
                        lanes.push(mask[base]);
                    }
                    check_bern("a dropout_dim mask", p as f64, &shp.with(d, 1), &lanes);
                }
            }
            hit("dropout");
        }
    }
}

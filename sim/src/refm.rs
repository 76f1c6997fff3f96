//! Reference model: definitional f64 tensor semantics with running error bounds and a scalar
//! tape for reverse-mode derivatives. Independent of the implementation's kernels.

use serde::{Deserialize, Serialize};

pub const EPS: f64 = 1.2e-7;

/// A value with a bound on the error an f32 evaluation may have.
#[derive(Clone, Copy, Debug)]
pub struct E {
    pub v: f64,
    pub e: f64,
}
impl E {
    pub fn x(v: f64) -> E {
        E { v, e: 0. }
    }
    pub fn r(v: f64, e: f64) -> E {
        E { v, e: e + EPS * v.abs() }
    }
    pub fn add(self, o: E) -> E {
        E::r(self.v + o.v, self.e + o.e)
    }
    pub fn sub(self, o: E) -> E {
        E::r(self.v - o.v, self.e + o.e)
    }
    pub fn mul(self, o: E) -> E {
        let v = self.v * o.v;
        E::r(v, zmul(self.v.abs(), o.e) + zmul(o.v.abs(), self.e) + zmul(self.e, o.e))
    }
    pub fn div(self, o: E) -> E {
        let v = self.v / o.v;
        let den = (o.v.abs() - o.e).max(0.);
        let e = if den == 0. { if o.v == 0. { 0. } else { f64::INFINITY } } else { (self.e + v.abs() * o.e) / den };
        E::r(v, e)
    }
    pub fn neg(self) -> E {
        E { v: -self.v, e: self.e }
    }
    pub fn widen(self, e: f64) -> E {
        E { v: self.v, e: self.e + e }
    }
    /// Does an f32 result agree with this value?
    pub fn agrees(&self, a: f32) -> bool {
        let a64 = a as f64;
        if self.v.is_infinite() && self.e == 0. {
            return a64 == self.v;
        }
        if !self.v.is_finite() || !self.e.is_finite() || self.v.abs() > 1e30 {
            return true;
        }
        (a64 - self.v).abs() <= 4. * self.e + 1e-30
    }
}
fn zmul(a: f64, b: f64) -> f64 {
    if a == 0. || b == 0. {
        0.
    } else {
        a * b
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Shp {
    pub d: Vec<u32>,
    pub b: u32,
}
impl Shp {
    pub fn new(d: &[u32], b: u32) -> Shp {
        let mut d = d.to_vec();
        while d.last() == Some(&1) {
            d.pop();
        }
        Shp { d, b }
    }
    pub fn dim(&self, i: u32) -> u32 {
        self.d.get(i as usize).copied().unwrap_or(1)
    }
    pub fn vol(&self) -> usize {
        self.d.iter().map(|&x| x as usize).product()
    }
    pub fn size(&self) -> usize {
        self.vol() * self.b as usize
    }
    pub fn low(&self, dim: u32) -> usize {
        self.d.iter().take(dim as usize).map(|&x| x as usize).product()
    }
    pub fn with(&self, dim: u32, n: u32) -> Shp {
        let mut d = self.d.clone();
        while d.len() <= dim as usize {
            d.push(1);
        }
        d[dim as usize] = n;
        Shp::new(&d, self.b)
    }
    pub fn withb(&self, b: u32) -> Shp {
        Shp { d: self.d.clone(), b }
    }
    pub fn scalar(&self) -> bool {
        self.d.is_empty()
    }
    pub fn matrix(&self) -> bool {
        self.d.len() <= 2
    }
    pub fn bcompat(&self, o: &Shp) -> bool {
        self.b == o.b || self.b == 1 || o.b == 1
    }
    pub fn sut(&self) -> prima_undine::Shape {
        prima_undine::Shape::new(&self.d, self.b)
    }
    pub fn of(s: prima_undine::Shape) -> Shp {
        Shp::new(s.dims(), s.batch())
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct TVal {
    pub s: Shp,
    pub d: Vec<f32>,
}
impl TVal {
    pub fn new(s: Shp, d: Vec<f32>) -> TVal {
        assert_eq!(s.size(), d.len());
        TVal { s, d }
    }
    pub fn bits_eq(&self, o: &[f32]) -> bool {
        bits_eq(&self.d, o)
    }
}
pub fn bits_eq(a: &[f32], b: &[f32]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()))
}

pub struct Tape {
    v: Vec<E>,
    start: Vec<u32>,
    par: Vec<(u32, E)>,
}
pub type V = u32;
impl Tape {
    pub fn new() -> Tape {
        Tape { v: vec![], start: vec![0], par: vec![] }
    }
    fn push(&mut self, v: E) -> V {
        self.v.push(v);
        self.start.push(self.par.len() as u32);
        (self.v.len() - 1) as V
    }
    pub fn leaf(&mut self, v: E) -> V {
        self.push(v)
    }
    pub fn c(&mut self, v: f64) -> V {
        self.push(E::x(v))
    }
    fn un(&mut self, a: V, v: E, d: E) -> V {
        self.par.push((a, d));
        self.push(v)
    }
    fn bin(&mut self, a: V, da: E, b: V, db: E, v: E) -> V {
        self.par.push((a, da));
        self.par.push((b, db));
        self.push(v)
    }
    pub fn g(&self, a: V) -> E {
        self.v[a as usize]
    }
    pub fn add(&mut self, a: V, b: V) -> V {
        let v = self.g(a).add(self.g(b));
        self.bin(a, E::x(1.), b, E::x(1.), v)
    }
    pub fn sub(&mut self, a: V, b: V) -> V {
        let v = self.g(a).sub(self.g(b));
        self.bin(a, E::x(1.), b, E::x(-1.), v)
    }
    pub fn mul(&mut self, a: V, b: V) -> V {
        let (x, y) = (self.g(a), self.g(b));
        self.bin(a, y, b, x, x.mul(y))
    }
    pub fn div(&mut self, a: V, b: V) -> V {
        let (x, y) = (self.g(a), self.g(b));
        let q = x.div(y);
        self.bin(a, E::x(1.).div(y), b, q.div(y).neg(), q)
    }
    pub fn neg(&mut self, a: V) -> V {
        let v = self.g(a).neg();
        self.un(a, v, E::x(-1.))
    }
    pub fn sum(&mut self, xs: &[V]) -> V {
        let mut s = 0.;
        let mut e = 0.;
        let mut m = 0.;
        for &x in xs {
            let g = self.g(x);
            s += g.v;
            e += g.e;
            m += g.v.abs();
            self.par.push((x, E::x(1.)));
        }
        let n = xs.len() as f64;
        self.push(E { v: s, e: e + if xs.len() > 1 { n * EPS * m } else { 0. } })
    }
    fn f1(&mut self, a: V, v: f64, d: E, abs: f64) -> V {
        let x = self.g(a);
        let e = zmul(d.v.abs() + d.e, x.e) + abs;
        self.un(a, E::r(v, e), d)
    }
    pub fn exp(&mut self, a: V) -> V {
        let x = self.g(a);
        let v = x.v.exp();
        let e = zmul(v, x.e) * (x.e.min(10.)).exp();
        self.un(a, E::r(v, e), E::r(v, e))
    }
    pub fn ln(&mut self, a: V) -> V {
        let x = self.g(a);
        let d = E::x(1.).div(x);
        self.f1(a, x.v.ln(), d, EPS)
    }
    pub fn sqrt(&mut self, a: V) -> V {
        let x = self.g(a);
        let v = x.v.sqrt();
        // interval end points bound the error even near zero
        let e = if x.v.is_nan() { 0. } else { ((x.v + x.e).max(0.).sqrt() - (x.v - x.e).max(0.).sqrt()).abs() };
        let y = E::r(v, e);
        let d = E::x(0.5).div(y);
        self.un(a, y, d)
    }
    pub fn abs(&mut self, a: V) -> V {
        let x = self.g(a);
        let d = if x.v.abs() <= 4. * x.e || x.v == 0. { E { v: 0., e: 1. } } else { E::x(x.v.signum()) };
        self.un(a, E { v: x.v.abs(), e: x.e }, d)
    }
    pub fn sin(&mut self, a: V) -> V {
        let x = self.g(a);
        let d = E::r(x.v.cos(), x.e);
        self.f1(a, x.v.sin(), d, 0.)
    }
    pub fn cos(&mut self, a: V) -> V {
        let x = self.g(a);
        let d = E::r(-x.v.sin(), x.e);
        self.f1(a, x.v.cos(), d, 0.)
    }
    pub fn tan(&mut self, a: V) -> V {
        let x = self.g(a);
        let t = x.v.tan();
        let y = E::r(t, (1. + t * t) * x.e);
        let d = E::x(1.).add(y.mul(y));
        self.un(a, y, d)
    }
    pub fn tanh(&mut self, a: V) -> V {
        let x = self.g(a);
        let t = x.v.tanh();
        let y = E::r(t, (1. - t * t) * x.e + EPS * t.abs());
        let d = E::x(1.).sub(y.mul(y)).widen(EPS);
        self.un(a, y, d)
    }
    pub fn sigmoid(&mut self, a: V) -> V {
        let x = self.g(a);
        let s = 1. / (1. + (-x.v).exp());
        let y = E::r(s, 0.25 * x.e + EPS);
        let d = y.mul(E::x(1.).sub(y)).widen(EPS);
        self.un(a, y, d)
    }
    pub fn softplus(&mut self, a: V) -> V {
        let x = self.g(a);
        let v = x.v.max(0.) + (-x.v.abs()).exp().ln_1p();
        let s = 1. / (1. + (-x.v).exp());
        self.f1(a, v, E::r(s, 0.25 * x.e + EPS), EPS)
    }
    pub fn pow(&mut self, a: V, b: V) -> V {
        let (x, y) = (self.g(a), self.g(b));
        let v = x.v.powf(y.v);
        if x.v == 0. && x.e == 0. && y.v >= 0. {
            // the exponents met here are constants or exact
            let da = E::x(if y.v == 1. { 1. } else if y.v == 0. || y.v > 1. { 0. } else { f64::INFINITY });
            let db = E::x(if y.v == 0. { f64::NEG_INFINITY } else { 0. });
            return self.bin(a, da, b, db, E::x(v));
        }
        let lx = x.v.ln().abs();
        let rel = if x.e == 0. { 0. } else { x.e / x.v.abs() };
        let p = E::r(v, zmul(v.abs(), EPS + zmul(y.v.abs(), rel) + zmul(lx, y.e)));
        // x^(y-1): the exponent is rounded, and both powers may be too small for a normal f32
        const TINY: f64 = 1.5e-45;
        let da = p.mul(y).div(x);
        let da = da.widen(zmul(zmul(da.v.abs(), EPS * (y.v.abs() + 1.)), x.v.ln().abs()) + zmul(TINY, y.v.abs()));
        let ln = E::r(x.v.ln(), EPS + rel);
        let db = p.mul(ln).widen(zmul(TINY, ln.v.abs()));
        self.bin(a, da, b, db, E { v, e: 1.1 * p.e })
    }
    pub fn powi(&mut self, a: V, n: i32) -> V {
        let x = self.g(a);
        let v = x.v.powi(n);
        let k = (n.unsigned_abs() as f64) * EPS;
        let d = if n == 0 {
            E::x(0.)
        } else {
            let dv = n as f64 * x.v.powi(n - 1);
            let r = if x.v == 0. { 0. } else { x.e / x.v.abs() };
            E::r(dv, dv.abs() * (k + n.unsigned_abs() as f64 * r))
        };
        self.f1(a, v, d, v.abs() * k)
    }
    pub fn prelu(&mut self, a: V, k: f64) -> V {
        let x = self.g(a);
        let d = if x.v.abs() <= 4. * x.e || x.v == 0. { E { v: (1. + k) / 2., e: (1. - k).abs() / 2. + 1e-9 } } else if x.v > 0. { E::x(1.) } else { E::x(k) };
        let v = if x.v > 0. { x.v } else { k * x.v };
        self.f1(a, v, d, 0.)
    }
    pub fn elu(&mut self, a: V, k: f64) -> V {
        let x = self.g(a);
        let d = if x.v.abs() <= 4. * x.e || x.v == 0. { E { v: (1. + k) / 2., e: (1. - k).abs() / 2. + 2. * EPS * (1. + k.abs()) } } else if x.v > 0. { E::x(1.) } else { E::r(k * x.v.exp(), k.abs() * (2. * EPS + x.e)) };
        let v = if x.v > 0. { x.v } else { k * x.v.exp_m1() };
        self.f1(a, v, d, k.abs() * 2. * EPS)
    }
    /// max (sg=1) or min (sg=-1)
    pub fn ext(&mut self, xs: &[V], sg: f64) -> V {
        let mut best = self.g(xs[0]);
        for &x in xs {
            let g = self.g(x);
            if sg * g.v > sg * best.v {
                best = g;
            }
        }
        let near: Vec<V> = xs.iter().copied().filter(|&x| (self.g(x).v - best.v).abs() <= 4. * (self.g(x).e + best.e)).collect();
        let e = near.iter().map(|&x| self.g(x).e).fold(0., f64::max);
        if near.len() == 1 {
            self.par.push((near[0], E::x(1.)));
        } else {
            for &x in &near {
                self.par.push((x, E { v: 0.5, e: 0.5 }));
            }
        }
        self.push(E { v: best.v, e })
    }
    pub fn lse(&mut self, xs: &[V]) -> V {
        let m = xs.iter().map(|&x| self.g(x).v).fold(f64::NEG_INFINITY, f64::max);
        let s: f64 = xs.iter().map(|&x| (self.g(x).v - m).exp()).sum();
        let v = if m.is_infinite() { m } else { m + s.ln() };
        let mut e = 0f64;
        let mut big = 0f64;
        for &x in xs {
            let g = self.g(x);
            e = e.max(g.e);
            let p = (g.v - v).exp();
            if g.v == f64::NEG_INFINITY && v.is_finite() {
                // contributes nothing
                self.par.push((x, E::x(0.)));
                continue;
            }
            big = big.max(g.v.abs());
            let pe = p * (g.e + EPS * (g.v.abs() + v.abs()) + 2. * EPS);
            self.par.push((x, E { v: p, e: pe }));
        }
        if m == f64::NEG_INFINITY {
            return self.push(E::x(v));
        }
        self.push(E::r(v, e + EPS * big + 2. * EPS))
    }
    /// Reverse sweep: seeds are (variable, adjoint).
    pub fn reverse(&self, seeds: &[(V, E)]) -> Vec<E> {
        // values with magnitude sums, so that accumulation order does not matter
        let n = self.v.len();
        let mut s = vec![0f64; n];
        let mut e = vec![0f64; n];
        let mut m = vec![0f64; n];
        let mut k = vec![0u32; n];
        for &(x, g) in seeds {
            s[x as usize] += g.v;
            e[x as usize] += g.e;
            m[x as usize] += g.v.abs();
            k[x as usize] += 1;
        }
        let mut out = vec![E::x(0.); n];
        for i in (0..n).rev() {
            let a = E { v: s[i], e: e[i] + if k[i] > 1 { k[i] as f64 * EPS * m[i] } else { 0. } };
            out[i] = a;
            if k[i] == 0 {
                continue;
            }
            for &(p, d) in &self.par[self.start[i] as usize..self.start[i + 1] as usize] {
                if d.v == 1. && d.e == 0. {
                    s[p as usize] += a.v;
                    e[p as usize] += a.e;
                    m[p as usize] += a.v.abs();
                } else {
                    let t = a.mul(d);
                    let t = if a.v == 0. && a.e == 0. { E::x(0.) } else { t };
                    s[p as usize] += t.v;
                    e[p as usize] += t.e;
                    m[p as usize] += t.v.abs();
                }
                k[p as usize] += 1;
            }
        }
        out
    }
}

/// A tensor of tape variables.
#[derive(Clone, Debug)]
pub struct TV {
    pub s: Shp,
    pub v: Vec<V>,
}
impl TV {
    pub fn at(&self, b: usize, i: usize) -> V {
        let bb = if self.s.b == 1 { 0 } else { b };
        self.v[bb * self.s.vol() + i]
    }
}

/// Operations of the public API, fully resolved.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    Neg,
    Add,
    Sub,
    Mul,
    Div,
    AddC(f32),
    SubCL(f32),
    SubCR(f32),
    MulC(f32),
    DivCL(f32),
    DivCR(f32),
    Pow,
    Powf(f32),
    PowCL(f32),
    Powi(i32),
    Sqrt,
    Abs,
    Sin,
    Cos,
    Tan,
    Exp,
    Ln,
    Tanh,
    Sigmoid,
    Softplus,
    Sum(u32),
    Max(u32),
    Min(u32),
    Broadcast(u32, u32),
    Lse(u32),
    LnSoftmax(u32),
    Softmax(u32),
    SoftmaxCE(u32),
    SparseCE(Vec<u32>, u32),
    Matmul,
    Transpose,
    TriL(u32),
    TriU(u32),
    Relu,
    Lrelu,
    Prelu(f32),
    Elu(f32),
    Slice(u32, u32, u32),
    Split(u32, u32),
    Pick(Vec<u32>, u32),
    Concat(u32),
    Reshape(Shp),
    Flatten,
    BatchSum,
    BatchSlice(u32, u32),
    BatchSplit(u32),
    BatchPick(Vec<u32>),
    BatchConcat,
    Mean(u32),
    BatchMean,
    DropOff,
    DropAll,
    SliceSum,
    BatchNorm(f32),
    LayerNorm(f32),
    // device-level kernels without a function wrapper
    Permute(Vec<u32>),
    Flip(u32),
}

pub const NKINDS: u32 = 62;

fn ew(t: &mut Tape, a: &TV, b: &TV, f: impl Fn(&mut Tape, V, V) -> V) -> Option<TV> {
    if !a.s.bcompat(&b.s) {
        return None;
    }
    let bs = a.s.b.max(b.s.b);
    let (s, n) = if a.s.scalar() {
        (b.s.withb(bs), b.s.vol())
    } else if b.s.scalar() || a.s.d == b.s.d {
        (a.s.withb(bs), a.s.vol())
    } else {
        return None;
    };
    let mut v = Vec::with_capacity(s.size());
    for k in 0..bs as usize {
        for i in 0..n {
            let x = a.at(k, if a.s.scalar() { 0 } else { i });
            let y = b.at(k, if b.s.scalar() { 0 } else { i });
            v.push(f(t, x, y));
        }
    }
    Some(TV { s, v })
}
fn un(t: &mut Tape, a: &TV, f: impl Fn(&mut Tape, V) -> V) -> TV {
    let v = a.v.iter().map(|&x| f(t, x)).collect();
    TV { s: a.s.clone(), v }
}
/// Splits a tensor along `dim` into lanes: (output flat index, indices of the lane).
fn lanes(s: &Shp, dim: u32) -> Vec<Vec<usize>> {
    let n = s.dim(dim) as usize;
    let low = s.low(dim);
    let total = s.size();
    let mut out = vec![];
    let mut base = 0;
    while base < total {
        for j in 0..low {
            out.push((0..n).map(|i| base + j + i * low).collect());
        }
        base += low * n;
    }
    out
}
fn red(t: &mut Tape, a: &TV, dim: u32, f: impl Fn(&mut Tape, &[V]) -> V) -> TV {
    let mut v = vec![];
    for l in lanes(&a.s, dim) {
        let xs: Vec<V> = l.iter().map(|&i| a.v[i]).collect();
        v.push(f(t, &xs));
    }
    TV { s: a.s.with(dim, 1), v }
}
fn bcast(a: &TV, dim: u32, n: u32) -> Option<TV> {
    if a.s.dim(dim) != 1 || n == 0 {
        return None;
    }
    let s = a.s.with(dim, n);
    let mut v = vec![0; s.size()];
    for (o, l) in lanes(&s, dim).into_iter().enumerate() {
        for i in l {
            v[i] = a.v[o];
        }
    }
    Some(TV { s, v })
}
fn lsm(t: &mut Tape, a: &TV, dim: u32) -> Option<TV> {
    let l = red(t, a, dim, |t, xs| t.lse(xs));
    let l = bcast(&l, dim, a.s.dim(dim))?;
    ew(t, a, &l, |t, x, y| t.sub(x, y))
}
fn pick(a: &TV, ids: &[u32], dim: u32) -> Option<TV> {
    let bi = ids.len() as u32;
    if bi == 0 || !(a.s.b == bi || a.s.b == 1 || bi == 1) || ids.iter().any(|&i| i >= a.s.dim(dim)) {
        return None;
    }
    let s = a.s.with(dim, 1).withb(a.s.b.max(bi));
    let (low, n) = (a.s.low(dim), a.s.dim(dim) as usize);
    let mut v = vec![];
    for k in 0..s.b as usize {
        let id = ids[if bi == 1 { 0 } else { k }] as usize;
        for hi in 0..a.s.vol() / (low * n) {
            for j in 0..low {
                v.push(a.at(k, hi * low * n + id * low + j));
            }
        }
    }
    Some(TV { s, v })
}
fn slice(a: &TV, dim: u32, lo: u32, hi: u32) -> Option<TV> {
    if lo >= hi || hi > a.s.dim(dim) {
        return None;
    }
    let s = a.s.with(dim, hi - lo);
    let (low, n) = (a.s.low(dim), a.s.dim(dim) as usize);
    let mut v = vec![];
    for k in 0..s.b as usize {
        for h in 0..a.s.vol() / (low * n) {
            for i in lo..hi {
                for j in 0..low {
                    v.push(a.at(k, h * low * n + i as usize * low + j));
                }
            }
        }
    }
    Some(TV { s, v })
}
fn bslice(a: &TV, lo: u32, hi: u32) -> Option<TV> {
    if lo >= hi || hi > a.s.b {
        return None;
    }
    let n = a.s.vol();
    Some(TV { s: a.s.withb(hi - lo), v: a.v[lo as usize * n..hi as usize * n].to_vec() })
}
fn concat(xs: &[&TV], dim: u32) -> Option<TV> {
    let mut b = 1;
    let mut sum = 0;
    for x in xs {
        if x.s.with(dim, 1).d != xs[0].s.with(dim, 1).d {
            return None;
        }
        if x.s.b != 1 {
            if b != 1 && b != x.s.b {
                return None;
            }
            b = x.s.b;
        }
        sum += x.s.dim(dim);
    }
    let s = xs[0].s.with(dim, sum).withb(b);
    let low = xs[0].s.low(dim).max(1);
    let low = if dim as usize >= xs[0].s.d.len() { s.low(dim) } else { low };
    let mut v = vec![];
    let per = s.vol() / (low * sum as usize);
    for k in 0..b as usize {
        for h in 0..per {
            for x in xs {
                let n = x.s.dim(dim) as usize;
                for i in 0..n {
                    for j in 0..low {
                        v.push(x.at(k, h * low * n + i * low + j));
                    }
                }
            }
        }
    }
    Some(TV { s, v })
}
fn bsum(t: &mut Tape, a: &TV) -> TV {
    let n = a.s.vol();
    let v = (0..n)
        .map(|i| {
            let xs: Vec<V> = (0..a.s.b as usize).map(|k| a.v[k * n + i]).collect();
            t.sum(&xs)
        })
        .collect();
    TV { s: a.s.withb(1), v }
}
fn mulc(t: &mut Tape, a: &TV, k: f32) -> TV {
    let c = t.c(k as f64);
    un(t, a, |t, x| t.mul(x, c))
}
fn divc(t: &mut Tape, a: &TV, k: f32) -> TV {
    let c = t.c(k as f64);
    un(t, a, |t, x| t.div(x, c))
}
fn normalise(t: &mut Tape, x: &TV, m: &TV, var: &TV, eps: f32, g: &TV, b: &TV) -> Option<TV> {
    let c = t.c(eps as f64);
    let v = un(t, var, |t, x| t.add(x, c));
    let sd = un(t, &v, |t, x| t.sqrt(x));
    let sh = ew(t, x, m, |t, a, b| t.sub(a, b))?;
    let q = ew(t, &sh, &sd, |t, a, b| t.div(a, b))?;
    let gq = ew(t, g, &q, |t, a, b| t.mul(a, b))?;
    ew(t, &gq, b, |t, a, b| t.add(a, b))
}

/// Evaluates an operation on tape tensors; None if the operation is not defined for these shapes.
pub fn eval(t: &mut Tape, op: &Op, x: &[&TV]) -> Option<Vec<TV>> {
    let one = |v: TV| Some(vec![v]);
    let a = x.first()?;
    match op {
        Op::Neg => one(un(t, a, |t, x| t.neg(x))),
        Op::Add => one(ew(t, a, x.get(1)?, |t, a, b| t.add(a, b))?),
        Op::Sub => one(ew(t, a, x.get(1)?, |t, a, b| t.sub(a, b))?),
        Op::Mul => one(ew(t, a, x.get(1)?, |t, a, b| t.mul(a, b))?),
        Op::Div => one(ew(t, a, x.get(1)?, |t, a, b| t.div(a, b))?),
        Op::Pow => one(ew(t, a, x.get(1)?, |t, a, b| t.pow(a, b))?),
        Op::AddC(k) => {
            let c = t.c(*k as f64);
            one(un(t, a, |t, x| t.add(x, c)))
        }
        Op::SubCL(k) => {
            let c = t.c(*k as f64);
            one(un(t, a, |t, x| t.sub(c, x)))
        }
        Op::SubCR(k) => {
            let c = t.c(*k as f64);
            one(un(t, a, |t, x| t.sub(x, c)))
        }
        Op::MulC(k) => one(mulc(t, a, *k)),
        Op::DivCL(k) => {
            let c = t.c(*k as f64);
            one(un(t, a, |t, x| t.div(c, x)))
        }
        Op::DivCR(k) => one(divc(t, a, *k)),
        Op::Powf(k) => {
            let c = t.c(*k as f64);
            one(un(t, a, |t, x| t.pow(x, c)))
        }
        Op::PowCL(k) => {
            let c = t.c(*k as f64);
            one(un(t, a, |t, x| t.pow(c, x)))
        }
        Op::Powi(n) => one(un(t, a, |t, x| t.powi(x, *n))),
        Op::Sqrt => one(un(t, a, |t, x| t.sqrt(x))),
        Op::Abs => one(un(t, a, |t, x| t.abs(x))),
        Op::Sin => one(un(t, a, |t, x| t.sin(x))),
        Op::Cos => one(un(t, a, |t, x| t.cos(x))),
        Op::Tan => one(un(t, a, |t, x| t.tan(x))),
        Op::Exp => one(un(t, a, |t, x| t.exp(x))),
        Op::Ln => one(un(t, a, |t, x| t.ln(x))),
        Op::Tanh => one(un(t, a, |t, x| t.tanh(x))),
        Op::Sigmoid => one(un(t, a, |t, x| t.sigmoid(x))),
        Op::Softplus => one(un(t, a, |t, x| t.softplus(x))),
        Op::Sum(d) => one(red(t, a, *d, |t, v| t.sum(v))),
        Op::Max(d) => one(red(t, a, *d, |t, v| t.ext(v, 1.))),
        Op::Min(d) => one(red(t, a, *d, |t, v| t.ext(v, -1.))),
        Op::Broadcast(d, n) => one(bcast(a, *d, *n)?),
        Op::Lse(d) => one(red(t, a, *d, |t, v| t.lse(v))),
        Op::LnSoftmax(d) => one(lsm(t, a, *d)?),
        Op::Softmax(d) => {
            let l = lsm(t, a, *d)?;
            one(un(t, &l, |t, x| t.exp(x)))
        }
        Op::SoftmaxCE(d) => {
            let b = x.get(1)?;
            let l = lsm(t, a, *d)?;
            let p = ew(t, b, &l, |t, x, y| t.mul(x, y))?;
            let s = red(t, &p, *d, |t, v| t.sum(v));
            one(un(t, &s, |t, x| t.neg(x)))
        }
        Op::SparseCE(ids, d) => {
            let l = lsm(t, a, *d)?;
            let l = un(t, &l, |t, x| t.neg(x));
            one(pick(&l, ids, *d)?)
        }
        Op::Matmul => {
            let b = x.get(1)?;
            if !(a.s.matrix() && b.s.matrix() && a.s.dim(1) == b.s.dim(0) && a.s.bcompat(&b.s)) {
                return None;
            }
            let (r, c, n) = (a.s.dim(0) as usize, b.s.dim(1) as usize, a.s.dim(1) as usize);
            let bs = a.s.b.max(b.s.b);
            let mut v = vec![];
            for k in 0..bs as usize {
                for j in 0..c {
                    for i in 0..r {
                        let ps: Vec<V> = (0..n)
                            .map(|m| {
                                let (p, q) = (a.at(k, i + m * r), b.at(k, m + j * n));
                                t.mul(p, q)
                            })
                            .collect();
                        v.push(t.sum(&ps));
                    }
                }
            }
            one(TV { s: Shp::new(&[r as u32, c as u32], bs), v })
        }
        Op::Transpose => {
            if !a.s.matrix() {
                return None;
            }
            let (r, c) = (a.s.dim(0) as usize, a.s.dim(1) as usize);
            let mut v = vec![];
            for k in 0..a.s.b as usize {
                for i in 0..r {
                    for j in 0..c {
                        v.push(a.at(k, i + j * r));
                    }
                }
            }
            one(TV { s: Shp::new(&[c as u32, r as u32], a.s.b), v })
        }
        Op::TriL(k) | Op::TriU(k) => {
            if !a.s.matrix() || a.s.dim(0) != a.s.dim(1) {
                return None;
            }
            let n = a.s.dim(0) as usize;
            let low = matches!(op, Op::TriL(_));
            let mut v = vec![];
            for b in 0..a.s.b as usize {
                for j in 0..n {
                    for i in 0..n {
                        let keep = if low { i >= j + *k as usize } else { j >= i + *k as usize };
                        let y = if keep { a.at(b, i + j * n) } else { t.c(0.) };
                        v.push(y);
                    }
                }
            }
            one(TV { s: a.s.clone(), v })
        }
        Op::Relu => one(un(t, a, |t, x| t.prelu(x, 0.))),
        Op::Lrelu => one(un(t, a, |t, x| t.prelu(x, 0.01f32 as f64))),
        Op::Prelu(k) => one(un(t, a, |t, x| t.prelu(x, *k as f64))),
        Op::Elu(k) => one(un(t, a, |t, x| t.elu(x, *k as f64))),
        Op::Slice(d, l, h) => one(slice(a, *d, *l, *h)?),
        Op::Split(d, n) => {
            let tot = a.s.dim(*d);
            if *n == 0 || tot % n != 0 {
                return None;
            }
            let k = tot / n;
            (0..*n).map(|i| slice(a, *d, i * k, (i + 1) * k)).collect()
        }
        Op::Pick(ids, d) => one(pick(a, ids, *d)?),
        Op::Concat(d) => one(concat(x, *d)?),
        Op::Reshape(s) => {
            if s.size() != a.s.size() {
                return None;
            }
            one(TV { s: s.clone(), v: a.v.clone() })
        }
        Op::Flatten => one(TV { s: Shp::new(&[a.s.vol() as u32], a.s.b), v: a.v.clone() }),
        Op::BatchSum => one(bsum(t, a)),
        Op::BatchSlice(l, h) => one(bslice(a, *l, *h)?),
        Op::BatchSplit(n) => {
            if *n == 0 || a.s.b % n != 0 {
                return None;
            }
            let k = a.s.b / n;
            (0..*n).map(|i| bslice(a, i * k, (i + 1) * k)).collect()
        }
        Op::BatchPick(ids) => {
            if ids.is_empty() || ids.iter().any(|&i| i >= a.s.b) {
                return None;
            }
            let n = a.s.vol();
            let v = ids.iter().flat_map(|&i| a.v[i as usize * n..(i as usize + 1) * n].to_vec()).collect();
            one(TV { s: a.s.withb(ids.len() as u32), v })
        }
        Op::BatchConcat => {
            if x.iter().any(|y| y.s.d != a.s.d) {
                return None;
            }
            let b = x.iter().map(|y| y.s.b).sum();
            one(TV { s: a.s.withb(b), v: x.iter().flat_map(|y| y.v.clone()).collect() })
        }
        Op::Mean(d) => {
            let s = red(t, a, *d, |t, v| t.sum(v));
            one(divc(t, &s, a.s.dim(*d) as f32))
        }
        Op::BatchMean => {
            let s = bsum(t, a);
            one(divc(t, &s, a.s.b as f32))
        }
        Op::DropOff => one(mulc(t, a, 1.)),
        Op::DropAll => one(mulc(t, a, 0.)),
        Op::SliceSum => {
            let mut r = mulc(t, a, 1.);
            for y in &x[1..] {
                r = ew(t, &r, y, |t, a, b| t.add(a, b))?;
            }
            one(r)
        }
        Op::BatchNorm(eps) => {
            let (g, b) = (x.get(1)?, x.get(2)?);
            let s = bsum(t, a);
            let m = divc(t, &s, a.s.b as f32);
            let sh = ew(t, a, &m, |t, a, b| t.sub(a, b))?;
            let sq = ew(t, &sh, &sh, |t, a, b| t.mul(a, b))?;
            let s2 = bsum(t, &sq);
            let var = divc(t, &s2, a.s.b as f32);
            one(normalise(t, a, &m, &var, *eps, g, b)?)
        }
        Op::LayerNorm(eps) => {
            let (g, b) = (x.get(1)?, x.get(2)?);
            let n = a.s.vol() as f32;
            let flat = |q: &TV| TV { s: Shp::new(&[q.s.vol() as u32], q.s.b), v: q.v.clone() };
            let s = red(t, &flat(a), 0, |t, v| t.sum(v));
            let m = divc(t, &s, n);
            let sh = ew(t, a, &m, |t, a, b| t.sub(a, b))?;
            let sq = ew(t, &sh, &sh, |t, a, b| t.mul(a, b))?;
            let s2 = red(t, &flat(&sq), 0, |t, v| t.sum(v));
            let var = divc(t, &s2, n);
            one(normalise(t, a, &m, &var, *eps, g, b)?)
        }
        Op::Permute(perm) => {
            let nd = perm.len();
            if a.s.d.len() > nd {
                return None;
            }
            let mut seen = vec![false; nd];
            for &p in perm {
                if p as usize >= nd || seen[p as usize] {
                    return None;
                }
                seen[p as usize] = true;
            }
            let yd: Vec<u32> = perm.iter().map(|&p| a.s.dim(p)).collect();
            let s = Shp::new(&yd, a.s.b);
            let mut v = vec![0; s.size()];
            let vol = a.s.vol();
            for k in 0..a.s.b as usize {
                for i in 0..vol {
                    let mut r = i;
                    let mut co = vec![0usize; nd];
                    for d in 0..nd {
                        let n = a.s.dim(d as u32) as usize;
                        co[d] = r % n;
                        r /= n;
                    }
                    let mut j = 0;
                    let mut st = 1;
                    for d in 0..nd {
                        j += co[perm[d] as usize] * st;
                        st *= yd[d] as usize;
                    }
                    v[k * vol + j] = a.v[k * vol + i];
                }
            }
            one(TV { s, v })
        }
        Op::Flip(d) => {
            let mut v = vec![0; a.v.len()];
            for l in lanes(&a.s, *d) {
                let n = l.len();
                for i in 0..n {
                    v[l[i]] = a.v[l[n - 1 - i]];
                }
            }
            one(TV { s: a.s.clone(), v })
        }
    }
}

fn leaf(t: &mut Tape, x: &TVal, e: f64) -> TV {
    TV { s: x.s.clone(), v: x.d.iter().map(|&v| t.leaf(E { v: v as f64, e })).collect() }
}

/// Reference outputs of an operation on concrete operands.
pub fn forward(op: &Op, xs: &[&TVal]) -> Option<Vec<(Shp, Vec<E>)>> {
    let mut t = Tape::new();
    let ins: Vec<TV> = xs.iter().map(|x| leaf(&mut t, x, 0.)).collect();
    let r: Vec<&TV> = ins.iter().collect();
    let ys = eval(&mut t, op, &r)?;
    Some(ys.into_iter().map(|y| (y.s.clone(), y.v.iter().map(|&v| t.g(v)).collect())).collect())
}

/// Shapes only.
pub fn shapes(op: &Op, xs: &[&Shp]) -> Option<Vec<Shp>> {
    let mut t = Tape::new();
    let ins: Vec<TV> = xs.iter().map(|s| TV { s: (*s).clone(), v: (0..s.size()).map(|_| t.c(1.)).collect() }).collect();
    let r: Vec<&TV> = ins.iter().collect();
    Some(eval(&mut t, op, &r)?.into_iter().map(|y| y.s).collect())
}

/// Vector-Jacobian product: contribution of this operation to the gradient of each operand,
/// with magnitudes for the accumulation error.
pub fn vjp(op: &Op, xs: &[&TVal], gys: &[Option<&[f32]>]) -> Option<Vec<Vec<E>>> {
    let mut t = Tape::new();
    let ce = matches!(op, Op::SoftmaxCE(_));
    let ins: Vec<TV> = xs.iter().enumerate().map(|(i, x)| leaf(&mut t, x, if ce && i == 1 { 4. * EPS } else { 0. })).collect();
    let r: Vec<&TV> = ins.iter().collect();
    let ys = eval(&mut t, op, &r)?;
    let mut seeds = vec![];
    for (y, g) in ys.iter().zip(gys) {
        if let Some(g) = g {
            for (&v, &gv) in y.v.iter().zip(g.iter()) {
                seeds.push((v, E::x(gv as f64)));
            }
        }
    }
    let adj = t.reverse(&seeds);
    Some(ins.iter().map(|i| i.v.iter().map(|&v| adj[v as usize]).collect()).collect())
}

//! Choosing operations for given shapes and applying them through the public API.

use crate::refm::{Op, Shp, TVal};
use crate::rt::{mix, Rng};
use prima_undine::functions::{ArithmeticDeviceFunctions, BasicDeviceFunctions, BasicFunctions};
use prima_undine::{Node, Tensor};
use prima_undine_contrib::functions::ContribFunctions;

pub type T = Tensor<'static>;
pub type N = Node<'static, 'static>;

/// Shape from a seed: mostly small, sometimes crossing buffer-capacity classes, sometimes deep.
pub fn gen_shape(r: &mut Rng, batch: bool) -> Shp {
    let style = r.below(20);
    let mut d: Vec<u32> = vec![];
    match style {
        0 => {}
        1..=3 => d.push(r.range(1, 9) as u32),
        4..=9 => {
            d.push(r.range(1, 5) as u32);
            d.push(r.range(1, 5) as u32);
        }
        10..=14 => {
            for _ in 0..3 {
                d.push(r.range(1, 4) as u32);
            }
        }
        15 => {
            for _ in 0..4 {
                d.push(r.range(1, 3) as u32);
            }
        }
        16 => {
            let k = r.range(2, 7);
            for _ in 0..k {
                d.push(1);
            }
            d.push(r.range(2, 3) as u32);
        }
        17 => {
            let n = r.range(2, 5) as u32;
            d = vec![n, n];
        }
        18 => d = vec![*r.pick(&[60u32, 63, 64, 65, 100, 127, 128, 129])],
        _ => {
            let top = if r.chance(1, 3) { 26 } else { 12 };
            d = vec![r.range(5, top) as u32, r.range(5, top) as u32];
        }
    }
    let b = if batch && r.chance(1, 2) { r.range(2, 4) as u32 } else { 1 };
    Shp::new(&d, b)
}

/// A profile for data of a leaf: now and then masked (minus infinity) or far from zero.
pub fn leaf_prof(r: &mut Rng) -> u32 {
    match r.below(80) {
        0 => 11,
        1 => 12,
        k => k as u32 % 4,
    }
}

/// Data profiles: 0 general, 1 positive, 2 small integers (ties), 3 with zeros, 4 large magnitude,
/// 11 with masked elements, 12 with magnitudes of hundreds to hundreds of thousands.
pub fn gen_data(n: usize, seed: u64, prof: u32) -> Vec<f32> {
    let mut r = Rng::new(mix(seed, 77));
    (0..n)
        .map(|_| {
            let u = r.unit();
            match prof {
                1 => (0.1 + 2.9 * u) as f32,
                2 => (u * 5.).floor() as f32 - 2.,
                3 => {
                    if r.chance(1, 4) {
                        if r.chance(1, 2) {
                            0.
                        } else {
                            -0.
                        }
                    } else {
                        (4. * u - 2.) as f32
                    }
                }
                4 => (200. * u - 100.) as f32,
                8 => if r.chance(1, 3) { 0. } else { (0.1 + 2.9 * u) as f32 },
                10 => [1., 1.5, 2., 3.][(u * 4.) as usize],
                6 => (2. * u - 1.) as f32,
                11 => if r.chance(1, 3) { f32::NEG_INFINITY } else { (4. * u - 2.) as f32 },
                12 => ((2. * u - 1.) * 10f64.powi(2 + (seed % 4) as i32)) as f32,
                _ => (4. * u - 2.) as f32,
            }
        })
        .collect()
}

/// What a further operand of an operation must look like.
#[derive(Clone, Debug)]
pub struct Need {
    pub s: Shp,
    /// data profile if a fresh operand has to be made; 9: a distribution along the given dim
    pub prof: u32,
    pub dim: u32,
}

pub struct Plan {
    pub op: Op,
    /// profile the first operand's data must satisfy: 0 any, 1 positive, 5 nonzero, 6 |x| moderate
    pub dom: u32,
    pub more: Vec<Need>,
    /// position of the primary operand among all operands
    pub pos: usize,
}

fn need(s: Shp, prof: u32) -> Need {
    Need { s, prof, dim: 0 }
}

/// A shape an elementwise partner may have.
fn partner(r: &mut Rng, a: &Shp) -> Shp {
    let b = if a.b == 1 {
        if r.chance(1, 3) {
            r.range(2, 3) as u32
        } else {
            1
        }
    } else if r.chance(1, 2) {
        a.b
    } else {
        1
    };
    match r.below(5) {
        0 => Shp::new(&[], b),
        1 if a.scalar() => gen_shape(r, false).withb(b),
        _ => a.withb(b),
    }
}

/// Dim choice: usually a real dimension, sometimes beyond the depth.
fn dim(r: &mut Rng, a: &Shp) -> u32 {
    let n = a.d.len() as u64;
    if n == 0 || r.chance(1, 6) {
        r.below(8) as u32
    } else {
        r.below(n) as u32
    }
}
fn kconst(r: &mut Rng) -> f32 {
    *r.pick(&[0.5f32, 2., -1.5, 3., -0.25, 1., 0.1, -2.])
}

pub const KINDS: u32 = 66;

/// Total: any (kind, seed, shape) gives a legal operation, or None when the shape cannot be used.
pub fn plan(kind: u32, seed: u64, a: &Shp, graph: bool) -> Option<Plan> {
    let mut rr = Rng::new(mix(seed, 0x51A7));
    let r = &mut rr;
    // large tensors must not grow without bound
    if a.size() > 30_000 && matches!(kind % KINDS, 28 | 63 | 33 | 34 | 64 | 44 | 45 | 51 | 52) || a.size() > 250_000 {
        return None;
    }
    let mut more = vec![];
    let mut dom = 0;
    let mut pos = 0;
    let op = match kind % KINDS {
        0 => Op::Neg,
        k @ 1..=5 => {
            let p = partner(r, a);
            let op = [Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Pow][(k - 1) as usize].clone();
            pos = r.below(2) as usize;
            let prof = match op {
                Op::Div => 1,
                Op::Pow => {
                    if pos == 0 {
                        0
                    } else {
                        1
                    }
                }
                _ => r.below(4) as u32,
            };
            if op == Op::Pow && pos == 0 {
                dom = 1;
            }
            if op == Op::Pow && r.chance(1, 3) {
                // whole or half exponents of at least one; the base may be zero
                dom = 8;
                pos = 0;
                more.push(need(p, 10));
                return Some(Plan { op, dom, more, pos });
            }
            if op == Op::Div && pos == 1 {
                dom = 5;
            }
            more.push(need(p, prof));
            op
        }
        6 => Op::AddC(kconst(r)),
        7 => Op::SubCL(kconst(r)),
        8 => Op::SubCR(kconst(r)),
        9 => Op::MulC(kconst(r)),
        10 => {
            dom = 5;
            Op::DivCL(kconst(r))
        }
        11 => Op::DivCR(kconst(r)),
        12 => {
            if r.chance(1, 3) {
                dom = 8;
                Op::Powf(*r.pick(&[1f32, 2., 3., 1.5, 0.]))
            } else {
                dom = 1;
                Op::Powf(kconst(r))
            }
        }
        13 if graph => return None,
        13 => Op::PowCL(*r.pick(&[0.5f32, 2., 1.5, 3.])),
        14 => {
            if r.chance(1, 3) {
                dom = 9;
                Op::Powi(*r.pick(&[2, 3, 1, 4, 0]))
            } else {
                dom = 5;
                Op::Powi(*r.pick(&[2, 3, 1, -1, -2, 5, 4, -3]))
            }
        }
        15 => {
            dom = 1;
            Op::Sqrt
        }
        16 => Op::Abs,
        17 => Op::Sin,
        18 => Op::Cos,
        19 => {
            dom = 7;
            Op::Tan
        }
        20 => {
            dom = 6;
            Op::Exp
        }
        21 => {
            dom = 1;
            Op::Ln
        }
        22 => Op::Tanh,
        23 => Op::Sigmoid,
        24 => Op::Softplus,
        25 | 62 => Op::Sum(dim(r, a)),
        26 => Op::Max(dim(r, a)),
        27 => Op::Min(dim(r, a)),
        28 | 63 => {
            let c: Vec<u32> = (0..8).filter(|&d| a.dim(d) == 1).collect();
            if c.is_empty() {
                return None;
            }
            let d = *r.pick(&c[..c.len().min(4)]);
            Op::Broadcast(d, r.range(1, 4) as u32)
        }
        29 => Op::Lse(dim(r, a)),
        30 => Op::LnSoftmax(dim(r, a)),
        31 => Op::Softmax(dim(r, a)),
        32 => {
            let d = dim(r, a);
            let b = if a.b == 1 { r.range(1, 2) as u32 } else { *r.pick(&[1, a.b]) };
            more.push(Need { s: a.withb(b), prof: 9, dim: d });
            Op::SoftmaxCE(d)
        }
        33 => {
            let d = dim(r, a);
            let k = if a.b == 1 { r.range(1, 3) } else { *r.pick(&[1, a.b as u64]) };
            Op::SparseCE((0..k).map(|_| r.below(a.dim(d) as u64) as u32).collect(), d)
        }
        34 | 64 => {
            if !a.matrix() {
                return None;
            }
            let b = if a.b == 1 { r.range(1, 2) as u32 } else { *r.pick(&[1, a.b]) };
            pos = r.below(2) as usize;
            let o = if r.chance(1, 5) { r.range(7, 18) } else { r.range(1, 4) } as u32;
            let s = if pos == 0 { Shp::new(&[a.dim(1), o], b) } else { Shp::new(&[o, a.dim(0)], b) };
            more.push(need(s, r.below(4) as u32));
            Op::Matmul
        }
        35 => {
            if !a.matrix() {
                return None;
            }
            Op::Transpose
        }
        k @ 36..=37 => {
            if !a.matrix() || a.dim(0) != a.dim(1) {
                return None;
            }
            let n = if r.chance(1, 12) { *r.pick(&[u32::MAX, u32::MAX - 1, 1 << 31, 1000]) } else { r.below(a.dim(0) as u64 + 2) as u32 };
            if k == 36 {
                Op::TriL(n)
            } else {
                Op::TriU(n)
            }
        }
        38 => Op::Relu,
        39 => Op::Lrelu,
        40 => Op::Prelu(*r.pick(&[0.25f32, -0.5, 1.5])),
        41 => Op::Elu(*r.pick(&[1f32, 0.5, 2.])),
        42 | 65 => {
            let d = dim(r, a);
            let n = a.dim(d) as u64;
            let lo = r.below(n);
            Op::Slice(d, lo as u32, r.range(lo + 1, n) as u32)
        }
        43 => {
            let d = dim(r, a);
            let n = a.dim(d);
            let c: Vec<u32> = (1..=n).filter(|k| n % k == 0).collect();
            Op::Split(d, *r.pick(&c))
        }
        44 => {
            let d = dim(r, a);
            let k = if a.b == 1 { r.range(1, 3) } else { *r.pick(&[1, a.b as u64]) };
            Op::Pick((0..k).map(|_| r.below(a.dim(d) as u64) as u32).collect(), d)
        }
        45 => {
            let d = (dim(r, a)).min(7);
            let n = r.below(3);
            let bb = if a.b == 1 { r.range(1, 2) as u32 } else { a.b };
            for _ in 0..n {
                let b = if r.chance(1, 2) { bb } else { 1 };
                more.push(need(a.with(d, r.range(1, 3) as u32).withb(b), r.below(4) as u32));
            }
            pos = r.below(n + 1) as usize;
            Op::Concat(d)
        }
        46 => {
            // regroup all elements
            let tot = a.size() as u32;
            let mut rem = tot;
            let mut ds = vec![];
            for _ in 0..3 {
                let c: Vec<u32> = (1..=rem).filter(|k| rem % k == 0).collect();
                let k = *r.pick(&c);
                ds.push(k);
                rem /= k;
            }
            if r.chance(1, 2) {
                Op::Reshape(Shp::new(&[ds[0], ds[1], ds[2] * rem], 1))
            } else {
                Op::Reshape(Shp::new(&[ds[0], ds[1] * ds[2]], rem))
            }
        }
        47 => Op::Flatten,
        48 => Op::BatchSum,
        49 => {
            let lo = r.below(a.b as u64);
            Op::BatchSlice(lo as u32, r.range(lo + 1, a.b as u64) as u32)
        }
        50 => {
            let c: Vec<u32> = (1..=a.b).filter(|k| a.b % k == 0).collect();
            Op::BatchSplit(*r.pick(&c))
        }
        51 => {
            let k = r.range(1, 4);
            Op::BatchPick((0..k).map(|_| r.below(a.b as u64) as u32).collect())
        }
        52 => {
            let n = r.below(3);
            for _ in 0..n {
                more.push(need(a.withb(r.range(1, 3) as u32), r.below(4) as u32));
            }
            pos = r.below(n + 1) as usize;
            Op::BatchConcat
        }
        53 => Op::Mean(dim(r, a)),
        54 => Op::BatchMean,
        55 => Op::DropOff,
        56 => Op::DropAll,
        57 => {
            let n = r.below(3);
            for _ in 0..n {
                more.push(need(a.clone(), r.below(4) as u32));
            }
            pos = r.below(n + 1) as usize;
            Op::SliceSum
        }
        58 => {
            if a.b == 1 {
                return None;
            }
            more.push(need(a.withb(1), 0));
            more.push(need(a.withb(1), 0));
            Op::BatchNorm(*r.pick(&[0.1f32, 0.5]))
        }
        59 => {
            if a.vol() < 2 {
                return None;
            }
            more.push(need(a.withb(1), 0));
            more.push(need(a.withb(1), 0));
            Op::LayerNorm(*r.pick(&[0.1f32, 0.5]))
        }
        60 => {
            if graph {
                return None;
            }
            let n = (a.d.len() + r.below(2) as usize).clamp(1, 8);
            let mut p: Vec<u32> = (0..n as u32).collect();
            for i in (1..n).rev() {
                p.swap(i, r.below(i as u64 + 1) as usize);
            }
            Op::Permute(p)
        }
        _ => {
            if graph {
                return None;
            }
            Op::Flip(dim(r, a))
        }
    };
    Some(Plan { op, dom, more, pos })
}

/// Is the data usable for the plan's domain?
pub fn in_domain(dom: u32, d: &[f32]) -> bool {
    match dom {
        1 => d.iter().all(|&x| x > 0.01 && x < 1e3),
        5 => d.iter().all(|&x| x.abs() > 0.01 && x.abs() < 1e3),
        6 => d.iter().all(|&x| x.abs() < 20.),
        8 => d.iter().all(|&x| x == 0. && x.is_sign_positive() || x > 0.01 && x < 1e3),
        9 => d.iter().all(|&x| x == 0. || x.abs() > 0.01 && x.abs() < 1e3),
        7 => d.iter().all(|&x| x.abs() < 1e3 && (x as f64).cos().abs() > 0.05),
        _ => true,
    }
}

/// Data for a fresh operand.
pub fn fresh(n: &Need, seed: u64) -> TVal {
    if n.prof == 9 {
        // a probability distribution along `dim`
        let raw = gen_data(n.s.size(), seed, 1);
        let m = n.s.dim(n.dim) as usize;
        let low = n.s.low(n.dim);
        let mut d = vec![0f32; raw.len()];
        for i in 0..raw.len() {
            let (hi, j) = (i / (low * m), i % low);
            let s: f64 = (0..m).map(|k| raw[hi * low * m + k * low + j] as f64).sum();
            d[i] = (raw[i] as f64 / s) as f32;
        }
        return TVal::new(n.s.clone(), d);
    }
    TVal::new(n.s.clone(), gen_data(n.s.size(), seed, n.prof))
}

macro_rules! binop {
    ($a:expr, $b:expr, $v:expr, $op:tt) => {
        match $v % 4 {
            0 => $a.r() $op $b.r(),
            1 => $a.o() $op $b.r(),
            2 => $a.r() $op $b.o(),
            _ => $a.o() $op $b.o(),
        }
    };
}
macro_rules! constop {
    ($a:expr, $k:expr, $v:expr, $op:tt) => {
        match $v % 4 {
            0 => $a.r() $op $k,
            1 => $a.o() $op $k,
            2 => $a.r() $op &$k,
            _ => $a.o() $op &$k,
        }
    };
}
macro_rules! constop_l {
    ($a:expr, $k:expr, $v:expr, $op:tt) => {
        match $v % 4 {
            0 => $k $op $a.r(),
            1 => $k $op $a.o(),
            2 => &$k $op $a.r(),
            _ => &$k $op $a.o(),
        }
    };
}

/// An operand that can be used by reference, or by value through a private duplicate.
pub struct Arg<X: 'static> {
    pub x: *const X,
    pub dup: fn(&X) -> X,
}
impl<X> Arg<X> {
    fn r(&self) -> &'static X {
        unsafe { &*self.x }
    }
    fn o(&self) -> X {
        (self.dup)(self.r())
    }
}

fn basic<X: BasicFunctions + ContribFunctions<Output = X> + 'static>(op: &Op, x: &[Arg<X>]) -> Option<Vec<X>> {
    let a = x[0].r();
    Some(vec![match op {
        Op::Pow => a.pow(x[1].r()),
        Op::Powf(k) => a.powf(*k),
        Op::Powi(k) => a.powi(*k),
        Op::Sqrt => a.sqrt(),
        Op::Abs => a.abs(),
        Op::Sin => a.sin(),
        Op::Cos => a.cos(),
        Op::Tan => a.tan(),
        Op::Exp => a.exp(),
        Op::Ln => a.ln(),
        Op::Tanh => a.tanh(),
        Op::Sigmoid => a.sigmoid(),
        Op::Softplus => a.softplus(),
        Op::Sum(d) => a.sum(*d),
        Op::Max(d) => a.max(*d),
        Op::Min(d) => a.min(*d),
        Op::Broadcast(d, n) => a.broadcast(*d, *n),
        Op::Lse(d) => a.logsumexp(*d),
        Op::LnSoftmax(d) => a.ln_softmax(*d),
        Op::Softmax(d) => a.softmax(*d),
        Op::SoftmaxCE(d) => a.softmax_cross_entropy(x[1].r(), *d),
        Op::SparseCE(i, d) => a.sparse_softmax_cross_entropy(i, *d),
        Op::Matmul => a.matmul(x[1].r()),
        Op::Transpose => a.transpose(),
        Op::TriL(k) => a.triangular_l(*k),
        Op::TriU(k) => a.triangular_u(*k),
        Op::Relu => a.relu(),
        Op::Lrelu => a.lrelu(),
        Op::Prelu(k) => a.prelu(*k),
        Op::Elu(k) => a.elu(*k),
        Op::Slice(d, l, h) => a.slice(*d, *l, *h),
        Op::Split(d, n) => return Some(a.split(*d, *n)),
        Op::Pick(i, d) => a.pick(i, *d),
        Op::Concat(d) => {
            let v: Vec<&X> = x.iter().map(|a| a.r()).collect();
            X::concat(&v, *d)
        }
        Op::Reshape(s) => a.reshape(s.sut()),
        Op::Flatten => a.flatten(),
        Op::BatchSum => a.batch_sum(),
        Op::BatchSlice(l, h) => a.batch_slice(*l, *h),
        Op::BatchSplit(n) => return Some(a.batch_split(*n)),
        Op::BatchPick(i) => a.batch_pick(i),
        Op::BatchConcat => {
            let v: Vec<&X> = x.iter().map(|a| a.r()).collect();
            X::batch_concat(&v)
        }
        Op::Mean(d) => a.mean(*d),
        Op::BatchMean => a.batch_mean(),
        Op::DropOff => a.dropout(0.5, false),
        Op::DropAll => a.dropout(1., true),
        Op::SliceSum => {
            let v: Vec<&X> = x.iter().map(|a| a.r()).collect();
            X::slice_sum(&v)
        }
        Op::BatchNorm(e) => a.batch_normalization(x[1].r(), x[2].r(), *e, true),
        Op::LayerNorm(e) => a.layer_normalization(x[1].r(), x[2].r(), *e),
        _ => return None,
    }])
}

macro_rules! arith {
    ($op:expr, $x:expr, $v:expr) => {
        match $op {
            Op::Neg => Some(if $v % 2 == 0 { -$x[0].r() } else { -$x[0].o() }),
            Op::Add => Some(binop!($x[0], $x[1], $v, +)),
            Op::Sub => Some(binop!($x[0], $x[1], $v, -)),
            Op::Mul => Some(binop!($x[0], $x[1], $v, *)),
            Op::Div => Some(binop!($x[0], $x[1], $v, /)),
            Op::AddC(k) => Some(if $v & 4 == 0 { constop!($x[0], *k, $v, +) } else { constop_l!($x[0], *k, $v, +) }),
            Op::SubCL(k) => Some(constop_l!($x[0], *k, $v, -)),
            Op::SubCR(k) => Some(constop!($x[0], *k, $v, -)),
            Op::MulC(k) => Some(if $v & 4 == 0 { constop!($x[0], *k, $v, *) } else { constop_l!($x[0], *k, $v, *) }),
            Op::DivCL(k) => Some(constop_l!($x[0], *k, $v, /)),
            Op::DivCR(k) => Some(constop!($x[0], *k, $v, /)),
            _ => None,
        }
    };
}

fn dup_t(t: &T) -> T {
    t.device().copy_tensor(t)
}
fn view_t(t: &T) -> T {
    Tensor::from(unsafe { &*(t as *const T) })
}
fn dup_n(n: &N) -> N {
    n.reshape(n.shape())
}

/// Applies an operation to tensors. Must be called under `sut`.
pub fn apply_t(op: &Op, xs: &[&T], variant: u32) -> Vec<T> {
    // an operand passed by value is a copy, or a view, which the operation must not take for its own
    let dup = if variant & 8 != 0 { view_t } else { dup_t };
    let x: Vec<Arg<T>> = xs.iter().map(|t| Arg { x: *t as *const T, dup }).collect();
    if let Some(y) = arith!(op, x, variant) {
        return vec![y];
    }
    let dev = xs[0].device();
    match op {
        Op::PowCL(k) => return vec![unsafe { std::mem::transmute::<Tensor, T>(dev.powf_const_l_fw(xs[0], *k)) }],
        Op::Permute(p) => {
            let s = Shp::of(xs[0].shape());
            let yd: Vec<u32> = p.iter().map(|&i| s.dim(i)).collect();
            let mut y = dev.new_tensor(Shp::new(&yd, s.b).sut());
            y.alloc();
            let pp: Vec<u32> = p.clone();
            dev.call_fw_impl("permute_dims_fw_impl", &[xs[0]], &pp, &[], &mut [&mut y]);
            return vec![y];
        }
        Op::Flip(d) => {
            let mut y = dev.new_tensor(xs[0].shape());
            y.alloc();
            dev.call_fw_impl("flip_fw_impl", &[xs[0]], &[*d], &[], &mut [&mut y]);
            return vec![y];
        }
        _ => {}
    }
    basic(op, &x).expect("operation has no eager form")
}

/// Applies an operation to graph nodes. Must be called under `sut`.
pub fn apply_n(op: &Op, xs: &[&N], variant: u32) -> Vec<N> {
    let x: Vec<Arg<N>> = xs.iter().map(|t| Arg { x: *t as *const N, dup: dup_n }).collect();
    if let Some(y) = arith!(op, x, variant) {
        return vec![y];
    }
    if let Op::PowCL(_) = op {
        unreachable!()
    }
    basic(op, &x).expect("operation has no graph form")
}

/// Kinds (see `plan`) whose gradient the device computes with kernels of its own.
pub const BW_KINDS: &[u32] = &[13, 60, 61, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 26, 27, 34, 35, 36, 37, 38, 39, 40, 41, 42, 44, 49, 51];

/// Calls the backward kernel of an operation for operand `which`. False if there is none for
/// these operands. Must be called under `sut`.
pub fn apply_bw(op: &Op, x: &[&T], y: &T, gy: &T, which: usize, g: &mut T) -> bool {
    let dev = gy.device();
    macro_rules! ab {
        ($fa:ident, $fb:ident) => {{
            if which == 0 {
                dev.$fa(x[0], x[1], y, gy, g)
            } else {
                dev.$fb(x[0], x[1], y, gy, g)
            }
        }};
    }
    match op {
        Op::Neg => dev.neg_bw(x[0], y, gy, g),
        Op::Add => ab!(add_bw_a, add_bw_b),
        Op::Sub => ab!(sub_bw_a, sub_bw_b),
        Op::Mul => ab!(mul_bw_a, mul_bw_b),
        Op::Div => ab!(div_bw_a, div_bw_b),
        Op::Pow => ab!(powf_bw_a, powf_bw_b),
        Op::Matmul => ab!(matmul_bw_a, matmul_bw_b),
        Op::AddC(k) => dev.add_const_bw(x[0], y, gy, *k, g),
        Op::SubCL(k) => dev.sub_const_l_bw(x[0], y, gy, *k, g),
        Op::SubCR(k) => dev.sub_const_r_bw(x[0], y, gy, *k, g),
        Op::MulC(k) => dev.mul_const_bw(x[0], y, gy, *k, g),
        Op::DivCL(k) => dev.div_const_l_bw(x[0], y, gy, *k, g),
        Op::DivCR(k) => dev.div_const_r_bw(x[0], y, gy, *k, g),
        Op::Powf(k) => dev.powf_const_r_bw(x[0], y, gy, *k, g),
        Op::PowCL(k) => dev.powf_const_l_bw(x[0], y, gy, *k, g),
        Op::Powi(k) => dev.powi_bw(x[0], y, gy, *k, g),
        Op::Sqrt => dev.sqrt_bw(x[0], y, gy, g),
        Op::Abs => dev.abs_bw(x[0], y, gy, g),
        Op::Sin => dev.sin_bw(x[0], y, gy, g),
        Op::Cos => dev.cos_bw(x[0], y, gy, g),
        Op::Tan => dev.tan_bw(x[0], y, gy, g),
        Op::Exp => dev.exp_bw(x[0], y, gy, g),
        Op::Ln => dev.ln_bw(x[0], y, gy, g),
        Op::Tanh => dev.tanh_bw(x[0], y, gy, g),
        Op::Sigmoid => dev.sigmoid_bw(x[0], y, gy, g),
        Op::Max(d) => dev.max_bw(x[0], y, gy, *d, g),
        Op::Min(d) => dev.min_bw(x[0], y, gy, *d, g),
        Op::Transpose => dev.transpose_bw(x[0], y, gy, g),
        Op::TriL(k) => dev.triangular_l_bw(x[0], y, gy, *k, g),
        Op::TriU(k) => dev.triangular_u_bw(x[0], y, gy, *k, g),
        Op::Relu => dev.prelu_bw(x[0], y, gy, 0., g),
        Op::Lrelu => dev.prelu_bw(x[0], y, gy, 0.01, g),
        Op::Prelu(k) => dev.prelu_bw(x[0], y, gy, *k, g),
        Op::Elu(k) => dev.elu_bw(x[0], y, gy, *k, g),
        Op::Slice(d, l, _) => dev.slice_bw(gy, *d, *l, g),
        Op::Pick(i, d) => dev.pick_bw(gy, i, *d, g),
        Op::BatchSlice(l, _) => dev.batch_slice_bw(gy, *l, g),
        Op::BatchPick(i) => dev.batch_pick_bw(gy, i, g),
        Op::Permute(p) => dev.call_bw_impl("permute_dims_bw_impl", x, &[y], &[gy], p, &[], g),
        Op::Flip(d) => dev.call_bw_impl("flip_bw_impl", x, &[y], &[gy], &[*d], &[], g),
        _ => return false,
    }
    true
}
/// Whether `apply_bw` takes these operand shapes.
pub fn has_bw(op: &Op, xs: &[&Shp]) -> bool {
    match op {
        Op::Add | Op::Sub | Op::Mul | Op::Div | Op::Pow => xs[0].d == xs[1].d,
        _ => true,
    }
}

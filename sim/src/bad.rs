//! Calls that violate a precondition: each must be refused by a panic and leave everything as it
//! was.

use crate::client::Cx;
use crate::cx::*;
use crate::ops::{gen_data, gen_shape, N};
use crate::refm::{Shp, TVal};
use crate::rt::{host, mix, sut_try, Rng};
use prima_undine::functions::{BasicDeviceFunctions, BasicFunctions, RandomDeviceFunctions};
use prima_undine::{Shape, Tensor};

/// From here on: misfits derived from valid operations.
const FIXED: u32 = 70;
pub const BADS: u32 = 136;

struct Bad<'a> {
    cx: &'a mut Cx,
    name: &'static str,
}

/// Runs a call that must be refused.
pub fn refuse<R>(name: &str, detail: &str, f: impl FnOnce() -> R) -> bool {
    match sut_try(f) {
        Ok(r) => {
            std::mem::forget(r);
            viol("not-rejected", format!("{} was accepted", detail));
        }
        Err(p) if p.injected => false,
        // the check of a debug build is not the library's: an optimised build goes on
        Err(p) if name.ends_with("does not fit") && p.msg.contains("with overflow") => viol("not-rejected", format!("{} is only noticed in builds with overflow checks ({})", name, p.msg)),
        Err(_) => {
            stats().rejected += 1;
            *stats().ops.entry(format!("bad.{}", name)).or_insert(0) += 1;
            true
        }
    }
}

/// Runs a call that may be refused: None where a fault was injected.
fn refuse_or(f: impl FnOnce()) -> Option<bool> {
    match sut_try(f) {
        Ok(()) => Some(true),
        Err(p) if p.injected => None,
        Err(_) => Some(false),
    }
}

fn differ(r: &mut Rng, s: &Shp) -> Shp {
    // a shape an elementwise partner may not have: neither scalar, nor equal dims
    loop {
        let t = gen_shape(r, false);
        if !t.scalar() && t.d != s.d {
            return t;
        }
    }
}

pub fn do_bad(cx: &mut Cx, k: u32, a: u32, s: u64) {
    if k >= FIXED {
        return crate::misfit::misfit(cx, mix(s, k as u64));
    }
    fn refuse<R>(name: &str, f: impl FnOnce() -> R) -> bool {
        self::refuse(name, name, f)
    }
    let mut rr = Rng::new(mix(s, 91));
    let r = &mut rr;
    let b = Bad { cx, name: "" };
    let dev = b.cx.dev;
    let other = b.cx.other;
    let _ = b.name;
    // operands are private, except that the primary one is often an existing tensor
    let mk = |sh: &Shp, seed: u64| -> Option<Box<Tensor<'static>>> {
        let (ss, d) = (sh.sut(), gen_data(sh.size(), seed, 1));
        call("new_tensor_by_slice", || dev.new_tensor_by_slice(ss, &d)).map(Box::new)
    };
    let mut xs = gen_shape(r, true);
    if xs.scalar() {
        xs = Shp::new(&[3, 2], xs.b);
    }
    let batched = xs.withb(r.range(2, 4) as u32);
    let (d, n) = {
        let d = r.below(xs.d.len().max(1) as u64 + 1) as u32;
        (d, xs.dim(d))
    };
    let bad_b = batched.withb(batched.b + 1);
    let sh: &Shp = match k % FIXED {
        1 | 16 | 17 | 18 | 27 | 45 => &batched,
        _ => &xs,
    };
    let x = match mk(sh, mix(s, 1)) {
        Some(x) => x,
        None => return,
    };
    let xv = TVal::new(sh.clone(), gen_data(sh.size(), mix(s, 1), 1));
    // second operand for those that need one
    let ys: Shp = match k % FIXED {
        0 | 2 | 3 | 4 | 25 | 26 | 38 | 39 | 48 => differ(r, sh),
        1 | 27 | 45 => bad_b.clone(),
        5 => Shp::new(&[sh.dim(1) + 1, 2], 1),
        6 => Shp::new(&[2, 2, 2], 1),
        11 => {
            // same rank, another extent in a dimension that is not concatenated
            let mut t = sh.clone();
            let o = (0..4).find(|&o| o != d).unwrap();
            t = t.with(o, t.dim(o) + 1);
            t.withb(1)
        }
        18 => batched.with(1, batched.dim(1) + 2),
        40 => sh.clone(),
        _ => Shp::new(&[2, 2], 1),
    };
    let y = match mk(&ys, mix(s, 2)) {
        Some(y) => y,
        None => {
            let _ = sut_try(move || drop(x));
            return;
        }
    };
    let yv = TVal::new(ys.clone(), gen_data(ys.size(), mix(s, 2), 1));
    let mut foreign = None;
    if let 28..=30 = k % FIXED {
        let (ss, d) = (sh.sut(), gen_data(sh.size(), 5, 1));
        foreign = call("new_tensor_by_slice", || other.new_tensor_by_slice(ss, &d)).map(Box::new);
        if foreign.is_none() {
            let _ = sut_try(move || drop((x, y)));
            return;
        }
    }
    let node = |t: &Tensor<'static>| -> N { N::from(unsafe { &*(t as *const Tensor<'static>) }) };
    let mut xm: Box<Tensor<'static>> = x;
    let half = (mix(s, 3) % 2) as u32;
    let _ = a;
    {
        let x: &'static mut Tensor<'static> = unsafe { &mut *(&mut *xm as *mut _) };
        let y: &'static Tensor<'static> = unsafe { &*(&*y as *const _) };
        match k % FIXED {
            0 => refuse("adding tensors of different dimensions", || &*x + y),
            1 => refuse("multiplying tensors of different batch sizes", || &*x * y),
            2 => refuse("subtracting tensors of different dimensions", || &*x - y),
            3 => refuse("dividing tensors of different dimensions", || &*x / y),
            4 => refuse("raising to a power of different dimensions", || x.pow(y)),
            5 => refuse("a matrix product with mismatched inner dimensions", || x.matmul(y)),
            6 => refuse("a matrix product with a rank 3 tensor", || y.matmul(&*x)),
            7 => refuse("a slice beyond the extent", || x.slice(d, 0, n + 1)),
            8 => refuse("an empty slice", || x.slice(d, half.min(n), half.min(n))),
            9 => refuse("a split that does not divide", || x.split(d, n + 1)),
            10 => refuse("picking beyond the extent", || if half == 0 { x.pick(&[n], d) } else { x.pick(&[0, n + 3], d) }),
            11 => refuse("concatenating mismatched tensors", || Tensor::concat(&[&*x, y], d)),
            12 => refuse("a reshape to another size", || x.reshape(Shape::new(&[sh.size() as u32 + 1], 1))),
            13 => refuse("broadcasting a dimension that is not 1", || {
                let q = (0..8).find(|&q| sh.dim(q) != 1).unwrap();
                x.broadcast(q, 3)
            }),
            14 => refuse("transposing a rank 3 tensor", || {
                let t = dev.new_tensor_by_constant(Shape::new(&[2, 1, 2], 1), 1.);
                t.transpose()
            }),
            15 => refuse("the triangle of a non-square matrix", || {
                let t = dev.new_tensor_by_constant(Shape::new(&[2, 3], 1), 1.);
                if half == 0 {
                    t.triangular_l(0)
                } else {
                    t.triangular_u(0)
                }
            }),
            16 => refuse("a batch slice beyond the batch", || x.batch_slice(half, batched.b + 1)),
            17 => refuse("picking a batch that does not exist", || x.batch_pick(&[0, batched.b])),
            18 => refuse("concatenating batches of different dimensions", || Tensor::batch_concat(&[&*x, y])),
            19 => refuse("filling from a slice of the wrong length", || dev.reset_tensor_by_slice(x, &gen_data(sh.size() + 1 + half as usize, 1, 0))),
            20 => refuse("filling from a tensor of another size", || {
                let t = dev.new_tensor_by_constant(Shape::new(&[sh.size() as u32 + 1], 1), 1.);
                dev.reset_tensor_by_tensor(x, &t)
            }),
            21 => refuse("reading a float from a larger tensor", || {
                let t = dev.new_tensor_by_constant(Shape::new(&[2], 1 + half), 1.);
                t.to_float()
            }),
            22 => refuse("allocating an allocated tensor", || x.alloc()),
            23 => refuse("replacing an allocated tensor", || {
                let t = dev.copy_tensor(x);
                x.replace(t)
            }),
            24 => refuse("changing the shape to another size", || x.update_shape(Shape::new(&[sh.size() as u32 + 2], 1))),
            25 => refuse("+= of different dimensions", || *x += y),
            26 => refuse("-= of different dimensions", || *x -= y),
            27 => refuse("+= / -= of different batch sizes", || {
                if half == 0 {
                    *x += y
                } else {
                    *x -= y
                }
            }),
            28 => refuse("mixing devices", || &*x + &**foreign.as_ref().unwrap()),
            29 => refuse("mixing devices in +=", || *x += &**foreign.as_ref().unwrap()),
            30 => refuse("mixing devices in a matrix product or concatenation", || {
                let f = &**foreign.as_ref().unwrap();
                if half == 0 {
                    Tensor::concat(&[&*x, f], 0)
                } else {
                    x.softmax_cross_entropy(f, 0)
                }
            }),
            31 => refuse("a batched parameter", || {
                let s2 = Shape::new(&[2], 2 + half);
                dev.new_parameter(s2, &prima_undine::initializers::Constant::new(0.))
            }),
            32 => refuse("adding a statistic twice", || {
                let s2 = Shape::new(&[2], 1);
                let mut p = dev.new_parameter(s2, &prima_undine::initializers::Constant::new(0.));
                p.add_stat("x", s2);
                p.add_stat("x", s2);
            }),
            33 => refuse("a negative optimiser setting", || {
                use prima_undine::OptimizerBase;
                let mut o = prima_undine::optimizers::SGD::new(1.);
                match mix(s, 9) % 3 {
                    0 => o.set_weight_decay(-1.),
                    1 => o.set_gradient_clipping(-0.5),
                    _ => o.set_learning_rate_scaling(-2.),
                }
            }),
            34 => refuse("reading a tensor without contents", || {
                let t = dev.new_tensor(Shape::new(&[2, 2], 1));
                t.to_vec()
            }),
            35 => refuse("computing with a tensor without contents", || {
                let t = dev.new_tensor(sh.sut());
                &*x + &t
            }),
            36 => refuse("a sparse target beyond the extent", || x.sparse_softmax_cross_entropy(&[n], d)),
            37 => refuse("a wrong number of picked indices", || {
                let t = dev.new_tensor_by_constant(Shape::new(&[3], 3), 1.);
                t.pick(&[0, 1], 0)
            }),
            38 => refuse("a cross entropy with a target of other dimensions", || x.softmax_cross_entropy(y, 0)),
            39 => refuse("graph: adding nodes of different dimensions", || node(x) + node(y)),
            40 => refuse("reducing beyond the deepest dimension", || x.sum(8 + half)),
            41 => refuse("graph: a slice beyond the extent", || node(x).slice(d, 0, n + 1)),
            42 => refuse("graph: picking beyond the extent", || node(x).pick(&[n], d)),
            43 => refuse("graph: a split that does not divide", || node(x).split(d, n + 1)),
            44 => refuse("graph: a reshape to another size", || node(x).reshape(Shape::new(&[sh.size() as u32 + 1], 1))),
            45 => refuse("graph: nodes of different batch sizes", || node(x) * node(y)),
            46 => refuse("a Bernoulli probability outside [0, 1]", || if half == 0 { dev.random_bernoulli(sh.sut(), 1.5) } else { dev.random_bernoulli(sh.sut(), -0.5) }),
            47 => refuse("an empty uniform range", || dev.random_uniform(sh.sut(), 1., 1. - half as f32)),
            48 => refuse("graph: a matrix product of mismatched shapes", || {
                let t = dev.new_tensor_by_constant(Shape::new(&[sh.dim(1) + 1, 2], 1), 1.);
                let z = node(x).matmul(node(&t));
                z.forward();
            }),
            49 => refuse("a negative standard deviation", || dev.random_normal(sh.sut(), 0., -1. - half as f32)),
            50 => refuse("an impossible shape", || match mix(s, 9) % 4 {
                0 => Shape::new(&[2, 0], 1),
                1 => Shape::new(&[2], 0),
                2 => Shape::new(&[1; 9], 1),
                _ => Shape::new(&[2], 1).resize_dim(8, 2),
            }),
            51 => refuse("an empty concatenation", || {
                if half == 0 {
                    Tensor::concat(&[], 0)
                } else {
                    Tensor::batch_concat(&[])
                }
            }),
            52 => refuse("a backward kernel with a gradient of another shape", || {
                let mut g = dev.new_tensor_by_constant(Shape::new(&[sh.size() as u32 + 1], 1), 0.);
                dev.sqrt_bw(x, x, x, &mut g)
            }),
            53 => refuse("a Xavier initialiser for a rank 3 parameter", || dev.new_parameter(Shape::new(&[2, 2, 2], 1), &prima_undine::initializers::XavierUniform::new(1.))),
            54 => refuse("moving a tensor that is already on a device", || x.move_to_device(dev)),
            55 => refuse("a shape whose element count does not fit", || {
                let q = mix(s, 10);
                let big = [1u32 << 16, (1 << 16) + 1, 3 << 15, 1 << 20][(q / 16 % 4) as usize];
                match q % 6 {
                    0 => Shape::new(&[big, 1 << 16], 1),
                    1 => Shape::new(&[big, 2], 1 << 15 | (q >> 20) as u32 % 99),
                    2 => Shape::new(&[3], big).resize_dim(1 + half, 1 << 15),
                    3 => Shape::new(&[big, 3], 1).resize_batch(1 << 15),
                    4 => Shape::new(&[1 << 11, 1 << 11, 1 << half], 1 << 10 | (q >> 20) as u32 % 9),
                    _ => Shape::new(&[u32::MAX, 2 + half], 1),
                }
            }),
            56 => refuse("a broadcast whose element count does not fit", || {
                let q = (0..8).find(|&q| sh.dim(q) == 1).unwrap();
                let m = u32::MAX / sh.size() as u32 + 1 + (mix(s, 10) % 3) as u32;
                if half == 0 {
                    drop(x.broadcast(q, m))
                } else {
                    drop(node(x).broadcast(q, m))
                }
            }),
            57 => refuse("referring into an allocated tensor", || {
                let t: &'static Tensor<'static> = y;
                let mut z = dev.new_tensor_by_constant(t.shape(), 0.);
                z.refer(t)
            }),
            58 => refuse("referring to a tensor without contents", || {
                let t = dev.new_tensor(ys.sut());
                let t: &'static Tensor<'static> = unsafe { &*(&t as *const _) };
                let mut z = dev.new_tensor(t.shape());
                z.refer(t)
            }),
            59 => match call("new_handle", || other.new_handle(sh.size() as u32)) {
                // the other device is private to the harness: its buffers are not in the ledger
                Some(h) => {
                    let ok = refuse("releasing a buffer of another device", || dev.drop_handle(&h));
                    call("drop_handle", || other.drop_handle(&h));
                    ok
                }
                None => false,
            },
            60 | 61 => refuse("a parameter with a gradient of another shape or device", || {
                let d = if half == 0 { dev } else { other };
                let s = sh.withb(1);
                let mut t = s.clone();
                if half == 0 {
                    t = t.with(0, s.dim(0) + 1);
                }
                let v = dev.new_tensor_by_constant(s.sut(), 1.);
                let g = d.new_tensor_by_constant(t.sut(), 0.);
                prima_undine::Parameter::new(v, g)
            }),
            62 => refuse("a concatenation whose element count does not fit", || {
                // one tensor many times over: the operands themselves are small
                let n = 1u32 << 16;
                let many = (n + (mix(s, 10) % 2) as u32) as usize;
                match mix(s, 11) % 4 {
                    0 => {
                        let t = dev.new_tensor_by_constant(Shape::new(&[n], 1), 1.);
                        drop(Tensor::concat(&vec![&t; many], 0))
                    }
                    1 => {
                        let t = dev.new_tensor_by_constant(Shape::new(&[], n), 1.);
                        drop(Tensor::batch_concat(&vec![&t; many]))
                    }
                    q => {
                        let s = if q == 2 { Shape::new(&[n], 1) } else { Shape::new(&[], n) };
                        let t = N::from(dev.new_tensor_by_constant(s, 1.));
                        if q == 2 {
                            drop(N::concat(&vec![&t; many], 0))
                        } else {
                            drop(N::batch_concat(&vec![&t; many]))
                        }
                    }
                }
            }),
            63 => refuse("an operation the device does not implement", || {
                let t = dev.copy_tensor(y);
                match mix(s, 12) % 4 {
                    0 => dev.call_fw_impl("no_such_impl", &[&t], &[0], &[1.], &mut [x]),
                    1 => dev.call_fw_u32_impl("no_such_impl", &[&t], &[0], &[1.], &mut [0]),
                    2 => dev.call_fw_f32_impl("no_such_impl", &[&t], &[0], &[1.], &mut [0.]),
                    _ => dev.call_bw_impl("no_such_impl", &[&t], &[&t], &[&t], &[0], &[1.], x),
                }
            }),
            64 => refuse("a buffer larger than the largest class", || dev.new_handle((1 << 31) + 1 + (mix(s, 12) % ((1 << 31) - 1)) as u32)),
            65 => refuse("an empty buffer", || dev.new_handle(0)),
            66 => {
                // a parameter that lives on another device: refused, or really moved
                let ps = sh.withb(1);
                let d = gen_data(ps.size(), mix(s, 18), 1);
                let made = sut_try(|| {
                    let mut p = prima_undine::Parameter::new(dev.new_tensor_by_slice(ps.sut(), &d), dev.new_tensor_by_constant(ps.sut(), 0.5));
                    if half == 0 {
                        p.add_stat("somewhere", Shape::new(&[2], 1));
                    }
                    p
                });
                match made {
                    Err(p) => {
                        if !p.injected {
                            unexpected("making a parameter", p);
                        }
                        false
                    }
                    Ok(mut p) => {
                        let moved = refuse_or(|| p.move_to_device(other));
                        if let Some(moved) = moved {
                            let on = host(|| std::ptr::eq(p.value.device(), other) && std::ptr::eq(p.gradient.device(), other));
                            if moved && !on {
                                viol("not-rejected", "moving a parameter to another device was accepted, but it stayed where it was".to_string());
                            }
                            if !moved {
                                stats().rejected += 1;
                                *stats().ops.entry("bad.moving a parameter that is on another device".into()).or_insert(0) += 1;
                            }
                            match sut_try(|| (p.value.to_vec(), p.gradient.to_vec())) {
                                Ok((v, g)) => {
                                    if !crate::refm::bits_eq(&v, &d) || g.iter().any(|&x| x != 0.5) {
                                        viol("not-rejected", "a move to another device changed a parameter".to_string());
                                    }
                                }
                                Err(e) if e.injected => {}
                                Err(e) => unexpected("reading a parameter after a refused move", e),
                            }
                        }
                        let _ = sut_try(move || drop(p));
                        true
                    }
                }
            }
            _ => crate::optim::bad_update(dev, other, &sh.withb(1), mix(s, 17)),
        };
    }
    same("an operand of a refused call", &xm, &xv);
    same("an operand of a refused call", &y, &yv);
    if let Err(p) = sut_try(move || drop((xm, y))) {
        unexpected("dropping an operand of a refused call", p);
    }
    if let Some(f) = foreign {
        let _ = sut_try(move || drop(f));
    }
    let _ = host(|| 0);
    // whatever the client holds is untouched
    b.cx.audit_some(mix(s, 7));
}

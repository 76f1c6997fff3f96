//! Long define-by-run graphs: thousands of dependent nodes, with joins that double the number of
//! paths. Every node is a linear function of the input, so the value and the derivative of each
//! are known in closed form; evaluation, differentiation and release have to cope with the length.

use crate::client::Cx;
use crate::cx::*;
use crate::ops::{gen_data, N};
use crate::refm::{Shp, TVal, E, EPS};
use crate::rt::{host, mix, sut_try, Rng};
use prima_undine::functions::BasicFunctions;

/// What a node is: `a * x + b` elementwise, with bounds on all intermediate magnitudes.
#[derive(Clone, Copy)]
struct Lin {
    a: f64,
    b: f64,
    /// bound on the sum of the absolute path products
    m: f64,
    /// accumulated relative error
    e: f64,
}

pub fn run(cx: &mut Cx, n: u32, s: u64) {
    let mut r = Rng::new(mix(s, 0xC4A1));
    let sh = Shp::new(&[r.range(1, 3) as u32], r.range(1, 2) as u32);
    let xv = TVal::new(sh.clone(), gen_data(sh.size(), s, 0));
    let t = match cx.make(&xv) {
        Some(t) => Box::new(t),
        None => return,
    };
    let tr: &'static T = unsafe { &*(&*t as *const T) };
    body(cx, tr, &xv, &sh, n, &mut r);
    same("the input of a long graph", tr, &xv);
    if let Err(p) = sut_try(move || drop(t)) {
        unexpected("dropping a tensor", p);
    }
}

fn again<R>(cx: &Cx, what: &str, mut f: impl FnMut() -> R) -> R {
    for _ in 0..cx.fault_budget() + 2 {
        if let Some(r) = call(what, &mut f) {
            return r;
        }
    }
    viol("no-progress", format!("{} still fails after the last injected fault", what));
}

fn body(cx: &mut Cx, tr: &'static T, xv: &TVal, sh: &Shp, n: u32, r: &mut Rng) {
    let x = again(cx, "Node::from(&tensor)", || N::from(tr));
    let mut kept: Vec<(N, Lin)> = vec![];
    let one = Lin { a: 1., b: 0., m: 1., e: 0. };
    let (mut head, mut l) = (again(cx, "1 * node", || 1. * &x), one);
    let every = *r.pick(&[0u32, 0, n / 2 + 1, n / 5 + 2, n / 20 + 3]);
    let (nk, style) = (r.below(4) as usize, r.below(4));
    for i in 0..n {
        let k = if l.m > 50. { 0 } else { r.below(if style == 0 { 3 } else { 8 }) };
        let step = |v: Lin| Lin { e: v.e + EPS * v.m * 4., ..v };
        let (y, ny) = match k {
            0 => (call("node * k", || &head * 0.5), Lin { a: l.a * 0.5, b: l.b * 0.5, m: l.m * 0.5, e: l.e * 0.5 }),
            1 => (call("node + k", || &head + 0.25), Lin { b: l.b + 0.25, m: l.m + 0.25, ..l }),
            2 => (call("-node", || -&head), Lin { a: -l.a, b: -l.b, ..l }),
            3 | 4 => (call("node + node", || &head + &head), Lin { a: 2. * l.a, b: 2. * l.b, m: 2. * l.m, e: 2. * l.e }),
            5 => (call("node - input", || &head - &x), Lin { a: l.a - 1., m: l.m + 1., ..l }),
            _ => match kept.get(r.below(3) as usize) {
                Some((o, p)) => (call("node + earlier node", || &head + o), Lin { a: l.a + p.a, b: l.b + p.b, m: l.m + p.m, e: l.e + p.e }),
                None => (call("k - node", || 1. - &head), Lin { a: -l.a, b: 1. - l.b, m: l.m + 1., ..l }),
            },
        };
        let y = match y {
            Some(y) => y,
            None => continue,
        };
        let old = std::mem::replace(&mut head, y);
        let ol = std::mem::replace(&mut l, step(ny));
        if kept.len() < nk && r.chance(1, 8) {
            kept.push((old, ol));
        } else if let Err(p) = sut_try(move || drop(old)) {
            unexpected("dropping a node", p);
        }
        if every > 0 && i % every == every - 1 {
            dom("graph-fw");
            again(cx, "Node::forward", || head.forward());
        }
    }
    dom("graph-fw");
    check(cx, &head, &l, xv);
    let times = r.below(3);
    for _ in 0..times {
        dom("graph-bw");
        again(cx, "Node::backward", || head.backward());
        stats().backs += 1;
        if let Some(g) = call("reading a gradient", || x.inner_gradient().to_vec()) {
            let g = host(|| g.to_vec());
            let e: Vec<E> = (0..sh.size()).map(|_| E { v: l.a, e: l.e + EPS * l.m * (n as f64 + 8.) }).collect();
            agree("wrong-gradient", "the gradient of the input of a long graph", &g, &e);
        }
    }
    dom("graph-fw");
    hit(if n > 65535 { "long-graph>65535" } else if n > 4000 { "long-graph>4000" } else { "long-graph" });
    // every value is still what it was; then everything goes, in some order
    for (o, p) in &kept {
        check(cx, o, p, xv);
    }
    let mut all: Vec<N> = kept.into_iter().map(|k| k.0).collect();
    all.push(head);
    all.push(x);
    while !all.is_empty() {
        let o = all.swap_remove(r.below(all.len() as u64) as usize);
        if let Err(p) = sut_try(move || drop(o)) {
            unexpected("dropping a node", p);
        }
    }
}

fn check(cx: &Cx, n: &N, l: &Lin, xv: &TVal) {
    let d = again(cx, "Node::to_vec", || n.to_vec());
    let d = host(|| d.to_vec());
    let e: Vec<E> = xv.d.iter().map(|&x| E { v: l.a * x as f64 + l.b, e: (l.e + EPS * l.m) * (1. + x.abs() as f64) }).collect();
    agree("wrong-result", "a node of a long graph", &d, &e);
}

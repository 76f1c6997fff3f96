//! Sessions on the define-by-run graph: arbitrary construction, evaluation, differentiation,
//! inspection and release orders, checked against the tape model.

use crate::case::GStep;
use crate::client::Cx;
use crate::cx::*;
use crate::dev::world;
use crate::ops::{apply_n, fresh, gen_data, gen_shape, in_domain, leaf_prof, plan, Need, N};
use crate::optim;
use crate::refm::{self, bits_eq, Op, Shp, TVal, Tape, E, EPS, TV};
use crate::rt::{self, host, inject_panic, mix, sut_try, Rng};
use prima_undine::functions::BasicFunctions;
use prima_undine::{Device, Node, Operator, Shape, Tensor};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

/// A user-defined operator: the identity, or sum and difference of two inputs; it fails on
/// demand (before, after or between its outputs) and counts its evaluations.
struct Cust {
    two: bool,
    dev: &'static Device<'static>,
    fw_fail: Cell<u32>,
    bw_fail: Cell<u32>,
    /// 0: before producing anything, 1: after everything, 2: between the outputs
    phase: u32,
    log: Rc<CustLog>,
}
#[derive(Default)]
struct CustLog {
    done: Cell<u32>,
    done_after_success: Cell<bool>,
}

impl Operator<'static, 'static> for Cust {
    fn name(&self) -> String {
        "Custom".into()
    }
    fn device(&self) -> &'static Device<'static> {
        self.dev
    }
    fn forward_shape(&self, x: &[Shape]) -> Vec<Shape> {
        if self.two {
            vec![x[0], x[0]]
        } else {
            vec![x[0]]
        }
    }
    fn forward(&self, x: &[&Tensor], y: &mut [&mut Tensor<'static>]) {
        if self.log.done.get() > 0 {
            host(|| self.log.done_after_success.set(true));
        }
        let fail = self.fw_fail.get() > 0;
        if fail {
            self.fw_fail.set(self.fw_fail.get() - 1);
        }
        if fail && self.phase == 0 {
            inject_panic("user operator failed (before)");
        }
        if self.two {
            y[0].replace(x[0] + x[1]);
            if fail && self.phase == 2 {
                inject_panic("user operator failed (between its outputs)");
            }
            y[1].replace(x[0] - x[1]);
        } else {
            y[0].replace(self.dev.copy_tensor(x[0]));
        }
        if fail {
            inject_panic("user operator failed (after)");
        }
        self.log.done.set(self.log.done.get() + 1);
    }
    fn backward(&self, _x: &[&Tensor], _y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]) {
        let fail = self.bw_fail.get() > 0;
        if fail {
            self.bw_fail.set(self.bw_fail.get() - 1);
        }
        if fail && self.phase == 0 {
            inject_panic("user operator failed in backward (before)");
        }
        *gx[0].borrow_mut() += gy[0];
        if self.two {
            *gx[0].borrow_mut() += gy[1];
            if fail && self.phase == 2 {
                inject_panic("user operator failed in backward (between)");
            }
            *gx[1].borrow_mut() += gy[0];
            *gx[1].borrow_mut() -= gy[1];
        }
        if fail {
            inject_panic("user operator failed in backward (after)");
        }
    }
}

enum What {
    /// contents the leaf must show; slot pinned by it
    Leaf(Vec<f32>, Option<u64>),
    /// parameter (uid), contents
    Param(u64, Vec<f32>),
    Op(Op),
    Cust(Rc<CustLog>),
}
struct Call {
    what: What,
    args: Vec<usize>,
    outs: Vec<usize>,
    done: bool,
}
struct Val {
    call: usize,
    node: Option<Box<N>>,
    pred: TVal,
    actual: Option<Vec<f32>>,
}

pub struct Session<'c> {
    cx: &'c mut Cx,
    calls: Vec<Call>,
    vals: Vec<Val>,
    budget: u32,
    /// expected parameter gradients: (param uid, gradient, tainted)
    pgrad: Vec<(u64, Vec<E>, bool)>,
}

const MAXVALS: usize = 40;

pub fn session(cx: &mut Cx, g: &[GStep]) {
    let budget = world().faults.iter().filter(|f| f.client as usize == cx.id).count() as u32;
    let pinned: Vec<u64> = vec![];
    let mut s = Session { cx, calls: vec![], vals: vec![], budget, pgrad: vec![] };
    let _ = pinned;
    for (i, st) in g.iter().enumerate() {
        let p = unsafe { POS[rt::tid()].0 };
        at(p, i as u32 + 1);
        s.step(st);
    }
    s.close();
}

impl<'c> Session<'c> {
    fn held(&self) -> Vec<usize> {
        (0..self.vals.len()).filter(|&i| self.vals[i].node.is_some()).collect()
    }
    fn pick(&self, a: u32) -> Option<usize> {
        let h = self.held();
        if h.is_empty() {
            None
        } else {
            // recent nodes are more interesting
            let k = a as usize % (h.len() * 2);
            Some(if k < h.len() { h[k] } else { h[h.len() - 1 - (k - h.len()) / 2] })
        }
    }

    fn step(&mut self, st: &GStep) {
        match st {
            GStep::Leaf { how, a, s } => {
                self.leaf(*how, *a, *s);
            }
            GStep::Op { k, s, a, v } => self.op(*k, *s, *a, *v),
            GStep::Cust { a, f, b } => self.cust(*a, *f, *b),
            GStep::Fwd { a } => {
                if let Some(i) = self.pick(*a) {
                    self.forward(i);
                }
            }
            GStep::Bwd { a } => {
                if let Some(i) = self.pick(*a) {
                    self.backward(i);
                }
            }
            GStep::Read { a, k } => {
                if let Some(i) = self.pick(*a) {
                    self.read(i, *k);
                }
            }
            GStep::Drop { a } => {
                if let Some(i) = self.pick(*a) {
                    if !matches!(self.calls[self.vals[i].call].what, What::Param(..)) {
                        self.unchanged(i);
                        self.drop_val(i);
                    }
                }
            }
        }
        self.lazy();
    }

    fn add(&mut self, what: What, args: Vec<usize>, nodes: Vec<N>, preds: Vec<TVal>) -> usize {
        let c = self.calls.len();
        let first = self.vals.len();
        if nodes.len() != preds.len() {
            viol("wrong-result", format!("an operation on nodes gives {} results instead of {}", nodes.len(), preds.len()));
        }
        for (n, p) in nodes.into_iter().zip(preds) {
            let sh = match sut_try(|| n.shape()) {
                Ok(s) => Shp::of(s),
                Err(p) => unexpected("Node::shape", p),
            };
            if sh != p.s {
                viol("wrong-shape", format!("a node has shape {:?}, expected {:?}", sh, p.s));
            }
            self.vals.push(Val { call: c, node: Some(Box::new(n)), pred: p, actual: None });
        }
        self.calls.push(Call { what, args, outs: (first..self.vals.len()).collect(), done: false });
        first
    }

    fn leaf(&mut self, how: u32, a: u32, s: u64) -> Option<usize> {
        if self.vals.len() >= MAXVALS {
            return None;
        }
        match how % 6 {
            0 | 3 => {
                let (t, v, uid) = self.cx.leaf_ref(a, s)?;
                if !v.d.iter().all(|x| x.abs() < 1e3) {
                    if let Some(u) = uid {
                        self.cx.unpin(u);
                    }
                    return None;
                }
                match call("Node::from(&tensor)", || N::from(t)) {
                    Some(n) => Some(self.add(What::Leaf(v.d.clone(), uid), vec![], vec![n], vec![v])),
                    None => {
                        if let Some(u) = uid {
                            self.cx.unpin(u);
                        }
                        None
                    }
                }
            }
            1 => {
                let mut r = Rng::new(mix(s, 1));
                let sh = gen_shape(&mut r, true);
                let v = TVal::new(sh.clone(), gen_data(sh.size(), s, leaf_prof(&mut r)));
                self.fresh_leaf(v)
            }
            2 | 4 => {
                if self.cx.params.len() < 3 {
                    let n = self.cx.params.len();
                    optim::new_param(self.cx, s, a);
                    self.cx.params[n..].iter().for_each(|p| p.own_all());
                }
                let c: Vec<usize> = (0..self.cx.params.len()).filter(|&i| !self.cx.params[i].busy).collect();
                if c.is_empty() {
                    return self.leaf(1, a, s);
                }
                let i = c[a as usize % c.len()];
                let p = &mut self.cx.params[i];
                let pp: &'static mut prima_undine::Parameter<'static> = unsafe { &mut *(&mut *p.p as *mut _) };
                let v = TVal::new(p.s.clone(), p.v.clone());
                let uid = p.uid;
                let g0: Vec<E> = p.g.iter().map(|&x| E::x(x as f64)).collect();
                let n = call("Node::from(&mut parameter)", move || N::from(pp))?;
                self.cx.params[i].busy = true;
                self.pgrad.push((uid, g0, false));
                hit("parameter-in-graph");
                Some(self.add(What::Param(uid, v.d.clone()), vec![], vec![n], vec![v]))
            }
            _ => {
                // a view handed over by value
                let (t, v, uid) = self.cx.leaf_ref(a, s)?;
                let n = if v.d.iter().all(|x| x.abs() < 1e3) { call("Node::from(view)", || N::from(Tensor::from(t))) } else { None };
                match n {
                    Some(n) => {
                        hit("view-in-graph");
                        Some(self.add(What::Leaf(v.d.clone(), uid), vec![], vec![n], vec![v]))
                    }
                    None => {
                        if let Some(u) = uid {
                            self.cx.unpin(u);
                        }
                        None
                    }
                }
            }
        }
    }
    fn fresh_leaf(&mut self, v: TVal) -> Option<usize> {
        let t = self.cx.make(&v)?;
        let n = call("Node::from(tensor)", move || N::from(t))?;
        Some(self.add(What::Leaf(v.d.clone(), None), vec![], vec![n], vec![v]))
    }

    fn op(&mut self, k: u32, s: u64, a: u32, v: u32) {
        if self.vals.len() >= MAXVALS {
            return;
        }
        if self.held().is_empty() {
            self.leaf(1, a, s);
        }
        let first = match self.pick(a) {
            Some(i) => i,
            None => return,
        };
        // the first held node (from the picked one on) that the operation can be applied to
        let h = self.held();
        let st = h.iter().position(|&x| x == first).unwrap();
        let mut found = None;
        for j in 0..h.len() {
            let i = h[(st + j) % h.len()];
            if let Some(p) = plan(k, s, &self.vals[i].pred.s, true) {
                let v = &self.vals[i];
                let ok = match (p.dom, &v.actual) {
                    // zeros only where they are known to be exact
                    (8 | 9, Some(d)) => in_domain(p.dom, d),
                    (8, None) => in_domain(1, &v.pred.d),
                    (9, None) => in_domain(5, &v.pred.d),
                    (k, _) => in_domain(k, &v.pred.d),
                };
                if ok {
                    found = Some((i, p));
                    break;
                }
            }
        }
        let (i, p) = match found {
            Some(x) => x,
            None => {
                let mut r = Rng::new(mix(s, 3));
                let mut ok = None;
                for _ in 0..30 {
                    let sh = gen_shape(&mut r, true);
                    if let Some(p) = plan(k, s, &sh, true) {
                        let prof = match p.dom {
                            1 | 5 => 1,
                            8 | 9 => 8,
                            7 => 6,
                            _ => 0,
                        };
                        ok = Some((fresh(&Need { s: sh, prof, dim: 0 }, mix(s, 4)), p));
                        break;
                    }
                }
                match ok {
                    Some((v, p)) => match self.fresh_leaf(v) {
                        Some(i) => (i, p),
                        None => return,
                    },
                    None => return,
                }
            }
        };
        let mut args = vec![];
        for (j, n) in p.more.iter().enumerate() {
            let reuse = n.prof < 9 && mix(s, 100 + j as u64) % 10 < 7;
            let c = self.held().into_iter().rev().filter(|&i| {
                let v = &self.vals[i].pred;
                v.s == n.s && (n.prof != 1 || in_domain(1, &v.d))
            });
            let c: Vec<usize> = if reuse { c.collect() } else { vec![] };
            let x = if c.is_empty() {
                match self.fresh_leaf(fresh(n, mix(s, 200 + j as u64))) {
                    Some(x) => x,
                    None => return,
                }
            } else {
                c[(mix(s, 300 + j as u64) % c.len() as u64) as usize]
            };
            args.push(x);
        }
        args.insert(p.pos.min(args.len()), i);
        let preds = {
            let ins: Vec<&TVal> = args.iter().map(|&x| &self.vals[x].pred).collect();
            match refm::forward(&p.op, &ins) {
                Some(e) => e,
                None => crate::harness_error(&format!("reference rejects planned {:?} on nodes {:?}", p.op, ins.iter().map(|v| &v.s).collect::<Vec<_>>())),
            }
        };
        let preds: Vec<TVal> = preds.into_iter().map(|(s, e)| TVal::new(s, e.iter().map(|x| x.v as f32).collect())).collect();
        if preds.iter().any(|t| t.d.iter().any(|x| !(x.abs() < 1e3)) || t.d.len() > 700) {
            return;
        }
        let nodes: Vec<&N> = args.iter().map(|&x| &**self.vals[x].node.as_ref().unwrap()).collect();
        let name = format!("{:?}", p.op);
        *stats().ops.entry(format!("node.{}", name.split('(').next().unwrap())).or_insert(0) += 1;
        let ctx = format!("{} on nodes {:?}", name, args.iter().map(|&i| &self.vals[i].pred.s).collect::<Vec<_>>());
        if let Some(ys) = call(&ctx, || apply_n(&p.op, &nodes, v)) {
            let ys: Vec<N> = {
                let mut o = Vec::with_capacity(ys.len());
                o.extend(ys);
                o
            };
            self.add(What::Op(p.op.clone()), args, ys, preds);
        }
    }

    fn cust(&mut self, a: u32, f: u32, b: u32) {
        if self.vals.len() >= MAXVALS {
            return;
        }
        if let Some(i) = self.pick(a) {
            let log = Rc::new(CustLog::default());
            let two = f / 3 % 2 == 1;
            let c = Cust { two, dev: self.cx.dev, fw_fail: Cell::new(f % 3), bw_fail: Cell::new(b % 3), phase: b / 3 % 3, log: log.clone() };
            self.budget += f % 3 + b % 3;
            let mut args = vec![i];
            let mut preds = vec![self.vals[i].pred.clone()];
            if two {
                // any held node of the same shape, possibly the same one
                let c: Vec<usize> = self.held().into_iter().filter(|&j| self.vals[j].pred.s == self.vals[i].pred.s).collect();
                let j = c[(b / 9) as usize % c.len()];
                args.push(j);
                let (p, q) = (&self.vals[i].pred, &self.vals[j].pred);
                preds = [1f32, -1.].iter().map(|k| TVal::new(p.s.clone(), p.d.iter().zip(&q.d).map(|(a, b)| a + k * b).collect())).collect();
                if preds.iter().any(|t| t.d.iter().any(|x| !(x.abs() < 1e3))) {
                    return;
                }
            }
            let nodes = {
                let xs: Vec<&N> = args.iter().map(|&x| &**self.vals[x].node.as_ref().unwrap()).collect();
                call("Node::create", || Node::create(c, &xs))
            };
            if let Some(n) = nodes {
                hit(if two { "custom-operator-2x2" } else { "custom-operator" });
                let n: Vec<N> = {
                    let mut o = Vec::with_capacity(n.len());
                    o.extend(n);
                    o
                };
                self.add(What::Cust(log), args, n, preds);
            }
        }
    }

    /// Calls feeding a value, the value's own call included, in creation order.
    fn closure(&self, root: usize) -> Vec<usize> {
        let mut need = vec![false; self.calls.len()];
        need[self.vals[root].call] = true;
        for c in (0..self.calls.len()).rev() {
            if need[c] {
                for &a in &self.calls[c].args {
                    need[self.vals[a].call] = true;
                }
            }
        }
        (0..self.calls.len()).filter(|&c| need[c]).collect()
    }

    /// Repeats a call until it succeeds; failures are allowed only while injected faults last.
    fn retry<R>(&mut self, what: &str, mut f: impl FnMut() -> R) -> (Option<R>, bool) {
        let mut failed = false;
        for _ in 0..self.budget + 2 {
            if let Some(r) = call(what, &mut f) {
                return (Some(r), failed);
            }
            failed = true;
            stats().retries += 1;
        }
        viol("no-progress", format!("{} still fails after the last injected fault", what));
    }

    fn forward(&mut self, i: usize) {
        let n: &'static N = unsafe { &*(&**self.vals[i].node.as_ref().unwrap() as *const N) };
        let before = self.known(i);
        self.retry("Node::forward", || n.forward());
        self.nothing_new(before);
        self.evaluated(i);
    }

    /// Forward kernels run so far by this client, if everything `i` needs has been evaluated.
    fn known(&self, i: usize) -> Option<u32> {
        if self.closure(i).iter().all(|&c| self.calls[c].done) {
            Some(world().forward_kernels(self.cx.id))
        } else {
            None
        }
    }
    fn nothing_new(&self, before: Option<u32>) {
        if let Some(k) = before {
            let n = world().forward_kernels(self.cx.id) - k;
            if n > 0 {
                viol("evaluated-once", format!("asking again for a node whose inputs had all been evaluated ran {} kernels", n));
            }
            hit("asked-again");
        }
    }
    /// Nothing is evaluated before something that needs it is asked for.
    fn lazy(&self) {
        for c in &self.calls {
            if let (What::Cust(l), false) = (&c.what, c.done) {
                if l.done.get() > 0 {
                    viol("evaluated-once", "an operator was evaluated although nothing that needs it has been asked for".into());
                }
            }
        }
    }

    /// The value `i` and everything it depends on has been evaluated: check what became visible.
    fn evaluated(&mut self, i: usize) {
        let cl = self.closure(i);
        let fresh: Vec<usize> = cl.iter().copied().filter(|&c| !self.calls[c].done).collect();
        for &c in &fresh {
            self.calls[c].done = true;
            for o in self.calls[c].outs.clone() {
                self.fetch(o);
            }
            match &self.calls[c].what {
                What::Leaf(d, _) | What::Param(_, d) => {
                    if let Some(a) = &self.vals[self.calls[c].outs[0]].actual {
                        if !bits_eq(a, d) {
                            viol("wrong-result", format!("a leaf node does not show its tensor's contents: {}", first_diff(a, d)));
                        }
                    }
                }
                What::Cust(l) => {
                    if l.done.get() != 1 {
                        viol("evaluated-once", format!("an operator needed by the evaluated node was evaluated {} times", l.done.get()));
                    }
                }
                _ => {}
            }
        }
        for &c in &cl {
            if let What::Cust(l) = &self.calls[c].what {
                if l.done_after_success.get() {
                    viol("evaluated-once", "an operator that had been evaluated was evaluated again".into());
                }
            }
        }
        if fresh.is_empty() {
            return;
        }
        let (tape, _, comp) = self.tape(&cl);
        for &c in &fresh {
            let two = matches!(self.calls[c].what, What::Cust(_)) && self.calls[c].outs.len() == 2;
            if two || matches!(self.calls[c].what, What::Op(_)) {
                for &o in &self.calls[c].outs {
                    if let Some(a) = &self.vals[o].actual {
                        let e: Vec<E> = comp[o].as_ref().unwrap().v.iter().map(|&v| tape.g(v)).collect();
                        agree("wrong-result", &format!("node value of {} on {:?}", self.describe(c), self.calls[c].args.iter().map(|&a| &self.vals[a].pred.s).collect::<Vec<_>>()), a, &e);
                    }
                }
            } else if let What::Cust(_) = &self.calls[c].what {
                let (o, a) = (self.calls[c].outs[0], self.calls[c].args[0]);
                if let (Some(x), Some(y)) = (&self.vals[a].actual, &self.vals[o].actual) {
                    if !bits_eq(x, y) {
                        viol("wrong-result", format!("a user-defined identity changed its input: {}", first_diff(y, x)));
                    }
                }
            }
        }
    }

    /// Reads the value of an evaluated, held node.
    fn fetch(&mut self, o: usize) {
        if let Some(n) = &self.vals[o].node {
            let n: &N = n;
            let ok = host(|| true) && sut_try(|| n.inner_value().valid()).unwrap_or(false);
            if !ok {
                viol("evaluated-once", "a node that was needed has no value after a successful evaluation".into());
            }
            if let Some(v) = call("reading a node", || n.inner_value().to_vec()) {
                let d = host(|| v.to_vec());
                drop(v);
                self.vals[o].actual = Some(d);
            }
        }
    }

    /// Tape over the given calls. in_vars: variables consumers see; comp: variables computed.
    fn tape(&self, cl: &[usize]) -> (Tape, Vec<Option<TV>>, Vec<Option<TV>>) {
        let mut t = Tape::new();
        let n = self.vals.len();
        let mut inv: Vec<Option<TV>> = vec![None; n];
        let mut comp: Vec<Option<TV>> = vec![None; n];
        for &c in cl {
            let call = &self.calls[c];
            match &call.what {
                What::Leaf(d, _) | What::Param(_, d) => {
                    let o = call.outs[0];
                    let tv = TV { s: self.vals[o].pred.s.clone(), v: d.iter().map(|&x| t.leaf(E::x(x as f64))).collect() };
                    inv[o] = Some(tv);
                    continue;
                }
                What::Op(op) => {
                    let mut ins: Vec<TV> = call.args.iter().map(|&a| inv[a].clone().unwrap()).collect();
                    if let Op::SoftmaxCE(_) = op {
                        // the target is a distribution up to rounding
                        let z = t.leaf(E { v: 0., e: 4. * EPS });
                        let v: Vec<_> = ins[1].v.clone();
                        ins[1].v = v.into_iter().map(|x| t.add(x, z)).collect();
                    }
                    let r: Vec<&TV> = ins.iter().collect();
                    let ys = refm::eval(&mut t, op, &r).unwrap();
                    for (&o, y) in call.outs.iter().zip(ys) {
                        comp[o] = Some(y);
                    }
                }
                What::Cust(_) if call.outs.len() == 2 => {
                    let (x, y) = (inv[call.args[0]].clone().unwrap(), inv[call.args[1]].clone().unwrap());
                    let v0 = x.v.iter().zip(&y.v).map(|(&a, &b)| t.add(a, b)).collect();
                    let v1 = x.v.iter().zip(&y.v).map(|(&a, &b)| t.sub(a, b)).collect();
                    comp[call.outs[0]] = Some(TV { s: x.s.clone(), v: v0 });
                    comp[call.outs[1]] = Some(TV { s: x.s.clone(), v: v1 });
                }
                What::Cust(_) => {
                    let x = inv[call.args[0]].clone().unwrap();
                    let z = t.c(0.);
                    let v = x.v.iter().map(|&a| t.add(a, z)).collect();
                    comp[call.outs[0]] = Some(TV { s: x.s.clone(), v });
                }
            }
            for &o in &call.outs {
                let y = comp[o].clone().unwrap();
                inv[o] = Some(match &self.vals[o].actual {
                    Some(d) => TV { s: y.s.clone(), v: d.iter().map(|&x| t.leaf(E::x(x as f64))).collect() },
                    None => y,
                });
            }
        }
        (t, inv, comp)
    }

    fn backward(&mut self, root: usize) {
        let n: &'static N = unsafe { &*(&**self.vals[root].node.as_ref().unwrap() as *const N) };
        let cl = self.closure(root);
        dom("graph-bw");
        self.cx.params.iter().filter(|p| p.busy).for_each(|p| p.disown_all());
        let (_, failed) = self.retry("Node::backward", || n.backward());
        self.cx.params.iter().filter(|p| p.busy).for_each(|p| p.own_all());
        stats().backs += 1;
        dom("graph-fw");
        self.evaluated(root);
        dom("graph-bw");
        // actual gradients of everything held
        let mut grads: Vec<Option<Vec<f32>>> = vec![None; self.vals.len()];
        for &c in &cl {
            let sibling_only = |o: usize| c == self.vals[root].call && o != root;
            for &o in &self.calls[c].outs {
                if sibling_only(o) {
                    continue;
                }
                if let Some(n) = &self.vals[o].node {
                    let n: &N = n;
                    if !sut_try(|| n.inner_gradient().valid()).unwrap_or(false) {
                        viol("wrong-gradient", "a node the differentiated value depends on has no gradient".into());
                    }
                    if Shp::of(n.inner_gradient().shape()) != self.vals[o].pred.s {
                        viol("wrong-gradient", "a gradient has another shape than its node".into());
                    }
                    if let Some(v) = call("reading a gradient", || n.inner_gradient().to_vec()) {
                        grads[o] = Some(host(|| v.to_vec()));
                        drop(v);
                    }
                }
            }
        }
        if let Some(g) = &grads[root] {
            if g.iter().any(|&x| x != 1.) {
                viol("wrong-gradient", format!("the differentiated node's own gradient is {:?}, not ones", &g[..g.len().min(4)]));
            }
        }
        // values whose gradient could not be read are inlined
        let saved: Vec<Option<Vec<f32>>> = self.vals.iter().map(|v| v.actual.clone()).collect();
        for o in 0..self.vals.len() {
            if o != root && grads[o].is_none() {
                self.vals[o].actual = None;
            }
        }
        let (tape, inv, comp) = self.tape(&cl);
        for (v, s) in self.vals.iter_mut().zip(saved) {
            v.actual = s;
        }
        let mut seeds = vec![];
        for &c in &cl {
            for &o in &self.calls[c].outs {
                if let Some(cv) = &comp[o] {
                    if o == root {
                        seeds.extend(cv.v.iter().map(|&v| (v, E::x(1.))));
                    } else if let (Some(g), true) = (&grads[o], self.vals[o].actual.is_some()) {
                        seeds.extend(cv.v.iter().zip(g).map(|(&v, &g)| (v, E::x(g as f64))));
                    }
                }
            }
        }
        let adj = tape.reverse(&seeds);
        for &c in &cl {
            for &o in &self.calls[c].outs {
                if o == root || self.vals[o].actual.is_none() && comp[o].is_some() {
                    continue;
                }
                if let Some(g) = &grads[o] {
                    let e: Vec<E> = inv[o].as_ref().unwrap().v.iter().map(|&v| adj[v as usize]).collect();
                    let users: Vec<String> = cl.iter().filter(|&&d| self.calls[d].args.contains(&o)).map(|&d| self.describe(d)).collect();
                    agree("wrong-gradient", &format!("gradient of {} (shape {:?}) used by {:?}", self.describe(c), self.vals[o].pred.s, users), g, &e);
                    for x in g {
                        absorb(x.to_bits() as u64);
                    }
                }
            }
        }
        dom("graph-fw");
        // parameters accumulate
        for &c in &cl {
            if let What::Param(uid, _) = &self.calls[c].what {
                let o = self.calls[c].outs[0];
                let uid = *uid;
                if let Some(p) = self.pgrad.iter_mut().find(|p| p.0 == uid) {
                    match &grads[o] {
                        Some(g) if !failed => {
                            for (e, &x) in p.1.iter_mut().zip(g) {
                                *e = e.add(E::x(x as f64));
                            }
                        }
                        _ => p.2 = true,
                    }
                }
            }
        }
    }

    fn describe(&self, c: usize) -> String {
        match &self.calls[c].what {
            What::Leaf(..) => "input".into(),
            What::Param(..) => "parameter".into(),
            What::Op(o) => format!("{:?}", o),
            What::Cust(_) => "custom".into(),
        }
    }

    fn read(&mut self, i: usize, k: u32) {
        let n: &'static N = unsafe { &*(&**self.vals[i].node.as_ref().unwrap() as *const N) };
        let before = self.known(i);
        let (d, _) = self.retry("Node::to_vec", || n.to_vec());
        self.nothing_new(before);
        let d = match d {
            Some(d) => {
                let h = host(|| d.to_vec());
                drop(d);
                h
            }
            None => return,
        };
        self.evaluated(i);
        match &self.vals[i].actual {
            Some(a) => {
                if !bits_eq(a, &d) {
                    viol("changed-contents", format!("the value of an evaluated node changed: {}", first_diff(&d, a)));
                }
            }
            None => self.vals[i].actual = Some(d.clone()),
        }
        let v = TVal::new(self.vals[i].pred.s.clone(), d);
        let dim = (k / 8) % 3;
        match k % 8 {
            1 | 2 => {
                let mx = k % 8 == 1;
                if let (Some(y), _) = self.retry("Node::argmax", || if mx { n.argmax(dim) } else { n.argmin(dim) }) {
                    crate::client::check_arg(&v, dim, mx, &y);
                }
            }
            3 => {
                if let (Some(y), _) = self.retry("Node::argsort", || n.argsort(dim)) {
                    crate::client::check_argsort(&v, dim, &y);
                }
            }
            4 if v.d.len() == 1 => {
                if let (Some(y), _) = self.retry("Node::to_float", || n.to_float()) {
                    if y.to_bits() != v.d[0].to_bits() {
                        viol("changed-contents", "to_float disagrees with to_vec".into());
                    }
                }
            }
            _ => {}
        }
    }

    fn unchanged(&mut self, i: usize) {
        let v = &self.vals[i];
        if let (Some(n), Some(a)) = (&v.node, &v.actual) {
            let n: &N = n;
            if let Some(d) = call("reading a node", || n.inner_value().to_vec()) {
                if !bits_eq(&d, a) {
                    viol("changed-contents", format!("the value of an evaluated node changed: {}", first_diff(&d, a)));
                }
            }
        }
    }

    fn drop_val(&mut self, i: usize) {
        if let Some(n) = self.vals[i].node.take() {
            if let Err(p) = sut_try(move || drop(n)) {
                unexpected("dropping a node", p);
            }
        }
    }

    fn close(mut self) {
        let mut h = self.held();
        for &i in &h {
            self.unchanged(i);
        }
        let mut r = Rng::new(mix(h.len() as u64, self.vals.len() as u64));
        while !h.is_empty() {
            let i = h.swap_remove(r.below(h.len() as u64) as usize);
            self.drop_val(i);
        }
        let mut unpin = vec![];
        for c in &self.calls {
            if let What::Leaf(_, Some(u)) = &c.what {
                unpin.push(*u);
            }
        }
        for u in unpin {
            self.cx.unpin(u);
        }
        dom("graph-bw");
        let pg = std::mem::take(&mut self.pgrad);
        for (uid, e, tainted) in pg {
            optim::settle(self.cx, uid, &e, tainted);
        }
    }
}

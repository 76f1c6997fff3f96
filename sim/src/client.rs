//! One simulated client: interprets steps against the real library and checks every outcome.

use crate::case::{GStep, Step};
use crate::cx::*;
use crate::ops::{self, apply_t, fresh, gen_data, gen_shape, in_domain, plan, Need};
use crate::optim::{self, Opt, PSlot};
use crate::refm::{self, Op, Shp, TVal, E};
use crate::rt::{mix, sut, sut_try, Rng};
use prima_undine::functions::BasicFunctions;
use prima_undine::Tensor;
use std::ffi::c_void;
use std::sync::atomic::{AtomicPtr, Ordering};

/// Tensors sent between clients; the contents each must have travels along.
pub static mut MAIL: Vec<Vec<Slot>> = Vec::new();
#[allow(static_mut_refs)]
pub fn mail() -> &'static mut Vec<Vec<Slot>> {
    unsafe { &mut MAIL }
}

pub struct Shared {
    pub slots: Vec<Slot>,
}

pub struct Cx {
    pub id: usize,
    pub dev: D,
    pub other: D,
    pub shared: &'static Shared,
    pub slots: Vec<Slot>,
    pub raws: Vec<(AtomicPtr<c_void>, u32)>,
    pub params: Vec<PSlot>,
    pub opt: Option<Opt>,
    pub opt2: Option<Opt>,
    pub uid: u64,
}
unsafe impl Send for Cx {}

const MAXSLOTS: usize = 14;

/// A library call that writes to a tensor: it may well give the tensor another buffer.
fn put<R>(t: *const T, owner: bool, what: &str, f: impl FnOnce() -> R) -> Option<R> {
    if owner {
        disown(haddr(unsafe { &*t }));
    }
    let y = call(what, f);
    let t = unsafe { &*t };
    if owner && haddr(t) != 0 {
        own(haddr(t), t.shape().size(), 2);
    }
    y
}

impl Cx {
    pub fn new(id: usize, dev: D, other: D, shared: &'static Shared) -> Cx {
        Cx { id, dev, other, shared, slots: vec![], raws: vec![], params: vec![], opt: None, opt2: None, uid: (id as u64 + 1) << 32 }
    }

    /// How many calls of this client may still fail by injection.
    pub fn fault_budget(&self) -> u32 {
        crate::dev::world().faults.iter().filter(|f| f.client as usize == self.id).count() as u32
    }

    fn next_uid(&mut self) -> u64 {
        self.uid += 1;
        self.uid
    }

    /// Registers a tensor that owns its storage.
    fn push_owned(&mut self, t: T, v: TVal) {
        let uid = self.next_uid();
        own(haddr(&t), v.s.size() as u32, uid);
        self.slots.push(Slot { uid, t: Box::new(t), v, pins: 0, view_of: None });
        if self.slots.len() > MAXSLOTS {
            if let Some(i) = (0..self.slots.len()).find(|&i| self.slots[i].pins == 0) {
                self.drop_slot(i);
            }
        }
    }

    /// Keeps a result: reads it back, checks it against `e` if given.
    fn keep(&mut self, what: &str, t: T, s: &Shp, e: Option<&[E]>) {
        let got = Shp::of(t.shape());
        if got != *s {
            viol("wrong-shape", format!("{}: result shape {:?}, expected {:?}", what, got, s));
        }
        let d = match read(&t) {
            Some(d) => d,
            None => {
                sut(move || drop(t));
                return;
            }
        };
        if let Some(e) = e {
            agree("wrong-result", what, &d, e);
        }
        let fine = d.iter().all(|x| x.is_finite() && x.abs() < 1e4);
        let v = TVal::new(s.clone(), d);
        if fine {
            self.push_owned(t, v);
        } else {
            // still must not alias anything while it lives
            let h = haddr(&t);
            own(h, v.s.size() as u32, 0);
            disown(h);
            if let Err(p) = sut_try(move || drop(t)) {
                unexpected("dropping a tensor", p);
            }
        }
    }

    pub fn drop_slot(&mut self, i: usize) {
        let s = self.slots.remove(i);
        same("a tensor about to be dropped", &s.t, &s.v);
        self.release(s);
    }
    fn release(&mut self, s: Slot) {
        if let Some(b) = s.view_of {
            if let Some(x) = self.slots.iter_mut().find(|x| x.uid == b) {
                x.pins -= 1;
            }
        } else {
            disown(haddr(&s.t));
        }
        let t = s.t;
        if let Err(p) = sut_try(move || drop(t)) {
            unexpected("dropping a tensor", p);
        }
    }

    fn fresh_tensor(&mut self, v: &TVal) -> Option<T> {
        let (dev, s) = (self.dev, v.s.sut());
        call("new_tensor_by_slice", || dev.new_tensor_by_slice(s, &v.d))
    }

    /// All readable tensors: own slots, then the shared ones.
    fn pool(&self) -> usize {
        self.slots.len() + self.shared.slots.len()
    }
    fn at(&self, i: usize) -> (&'static T, &TVal) {
        let s = if i < self.slots.len() { &self.slots[i] } else { &self.shared.slots[i - self.slots.len()] };
        (unsafe { &*(&*s.t as *const T) }, &s.v)
    }
    fn find(&self, n: &Need, start: u32) -> Option<usize> {
        let k = self.pool();
        (0..k).map(|i| (i + start as usize) % k.max(1)).find(|&i| {
            let v = self.at(i).1;
            v.s == n.s && (n.prof == 0 || n.prof != 1 && n.prof < 9 || n.prof == 1 && in_domain(1, &v.d))
        })
    }

    pub fn step(&mut self, st: &Step) {
        dom(match st {
            Step::Op { .. } => "tensor",
            Step::Inp { .. } => "inplace",
            Step::Graph { .. } | Step::Chain { .. } => "graph-fw",
            Step::Bad { .. } => "bad",
            Step::Rand { .. } => "random",
            Step::KBw { .. } => "kernel-bw",
            Step::Param { .. } | Step::Opt { .. } | Step::Grad { .. } | Step::Upd { .. } => "optim",
            Step::Save { .. } => "ckpt",
            _ => "storage",
        });
        let writes = matches!(st, Step::Param { .. } | Step::Opt { .. } | Step::Grad { .. } | Step::Upd { .. } | Step::Save { .. });
        if writes {
            self.params.iter().for_each(|p| p.disown_all());
        }
        match st {
            Step::New { s, how } => self.do_new(*s, *how),
            Step::Op { k, s, a, v } => self.do_op(*k, *s, *a, *v),
            Step::Drop { a } => {
                let c: Vec<usize> = (0..self.slots.len()).filter(|&i| self.slots[i].pins == 0).collect();
                if !c.is_empty() {
                    self.drop_slot(c[*a as usize % c.len()]);
                }
            }
            Step::Dup { a, how } => self.do_dup(*a, *how),
            Step::View { a } => self.do_view(*a),
            Step::Inp { k, a, s } => self.do_inplace(*k, *a, *s),
            Step::Shape { a, s } => self.do_shape(*a, *s),
            Step::Read { a, k } => self.do_read(*a, *k),
            Step::Repl { a, k } => self.do_replace(*a, *k),
            Step::Send { a, to } => {
                let n = mail().len();
                let c: Vec<usize> = (0..self.slots.len()).filter(|&i| self.slots[i].pins == 0 && self.slots[i].view_of.is_none()).collect();
                if n > 0 && !c.is_empty() {
                    let s = self.slots.remove(c[*a as usize % c.len()]);
                    hit("tensor-sent");
                    mail()[*to as usize % n].push(s);
                }
            }
            Step::Recv => {
                let id = self.id;
                if id < mail().len() && !mail()[id].is_empty() {
                    let s = mail()[id].remove(0);
                    hit("tensor-received");
                    same("a received tensor", &s.t, &s.v);
                    self.slots.push(s);
                }
            }
            Step::Raw { s, k } => self.do_raw(*s, *k),
            Step::Graph { g } => self.do_graph(g),
            Step::Bad { k, a, s } => crate::bad::do_bad(self, *k, *a, *s),
            Step::Rand { k, s } => self.do_rand(*k, *s),
            Step::KBw { k, s, a } => self.do_kbw(*k, *s, *a),
            Step::Param { s, init } => optim::new_param(self, *s, *init),
            Step::Opt { s } => {
                optim::new_opt(self, *s);
            }
            Step::Grad { a, s } => optim::set_grad(self, *a, *s),
            Step::Upd { m } => optim::update(self, *m),
            Step::Chain { n, s } => crate::chain::run(self, *n, *s),
            Step::Save { a, s } => crate::ckpt::roundtrip(self, *a, *s),
        }
        if writes {
            self.params.iter().for_each(|p| p.own_all());
        }
    }

    fn do_new(&mut self, s: u64, how: u32) {
        let mut r = Rng::new(s);
        let mut shp = gen_shape(&mut r, true);
        if mix(s, 13) % 48 == 0 && !self.slots.iter().any(|x| x.v.d.len() > 10000) {
            // beyond what 16 bits can count
            shp = [Shp::new(&[65536], 1), Shp::new(&[257, 256], 1), Shp::new(&[70000], 1), Shp::new(&[129, 8, 32], 2), Shp::new(&[4, 3], 5462)][(mix(s, 14) % 5) as usize].clone();
            hit("large-tensor");
        }
        let dev = self.dev;
        let sh = shp.sut();
        match how % 4 {
            0 => {
                let k = *r.pick(&[0.5f32, -1.25, 3., 0.]);
                if let Some(t) = call("new_tensor_by_constant", || dev.new_tensor_by_constant(sh, k)) {
                    let e = vec![E::x(k as f64); shp.size()];
                    self.keep("new_tensor_by_constant", t, &shp, Some(&e));
                }
            }
            1 => {
                // allocate by hand, then fill
                let d = gen_data(shp.size(), s, ops::leaf_prof(&mut r));
                let t = call("new_tensor+alloc", || {
                    let mut t = dev.new_tensor(sh);
                    t.alloc();
                    dev.reset_tensor_by_slice(&mut t, &d);
                    t
                });
                if let Some(t) = t {
                    let e: Vec<E> = d.iter().map(|&x| E::x(x as f64)).collect();
                    self.keep("reset_tensor_by_slice", t, &shp, Some(&e));
                }
            }
            _ => {
                let d = gen_data(shp.size(), s, ops::leaf_prof(&mut r));
                let v = TVal::new(shp.clone(), d);
                if let Some(t) = self.fresh_tensor(&v) {
                    let e: Vec<E> = v.d.iter().map(|&x| E::x(x as f64)).collect();
                    self.keep("new_tensor_by_slice", t, &shp, Some(&e));
                }
            }
        }
    }

    /// Picks or makes the operands of a plan; returns pool indices or temporaries.
    fn operands(&mut self, a: u32, s: u64, k: u32) -> Option<(ops::Plan, Vec<Operand>)> {
        if self.pool() == 0 {
            self.do_new(s, 2);
            if self.pool() == 0 {
                return None;
            }
        }
        let mut i = a as usize % self.pool();
        let mut p = None;
        for j in 0..self.pool() {
            let q = (i + j) % self.pool();
            if let Some(x) = plan(k, s, &self.at(q).1.s, false) {
                i = q;
                p = Some(x);
                break;
            }
        }
        let mut first = None;
        if p.is_none() {
            // nothing fits: make an operand that does
            let mut r = Rng::new(mix(s, 3));
            for _ in 0..40 {
                let sh = gen_shape(&mut r, true);
                if let Some(x) = plan(k, s, &sh, false) {
                    let v = TVal::new(sh.clone(), gen_data(sh.size(), s, 0));
                    first = Some(Operand::Tmp(Box::new(self.fresh_tensor(&v)?), v));
                    p = Some(x);
                    break;
                }
            }
        }
        let p = p?;
        let prim = match first {
            Some(f) => f,
            None => Operand::Pool(i),
        };
        let dom_ok = {
            let v = match &prim {
                Operand::Pool(i) => self.at(*i).1,
                Operand::Tmp(_, v) => v,
            };
            in_domain(p.dom, &v.d)
        };
        let prim = if dom_ok {
            prim
        } else {
            let sh = match &prim {
                Operand::Pool(i) => self.at(*i).1.s.clone(),
                Operand::Tmp(_, v) => v.s.clone(),
            };
            let prof = match p.dom {
                1 | 5 => 1,
                8 | 9 => 8,
                7 => 6,
                _ => 0,
            };
            let v = fresh(&Need { s: sh, prof, dim: 0 }, mix(s, 11));
            drop_operand(prim);
            Operand::Tmp(Box::new(self.fresh_tensor(&v)?), v)
        };
        let mut out = vec![];
        for (j, n) in p.more.iter().enumerate() {
            let c = if n.prof < 9 && mix(s, 100 + j as u64) % 10 < 7 { self.find(n, (s >> 7) as u32) } else { None };
            let o = match c {
                Some(i) => Operand::Pool(i),
                None => {
                    let v = fresh(n, mix(s, 200 + j as u64));
                    match self.fresh_tensor(&v) {
                        Some(t) => Operand::Tmp(Box::new(t), v),
                        None => {
                            drop_operand(prim);
                            for o in out {
                                drop_operand(o);
                            }
                            return None;
                        }
                    }
                }
            };
            out.push(o);
        }
        out.insert(p.pos.min(out.len()), prim);
        Some((p, out))
    }

    fn do_op(&mut self, k: u32, s: u64, a: u32, v: u32) {
        let (p, os) = match self.operands(a, s, k) {
            Some(x) => x,
            None => return,
        };
        let refs: Vec<(&'static T, TVal)> = os
            .iter()
            .map(|o| match o {
                Operand::Pool(i) => {
                    let (t, v) = self.at(*i);
                    (t, v.clone())
                }
                Operand::Tmp(t, v) => (unsafe { &*(&**t as *const T) }, v.clone()),
            })
            .collect();
        let vals: Vec<&TVal> = refs.iter().map(|x| &x.1).collect();
        let exp = match refm::forward(&p.op, &vals) {
            Some(e) => e,
            None => crate::harness_error(&format!("reference rejects planned {:?} on {:?}", p.op, vals.iter().map(|v| &v.s).collect::<Vec<_>>())),
        };
        let ts: Vec<&T> = refs.iter().map(|x| x.0).collect();
        let name = format!("{:?}", p.op);
        let ctx = || format!("{} on {:?}", name, vals.iter().map(|v| &v.s).collect::<Vec<_>>());
        *stats().ops.entry(name.split('(').next().unwrap().to_string()).or_insert(0) += 1;
        let ys = call(&ctx(), || apply_t(&p.op, &ts, v));
        if let Some(ys) = ys {
            let ys: Vec<T> = {
                let mut o = vec![];
                o.extend(ys);
                o
            };
            if ys.len() != exp.len() {
                viol("wrong-result", format!("{}: {} results instead of {}", ctx(), ys.len(), exp.len()));
            }
            let c = ctx();
            for (y, (sh, e)) in ys.into_iter().zip(exp.iter()) {
                self.keep(&c, y, sh, Some(e));
            }
        }
        for o in os {
            if let Operand::Tmp(t, v) = o {
                same("an operand", &t, &v);
                if mix(s, 5) % 3 == 0 {
                    self.push_owned(*t, v);
                } else if let Err(p) = sut_try(move || drop(t)) {
                    unexpected("dropping a tensor", p);
                }
            }
        }
    }

    fn do_dup(&mut self, a: u32, how: u32) {
        if self.pool() == 0 {
            return;
        }
        let (t, v) = self.at(a as usize % self.pool());
        let v = v.clone();
        let dev = self.dev;
        let y = if how % 2 == 0 { call("copy_tensor", || dev.copy_tensor(t)) } else { call("reshape", || t.reshape(t.shape())) };
        if let Some(y) = y {
            let e: Vec<E> = v.d.iter().map(|&x| E::x(x as f64)).collect();
            self.keep("a copy", y, &v.s, Some(&e));
        }
    }

    fn do_view(&mut self, a: u32) {
        if self.pool() == 0 {
            return;
        }
        let i = a as usize % self.pool();
        let (t, v) = self.at(i);
        let mut v = v.clone();
        if let Some(mut y) = call("Tensor::from(&tensor)", || Tensor::from(t)) {
            let base = if i < self.slots.len() {
                self.slots[i].pins += 1;
                self.slots[i].uid
            } else {
                0
            };
            same("a view", &y, &v);
            if a >> 16 & 1 == 1 {
                // the same values under another shape
                let n = v.s.size() as u32;
                let mut r = Rng::new(a as u64);
                let f = (1..=n.min(12)).filter(|d| n % d == 0).collect::<Vec<_>>();
                let d = *r.pick(&f);
                let s = if r.chance(1, 2) { Shp::new(&[n / d, d], 1) } else { Shp::new(&[n / d], d) };
                if call("update_shape", || y.update_shape(s.sut())).is_some() {
                    v = TVal::new(s, v.d);
                    same("a view under another shape", &y, &v);
                    hit("view-reshaped");
                }
            }
            let uid = self.next_uid();
            self.slots.push(Slot { uid, t: Box::new(y), v, pins: 0, view_of: Some(base) });
            hit("view");
        }
    }

    fn writable(&self, a: u32) -> Option<usize> {
        let c: Vec<usize> = (0..self.slots.len()).filter(|&i| self.slots[i].pins == 0 && self.slots[i].view_of.is_none()).collect();
        if c.is_empty() {
            None
        } else {
            Some(c[a as usize % c.len()])
        }
    }

    fn do_inplace(&mut self, k: u32, a: u32, s: u64) {
        let i = match self.writable(a) {
            Some(i) => i,
            None => return self.do_new(s, 2),
        };
        let old = self.slots[i].v.clone();
        let tp: *mut T = &mut *self.slots[i].t;
        let t: &'static mut T = unsafe { &mut *tp };
        let dev = self.dev;
        let owner = self.slots[i].view_of.is_none();
        let mut r = Rng::new(mix(s, 9));
        let kk = *r.pick(&[0.5f32, -1., 1.5, 0.]);
        let n = old.d.len();
        let olds: Vec<E> = old.d.iter().map(|&x| E::x(x as f64)).collect();
        let name;
        let mut owned_tmp: Option<T> = None;
        let (done, exp): (Option<()>, Vec<E>) = match k % 9 {
            k @ 0..=3 => {
                name = ["+= &t", "+= t", "-= &t", "-= t"][k as usize];
                let b = if old.s.b == 1 {
                    r.range(1, 3) as u32
                } else {
                    *r.pick(&[1, old.s.b])
                };
                let need = Need { s: old.s.withb(b), prof: 0, dim: 0 };
                // an operand other than the target itself
                let c = self.find(&need, (s >> 9) as u32).filter(|&j| j != i);
                let (xv, xt) = match c {
                    Some(j) if k % 2 == 0 => {
                        let (t, v) = self.at(j);
                        (v.clone(), Some(t))
                    }
                    _ => (fresh(&need, s), None),
                };
                if xt.is_none() {
                    owned_tmp = self.fresh_tensor(&xv);
                    if owned_tmp.is_none() {
                        return;
                    }
                }
                let sg = if k < 2 { 1. } else { -1. };
                let exp: Vec<E> = {
                    let vol = old.s.vol();
                    let xb = xv.s.b as usize;
                    (0..n)
                        .map(|q| {
                            let (bb, j) = (q / vol, q % vol);
                            let mut acc = old.d[q] as f64;
                            let mut mag = acc.abs();
                            let ks: Vec<usize> = if xb == 1 { vec![0] } else if old.s.b == 1 { (0..xb).collect() } else { vec![bb] };
                            let m = ks.len();
                            for kk in ks {
                                let x = xv.d[kk * vol + j] as f64;
                                acc += sg * x;
                                mag += x.abs();
                            }
                            E { v: acc, e: (m as f64 + 1.) * refm::EPS * mag }
                        })
                        .collect()
                };
                let ow = if k % 2 == 1 { owned_tmp.take() } else { None };
                let rf: Option<&'static T> = match (xt, &owned_tmp) {
                    (Some(t), _) => Some(t),
                    (None, Some(t)) => Some(unsafe { &*(t as *const T) }),
                    _ => None,
                };
                let d = put(tp, owner, name, move || match k {
                    0 => *t += rf.unwrap(),
                    1 => *t += ow.unwrap(),
                    2 => *t -= rf.unwrap(),
                    _ => *t -= ow.unwrap(),
                });
                (d, exp)
            }
            4 | 5 => {
                name = "*= k";
                (put(tp, owner, name, || *t *= kk), olds.iter().map(|e| e.mul(E::x(kk as f64))).collect())
            }
            6 => {
                name = "reset";
                (put(tp, owner, name, || t.reset(kk)), vec![E::x(kk as f64); n])
            }
            7 => {
                name = "reset_tensor_by_slice";
                let d = gen_data(n, s, 0);
                (put(tp, owner, name, || dev.reset_tensor_by_slice(t, &d)), d.iter().map(|&x| E::x(x as f64)).collect())
            }
            _ => {
                name = "reset_tensor_by_tensor";
                let need = Need { s: old.s.clone(), prof: 0, dim: 0 };
                match self.find(&need, (s >> 9) as u32).filter(|&j| j != i) {
                    None => (Some(()), olds.clone()),
                    Some(j) => {
                        let (x, v) = self.at(j);
                        let e = v.d.iter().map(|&x| E::x(x as f64)).collect();
                        (put(tp, owner, name, || dev.reset_tensor_by_tensor(t, x)), e)
                    }
                }
            }
        };
        if let Some(t) = owned_tmp {
            if let Err(p) = sut_try(move || drop(t)) {
                unexpected("dropping a tensor", p);
            }
        }
        let t = unsafe { &*tp };
        match read(t) {
            Some(d) => {
                if done.is_some() {
                    agree("wrong-result", &format!("{} on {:?}", name, old.s), &d, &exp);
                }
                if d.iter().all(|x| x.is_finite() && x.abs() < 1e4) {
                    self.slots[i].v.d = d;
                } else {
                    self.slots[i].v.d = d;
                    self.drop_slot(i);
                }
            }
            None => {
                // unknown contents: let go of it
                let s = self.slots.remove(i);
                self.release(s);
            }
        }
    }

    fn do_shape(&mut self, a: u32, s: u64) {
        if let Some(i) = self.writable(a) {
            let v = &self.slots[i].v;
            if let Some(p) = plan(46, s, &v.s, true) {
                if let Op::Reshape(n) = p.op {
                    let t: &'static mut T = unsafe { &mut *(&mut *self.slots[i].t as *mut T) };
                    let sh = n.sut();
                    call("update_shape", || t.update_shape(sh));
                    self.slots[i].v.s = n;
                    let sl = &self.slots[i];
                    same("a tensor after update_shape", &sl.t, &sl.v);
                }
            }
        }
    }

    fn do_read(&mut self, a: u32, k: u32) {
        if self.pool() == 0 {
            return;
        }
        let (t, v) = self.at(a as usize % self.pool());
        let v = v.clone();
        same("a tensor nobody wrote to", t, &v);
        let d = (k / 8) % 4;
        match k % 8 {
            1 | 2 => {
                let mx = k % 8 == 1;
                let y = call("argmax/argmin", || if mx { t.argmax(d) } else { t.argmin(d) });
                if let Some(y) = y {
                    check_arg(&v, d, mx, &y);
                }
            }
            3 => {
                if let Some(y) = call("argsort", || t.argsort(d)) {
                    check_argsort(&v, d, &y);
                }
            }
            4 if v.d.len() == 1 => {
                if let Some(y) = call("to_float", || t.to_float()) {
                    if y.to_bits() != v.d[0].to_bits() {
                        viol("changed-contents", format!("to_float gives {:?}, contents are {:?}", y, v.d[0]));
                    }
                }
            }
            _ => {}
        }
    }

    fn do_replace(&mut self, a: u32, k: u32) {
        if self.pool() == 0 {
            return;
        }
        let dev = self.dev;
        let i = a as usize % self.pool();
        match k % 3 {
            0 => {
                // the contents of a tensor that is given up move into a fresh one
                if let Some(i) = self.writable(a) {
                    let s = self.slots.remove(i);
                    disown(haddr(&s.t));
                    let old = *s.t;
                    let sh = s.v.s.sut();
                    let v = s.v;
                    if let Some(t) = call("replace", move || {
                        let mut t = dev.new_tensor(sh);
                        t.replace(old);
                        t
                    }) {
                        let e: Vec<E> = v.d.iter().map(|&x| E::x(x as f64)).collect();
                        self.keep("replace(tensor)", t, &v.s, Some(&e));
                    }
                }
            }
            1 => {
                let (x, v) = self.at(i);
                let v = v.clone();
                let sh = v.s.sut();
                if let Some(t) = call("replace(copy)", || {
                    let mut t = dev.new_tensor(sh);
                    t.replace(dev.copy_tensor(x));
                    t
                }) {
                    let e: Vec<E> = v.d.iter().map(|&x| E::x(x as f64)).collect();
                    self.keep("replace(copy)", t, &v.s, Some(&e));
                }
            }
            _ => {
                // a view is handed over: the viewed tensor keeps its storage
                let (x, v) = self.at(i);
                let v = v.clone();
                let sh = v.s.sut();
                hit("replace-by-view");
                if let Some(t) = call("replace(view)", || {
                    let mut t = dev.new_tensor(sh);
                    t.replace(Tensor::from(x));
                    t
                }) {
                    let e: Vec<E> = v.d.iter().map(|&x| E::x(x as f64)).collect();
                    same("a tensor after a view of it was handed over", x, &v);
                    self.keep("replace(view)", t, &v.s, Some(&e));
                }
            }
        }
    }

    fn do_raw(&mut self, s: u64, k: u32) {
        let dev = self.dev;
        let mut r = Rng::new(mix(s, 21));
        if k % 3 == 2 && !self.raws.is_empty() {
            let i = r.below(self.raws.len() as u64) as usize;
            let (h, _) = self.raws.remove(i);
            disown(h.load(Ordering::SeqCst) as usize);
            call("drop_handle", move || {
                dev.drop_handle(&h);
            });
            return;
        }
        let n = match r.below(8) {
            6 | 7 if !crate::dev::is_plain() => {
                // 24..: above what tensors need
                let e = *r.pick(&[17u32, 18, 19, 24, 25, 26, 27, 28, 29, 30, 31]);
                let n = (1u64 << e) - r.below(2) * r.range(0, (1 << (e - 1)) - 1);
                n as u32
            }
            0 => r.range(1, 64) as u32,
            1 => *r.pick(&[63u32, 64, 65, 127, 128, 129, 255, 256, 257]),
            2 => *r.pick(&[511u32, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097]),
            3 => r.range(1, 5000) as u32,
            4 => *r.pick(&[8191u32, 8192, 8193, 16383, 16384, 16385, 30000, 65535, 65536, 65537, 70000, 131072, 131073, 200000, 262145]),
            _ => r.range(64, 300) as u32,
        };
        if let Some(h) = call("new_handle", || dev.new_handle(n)) {
            hit("raw-buffer");
            own(h.load(Ordering::SeqCst) as usize, n, 1);
            self.raws.push((h, n));
        }
    }

    fn do_rand(&mut self, k: u32, s: u64) {
        let mut r = Rng::new(mix(s, 31));
        let mut shp = gen_shape(&mut r, true);
        if r.chance(1, 4) {
            shp = Shp::new(&[r.range(4, 40) as u32, r.range(1, 6) as u32], r.range(1, 5) as u32);
        }
        crate::random::draw(self, k, &shp, &mut r);
    }
    pub fn keep_random(&mut self, what: &str, t: T, s: &Shp, ok: &dyn Fn(f32) -> bool, more: &dyn Fn(&[f32])) {
        let got = Shp::of(t.shape());
        if got != *s {
            viol("wrong-shape", format!("{}: shape {:?}, expected {:?}", what, got, s));
        }
        match read(&t) {
            Some(d) => {
                for (i, &x) in d.iter().enumerate() {
                    if !ok(x) {
                        viol("random", format!("{}: element {} of {} is {:?}, outside the distribution's support", what, i, d.len(), x));
                    }
                }
                more(&d);
                let v = TVal::new(s.clone(), d);
                self.push_owned(t, v);
            }
            None => sut(move || drop(t)),
        }
    }

    /// Backward kernels called at device level accumulate the vector-Jacobian product.
    fn do_kbw(&mut self, k: u32, s: u64, a: u32) {
        let kind = ops::BW_KINDS[k as usize % ops::BW_KINDS.len()];
        let (p, os) = match self.operands(a, s, kind) {
            Some(x) => x,
            None => return,
        };
        let dev = self.dev;
        let go = || -> Option<(Vec<TVal>, usize, TVal, TVal, T)> {
            let (xs, vs): (Vec<&'static T>, Vec<TVal>) = os
                .iter()
                .map(|o| match o {
                    Operand::Pool(i) => {
                        let (t, v) = self.at(*i);
                        (t, v.clone())
                    }
                    Operand::Tmp(t, v) => (unsafe { &*(&**t as *const T) }, v.clone()),
                })
                .unzip();
            let rs: Vec<&TVal> = vs.iter().collect();
            let ss: Vec<&Shp> = vs.iter().map(|v| &v.s).collect();
            if !ops::has_bw(&p.op, &ss) {
                return None;
            }
            let exp = refm::forward(&p.op, &rs)?;
            let ys = exp[0].0.clone();
            let which = (mix(s, 43) % vs.len() as u64) as usize;
            let gyv = TVal::new(ys.clone(), gen_data(ys.size(), mix(s, 41), 0));
            let g0 = TVal::new(vs[which].s.clone(), gen_data(vs[which].d.len(), mix(s, 42), 0));
            let op = p.op.clone();
            let gx = call("backward kernel", || {
                let y = apply_t(&op, &xs, 0).pop().unwrap();
                let gy = dev.new_tensor_by_slice(ys.sut(), &gyv.d);
                let mut gx = dev.new_tensor_by_slice(g0.s.sut(), &g0.d);
                ops::apply_bw(&op, &xs, &y, &gy, which, &mut gx);
                gx
            })?;
            Some((vs, which, gyv, g0, gx))
        };
        if let Some((vs, which, gyv, g0, gx)) = go() {
            let rs: Vec<&TVal> = vs.iter().collect();
            let adj = refm::vjp(&p.op, &rs, &[Some(&gyv.d)]).unwrap();
            let e: Vec<E> = adj[which].iter().zip(&g0.d).map(|(a, &g)| a.add(E::x(g as f64))).collect();
            self.keep(&format!("backward of {:?}", p.op), gx, &g0.s, Some(&e));
        }
        for o in os {
            drop_operand(o);
        }
    }

    fn do_graph(&mut self, g: &[GStep]) {
        crate::graph::session(self, g);
    }

    // ---- helpers for the graph module
    pub fn leaf_ref(&mut self, a: u32, s: u64) -> Option<(&'static T, TVal, Option<u64>)> {
        if self.pool() == 0 {
            self.do_new(s, 2);
        }
        if self.pool() == 0 {
            return None;
        }
        let i = a as usize % self.pool();
        let (t, v) = self.at(i);
        let v = v.clone();
        let uid = if i < self.slots.len() {
            self.slots[i].pins += 1;
            Some(self.slots[i].uid)
        } else {
            None
        };
        Some((t, v, uid))
    }
    pub fn unpin(&mut self, uid: u64) {
        if let Some(x) = self.slots.iter_mut().find(|x| x.uid == uid) {
            x.pins -= 1;
        }
    }
    pub fn make(&mut self, v: &TVal) -> Option<T> {
        self.fresh_tensor(v)
    }
    pub fn adopt(&mut self, what: &str, t: T, s: &Shp, e: Option<&[E]>) {
        self.keep(what, t, s, e)
    }

    /// Everything this client holds still has its contents.
    pub fn audit(&mut self) {
        dom("storage");
        for s in &self.slots {
            same("a tensor at the end", &s.t, &s.v);
            for x in &s.v.d {
                absorb(x.to_bits() as u64);
            }
        }
        dom("optim");
        optim::audit(self);
        dom("storage");
    }
    /// A few of the tensors held, chosen by `s`, are re-read.
    pub fn audit_some(&mut self, s: u64) {
        let n = self.slots.len();
        for k in 0..n.min(3) {
            let x = &self.slots[((s >> 8) as usize + k * 5) % n];
            same("a tensor after a refused call", &x.t, &x.v);
        }
    }
    /// Releases everything.
    pub fn finish(&mut self) {
        while let Some(i) = (0..self.slots.len()).rev().find(|&i| self.slots[i].pins == 0) {
            self.drop_slot(i);
        }
        let dev = self.dev;
        while let Some((h, _)) = self.raws.pop() {
            disown(h.load(Ordering::SeqCst) as usize);
            call("drop_handle", move || dev.drop_handle(&h));
        }
        optim::finish(self);
    }
}

pub enum Operand {
    Pool(usize),
    Tmp(Box<T>, TVal),
}
fn drop_operand(o: Operand) {
    if let Operand::Tmp(t, _) = o {
        if let Err(p) = sut_try(move || drop(t)) {
            unexpected("dropping a tensor", p);
        }
    }
}

pub fn check_arg(v: &TVal, d: u32, mx: bool, y: &[u32]) {
    let n = v.s.dim(d) as usize;
    let low = v.s.low(d);
    let k = v.d.len() / n;
    if y.len() != k {
        viol("wrong-result", format!("argmax/argmin over dim {} of {:?}: {} results instead of {}", d, v.s, y.len(), k));
    }
    for i in 0..k {
        let base = (i / low) * low * n + i % low;
        let xs: Vec<f32> = (0..n).map(|j| v.d[base + j * low]).collect();
        let c = y[i] as usize;
        let best = xs.iter().all(|&x| c < n && if mx { x <= xs[c] } else { x >= xs[c] });
        if !best {
            viol("wrong-result", format!("{} over dim {} of {:?}: lane {} gives index {} of {:?}", if mx { "argmax" } else { "argmin" }, d, v.s, i, c, xs));
        }
    }
}
pub fn check_argsort(v: &TVal, d: u32, y: &[u32]) {
    let n = v.s.dim(d) as usize;
    let low = v.s.low(d);
    if y.len() != v.d.len() {
        viol("wrong-result", format!("argsort over dim {} of {:?}: {} results", d, v.s, y.len()));
    }
    for i in 0..v.d.len() / n {
        let base = (i / low) * low * n + i % low;
        let lane: Vec<usize> = (0..n).map(|j| base + j * low).collect();
        let got: Vec<usize> = lane.iter().map(|&p| y[p] as usize).collect();
        crate::client::argsort_lane(v, d, &lane, &got);
    }
}
pub fn argsort_lane(v: &TVal, d: u32, lane: &[usize], got: &[usize]) {
    // results are positions along the lane or flat positions; either way a sorted permutation
    let n = lane.len();
    let flat = got.iter().all(|g| lane.contains(g));
    let local = got.iter().all(|&g| g < n);
    let perm = |ix: &dyn Fn(usize) -> usize| {
        let mut seen = vec![false; v.d.len()];
        let mut prev = f32::NEG_INFINITY;
        for &g in got {
            let p = ix(g);
            if seen[p] || v.d[p] < prev {
                return false;
            }
            seen[p] = true;
            prev = v.d[p];
        }
        true
    };
    let ok = (flat && perm(&|g| g)) || (local && perm(&|g| lane[g]));
    if !ok {
        viol("wrong-result", format!("argsort over dim {} of {:?}: {:?} does not sort lane {:?}", d, v.s, got, lane));
    }
}

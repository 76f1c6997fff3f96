//! Parameters and optimisers of a client, checked against the update rules.

use crate::client::Cx;
use crate::cx::*;
use crate::ops::{gen_data, gen_shape};
use crate::refm::{bits_eq, Shp, E, EPS};
use crate::rt::{host, mix, sut_try, Rng};
use prima_undine::functions::BasicFunctions;
use prima_undine::optimizers::{Adam, MomentumSGD, SGD};
use prima_undine::{initializers, Initializer, Optimizer, OptimizerBase, Parameter};
use std::collections::BTreeMap;

pub struct PSlot {
    pub uid: u64,
    pub p: Box<Parameter<'static>>,
    pub s: Shp,
    pub v: Vec<f32>,
    pub g: Vec<f32>,
    pub st: BTreeMap<String, Vec<f32>>,
    /// the moments of each kind of optimiser, as its last update left them
    pub own: BTreeMap<u32, Vec<Vec<f32>>>,
    pub busy: bool,
}

pub enum AnyOpt {
    S(SGD),
    M(MomentumSGD),
    A(Adam),
}
macro_rules! with_opt {
    ($o:expr, $x:ident => $e:expr) => {
        match $o {
            AnyOpt::S($x) => $e,
            AnyOpt::M($x) => $e,
            AnyOpt::A($x) => $e,
        }
    };
}
pub(crate) use with_opt;

/// Hyper-parameters of an optimiser.
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, PartialEq)]
pub struct Hyper {
    pub kind: u32,
    pub eta: f32,
    pub mom: f32,
    pub b2: f32,
    pub eps: f32,
    pub scale: f32,
    pub decay: f32,
    pub clip: f32,
}
impl Hyper {
    pub fn gen(r: &mut Rng) -> Hyper {
        Hyper {
            kind: r.below(3) as u32,
            eta: *r.pick(&[0.1f32, 0.01, 0.5, 1.]),
            mom: *r.pick(&[0.9f32, 0.5, 0., 0.99]),
            b2: *r.pick(&[0.999f32, 0.9, 0.5]),
            eps: *r.pick(&[1e-8f32, 1e-4, 0.1]),
            scale: *r.pick(&[1f32, 1., 0.5, 2., 0.]),
            decay: *r.pick(&[0f32, 0., 0.01, 0.3]),
            clip: *r.pick(&[0f32, 0., 0.5, 3., 100.]),
        }
    }
    pub fn make(&self) -> AnyOpt {
        let mut o = match self.kind {
            0 => AnyOpt::S(SGD::new(self.eta)),
            1 => AnyOpt::M(MomentumSGD::new(self.eta, self.mom)),
            _ => AnyOpt::A(Adam::new(self.eta, self.mom, self.b2, self.eps)),
        };
        // what a new optimiser starts with is not set again
        with_opt!(&mut o, x => {
            if self.scale != 1. {
                x.set_learning_rate_scaling(self.scale);
            }
            if self.decay != 0. {
                x.set_weight_decay(self.decay);
            }
            if self.clip != 0. {
                x.set_gradient_clipping(self.clip);
            }
        });
        o
    }
    /// The names under which the optimiser keeps its moments.
    pub fn stats(&self) -> &'static [String] {
        let (m, a) = roles();
        match self.kind {
            0 => &[],
            1 => m,
            _ => a,
        }
    }
}

/// The names of the moments are the library's business: they are found out by watching one update.
fn roles() -> &'static (Vec<String>, Vec<String>) {
    static R: std::sync::OnceLock<(Vec<String>, Vec<String>)> = std::sync::OnceLock::new();
    R.get_or_init(|| {
        let dflt = (vec!["MomentumSGD.m".to_string()], vec!["Adam.m1".to_string(), "Adam.m2".to_string()]);
        std::panic::catch_unwind(|| {
            let dev = prima_undine::devices::Naive::new();
            let watch = |o: AnyOpt| {
                let mut p = dev.new_parameter(Shp::new(&[], 1).sut(), &initializers::Constant::new(0.));
                let mut o = o;
                with_opt!(&mut o, x => x.configure_parameters(&mut [&mut p]));
                p.gradient.reset(1.);
                with_opt!(&mut o, x => x.update_parameters(&mut [&mut p]));
                let mut v: Vec<(String, f32)> = p.stats.iter().map(|(k, t)| (k.clone(), t.borrow().to_float())).collect();
                v.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap());
                v
            };
            let m = watch(AnyOpt::M(MomentumSGD::new(1., 0.5)));
            // first moment 0.5, second moment 0.25
            let a = watch(AnyOpt::A(Adam::new(0.1, 0.5, 0.75, 1e-8)));
            if m.len() != 1 || a.len() != 2 || (a[0].1 - 0.5).abs() > 1e-3 || (a[1].1 - 0.25).abs() > 1e-3 {
                return dflt.clone();
            }
            (vec![m[0].0.clone()], a.into_iter().map(|x| x.0).collect())
        })
        .unwrap_or(dflt.clone())
    })
}
/// To be called before a run begins.
pub fn prepare() {
    let _ = std::thread::spawn(|| {
        roles();
    })
    .join();
}

pub struct Opt {
    pub h: Hyper,
    pub o: AnyOpt,
    pub epoch: u32,
    pub configured: Vec<u64>,
}

/// State of one parameter, as plain numbers.
#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub struct PState {
    pub v: Vec<f32>,
    pub g: Vec<f32>,
    pub st: BTreeMap<String, Vec<f32>>,
}

fn vecof(what: &str, f: impl FnOnce() -> Vec<f32>) -> Option<Vec<f32>> {
    let v = call(what, f)?;
    let d = host(|| v.to_vec());
    drop(v);
    Some(d)
}

/// Reads a parameter, retrying injected read failures.
pub fn snapshot(p: &Parameter<'static>) -> PState {
    let again = |what: &str, f: &dyn Fn() -> Vec<f32>| {
        for _ in 0..200 {
            if let Some(v) = vecof(what, f) {
                return v;
            }
        }
        viol("no-progress", format!("{} keeps failing", what))
    };
    let v = again("reading a parameter's value", &|| p.value.to_vec());
    let g = again("reading a parameter's gradient", &|| p.gradient.to_vec());
    let mut names: Vec<String> = p.stats.keys().map(|k| k.as_str().to_string()).collect();
    names.sort();
    let mut st = BTreeMap::new();
    for n in names {
        let d = again("reading a statistic", &|| p.stats[&n].borrow().to_vec());
        st.insert(n, d);
    }
    PState { v, g, st }
}

impl PSlot {
    pub fn state(&self) -> PState {
        PState { v: self.v.clone(), g: self.g.clone(), st: self.st.clone() }
    }
    fn resync(&mut self) {
        let s = snapshot(&self.p);
        self.v = s.v;
        self.g = s.g;
        self.st = s.st;
        self.own.clear();
    }
    pub fn moments(st: &BTreeMap<String, Vec<f32>>, h: &Hyper) -> Vec<Vec<f32>> {
        h.stats().iter().map(|n| st.get(n).cloned().unwrap_or_default()).collect()
    }
    pub fn own_all(&self) {
        let n = self.s.size() as u32;
        let mut all = vec![(haddr(&self.p.value), n), (haddr(&self.p.gradient), n)];
        all.extend(self.p.stats.values().map(|t| (haddr(&t.borrow()), Shp::of(t.borrow().shape()).size() as u32)));
        for (i, (h, n)) in all.into_iter().enumerate() {
            own(h, n, self.uid | (i as u64 + 1) << 48);
        }
    }
    pub fn disown_all(&self) {
        disown(self.p.value.handle().load(std::sync::atomic::Ordering::SeqCst) as usize);
        disown(self.p.gradient.handle().load(std::sync::atomic::Ordering::SeqCst) as usize);
        for t in self.p.stats.values() {
            disown(haddr(&t.borrow()));
        }
    }
}

pub fn new_param(cx: &mut Cx, s: u64, init: u32) {
    if cx.params.len() >= 4 {
        return;
    }
    let mut r = Rng::new(mix(s, 51));
    let mut sh = gen_shape(&mut r, false);
    let kind = init % 5;
    if kind == 3 && !sh.matrix() {
        sh = Shp::new(&[r.range(1, 4) as u32, r.range(1, 4) as u32], 1);
    }
    let dev = cx.dev;
    let ss = sh.sut();
    let (a, b) = (*r.pick(&[-1f32, 0., 0.5]), *r.pick(&[0.5f32, 1., 2.]));
    let scale = *r.pick(&[1f32, 0.5, 2.]);
    let data = gen_data(sh.size(), s, 0);
    let p = call("new_parameter", || match kind {
        0 => Some(dev.new_parameter(ss, &initializers::Constant::new(a))),
        1 => Some(dev.new_parameter(ss, &initializers::Normal::new(a, b))),
        2 => Some(dev.new_parameter(ss, &initializers::Uniform::new(a, a + b))),
        3 => Some(dev.new_parameter(ss, &initializers::XavierUniform::new(scale))),
        _ => {
            let i = FromSlice(&data);
            Some(dev.new_parameter(ss, &i))
        }
    });
    if let Some(Some(p)) = p {
        let p = Box::new(p);
        let st = snapshot(&p);
        let bound = scale as f64 * (6. / (sh.dim(0) + sh.dim(1)) as f64).sqrt();
        for &x in &st.v {
            let x64 = x as f64;
            let ok = match kind {
                0 => x == a,
                1 => x.is_finite() && (x64 - a as f64).abs() < 12. * b as f64,
                2 => x >= a && x <= a + b,
                3 => x64.abs() <= bound * (1. + 4. * EPS),
                _ => true,
            };
            if !ok {
                viol("random", format!("initializer {} produced {:?} (shape {:?})", kind, x, sh));
            }
        }
        if kind == 4 && !bits_eq(&st.v, &data) {
            viol("wrong-result", "a user-defined initializer's values were not kept".into());
        }
        if Shp::of(p.shape()) != sh || st.g.len() != sh.size() || st.g.iter().any(|&x| x != 0.) || !st.st.is_empty() {
            viol("wrong-result", "a new parameter has a wrong shape, a gradient that is not zero, or statistics".into());
        }
        cx.uid += 1;
        let ps = PSlot { uid: cx.uid, p, s: sh, v: st.v, g: st.g, st: st.st, own: BTreeMap::new(), busy: false };
        // the storage is claimed at the end of the step, or by the graph that uses it
        cx.params.push(ps);
    }
}

pub struct FromSlice<'a>(pub &'a [f32]);
impl<'a> Initializer for FromSlice<'a> {
    fn apply(&self, t: &mut prima_undine::Tensor) {
        t.alloc();
        t.device().reset_tensor_by_slice(t, self.0);
    }
}

fn refs(cx: &mut Cx, which: &[usize]) -> Vec<&'static mut Parameter<'static>> {
    which.iter().map(|&i| unsafe { &mut *(&mut *cx.params[i].p as *mut Parameter<'static>) }).collect()
}

pub fn new_opt(cx: &mut Cx, s: u64) {
    let mut r = Rng::new(mix(s, 61));
    let h = Hyper::gen(&mut r);
    let o = host(|| h.make());
    let mut o = o;
    // a new one, or one that has come a long way
    let epoch = match r.below(6) {
        0 => r.range(1, 40) as u32,
        1 => r.range(40, 3000) as u32,
        2 => *r.pick(&[255u32, 256, 65535, 1 << 16, 1_000_000, 1 << 24]),
        _ => 0,
    };
    if epoch != 0 {
        with_opt!(&mut o, x => *x.epoch() = epoch);
    }
    // the one before is kept and used in turn
    cx.opt2 = cx.opt.take();
    cx.opt = Some(Opt { h, o, epoch, configured: vec![] });
    configure(cx);
}

/// Configures parameters the optimiser does not know yet.
fn configure(cx: &mut Cx) {
    let opt = match &cx.opt {
        Some(o) => o,
        None => return,
    };
    let idx: Vec<usize> = (0..cx.params.len()).filter(|&i| !cx.params[i].busy && !opt.configured.contains(&cx.params[i].uid)).collect();
    for i in idx {
        let before = cx.params[i].state();
        let mut ps = refs(cx, &[i]);
        let opt = cx.opt.as_ref().unwrap();
        let want = opt.h.stats();
        let ok = call("configure_parameters", || with_opt!(&opt.o, x => x.configure_parameters(&mut ps)));
        let ps = &cx.params[i];
        let after = snapshot(&cx.params[i].p);
        for w in want {
            match (before.st.get(w), after.st.get(w)) {
                (Some(a), Some(b)) => {
                    if !bits_eq(a, b) {
                        viol("wrong-update", format!("configuring an optimiser changed the existing statistic {}", w));
                    }
                }
                (None, Some(b)) => {
                    if b.len() != after.v.len() || b.iter().any(|&x| x != 0.) {
                        viol("wrong-update", format!("a new statistic {} is not zero", w));
                    }
                }
                (_, None) => {
                    if ok.is_some() {
                        viol("wrong-update", format!("configuring an optimiser did not create {}", w));
                    }
                }
            }
        }
        if !bits_eq(&before.v, &after.v) || !bits_eq(&before.g, &after.g) || before.st.iter().any(|(k, v)| after.st.get(k).map(|w| bits_eq(v, w)) != Some(true)) {
            viol("wrong-update", "configuring an optimiser changed a parameter".into());
        }
        cx.params[i].st = after.st;
        if ok.is_some() {
            let uid = cx.params[i].uid;
            cx.opt.as_mut().unwrap().configured.push(uid);
        }
    }
}

pub fn set_grad(cx: &mut Cx, a: u32, s: u64) {
    let c: Vec<usize> = (0..cx.params.len()).filter(|&i| !cx.params[i].busy).collect();
    if c.is_empty() {
        return new_param(cx, s, 4);
    }
    let i = c[a as usize % c.len()];
    let mut r = Rng::new(mix(s, 71));
    let prof = *r.pick(&[0u32, 0, 2, 3, 4]);
    let d = gen_data(cx.params[i].g.len(), s, prof);
    let dev = cx.dev;
    let p = &mut cx.params[i];
    if call("setting a gradient", || dev.reset_tensor_by_slice(&mut p.p.gradient, &d)).is_some() {
        p.g = d;
    } else {
        let g = snapshot(&p.p).g;
        p.g = g;
    }
}

pub fn update(cx: &mut Cx, m: u32) {
    if cx.params.is_empty() {
        new_param(cx, m as u64, 4);
    }
    if cx.opt.is_none() {
        new_opt(cx, m as u64);
    }
    let mut r = Rng::new(mix(m as u64, 97));
    if cx.opt2.is_some() && r.chance(1, 3) {
        std::mem::swap(&mut cx.opt, &mut cx.opt2);
        hit("optimizers-in-turn");
    }
    if r.chance(1, 4) {
        // settings change between updates
        let o = cx.opt.as_mut().unwrap();
        let n = Hyper::gen(&mut r);
        if r.chance(1, 2) {
            o.h.scale = n.scale;
            with_opt!(&mut o.o, x => x.set_learning_rate_scaling(n.scale));
        }
        if r.chance(1, 2) {
            o.h.decay = n.decay;
            with_opt!(&mut o.o, x => x.set_weight_decay(n.decay));
        }
        if r.chance(1, 2) {
            o.h.clip = n.clip;
            with_opt!(&mut o.o, x => x.set_gradient_clipping(n.clip));
        }
        hit("settings-changed");
    }
    {
        let o = cx.opt.as_mut().unwrap();
        let got = with_opt!(&mut o.o, x => (x.get_learning_rate_scaling(), x.get_weight_decay(), x.get_gradient_clipping(), *x.epoch()));
        if got != (o.h.scale, o.h.decay, o.h.clip, o.epoch) {
            viol("wrong-update", format!("an optimizer's settings are {:?}, expected {:?}", got, (o.h.scale, o.h.decay, o.h.clip, o.epoch)));
        }
    }
    configure(cx);
    let opt = cx.opt.as_ref().unwrap();
    let mut idx: Vec<usize> = (0..cx.params.len()).filter(|&i| !cx.params[i].busy && opt.configured.contains(&cx.params[i].uid)).collect();
    if m % 3 == 1 && idx.len() > 1 {
        idx.remove(m as usize / 3 % idx.len());
    }
    if idx.is_empty() {
        return;
    }
    let before: Vec<PState> = idx.iter().map(|&i| cx.params[i].state()).collect();
    for (&i, b) in idx.iter().zip(&before) {
        // optimisers of different kinds do not share their moments
        let m = PSlot::moments(&b.st, &opt.h);
        if let Some(o) = cx.params[i].own.get(&opt.h.kind) {
            if o.len() != m.len() || o.iter().zip(&m).any(|(x, y)| !bits_eq(x, y)) {
                viol("wrong-update", format!("the moments of optimiser kind {} are not what its last update left", opt.h.kind));
            }
        }
    }
    let mut ps = refs(cx, &idx);
    let opt = cx.opt.as_mut().unwrap();
    let mine = opt.h.stats();
    let ok = call("update_parameters", || with_opt!(&mut opt.o, x => x.update_parameters(&mut ps)));
    let epoch = with_opt!(&mut opt.o, x => *x.epoch());
    let after: Vec<PState> = idx.iter().map(|&i| snapshot(&cx.params[i].p)).collect();
    let opt = cx.opt.as_mut().unwrap();
    for (b, a) in before.iter().zip(&after) {
        let others = |s: &PState| -> Vec<(String, Vec<u32>)> { s.st.iter().filter(|(k, _)| !mine.contains(k)).map(|(k, v)| (k.clone(), v.iter().map(|x| x.to_bits()).collect())).collect() };
        if others(a) != others(b) {
            viol("wrong-update", "an update changed statistics that are not the optimiser's".into());
        }
    }
    if ok.is_some() {
        if epoch != opt.epoch + 1 {
            viol("wrong-update", format!("the epoch went from {} to {}", opt.epoch, epoch));
        }
        check_update(&opt.h, opt.epoch, &before, &after);
        stats().updates += 1;
    } else if epoch != opt.epoch {
        viol("wrong-update", format!("a failed update moved the step counter from {} to {}", opt.epoch, epoch));
    }
    opt.epoch = epoch;
    let h = opt.h.clone();
    for (&i, a) in idx.iter().zip(after) {
        // runaway trajectories are put back
        for x in &a.v {
            absorb(x.to_bits() as u64);
        }
        cx.params[i].own.insert(h.kind, PSlot::moments(&a.st, &h));
        cx.params[i].v = a.v;
        cx.params[i].g = a.g;
        cx.params[i].st = a.st;
        tame(cx, i);
    }
}

/// A statistic of the user's own, of any name and shape.
pub fn user_stat(cx: &mut Cx, i: usize, s: u64) {
    let mut r = Rng::new(mix(s, 91));
    let name = *r.pick(&["count", "", "naïve \"mean\"\n", "a.b/c\u{1F600}", "0"]);
    let batched = r.chance(1, 2);
    let sh = if r.chance(1, 3) { cx.params[i].s.clone() } else { gen_shape(&mut r, batched) };
    let d = gen_data(sh.size(), s, 0);
    let p = &mut cx.params[i];
    if p.st.contains_key(name) || p.st.len() > 6 {
        return;
    }
    let pp: *mut Parameter<'static> = &mut *p.p;
    let ok = call("add_stat", || unsafe { &mut *pp }.add_stat(name, sh.sut())).is_some();
    if ok != p.p.has_stat(name) {
        viol("wrong-result", format!("add_stat {}, has_stat is {}", if ok { "succeeded" } else { "failed" }, !ok));
    }
    if !ok {
        return;
    }
    hit("user-stat");
    {
        let t = p.p.stats[name].borrow();
        if Shp::of(t.shape()) != sh {
            viol("wrong-shape", format!("a statistic has shape {:?}, expected {:?}", t.shape(), sh));
        }
    }
    let now = snapshot(&p.p);
    if now.st[name].len() != sh.size() || now.st[name].iter().any(|&x| x != 0.) {
        viol("wrong-result", "a new statistic is not zero".into());
    }
    let dev = cx.dev;
    call("writing a statistic", || dev.reset_tensor_by_slice(&mut p.p.stats[name].borrow_mut(), &d));
    p.st = snapshot(&p.p).st;
}

/// An update of several parameters one of which cannot be updated: none may change.
pub fn bad_update(dev: D, other: D, s: &Shp, seed: u64) -> bool {
    let mut r = Rng::new(seed);
    let h = Hyper::gen(&mut r);
    let mut o = host(|| h.make());
    let n = r.range(2, 3) as usize;
    let bad = r.below(n as u64) as usize;
    let mut how = r.below(4);
    if h.kind == 0 && how == 0 {
        how = 1;
    }
    let mut ps: Vec<Box<Parameter<'static>>> = vec![];
    for i in 0..n {
        let (a, b) = (gen_data(s.size(), mix(seed, i as u64), 1), gen_data(s.size(), mix(seed, 9 + i as u64), 1));
        let p = call("building a parameter", || {
            if i == bad && how == 1 {
                return Parameter::new(prima_undine::Tensor::new_host_tensor(s.sut(), a.clone()), prima_undine::Tensor::new_host_tensor(s.sut(), b.clone()));
            }
            let d = if i == bad && how == 2 { other } else { dev };
            let mut p = Parameter::new(d.new_tensor_by_slice(s.sut(), &a), d.new_tensor_by_slice(s.sut(), &b));
            if i == bad && how == 3 {
                p.gradient = dev.new_tensor(s.sut());
            }
            if !(i == bad && how == 0) {
                with_opt!(&o, x => x.configure_parameter(&mut p));
            }
            p
        });
        match p {
            Some(p) => ps.push(Box::new(p)),
            None => {
                let _ = sut_try(move || drop(ps));
                return false;
            }
        }
    }
    let good: Vec<usize> = (0..n).filter(|&i| i != bad).collect();
    let before: Vec<PState> = good.iter().map(|&i| snapshot(&ps[i])).collect();
    if how == 2 {
        // parameters of two devices: updated each on its own, or refused altogether
        let mut rs: Vec<&mut Parameter<'static>> = ps.iter_mut().map(|p| unsafe { &mut *(&mut **p as *mut Parameter<'static>) }).collect();
        match sut_try(|| with_opt!(&mut o, x => x.update_parameters(&mut rs))) {
            Ok(()) => {
                let after: Vec<PState> = (0..n).map(|i| snapshot(&ps[i])).collect();
                if after.iter().any(|a| a.g.iter().any(|&g| g != 0.)) {
                    viol("wrong-update", "an update over two devices left a gradient".into());
                }
            }
            Err(_) => {}
        }
    } else {
        let rs: Vec<*mut Parameter<'static>> = ps.iter_mut().map(|p| &mut **p as *mut _).collect();
        let name = ["updating a parameter that is not configured", "updating a parameter that is on no device", "", "updating a parameter without a gradient"][how as usize];
        let refused = crate::bad::refuse(name, name, || {
            let mut rs: Vec<&mut Parameter<'static>> = rs.iter().map(|&p| unsafe { &mut *p }).collect();
            with_opt!(&mut o, x => x.update_parameters(&mut rs))
        });
        if refused {
            let epoch = with_opt!(&mut o, x => *x.epoch());
            for (&i, b) in good.iter().zip(&before) {
                if snapshot(&ps[i]) != *b || epoch != 0 {
                    viol("refused-effect", format!("{} (number {} of {}, {:?}) was refused after parameter {} or the step counter had changed", name, bad, n, h, i));
                }
            }
        }
    }
    if let Err(p) = sut_try(move || drop(ps)) {
        unexpected("dropping a parameter", p);
    }
    true
}

fn tame(cx: &mut Cx, i: usize) {
    let p = &mut cx.params[i];
    if p.v.iter().chain(p.st.values().flatten()).all(|x| x.abs() < 1e3) {
        return;
    }
    let dev = cx.dev;
    let n = p.v.len();
    let d = gen_data(n, 5, 0);
    call("reset", || dev.reset_tensor_by_slice(&mut p.p.value, &d));
    for t in p.p.stats.values() {
        call("reset", || t.borrow_mut().reset(0.));
    }
    p.resync();
}

/// Does `after` follow from `before` by one update?
pub fn check_update(h: &Hyper, epoch: u32, before: &[PState], after: &[PState]) {
    let x = |v: f32| E::x(v as f64);
    // decay
    let mut gs: Vec<Vec<E>> = vec![];
    for b in before {
        gs.push(b.g.iter().zip(&b.v).map(|(&g, &v)| if h.decay > 0. { x(g).add(x(h.decay).mul(x(v))) } else { x(g) }).collect());
    }
    let mut variants: Vec<E> = vec![E::x(1.)];
    if h.clip > 0. {
        let mut sq = E::x(0.);
        let mut n = 0f64;
        for g in gs.iter().flatten() {
            let t = g.mul(*g);
            sq = E { v: sq.v + t.v, e: sq.e + t.e };
            n += 1.;
        }
        sq.e += n * EPS * sq.v;
        let c2 = x(h.clip).mul(x(h.clip));
        let s = E { v: sq.v.sqrt(), e: if sq.v > 0. { sq.e / sq.v.sqrt() } else { sq.e.sqrt() } };
        let k = x(h.clip).div(E::r(s.v, s.e));
        let tol = 4. * (sq.e + c2.e) + 1e-30;
        if sq.v > c2.v + tol {
            variants = vec![k];
        } else if sq.v >= c2.v - tol {
            variants.push(k);
        }
    }
    let mut last = None;
    for k in &variants {
        match try_update(h, epoch, before, after, &gs, *k) {
            None => return,
            Some(m) => last = Some(m),
        }
    }
    viol("wrong-update", format!("{:?} at epoch {}: {}", h, epoch, last.unwrap()));
}

fn try_update(h: &Hyper, epoch: u32, before: &[PState], after: &[PState], gs: &[Vec<E>], k: E) -> Option<String> {
    let x = |v: f32| E::x(v as f64);
    let one = E::x(1.);
    let pw = |b: f32| {
        let v = (b as f64).powi(epoch as i32 + 1);
        E { v, e: 2. * EPS * v }
    };
    for (i, (b, a)) in before.iter().zip(after).enumerate() {
        if a.g.len() != b.g.len() || a.g.iter().any(|&g| g != 0.) {
            return Some("gradients are not reset".into());
        }
        let stat = |s: &PState, n: &str| s.st.get(n).cloned().unwrap_or_default();
        for j in 0..b.v.len() {
            let g = if k.v == 1. && k.e == 0. { gs[i][j] } else { gs[i][j].mul(k) };
            let lr = x(h.scale).mul(x(h.eta));
            let mut want: Vec<(&str, f32, E)> = vec![];
            match h.kind {
                0 => want.push(("value", a.v[j], x(b.v[j]).sub(lr.mul(g)))),
                1 => {
                    let n = h.stats()[0].as_str();
                    let m = x(stat(b, n)[j]).mul(x(h.mom)).sub(lr.mul(g));
                    want.push((n, stat(a, n)[j], m));
                    want.push(("value", a.v[j], x(b.v[j]).add(m)));
                }
                _ => {
                    let (n1, n2) = (h.stats()[0].as_str(), h.stats()[1].as_str());
                    let m1 = x(stat(b, n1)[j]).mul(x(h.mom)).add(one.sub(x(h.mom)).mul(g));
                    let m2 = x(stat(b, n2)[j]).mul(x(h.b2)).add(one.sub(x(h.b2)).mul(g).mul(g));
                    want.push((n1, stat(a, n1)[j], m1));
                    want.push((n2, stat(a, n2)[j], m2));
                    // from the statistics actually stored: their own error does not accumulate here
                    let (s1, s2) = (x(stat(a, n1)[j]), x(stat(a, n2)[j]));
                    let c1 = one.sub(pw(h.mom));
                    let c2 = one.sub(pw(h.b2));
                    let mm1 = s1.div(c1);
                    let mm2 = s2.div(c2);
                    let sd = E::r(mm2.v.max(0.).sqrt(), ((mm2.v + mm2.e).max(0.).sqrt() - (mm2.v - mm2.e).max(0.).sqrt()).abs());
                    let d = lr.mul(mm1).div(sd.add(x(h.eps)));
                    want.push(("value", a.v[j], x(b.v[j]).sub(d)));
                }
            }
            for (n, got, e) in want {
                stats().checked += 1;
                // subnormal intermediate results
                let e = e.widen(1e-36);
                if !e.agrees(got) {
                    return Some(format!("{} element {} of parameter {} is {:?}, expected {:?} (bound {:.1e}); before {:?}, gradient {:?}", n, j, i, got, e.v, 4. * e.e, b.v[j], b.g[j]));
                }
            }
        }
    }
    None
}

/// A parameter comes back from a graph session with an expected gradient.
pub fn settle(cx: &mut Cx, uid: u64, e: &[E], tainted: bool) {
    if let Some(i) = (0..cx.params.len()).find(|&i| cx.params[i].uid == uid) {
        let p = &mut cx.params[i];
        p.busy = false;
        let now = snapshot(&p.p);
        if !bits_eq(&now.v, &p.v) {
            viol("changed-contents", format!("differentiation changed a parameter's value: {}", first_diff(&now.v, &p.v)));
        }
        if !tainted {
            agree("wrong-gradient", "gradient accumulated in a parameter", &now.g, e);
        }
        p.g = now.g;
        if tainted || p.g.iter().any(|x| !(x.abs() < 1e3)) {
            p.disown_all();
            call("reset_gradient", || p.p.reset_gradient());
            p.own_all();
            p.resync();
        }
    }
}

pub fn audit(cx: &mut Cx) {
    for p in &cx.params {
        if p.busy {
            continue;
        }
        let now = snapshot(&p.p);
        if !bits_eq(&now.v, &p.v) || !bits_eq(&now.g, &p.g) || now.st.len() != p.st.len() || now.st.iter().any(|(k, v)| p.st.get(k).map(|w| bits_eq(v, w)) != Some(true)) {
            viol("changed-contents", "a parameter changed without being updated".into());
        }
    }
}

pub fn finish(cx: &mut Cx) {
    while let Some(p) = cx.params.pop() {
        p.disown_all();
        let b = p.p;
        if let Err(e) = sut_try(move || drop(b)) {
            unexpected("dropping a parameter", e);
        }
    }
    cx.opt = None;
    cx.opt2 = None;
}

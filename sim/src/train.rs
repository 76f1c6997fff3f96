//! Whole training processes: derived models, optimisers, data, checkpoints, crashes and restarts,
//! alone and side by side on one device.

use crate::case::{Case, DiskFault, Worker};
use crate::ckpt::{self, DiskReader, DiskWriter, DISK};
use crate::cx::*;
use crate::dev::{self, SimDevice};
use crate::ops::gen_data;
use crate::optim::{snapshot, with_opt, AnyOpt, FromSlice, Hyper, PState};
use crate::refm::{bits_eq, Shp};
use crate::rt::{self, host, mix, sut, sut_try, Rng};
use prima_undine::functions::BasicFunctions;
use prima_undine::{Model, Node, Optimizer, OptimizerBase, Parameter, Shape};
use prima_undine_contrib::functions::ContribFunctions;
use serde::{Deserialize, Serialize};
use std::marker::PhantomData;

type P = Parameter<'static>;

/// What a model holds besides parameters. Were it not skipped, it would be asked for parameters.
#[derive(Serialize, Deserialize)]
pub struct Plain<T>(T);
impl<T> Plain<T> {
    #[allow(unused)]
    fn parameters<'a, 'd>(&'a self) -> Vec<&'a Parameter<'d>> {
        host(|| viol("enumeration", "a skipped field was asked for its parameters".into()))
    }
    #[allow(unused)]
    fn parameters_mut<'a, 'd>(&'a mut self) -> Vec<&'a mut Parameter<'d>> {
        host(|| viol("enumeration", "a skipped field was asked for its parameters".into()))
    }
    #[allow(unused)]
    fn move_to_device(&mut self, _d: D) {
        host(|| viol("enumeration", "a skipped field was moved to a device".into()))
    }
}

#[derive(Model, Serialize, Deserialize)]
pub struct Lin<'d> {
    #[parameter(skip)]
    act: Plain<u32>,
    w: Parameter<'d>,
    b: Parameter<'d>,
}
#[derive(Model, Serialize, Deserialize)]
pub struct Norm<'d> {
    g: Parameter<'d>,
    b: Parameter<'d>,
}
#[derive(Model, Serialize, Deserialize)]
pub struct Net<'d> {
    layers: Vec<Lin<'d>>,
    norm: Norm<'d>,
    #[parameter(skip)]
    frozen: Parameter<'d>,
    extra: Vec<Parameter<'d>>,
    scale: Parameter<'d>,
    #[parameter(skip)]
    kind: Plain<u32>,
}
#[derive(Model, Serialize, Deserialize)]
pub struct Pair<'d, A, B>
where
    A: Model<'d>,
    B: Model<'d>,
{
    first: A,
    #[parameter(skip)]
    note: Plain<String>,
    second: Vec<B>,
    #[parameter(skip)]
    tag: Plain<PhantomData<&'d ()>>,
}

/// Everything a derive has to see through: documentation, attributes of other derives that look
/// like its own, raw and odd names, another lifetime name, const and type parameters.
#[derive(Model, Serialize, Deserialize)]
#[serde(rename_all = "kebab-case")]
pub struct Wide<'dev, T, const N: usize>
where
    T: Model<'dev>,
{
    /// Not `#[parameter(skip)]`.
    #[allow(unused, non_snake_case)]
    r#type: Parameter<'dev>,
    #[serde(rename = "parameter")]
    inner: T,
    #[serde(skip)]
    cache: Vec<Parameter<'dev>>,
    #[serde(default)]
    #[allow(unused)]
    #[doc(alias = "skip")]
    parameters: Vec<Vec<Parameter<'dev>>>,
    #[serde(rename = "p")]
    #[parameter(skip)]
    #[allow(unused)]
    params: Parameter<'dev>,
    #[parameter(skip)]
    _n: Plain<PhantomData<[(); N]>>,
    #[cfg(all())]
    skip: Norm<'dev>,
}

#[derive(Serialize, Deserialize)]
struct File<'d> {
    step: u32,
    epoch: u32,
    net: Net<'d>,
}

/// What a worker trains: fully determined by its description.
struct Plan {
    nin: u32,
    nout: u32,
    hidden: Vec<u32>,
    batch: u32,
    h: Hyper,
    loss: u32,
    /// Gradients are collected over this many steps before each update.
    accum: u32,
    seed: u64,
}
fn plan(w: &Worker) -> Plan {
    let mut r = Rng::new(mix(w.seed, 401));
    let n = w.model % 4;
    // some wide layers among the narrow ones
    let big = r.chance(1, 4);
    let width = |r: &mut Rng, hi: u64| if big && r.chance(1, 2) { r.range(6, 24) as u32 } else { r.range(1, hi) as u32 };
    let hidden = (0..n % 3).map(|_| width(&mut r, 5)).collect();
    let mut h = Hyper::gen(&mut Rng::new(mix(w.opt as u64, 402)));
    h.kind = w.opt % 3;
    h.eta = h.eta.min(0.1);
    h.scale = h.scale.min(1.);
    Plan { nin: width(&mut r, 5), nout: r.range(2, 4) as u32, hidden, batch: r.range(1, 4) as u32, h, loss: w.model / 4 % 3, accum: [1, 2, 1, 3][w.seed as usize / 3 % 4], seed: w.seed }
}

impl Plan {
    fn par(&self, dev: D, dims: &[u32], k: u64) -> P {
        let s = Shape::new(dims, 1);
        let d = gen_data(s.size() as usize, mix(self.seed, 500 + k), 6);
        dev.new_parameter(s, &FromSlice(&d))
    }
    fn build(&self, dev: D) -> Net<'static> {
        let mut layers = vec![];
        let mut n = self.nin;
        let mut k = 0;
        for &m in self.hidden.iter().chain(std::iter::once(&self.nout)) {
            layers.push(Lin { act: Plain(k as u32), w: self.par(dev, &[m, n], 2 * k), b: self.par(dev, &[m], 2 * k + 1) });
            n = m;
            k += 1;
        }
        Net {
            layers,
            norm: Norm { g: self.par(dev, &[self.nin], 900), b: self.par(dev, &[self.nin], 901) },
            frozen: self.par(dev, &[self.nout], 902),
            extra: vec![self.par(dev, &[self.nin], 903), self.par(dev, &[], 904)],
            scale: self.par(dev, &[], 905),
            kind: Plain(self.loss),
        }
    }
    /// One optimisation step; returns the loss.
    fn step(&self, dev: D, net: &mut Net<'static>, opt: &mut AnyOpt, step: u32) -> f32 {
        let loss;
        {
            let x = dev.new_tensor_by_slice(Shape::new(&[self.nin], self.batch), &gen_data((self.nin * self.batch) as usize, mix(self.seed, 1000 + step as u64), 0));
            let y = dev.new_tensor_by_slice(Shape::new(&[self.nout], self.batch), &gen_data((self.nout * self.batch) as usize, mix(self.seed, 2000 + step as u64), 6));
            let mut ex = net.extra.iter_mut();
            let (e0, e1) = (ex.next().unwrap(), ex.next().unwrap());
            let mut h: Node = Node::from(&x);
            h = &h * Node::from(e0);
            if self.nin > 1 {
                let g: Node = Node::from(&mut net.norm.g);
                let b: Node = Node::from(&mut net.norm.b);
                h = h.layer_normalization(&g, &b, 1e-3);
            }
            let n = net.layers.len();
            for (i, l) in net.layers.iter_mut().enumerate() {
                let act = l.act.0;
                let w: Node = Node::from(&mut l.w);
                let b: Node = Node::from(&mut l.b);
                h = w.matmul(&h) + &b;
                if i + 1 < n {
                    h = match act % 4 {
                        0 => h.tanh(),
                        1 => h.sigmoid(),
                        2 => h.elu(0.5),
                        _ => h.relu(),
                    };
                }
            }
            let s: Node = Node::from(&mut net.scale);
            let o: Node = Node::from(e1);
            let f: Node = Node::from(&net.frozen.value);
            h = &h * &s + &o + &f;
            let l: Node = match self.loss {
                0 => {
                    let d = &h - Node::from(&y);
                    (&d * &d).sum(0).batch_mean()
                }
                1 => {
                    let ids: Vec<u32> = (0..self.batch).map(|i| (mix(self.seed, (step * 7 + i) as u64) % self.nout as u64) as u32).collect();
                    h.sparse_softmax_cross_entropy(&ids, 0).batch_mean()
                }
                _ => {
                    let parts = h.split(0, self.nout);
                    let rs: Vec<&Node> = parts.iter().collect();
                    let z = Node::concat(&rs, 0);
                    let d = z - Node::from(&y);
                    d.abs().sum(0).batch_sum()
                }
            };
            loss = l.to_float();
            l.backward();
        }
        if (step + 1) % self.accum == 0 {
            with_opt!(opt, o => {
                o.set_learning_rate_scaling(1. / (1. + step as f32 / 8.));
                o.update_model(net);
            });
        }
        loss
    }
}

#[derive(Clone, PartialEq)]
struct Rec {
    loss: u32,
    state: Vec<PState>,
}
fn states(net: &Net<'static>) -> Vec<PState> {
    let ps = sut(|| net.parameters());
    let mut v: Vec<PState> = host(|| Vec::with_capacity(ps.len() + 1));
    for p in &ps {
        v.push(snapshot(p));
    }
    drop(ps);
    v.push(snapshot(&net.frozen));
    v
}
fn same_states(kind: &str, what: &str, a: &[PState], b: &[PState]) {
    if a.len() != b.len() {
        viol(kind, format!("{}: {} parameters instead of {}", what, a.len(), b.len()));
    }
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        if !bits_eq(&x.v, &y.v) {
            viol(kind, format!("{}: value of parameter {}: {}", what, i, first_diff(&x.v, &y.v)));
        }
        if !bits_eq(&x.g, &y.g) {
            viol(kind, format!("{}: gradient of parameter {}: {}", what, i, first_diff(&x.g, &y.g)));
        }
        if x.st.keys().ne(y.st.keys()) {
            viol(kind, format!("{}: statistics of parameter {} are {:?} instead of {:?}", what, i, x.st.keys(), y.st.keys()));
        }
        for (k, v) in &x.st {
            if !bits_eq(v, &y.st[k]) {
                viol(kind, format!("{}: statistic {} of parameter {}: {}", what, k, i, first_diff(v, &y.st[k])));
            }
        }
    }
}

fn configure(p: &Plan, net: &mut Net<'static>, epoch: u32) -> Option<AnyOpt> {
    let mut opt = host(|| p.h.make());
    call("configure_model", || {
        with_opt!(&mut opt, o => {
            o.configure_model(net);
            *o.epoch() = epoch;
        })
    })?;
    Some(opt)
}

/// The trajectory of an undisturbed worker on a device of its own: state before the first step
/// and after every step.
fn solo(w: &Worker) -> Vec<Rec> {
    let p = plan(w);
    let d = dev::new_device(true);
    let mut out = vec![];
    {
        let dv = d.dev;
        let mut net = Box::new(call("building a model", || p.build(dv)).unwrap());
        let mut opt = configure(&p, &mut net, 0).unwrap();
        out.push(Rec { loss: 0, state: states(&net) });
        for s in 0..w.steps {
            let loss = call("a training step", || p.step(dv, &mut net, &mut opt, s)).unwrap();
            let epoch = with_opt!(&mut opt, o => *o.epoch());
            if epoch != (s + 1) / p.accum {
                viol("wrong-update", format!("the epoch is {} after {} updates", epoch, (s + 1) / p.accum));
            }
            out.push(Rec { loss: loss.to_bits(), state: states(&net) });
        }
        if let Err(e) = sut_try(move || drop(net)) {
            unexpected("dropping a model", e);
        }
    }
    d.destroy();
    out
}

/// A worker's simulated disk: the current and the previous checkpoint.
struct Disk {
    main: Option<(Vec<u8>, bool, u32)>,
    prev: Option<(Vec<u8>, bool, u32)>,
    ops: u32,
    faults: Vec<DiskFault>,
}
impl Disk {
    fn fault(&mut self, write: bool) -> Option<DiskFault> {
        let n = self.ops;
        self.ops += 1;
        self.faults.iter().find(|f| f.nth == n && (f.kind % 8 < 4) == write).copied()
    }
}

fn load(fmt: u32, disk: &mut Disk) -> Option<File<'static>> {
    let fault = disk.fault(false);
    let mut order: Vec<(Vec<u8>, bool, u32)> = vec![];
    order.extend(disk.main.clone());
    order.extend(disk.prev.clone());
    for (k, (b, good, step)) in order.into_iter().enumerate() {
        let mut again = k == 0 && fault.is_some();
        loop {
            let mut rd: DiskReader = ckpt::reader(&b);
            let mut whole = good;
            if again {
                let f = fault.unwrap();
                match f.kind % 8 {
                    4 => {
                        rd.fail_at = Some(f.at as usize % b.len().max(1));
                        whole = false;
                    }
                    5 => {
                        let n = f.at as usize % b.len().max(1);
                        rd.buf.truncate(n);
                        whole = false;
                    }
                    6 => rd.short = f.x as u64 | 1,
                    _ => rd.short = f.at as u64 | 1,
                }
                hit(DISK[(f.kind % 8).max(4) as usize]);
            }
            let r = match sut_try(|| ckpt::load::<File<'static>>(fmt, &mut rd)) {
                Ok(r) => r,
                Err(p) => viol("checkpoint", format!("loading a {} checkpoint panicked: {}", if whole { "good" } else { "damaged" }, p.msg)),
            };
            match r {
                Ok(f) => {
                    if !whole {
                        viol("checkpoint", "an incomplete checkpoint was loaded as if it were complete".into());
                    }
                    if f.step != step {
                        viol("checkpoint", format!("the checkpoint of step {} was restored as step {}", step, f.step));
                    }
                    return Some(f);
                }
                Err(e) if whole => viol("checkpoint", format!("a good checkpoint cannot be loaded: {}", e)),
                Err(_) => {
                    hit("damage-detected");
                    if again && good {
                        again = false;
                        continue;
                    }
                    break;
                }
            }
        }
    }
    None
}

fn store(fmt: u32, disk: &mut Disk, f: &File<'static>) -> Option<()> {
    let fault = disk.fault(true);
    let mut w = DiskWriter::new();
    let mut torn = None;
    if let Some(f) = fault {
        hit(DISK[(f.kind % 4) as usize]);
        match f.kind % 4 {
            k @ 0..=1 => w.fail_at = Some((f.at as usize, k)),
            2 => torn = Some(f.at as usize),
            _ => w.short = f.x as u64 | 1,
        }
    }
    let r = call("saving a checkpoint", || ckpt::save(fmt, f, &mut w))?;
    match r {
        Err(e) => {
            if !w.fired {
                viol("checkpoint", format!("saving to a working disk failed: {}", e));
            }
            return Some(()); // the old checkpoint stays in place
        }
        Ok(()) if w.fired => viol("checkpoint", "a write error while saving was not reported".into()),
        Ok(()) => {}
    }
    stats().saves += 1;
    let mut b = std::mem::take(&mut w.buf);
    let mut good = true;
    if let Some(at) = torn {
        let n = at % b.len().max(1);
        b.truncate(n);
        good = false;
    }
    disk.prev = disk.main.take();
    disk.main = Some((b, good, f.step));
    Some(())
}

enum End {
    Done,
    Crash,
}

/// One life of a worker: from start or restart to completion, crash point or injected failure.
fn life(w: &Worker, p: &Plan, dev: D, exp: &[Rec], disk: &mut Disk, actions: &mut u32, kind: &str) -> End {
    let file = load(w.fmt, disk);
    let mut step = 0;
    let mut epoch = 0;
    let net = match file {
        Some(f) => {
            hit("resumed");
            step = f.step;
            epoch = f.epoch;
            let mut b = Box::new(f.net);
            let bp: *mut Net<'static> = &mut *b;
            ckpt::retry_move("Model::move_to_device", &|| unsafe { &mut *bp }.move_to_device(dev));
            // fields the derive skips stay where they were put
            ckpt::retry_move("Parameter::move_to_device", &|| unsafe { &mut *bp }.frozen.move_to_device(dev));
            b
        }
        None => match call("building a model", || p.build(dev)) {
            Some(n) => Box::new(n),
            None => return End::Crash,
        },
    };
    let mut net = net;
    if step > 0 {
        same_states("resume", &format!("after restoring step {}", step), &states(&net), &exp[step as usize].state);
    }
    let end = (|| {
        let mut opt = match configure(p, &mut net, epoch) {
            Some(o) => o,
            None => return End::Crash,
        };
        same_states(kind, &format!("before step {}", step), &states(&net), &exp[step as usize].state);
        loop {
            if w.every > 0 && step % w.every == 0 && step > 0 && disk.main.as_ref().map(|m| m.2) != Some(step) {
                let crash = w.crashes.contains(actions);
                *actions += 1;
                let f = File { step, epoch: with_opt!(&mut opt, o => *o.epoch()), net: unsafe { std::ptr::read(&*net) } };
                let r = store(w.fmt, disk, &f);
                std::mem::forget(f);
                if r.is_none() || crash {
                    return End::Crash;
                }
            }
            if step == w.steps {
                return End::Done;
            }
            let crash = w.crashes.contains(actions);
            *actions += 1;
            let loss = match call("a training step", || p.step(dev, &mut net, &mut opt, step)) {
                Some(l) => l,
                None => return End::Crash,
            };
            step += 1;
            if loss.to_bits() != exp[step as usize].loss {
                viol(kind, format!("step {}: the loss is {:?}, alone it is {:?}", step, loss, f32::from_bits(exp[step as usize].loss)));
            }
            same_states(kind, &format!("after step {}", step), &states(&net), &exp[step as usize].state);
            absorb(loss.to_bits() as u64);
            stats().updates += 1;
            if crash {
                return End::Crash;
            }
        }
    })();
    if let Err(e) = sut_try(move || drop(net)) {
        unexpected("dropping a model", e);
    }
    end
}

fn worker(w: &Worker, id: usize, dev: D, exp: &[Rec], faults: Vec<DiskFault>, injected: u32, kind: &str) {
    // JSON has no infinities
    let mut w = w.clone();
    if exp.iter().any(|e| e.state.iter().any(|s| s.v.iter().chain(&s.g).chain(s.st.values().flatten()).any(|x| !x.is_finite()))) {
        w.fmt = 1;
    }
    let w = &w;
    let p = plan(w);
    let mut lives = w.crashes.len() as u32 + injected + faults.len() as u32 + 2;
    let mut disk = Disk { main: None, prev: None, ops: 0, faults };
    let mut actions = 0;
    let mut own: Vec<SimDevice> = vec![];
    let mut cur = dev;
    loop {
        at(actions, disk.ops);
        match life(w, &p, cur, exp, &mut disk, &mut actions, kind) {
            End::Done => break,
            End::Crash => {
                hit("crash");
                if lives == 0 {
                    viol("no-progress", "training does not complete although faults have stopped".into());
                }
                lives -= 1;
                if mix(w.seed, actions as u64 + 17) % 2 == 0 {
                    // the replacement process gets a device of its own
                    let d = dev::new_device(false);
                    cur = d.dev;
                    own.push(d);
                }
            }
        }
    }
    let _ = id;
    for d in own {
        d.destroy();
    }
}

fn kind_of(prop: &str) -> &'static str {
    match prop {
        "C09" | "C10" => "resume",
        _ => "interference",
    }
}

pub fn run(case: &Case) {
    let t = case.train.clone().unwrap_or_default();
    let ws = t.workers.clone();
    if ws.is_empty() {
        return;
    }
    let n = ws.len().min(rt::MAXT - 1);
    // reference trajectories
    let exp: &'static mut Vec<Vec<Rec>> = Box::leak(Box::new(vec![]));
    let ep = exp as *mut Vec<Vec<Rec>> as usize;
    let ws2 = ws.clone();
    dev::world().enabled = false;
    rt::run_threads(
        &rt::Sched::Coop,
        case.seed,
        &[7],
        vec![Box::new(move || {
            let e = unsafe { &mut *(ep as *mut Vec<Vec<Rec>>) };
            for w in &ws2 {
                e.push(solo(w));
            }
        })],
    );
    dev::world().enabled = true;
    // together
    let root: &'static mut Option<SimDevice> = Box::leak(Box::new(None));
    let rp = root as *mut Option<SimDevice> as usize;
    let plain = case.plain;
    rt::run_threads(&rt::Sched::Coop, case.seed, &[8], vec![Box::new(move || unsafe { *(rp as *mut Option<SimDevice>) = Some(dev::new_device(plain)) })]);
    let dv = unsafe { (*(rp as *mut Option<SimDevice>)).as_ref().unwrap().dev };
    let kind = kind_of(&case.prop);
    let bodies: Vec<Box<dyn FnOnce() + Send>> = (0..n)
        .map(|i| {
            let w = ws[i].clone();
            let fs: Vec<DiskFault> = t.disk.iter().filter(|f| f.x as usize % n == i).cloned().collect();
            let inj = case.faults.iter().filter(|f| f.client as usize == i).count() as u32;
            Box::new(move || {
                dev::world().client_of[rt::tid()] = i as u8;
                let e = unsafe { &*(ep as *const Vec<Vec<Rec>>) };
                worker(&w, i, dv, &e[i], fs, inj, kind);
            }) as Box<dyn FnOnce() + Send>
        })
        .collect();
    let keys: Vec<u64> = (0..n as u64).map(|i| 100 + i).collect();
    crate::main_begin();
    rt::run_threads(&case.sched, case.seed, &keys, bodies);
    crate::main_trace();
    dev::world().client_of = [255; rt::MAXT];
    rt::run_threads(
        &rt::Sched::Coop,
        case.seed,
        &[9],
        vec![Box::new(move || {
            let d = unsafe { (*(rp as *mut Option<SimDevice>)).take().unwrap() };
            d.destroy();
            crate::accounting();
        })],
    );
    unsafe {
        drop(Box::from_raw(ep as *mut Vec<Vec<Rec>>));
        drop(Box::from_raw(rp as *mut Option<SimDevice>));
    }
}

// ---------------------------------------------------------------- model enumeration

/// A model of random structure: enumeration, moving, configuring and updating.
pub fn models(case: &Case) {
    let seed = case.seed;
    let plain = case.plain;
    let rounds = case.clients.iter().map(|c| c.len()).sum::<usize>().max(1);
    crate::main_begin();
    rt::run_threads(
        &case.sched,
        seed,
        &[5],
        vec![Box::new(move || {
            dev::world().client_of[rt::tid()] = 0;
            let d = dev::new_device(plain);
            for k in 0..rounds {
                at(k as u32, 0);
                one_model(d.dev, mix(seed, k as u64));
            }
            d.destroy();
            crate::accounting();
        })],
    );
    crate::main_trace();
}

type Inner = Pair<'static, Net<'static>, Pair<'static, Vec<Lin<'static>>, Vec<P>>>;
type Big = Wide<'static, Inner, 3>;

fn gather<'a>(b: &'a Big) -> (Vec<&'a P>, Vec<&'a P>) {
    let mut inc: Vec<&P> = vec![];
    let mut exc: Vec<&P> = vec![];
    let w = b;
    inc.push(&w.r#type);
    let b = &w.inner;
    let n = &b.first;
    for l in &n.layers {
        inc.push(&l.w);
        inc.push(&l.b);
    }
    inc.push(&n.norm.g);
    inc.push(&n.norm.b);
    inc.extend(n.extra.iter());
    inc.push(&n.scale);
    exc.push(&n.frozen);
    for p in &b.second {
        for l in &p.first {
            inc.push(&l.w);
            inc.push(&l.b);
        }
        for v in &p.second {
            inc.extend(v.iter());
        }
    }
    inc.extend(w.parameters.iter().flatten());
    inc.push(&w.skip.g);
    inc.push(&w.skip.b);
    exc.push(&w.params);
    // what a checkpoint does not keep comes last
    inc.extend(w.cache.iter());
    (inc, exc)
}
fn addr(p: &P) -> usize {
    p as *const P as usize
}
/// The unskipped parameters in the order of declaration.
fn declared(b: &Big) -> Vec<usize> {
    let n = b.cache.len();
    let (inc, _) = gather(b);
    let k = inc.len() - n;
    let at = inc.iter().position(|p| addr(p) == b.parameters.iter().flatten().chain([&b.skip.g]).map(addr).next().unwrap()).unwrap();
    let mut v: Vec<&P> = inc[..at].to_vec();
    v.extend(&inc[k..]);
    v.extend(&inc[at..k]);
    v.into_iter().map(addr).collect()
}
/// Enumeration, for reading and for writing, is the order of declaration.
fn listed(what: &str, bp: *mut Big) {
    let want = declared(unsafe { &*bp });
    let a = sut(|| unsafe { &*bp }.parameters());
    let ga: Vec<usize> = a.iter().map(|p| addr(p)).collect();
    sut(move || drop(a));
    let m = sut(|| unsafe { &mut *bp }.parameters_mut());
    let gm: Vec<usize> = m.iter().map(|p| addr(p)).collect();
    sut(move || drop(m));
    for (n, g) in [("parameters", ga), ("parameters_mut", gm)] {
        if g != want {
            let (mut s, mut t) = (g.clone(), want.clone());
            s.sort();
            t.sort();
            if s == t {
                viol("enumeration", format!("{}: {} does not follow the order of declaration", what, n));
            }
            viol("enumeration", format!("{}: {} lists {} parameters, the model has {}", what, n, g.len(), want.len()));
        }
    }
    hit("enumerated");
}

fn on_t(t: &prima_undine::Tensor<'static>) -> bool {
    haddr(t) != 0
}
fn on(q: &P) -> bool {
    on_t(&q.value) && on_t(&q.gradient) && q.stats.values().all(|t| on_t(&t.borrow()))
}

fn one_model(dev: D, seed: u64) {
    let mut r = Rng::new(mix(seed, 601));
    let w = Worker { model: r.below(12) as u32, opt: r.below(1000) as u32, seed: r.next(), steps: 0, every: 0, crashes: vec![], fmt: 0 };
    let p = plan(&w);
    let shape: Vec<(u32, Vec<u32>)> = (0..r.below(4)).map(|_| (r.below(3) as u32, (0..r.below(3)).map(|_| r.below(4) as u32).collect())).collect();
    let (ncache, nvv) = (r.below(3) as usize, r.below(4) as u32);
    let build = || -> Big {
        let mut k = 3000;
        let mut nk = || {
            k += 1;
            k
        };
        let inner = Pair {
            first: p.build(dev),
            note: Plain(String::from("outer")),
            second: shape
                .iter()
                .map(|(nl, vs)| Pair {
                    first: (0..*nl).map(|i| Lin { act: Plain(i), w: p.par(dev, &[2, 1 + i], nk()), b: p.par(dev, &[2], nk()) }).collect(),
                    note: Plain(String::from("inner")),
                    second: vs.iter().map(|&n| (0..n).map(|i| p.par(dev, &[1 + i], nk())).collect()).collect(),
                    tag: Plain(PhantomData),
                })
                .collect(),
            tag: Plain(PhantomData),
        };
        Wide {
            r#type: p.par(dev, &[3], 700),
            inner,
            cache: (0..ncache).map(|i| p.par(dev, &[1 + i as u32], 701)).collect(),
            parameters: (0..nvv).map(|i| (0..i).map(|j| p.par(dev, &[1, 1 + j], 710 + j as u64)).collect()).collect(),
            params: p.par(dev, &[2, 2], 702),
            _n: Plain(PhantomData),
            skip: Norm { g: p.par(dev, &[], 703), b: p.par(dev, &[4], 704) },
        }
    };
    let mut b: Option<Box<Big>> = None;
    for _ in 0..40 {
        if let Some(x) = call("building a model", build) {
            b = Some(Box::new(x));
            break;
        }
    }
    let mut b = match b {
        Some(b) => b,
        None => return,
    };
    let bp: *mut Big = &mut *b;
    let check = |what: &str| listed(what, bp);
    check("a new model");
    let snap = |v: Vec<&P>| -> Vec<PState> { v.into_iter().map(snapshot).collect() };
    // configuring and updating reach every parameter and nothing else
    let mut opt = p.h.make();
    for _ in 0..200 {
        if call("configure_model", || with_opt!(&mut opt, o => o.configure_model(unsafe { &mut *bp }))).is_some() {
            break;
        }
    }
    let (inc, exc) = gather(unsafe { &*bp });
    for q in &inc {
        for n in p.h.stats() {
            if !q.has_stat(n) {
                viol("enumeration", format!("configuring a model left a parameter without {}", n));
            }
        }
    }
    for q in &exc {
        if !q.stats.is_empty() {
            viol("enumeration", "configuring a model reached a skipped parameter".into());
        }
    }
    for (j, q) in inc.iter().chain(&exc).enumerate() {
        let ad = std::hint::black_box(&q.gradient as *const prima_undine::Tensor<'static> as usize);
        let g: &mut prima_undine::Tensor<'static> = unsafe { &mut *(ad as *mut prima_undine::Tensor<'static>) };
        let d = gen_data(q.shape().size() as usize, mix(seed, j as u64 % 7), 6);
        for _ in 0..200 {
            if call("setting a gradient", || dev.reset_tensor_by_slice(g, &d)).is_some() {
                break;
            }
        }
    }
    let before = snap(gather(unsafe { &*bp }).0);
    let ebefore = snap(gather(unsafe { &*bp }).1);
    let done = call("update_model", || with_opt!(&mut opt, o => o.update_model(unsafe { &mut *bp }))).is_some();
    let after = snap(gather(unsafe { &*bp }).0);
    let eafter = snap(gather(unsafe { &*bp }).1);
    if done {
        crate::optim::check_update(&p.h, 0, &before, &after);
    }
    same_states("enumeration", "a skipped parameter after an update", &eafter, &ebefore);
    check("a model after an update");
    // through a checkpoint, to the device
    let fmt = r.below(2) as u32;
    let mut wr = DiskWriter::new();
    let saved = matches!(call("saving a model", || ckpt::save(fmt, unsafe { &*bp }, &mut wr)), Some(Ok(())));
    if let Err(e) = sut_try(move || drop(b)) {
        unexpected("dropping a model", e);
    }
    if !saved {
        return;
    }
    let mut rd = ckpt::reader(&wr.buf);
    let mut b = match sut_try(|| ckpt::load::<Big>(fmt, &mut rd)) {
        Ok(Ok(b)) => Box::new(b),
        Ok(Err(e)) => viol("checkpoint", format!("a saved model cannot be loaded: {}", e)),
        Err(e) => viol("checkpoint", format!("loading a saved model panicked: {}", e.msg)),
    };
    let bp: *mut Big = &mut *b;
    listed("a restored model", bp);
    {
        // parts of it first: what has arrived stays
        for k in 0..r.below(4) {
            let (lo, hi) = (mix(seed, 900 + k), r.range(1, 4));
            match r.below(7) {
                0 => {
                    let n = unsafe { &*bp }.parameters.len() as u64;
                    if n > 0 {
                        let i = (lo % n) as usize;
                        ckpt::retry_move("Vec<Parameter>::move_to_device", &|| unsafe { &mut *bp }.parameters[i].move_to_device(dev));
                        if unsafe { &*bp }.parameters[i].iter().any(|q| !on(q)) {
                            viol("enumeration", "moving a vector of parameters left one behind".into());
                        }
                    }
                }
                1 => {
                    ckpt::retry_move("Vec<Vec<Parameter>>::move_to_device", &|| unsafe { &mut *bp }.parameters.move_to_device(dev));
                    if unsafe { &*bp }.parameters.iter().flatten().any(|q| !on(q)) {
                        viol("enumeration", "moving a vector of vectors left a parameter behind".into());
                    }
                }
                2 => {
                    ckpt::retry_move("Vec<Model>::move_to_device", &|| unsafe { &mut *bp }.inner.first.layers.move_to_device(dev));
                    if unsafe { &*bp }.inner.first.layers.iter().any(|l| !on(&l.w) || !on(&l.b)) {
                        viol("enumeration", "moving a vector of models left a parameter behind".into());
                    }
                }
                3 => {
                    ckpt::retry_move("Vec<Parameter>::move_to_device", &|| unsafe { &mut *bp }.inner.first.extra.move_to_device(dev));
                    if unsafe { &*bp }.inner.first.extra.iter().any(|q| !on(q)) {
                        viol("enumeration", "moving a vector of parameters left one behind".into());
                    }
                }
                _ => {
                    // some single parameters, or only their values
                    for (i, q) in sut(|| unsafe { &mut *bp }.parameters_mut()).into_iter().enumerate() {
                        if mix(lo, i as u64) % hi != 0 {
                            continue;
                        }
                        let q: *mut P = q;
                        if mix(lo, i as u64) % 5 == 0 {
                            if !on_t(unsafe { &(*q).value }) {
                                ckpt::retry_move("Tensor::move_to_device", &|| unsafe { &mut (*q).value }.move_to_device(dev));
                            }
                        } else {
                            ckpt::retry_move("Parameter::move_to_device", &|| unsafe { &mut *q }.move_to_device(dev));
                        }
                    }
                }
            }
            hit("moved-in-parts");
        }
        ckpt::retry_move("Model::move_to_device", &|| unsafe { &mut *bp }.move_to_device(dev));
        let skipped = call("Parameter::move_to_device", || {
            unsafe { &mut *bp }.inner.first.frozen.move_to_device(dev);
            unsafe { &mut *bp }.params.move_to_device(dev);
        })
        .is_some();
        let (inc, exc) = gather(unsafe { &*bp });
        for q in &inc {
            if !on(q) {
                viol("enumeration", "moving a model to a device left a parameter behind".into());
            }
        }
        same_states("resume", "a model moved to the device", &snap(inc), &after[..after.len() - ncache]);
        if skipped {
            same_states("resume", "a skipped parameter of a restored model", &snap(exc), &eafter);
        }
        hit("model-moved");
    }
    if let Err(e) = sut_try(move || drop(b)) {
        unexpected("dropping a model", e);
    }
    let _ = Shp::new(&[], 1);
}

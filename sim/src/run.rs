//! Executes one case.

use crate::case::*;
use crate::client::{mail, Cx, Shared};
use crate::cx::*;
use crate::dev::{self, SimDevice};
use crate::ops::{gen_data, gen_shape};
use crate::refm::TVal;
use crate::rt::{self, mix, sut_try, Rng, Sched};

struct Root {
    dev: Option<SimDevice>,
    other: Option<SimDevice>,
    shared: Box<Shared>,
    cxs: Vec<Option<Cx>>,
}
static mut ROOT: *mut Root = std::ptr::null_mut();
fn root() -> &'static mut Root {
    unsafe { &mut *ROOT }
}

fn solo(seed: u64, key: u64, f: impl FnOnce() + Send + 'static) {
    rt::run_threads(&Sched::Coop, seed, &[key], vec![Box::new(f)]);
}

pub fn run(case: &Case) {
    let cap = if case.scenario == "recurrence" { 8_000_000_000 } else { 400_000_000 };
    rt::begin(case.seed, case.reuse, cap);
    dev::reset_world(case.faults.clone(), case.slack, true);
    reset_owned();
    crate::random::reset();
    mail().clear();
    unsafe { POS = [(0, 0); rt::MAXT] };
    let d = match case.scenario.as_str() {
        "train" => "train",
        "model" => "model",
        _ => "storage",
    };
    unsafe { DOM = [d; rt::MAXT] };
    match case.scenario.as_str() {
        "train" => crate::train::run(case),
        "model" => crate::train::models(case),
        _ => mixed(case),
    }
}

fn setup(case: &Case) {
    unsafe {
        if !ROOT.is_null() {
            drop(Box::from_raw(ROOT));
        }
        ROOT = Box::into_raw(Box::new(Root { dev: None, other: None, shared: Box::new(Shared { slots: vec![] }), cxs: vec![] }));
    }
    let plain = case.plain;
    unsafe { dev::PLAIN = plain };
    let shared = case.shared.clone();
    let n = case.clients.len();
    mail().clear();
    solo(case.seed, 1, move || {
        let d = dev::new_device(plain);
        let o = dev::new_device(true);
        let dv = d.dev;
        for (i, s) in shared.iter().enumerate() {
            let mut r = Rng::new(*s);
            let sh = gen_shape(&mut r, true);
            let v = TVal::new(sh.clone(), gen_data(sh.size(), *s, r.below(4) as u32));
            let ss = sh.sut();
            if let Some(t) = call("new_tensor_by_slice", || dv.new_tensor_by_slice(ss, &v.d)) {
                own(haddr(&t), sh.size() as u32, 1 + i as u64);
                root().shared.slots.push(Slot { uid: 1 + i as u64, t: Box::new(t), v, pins: 0, view_of: None });
            }
        }
        for _ in 0..n {
            mail().push(vec![]);
        }
        let (dv, ov) = (d.dev, o.dev);
        root().dev = Some(d);
        root().other = Some(o);
        let sh: &'static Shared = unsafe { &*(&*root().shared as *const Shared) };
        for i in 0..n {
            root().cxs.push(Some(Cx::new(i, dv, ov, sh)));
        }
    });
}

fn mixed(case: &Case) {
    setup(case);
    if case.scenario == "rounds" {
        return rounds(case);
    }
    let n = case.clients.len();
    let bodies: Vec<Box<dyn FnOnce() + Send>> = (0..n)
        .map(|i| {
            let steps = case.clients[i].clone();
            let fin = mix(case.seed, 900 + i as u64) % 2 == 0;
            Box::new(move || {
                dev::world().client_of[rt::tid()] = i as u8;
                let mut cx = root().cxs[i].take().unwrap();
                for (k, s) in steps.iter().enumerate() {
                    at(k as u32 + 1, 0);
                    cx.step(s);
                }
                at(steps.len() as u32 + 1, 0);
                cx.audit();
                if fin {
                    cx.finish();
                } else {
                    root().cxs[i] = Some(cx);
                }
            }) as Box<dyn FnOnce() + Send>
        })
        .collect();
    let keys: Vec<u64> = (0..n as u64).map(|i| 100 + i).collect();
    crate::main_begin();
    rt::run_threads(&case.sched, case.seed, &keys, bodies);
    crate::main_trace();
    dev::world().client_of = [255; rt::MAXT];
    dev::world().enabled = false;
    let plain = case.plain;
    let seed = case.seed;
    solo(case.seed, 2, move || {
        // once failures have stopped the device still serves everyone
        dom("probe");
        probe(root().dev.as_ref().unwrap().dev, seed);
        dom("storage");
        for c in root().cxs.iter_mut().flatten() {
            c.audit();
        }
        for m in mail().iter() {
            for s in m {
                same("a tensor in transit", &s.t, &s.v);
            }
        }
        for s in &root().shared.slots {
            same("a shared tensor at the end", &s.t, &s.v);
        }
        for c in root().cxs.iter_mut() {
            if let Some(mut c) = c.take() {
                c.finish();
            }
        }
        for m in mail().iter_mut() {
            for s in m.drain(..) {
                disown(haddr(&s.t));
                let t = s.t;
                if let Err(p) = sut_try(move || drop(t)) {
                    unexpected("dropping a tensor", p);
                }
            }
        }
        for s in root().shared.slots.drain(..) {
            disown(haddr(&s.t));
            let t = s.t;
            if let Err(p) = sut_try(move || drop(t)) {
                unexpected("dropping a shared tensor", p);
            }
        }
        if !plain {
            settled(root().dev.as_ref().unwrap().dev);
        }
        root().dev.take().unwrap().destroy();
        root().other.take().unwrap().destroy();
        accounting();
    });
}

/// Valid work after all faults have stopped.
fn probe(dev: D, seed: u64) {
    let d = gen_data(6, seed, 0);
    let s = prima_undine::Shape::new(&[3], 2);
    use prima_undine::functions::{BasicFunctions, RandomDeviceFunctions};
    let r = call("work after faults have stopped", || {
        let x = dev.new_tensor_by_slice(s, &d);
        let u = dev.random_uniform(s, 0., 1.);
        let n: prima_undine::Node = (&x).into();
        let y = n.sum(0);
        y.backward();
        (y.to_vec(), u.to_vec())
    });
    if let Some((y, u)) = r {
        let e: Vec<crate::refm::E> = (0..2)
            .map(|b| {
                let xs = &d[b * 3..b * 3 + 3];
                crate::refm::E { v: xs.iter().map(|&x| x as f64).sum(), e: 6. * crate::refm::EPS * xs.iter().map(|x| x.abs() as f64).sum::<f64>() }
            })
            .collect();
        agree("wrong-result", "work after faults have stopped", &y, &e);
        if u.len() != 6 || u.iter().any(|x| !(0. ..=1.).contains(x)) {
            viol("random", "uniform draws after faults have stopped are out of range".into());
        }
    }
}

/// Every buffer has been released: the same demands again are met from released buffers.
fn settled(dev: D) {
    if dev::world().created == dev::live_handles() as u64 {
        let before = dev::world().created;
        let mut sizes: Vec<(u32, u64)> = dev::world().created_cls.iter().map(|(&k, &n)| (k, n)).collect();
        sizes.sort();
        let mut hs = vec![];
        for &(k, n) in &sizes {
            for _ in 0..n {
                if let Some(h) = call("new_handle", || dev.new_handle(k)) {
                    own(h.load(std::sync::atomic::Ordering::SeqCst) as usize, k, 3);
                    hs.push(h);
                }
            }
        }
        if dev::world().created != before {
            viol("reuse", format!("{} buffers had been released, yet {} further ones were requested from the backend for the same sizes", before, dev::world().created - before));
        }
        for h in hs {
            disown(h.load(std::sync::atomic::Ordering::SeqCst) as usize);
            call("drop_handle", move || dev.drop_handle(&h));
        }
        hit("all-buffers-reused");
    }
}

pub fn accounting() {
    let w = dev::world();
    if dev::live_handles() != 0 || w.created != w.released {
        viol("buffer-accounting", format!("after the device is gone {} of {} buffers have not been returned", dev::live_handles(), w.created));
    }
}

/// The same work again and again (each round in a thread of its own that starts from the same
/// entropy): memory use reaches a plateau after the first round.
fn rounds(case: &Case) {
    static mut FIRST: u64 = 0;
    crate::main_begin();
    for round in 0..4u32 {
        let steps = case.clients[0].clone();
        crate::random::reset();
        crate::random::reset_moments();
        rt::run_threads(
            &Sched::Coop,
            case.seed,
            &[100],
            vec![Box::new(move || {
                dev::world().client_of[rt::tid()] = 0;
                let mut cx = root().cxs[0].take().unwrap();
                for (k, s) in steps.iter().enumerate() {
                    if matches!(s, Step::Send { .. } | Step::Recv) {
                        continue;
                    }
                    at(k as u32 + 1, round);
                    cx.step(s);
                }
                cx.audit();
                cx.finish();
                let c = dev::world().created;
                if round == 0 {
                    unsafe { FIRST = c };
                } else if c != unsafe { FIRST } {
                    viol("reuse", format!("round {} of the same work needed {} further buffers although everything had been released", round + 1, c - unsafe { FIRST }));
                }
                let fresh = Cx::new(0, cx.dev, cx.other, cx.shared);
                root().cxs[0] = Some(fresh);
            })],
        );
    }
    crate::main_trace();
    hit("rounds");
    dev::world().client_of = [255; rt::MAXT];
    solo(case.seed, 2, || {
        root().cxs[0] = None;
        for s in root().shared.slots.drain(..) {
            disown(haddr(&s.t));
            let t = s.t;
            if let Err(p) = sut_try(move || drop(t)) {
                unexpected("dropping a shared tensor", p);
            }
        }
        root().dev.take().unwrap().destroy();
        root().other.take().unwrap().destroy();
        accounting();
    });
}

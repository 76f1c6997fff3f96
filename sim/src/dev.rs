//! The simulated backend: real kernels and real host buffers behind a seam that records every
//! buffer handed out or taken back, injects allocation failures and is a scheduling point.

use crate::rt::{self, host, sut};
use prima_undine::device_impl::{DeviceImpl, FunctionBwImpl, FunctionFwF32Impl, FunctionFwImpl, FunctionFwU32Impl};
use prima_undine::devices::Naive;
use prima_undine::{Device, Tensor};
use std::collections::HashMap;
use std::ffi::c_void;
use std::sync::atomic::{AtomicPtr, Ordering};

pub const GARBAGE: u32 = 0x7FC0_BEEF; // a NaN: whoever reads it before writing is noticed

/// What the fault injector may do to one client.
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, PartialEq)]
pub struct Fault {
    pub client: u8,
    pub kind: FaultKind,
    /// Fires at the nth opportunity of that client (0 based).
    pub nth: u32,
}
#[derive(Clone, Copy, Debug, serde::Serialize, serde::Deserialize, PartialEq, Eq, Hash)]
pub enum FaultKind {
    /// The backend cannot provide a buffer.
    Alloc,
    /// A forward kernel fails before producing anything.
    FwBefore,
    /// A forward kernel fails after (partially) writing its output.
    FwAfter,
    BwBefore,
    BwAfter,
    /// A read-back fails.
    ReadBack,
    /// A client is descheduled for a long time.
    Stall,
}
pub const FK: [&str; 7] = ["alloc-failure", "forward-kernel-failure-before", "forward-kernel-failure-after", "backward-kernel-failure-before", "backward-kernel-failure-after", "read-back-failure", "stall"];
pub fn fk_index(k: FaultKind) -> usize {
    match k {
        FaultKind::Alloc => 0,
        FaultKind::FwBefore => 1,
        FaultKind::FwAfter => 2,
        FaultKind::BwBefore => 3,
        FaultKind::BwAfter => 4,
        FaultKind::ReadBack => 5,
        FaultKind::Stall => 6,
    }
}

struct HInfo {
    req: u32,
    data: usize,
    bytes: usize,
}

pub struct World {
    live: HashMap<usize, HInfo>,
    pub created: u64,
    pub released: u64,
    pub created_cls: HashMap<u32, u64>,
    pub faults: Vec<Fault>,
    counters: [[u32; 7]; rt::MAXT],
    pub client_of: [u8; rt::MAXT],
    pub fired: [u64; 7],
    pub allocs: u64,
    pub kernels: u64,
    pub enabled: bool,
    pub slack: bool,
    pub fill: bool,
}

static mut W: *mut World = std::ptr::null_mut();
pub fn world() -> &'static mut World {
    unsafe { &mut *W }
}
pub fn reset_world(faults: Vec<Fault>, slack: bool, fill: bool) {
    unsafe {
        if !W.is_null() {
            drop(Box::from_raw(W));
        }
        W = Box::into_raw(Box::new(World {
            live: HashMap::new(),
            created: 0,
            released: 0,
            created_cls: HashMap::new(),
            faults,
            counters: [[0; 7]; rt::MAXT],
            client_of: [255; rt::MAXT],
            fired: [0; 7],
            allocs: 0,
            kernels: 0,
            enabled: true,
            slack,
            fill,
        }));
    }
}

impl World {
    /// Forward kernels this client has started (opportunities for the first fault kind).
    pub fn forward_kernels(&self, client: usize) -> u32 {
        self.counters[client][fk_index(FaultKind::FwBefore)]
    }
}

/// Capacity (in elements) the backend was asked for when it handed out this buffer.
pub fn capacity_of(h: usize) -> Option<u32> {
    world().live.get(&h).map(|i| i.req)
}
pub fn live_handles() -> usize {
    world().live.len()
}

/// Above this many elements the backend hands out stand-ins.
pub const HUGE: u32 = 1 << 22;
pub static mut PLAIN: bool = false;
/// Is the device the shipped one, without the seam?
pub fn is_plain() -> bool {
    unsafe { PLAIN }
}

pub struct SimImpl;

fn roll(kind: FaultKind) -> bool {
    let w = world();
    let c = w.client_of[rt::tid()];
    if c == 255 {
        return false;
    }
    let k = fk_index(kind);
    let n = w.counters[c as usize][k];
    w.counters[c as usize][k] += 1;
    if !w.enabled {
        return false;
    }
    if w.faults.iter().any(|f| f.client == c && f.kind == kind && f.nth == n) {
        w.fired[k] += 1;
        return true;
    }
    false
}

impl DeviceImpl for SimImpl {
    fn identifier(&self) -> String {
        "sim".into()
    }
    fn new_handle(&self, size: u32) -> AtomicPtr<c_void> {
        host(rt::point);
        if host(|| {
            world().allocs += 1;
            roll(FaultKind::Alloc)
        }) {
            rt::inject_panic("backend out of memory");
        }
        host(rt::track_begin);
        // gigantic buffers are stand-ins: tensors do not get that large (see ops::plan)
        let h = sut(|| Naive {}.new_handle(if size > HUGE { 1 } else { size }));
        host(|| {
            let (p, n) = rt::track_end();
            let w = world();
            let a = h.load(Ordering::SeqCst) as usize;
            w.created += 1;
            *w.created_cls.entry(size).or_insert(0) += 1;
            let big = size <= HUGE && n >= size as usize * 4;
            if big && w.fill {
                for i in 0..n / 4 {
                    unsafe { *((p + 4 * i) as *mut u32) = GARBAGE };
                }
            }
            let info = if big { HInfo { req: size, data: p, bytes: n } } else { HInfo { req: size, data: 0, bytes: 0 } };
            if a == 0 || w.live.insert(a, info).is_some() {
                crate::violation_now("buffer-accounting", "backend produced a buffer that is already in use");
            }
            rt::point();
        });
        h
    }
    fn drop_handle(&self, handle: &AtomicPtr<c_void>) {
        host(|| {
            let a = handle.load(Ordering::SeqCst) as usize;
            match world().live.remove(&a) {
                None => crate::violation_now("buffer-accounting", "a buffer was returned to the backend twice, or was never obtained from it"),
                Some(i) => {
                    if i.data != 0 {
                        rt::unpoison_range(i.data, i.bytes);
                    }
                }
            }
            world().released += 1;
            rt::point();
        });
        sut(|| Naive {}.drop_handle(handle));
    }
}

fn extent(t: &Tensor, poison: bool) {
    use prima_undine::functions::BasicFunctions;
    let a = t.handle().load(Ordering::SeqCst) as usize;
    if let Some(i) = world().live.get(&a) {
        if i.data != 0 {
            let n = t.shape().size() as usize * 4;
            if n <= i.bytes {
                if poison {
                    rt::unpoison_range(i.data, n);
                    rt::poison_range(i.data + n, i.bytes - n);
                } else {
                    rt::unpoison_range(i.data, i.bytes);
                }
            }
        }
    }
}
fn enter(ts: &[&Tensor]) {
    host(|| {
        world().kernels += 1;
        if world().slack {
            for t in ts {
                extent(t, true);
            }
        }
        if roll(FaultKind::Stall) {
            rt::stall(4000);
        }
        rt::point();
    })
}
fn leave(ts: &[&Tensor]) {
    host(|| {
        if world().slack {
            for t in ts {
                extent(t, false);
            }
        }
        rt::point();
    })
}
struct Leave<'a>(Vec<&'a Tensor<'a>>);
impl<'a> Drop for Leave<'a> {
    fn drop(&mut self) {
        leave(&self.0);
        host(|| std::mem::take(&mut self.0));
    }
}

struct Fwd {
    inner: *const Device<'static>,
    name: &'static str,
}
unsafe impl Send for Fwd {}
unsafe impl Sync for Fwd {}
impl Fwd {
    fn dev(&self) -> &'static Device<'static> {
        unsafe { &*self.inner }
    }
}

/// Extends a borrow to the lifetime the guard stores; the guard never outlives the call.
unsafe fn ext<'a>(t: &Tensor) -> &'a Tensor<'a> {
    std::mem::transmute::<&Tensor, &'a Tensor<'a>>(t)
}

struct KFw(Fwd);
impl FunctionFwImpl for KFw {
    fn call(&self, xs: &[&Tensor], u: &[u32], f: &[f32], ys: &mut [&mut Tensor]) {
        let all: Vec<&Tensor> = host(|| xs.iter().map(|t| unsafe { ext(t) }).chain(ys.iter().map(|t| unsafe { ext(t) })).collect());
        enter(&all);
        let g = Leave(all);
        if host(|| roll(FaultKind::FwBefore)) {
            rt::inject_panic("forward kernel failed (before)");
        }
        self.0.dev().call_fw_impl(self.0.name, xs, u, f, ys);
        if host(|| roll(FaultKind::FwAfter)) {
            rt::inject_panic("forward kernel failed (after)");
        }
        drop(g);
    }
}
struct KBw(Fwd);
impl FunctionBwImpl for KBw {
    fn call(&self, xs: &[&Tensor], ys: &[&Tensor], gys: &[&Tensor], u: &[u32], f: &[f32], gx: &mut Tensor) {
        let all: Vec<&Tensor> = host(|| xs.iter().chain(ys).chain(gys).map(|t| unsafe { ext(t) }).chain([unsafe { ext(gx) }]).collect());
        enter(&all);
        let g = Leave(all);
        if host(|| roll(FaultKind::BwBefore)) {
            rt::inject_panic("backward kernel failed (before)");
        }
        self.0.dev().call_bw_impl(self.0.name, xs, ys, gys, u, f, gx);
        if host(|| roll(FaultKind::BwAfter)) {
            rt::inject_panic("backward kernel failed (after)");
        }
        drop(g);
    }
}
struct KU(Fwd);
impl FunctionFwU32Impl for KU {
    fn call(&self, xs: &[&Tensor], u: &[u32], f: &[f32], ys: &mut [u32]) {
        let all: Vec<&Tensor> = host(|| xs.iter().map(|t| unsafe { ext(t) }).collect());
        enter(&all);
        let g = Leave(all);
        if host(|| roll(FaultKind::ReadBack)) {
            rt::inject_panic("read back failed");
        }
        self.0.dev().call_fw_u32_impl(self.0.name, xs, u, f, ys);
        drop(g);
    }
}
struct KF(Fwd);
impl FunctionFwF32Impl for KF {
    fn call(&self, xs: &[&Tensor], u: &[u32], f: &[f32], ys: &mut [f32]) {
        let all: Vec<&Tensor> = host(|| xs.iter().map(|t| unsafe { ext(t) }).collect());
        enter(&all);
        let g = Leave(all);
        if host(|| roll(FaultKind::ReadBack)) {
            rt::inject_panic("read back failed");
        }
        self.0.dev().call_fw_f32_impl(self.0.name, xs, u, f, ys);
        drop(g);
    }
}

fn names(inner: &Device<'static>) -> [Vec<String>; 4] {
    #[cfg(prima_sim)]
    {
        inner.sim_kernel_names()
    }
    #[cfg(not(prima_sim))]
    {
        let _ = inner;
        let l = |s: &str| s.split_whitespace().map(|x| x.to_string()).collect::<Vec<_>>();
        let t = include_str!("kernels.txt");
        let mut it = t.split("--");
        [l(it.next().unwrap()), l(it.next().unwrap()), l(it.next().unwrap()), l(it.next().unwrap())]
    }
}

pub struct SimDevice {
    pub dev: &'static Device<'static>,
    inner: *mut Device<'static>,
}
unsafe impl Send for SimDevice {}

fn leak_name(s: String) -> &'static str {
    static mut INTERN: Vec<&'static str> = Vec::new();
    #[allow(static_mut_refs)]
    unsafe {
        if let Some(x) = INTERN.iter().find(|x| **x == s) {
            return x;
        }
        let l: &'static str = Box::leak(s.into_boxed_str());
        INTERN.push(l);
        l
    }
}

/// A device whose kernels are the real ones, wrapped; or (plain) the shipped device itself.
pub fn new_device(plain: bool) -> SimDevice {
    if plain {
        let d = host(Naive::new);
        return SimDevice { dev: host(|| Box::leak(Box::new(d))), inner: std::ptr::null_mut() };
    }
    host(|| {
        let inner: *mut Device<'static> = Box::into_raw(Box::new(Naive::new()));
        let ns = names(unsafe { &*inner });
        let mut d = Device::new(SimImpl);
        let fwd = |n: &String| Fwd { inner, name: leak_name(n.clone()) };
        for n in &ns[0] {
            d.register_fw_impl(n, KFw(fwd(n)));
        }
        for n in &ns[1] {
            d.register_fw_u32_impl(n, KU(fwd(n)));
        }
        for n in &ns[2] {
            d.register_fw_f32_impl(n, KF(fwd(n)));
        }
        for n in &ns[3] {
            d.register_bw_impl(n, KBw(fwd(n)));
        }
        SimDevice { dev: Box::leak(Box::new(d)), inner }
    })
}

impl SimDevice {
    /// Drops the device (the caller guarantees nothing refers to it any more).
    pub fn destroy(self) {
        let p = self.dev as *const Device<'static> as *mut Device<'static>;
        let b = unsafe { Box::from_raw(p) };
        if let Err(e) = rt::sut_try(move || drop(b)) {
            crate::violation_now("unexpected-panic", &format!("dropping the device panicked: {}", e.msg));
        }
        if !self.inner.is_null() {
            let p = self.inner;
            host(|| drop(unsafe { Box::from_raw(p) }));
        }
    }
}

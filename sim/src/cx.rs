//! Shared bookkeeping of the simulated clients.

use crate::refm::{bits_eq, Shp, TVal, E};
use crate::rt::{self, host, mix, sut_try, Panic};
use prima_undine::functions::BasicFunctions;
use prima_undine::{Device, Tensor};
use std::collections::HashMap;
use std::sync::atomic::Ordering;

pub type T = Tensor<'static>;
pub type D = &'static Device<'static>;

/// A live tensor and what it must contain.
pub struct Slot {
    pub uid: u64,
    pub t: Box<T>,
    pub v: TVal,
    pub pins: u32,
    pub view_of: Option<u64>,
}

pub struct Stats {
    pub ops: HashMap<String, u64>,
    pub checked: u64,
    pub backs: u64,
    pub retries: u64,
    pub rejected: u64,
    pub updates: u64,
    pub saves: u64,
    pub state: u64,
    pub hits: HashMap<String, u64>,
}
static mut STATS: *mut Stats = std::ptr::null_mut();
pub fn stats() -> &'static mut Stats {
    unsafe {
        if STATS.is_null() {
            STATS = Box::into_raw(Box::new(Stats { ops: HashMap::new(), checked: 0, backs: 0, retries: 0, rejected: 0, updates: 0, saves: 0, state: 0, hits: HashMap::new() }));
        }
        &mut *STATS
    }
}
pub fn hit(k: &str) {
    *stats().hits.entry(k.to_string()).or_insert(0) += 1;
}
pub fn absorb(x: u64) {
    stats().state = mix(stats().state, x);
}

/// Where each simulated thread is (for messages).
pub static mut POS: [(u32, u32); rt::MAXT] = [(0, 0); rt::MAXT];
/// What each simulated thread is doing: tells which property a violation belongs to.
pub static mut DOM: [&str; rt::MAXT] = [""; rt::MAXT];
pub fn dom(d: &'static str) -> &'static str {
    unsafe { std::mem::replace(&mut DOM[rt::tid().min(rt::MAXT - 1)], d) }
}
pub fn cur_dom() -> &'static str {
    unsafe { DOM[rt::tid().min(rt::MAXT - 1)] }
}
pub fn at(step: u32, sub: u32) {
    unsafe { POS[rt::tid().min(rt::MAXT - 1)] = (step, sub) }
}

pub fn viol(kind: &str, msg: String) -> ! {
    let t = rt::tid();
    let p = if t < rt::MAXT { unsafe { POS[t] } } else { (0, 0) };
    crate::violation_now(kind, &format!("client {} step {}.{}: {}", t as i64, p.0, p.1, msg))
}

/// Live buffers owned by tensors the harness holds: address -> owner.
pub struct Owned(HashMap<usize, u64>);
static mut OWNED: *mut Owned = std::ptr::null_mut();
fn owned() -> &'static mut Owned {
    unsafe {
        if OWNED.is_null() {
            OWNED = Box::into_raw(Box::new(Owned(HashMap::new())));
        }
        &mut *OWNED
    }
}
pub fn reset_owned() {
    owned().0.clear();
}
pub fn own(h: usize, size: u32, uid: u64) {
    if h == 0 {
        viol("aliasing", "a tensor that should own storage has none".into());
    }
    // the same owner may come back with the buffer it had; the small numbers stand for anybody
    if owned().0.insert(h, uid).map_or(false, |o| o != uid || uid < 16) {
        viol("aliasing", "two live owners share one buffer".into());
    }
    if let Some(c) = crate::dev::capacity_of(h) {
        if c < size {
            viol("aliasing", format!("a tensor of {} elements was given a buffer of {}", size, c));
        }
    }
}
pub fn disown(h: usize) {
    owned().0.remove(&h);
}
pub fn haddr(t: &T) -> usize {
    t.handle().load(Ordering::SeqCst) as usize
}

pub fn unexpected(what: &str, p: Panic) -> ! {
    viol("unexpected-panic", format!("{} panicked: {}", what, p.msg))
}

/// Runs a library call; an injected failure gives None, any other panic is a violation.
pub fn call<R>(what: &str, f: impl FnOnce() -> R) -> Option<R> {
    match sut_try(f) {
        Ok(v) => Some(v),
        Err(p) if p.injected => {
            hit("failed-by-injection");
            None
        }
        Err(p) => unexpected(what, p),
    }
}

/// Reads a tensor's contents into harness memory.
pub fn read(t: &T) -> Option<Vec<f32>> {
    let v = call("reading a tensor", || t.to_vec())?;
    Some(host(|| v.to_vec()))
}

pub fn same(what: &str, t: &T, v: &TVal) -> bool {
    let s = Shp::of(t.shape());
    if s != v.s {
        viol("wrong-shape", format!("{}: shape {:?}, expected {:?}", what, s, v.s));
    }
    match read(t) {
        None => false,
        Some(d) => {
            if !bits_eq(&d, &v.d) {
                viol("changed-contents", format!("{}: contents changed without being written: {}", what, first_diff(&d, &v.d)));
            }
            true
        }
    }
}
pub fn first_diff(a: &[f32], b: &[f32]) -> String {
    if a.len() != b.len() {
        return format!("{} elements instead of {}", a.len(), b.len());
    }
    for i in 0..a.len() {
        if a[i].to_bits() != b[i].to_bits() {
            return format!("element {} of {} is {:?}, expected {:?}", i, a.len(), a[i], b[i]);
        }
    }
    "?".into()
}

/// Compares an actual vector with reference values.
pub fn agree(kind: &str, what: &str, a: &[f32], e: &[E]) {
    stats().checked += a.len() as u64;
    if a.len() != e.len() {
        viol(kind, format!("{}: {} elements instead of {}", what, a.len(), e.len()));
    }
    for i in 0..a.len() {
        if !e[i].agrees(a[i]) {
            viol(kind, format!("{}: element {} of {} is {:?}, reference {:?} (error bound {:.2e})", what, i, a.len(), a[i], e[i].v, 4. * e[i].e));
        }
    }
}

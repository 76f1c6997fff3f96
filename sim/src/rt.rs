//! Deterministic runtime: one simulated thread runs at a time, chosen by a seeded scheduler.
//!
//! * every control-flow edge, load and store of the instrumented crates is a scheduling point
//!   (LLVM SanitizerCoverage callbacks);
//! * futex waits/wakes (the only blocking primitive of std's locks) are simulated by defining
//!   the `syscall` symbol;
//! * entropy (`getrandom`) is a function of (run seed, simulated thread);
//! * memory comes from a per-run arena at a fixed address, with shadow bytes that make
//!   use-after-free and out-of-bounds accesses of instrumented code visible.
#![allow(static_mut_refs)]

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering};

pub const MAXT: usize = 16;
pub const ARENA: usize = 0x6000_0000_0000;
pub const ARENA_SIZE: usize = 1 << 30;
const SHADOW: usize = 0x6100_0000_0000;

thread_local! {
    static TID: Cell<usize> = const { Cell::new(usize::MAX) };
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static LAST_PANIC: Cell<*mut String> = const { Cell::new(std::ptr::null_mut()) };
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    None,
    Ready,
    Blocked,
    Done,
}

/// A scheduling decision. `n > 0`: preempt after n steps; `n == 0`: choice made when the
/// running thread blocked or finished.
#[derive(Clone, Copy, PartialEq, Eq, Debug, serde::Serialize, serde::Deserialize)]
pub struct Ev(pub u64, pub u8);

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub enum Sched {
    /// Random preemption: mean run length, rare-site bias, bias at explicit points.
    Seeded { seed: u64, mean: u64, rare_k: u32, rare_p: u32, point_p: u32 },
    /// No preemption, round robin on block/finish.
    Coop,
    /// Recorded decisions.
    Trace(Vec<Ev>),
}

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    Rng::new(a.wrapping_mul(0xD6E8_FEB8_6659_FD93) ^ b.rotate_left(32)).next()
}

const MAX_SITES: usize = 1 << 16;

pub struct Rt {
    n: usize,
    st: [St; MAXT],
    wait_addr: [usize; MAXT],
    wait_deadline: [u64; MAXT],
    stall_until: [u64; MAXT],
    timed_out: [bool; MAXT],
    ent: [Rng; MAXT],
    cur: usize,
    pub steps: u64,
    seg: u64,
    cap: u64,
    countdown: u64,
    mean: u64,
    rare_k: u32,
    rare_p: u32,
    point_p: u32,
    rng: Rng,
    replay: Vec<Ev>,
    replay_pos: usize,
    mode: u8, // 0 coop, 1 seeded, 2 trace
    pub trace: Vec<Ev>,
    pub switches: u64,
    pub blocks: u64,
    pub clock: u64,
    pub sites_hit: u64,
    finished: bool,
    pub entropy_calls: u64,
}

static mut RT: *mut Rt = std::ptr::null_mut();
static WORDS: [AtomicU32; MAXT] = [const { AtomicU32::new(0) }; MAXT];
static CTRL: AtomicU32 = AtomicU32::new(0);
static mut HITS: [u32; MAX_SITES] = [0; MAX_SITES];
static mut NSITES: u32 = 0;
static mut SITES_EVER: [u8; MAX_SITES] = [0; MAX_SITES];

pub fn rt() -> &'static mut Rt {
    unsafe { &mut *RT }
}

#[inline]
pub fn tid() -> usize {
    TID.with(|t| t.get())
}
#[inline]
pub fn is_active() -> bool {
    ACTIVE.with(|a| a.get())
}
#[inline]
fn set_active(v: bool) -> bool {
    ACTIVE.with(|a| a.replace(v))
}

struct Restore(bool);
impl Drop for Restore {
    fn drop(&mut self) {
        set_active(self.0);
    }
}

/// Runs code of the system under test.
pub fn sut<R>(f: impl FnOnce() -> R) -> R {
    let _r = Restore(set_active(tid() != usize::MAX));
    f()
}
/// Runs harness code (never a scheduling point, never in the arena).
pub fn host<R>(f: impl FnOnce() -> R) -> R {
    let _r = Restore(set_active(false));
    f()
}

#[derive(Clone, Debug)]
pub struct Panic {
    pub msg: String,
    pub injected: bool,
}

/// Runs code of the system under test, turning a panic into a value.
pub fn sut_try<R>(f: impl FnOnce() -> R) -> Result<R, Panic> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| sut(f)));
    match r {
        Ok(v) => Ok(v),
        Err(p) => {
            set_active(false);
            let injected = p.downcast_ref::<Injected>().is_some();
            drop(p);
            let msg = LAST_PANIC.with(|l| {
                let p = l.replace(std::ptr::null_mut());
                if p.is_null() {
                    String::from("?")
                } else {
                    *unsafe { Box::from_raw(p) }
                }
            });
            Err(Panic { msg, injected })
        }
    }
}

/// Payload of panics raised by the fault injector.
pub struct Injected(pub &'static str);

pub fn inject_panic(what: &'static str) -> ! {
    std::panic::panic_any(Injected(what))
}

pub fn install_panic_hook(verbose: bool) {
    std::panic::set_hook(Box::new(move |info| {
        let was = set_active(false);
        let s = info.payload();
        let m = if let Some(x) = s.downcast_ref::<&str>() {
            x.to_string()
        } else if let Some(x) = s.downcast_ref::<String>() {
            x.clone()
        } else if let Some(x) = s.downcast_ref::<Injected>() {
            format!("injected: {}", x.0)
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if verbose || tid() == usize::MAX || m.contains("cannot unwind") || m.contains("destructor during cleanup") {
            eprintln!("[t{}] panic: {} at {}", tid() as isize, m, loc);
        }
        LAST_PANIC.with(|l| {
            let old = l.replace(Box::into_raw(Box::new(format!("{} @ {}", m, loc))));
            if !old.is_null() {
                drop(unsafe { Box::from_raw(old) });
            }
        });
        set_active(was);
    }));
}

// ---------------------------------------------------------------- raw syscalls

#[inline]
unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _, options(nostack));
    r
}
unsafe fn fwait(w: &AtomicU32, v: u32) {
    raw(libc::SYS_futex, w as *const _ as i64, 128, v as i64, 0, 0, 0);
}
unsafe fn fwake(w: &AtomicU32) {
    raw(libc::SYS_futex, w as *const _ as i64, 129, i32::MAX as i64, 0, 0, 0);
}

fn wait_turn(me: usize) {
    unsafe {
        while WORDS[me].load(Ordering::Acquire) == 0 {
            fwait(&WORDS[me], 0);
        }
        WORDS[me].store(0, Ordering::Release);
    }
}
fn give_turn(t: usize) {
    WORDS[t].store(1, Ordering::Release);
    unsafe { fwake(&WORDS[t]) };
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if tid() != usize::MAX && !RT.is_null() {
        if n == libc::SYS_futex {
            let op = (b & 0x7f) as i32;
            match op {
                0 | 9 => {
                    let w = &*(a as *const AtomicU32);
                    if w.load(Ordering::SeqCst) != c as u32 {
                        *libc::__errno_location() = libc::EAGAIN;
                        return -1;
                    }
                    let to = d as *const libc::timespec;
                    let deadline = if to.is_null() {
                        u64::MAX
                    } else {
                        rt().clock + 1 + (*to).tv_nsec as u64 % 1_000_000
                    };
                    let _r = Restore(set_active(false));
                    if block_on(a as usize, deadline) {
                        return 0;
                    }
                    *libc::__errno_location() = libc::ETIMEDOUT;
                    return -1;
                }
                1 | 10 => {
                    let r = rt();
                    let mut woken = 0;
                    // Wake order is a scheduling choice.
                    while woken < c {
                        let c: Vec<usize> = {
                            let _r = Restore(set_active(false));
                            (0..r.n).filter(|&t| r.st[t] == St::Blocked && r.wait_addr[t] == a as usize).collect()
                        };
                        if c.is_empty() {
                            break;
                        }
                        let t = c[(mix(r.steps, r.blocks) % c.len() as u64) as usize];
                        {
                            let _r = Restore(set_active(false));
                            drop(c);
                        }
                        r.st[t] = St::Ready;
                        r.wait_addr[t] = 0;
                        r.timed_out[t] = false;
                        woken += 1;
                    }
                    return woken;
                }
                _ => {}
            }
        } else if n == libc::SYS_getrandom {
            fill_entropy(a as *mut u8, b as usize);
            return b;
        }
    }
    let r = raw(n, a, b, c, d, e, f);
    if r < 0 && r > -4096 {
        *libc::__errno_location() = (-r) as i32;
        return -1;
    }
    r
}

unsafe fn fill_entropy(p: *mut u8, len: usize) {
    let r = rt();
    r.entropy_calls += 1;
    let e = &mut r.ent[tid()];
    for i in 0..len {
        *p.add(i) = (e.next() >> 13) as u8;
    }
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut libc::c_void, len: usize, flags: u32) -> isize {
    if tid() != usize::MAX && !RT.is_null() {
        fill_entropy(p as *mut u8, len);
        return len as isize;
    }
    raw(libc::SYS_getrandom, p as i64, len as i64, flags as i64, 0, 0, 0) as isize
}

// ---------------------------------------------------------------- scheduler

fn pick_next(r: &mut Rt, forced: bool) -> Option<usize> {
    loop {
        let mut ready = [0usize; MAXT];
        let mut k = 0;
        for t in 0..r.n {
            if r.st[t] == St::Ready && (forced || t != r.cur) && (r.mode != 1 || r.stall_until[t] <= r.steps) {
                ready[k] = t;
                k += 1;
            }
        }
        if k == 0 && forced && r.mode == 1 {
            // only stalled threads are left: the longest-stalled one resumes
            let mut best = usize::MAX;
            for t in 0..r.n {
                if r.st[t] == St::Ready && (best == usize::MAX || r.stall_until[t] < r.stall_until[best]) {
                    best = t;
                }
            }
            if best != usize::MAX {
                r.stall_until[best] = 0;
                return Some(best);
            }
        }
        if k == 0 {
            if !forced {
                return None;
            }
            // Nobody can run: let the simulated clock reach the next deadline.
            let mut best = usize::MAX;
            for t in 0..r.n {
                if r.st[t] == St::Blocked && r.wait_deadline[t] != u64::MAX && (best == usize::MAX || r.wait_deadline[t] < r.wait_deadline[best]) {
                    best = t;
                }
            }
            if best == usize::MAX {
                return None;
            }
            r.clock = r.clock.max(r.wait_deadline[best]);
            r.st[best] = St::Ready;
            r.timed_out[best] = true;
            continue;
        }
        let t = match r.mode {
            1 => ready[r.rng.below(k as u64) as usize],
            2 => {
                let mut want = None;
                if forced {
                    // skip forward only over a matching forced entry
                    if r.replay_pos < r.replay.len() && r.replay[r.replay_pos].0 == 0 {
                        want = Some(r.replay[r.replay_pos].1 as usize);
                        r.replay_pos += 1;
                    }
                } else {
                    want = r.replay.get(r.replay_pos).map(|e| e.1 as usize);
                    r.replay_pos += 1;
                }
                match want {
                    Some(w) if ready[..k].contains(&w) => w,
                    _ if !forced => return None,
                    _ => ready[0],
                }
            }
            _ => {
                let mut t = ready[0];
                for &x in &ready[..k] {
                    if x > r.cur {
                        t = x;
                        break;
                    }
                }
                t
            }
        };
        return Some(t);
    }
}

fn arm(r: &mut Rt) {
    r.countdown = match r.mode {
        1 if r.mean > 0 => {
            // geometric-ish
            let u = r.rng.unit().max(1e-12);
            1 + (-(u.ln()) * r.mean as f64) as u64
        }
        2 if r.replay_pos < r.replay.len() && r.replay[r.replay_pos].0 > 0 => r.replay[r.replay_pos].0,
        _ => u64::MAX / 2,
    };
}

fn switch(r: &mut Rt, to: usize, forced: bool) {
    let me = r.cur;
    let n = if forced { 0 } else { r.steps - r.seg };
    r.trace.push(Ev(n, to as u8));
    r.switches += 1;
    r.cur = to;
    r.seg = r.steps;
    arm(r);
    if to != me {
        give_turn(to);
        if r.st[me] != St::Done {
            wait_turn(me);
        }
    }
}

#[inline(never)]
unsafe fn preempt() {
    let r = rt();
    let _g = Restore(set_active(false));
    if r.steps > r.cap {
        crate::violation_now("no-progress", "step budget exhausted: an operation did not terminate");
    }
    match pick_next(r, false) {
        Some(t) => switch(r, t, false),
        None => arm(r),
    }
}

/// Blocks the running simulated thread on an address; true if woken, false on timeout.
unsafe fn block_on(addr: usize, deadline: u64) -> bool {
    let r = rt();
    let me = r.cur;
    r.blocks += 1;
    r.st[me] = St::Blocked;
    r.wait_addr[me] = addr;
    r.wait_deadline[me] = deadline;
    r.timed_out[me] = false;
    match pick_next(r, true) {
        Some(t) => {
            if t == me {
                // own timeout
                r.trace.push(Ev(0, t as u8));
                r.seg = r.steps;
                arm(r);
            } else {
                switch(r, t, true)
            }
        }
        None => crate::violation_now("deadlock", "every simulated thread is blocked"),
    }
    !r.timed_out[me]
}

/// Explicit scheduling point of the harness (backend calls, kernel calls).
pub fn point() {
    if tid() == usize::MAX {
        return;
    }
    let r = rt();
    r.steps += 1;
    r.countdown = r.countdown.saturating_sub(1);
    let go = r.countdown == 0 || (r.mode == 1 && r.point_p > 0 && r.rng.below(1024) < r.point_p as u64);
    if go {
        unsafe { preempt() }
    }
}

/// Fault: the running thread is not scheduled for `n` steps (unless nobody else can run).
pub fn stall(n: u64) {
    if tid() == usize::MAX {
        return;
    }
    let r = rt();
    r.steps += 1;
    r.countdown = r.countdown.saturating_sub(1);
    if r.mode == 1 {
        r.stall_until[r.cur] = r.steps + n;
        unsafe { preempt() }
    } else if r.countdown == 0 {
        unsafe { preempt() }
    }
}

#[inline(always)]
unsafe fn step() {
    let r = &mut *RT;
    r.steps += 1;
    r.countdown -= 1;
    if r.countdown == 0 {
        preempt();
    } else if r.steps > r.cap {
        preempt();
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(s: *mut u32, e: *mut u32) {
    let mut p = s;
    while p < e {
        if *p == 0 {
            NSITES += 1;
            *p = NSITES.min(MAX_SITES as u32 - 1);
        }
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if !is_active() {
        return;
    }
    let r = &mut *RT;
    let h = &mut HITS[*g as usize];
    if *h < u32::MAX {
        *h += 1;
    }
    if *h == 1 {
        r.sites_hit += 1;
        SITES_EVER[*g as usize] = 1;
    }
    if r.mode == 1 && *h <= r.rare_k && r.rng.below(1024) < r.rare_p as u64 {
        r.steps += 1;
        preempt();
        return;
    }
    step();
}

macro_rules! acc {
    ($($l:ident $s:ident $n:expr;)*) => {$(
        #[no_mangle] pub unsafe extern "C" fn $l(p: usize) { if is_active() { check_access(p, $n, false); step(); } }
        #[no_mangle] pub unsafe extern "C" fn $s(p: usize) { if is_active() { check_access(p, $n, true); step(); } }
    )*};
}
acc! {
    __sanitizer_cov_load1 __sanitizer_cov_store1 1;
    __sanitizer_cov_load2 __sanitizer_cov_store2 2;
    __sanitizer_cov_load4 __sanitizer_cov_store4 4;
    __sanitizer_cov_load8 __sanitizer_cov_store8 8;
    __sanitizer_cov_load16 __sanitizer_cov_store16 16;
}

#[inline(always)]
unsafe fn check_access(p: usize, n: usize, w: bool) {
    if p.wrapping_sub(ARENA) < ARENA_SIZE {
        // 4-byte granules: a shadow byte is the number of addressable bytes (4 = all).
        let first = (p - ARENA) >> 2;
        let last = (p + n - 1 - ARENA) >> 2;
        let mut i = first;
        while i < last {
            if *((SHADOW + i) as *const u8) != 4 {
                bad_access(p, n, w, *((SHADOW + i) as *const u8));
            }
            i += 1;
        }
        let k = *((SHADOW + last) as *const u8);
        let need = ((p + n - 1) & 3) as u8 + 1;
        if k > 4 || k < need {
            bad_access(p, n, w, k);
        }
    }
}

#[inline(never)]
unsafe fn bad_access(_p: usize, n: usize, w: bool, k: u8) {
    let _g = Restore(set_active(false));
    let what = match k {
        0xFD => "use of freed memory",
        0xF5 => "access beyond the extent of a tensor inside its buffer",
        _ => "out-of-bounds heap access",
    };
    let bt = std::backtrace::Backtrace::force_capture().to_string();
    let mut frames = vec![];
    for l in bt.lines() {
        let l = l.trim();
        if l.contains("/prima_undine") && l.starts_with("at ") {
            frames.push(l.to_string());
        }
    }
    frames.truncate(4);
    crate::violation_now("memory-error", &format!("{} ({} of {} bytes) {}", what, if w { "store" } else { "load" }, n, frames.join(" < ")));
}

// ---------------------------------------------------------------- arena

pub struct SimAlloc;
static mut BUMP: usize = ARENA;
static mut FREE: [Vec<usize>; 48] = [const { Vec::new() }; 48];
static mut REUSE: bool = false;
static mut LIMIT: [usize; MAXT + 1] = [usize::MAX; MAXT + 1];
/// While it exists, the largest single request this thread may make is limited.
pub struct Limit;
pub fn limit(n: usize) -> Limit {
    unsafe { LIMIT[tid().min(MAXT)] = n }
    Limit
}
impl Drop for Limit {
    fn drop(&mut self) {
        unsafe { LIMIT[tid().min(MAXT)] = usize::MAX }
    }
}
static mut TRACK: [(bool, usize, usize); MAXT + 1] = [(false, 0, 0); MAXT + 1];
/// Records the largest arena block the running thread obtains until `track_end`.
pub fn track_begin() {
    unsafe { TRACK[tid().min(MAXT)] = (true, 0, 0) }
}
pub fn track_end() -> (usize, usize) {
    unsafe {
        let t = &mut TRACK[tid().min(MAXT)];
        t.0 = false;
        (t.1, t.2)
    }
}
pub static mut ARENA_LIVE: i64 = 0;
static mut ARENA_READY: bool = false;

const HDR: usize = 16;

#[inline]
fn class(n: usize) -> usize {
    (usize::BITS - (n.max(1) - 1).leading_zeros()) as usize
}

unsafe fn set_shadow(p: usize, len: usize, full: bool, poison: u8) {
    let s = SHADOW + ((p - ARENA) >> 2);
    if full {
        std::ptr::write_bytes(s as *mut u8, 4, len / 4);
        if len % 4 != 0 {
            *((s + len / 4) as *mut u8) = (len % 4) as u8;
        }
    } else {
        std::ptr::write_bytes(s as *mut u8, poison, (len + 3) / 4);
    }
}

/// Marks part of an arena allocation (un)addressable; 4-byte granularity.
pub fn poison_range(p: usize, len: usize) {
    if len > 0 && p.wrapping_sub(ARENA) < ARENA_SIZE {
        unsafe { set_shadow(p, len, false, 0xF5) }
    }
}
pub fn unpoison_range(p: usize, len: usize) {
    if len > 0 && p.wrapping_sub(ARENA) < ARENA_SIZE {
        unsafe { set_shadow(p, len, true, 0) }
    }
}

unsafe fn arena_alloc(l: Layout) -> *mut u8 {
    let need = l.size().max(1);
    if need > LIMIT[tid().min(MAXT)] {
        let _g = Restore(set_active(false));
        crate::violation_now("memory-demand", &format!("a single request for {} bytes of memory", need));
    }
    let c = class(need + 3 * HDR + if l.align() > 16 { l.align() } else { 0 });
    let base;
    let mut got = 0;
    if REUSE {
        if let Some(p) = FREE[c].pop() {
            got = p;
        }
    }
    if got != 0 {
        base = got;
    } else {
        base = (BUMP + 15) & !15;
        let total = if REUSE { 1usize << c } else { (need + 3 * HDR + l.align() + 15) & !15 };
        if base + total > ARENA + ARENA_SIZE {
            if need > ARENA_SIZE / 4 {
                // nothing a run asks for is anywhere near this size
                let _g = Restore(set_active(false));
                crate::violation_now("memory-demand", &format!("a single request for {} bytes of memory", need));
            }
            crate::harness_error("arena exhausted");
        }
        BUMP = base + total;
    }
    let user = (base + HDR + l.align().max(16) - 1) & !(l.align().max(16) - 1);
    // header: base and size
    *((user - 16) as *mut usize) = base;
    *((user - 8) as *mut usize) = need;
    set_shadow(base, user - base, false, 0xFA);
    set_shadow(user, need, true, 0);
    let end = (user + need + 3) & !3;
    set_shadow(end, 16, false, 0xFA);
    // redzone content, checked on free
    for i in user + need..end + 8 {
        *(i as *mut u8) = 0xC7;
    }
    std::ptr::write_bytes(user as *mut u8, 0xA5, need);
    ARENA_LIVE += 1;
    let t = &mut TRACK[tid().min(MAXT)];
    if t.0 && need > t.2 {
        t.1 = user;
        t.2 = need;
    }
    user as *mut u8
}

unsafe fn arena_free(p: *mut u8) {
    let user = p as usize;
    if *((SHADOW + ((user - ARENA) >> 2)) as *const u8) == 0xFD {
        let _g = Restore(set_active(false));
        crate::violation_now("memory-error", "double free of a heap block");
    }
    let base = *((user - 16) as *const usize);
    let size = *((user - 8) as *const usize);
    let end = (user + size + 3) & !3;
    for i in user + size..end + 8 {
        if *(i as *const u8) != 0xC7 {
            let _g = Restore(set_active(false));
            crate::violation_now("memory-error", "heap block overrun (redzone overwritten)");
        }
    }
    set_shadow(user, size, false, 0xFD);
    std::ptr::write_bytes(p, 0xDD, size);
    ARENA_LIVE -= 1;
    if REUSE {
        let _g = Restore(set_active(false));
        // the size class was derived from the layout; recompute from the block length
        let c = class(size + 3 * HDR);
        if user - base == 16 {
            FREE[c].push(base);
        }
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if is_active() {
            arena_alloc(l)
        } else {
            System.alloc(l)
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if is_active() {
            let p = arena_alloc(l);
            std::ptr::write_bytes(p, 0, l.size());
            p
        } else {
            System.alloc_zeroed(l)
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if (p as usize).wrapping_sub(ARENA) < ARENA_SIZE {
            arena_free(p)
        } else {
            System.dealloc(p, l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !is_active() && (p as usize).wrapping_sub(ARENA) >= ARENA_SIZE {
            return System.realloc(p, l, n);
        }
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
        self.dealloc(p, l);
        q
    }
}

#[global_allocator]
static ALLOC: SimAlloc = SimAlloc;

unsafe fn arena_init() {
    if ARENA_READY {
        return;
    }
    let f = libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_FIXED_NOREPLACE | libc::MAP_NORESERVE;
    let a = libc::mmap(ARENA as *mut _, ARENA_SIZE, libc::PROT_READ | libc::PROT_WRITE, f, -1, 0);
    let s = libc::mmap(SHADOW as *mut _, ARENA_SIZE / 4, libc::PROT_READ | libc::PROT_WRITE, f, -1, 0);
    if a as usize != ARENA || s as usize != SHADOW {
        crate::harness_error("cannot map the simulation arena");
    }
    ARENA_READY = true;
}

unsafe fn arena_reset(reuse: bool) {
    let used = BUMP - ARENA;
    std::ptr::write_bytes(SHADOW as *mut u8, 0xFA, used / 4 + 64);
    BUMP = ARENA + 64;
    for f in FREE.iter_mut() {
        f.clear();
    }
    REUSE = reuse;
    ARENA_LIVE = 0;
}

pub fn arena_used() -> usize {
    unsafe { BUMP - ARENA }
}

// ---------------------------------------------------------------- runs

pub struct RunStats {
    pub steps: u64,
    pub switches: u64,
    pub blocks: u64,
    pub sites: u64,
    pub entropy: u64,
    pub trace: Vec<Ev>,
}

/// Prepares a fresh simulated world.
pub fn begin(seed: u64, reuse: bool, cap: u64) {
    unsafe {
        arena_init();
        arena_reset(reuse);
        if RT.is_null() {
            RT = Box::into_raw(Box::new(Rt {
                n: 0,
                st: [St::None; MAXT],
                wait_addr: [0; MAXT],
                wait_deadline: [u64::MAX; MAXT],
                stall_until: [0; MAXT],
                timed_out: [false; MAXT],
                ent: std::array::from_fn(|_| Rng(0)),
                cur: 0,
                steps: 0,
                seg: 0,
                cap: 0,
                countdown: 0,
                mean: 0,
                rare_k: 0,
                rare_p: 0,
                point_p: 0,
                rng: Rng(0),
                replay: vec![],
                replay_pos: 0,
                mode: 0,
                trace: vec![],
                switches: 0,
                blocks: 0,
                clock: 0,
                sites_hit: 0,
                finished: false,
                entropy_calls: 0,
            }));
        }
        let r = rt();
        r.steps = 0;
        r.cap = cap;
        r.switches = 0;
        r.blocks = 0;
        r.clock = 0;
        r.sites_hit = 0;
        r.entropy_calls = 0;
        r.trace.clear();
        let _ = seed;
        let n = (NSITES as usize + 1).min(MAX_SITES);
        HITS[..n].fill(0);
    }
}

pub fn coverage() -> (u32, u32) {
    unsafe {
        let n = (NSITES as usize + 1).min(MAX_SITES);
        (SITES_EVER[..n].iter().map(|&x| x as u32).sum(), NSITES)
    }
}
pub fn coverage_bits() -> Vec<u32> {
    unsafe { (0..(NSITES as usize + 1).min(MAX_SITES)).filter(|&i| SITES_EVER[i] != 0).map(|i| i as u32).collect() }
}

pub fn set_cap(extra: u64) {
    let r = rt();
    r.cap = r.steps + extra;
}

/// Runs `bodies` as simulated threads until all are done. Entropy of thread i comes from
/// `ent_seed` and its key; returns when every thread has finished.
pub fn run_threads(sched: &Sched, ent_seed: u64, keys: &[u64], bodies: Vec<Box<dyn FnOnce() + Send>>) {
    let r = rt();
    r.trace.clear();
    let n = bodies.len();
    assert!(n <= MAXT);
    r.n = n;
    for t in 0..MAXT {
        r.st[t] = if t < n { St::Ready } else { St::None };
        r.wait_addr[t] = 0;
        r.wait_deadline[t] = u64::MAX;
        r.stall_until[t] = 0;
        r.ent[t] = Rng::new(mix(ent_seed, *keys.get(t).unwrap_or(&0)));
        WORDS[t].store(0, Ordering::SeqCst);
    }
    CTRL.store(0, Ordering::SeqCst);
    r.finished = false;
    r.replay.clear();
    r.replay_pos = 0;
    match sched {
        Sched::Coop => r.mode = 0,
        Sched::Seeded { seed, mean, rare_k, rare_p, point_p } => {
            r.mode = 1;
            r.rng = Rng::new(*seed);
            r.mean = *mean;
            r.rare_k = *rare_k;
            r.rare_p = *rare_p;
            r.point_p = *point_p;
        }
        Sched::Trace(t) => {
            r.mode = 2;
            r.replay = t.clone();
        }
    }
    let mut hs = vec![];
    for (t, b) in bodies.into_iter().enumerate() {
        hs.push(
            std::thread::Builder::new()
                .stack_size(512 << 10)
                .spawn(move || {
                    wait_turn(t);
                    TID.with(|x| x.set(t));
                    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(b));
                    set_active(false);
                    if let Err(_) = res {
                        let m = LAST_PANIC.with(|l| {
                            let p = l.get();
                            if p.is_null() {
                                String::new()
                            } else {
                                unsafe { (*p).clone() }
                            }
                        });
                        crate::harness_error(&format!("harness panic in simulated thread: {}", m));
                    }
                    let r = rt();
                    r.st[t] = St::Done;
                    match pick_next(r, true) {
                        Some(u) => switch(r, u, true),
                        None => {
                            if (0..r.n).all(|i| r.st[i] == St::Done) {
                                r.finished = true;
                                CTRL.store(1, Ordering::SeqCst);
                                unsafe { fwake(&CTRL) };
                            } else {
                                crate::violation_now("deadlock", "remaining simulated threads are blocked forever");
                            }
                        }
                    }
                    // Stay parked until the controller releases us, so thread-local
                    // destructors never run concurrently with the simulation.
                    wait_turn(t);
                    LAST_PANIC.with(|l| {
                        let p = l.replace(std::ptr::null_mut());
                        if !p.is_null() {
                            drop(unsafe { Box::from_raw(p) });
                        }
                    });
                    TID.with(|x| x.set(usize::MAX));
                })
                .unwrap(),
        );
    }
    // first choice
    r.cur = MAXT - 1;
    let first = match r.mode {
        1 => r.rng.below(n as u64) as usize,
        2 => match r.replay.first() {
            Some(Ev(0, t)) if (*t as usize) < n => {
                r.replay_pos = 1;
                *t as usize
            }
            _ => 0,
        },
        _ => 0,
    };
    r.trace.push(Ev(0, first as u8));
    r.cur = first;
    r.seg = r.steps;
    arm(r);
    give_turn(first);
    unsafe {
        while CTRL.load(Ordering::SeqCst) == 0 {
            fwait(&CTRL, 0);
        }
    }
    for (t, h) in hs.into_iter().enumerate() {
        r.cur = t;
        give_turn(t);
        let _ = h.join();
    }
    r.n = 0;
}

pub fn stats() -> RunStats {
    let r = rt();
    RunStats { steps: r.steps, switches: r.switches, blocks: r.blocks, sites: r.sites_hit, entropy: r.entropy_calls, trace: r.trace.clone() }
}

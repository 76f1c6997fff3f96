#![allow(unexpected_cfgs, deprecated, dead_code)]
#![allow(static_mut_refs)]
mod bad;
mod case;
mod chain;
mod check;
mod ckpt;
mod client;
mod cx;
mod dev;
mod gen;
mod graph;
mod misfit;
mod ops;
mod optim;
mod random;
mod refm;
mod rt;
mod run;
mod train;

use case::Case;
use serde::{Deserialize, Serialize};

pub use run::accounting;

/// A violation, with everything needed to run it again.
#[derive(Clone, Serialize, Deserialize)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    /// what the simulated client was doing
    #[serde(default)]
    pub dom: String,
    pub steps: u64,
    pub case: Case,
    /// schedule of the concurrent phase up to the violation
    pub trace: Vec<rt::Ev>,
}

static mut CURRENT: *const Case = std::ptr::null();
static mut OUT: Option<String> = None;
static mut PHASE: u32 = 0;
static mut TRACE: Vec<rt::Ev> = Vec::new();

pub fn main_begin() {
    unsafe {
        PHASE = 1;
        TRACE.clear();
    }
}
pub fn main_trace() {
    unsafe {
        PHASE = 2;
        TRACE = rt::rt().trace.clone();
    }
}
pub fn last_trace() -> &'static [rt::Ev] {
    unsafe { &TRACE }
}
pub fn set_current(c: *const Case) {
    unsafe {
        CURRENT = c;
        PHASE = 0;
        TRACE.clear();
    }
}
pub fn set_out(p: &str) {
    unsafe { OUT = Some(p.to_string()) }
}

pub fn violation_now(kind: &str, msg: &str) -> ! {
    rt::host(|| unsafe {
        let trace = match PHASE {
            1 => rt::rt().trace.clone(),
            _ => TRACE.clone(),
        };
        let c = &*CURRENT;
        let v = Violation { kind: kind.into(), msg: msg.into(), dom: cx::cur_dom().into(), steps: rt::rt().steps, case: c.clone(), trace };
        if let Some(o) = &OUT {
            let _ = std::fs::write(o, serde_json::to_vec(&v).unwrap());
        }
        eprintln!("violation: {}: {}", kind, msg);
        libc::_exit(3)
    })
}
pub fn harness_error(msg: &str) -> ! {
    rt::host(|| unsafe {
        eprintln!("harness error: {}", msg);
        libc::_exit(4)
    })
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if matches!(a.get(1).map(|s| s.as_str()), Some("worker" | "exec")) {
        optim::prepare();
    }
    let r = match a.get(1).map(|s| s.as_str()) {
        Some("check") => check::check(&a[2..]),
        Some("worker") => check::worker(&a[2..]),
        Some("exec") => check::exec(&a[2..]),
        Some("replay") => check::replay(&a[2..]),
        Some("gen") => {
            println!("{}", serde_json::to_string_pretty(&gen::case(&a[2], a[3].parse().unwrap())).unwrap());
            0
        }
        _ => {
            eprintln!("usage: psim check PROP --tier quick|thorough | replay FILE | gen PROP SEED");
            2
        }
    };
    std::process::exit(r);
}

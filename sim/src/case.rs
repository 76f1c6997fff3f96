//! A case is everything that determines one simulated execution.

use crate::dev::Fault;
use crate::rt::Sched;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub prop: String,
    pub seed: u64,
    /// mix | train | ckpt | rounds | rand | model
    pub scenario: String,
    /// the shipped device without the wrapper
    pub plain: bool,
    /// arena reuses freed memory at once (address reuse) instead of quarantining it
    pub reuse: bool,
    /// memory beyond a tensor's extent inside its buffer is inaccessible
    pub slack: bool,
    pub shared: Vec<u64>,
    pub clients: Vec<Vec<Step>>,
    pub faults: Vec<Fault>,
    pub train: Option<Train>,
    pub sched: Sched,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    New { s: u64, how: u32 },
    Op { k: u32, s: u64, a: u32, v: u32 },
    Drop { a: u32 },
    Dup { a: u32, how: u32 },
    View { a: u32 },
    Inp { k: u32, a: u32, s: u64 },
    Shape { a: u32, s: u64 },
    Read { a: u32, k: u32 },
    Repl { a: u32, k: u32 },
    Send { a: u32, to: u32 },
    Recv,
    Raw { s: u64, k: u32 },
    Graph { g: Vec<GStep> },
    Bad { k: u32, a: u32, s: u64 },
    Rand { k: u32, s: u64 },
    KBw { k: u32, s: u64, a: u32 },
    Param { s: u64, init: u32 },
    Opt { s: u64 },
    Grad { a: u32, s: u64 },
    Upd { m: u32 },
    Save { a: u32, s: u64 },
    Chain { n: u32, s: u64 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum GStep {
    Leaf { how: u32, a: u32, s: u64 },
    Op { k: u32, s: u64, a: u32, v: u32 },
    Cust { a: u32, f: u32, b: u32 },
    Fwd { a: u32 },
    Bwd { a: u32 },
    Read { a: u32, k: u32 },
    Drop { a: u32 },
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Train {
    pub workers: Vec<Worker>,
    /// checkpoint format: 0 json, 1 bincode
    pub disk: Vec<DiskFault>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Worker {
    pub model: u32,
    pub opt: u32,
    pub seed: u64,
    pub steps: u32,
    /// save a checkpoint every k steps (0: never)
    pub every: u32,
    /// crash points, counted in completed actions of this worker
    pub crashes: Vec<u32>,
    pub fmt: u32,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct DiskFault {
    /// which I/O operation (write or read of a checkpoint) it hits, counted over the run
    pub nth: u32,
    pub kind: u32,
    pub at: u32,
    pub x: u32,
}

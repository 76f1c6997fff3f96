//! Case generators: one seed, one case.

use crate::case::*;
use crate::dev::{Fault, FaultKind};
use crate::ops::KINDS;
use crate::rt::{mix, Rng, Sched};

pub const PROPS: [&str; 13] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13"];

fn sched(r: &mut Rng, n: usize) -> Sched {
    if n <= 1 {
        return Sched::Coop;
    }
    match r.below(12) {
        0 => Sched::Coop,
        // only at backend and kernel boundaries
        1 | 2 => Sched::Seeded { seed: r.next(), mean: 0, rare_k: 0, rare_p: 0, point_p: *r.pick(&[100, 300, 600]) },
        // at code reached for the first times
        3..=5 => Sched::Seeded { seed: r.next(), mean: *r.pick(&[0u64, 2000, 20000]), rare_k: *r.pick(&[2u32, 6, 30]), rare_p: *r.pick(&[60u32, 200, 500]), point_p: *r.pick(&[0, 50, 200]) },
        // anywhere
        _ => Sched::Seeded { seed: r.next(), mean: *r.pick(&[7u64, 20, 60, 200, 600, 2000, 8000]), rare_k: *r.pick(&[0u32, 0, 4]), rare_p: 100, point_p: *r.pick(&[0, 0, 50, 300]) },
    }
}

/// Weights of step kinds; zero-ish entries are dropped per case (swarm testing).
struct Mixture {
    w: [u32; 22],
}
const NEW: usize = 0;
const OP: usize = 1;
const DROP: usize = 2;
const DUP: usize = 3;
const VIEW: usize = 4;
const INP: usize = 5;
const SHAPE: usize = 6;
const READ: usize = 7;
const REPL: usize = 8;
const SEND: usize = 9;
const RECV: usize = 10;
const RAW: usize = 11;
const GRAPH: usize = 12;
const BAD: usize = 13;
const RAND: usize = 14;
const KBW: usize = 15;
const PARAM: usize = 16;
const OPT: usize = 17;
const GRAD: usize = 18;
const UPD: usize = 19;
const SAVE: usize = 20;
const CHAIN: usize = 21;

fn weights(prop: &str) -> Mixture {
    let mut w = [0u32; 22];
    let set = |w: &mut [u32; 22], v: &[(usize, u32)]| {
        for &(i, x) in v {
            w[i] = x;
        }
    };
    // a background of everything
    set(&mut w, &[(NEW, 8), (OP, 12), (DROP, 6), (DUP, 3), (VIEW, 2), (INP, 4), (SHAPE, 1), (READ, 2), (REPL, 2), (SEND, 2), (RECV, 3), (RAW, 2), (GRAPH, 2), (BAD, 1), (RAND, 1), (KBW, 1)]);
    match prop {
        "C01" => set(&mut w, &[(VIEW, 6), (REPL, 8), (DUP, 6), (INP, 8), (SEND, 5), (RECV, 6), (RAW, 6), (SHAPE, 3), (DROP, 8), (PARAM, 1), (GRAD, 1), (UPD, 1)]),
        "C02" => set(&mut w, &[(RAW, 16), (DROP, 12), (NEW, 10), (SEND, 4), (RECV, 5), (GRAPH, 2), (REPL, 6)]),
        "C03" => set(&mut w, &[(OP, 14), (GRAPH, 4), (INP, 6), (PARAM, 1), (UPD, 2), (BAD, 5), (RAND, 2), (SAVE, 1)]),
        "C04" => set(&mut w, &[(OP, 40), (INP, 10), (READ, 5), (KBW, 8), (DUP, 4), (REPL, 1), (GRAPH, 1), (RAW, 1)]),
        "C05" => set(&mut w, &[(GRAPH, 40), (CHAIN, 1), (OP, 2), (READ, 1), (PARAM, 2)]),
        "C06" => set(&mut w, &[(GRAPH, 40), (CHAIN, 1), (KBW, 8), (OP, 2), (PARAM, 2)]),
        "C07" => set(&mut w, &[(PARAM, 8), (OPT, 6), (GRAD, 14), (UPD, 20), (GRAPH, 4), (SAVE, 1), (OP, 2), (NEW, 2), (RAW, 0)]),
        "C09" => set(&mut w, &[(SAVE, 40), (PARAM, 6), (OPT, 2), (UPD, 4), (GRAD, 4), (OP, 4), (GRAPH, 1)]),
        "C10" => set(&mut w, &[(SAVE, 30), (PARAM, 4), (OPT, 2), (UPD, 4), (GRAD, 4), (OP, 4)]),
        "C11" => set(&mut w, &[(RAND, 40), (PARAM, 6), (BAD, 2), (DROP, 10), (GRAPH, 1)]),
        "C12" => set(&mut w, &[(BAD, 40), (NEW, 8), (OP, 4), (PARAM, 1), (GRAPH, 1)]),
        _ => {}
    }
    Mixture { w }
}

fn gsteps(r: &mut Rng, prop: &str) -> Vec<GStep> {
    let n = r.range(3, if prop == "C05" || prop == "C06" { 34 } else { 14 });
    let mut w = [4u32, 14, 1, 2, 3, 3, 2];
    match prop {
        "C05" => w = [5, 14, 3, 6, 2, 6, 3],
        "C06" => w = [5, 16, 2, 1, 7, 2, 3],
        "C07" => w = [6, 14, 0, 1, 5, 1, 1],
        "C03" => w = [5, 12, 4, 4, 5, 4, 2],
        _ => {}
    }
    for x in w.iter_mut().skip(2) {
        if r.chance(1, 5) {
            *x = 0;
        }
    }
    let mut focus: Vec<u32> = vec![];
    if r.chance(1, 2) {
        for _ in 0..r.range(2, 6) {
            focus.push(r.below(KINDS as u64) as u32);
        }
    }
    // multi-output operations deserve extra weight: they are where siblings interact
    if r.chance(1, 2) {
        let k = r.below(5) as usize;
        focus.extend([43u32, 50, 49, 44, 51, 42, 25, 48].iter().skip(r.below(4) as usize).take(k));
    }
    let mut g = vec![];
    g.push(GStep::Leaf { how: r.below(6) as u32, a: r.next() as u32, s: r.next() });
    for _ in 0..n {
        let t = pickw(r, &w);
        let a = if r.chance(1, 3) { r.next() as u32 } else { 1 + 2 * r.below(4) as u32 };
        g.push(match t {
            0 => GStep::Leaf { how: r.below(6) as u32, a, s: r.next() },
            1 => GStep::Op { k: if focus.is_empty() || r.chance(1, 3) { r.below(KINDS as u64) as u32 } else { *r.pick(&focus) }, s: r.next(), a: r.next() as u32, v: r.below(64) as u32 },
            2 => GStep::Cust { a: r.next() as u32, f: if r.chance(1, 2) { 0 } else { r.below(3) as u32 } + if r.chance(1, 2) { 3 } else { 0 }, b: if r.chance(1, 2) { 9 * r.below(4) as u32 } else { r.below(90) as u32 } },
            3 => GStep::Fwd { a: r.next() as u32 },
            4 => GStep::Bwd { a: r.next() as u32 },
            5 => GStep::Read { a: r.next() as u32, k: r.below(64) as u32 },
            _ => GStep::Drop { a: r.next() as u32 },
        });
    }
    if matches!(prop, "C06" | "C07") || r.chance(1, 4) {
        g.push(GStep::Bwd { a: r.next() as u32 });
    }
    g
}

fn pickw(r: &mut Rng, w: &[u32]) -> usize {
    let t: u64 = w.iter().map(|&x| x as u64).sum();
    let mut x = r.below(t.max(1));
    for (i, &k) in w.iter().enumerate() {
        if x < k as u64 {
            return i;
        }
        x -= k as u64;
    }
    0
}

fn steps(r: &mut Rng, prop: &str, m: &[u32; 22], n: u64) -> Vec<Step> {
    let mut v = vec![];
    for i in 0..n {
        let t = if i == 0 { NEW } else { pickw(r, m) };
        let a = r.next() as u32;
        let s = r.next();
        v.push(match t {
            NEW => Step::New { s, how: r.below(8) as u32 },
            OP => Step::Op { k: r.below(KINDS as u64) as u32, s, a, v: r.below(64) as u32 },
            DROP => Step::Drop { a },
            DUP => Step::Dup { a, how: r.below(2) as u32 },
            VIEW => Step::View { a },
            INP => Step::Inp { k: r.below(9) as u32, a, s },
            SHAPE => Step::Shape { a, s },
            READ => Step::Read { a, k: r.below(64) as u32 },
            REPL => Step::Repl { a, k: r.below(3) as u32 },
            SEND => Step::Send { a, to: r.below(8) as u32 },
            RECV => Step::Recv,
            RAW => Step::Raw { s, k: r.below(3) as u32 },
            GRAPH => Step::Graph { g: gsteps(r, prop) },
            BAD => Step::Bad { k: r.below(crate::bad::BADS as u64) as u32, a, s },
            RAND => Step::Rand { k: r.below(8) as u32, s },
            KBW => Step::KBw { k: r.below(80) as u32, s, a },
            PARAM => Step::Param { s, init: r.below(5) as u32 },
            OPT => Step::Opt { s },
            GRAD => Step::Grad { a, s },
            UPD => Step::Upd { m: a },
            CHAIN => {
                let n = match r.below(24) {
                    0 => r.range(4000, 12000),
                    1..=3 => r.range(500, 3000),
                    _ => r.range(5, 300),
                };
                Step::Chain { n: n as u32, s }
            }
            _ => Step::Save { a, s },
        });
    }
    v
}

fn faults(r: &mut Rng, n: usize, heavy: bool) -> Vec<Fault> {
    let mut v = vec![];
    let k = if heavy { r.range(1, 8) } else { r.below(3) };
    let kinds = [FaultKind::Alloc, FaultKind::FwBefore, FaultKind::FwAfter, FaultKind::BwBefore, FaultKind::BwAfter, FaultKind::ReadBack, FaultKind::Stall];
    for _ in 0..k {
        let kind = *r.pick(&kinds);
        let max = match kind {
            FaultKind::Alloc => 60,
            FaultKind::FwBefore | FaultKind::FwAfter => 150,
            FaultKind::Stall => 200,
            FaultKind::ReadBack => 80,
            _ => 40,
        };
        let first = r.below(max) as u32;
        // sometimes a burst
        let burst = if r.chance(1, 4) { r.range(2, 4) as u32 } else { 1 };
        let client = r.below(n as u64) as u8;
        for j in 0..burst {
            v.push(Fault { client, kind, nth: first + j });
        }
    }
    v
}

pub fn case(prop: &str, seed: u64) -> Case {
    let mut r = Rng::new(mix(seed, prop.bytes().fold(7, |a, b| a * 131 + b as u64)));
    let r = &mut r;
    let mut c = Case {
        prop: prop.into(),
        seed: r.next(),
        scenario: "mix".into(),
        plain: r.chance(1, 8),
        reuse: r.chance(1, 3),
        slack: r.chance(2, 3),
        shared: vec![],
        clients: vec![],
        faults: vec![],
        train: None,
        sched: Sched::Coop,
    };
    if prop == "C05" && r.chance(1, 4000) || prop == "C06" && r.chance(1, 8000) {
        // a recurrence longer than 16 bits can count
        c.scenario = "recurrence".into();
        c.clients = vec![vec![Step::Chain { n: r.range(65600, 68000) as u32, s: r.next() }]];
        return c;
    }
    if prop == "C08" || prop == "C09" && r.chance(1, 2) || prop == "C10" && r.chance(1, 4) {
        c.scenario = "train".into();
        let n = match prop {
            "C08" => r.range(2, 4),
            _ => r.range(1, 3),
        } as usize;
        let mut t = Train::default();
        for _ in 0..n {
            let steps = r.range(2, 9) as u32;
            let every = if prop == "C08" && r.chance(2, 3) { 0 } else { r.range(1, 3) as u32 };
            let mut crashes = vec![];
            if every > 0 && (prop != "C08" || r.chance(1, 3)) {
                for _ in 0..r.below(4) {
                    crashes.push(r.below(2 * steps as u64) as u32);
                }
            }
            t.workers.push(Worker { model: r.below(12) as u32, opt: r.below(1 << 20) as u32, seed: r.next(), steps, every, crashes, fmt: r.below(2) as u32 });
        }
        if prop != "C08" {
            for _ in 0..r.below(if prop == "C10" { 8 } else { 4 }) {
                t.disk.push(DiskFault { nth: r.below(12) as u32, kind: r.below(8) as u32, at: if r.chance(1, 2) { r.below(300) } else { r.below(3000) } as u32, x: r.next() as u32 });
            }
        }
        if prop != "C08" || r.chance(1, 3) {
            c.faults = faults(r, n, prop == "C09");
            if c.faults.iter().any(|f| f.client as usize >= n) {
                c.faults.clear();
            }
        }
        c.train = Some(t);
        c.sched = sched(r, n);
        return c;
    }
    if prop == "C13" {
        c.scenario = "model".into();
        c.clients = vec![(0..r.range(1, 3)).map(|_| Step::Recv).collect()];
        if r.chance(1, 3) {
            c.faults = faults(r, 1, false);
        }
        return c;
    }
    let m = weights(prop);
    let n = match prop {
        "C01" | "C02" | "C03" => r.range(1, 5),
        "C11" => r.range(1, 4),
        _ => *r.pick(&[1u64, 1, 2, 3]),
    } as usize;
    if prop == "C02" && r.chance(1, 5) {
        c.scenario = "rounds".into();
    }
    let len = match prop {
        "C05" | "C06" => r.range(2, 10),
        "C04" => r.range(5, 60),
        _ => r.range(4, 50),
    };
    let mut w = m.w;
    // swarm: some kinds are absent from this case
    for (i, x) in w.iter_mut().enumerate() {
        if *x < 14 && i != NEW && r.chance(1, 4) {
            *x = 0;
        }
    }
    if r.chance(1, 2) {
        c.shared = (0..r.range(1, 4)).map(|_| r.next()).collect();
    }
    let n = if c.scenario == "rounds" { 1 } else { n };
    for _ in 0..n {
        c.clients.push(steps(r, prop, &w, len));
    }
    if c.scenario != "rounds" {
        let heavy = prop == "C03" || r.chance(1, 5);
        if heavy || r.chance(1, 3) {
            c.faults = faults(r, n, heavy);
        }
    }
    c.sched = sched(r, n);
    c
}

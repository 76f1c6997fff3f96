//! Batches of simulated runs in worker processes, minimisation, replay, evidence.

use crate::case::{Case, Step};
use crate::rt::{self, mix, Ev, Sched};
use crate::{cx, dev, gen, run, Violation};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

/// Runs per tier (over all workers) and wall-clock allowance in seconds.
fn budget(prop: &str, tier: &str) -> (u64, u64) {
    let q: u64 = match prop {
        "C01" => 60000,
        "C02" => 36000,
        "C03" => 30000,
        "C04" => 80000,
        "C05" => 120000,
        "C06" => 100000,
        "C07" => 80000,
        "C08" => 4000,
        "C09" => 24000,
        "C10" => 40000,
        "C11" => 50000,
        "C12" => 80000,
        _ => 160000,
    };
    if tier == "thorough" {
        (q * 20, 720)
    } else {
        (q, 75)
    }
}

#[derive(Default, Serialize, Deserialize, Clone)]
struct Out {
    runs: u64,
    steps: u64,
    switches: u64,
    blocks: u64,
    concurrent: u64,
    faulty: u64,
    entropy: u64,
    allocs: u64,
    kernels: u64,
    fired: Vec<u64>,
    ops: BTreeMap<String, u64>,
    hits: BTreeMap<String, u64>,
    checked: u64,
    backs: u64,
    retries: u64,
    rejected: u64,
    updates: u64,
    saves: u64,
    traces: Vec<u64>,
    states: Vec<u64>,
    sites: Vec<u32>,
    nsites: u32,
    reruns: u64,
    differing: u64,
    wall: f64,
    sample: Option<Case>,
    truncated: bool,
}

fn trace_hash(t: &[Ev]) -> u64 {
    t.iter().fold(1, |h, e| mix(h, e.0 * 31 + e.1 as u64))
}

/// Executes one case in this process; its fingerprint.
fn once(c: &Case) -> (u64, u64, u64) {
    cx::stats().state = 0;
    crate::set_current(c);
    crate::random::reset_moments();
    run::run(c);
    crate::random::check_moments();
    let s = rt::rt();
    (s.steps, cx::stats().state, trace_hash(crate::last_trace()))
}

fn arm_alarm() {
    unsafe {
        libc::alarm(240);
    }
}

pub fn worker(a: &[String]) -> i32 {
    let prop = &a[0];
    let base: u64 = a[1].parse().unwrap();
    let count: u64 = a[2].parse().unwrap();
    let wid: u64 = a[3].parse().unwrap();
    let nw: u64 = a[4].parse().unwrap();
    let dir = &a[5];
    let wall: u64 = a[6].parse().unwrap();
    rt::install_panic_hook(false);
    crate::set_out(&format!("{}/v{}.json", dir, wid));
    let prog = std::fs::File::create(format!("{}/p{}", dir, wid)).unwrap();
    use std::os::unix::fs::FileExt;
    let t0 = Instant::now();
    let mut o = Out { fired: vec![0; dev::FK.len()], ..Default::default() };
    let mut traces: HashSet<u64> = HashSet::new();
    let mut states: HashSet<u64> = HashSet::new();
    let mut i = wid;
    // continues behind a case that showed a violation of another property
    if let Some(s) = a.get(8) {
        i = s.parse().unwrap();
    }
    while i < count {
        if t0.elapsed().as_secs() >= wall {
            o.truncated = true;
            break;
        }
        arm_alarm();
        let _ = prog.write_all_at(format!("{:>20}", i).as_bytes(), 0);
        let c = gen::case(prop, mix(base, i));
        let fp = once(&c);
        let s = rt::stats();
        o.runs += 1;
        o.steps += s.steps;
        o.switches += crate::last_trace().len() as u64;
        o.blocks += s.blocks;
        o.entropy += s.entropy;
        if s_threads(&c) > 1 {
            o.concurrent += 1;
            traces.insert(fp.2);
        }
        states.insert(mix(fp.1, fp.0));
        let w = dev::world();
        o.allocs += w.allocs;
        o.kernels += w.kernels;
        for (x, y) in o.fired.iter_mut().zip(w.fired.iter()) {
            *x += y;
        }
        if w.fired.iter().any(|&x| x > 0) {
            o.faulty += 1;
        }
        if (i / nw) % 97 == 0 {
            // the same case again must be the same execution
            let fp2 = once(&c);
            o.reruns += 1;
            if fp2 != fp {
                o.differing += 1;
                eprintln!("run {} of {} is not repeatable: {:?} {:?}", i, prop, fp, fp2);
            }
        }
        if o.sample.is_none() && weight(&c) < 12 {
            o.sample = Some(c);
        }
        i += nw;
    }
    let st = cx::stats();
    o.ops = st.ops.iter().map(|(k, v)| (k.clone(), *v)).collect();
    o.hits = st.hits.iter().map(|(k, v)| (k.clone(), *v)).collect();
    o.checked = st.checked;
    o.backs = st.backs;
    o.retries = st.retries;
    o.rejected = st.rejected;
    o.updates = st.updates;
    o.saves = st.saves;
    o.traces = traces.into_iter().collect();
    o.states = states.into_iter().collect();
    o.sites = rt::coverage_bits();
    o.nsites = rt::coverage().1;
    o.wall = t0.elapsed().as_secs_f64();
    std::fs::write(format!("{}/o{}.json", dir, wid), serde_json::to_vec(&o).unwrap()).unwrap();
    0
}
fn s_threads(c: &Case) -> usize {
    c.train.as_ref().map(|t| t.workers.len()).unwrap_or(c.clients.len())
}
fn weight(c: &Case) -> usize {
    c.clients.iter().flatten().map(|s| if let Step::Graph { g } = s { g.len() } else { 1 }).sum::<usize>() + c.faults.len()
}

/// exec CASEFILE OUTFILE: runs one case; 0 held, 3 violation (written to OUTFILE).
pub fn exec(a: &[String]) -> i32 {
    let c: Case = match std::fs::read(&a[0]).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
        Some(c) => c,
        None => return 2,
    };
    rt::install_panic_hook(std::env::var("PSIM_VERBOSE").is_ok());
    crate::set_out(&a[1]);
    arm_alarm();
    let fp = once(&c);
    if std::env::var("PSIM_VERBOSE").is_ok() {
        eprintln!("held: steps {} state {:x} schedule {:x}", fp.0, fp.1, fp.2);
        if let Ok(f) = std::env::var("PSIM_TRACE") {
            std::fs::write(f, crate::last_trace().iter().map(|e| format!("{} {}\n", e.0, e.1)).collect::<String>()).unwrap();
        }
    }
    0
}

fn me() -> Command {
    Command::new(std::env::current_exe().unwrap())
}

fn signal_kind(st: &std::process::ExitStatus) -> Option<String> {
    use std::os::unix::process::ExitStatusExt;
    st.signal().map(|s| match s {
        libc::SIGSEGV | libc::SIGBUS => "crash-memory".to_string(),
        libc::SIGABRT => "crash-abort".to_string(),
        libc::SIGALRM => "no-progress".to_string(),
        n => format!("crash-signal-{}", n),
    })
}

fn try_case(c: &Case, dir: &str, tag: &str) -> Option<Violation> {
    let f = format!("{}/{}.case", dir, tag);
    let o = format!("{}/{}.out", dir, tag);
    let _ = std::fs::remove_file(&o);
    std::fs::write(&f, serde_json::to_vec(c).unwrap()).unwrap();
    let out = me().arg("exec").arg(&f).arg(&o).stdout(Stdio::null()).stderr(Stdio::piped()).output().ok()?;
    if let Some(k) = signal_kind(&out.status) {
        if out.status.code().is_none() && k == "crash-signal-9" {
            return None;
        }
        let err = String::from_utf8_lossy(&out.stderr).to_string();
        let msg = err.lines().rev().find(|l| l.contains("panic")).unwrap_or("the process died").to_string();
        return Some(Violation { kind: k, msg, dom: String::new(), steps: 0, case: c.clone(), trace: vec![] });
    }
    match out.status.code() {
        Some(3) => serde_json::from_slice(&std::fs::read(&o).ok()?).ok(),
        _ => None,
    }
}

// ---------------------------------------------------------------- attribution

/// Whether a violation belongs to a property. The programs a check runs exercise the whole
/// library; what belongs to another property is left to that property's check.
fn owns(prop: &str, v: &Violation) -> bool {
    let k = v.kind.as_str();
    let d = v.dom.as_str();
    // the property whose subject the client was busy with
    let area = match d {
        "tensor" | "kernel-bw" => prop == "C04",
        "inplace" => matches!(prop, "C01" | "C04"),
        "storage" => matches!(prop, "C01" | "C02" | "C04"),
        "probe" => prop == "C04",
        "graph-fw" => prop == "C05",
        "graph-bw" => matches!(prop, "C05" | "C06"),
        "bad" => prop == "C12",
        "random" => prop == "C11",
        "optim" => prop == "C07",
        "ckpt" => matches!(prop, "C09" | "C10"),
        "train" => matches!(prop, "C08" | "C09" | "C10"),
        "model" => prop == "C13",
        _ => false,
    };
    if area || k.starts_with("crash") {
        return true;
    }
    match k {
        "aliasing" | "memory-error" | "buffer-accounting" => matches!(prop, "C01" | "C02"),
        "reuse" => prop == "C02",
        "changed-contents" => prop == "C01" || prop == "C06" && d.starts_with("graph"),
        "deadlock" | "no-progress" => matches!(prop, "C02" | "C08"),
        "random" => prop == "C11",
        "wrong-gradient" => prop == "C06" || prop == "C04" && d == "kernel-bw",
        _ => false,
    }
}

/// The same case with nothing failing in it; None if nothing could fail in the first place.
fn harmless(c: &Case) -> Option<Case> {
    let mut h = c.clone();
    let mut any = !h.faults.is_empty();
    h.faults.clear();
    for cl in h.clients.iter_mut() {
        let n = cl.len();
        cl.retain(|s| !matches!(s, Step::Bad { .. }));
        any |= cl.len() != n;
        for s in cl.iter_mut() {
            if let Step::Graph { g } = s {
                for t in g.iter_mut() {
                    if let crate::case::GStep::Cust { f, b, .. } = t {
                        any |= *f % 3 + *b % 3 > 0;
                        *f = 0;
                        *b = 0;
                    }
                }
            }
        }
    }
    if any {
        Some(h)
    } else {
        None
    }
}

/// As `owns`; beyond that a comparison of runs decides: for failure containment, whether the
/// failures in the case are the cause; for refusals, whether the refused calls are; for
/// independence, whether it takes the other processes.
fn belongs(prop: &str, v: &Violation, dir: &str) -> bool {
    let gone = |h: &Case| !matches!(try_case(h, dir, "calm"), Some(x) if x.kind == v.kind);
    match prop {
        "C03" => harmless(&v.case).map_or(false, |h| gone(&h)),
        "C12" if !owns(prop, v) => {
            let mut h = v.case.clone();
            h.clients.iter_mut().for_each(|c| c.retain(|s| !matches!(s, Step::Bad { .. })));
            h.clients.iter().flatten().count() < v.case.clients.iter().flatten().count() && gone(&h)
        }
        "C08" if !owns(prop, v) => match &v.case.train {
            Some(t) if t.workers.len() > 1 => (0..t.workers.len()).all(|i| {
                let mut h = v.case.clone();
                h.train.as_mut().unwrap().workers = vec![t.workers[i].clone()];
                h.faults.retain(|f| f.client as usize == i);
                h.faults.iter_mut().for_each(|f| f.client = 0);
                gone(&h)
            }),
            _ => false,
        },
        _ => owns(prop, v),
    }
}

// ---------------------------------------------------------------- minimisation

struct Min<'a> {
    dir: &'a str,
    prop: &'a str,
    kind: String,
    best: Violation,
    tries: u64,
    until: Instant,
}
impl<'a> Min<'a> {
    fn attempt(&mut self, c: &Case) -> bool {
        if Instant::now() > self.until {
            return false;
        }
        self.tries += 1;
        match try_case(c, self.dir, "min") {
            Some(v) if v.kind == self.kind && (v.kind.starts_with("crash") || belongs(self.prop, &Violation { case: c.clone(), ..v.clone() }, self.dir)) => {
                self.best = v;
                self.best.case = c.clone();
                true
            }
            _ => false,
        }
    }
    /// Removes chunks of a list while the violation remains.
    fn list<T: Clone>(&mut self, get: &dyn Fn(&Case) -> Vec<T>, set: &dyn Fn(&mut Case, Vec<T>)) -> bool {
        let mut any = false;
        let mut v = get(&self.best.case);
        let mut n = v.len();
        while n >= 1 && !v.is_empty() {
            let mut i = 0;
            let mut changed = false;
            while i < v.len() {
                let mut w = v.clone();
                let hi = (i + n).min(w.len());
                w.drain(i..hi);
                let mut c = self.best.case.clone();
                set(&mut c, w.clone());
                if self.attempt(&c) {
                    v = w;
                    changed = true;
                    any = true;
                } else {
                    i += n;
                }
                if Instant::now() > self.until {
                    return any;
                }
            }
            if n == 1 && !changed {
                break;
            }
            n = if n == 1 { 1 } else { n / 2 };
        }
        any
    }
    fn all(&mut self) {
        let mut c = self.best.case.clone();
        c.sched = Sched::Coop;
        self.attempt(&c);
        for _ in 0..4 {
            let mut any = false;
            for i in 0..self.best.case.clients.len() {
                any |= self.list(&|c| c.clients[i].clone(), &|c, v| c.clients[i] = v);
            }
            any |= self.list(&|c| c.faults.clone(), &|c, v| c.faults = v);
            any |= self.list(&|c| c.shared.clone(), &|c, v| c.shared = v);
            for i in 0..self.best.case.clients.len() {
                for j in 0..self.best.case.clients[i].len() {
                    while let Step::Chain { n, s } = self.best.case.clients[i][j] {
                        let mut c = self.best.case.clone();
                        c.clients[i][j] = Step::Chain { n: n / 2, s };
                        if n < 2 || !self.attempt(&c) {
                            break;
                        }
                        any = true;
                    }
                    if let Step::Graph { .. } = self.best.case.clients[i][j] {
                        any |= self.list(
                            &|c| if let Step::Graph { g } = &c.clients[i][j] { g.clone() } else { vec![] },
                            &|c, v| c.clients[i][j] = Step::Graph { g: v },
                        );
                    }
                }
            }
            if self.best.case.train.is_some() {
                any |= self.list(&|c| c.train.as_ref().unwrap().disk.clone(), &|c, v| c.train.as_mut().unwrap().disk = v);
                any |= self.list(&|c| c.train.as_ref().unwrap().workers.clone(), &|c, v| c.train.as_mut().unwrap().workers = v);
                for i in 0..self.best.case.train.as_ref().unwrap().workers.len() {
                    any |= self.list(&|c| c.train.as_ref().unwrap().workers[i].crashes.clone(), &|c, v| c.train.as_mut().unwrap().workers[i].crashes = v);
                    loop {
                        let mut c = self.best.case.clone();
                        let w = &mut c.train.as_mut().unwrap().workers[i];
                        if w.steps <= 1 {
                            break;
                        }
                        w.steps -= 1;
                        if !self.attempt(&c) {
                            break;
                        }
                        any = true;
                    }
                }
            }
            for k in 0..3 {
                let mut c = self.best.case.clone();
                let b = match k {
                    0 => &mut c.reuse,
                    1 => &mut c.slack,
                    _ => &mut c.plain,
                };
                if *b {
                    *b = false;
                    any |= self.attempt(&c);
                }
            }
            if !any || Instant::now() > self.until {
                break;
            }
        }
        // from a random schedule to the decisions actually taken, then to the necessary ones
        if matches!(self.best.case.sched, Sched::Seeded { .. }) && !self.best.trace.is_empty() {
            let mut c = self.best.case.clone();
            c.sched = Sched::Trace(self.best.trace.clone());
            if self.attempt(&c) {
                self.list(
                    &|c| if let Sched::Trace(t) = &c.sched { t.clone() } else { vec![] },
                    &|c, v| c.sched = Sched::Trace(v),
                );
            }
        }
    }
}

fn verif_dir() -> String {
    std::env::var("PSIM_VERIF").unwrap_or_else(|_| "/verif".into())
}

#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    kind: String,
    msg: String,
    found_by: Value,
    minimise_attempts: u64,
    case: Case,
}

pub fn replay(a: &[String]) -> i32 {
    let r: Replay = match std::fs::read(&a[0]).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
        Some(r) => r,
        None => {
            eprintln!("cannot read {}", a[0]);
            return 2;
        }
    };
    let dir = format!("{}/.build/work/replay{}", verif_dir(), std::process::id());
    std::fs::create_dir_all(&dir).unwrap();
    let v = try_case(&r.case, &dir, "replay");
    let _ = std::fs::remove_dir_all(&dir);
    match v {
        Some(v) => {
            let same = v.kind == r.kind && v.msg == r.msg;
            println!("{}: {}{}", v.kind, v.msg, if same { "" } else { " (differs from the recorded violation)" });
            println!("VIOLATION property={} replay={}", r.property, a[0]);
            1
        }
        None => {
            println!("the recorded execution does not violate {} on this tree", r.property);
            0
        }
    }
}

// ---------------------------------------------------------------- check

pub fn check(a: &[String]) -> i32 {
    let prop = a[0].clone();
    let mut tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    if let Some(i) = a.iter().position(|x| x == "--tier") {
        tier = a[i + 1].clone();
    }
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let (mut count, mut wall) = budget(&prop, &tier);
    if let Ok(x) = std::env::var("PSIM_RUNS") {
        count = x.parse().unwrap();
    }
    if let Ok(x) = std::env::var("PSIM_WALL") {
        wall = x.parse().unwrap();
    }
    let t0 = Instant::now();
    let dir = format!("{}/.build/work/{}-{}", verif_dir(), prop, std::process::id());
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let nw = std::thread::available_parallelism().map(|x| x.get() as u64).unwrap_or(4).clamp(2, 8);
    let base = mix(seed, 0xBA5E);
    let spawn = |w: u64, from: u64, wall: u64| -> Option<Child> {
            me().args(["worker", &prop, &base.to_string(), &count.to_string(), &w.to_string(), &nw.to_string(), &dir, &wall.to_string(), &from.to_string()])
                .stdout(Stdio::null())
                .stderr(Stdio::from(std::fs::File::create(format!("{}/e{}", dir, w)).unwrap()))
                .spawn()
                .ok()
    };
    let mut kids: Vec<Option<Child>> = (0..nw).map(|w| spawn(w, w, wall)).collect();
    let mut foreign: BTreeMap<String, u64> = BTreeMap::new();
    let mut found: Option<Violation> = None;
    let mut index = 0;
    let mut broken: Option<String> = None;
    let deadline = Instant::now() + Duration::from_secs(wall + 300);
    loop {
        let mut running = 0;
        for w in 0..nw as usize {
            let st = match &mut kids[w] {
                None => continue,
                Some(k) => k.try_wait().unwrap(),
            };
            match st {
                None => running += 1,
                Some(st) => {
                    kids[w] = None;
                    let i: u64 = std::fs::read_to_string(format!("{}/p{}", dir, w)).ok().and_then(|s| s.trim().parse().ok()).unwrap_or(0);
                    let err = std::fs::read_to_string(format!("{}/e{}", dir, w)).unwrap_or_default();
                    if st.code() == Some(0) {
                    } else if st.code() == Some(3) {
                        if let Some(v) = std::fs::read(format!("{}/v{}.json", dir, w)).ok().and_then(|b| serde_json::from_slice::<Violation>(&b).ok()) {
                            if belongs(&prop, &v, &dir) {
                                found = Some(v);
                                index = i;
                            } else {
                                let n = foreign.entry(format!("{} ({})", v.kind, v.dom)).or_insert(0);
                                *n += 1;
                                if *n == 1 {
                                    println!("NOTE: run {} shows a violation that does not concern {}: {}: {}", i, prop, v.kind, v.msg);
                                }
                                let left = wall.saturating_sub(t0.elapsed().as_secs());
                                if foreign.values().sum::<u64>() < 400 && left > 0 {
                                    kids[w] = spawn(w as u64, i + nw, left);
                                    running += 1;
                                }
                            }
                        } else {
                            broken = Some("a worker reported a violation but left no record".into());
                        }
                    } else if let Some(k) = signal_kind(&st).filter(|k| k != "crash-signal-9") {
                        let msg = err.lines().rev().find(|l| l.contains("panic")).unwrap_or("the process died").to_string();
                        found = Some(Violation { kind: k, msg, dom: String::new(), steps: 0, case: gen::case(&prop, mix(base, i)), trace: vec![] });
                        index = i;
                    } else {
                        broken = Some(format!("worker {} ended with {:?}: {}", w, st, err.lines().last().unwrap_or("")));
                    }
                }
            }
        }
        if running == 0 || found.is_some() || broken.is_some() {
            break;
        }
        if Instant::now() > deadline {
            broken = Some("workers did not finish".into());
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    for k in kids.iter_mut().flatten() {
        let _ = k.kill();
        let _ = k.wait();
    }
    let mut m = Out::default();
    m.fired = vec![0; dev::FK.len()];
    let mut traces: BTreeSet<u64> = BTreeSet::new();
    let mut states: BTreeSet<u64> = BTreeSet::new();
    let mut sites: BTreeSet<u32> = BTreeSet::new();
    let mut samples: Vec<Value> = vec![];
    for w in 0..nw {
        if let Some(o) = std::fs::read(format!("{}/o{}.json", dir, w)).ok().and_then(|b| serde_json::from_slice::<Out>(&b).ok()) {
            m.runs += o.runs;
            m.steps += o.steps;
            m.switches += o.switches;
            m.blocks += o.blocks;
            m.concurrent += o.concurrent;
            m.faulty += o.faulty;
            m.entropy += o.entropy;
            m.allocs += o.allocs;
            m.kernels += o.kernels;
            m.checked += o.checked;
            m.backs += o.backs;
            m.retries += o.retries;
            m.rejected += o.rejected;
            m.updates += o.updates;
            m.saves += o.saves;
            m.reruns += o.reruns;
            m.differing += o.differing;
            m.truncated |= o.truncated;
            m.nsites = o.nsites;
            for (x, y) in m.fired.iter_mut().zip(&o.fired) {
                *x += y;
            }
            for (k, v) in o.ops {
                *m.ops.entry(k).or_insert(0) += v;
            }
            for (k, v) in o.hits {
                *m.hits.entry(k).or_insert(0) += v;
            }
            traces.extend(o.traces);
            states.extend(o.states);
            sites.extend(o.sites);
            if samples.len() < 2 {
                if let Some(c) = o.sample {
                    samples.push(serde_json::to_value(c).unwrap());
                }
            }
        }
    }
    if samples.is_empty() {
        samples.push(serde_json::to_value(gen::case(&prop, mix(base, 0))).unwrap());
    }
    let mut code = 0;
    let mut detail = json!(null);
    if let Some(v) = found {
        let first = format!("{}: {}", v.kind, v.msg);
        println!("run {} (seed {}) of {}: {}", index, seed, prop, first);
        let mut mn = Min { dir: &dir, prop: &prop, kind: v.kind.clone(), best: v.clone(), tries: 0, until: Instant::now() + Duration::from_secs(if tier == "quick" { 45 } else { 240 }) };
        let mut repeat = true;
        if mn.attempt(&v.case) {
            mn.all();
        } else {
            repeat = false;
        }
        let mut best = mn.best.clone();
        let mut same = 0;
        for _ in 0..3 {
            if let Some(x) = try_case(&best.case, &dir, "confirm") {
                if x.kind == best.kind && (x.msg == best.msg || x.kind.starts_with("crash")) {
                    same += 1;
                }
                best.msg = x.msg;
            }
        }
        std::fs::create_dir_all(format!("{}/replays", verif_dir())).unwrap();
        let path = format!("{}/replays/{}-{}-{}.json", verif_dir(), prop, seed, index);
        let rep = Replay {
            property: prop.clone(),
            kind: best.kind.clone(),
            msg: best.msg.clone(),
            found_by: json!({"seed": seed, "run": index, "original": first, "original_schedule_decisions": v.trace.len()}),
            minimise_attempts: mn.tries,
            case: best.case.clone(),
        };
        std::fs::write(&path, serde_json::to_vec_pretty(&rep).unwrap()).unwrap();
        println!("minimised in {} attempts: {}: {}", mn.tries, best.kind, best.msg);
        println!("replay confirmed {} of 3 times{}", same, if repeat { "" } else { " (not repeatable in a process of its own)" });
        println!("VIOLATION property={} replay={}", prop, path);
        detail = json!({"kind": best.kind, "message": best.msg, "replay": path, "replays_confirmed": same});
        code = 1;
    } else if let Some(b) = broken {
        eprintln!("check error: {}", b);
        code = 2;
    }
    let wall_s = t0.elapsed().as_secs_f64();
    let faults: BTreeMap<&str, u64> = dev::FK.iter().copied().zip(m.fired.iter().copied()).chain(crate::ckpt::DISK.iter().map(|k| (*k, *m.hits.get(*k).unwrap_or(&0)))).collect();
    let other: BTreeMap<&String, &u64> = m.hits.iter().filter(|(k, _)| !crate::ckpt::DISK.contains(&k.as_str())).collect();
    let per_hour = if wall_s > 0. { m.runs as f64 * 3600. / wall_s } else { 0. };
    let ev = json!({
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": m.runs,
            "distinct_nontrivial": states.len(),
            "rule": "a case is generated from (VERIF_SEED, property, run index): programs of all clients, failures, crash points, disk faults and a scheduling policy; a run counts as distinct and non-trivial when its fingerprint (a hash over every value checked plus the number of scheduling points executed in library code) differs from all other runs of this batch",
            "samples": samples,
            "runs_per_hour": per_hour,
            "seeds_per_hour": per_hour,
            "simulated_time_scheduling_points": m.steps,
            "runs_with_several_clients": m.concurrent,
            "distinct_interleavings": traces.len(),
            "interleaving_measure": "hash of the sequence of (scheduling points executed, next thread) decisions",
            "context_switches": m.switches,
            "blocking_waits": m.blocks,
            "runs_with_a_fired_backend_fault": m.faulty,
            "faults_injected": faults,
            "calls_retried_after_a_failure": m.retries,
            "invalid_calls_refused": m.rejected,
            "elements_compared_with_reference": m.checked,
            "backward_passes": m.backs,
            "parameter_updates": m.updates,
            "checkpoints_saved": m.saves,
            "backend_allocations": m.allocs,
            "kernel_calls": m.kernels,
            "entropy_requests": m.entropy,
            "operations": m.ops,
            "events": other,
            "library_edges_reached": sites.len(),
            "library_edges_instrumented": m.nsites,
            "cases_rerun_for_repeatability": m.reruns,
            "reruns_that_differed": m.differing,
            "stopped_by_wall_clock": m.truncated,
            "workers": nw,
            "real_components": ["prima_undine (tensors, memory pool, graph, operators, kernels, parameters, optimizers, initializers, randomizer, derive macro)", "prima_undine_contrib", "serde_json, bincode, rand", "std locks, hash maps, thread locals"],
            "stub_components": ["OS scheduler (seeded, one thread at a time, preemption at every instrumented edge, load and store)", "futex", "getrandom", "heap (arena with red zones and quarantine or immediate reuse)", "disk (in-memory files with faults)", "backend failures (wrapper around the real kernels and buffers)"],
            "violation": detail,
            "violations_of_other_properties": foreign,
        },
        "assumptions": [
            "sequentially consistent memory: one simulated thread runs at a time",
            "scheduling points only inside prima_undine and prima_undine_contrib code and at backend calls",
            "sampled, not exhaustive: a clean batch is evidence, not proof"
        ],
        "wall_s": wall_s,
        "violations": if code == 1 { 1 } else { 0 },
    });
    std::fs::create_dir_all(format!("{}/evidence", verif_dir())).unwrap();
    std::fs::write(format!("{}/evidence/{}.json", verif_dir(), prop), serde_json::to_vec_pretty(&ev).unwrap()).unwrap();
    if code == 0 {
        if !foreign.is_empty() {
            println!("NOTE: {} runs ended early at violations of other properties: {:?}", foreign.values().sum::<u64>(), foreign);
        }
        println!("{}: held in {} simulated runs ({} distinct, {} interleavings, {:.0} runs/h, {} faults fired) in {:.1} s", prop, m.runs, states.len(), traces.len(), per_hour, faults.values().sum::<u64>(), wall_s);
    }
    let keep = std::env::var("PSIM_KEEP").is_ok();
    if !keep {
        let _ = std::fs::remove_dir_all(&dir);
    }
    code
}

//! Checkpoints through a simulated disk.

use crate::client::Cx;
use crate::cx::*;
use crate::ops::gen_data;
use crate::optim::{snapshot, PState};
use crate::refm::{bits_eq, Shp, TVal, E};
use crate::rt::{host, mix, sut, sut_try, Rng};
use prima_undine::functions::BasicFunctions;
use prima_undine::{Parameter, Tensor};
use serde::{de::DeserializeOwned, Serialize};
use std::io::{self, Read, Write};

pub const DISK: [&str; 8] = ["disk-full", "write-error", "torn-write", "short-writes", "read-error", "truncated-read", "bit-flip", "interrupted"];

/// Writer that may take short writes, be interrupted, or fail at an offset.
pub struct DiskWriter {
    pub buf: Vec<u8>,
    pub fail_at: Option<(usize, u32)>,
    pub short: u64,
    pub fired: bool,
}
impl DiskWriter {
    pub fn new() -> DiskWriter {
        DiskWriter { buf: vec![], fail_at: None, short: 0, fired: false }
    }
}
impl Write for DiskWriter {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        host(|| {
            let mut n = b.len();
            if self.short != 0 {
                self.short = mix(self.short, 1) | 1;
                if self.short % 7 == 3 {
                    return Err(io::Error::from(io::ErrorKind::Interrupted));
                }
                n = n.min(1 + (self.short % 5) as usize);
            }
            if let Some((at, k)) = self.fail_at {
                if self.buf.len() >= at {
                    self.fired = true;
                    return Err(if k == 0 { io::Error::from_raw_os_error(libc::ENOSPC) } else { io::Error::from_raw_os_error(libc::EIO) });
                }
                n = n.min(at - self.buf.len());
            }
            self.buf.extend_from_slice(&b[..n]);
            Ok(n)
        })
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
pub struct DiskReader {
    pub buf: Vec<u8>,
    pub pos: usize,
    pub short: u64,
    pub fail_at: Option<usize>,
}
impl Read for DiskReader {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        host(|| {
            let mut n = b.len().min(self.buf.len() - self.pos);
            if self.short != 0 {
                self.short = mix(self.short, 1) | 1;
                if self.short % 7 == 3 {
                    return Err(io::Error::from(io::ErrorKind::Interrupted));
                }
                n = n.min(1 + (self.short % 5) as usize);
            }
            if let Some(at) = self.fail_at {
                if self.pos >= at {
                    return Err(io::Error::from_raw_os_error(libc::EIO));
                }
                n = n.min(at - self.pos);
            }
            b[..n].copy_from_slice(&self.buf[self.pos..self.pos + n]);
            self.pos += n;
            Ok(n)
        })
    }
}

/// Serialises with the given format. Err(text) is an I/O or serialisation error.
pub fn save<T: Serialize>(fmt: u32, x: &T, w: &mut DiskWriter) -> Result<(), String> {
    let r = match fmt % 2 {
        0 => serde_json::to_writer(&mut *w, x).map_err(|e| host(|| e.to_string())),
        _ => bincode::serialize_into(&mut *w, x).map_err(|e| host(|| e.to_string())),
    };
    r
}
pub fn load<T: DeserializeOwned>(fmt: u32, r: &mut DiskReader) -> Result<T, String> {
    // serde itself never sets aside more than 1 MB for what a file only announces
    let _l = crate::rt::limit((4 << 20) + 64 * r.buf.len());
    match fmt % 2 {
        0 => serde_json::from_reader(&mut *r).map_err(|e| host(|| e.to_string())),
        _ => bincode::config().limit(1 << 22).deserialize_from::<_, T>(&mut *r).map_err(|e| host(|| e.to_string())),
    }
}
/// Tensors deserialise for any lifetime; the simulation uses 'static.
pub fn reader(buf: &[u8]) -> DiskReader {
    DiskReader { buf: buf.to_vec(), pos: 0, short: 0, fail_at: None }
}

/// Damages the bytes of a good file.
pub fn damage(good: &[u8], r: &mut Rng) -> (Vec<u8>, u32) {
    let mut b = good.to_vec();
    let k = r.below(7) as u32;
    if b.is_empty() {
        return (b, k);
    }
    match k {
        0 => {
            let n = r.below(b.len() as u64) as usize;
            b.truncate(n);
        }
        1 | 2 => {
            for _ in 0..r.range(1, 3) {
                let i = r.below(b.len() as u64) as usize;
                b[i] ^= 1 << r.below(8);
            }
        }
        3 => {
            // a torn sector: a range replaced by zeros
            let i = r.below(b.len() as u64) as usize;
            let n = r.range(1, 16) as usize;
            for x in b.iter_mut().skip(i).take(n) {
                *x = 0;
            }
        }
        4 => {
            // a lost range
            let i = r.below(b.len() as u64) as usize;
            let n = (r.range(1, 12) as usize).min(b.len() - i);
            b.drain(i..i + n);
        }
        5 => {
            // a digit or small byte changed: damage that tends to stay well-formed
            let c: Vec<usize> = (0..b.len()).filter(|&i| b[i].is_ascii_digit() || b[i] < 10).collect();
            if !c.is_empty() {
                let i = c[r.below(c.len() as u64) as usize];
                b[i] = if b[i].is_ascii_digit() { b'0' + r.below(10) as u8 } else { r.below(9) as u8 };
            }
        }
        _ => {
            // a duplicated range
            let i = r.below(b.len() as u64) as usize;
            let n = (r.range(1, 12) as usize).min(b.len() - i);
            let d = b[i..i + n].to_vec();
            for (j, x) in d.into_iter().enumerate() {
                b.insert(i + j, x);
            }
        }
    }
    (b, k)
}

/// A tensor or a parameter goes through a checkpoint: good, interrupted, failed and damaged.
pub fn roundtrip(cx: &mut Cx, a: u32, s: u64) {
    let mut rr = Rng::new(mix(s, 81));
    let r = &mut rr;
    let fmt = r.below(2) as u32;
    let kind = r.below(6);
    let param = r.chance(1, 2);
    if param && cx.params.is_empty() {
        crate::optim::new_param(cx, s, 4);
    }
    let c: Vec<usize> = (0..cx.params.len()).filter(|&i| !cx.params[i].busy).collect();
    let param = param && !c.is_empty();
    if !param && cx.slots.is_empty() {
        return;
    }
    enum Src {
        T(&'static Tensor<'static>, TVal),
        P(&'static Parameter<'static>, Shp, PState),
    }
    if param && r.chance(1, 3) {
        crate::optim::user_stat(cx, c[a as usize % c.len()], s);
    }
    let src = if param {
        let p = &cx.params[c[a as usize % c.len()]];
        Src::P(unsafe { &*(&*p.p as *const _) }, p.s.clone(), p.state())
    } else {
        let n = cx.slots.len();
        let x = &cx.slots[a as usize % n];
        Src::T(unsafe { &*(&*x.t as *const _) }, x.v.clone())
    };
    let dev = if s >> 40 & 3 == 0 { cx.other } else { cx.dev };
    let write = |w: &mut DiskWriter| -> Option<Result<(), String>> {
        match &src {
            Src::T(t, _) => call("serialising", || save(fmt, *t, w)),
            Src::P(p, ..) => call("serialising", || save(fmt, *p, w)),
        }
    };
    let finite = match &src {
        Src::T(_, v) => v.d.iter().all(|x| x.is_finite()),
        Src::P(_, _, p) => p.v.iter().chain(&p.g).chain(p.st.values().flatten()).all(|x| x.is_finite()),
    };
    if !finite {
        return;
    }
    // a failing disk must surface as an error
    if kind == 1 {
        let mut w = DiskWriter::new();
        w.fail_at = Some((r.below(200) as usize, r.below(2) as u32));
        let res = write(&mut w);
        if let Some(res) = res {
            if w.fired {
                hit(DISK[w.fail_at.unwrap().1 as usize]);
                if res.is_ok() {
                    viol("checkpoint", "a write error while saving was not reported".into());
                }
            }
        }
    }
    let mut w = DiskWriter::new();
    if kind == 2 {
        w.short = r.next() | 1;
        hit(DISK[3]);
    }
    match write(&mut w) {
        None => return,
        Some(Err(e)) => viol("checkpoint", format!("saving to a working disk failed: {}", e)),
        Some(Ok(())) => {}
    }
    stats().saves += 1;
    let good = std::mem::take(&mut w.buf);
    let mut bytes = good.clone();
    let mut damaged = false;
    let mut rd = reader(&[]);
    match kind {
        2 => {
            rd.short = r.next() | 1;
            hit(DISK[7]);
        }
        3 => {
            let (b, k) = damage(&good, r);
            bytes = b;
            damaged = true;
            hit(if k == 0 { DISK[2] } else { DISK[6] });
        }
        4 => {
            rd.fail_at = Some(r.below(good.len() as u64) as usize);
            damaged = true;
            hit(DISK[4]);
        }
        5 => {
            bytes.truncate(r.below(good.len() as u64 + 1) as usize);
            damaged = bytes.len() < good.len();
            hit(DISK[5]);
        }
        _ => {}
    }
    rd.buf = bytes.clone();
    let must_fail = matches!(kind, 4 | 5) && damaged;
    match &src {
        Src::T(_, v) => {
            let res = match sut_try(|| load::<Tensor<'static>>(fmt, &mut rd)) {
                Ok(x) => x,
                Err(p) => viol("checkpoint", format!("loading a {} tensor file panicked: {}", if damaged { "damaged" } else { "good" }, p.msg)),
            };
            match res {
                Err(e) if !damaged => viol("checkpoint", format!("loading a good file failed: {}", e)),
                Err(_) => hit("damage-detected"),
                Ok(_) if must_fail => viol("checkpoint", "an incomplete file was loaded as if it were complete".into()),
                Ok(t) => finish_tensor(cx, t, if damaged { None } else { Some(v) }),
            }
        }
        Src::P(_, sh, st) => {
            let res = match sut_try(|| load::<Parameter<'static>>(fmt, &mut rd)) {
                Ok(x) => x,
                Err(p) => viol("checkpoint", format!("loading a {} parameter file panicked: {}", if damaged { "damaged" } else { "good" }, p.msg)),
            };
            match res {
                Err(e) if !damaged => viol("checkpoint", format!("loading a good file failed: {}", e)),
                Err(_) => hit("damage-detected"),
                Ok(_) if must_fail => viol("checkpoint", "an incomplete file was loaded as if it were complete".into()),
                Ok(p) => finish_param(dev, p, if damaged { None } else { Some((sh, st)) }),
            }
        }
    }
    let _ = gen_data;
}

/// A move that fails can be made again: nothing is lost, and what has already arrived stays.
pub fn retry_move(what: &str, f: &dyn Fn()) {
    for _ in 0..crate::dev::world().faults.len() + 2 {
        if call(what, f).is_some() {
            return;
        }
        hit("failed-move-retried");
        stats().retries += 1;
    }
    viol("no-progress", format!("{} still fails after the last injected fault", what));
}

/// Moves a tensor to a device; a move that fails must not lose the contents.
fn move_tensor(cx: &Cx, t: Tensor<'static>) -> Tensor<'static> {
    let dev = cx.dev;
    let bytes = |t: &Tensor<'static>| {
        let mut w = DiskWriter::new();
        match call("serialising", || save(1, t, &mut w)) {
            Some(Ok(())) => Some(w.buf),
            Some(Err(e)) => viol("checkpoint", format!("saving a tensor that is not on a device failed: {}", e)),
            None => None,
        }
    };
    let before = bytes(&t);
    let mut b = Box::new(t);
    let p: *mut Tensor<'static> = &mut *b;
    for _ in 0..cx.fault_budget() + 2 {
        if call("move_to_device", || unsafe { &mut *p }.move_to_device(dev)).is_some() {
            return *b;
        }
        hit("failed-move-retried");
        stats().retries += 1;
        if let (Some(x), Some(y)) = (&before, &bytes(&b)) {
            if x != y {
                viol("checkpoint", "a tensor whose move to the device failed is no longer what was loaded".into());
            }
        }
    }
    viol("no-progress", "move_to_device still fails after the last injected fault".into());
}

fn finish_tensor(cx: &mut Cx, t: Tensor<'static>, want: Option<&TVal>) {
    let s = Shp::of(t.shape());
    if s.size() > 1 << 20 {
        sut(move || drop(t));
        return;
    }
    // a tensor that has been loaded can be saved again
    let mut w = DiskWriter::new();
    match sut_try(|| save(1, &t, &mut w)) {
        Ok(Ok(())) => {}
        Ok(Err(e)) => viol("checkpoint", format!("saving a tensor that was just loaded failed: {}", e)),
        Err(p) => viol("checkpoint", format!("saving a tensor that was just loaded panicked: {}", p.msg)),
    }
    let t = move_tensor(cx, t);
    let e: Option<Vec<E>> = want.map(|v| v.d.iter().map(|&x| E::x(x as f64)).collect());
    if let Some(v) = want {
        if v.s != s {
            viol("checkpoint", format!("a tensor of shape {:?} was restored with shape {:?}", v.s, s));
        }
        match read(&t) {
            Some(d) => {
                if !bits_eq(&d, &v.d) {
                    viol("checkpoint", format!("a tensor was restored with other contents: {}", first_diff(&d, &v.d)));
                }
            }
            None => {}
        }
    }
    cx.adopt("a restored tensor", t, &s, e.as_deref());
}

fn finish_param(dev: D, p: Parameter<'static>, want: Option<(&Shp, &PState)>) {
    let sizes: Vec<u64> = [p.value.shape().size(), p.gradient.shape().size()].into_iter().chain(p.stats.values().map(|t| t.borrow().shape().size())).map(|x| x as u64).collect();
    if sizes.iter().sum::<u64>() > 1 << 20 {
        sut(move || drop(p));
        return;
    }
    let mut w = DiskWriter::new();
    match sut_try(|| save(1, &p, &mut w)) {
        Ok(Ok(())) => {}
        Ok(Err(e)) => viol("checkpoint", format!("saving a parameter that was just loaded failed: {}", e)),
        Err(e) => viol("checkpoint", format!("saving a parameter that was just loaded panicked: {}", e.msg)),
    }
    let mut b = Box::new(p);
    let bp: *mut Parameter<'static> = &mut *b;
    retry_move("Parameter::move_to_device", &|| unsafe { &mut *bp }.move_to_device(dev));
    let p = *b;
    let got = snapshot(&p);
    if let Some((s, st)) = want {
        if Shp::of(p.shape()) != *s {
            viol("checkpoint", format!("a parameter of shape {:?} was restored with shape {:?}", s, p.shape()));
        }
        if !bits_eq(&got.v, &st.v) || !bits_eq(&got.g, &st.g) || got.st.len() != st.st.len() || got.st.iter().any(|(k, v)| st.st.get(k).map(|w| bits_eq(v, w)) != Some(true)) {
            viol("checkpoint", "a parameter was restored with other contents".into());
        }
    } else if p.value.shape() != p.gradient.shape() || p.value.shape().batch() != 1 {
        viol("checkpoint", format!("a damaged file was loaded as a parameter of shape {:?} with a gradient of shape {:?}", p.value.shape(), p.gradient.shape()));
    } else if got.v.len() as u64 != sizes[0] || got.g.len() as u64 != sizes[1] {
        viol("checkpoint", "a parameter restored from a damaged file is incomplete".into());
    }
    let b = Box::new(p);
    if let Err(e) = sut_try(move || drop(b)) {
        unexpected("dropping a restored parameter", e);
    }
}

//! Operations whose operands do not fit together, derived from ones that do: some operand gets
//! another shape, another batch size, another device or no contents, or an index or range leaves
//! its bounds. What the reference does not define must be refused.

use crate::bad::refuse;
use crate::client::Cx;
use crate::cx::*;
use crate::ops::{apply_bw, apply_n, apply_t, fresh, gen_data, gen_shape, has_bw, plan, Need, BW_KINDS, N, T};
use crate::refm::{self, Op, Shp, TVal};
use crate::rt::{host, mix, sut_try, Rng};

/// Another shape of moderate size.
fn bend(r: &mut Rng, s: &Shp) -> Shp {
    let d = r.below(s.d.len() as u64 + 1) as u32;
    match r.below(8) {
        0 => s.with(d, s.dim(d) + r.range(1, 3) as u32),
        1 if s.dim(d) > 1 => s.with(d, s.dim(d) - 1),
        2 | 3 | 4 => {
            let mut b = r.range(2, 5) as u32;
            if b == s.b {
                b += 1;
            }
            s.withb(b)
        }
        5 => {
            let mut t = s.d.clone();
            if t.len() > 1 {
                t.rotate_left(1);
            }
            Shp::new(&t, s.b)
        }
        6 => s.with(s.d.len() as u32 + (r.below(3) as u32).min(7 - (s.d.len() as u32).min(7)), 2),
        _ => {
            let mut t = s.d.clone();
            t.pop();
            Shp::new(&t, s.b)
        }
    }
}

/// The same operation with a parameter that may be out of bounds.
fn stretch(r: &mut Rng, op: &Op, a: &Shp) -> Option<Op> {
    let over = r.range(1, 4) as u32;
    let some = |r: &mut Rng, ids: &[u32], n: u32| {
        let mut v = ids.to_vec();
        match r.below(4) {
            0 => v.clear(),
            1 => v.push(0),
            _ => {
                let i = r.below(v.len().max(1) as u64) as usize;
                if let Some(x) = v.get_mut(i) {
                    *x = n - 1 + if r.chance(1, 4) { u32::MAX - n } else { over };
                }
            }
        }
        v
    };
    Some(match op {
        Op::Slice(d, l, h) => match r.below(4) {
            0 => Op::Slice(*d, *h, *l),
            1 => Op::Slice(*d, *l, *l),
            2 => Op::Slice(*d, *l, u32::MAX),
            _ => Op::Slice(*d, *l, a.dim(*d) + over),
        },
        Op::BatchSlice(l, h) => match r.below(4) {
            0 => Op::BatchSlice(*h, *l),
            1 => Op::BatchSlice(*h, *h),
            2 => Op::BatchSlice(a.b, a.b + over),
            _ => Op::BatchSlice(*l, a.b + over),
        },
        Op::Pick(i, d) => Op::Pick(some(r, i, a.dim(*d)), *d),
        Op::SparseCE(i, d) => Op::SparseCE(some(r, i, a.dim(*d)), *d),
        Op::BatchPick(i) => Op::BatchPick(some(r, i, a.b)),
        Op::Split(d, n) => Op::Split(*d, if r.chance(1, 2) { a.dim(*d) + over } else { *n + 1 }),
        Op::BatchSplit(n) => Op::BatchSplit(if r.chance(1, 2) { a.b + over } else { *n + 1 }),
        Op::Broadcast(d, _) if r.chance(1, 3) => Op::Broadcast(*d, 0),
        Op::Broadcast(..) => Op::Broadcast(r.below(a.d.len() as u64 + 1) as u32, over + 1),
        Op::Reshape(s) => Op::Reshape(bend(r, s)),
        _ => return None,
    })
}

fn tensor(dev: D, v: &TVal) -> Option<Box<T>> {
    let s = v.s.sut();
    call("new_tensor_by_slice", || dev.new_tensor_by_slice(s, &v.d)).map(Box::new)
}

pub fn misfit(cx: &mut Cx, s: u64) {
    let mut rr = Rng::new(mix(s, 95));
    let r = &mut rr;
    let graph = r.chance(2, 5);
    let bw = !graph && r.chance(1, 4);
    let (mut op, mut shapes, profs) = loop {
        let mut a = gen_shape(r, true);
        if a.size() > 400 {
            a = Shp::new(&[3, 2], a.b);
        }
        let kind = if bw { BW_KINDS[3 + r.below(BW_KINDS.len() as u64 - 3) as usize] } else { r.below(60) as u32 };
        if let Some(p) = plan(kind, r.next(), &a, graph) {
            let mut ss: Vec<Shp> = p.more.iter().map(|n| n.s.clone()).collect();
            let mut ps: Vec<u32> = p.more.iter().map(|n| if n.prof == 9 { 1 } else { n.prof }).collect();
            ss.insert(p.pos.min(ss.len()), a);
            ps.insert(p.pos.min(ps.len()), 1);
            break (p.op, ss, ps);
        }
    };
    if bw {
        return misfit_bw(cx, r, s, op, shapes);
    }
    let mut profs = profs;
    if matches!(op, Op::Concat(_) | Op::BatchConcat | Op::SliceSum) {
        for _ in 0..r.below(3) {
            let i = r.below(shapes.len() as u64) as usize;
            let j = r.below(shapes.len() as u64 + 1) as usize;
            let x = shapes[i].clone();
            shapes.insert(j, x);
            profs.insert(j, 1);
        }
    }
    let mut foreign = usize::MAX;
    let mut empty = usize::MAX;
    let at = r.below(shapes.len() as u64) as usize;
    let what = match r.below(10) {
        0..=5 => {
            shapes[at] = bend(r, &shapes[at]);
            if shapes.len() > 2 && r.chance(1, 3) {
                let q = r.below(shapes.len() as u64) as usize;
                shapes[q] = bend(r, &shapes[q]);
            }
            if graph {
                "graph: operands that do not fit"
            } else {
                "operands that do not fit"
            }
        }
        6..=7 => {
            op = match stretch(r, &op, &shapes[0]) {
                Some(o) => o,
                None => return,
            };
            if graph {
                "graph: a parameter out of bounds"
            } else {
                "a parameter out of bounds"
            }
        }
        8 => {
            if shapes.len() < 2 {
                return;
            }
            foreign = at;
            if graph {
                "graph: operands on two devices"
            } else {
                "operands on two devices"
            }
        }
        _ => {
            if graph {
                return;
            }
            empty = at;
            "an operand without contents"
        }
    };
    if shapes.iter().any(|x| x.d.len() > 8 || x.size() > 4000) {
        return;
    }
    if foreign == usize::MAX && empty == usize::MAX {
        let rs: Vec<&Shp> = shapes.iter().collect();
        if refm::shapes(&op, &rs).is_some() {
            return;
        }
    }
    let (dev, other) = (cx.dev, cx.other);
    let vals: Vec<TVal> = shapes.iter().enumerate().map(|(i, x)| fresh(&Need { s: x.clone(), prof: profs[i], dim: 0 }, mix(s, 300 + i as u64))).collect();
    let mut ts: Vec<Box<T>> = vec![];
    let drop_all = |ts: Vec<Box<T>>| {
        if let Err(p) = sut_try(move || drop(ts)) {
            unexpected("dropping an operand of a refused call", p);
        }
    };
    for (i, v) in vals.iter().enumerate() {
        let t = if i == empty {
            let sh = v.s.sut();
            Some(Box::new(dev.new_tensor(sh)))
        } else {
            tensor(if i == foreign { other } else { dev }, v)
        };
        match t {
            Some(t) => ts.push(t),
            None => return drop_all(ts),
        }
    }
    let refs: Vec<&'static T> = ts.iter().map(|t| unsafe { &*(&**t as *const T) }).collect();
    let detail = format!("{} ({:?} of {:?})", what, op, shapes);
    let variant = r.below(8) as u32;
    if graph {
        refuse(what, &detail, || {
            let ns: Vec<N> = refs.iter().map(|t| N::from(*t)).collect();
            let rs: Vec<&N> = ns.iter().collect();
            let ys = apply_n(&op, &rs, variant);
            if foreign != usize::MAX {
                // an operator learns about devices when it is evaluated
                ys.iter().for_each(|y| y.forward());
            }
            drop(ys);
        });
    } else {
        refuse(what, &detail, || drop(apply_t(&op, &refs, if empty == usize::MAX { variant } else { 0 })));
    }
    for (i, v) in vals.iter().enumerate() {
        if i == empty {
            if ts[i].valid() {
                viol("changed-contents", format!("an operand without contents got some from a refused call: {}", detail));
            }
        } else {
            same("an operand of a refused call", &ts[i], v);
        }
    }
    drop_all(ts);
    let _ = host(|| 0);
    cx.audit_some(mix(s, 7));
}

/// A backward kernel with one of its tensors of another shape or on another device.
fn misfit_bw(cx: &mut Cx, r: &mut Rng, s: u64, op: Op, shapes: Vec<Shp>) {
    let rs: Vec<&Shp> = shapes.iter().collect();
    if !has_bw(&op, &rs) {
        return;
    }
    let ys = match refm::shapes(&op, &rs) {
        Some(y) => y[0].clone(),
        None => return,
    };
    let which = r.below(shapes.len() as u64) as usize;
    // operands, y, gy, gradient
    let only_gy = matches!(op, Op::Slice(..) | Op::Pick(..) | Op::BatchSlice(..) | Op::BatchPick(_));
    let n = shapes.len();
    let mut all = shapes.clone();
    all.push(ys.clone());
    all.push(ys.clone());
    all.push(shapes[which].clone());
    let at = if only_gy { n + 1 + r.below(2) as usize } else { r.below(all.len() as u64) as usize };
    let mut foreign = usize::MAX;
    if r.chance(1, 4) {
        foreign = at;
    } else {
        let t = bend(r, &all[at]);
        if t == all[at] || t.d.len() > 8 || t.size() > 4000 {
            return;
        }
        all[at] = t;
        if !only_gy {
            let xs: Vec<&Shp> = all[..n].iter().collect();
            if refm::shapes(&op, &xs).map(|y| y[0].clone()).as_ref() == Some(&all[n]) && all[n + 1] == all[n] && all[n + 2] == all[which] {
                return;
            }
        } else {
            // the gradient alone decides what fits
            let fit = refm::shapes(&op, &[&all[n + 2]]).map(|y| y[0].clone());
            let same_range = match (&op, at == n + 1) {
                // a slice as long as the gradient of the result
                (Op::Slice(d, l, _), _) => refm::shapes(&Op::Slice(*d, *l, l + all[n + 1].dim(*d)), &[&all[n + 2]]).map(|y| y[0].clone()),
                (Op::BatchSlice(l, _), _) => refm::shapes(&Op::BatchSlice(*l, l + all[n + 1].b), &[&all[n + 2]]).map(|y| y[0].clone()),
                _ => fit,
            };
            if same_range.as_ref() == Some(&all[n + 1]) {
                return;
            }
        }
    }
    let (dev, other) = (cx.dev, cx.other);
    let vals: Vec<TVal> = all.iter().enumerate().map(|(i, x)| TVal::new(x.clone(), gen_data(x.size(), mix(s, 400 + i as u64), 1))).collect();
    let mut ts: Vec<Box<T>> = vec![];
    let drop_all = |ts: Vec<Box<T>>| {
        if let Err(p) = sut_try(move || drop(ts)) {
            unexpected("dropping an operand of a refused call", p);
        }
    };
    for (i, v) in vals.iter().enumerate() {
        match tensor(if i == foreign { other } else { dev }, v) {
            Some(t) => ts.push(t),
            None => return drop_all(ts),
        }
    }
    let refs: Vec<&'static T> = ts.iter().map(|t| unsafe { &*(&**t as *const T) }).collect();
    let g: &'static mut T = unsafe { &mut *(&mut *ts[n + 2] as *mut T) };
    let what = "a backward kernel with tensors that do not fit";
    let detail = format!("{} ({:?}, which {}, tensor {} of {:?})", what, op, which, at, all);
    refuse(what, &detail, || {
        // the device asked is the one all others are on
        apply_bw(&op, &refs[..n], refs[n], refs[n + 1], which, g);
    });
    for (i, v) in vals.iter().enumerate() {
        same("an operand of a refused call", &ts[i], v);
    }
    drop_all(ts);
    cx.audit_some(mix(s, 7));
}

//! C25: life cycle of tensor handles. The model below is explored breadth-first over all its
//! reachable states up to a depth; every transition of every state is replayed on the
//! implementation, after each step of which every tensor is compared with the model.
use mc_core::backend::*;
use mc_core::*;
use prima_undine::functions::BasicFunctions;
use prima_undine::Device;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::atomic::Ordering;

const SLOTS: usize = 3;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum A {
    New(u8, u8),
    /// shape, value count relative to the shape
    Host(u8, i8),
    /// a new tensor by From<&Tensor>
    From(u8),
    Alloc(u8),
    Refer(u8, u8),
    Replace(u8, u8),
    /// slot, device
    Move(u8, u8),
    Reshape(u8, u8),
    Reset(u8),
    Drop(u8),
}

fn shapes() -> Vec<Sh> {
    vec![
        Sh::new(&[6], 1),
        Sh::new(&[2, 3], 1),
        Sh::new(&[3], 2),
        Sh::new(&[5], 1),
        Sh::new(&[70], 1),
    ]
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct T {
    dev: Option<u8>,
    shape: u8,
    host: Option<i8>,
    valid: bool,
    alias: Option<u8>,
    /// contents known
    known: bool,
    val: u32,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
struct M {
    s: [Option<T>; SLOTS],
    /// per device and class: (buffers supplied, in use)
    pool: [BTreeMap<u32, (u32, u32)>; 2],
    step: u32,
}

#[derive(PartialEq, Debug, Clone, Copy)]
enum Res {
    Ok,
    Rejected,
}

impl M {
    fn key(&self) -> M {
        let mut m = self.clone();
        m.step = 0;
        for t in m.s.iter_mut().flatten() {
            t.val = 0;
        }
        for p in m.pool.iter_mut() {
            for v in p.values_mut() {
                // more than two free buffers of a class make no difference to the model
                let free = v.0 - v.1;
                *v = (free.min(2), v.1);
            }
        }
        m
    }
    fn borrowed(&self, i: u8) -> bool {
        self.s.iter().flatten().any(|t| t.alias == Some(i))
    }
    fn free_slot(&self) -> Option<u8> {
        (0..SLOTS as u8).find(|&i| self.s[i as usize].is_none())
    }
    fn acts(&self, nsh: u8) -> Vec<A> {
        let mut v = vec![];
        if self.free_slot().is_some() {
            for s in 0..nsh {
                for d in 0..2 {
                    v.push(A::New(d, s));
                }
                for e in [0, -1, 1] {
                    if s < 2 || e == 0 {
                        v.push(A::Host(s, e));
                    }
                }
            }
        }
        for i in 0..SLOTS as u8 {
            let t = match &self.s[i as usize] {
                None => continue,
                Some(t) => t,
            };
            if self.free_slot().is_some() {
                v.push(A::From(i));
            }
            if self.borrowed(i) {
                continue;
            }
            v.push(A::Drop(i));
            if t.dev.is_some() || t.host.is_some() {
                v.push(A::Alloc(i));
            }
            for j in 0..SLOTS as u8 {
                if j != i && self.s[j as usize].is_some() {
                    v.push(A::Refer(i, j));
                    if !self.borrowed(j) {
                        v.push(A::Replace(i, j));
                    }
                }
            }
            for d in 0..2 {
                v.push(A::Move(i, d));
            }
            for s in 0..nsh {
                if s != t.shape {
                    v.push(A::Reshape(i, s));
                }
            }
            if t.valid && t.alias.is_none() {
                v.push(A::Reset(i));
            }
        }
        v
    }
    fn take(&mut self, d: u8, n: usize) {
        let e = self.pool[d as usize].entry(class_of(n)).or_insert((0, 0));
        if e.0 == e.1 {
            e.0 += 1;
        }
        e.1 += 1;
    }
    fn give(&mut self, d: u8, n: usize) {
        self.pool[d as usize].get_mut(&class_of(n)).unwrap().1 -= 1;
    }
    fn drop_slot(&mut self, i: u8, sh: &[Sh]) {
        let t = self.s[i as usize].take().unwrap();
        if t.valid && t.alias.is_none() {
            self.give(t.dev.unwrap(), sh[t.shape as usize].size());
        }
    }
    fn apply(&mut self, a: A, sh: &[Sh]) -> Res {
        self.step += 1;
        let step = self.step;
        let fresh = |dev, shape, host| T { dev, shape, host, valid: false, alias: None, known: false, val: 0 };
        match a {
            A::New(d, s) => {
                let i = self.free_slot().unwrap();
                self.s[i as usize] = Some(fresh(Some(d), s, None));
                Res::Ok
            }
            A::Host(s, e) => {
                let i = self.free_slot().unwrap();
                let mut t = fresh(None, s, Some(e));
                t.val = step;
                self.s[i as usize] = Some(t);
                Res::Ok
            }
            A::From(j) => {
                let o = self.s[j as usize].clone().unwrap();
                if !o.valid {
                    return Res::Rejected;
                }
                let i = self.free_slot().unwrap();
                let mut t = o;
                t.alias = Some(j);
                self.s[i as usize] = Some(t);
                Res::Ok
            }
            A::Alloc(i) => {
                let t = self.s[i as usize].clone().unwrap();
                if t.valid || t.dev.is_none() || t.host.is_some() {
                    return Res::Rejected;
                }
                self.take(t.dev.unwrap(), sh[t.shape as usize].size());
                let t = self.s[i as usize].as_mut().unwrap();
                t.valid = true;
                t.known = false;
                Res::Ok
            }
            A::Refer(i, j) => {
                let (t, o) = (self.s[i as usize].clone().unwrap(), self.s[j as usize].clone().unwrap());
                if t.valid || t.host.is_some() || t.dev.is_none() || t.dev != o.dev || !o.valid || t.shape != o.shape {
                    return Res::Rejected;
                }
                let mut n = o;
                n.alias = Some(j);
                self.s[i as usize] = Some(n);
                Res::Ok
            }
            A::Replace(i, j) => {
                let (t, o) = (self.s[i as usize].clone().unwrap(), self.s[j as usize].clone().unwrap());
                if t.valid
                    || t.host.is_some()
                    || t.dev.is_none()
                    || t.dev != o.dev
                    || t.shape != o.shape
                    || o.alias.is_some()
                    || !o.valid
                {
                    // the replacement is consumed by the call
                    self.drop_slot(j, sh);
                    return Res::Rejected;
                }
                self.s[j as usize] = None;
                self.s[i as usize] = Some(o);
                Res::Ok
            }
            A::Move(i, d) => {
                let t = self.s[i as usize].clone().unwrap();
                if t.host != Some(0) {
                    return Res::Rejected;
                }
                self.take(d, sh[t.shape as usize].size());
                let t = self.s[i as usize].as_mut().unwrap();
                t.dev = Some(d);
                t.host = None;
                t.valid = true;
                t.known = true;
                Res::Ok
            }
            A::Reshape(i, s) => {
                let t = self.s[i as usize].as_mut().unwrap();
                if sh[t.shape as usize].size() != sh[s as usize].size() {
                    return Res::Rejected;
                }
                t.shape = s;
                Res::Ok
            }
            A::Reset(i) => {
                let t = self.s[i as usize].as_mut().unwrap();
                t.known = true;
                t.val = 1000 + step;
                Res::Ok
            }
            A::Drop(i) => {
                self.drop_slot(i, sh);
                Res::Ok
            }
        }
    }
}

fn host_vals(val: u32, n: usize) -> Vec<f32> {
    (0..n).map(|k| val as f32 * 100. + k as f32 + 0.5).collect()
}

struct W {
    s: [Option<Box<Ten>>; SLOTS],
    dv: [Dv; 2],
    st: [St; 2],
}

fn device(s: &St, kern: Dev) -> Device<'static> {
    tracked_without(s, kern, |ns, n| !(n.starts_with("reset_tensor") || ns == "f32"))
}

impl W {
    fn new(kern: Dev) -> W {
        let sts = [st(), st()];
        let dv = [Dv::from(device(&sts[0], kern)), Dv::from(device(&sts[1], kern))];
        W { s: Default::default(), dv, st: sts }
    }
    fn free_slot(&self) -> usize {
        (0..SLOTS).find(|&i| self.s[i].is_none()).unwrap()
    }
    fn r(&self, i: u8) -> &'static Ten {
        forever(&**self.s[i as usize].as_ref().unwrap())
    }
    fn m(&mut self, i: u8) -> &mut Ten {
        &mut **self.s[i as usize].as_mut().unwrap()
    }
    fn apply(&mut self, a: A, m: &M, sh: &[Sh]) -> Res {
        let step = m.step;
        let r = match a {
            A::New(d, s) => {
                let t = self.dv[d as usize].d().new_tensor(sh[s as usize].shape());
                let i = self.free_slot();
                self.s[i] = Some(Box::new(t));
                Ok(())
            }
            A::Host(s, e) => {
                let n = (sh[s as usize].size() as i64 + e as i64) as usize;
                let t = Ten::new_host_tensor(sh[s as usize].shape(), host_vals(step, n));
                let i = self.free_slot();
                self.s[i] = Some(Box::new(t));
                Ok(())
            }
            A::From(j) => {
                let o = self.r(j);
                let i = self.free_slot();
                quiet(|| Ten::from(o)).map(|t| self.s[i] = Some(Box::new(t)))
            }
            A::Alloc(i) => quiet(|| self.m(i).alloc()),
            A::Refer(i, j) => {
                let o = self.r(j);
                quiet(|| self.m(i).refer(o))
            }
            A::Replace(i, j) => {
                let o = *self.s[j as usize].take().unwrap();
                quiet(|| self.m(i).replace(o))
            }
            A::Move(i, d) => {
                let d = self.dv[d as usize].d();
                quiet(|| self.m(i).move_to_device(d))
            }
            A::Reshape(i, s) => quiet(|| self.m(i).update_shape(sh[s as usize].shape())),
            A::Reset(i) => quiet(|| self.m(i).reset((1000 + step) as f32)),
            A::Drop(i) => {
                self.s[i as usize] = None;
                Ok(())
            }
        };
        if r.is_ok() {
            Res::Ok
        } else {
            Res::Rejected
        }
    }
    fn check(&self, m: &M, sh: &[Sh]) -> Result<(), String> {
        for d in 0..2 {
            let g = lk(&self.st[d]);
            if let Some(e) = g.errors.first() {
                return Err(e.clone());
            }
            if g.frees != 0 {
                return Err("a buffer went back to the backend while the device lives".into());
            }
            let expect: u32 = m.pool[d].values().map(|v| v.0).sum();
            if g.allocs != expect as u64 {
                return Err(format!("device {}: the backend supplied {} buffers instead of {}", d, g.allocs, expect));
            }
        }
        let mut handles: HashMap<usize, usize> = HashMap::new();
        for i in 0..SLOTS {
            let (t, x) = match (&m.s[i], &self.s[i]) {
                (None, None) => continue,
                (Some(t), Some(x)) => (t, x),
                _ => return Err("harness: slots differ".into()),
            };
            if x.valid() != t.valid {
                return Err(format!("tensor {} valid() is {} instead of {}", i, x.valid(), t.valid));
            }
            let got = x.shape();
            if got != sh[t.shape as usize].shape() {
                return Err(format!("tensor {} has shape {:?} instead of {}", i, got, sh[t.shape as usize].show()));
            }
            match t.dev {
                Some(d) => {
                    if quiet(|| x.device() == self.dv[d as usize].d()) != Ok(true) {
                        return Err(format!("tensor {} is not on device {}", i, d));
                    }
                }
                None => {
                    if !panics(|| x.device()) {
                        return Err(format!("host tensor {} has a device", i));
                    }
                }
            }
            if !t.valid {
                continue;
            }
            let h = x.handle().load(Ordering::SeqCst) as usize;
            if let Some(j) = t.alias {
                let o = self.r(j).handle().load(Ordering::SeqCst) as usize;
                if o != h {
                    return Err(format!("alias {} and its source {} have different storage", i, j));
                }
            } else if let Some(j) = handles.insert(h, i) {
                return Err(format!("tensors {} and {} share storage", i, j));
            }
            match lk(&self.st[t.dev.unwrap() as usize]).live.get(&h) {
                None => return Err(format!("storage of tensor {} is not a live buffer of its device", i)),
                Some(&n) if (n as usize) < sh[t.shape as usize].size() => {
                    return Err(format!("storage of tensor {} is too small", i))
                }
                _ => {}
            }
            // contents, followed through the chain of aliases
            let mut k = i;
            while let Some(j) = m.s[k].as_ref().unwrap().alias {
                k = j as usize;
            }
            let src = m.s[k].as_ref().unwrap();
            if src.known {
                let n = sh[t.shape as usize].size();
                let e = if src.val > 1000 { vec![src.val as f32; n] } else { host_vals(src.val, n) };
                let g = x.to_vec();
                if g != e {
                    return Err(format!("tensor {} reads {:?} instead of {:?}", i, g, e));
                }
            }
        }
        Ok(())
    }
    /// Drops everything and finds out whether the devices still have every buffer, each once.
    fn finish(mut self, m: &mut M, sh: &[Sh]) -> Result<(), String> {
        loop {
            let i = match (0..SLOTS as u8).rev().find(|&i| m.s[i as usize].is_some() && !m.borrowed(i)) {
                Some(i) => i,
                None => break,
            };
            m.drop_slot(i, sh);
            self.s[i as usize] = None;
        }
        self.check(m, sh)?;
        for d in 0..2 {
            let dev = self.dv[d].d();
            for (&c, &(total, inuse)) in &m.pool[d] {
                assert_eq!(inuse, 0);
                let before = lk(&self.st[d]).allocs;
                let mut hs = vec![];
                let mut seen = HashSet::new();
                for _ in 0..total {
                    let h = dev.new_handle(c);
                    if !seen.insert(h.load(Ordering::SeqCst) as usize) {
                        return Err(format!("device {} hands out one of its buffers twice", d));
                    }
                    hs.push(h);
                }
                if lk(&self.st[d]).allocs != before {
                    return Err(format!(
                        "device {}: of {} buffers of class {} not all came back",
                        d, total, c
                    ));
                }
                hs.push(dev.new_handle(c));
                if lk(&self.st[d]).allocs != before + 1 {
                    return Err(format!("device {}: more than the {} buffers of class {} came back", d, total, c));
                }
                for h in hs {
                    dev.drop_handle(&h);
                }
            }
        }
        let W { dv, st, .. } = self;
        drop(dv);
        for d in 0..2 {
            let g = lk(&st[d]);
            if let Some(e) = g.errors.first() {
                return Err(format!("dropping the device: {}", e));
            }
            if !g.live.is_empty() || g.allocs != g.frees || !g.closed {
                return Err(format!("dropping the device released {} of {} buffers", g.frees, g.allocs));
            }
        }
        Ok(())
    }
}

/// Replays a history on the implementation.
fn replay(h: &[A], kern: Dev, sh: &[Sh], rec: &mut Rec) -> Result<(), String> {
    let mut m = M::default();
    let mut w = W::new(kern);
    let mut go = || -> Result<(), String> {
        for (k, &a) in h.iter().enumerate() {
            // whether replacing by a tensor without storage panics or does nothing is left open
            let open = match a {
                A::Replace(_, j) => m.s[j as usize].as_ref().map_or(false, |t| !t.valid && t.host.is_none()),
                _ => false,
            };
            let e = m.apply(a, sh);
            let g = w.apply(a, &m, sh);
            if e != g && !open {
                return Err(format!("{:?} was {:?}, should be {:?}", a, g, e));
            }
            if k + 1 == h.len() {
                rec.outcome(if e == Res::Ok { "accepted" } else { "rejected" });
            }
            w.check(&m, sh).map_err(|e| format!("after {:?}: {}", a, e))?;
        }
        Ok(())
    };
    let r = go();
    rec.step(h.len() as u64);
    rec.trace(1);
    if r.is_err() {
        std::mem::forget(w);
    } else {
        w.finish(&mut m, sh).map_err(|e| format!("{:?}: {}", h, e))?;
    }
    r.map_err(|e| format!("{:?}: {}", h, e))
}

fn all(h: &mut Vec<A>, m: &M, depth: usize, nsh: u8, kern: Dev, sh: &[Sh], rec: &mut Rec) -> Result<(), String> {
    if h.len() == depth {
        rec.state(hash64(&m.key()));
        return replay(h, kern, sh, rec);
    }
    for a in m.acts(nsh) {
        let mut n = m.clone();
        n.apply(a, sh);
        h.push(a);
        all(h, &n, depth, nsh, kern, sh, rec)?;
        h.pop();
    }
    Ok(())
}

fn body(ctx: &mut Ctx) {
    mc_core::alloc::enable_guards();
    let kern = leaked_naive();
    let sh = shapes();
    // (1) every history, without merging
    let (depth, nsh) = ctx.pick((4, 3), (5, 3));
    let m0 = M::default();
    for a in m0.acts(nsh) {
        let mut m1 = m0.clone();
        m1.apply(a, &sh);
        for b in m1.acts(nsh) {
            let mut m2 = m1.clone();
            m2.apply(b, &sh);
            ctx.case(
                || format!("histories from {:?} {:?}", a, b),
                |rec| all(&mut vec![a, b], &m2, depth, nsh, kern, &sh, rec),
            );
        }
    }
    // (2) every transition of every reachable model state
    let (levels, cap, nsh) = ctx.pick((6, 12_000, 5), (9, 600_000, 5));
    let mut seen: HashSet<M> = HashSet::new();
    let mut frontier: Vec<(M, Vec<A>)> = vec![(m0.clone(), vec![])];
    seen.insert(m0.key());
    let mut chunk = 0;
    for level in 0..levels {
        for (ci, part) in frontier.chunks(64).enumerate() {
            ctx.case(
                || format!("states level {} part {}", level, ci),
                |rec| {
                    for (m, h) in part {
                        rec.state(hash64(&m.key()));
                        for a in m.acts(nsh) {
                            let mut g = h.clone();
                            g.push(a);
                            replay(&g, kern, &sh, rec)?;
                        }
                    }
                    Ok(())
                },
            );
            chunk += 1;
        }
        if seen.len() > cap {
            break;
        }
        let mut next = vec![];
        for (m, h) in &frontier {
            for a in m.acts(nsh) {
                let mut n = m.clone();
                n.apply(a, &sh);
                if seen.insert(n.key()) {
                    let mut g = h.clone();
                    g.push(a);
                    next.push((n, g));
                }
            }
        }
        frontier = next;
    }
    let _ = chunk;
}

fn main() {
    run(
        Spec {
            id: "C25",
            level: "model_checking",
            rule: "a model of three tensor slots on two devices (unallocated, host, owned, alias, contents, buffers per size \
                   class); every history to a depth, and every transition of every reachable model state to a larger \
                   depth, replayed on the implementation over a counting backend with guarded memory; validity, shape, \
                   device, storage, values and buffer counts compared after every step, all buffers accounted for at the end",
            assumptions: &["aliases are used as the borrow checker allows: no source is changed or dropped while an alias lives"],
        },
        body,
    );
}

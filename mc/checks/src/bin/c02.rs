//! C02: accounting of backend buffers.
use mc_core::backend::*;
use mc_core::*;
use prima_undine::device_impl::DeviceImpl;
use prima_undine::functions::BasicFunctions;
use prima_undine::optimizers as o;
use prima_undine::{Device, Node, Optimizer, Shape};
use std::collections::HashMap;
use std::ffi::c_void;
use std::sync::atomic::{AtomicPtr, Ordering};
use std::sync::{Arc, Mutex};

/// Hands out numbers instead of memory, so that every size up to the limit can be asked for.
#[derive(Default)]
struct Fake {
    next: usize,
    live: HashMap<usize, u32>,
    asked: Vec<u32>,
    errors: Vec<String>,
    frees: u64,
}
struct FakeDev(Arc<Mutex<Fake>>);
impl DeviceImpl for FakeDev {
    fn identifier(&self) -> String {
        "Fake".into()
    }
    fn new_handle(&self, size: u32) -> AtomicPtr<c_void> {
        let mut f = self.0.lock().unwrap();
        // handles are the backend's own business: these share their low halves
        let i = f.next;
        f.next += 1;
        let a = (1 + i / 4) * 8 + [0, 1 << 32, 1 << 63, 3 << 32][i % 4];
        f.live.insert(a, size);
        f.asked.push(size);
        AtomicPtr::new(a as *mut c_void)
    }
    fn drop_handle(&self, handle: &AtomicPtr<c_void>) {
        let mut f = self.0.lock().unwrap();
        f.frees += 1;
        let a = handle.load(Ordering::SeqCst) as usize;
        if f.live.remove(&a).is_none() {
            f.errors.push(format!("buffer {} released though not held", a));
        }
    }
}

fn class(n: u64) -> u32 {
    let mut c = 64u64;
    while c < n {
        c *= 2;
    }
    c.min(1 << 31) as u32
}

fn addr(h: &AtomicPtr<c_void>) -> usize {
    h.load(Ordering::SeqCst) as usize
}

/// Interprets a history of requests and releases through tensors (or raw handles) and compares with
/// the counting model after every step. At the end the device is dropped.
struct Pool {
    f: Arc<Mutex<Fake>>,
    dev: Option<Box<Device<'static>>>,
    held: Vec<(u32, Option<Ten>, Option<AtomicPtr<c_void>>)>,
    total: HashMap<u32, u64>,
}

impl Pool {
    fn new() -> Pool {
        let f = Arc::new(Mutex::new(Fake::default()));
        let dev = Box::new(Device::new(FakeDev(Arc::clone(&f))));
        Pool { f, dev: Some(dev), held: vec![], total: HashMap::new() }
    }
    fn d(&self) -> Dev {
        forever(&**self.dev.as_ref().unwrap())
    }
    fn at(&self, i: usize) -> usize {
        match &self.held[i] {
            (_, Some(t), _) => addr(t.handle()),
            (_, _, Some(h)) => addr(h),
            _ => unreachable!(),
        }
    }
    fn request(&mut self, n: u32, raw: bool) -> Result<(), String> {
        let c = class(n as u64);
        let inuse = self.held.iter().filter(|h| class(h.0 as u64) == c).count() as u64;
        let before = self.f.lock().unwrap().asked.len();
        if raw {
            let h = self.d().new_handle(n);
            self.held.push((n, None, Some(h)));
        } else {
            let mut t = self.d().new_tensor(Shape::new(&[n], 1));
            t.alloc();
            self.held.push((n, Some(t), None));
        }
        let total = self.total.entry(c).or_insert(0);
        let fresh = *total == inuse;
        *total += fresh as u64;
        let total = *total;
        let a = self.at(self.held.len() - 1);
        let f = self.f.lock().unwrap();
        let asked = f.asked.len() - before;
        if asked != fresh as usize {
            return Err(format!(
                "request for {} elements made the backend supply {} buffers, {} of the {} buffers of the class were in use",
                n, asked, inuse, total
            ));
        }
        match f.live.get(&a) {
            None => return Err(format!("got a buffer {} that the backend does not hold", a)),
            Some(&s) if s < n => return Err(format!("buffer of {} elements for {}", s, n)),
            _ => {}
        }
        for i in 0..self.held.len() - 1 {
            if self.at(i) == a {
                return Err(format!("buffer {} given to two live tensors", a));
            }
        }
        Ok(())
    }
    fn release(&mut self, i: usize) -> Result<(), String> {
        let (_, t, h) = self.held.remove(i);
        drop(t);
        if let Some(h) = h {
            self.d().drop_handle(&h);
        }
        self.quiet_backend("a release")
    }
    fn quiet_backend(&self, what: &str) -> Result<(), String> {
        let f = self.f.lock().unwrap();
        if let Some(e) = f.errors.first() {
            return Err(format!("after {}: {}", what, e));
        }
        if f.frees != 0 {
            return Err(format!("after {}: the backend got {} buffers back while the device lives", what, f.frees));
        }
        Ok(())
    }
    fn rejects(&mut self, n: u64) -> Result<(), String> {
        let before = self.f.lock().unwrap().asked.len();
        if n <= u32::MAX as u64 {
            if !panics(|| self.d().new_handle(n as u32)) {
                return Err(format!("request for {} elements accepted", n));
            }
        }
        if self.f.lock().unwrap().asked.len() != before {
            return Err("a rejected request reached the backend".into());
        }
        self.quiet_backend("a rejected request")
    }
    fn finish(mut self) -> Result<(), String> {
        self.quiet_backend("the history")?;
        while let Some((_, t, h)) = self.held.pop() {
            drop(t);
            if let Some(h) = h {
                self.d().drop_handle(&h);
            }
        }
        self.quiet_backend("releasing everything")?;
        self.dev = None;
        let f = self.f.lock().unwrap();
        if let Some(e) = f.errors.first() {
            return Err(format!("dropping the device: {}", e));
        }
        if !f.live.is_empty() || f.frees != f.asked.len() as u64 {
            return Err(format!("dropping the device released {} of {} buffers", f.frees, f.asked.len()));
        }
        Ok(())
    }
}

fn histories(sizes: &[u32], depth: usize, raw: bool, prefix: &[usize], rec: &mut Rec) -> Result<(), String> {
    // choices: 0..sizes.len() request, then release of the i-th held buffer
    fn go(sizes: &[u32], depth: usize, raw: bool, hist: &mut Vec<usize>, rec: &mut Rec) -> Result<(), String> {
        let run = |hist: &[usize]| -> Result<(Pool, usize), String> {
            let mut p = Pool::new();
            for &c in hist {
                if c < sizes.len() {
                    p.request(sizes[c], raw)?;
                } else {
                    p.release(c - sizes.len())?;
                }
            }
            let n = p.held.len();
            Ok((p, n))
        };
        let (p, held) = run(hist).map_err(|e| format!("{:?}: {}", hist, e))?;
        if hist.len() == depth {
            rec.step(hist.len() as u64);
            rec.trace(1);
            let mut key: Vec<(u32, u64)> = p.total.iter().map(|(a, b)| (*a, *b)).collect();
            key.sort();
            rec.state(hash64(&(key, p.held.iter().map(|h| h.0).collect::<Vec<_>>())));
            return p.finish().map_err(|e| format!("{:?}: {}", hist, e));
        }
        std::mem::forget(p.held);
        for c in 0..sizes.len() + held {
            hist.push(c);
            go(sizes, depth, raw, hist, rec)?;
            hist.pop();
        }
        Ok(())
    }
    let mut h = prefix.to_vec();
    go(sizes, depth, raw, &mut h, rec)
}

/// Holds `n` buffers at once, gives them back in some order, twice.
fn crowd(n: usize, sizes: &[u32], order: usize, rec: &mut Rec) -> Result<(), String> {
    let f = Arc::new(Mutex::new(Fake::default()));
    let dev = Box::new(Device::new(FakeDev(Arc::clone(&f))));
    let d: Dev = forever(&*dev);
    for round in 0..3 {
        let mut held: Vec<Option<AtomicPtr<c_void>>> = vec![];
        let mut seen: HashMap<usize, u32> = HashMap::new();
        for i in 0..n {
            let size = sizes[i % sizes.len()];
            let h = d.new_handle(size);
            let has = f.lock().unwrap().live.get(&addr(&h)).cloned();
            match has {
                None => return Err(format!("round {}: buffer {} is not one of the backend's", round, i)),
                Some(s) if s < size => return Err(format!("round {}: buffer {} has {} elements for {}", round, i, s, size)),
                _ => (),
            }
            if seen.insert(addr(&h), size).is_some() {
                return Err(format!("round {}: buffer {} is in use already", round, i));
            }
            held.push(Some(h));
            rec.step(1);
        }
        let asked = f.lock().unwrap().asked.len();
        if asked != n {
            return Err(format!("round {}: the backend supplied {} buffers for {} in use at most", round, asked, n));
        }
        for i in 0..n {
            let k = match order {
                0 => i,
                1 => n - 1 - i,
                _ => (i * 7919) % n,
            };
            if let Some(h) = held[k].take() {
                d.drop_handle(&h);
            }
        }
        for h in held.iter().flatten() {
            d.drop_handle(h);
        }
        let g = f.lock().unwrap();
        if g.frees != 0 || !g.errors.is_empty() {
            return Err(format!("round {}: {} buffers went back while the device lives", round, g.frees));
        }
        drop(g);
        rec.heartbeat();
    }
    drop(dev);
    let g = f.lock().unwrap();
    if g.frees as usize != n || !g.live.is_empty() || !g.errors.is_empty() {
        return Err(format!("dropping the device released {} of {} buffers", g.frees, n));
    }
    rec.trace(1);
    Ok(())
}

/// Runs `f` on a tracked device three times: the second and third run must not need new buffers,
/// and dropping the device must return everything.
fn steady(kern: Dev, f: &dyn Fn(Dev) -> Result<(), String>) -> Result<(), String> {
    let s = st();
    let mut d = Dv::from(tracked(&s, kern));
    f(d.d())?;
    let first = lk(&s).allocs;
    let maxlive = lk(&s).live.len();
    for _ in 0..3 {
        f(d.d())?;
    }
    {
        let g = lk(&s);
        if g.allocs != first {
            return Err(format!("{} buffers after the first run, {} after repeating it: storage was not returned", first, g.allocs));
        }
        if g.frees != 0 || g.live.len() != maxlive {
            return Err("buffers went back to the backend while the device lives".into());
        }
    }
    d.mutate();
    drop(d);
    let g = lk(&s);
    if let Some(e) = g.errors.first() {
        return Err(e.clone());
    }
    if !g.live.is_empty() || g.frees != g.allocs || !g.closed {
        return Err(format!("dropping the device released {} of {} buffers", g.frees, g.allocs));
    }
    Ok(())
}

fn body(ctx: &mut Ctx) {
    mc_core::alloc::enable_guards();
    // all histories
    let sets: &[&[u32]] = &[&[1, 65], &[64, 65, 128], &[1, 64, 129, 256], &[100, 1 << 31, (1 << 30) + 1]];
    for (si, set) in sets.iter().enumerate() {
        for raw in [false, true] {
            let depth = ctx.pick([10, 8, 8, 8], [11, 9, 8, 9])[si];
            for a in 0..set.len() {
                for b in 0..set.len() + 1 {
                    for c in 0..set.len() + (if b < set.len() { 2 } else { 0 }) {
                        ctx.case(
                            || format!("histories sizes{:?} {} {}-{}-{}", set, if raw { "handles" } else { "tensors" }, a, b, c),
                            |rec| histories(set, depth, raw, &[a, b, c], rec),
                        );
                    }
                }
            }
        }
    }
    // many buffers at once, and long histories
    let many = ctx.pick(20_000usize, 200_000);
    for set in [&[64u32][..], &[1, 128], &[1 << 31], &[100, 1000, 10_000, 100_000, 1 << 20, 1 << 30]] {
        for order in 0..3 {
            ctx.case(
                || format!("crowd of {} sizes{:?} order {}", many, set, order),
                |rec| crowd(many, set, order, rec),
            );
        }
        for hold in [0usize, 1, 7] {
            ctx.case(
                || format!("{} rounds sizes{:?} holding {}", many, set, hold),
                |rec| {
                    let mut p = Pool::new();
                    for i in 0..many {
                        p.request(set[(i + i / 7) % set.len()], i % 5 == 0)?;
                        while p.held.len() > hold {
                            p.release(i % 3 * hold / 3)?;
                        }
                        rec.step(2);
                    }
                    rec.heartbeat();
                    p.finish()
                },
            );
        }
    }
    // every size, one after the other, with reuse inside a class and not across
    let top = ctx.pick(1u64 << 14, 1 << 20);
    let mut sizes: Vec<u64> = vec![];
    for k in 6..=31 {
        for o in -3i64..=3 {
            sizes.push(((1i64 << k) + o) as u64);
        }
        sizes.push((1u64 << k) + (1u64 << (k - 1)));
        sizes.push((1u64 << k) * 2 - 1);
    }
    for n in sizes.into_iter().filter(|n| *n <= 1 << 31) {
        ctx.case(
            || format!("size {}", n),
            |rec| {
                for m in [1, 63, 64, 65, n / 2, n / 2 + 1, n - 1, n, n + 1, n.saturating_mul(2)] {
                    if m == 0 || m > 1 << 31 {
                        continue;
                    }
                    for raw in [false, true] {
                        let mut p = Pool::new();
                        p.request(n as u32, raw)?;
                        p.release(0)?;
                        p.request(m as u32, raw)?;
                        p.request(n as u32, raw)?;
                        p.release(0)?;
                        p.request(n as u32, raw)?;
                        p.request(m as u32, raw)?;
                        rec.step(7);
                        p.finish()?;
                    }
                }
                Ok(())
            },
        );
    }
    for block in 0..top / 256 {
        ctx.case(
            || format!("sizes {}..{}", block * 256 + 1, block * 256 + 256),
            |rec| {
                let mut p = Pool::new();
                for n in block * 256 + 1..=block * 256 + 256 {
                    p.request(n as u32, n % 2 == 0)?;
                    p.request(n as u32, false)?;
                    p.release(p.held.len() - 2)?;
                    p.request(n as u32, n % 3 == 0)?;
                    if n % 3 != 0 {
                        p.release(0)?;
                    }
                    rec.step(4);
                }
                p.finish()
            },
        );
    }
    ctx.case(
        || "rejected sizes".to_string(),
        |rec| {
            for held in 0..3 {
                let mut p = Pool::new();
                for _ in 0..held {
                    p.request(100, false)?;
                }
                for n in [0u64, (1 << 31) + 1, (1 << 31) + 2, 3 << 30, u32::MAX as u64 - 1, u32::MAX as u64] {
                    p.rejects(n)?;
                    rec.step(1);
                    // as a tensor
                    if n != 0 {
                        let before = p.f.lock().unwrap().asked.len();
                        if !panics(|| {
                            let mut t = p.d().new_tensor(Shape::new(&[n as u32], 1));
                            t.alloc();
                        }) {
                            return Err(format!("tensor of {} elements accepted", n));
                        }
                        if p.f.lock().unwrap().asked.len() != before {
                            return Err("a rejected tensor reached the backend".into());
                        }
                    }
                    p.request(100, false)?;
                    p.release(0)?;
                }
                p.finish()?;
            }
            Ok(())
        },
    );
    // real work returns its storage
    let kern = leaked_naive();
    for f in dev_fns(ctx.thorough()) {
        ctx.case(
            || format!("function {}", f.name),
            |rec| {
                rec.step(4);
                steady(kern, &|d| {
                    let xs: Vec<Ten> = f.operands.iter().enumerate().map(|(i, s)| ten(d, &spread(*s, 0.3, 2., i as u64))).collect();
                    let mut dest = f.dest.map(|s| ten(d, &spread(s, 0.3, 2., 40)));
                    let xr: Vec<&Ten> = xs.iter().map(|x| forever(x)).collect();
                    let out = (f.call)(d, &xr, dest.as_mut().map(|t| forever_mut(t)));
                    drop(out);
                    Ok(())
                })
            },
        );
    }
    let m = |d: &[u32], b: u32| Sh::new(d, b);
    for (op, shapes) in op_samples() {
        ctx.case(
            || format!("operation {} {}", op.show(), shapes.iter().map(|s| s.show()).collect::<Vec<_>>().join(",")),
            |rec| {
                rec.step(4);
                steady(kern, &|d| {
                    let xs: Vec<Ten> = shapes.iter().enumerate().map(|(i, s)| ten(d, &spread(*s, 0.3, 2., i as u64))).collect();
                    {
                        let xr: Vec<&Ten> = xs.iter().collect();
                        drop(op.eager(&xr));
                        // graph: unevaluated, evaluated, and differentiated, also more than once
                        for stage in 0..4 {
                            let ns: Vec<Nd> = xs
                                .iter()
                                .map(|x| if stage % 2 == 0 { Node::from(forever(x)) } else { Node::from(d.copy_tensor(x)) })
                                .collect();
                            let nr: Vec<&Nd> = ns.iter().collect();
                            let ys = op.node(&nr);
                            for y in &ys {
                                if stage > 0 {
                                    y.forward();
                                    y.to_vec();
                                }
                                if stage > 1 {
                                    y.backward();
                                }
                                if stage > 2 {
                                    y.backward();
                                    y.forward();
                                }
                            }
                        }
                    }
                    Ok(())
                })
            },
        );
    }
    // models, optimizers and in-place work
    for kind in 0..3 {
        ctx.case(
            || format!("training {}", kind),
            |rec| {
                rec.step(4);
                steady(kern, &|d| {
                    let init = prima_undine::initializers::Constant::new(0.5);
                    let mut p = d.new_parameter(m(&[65], 1).shape(), &init);
                    fn train<O: Optimizer>(mut q: O, p: &mut prima_undine::Parameter<'static>) {
                        q.set_weight_decay(0.1);
                        q.set_gradient_clipping(0.5);
                        q.configure_parameter(p);
                        for _ in 0..2 {
                            {
                                let n = Node::from(forever_mut(p));
                                let y = (&n * &n).tanh().sum(0);
                                y.backward();
                                y.backward();
                            }
                            q.update_parameters(&mut [p]);
                        }
                        q.configure_parameter(p);
                        q.update_parameters(&mut [p]);
                    }
                    match kind {
                        0 => train(o::SGD::new(0.1), &mut p),
                        1 => train(o::MomentumSGD::new(0.1, 0.9), &mut p),
                        _ => train(o::Adam::new(0.1, 0.9, 0.99, 1e-8), &mut p),
                    }
                    let mut t = ten_const(d, m(&[65], 2), 1.);
                    t += &p.value;
                    t -= d.copy_tensor(&p.value);
                    t *= 2.;
                    t.update_shape(Shape::new(&[130], 1));
                    let al = Ten::from(forever(&t));
                    drop(al);
                    Ok(())
                })
            },
        );
    }
}

fn main() {
    run(
        Spec {
            id: "C02",
            level: "model_checking",
            rule: "every history of requests and releases up to the depth over several sets of sizes (through tensors and \
                   raw handles) against a counting model; every request size up to a bound and around every power of two \
                   up to the limit; every device function, operation, backward pass and optimizer run repeatedly on a \
                   counting backend",
            assumptions: &["the backend hands out distinct buffers"],
        },
        body,
    );
}

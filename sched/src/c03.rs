//! C03: threads that share one device, under every schedule up to a bound on preemptions.
//! The library is linked as a copy whose locks and atomics stop at the scheduler of `mc_std`.
mod back;
use back::*;
use mc_harness::*;
use mc_std::sched::{self, Body};
use mc_std::sync::atomic::{AtomicPtr, Ordering};
use mc_std::sync::Mutex as SMutex;
#[macro_use]
extern crate prima_undine;
use prima_undine::functions::{BasicFunctions, RandomDeviceFunctions};
use prima_undine::{initializers, optimizers, Node, Optimizer, Shape, Tensor};
use std::ffi::c_void;
use std::sync::{Arc, Mutex};

type Ten = Tensor<'static>;
type Res = Result<Vec<f32>, String>;
type Out = Arc<Mutex<Vec<Option<Res>>>>;

// ---------------------------------------------------------------- raw buffers

#[derive(Clone, Copy, Debug, PartialEq)]
enum R {
    /// ask for that many elements
    N(u32),
    /// release the oldest / the newest
    Old,
    New,
}

/// Every history of at most `len` requests and releases.
fn histories(len: usize, sizes: &[u32]) -> Vec<Vec<R>> {
    fn go(len: usize, sizes: &[u32], held: usize, cur: &mut Vec<R>, out: &mut Vec<Vec<R>>) {
        if !cur.is_empty() {
            out.push(cur.clone());
        }
        if cur.len() == len {
            return;
        }
        for s in sizes {
            cur.push(R::N(*s));
            go(len, sizes, held + 1, cur, out);
            cur.pop();
        }
        if held > 0 {
            cur.push(R::Old);
            go(len, sizes, held - 1, cur, out);
            cur.pop();
        }
        if held > 1 {
            cur.push(R::New);
            go(len, sizes, held - 1, cur, out);
            cur.pop();
        }
    }
    let mut out = vec![];
    go(len, sizes, 0, &mut vec![], &mut out);
    out
}

fn show(h: &[R]) -> String {
    h.iter()
        .map(|r| match r {
            R::N(n) => n.to_string(),
            R::Old => "o".into(),
            R::New => "n".into(),
        })
        .collect::<Vec<_>>()
        .join(",")
}

/// Runs one thread's history; every buffer carries a pattern of its own over all it was asked for.
fn raw_thread(d: Dev, s: &St, tid: usize, hist: &[R]) -> Result<(), String> {
    struct Held {
        h: AtomicPtr<c_void>,
        n: u32,
        v: f32,
    }
    let at = |x: &Held| x.h.load(Ordering::Relaxed) as usize;
    let check = |x: &Held| -> Result<(), String> {
        let a = at(x);
        sched::buffer(a, false, "reading a held buffer");
        let v = unsafe { std::slice::from_raw_parts(a as *const f32, x.n as usize) };
        if v.iter().any(|y| *y != x.v) {
            return Err(format!("T{}: a held buffer was overwritten", tid));
        }
        Ok(())
    };
    let mut held: Vec<Held> = vec![];
    let mut k = 0;
    let release = |x: Held| -> Result<(), String> {
        check(&x)?;
        sched::buffer(at(&x), true, "giving back a buffer");
        d.drop_handle(&x.h);
        Ok(())
    };
    for r in hist {
        match r {
            R::N(n) => {
                let h = match quiet(|| d.new_handle(*n)) {
                    Ok(h) => h,
                    Err(m) if m.contains("injected") => continue,
                    Err(m) => return Err(format!("T{}: a request panicked: {}", tid, m)),
                };
                k += 1;
                let x = Held { h, n: *n, v: (tid * 100 + k) as f32 };
                let a = at(&x);
                match lk(s).live.get(&a) {
                    None => return Err(format!("T{}: got a buffer the backend does not hold", tid)),
                    Some(c) if c < n => return Err(format!("T{}: got {} elements for {}", tid, c, n)),
                    _ => (),
                }
                sched::buffer(a, true, "filling a new buffer");
                unsafe { std::slice::from_raw_parts_mut(a as *mut f32, *n as usize) }.fill(x.v);
                held.push(x);
            }
            _ if held.is_empty() => (),
            R::Old => release(held.remove(0))?,
            R::New => release(held.pop().unwrap())?,
        }
    }
    while let Some(x) = held.pop() {
        release(x)?;
    }
    Ok(())
}

fn raw(
    ctx: &mut Ctx,
    pre: &'static [u32],
    hists: Vec<Vec<R>>,
    bound: u32,
    fail: Option<(usize, u32)>,
) {
    let key = format!(
        "raw pool={:?} {} bound={}{}",
        pre,
        hists.iter().map(|h| show(h)).collect::<Vec<_>>().join(" | "),
        bound,
        fail.map(|(t, n)| format!(" fail=T{}#{}", t, n)).unwrap_or_default()
    );
    let k = key.clone();
    ctx.case(
        || key,
        |rec| {
            let make = || {
                let own = Own::new(false);
                let hs: Vec<_> = pre.iter().map(|n| own.d().new_handle(*n)).collect();
                for h in hs {
                    own.d().drop_handle(&h);
                }
                lk(&own.s).fail = fail;
                let out: Arc<Mutex<Vec<Result<(), String>>>> = Default::default();
                let bodies: Vec<Body> = hists
                    .iter()
                    .enumerate()
                    .map(|(t, h)| {
                        let (d, s, h, out) = (own.d(), own.s.clone(), h.clone(), out.clone());
                        Box::new(move || {
                            let r = raw_thread(d, &s, t, &h);
                            out.lock().unwrap().push(r);
                        }) as Body
                    })
                    .collect();
                let check = move |o: &sched::Outcome| {
                    for (t, p) in o.panics.iter().enumerate() {
                        if let Some(p) = p {
                            return Err(format!("T{} panicked: {}", t, p));
                        }
                    }
                    for r in out.lock().unwrap().iter() {
                        r.clone()?;
                    }
                    own.close()
                };
                (bodies, Box::new(check) as Box<dyn FnOnce(&sched::Outcome) -> _>)
            };
            finish(rec, &k, bound, make)
        },
    );
}

fn finish(
    rec: &mut Rec,
    key: &str,
    bound: u32,
    make: impl FnMut() -> (Vec<Body>, Box<dyn FnOnce(&sched::Outcome) -> Result<(), String>>),
) -> Result<(), String> {
    let cap = std::env::var("MC_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(2_000_000);
    let (st, r) = sched::explore(bound, cap, make, || rec.heartbeat());
    rec.trace(st.executions);
    rec.step(st.points);
    let kh = hash64(key);
    for s in &st.states {
        rec.state(s ^ kh);
    }
    rec.outcome(if st.capped { "capped" } else { "explored" });
    if std::env::var("MC_VERBOSE").is_ok() {
        eprintln!(
            "{}: {} executions, {} points, {} states{}",
            key,
            st.executions,
            st.points,
            st.states.len(),
            if st.capped { " CAPPED" } else { "" }
        );
    }
    r
}

// ---------------------------------------------------------------- programs

#[derive(Clone)]
struct Env {
    d: Dev,
    /// tensors all threads read
    shared: &'static [Ten],
    /// tensors on their way from one thread to another
    mail: Arc<SMutex<Vec<Ten>>>,
    tid: usize,
}

type Prog = fn(&Env) -> Vec<f32>;

fn own_values(e: &Env, n: usize) -> Vec<f32> {
    (0..n).map(|i| (i as f32 + 1.) * 0.25 - e.tid as f32).collect()
}

fn p_tensor(e: &Env) -> Vec<f32> {
    let x = e.d.new_tensor_by_slice(shape![4], &own_values(e, 4));
    let y = &x * &x;
    let z = y.exp();
    let mut r = z.to_vec();
    drop(y);
    let w = &z - &x;
    r.extend(w.to_vec());
    r
}

/// a size class of its own, then the same class as the others
fn p_sizes(e: &Env) -> Vec<f32> {
    let n = 100 + e.tid * 60;
    let x = e.d.new_tensor_by_slice(Shape::new(&[n as u32], 1), &own_values(e, n));
    let y = -&x;
    drop(x);
    let s = y.sum(0);
    let z = e.d.new_tensor_by_constant(shape![3], e.tid as f32 + 0.5);
    let mut r = s.to_vec();
    r.extend(z.to_vec());
    r
}

fn p_node(e: &Env) -> Vec<f32> {
    let x = Node::from(e.d.new_tensor_by_slice(shape![2], &own_values(e, 2)));
    let y = x.tanh();
    (&y * &x).to_vec()
}

fn p_backward(e: &Env) -> Vec<f32> {
    let mut p = e.d.new_parameter(shape![2], &initializers::Constant::new(0.5 + e.tid as f32));
    {
        let w = Node::from(&mut p);
        let y = &w * &w;
        y.backward();
    }
    p.gradient.to_vec()
}

fn p_train(e: &Env) -> Vec<f32> {
    let mut p = e.d.new_parameter(shape![2], &initializers::Constant::new(1. + e.tid as f32));
    let mut o = optimizers::SGD::new(0.5);
    o.configure_parameter(&mut p);
    p.gradient.reset(2.);
    o.update_parameters(&mut [&mut p]);
    let mut r = p.value.to_vec();
    r.extend(p.gradient.to_vec());
    r
}

fn p_adam(e: &Env) -> Vec<f32> {
    let mut p = e.d.new_parameter(shape![2], &initializers::Constant::new(1. + e.tid as f32));
    let mut o = optimizers::Adam::new(0.5, 0.9, 0.999, 1e-8);
    o.configure_parameter(&mut p);
    p.gradient.reset(2.);
    o.update_parameters(&mut [&mut p]);
    p.value.to_vec()
}

/// reads tensors that the other threads read too
fn p_shared(e: &Env) -> Vec<f32> {
    let y = &e.shared[0] + &e.shared[1];
    y.to_vec()
}

fn p_alias(e: &Env) -> Vec<f32> {
    let a = Tensor::from(&e.shared[0]);
    let y = a.exp();
    drop(a);
    let mut r = y.to_vec();
    r.extend(e.shared[0].to_vec());
    r
}

fn p_shared_node(e: &Env) -> Vec<f32> {
    let a = Node::from(&e.shared[0]);
    let b = Node::from(&e.shared[1]);
    (&a * &b).to_vec()
}

fn p_copy(e: &Env) -> Vec<f32> {
    let mut c = e.d.copy_tensor(&e.shared[0]);
    c += &e.shared[1];
    let mut r = c.to_vec();
    r.extend(e.shared[0].to_vec());
    r
}

fn p_load(e: &Env) -> Vec<f32> {
    let mut t = Tensor::new_host_tensor(shape![3], own_values(e, 3));
    t.move_to_device(e.d);
    let y = &t + 1.;
    y.to_vec()
}

fn p_replace(e: &Env) -> Vec<f32> {
    let mut y = e.d.new_tensor(shape![3]);
    y.replace(e.d.new_tensor_by_slice(shape![3], &own_values(e, 3)));
    let z = e.d.new_tensor_by_constant(shape![3], 9.);
    let mut r = y.to_vec();
    r.extend(z.to_vec());
    r
}

/// calls that the library rejects by panicking, then goes on
fn p_rejected(e: &Env) -> Vec<f32> {
    let a = e.d.new_tensor_by_constant(shape![2], 1.);
    let b = e.d.new_tensor_by_constant(shape![3], 1.);
    assert!(panics(|| &a + &b));
    assert!(panics(|| e.d.new_handle(0)));
    (&a + &a).to_vec()
}

fn p_rejected_node(e: &Env) -> Vec<f32> {
    let a = Node::from(e.d.new_tensor_by_constant(shape![2], 1.));
    assert!(panics(|| a.to_float()));
    (&a + 1.).to_vec()
}

fn p_argmax(e: &Env) -> Vec<f32> {
    let x = e.d.new_tensor_by_slice(shape![3], &own_values(e, 3));
    let y = -&x;
    y.argmax(0).into_iter().map(|v| v as f32).collect()
}

fn p_matmul(e: &Env) -> Vec<f32> {
    let x = e.d.new_tensor_by_slice(shape![2, 2], &own_values(e, 4));
    let y = x.matmul(&x);
    y.transpose().to_vec()
}

fn p_concat(e: &Env) -> Vec<f32> {
    let x = e.d.new_tensor_by_slice(shape![2], &own_values(e, 2));
    let y = Tensor::concat(&[&x, &e.shared[0]], 0);
    y.to_vec()
}

/// passes its values on to whoever drops them
fn p_send(e: &Env) -> Vec<f32> {
    let x = e.d.new_tensor_by_slice(shape![4], &own_values(e, 4));
    e.mail.lock().unwrap().push(x);
    let y = e.d.new_tensor_by_constant(shape![4], 7.);
    y.to_vec()
}

/// takes whatever there is, uses and drops it, and allocates
fn p_receive(e: &Env) -> Vec<f32> {
    let x = e.mail.lock().unwrap().pop();
    let mut r = vec![];
    if let Some(x) = x {
        let v = x.to_vec();
        drop(x);
        if v.len() != 4 || v[1] != v[0] + 0.25 || v[3] != v[0] + 0.75 {
            panic!("the tensor that came over reads {:?}", v);
        }
    }
    let y = e.d.new_tensor_by_constant(shape![4], 8.);
    r.extend(y.to_vec());
    r
}

fn p_random(e: &Env) -> Vec<f32> {
    let x = e.d.random_uniform(shape![2], 1., 2.);
    let v = x.to_vec();
    assert!(v.iter().all(|y| *y >= 1. && *y <= 2.), "uniform fill left {:?}", v);
    let x = e.d.random_bernoulli(shape![2], 1.);
    let mut v = x.to_vec();
    let y = e.d.new_parameter(shape![2, 2], &initializers::Uniform::new(3., 4.));
    let w = y.value.to_vec();
    assert!(w.iter().all(|y| *y >= 3. && *y <= 4.), "uniform fill left {:?}", w);
    v.push(0.);
    v
}

fn p_bad_random(e: &Env) -> Vec<f32> {
    assert!(panics(|| e.d.random_uniform(shape![2], 2., 1.)));
    assert!(panics(|| e.d.random_bernoulli(shape![2], 2.)));
    vec![]
}

fn p_normal(e: &Env) -> Vec<f32> {
    let x = e.d.random_normal(shape![2], 5., 0.);
    x.to_vec()
}

const PROGS: &[(&str, Prog)] = &[
    ("tensor", p_tensor),
    ("sizes", p_sizes),
    ("node", p_node),
    ("backward", p_backward),
    ("train", p_train),
    ("adam", p_adam),
    ("shared", p_shared),
    ("alias", p_alias),
    ("sharednode", p_shared_node),
    ("copy", p_copy),
    ("load", p_load),
    ("replace", p_replace),
    ("rejected", p_rejected),
    ("rejectednode", p_rejected_node),
    ("argmax", p_argmax),
    ("matmul", p_matmul),
    ("concat", p_concat),
    ("send", p_send),
    ("receive", p_receive),
    ("random", p_random),
    ("badrandom", p_bad_random),
    ("normal", p_normal),
];

/// Every operation, eagerly and as a graph.
macro_rules! operations {
    ($a:ident $b:ident $($name:literal => $e:expr;)*) => {
        const OPS: &[(&str, fn(&Ten, &Ten) -> Vec<Ten>, for<'x> fn(&Node<'x, 'static>, &Node<'x, 'static>) -> Vec<Node<'x, 'static>>)] =
            &[$(($name, |$a, $b| { let _ = $b; $e }, |$a, $b| { let _ = $b; $e }),)*];
    };
}
operations! { a b
    "add" => vec![a + b];
    "sub" => vec![a - b];
    "mul" => vec![a * b];
    "div" => vec![a / b];
    "pow" => vec![a.abs().pow(b)];
    "addc" => vec![a + 1.5, 1.5 + a];
    "subc" => vec![a - 1.5, 1.5 - a];
    "mulc" => vec![a * 1.5];
    "divc" => vec![a / 1.5, 1.5 / a];
    "adds" => vec![a + b.flatten().sum(0)];
    "subs" => vec![a - b.flatten().sum(0), b.flatten().sum(0) - a];
    "muls" => vec![a * b.flatten().sum(0)];
    "divs" => vec![a / b.flatten().sum(0), b.flatten().sum(0) / a];
    "pows" => vec![a.abs().pow(b.abs().flatten().sum(0)), b.abs().flatten().sum(0).pow(a)];
    "powf" => vec![a.abs().powf(1.5)];
    "powi" => vec![a.powi(3)];
    "neg" => vec![-a];
    "sqrt" => vec![a.abs().sqrt()];
    "trig" => vec![a.sin(), a.cos(), a.tan()];
    "exp" => vec![a.exp(), a.abs().ln()];
    "tanh" => vec![a.tanh(), a.sigmoid(), a.softplus()];
    "ramp" => vec![a.relu(), a.lrelu(), a.prelu(0.3), a.elu(0.7)];
    "sum" => vec![a.sum(0), a.sum(1), a.batch_sum()];
    "max" => vec![a.max(0), a.max(1)];
    "min" => vec![a.min(0), a.min(1)];
    "broadcast" => vec![a.broadcast(2, 2)];
    "logsumexp" => vec![a.logsumexp(0), a.logsumexp(1)];
    "softmax" => vec![a.softmax(0), a.ln_softmax(1)];
    "sce" => vec![a.softmax_cross_entropy(b, 0), a.sparse_softmax_cross_entropy(&[1], 0)];
    "matmul" => vec![a.matmul(b)];
    "transpose" => vec![a.transpose()];
    "triangular" => vec![a.triangular_l(1), a.triangular_u(1)];
    "slice" => vec![a.slice(0, 1, 2), a.slice(1, 0, 1)];
    "split" => { let mut v = a.split(0, 2); v.extend(a.split(1, 2)); v };
    "pick" => vec![a.pick(&[1, 0], 0), a.pick(&[1], 1)];
    "concat" => vec![Borrowed::join(&[a, b, a], 0)];
    "concat2" => vec![Borrowed::join(&[b, a], 1)];
    "reshape" => vec![a.flatten()];
    "batch" => { let c = Borrowed::stack(&[a, b]); vec![c.batch_slice(1, 2), c.batch_pick(&[1, 1, 0]), c] };
    "batchsplit" => { let c = Borrowed::stack(&[a, b]); let mut v = c.batch_split(2); v.push(c.batch_sum()); v };
}

trait Borrowed: Sized {
    fn join(xs: &[&Self], dim: u32) -> Self;
    fn stack(xs: &[&Self]) -> Self;
}
impl<T: BasicFunctions> Borrowed for T {
    fn join(xs: &[&Self], dim: u32) -> Self {
        T::concat(xs, dim)
    }
    fn stack(xs: &[&Self]) -> Self {
        T::batch_concat(xs)
    }
}

/// Two square matrices of this thread's own.
fn two(e: &Env, n: u32) -> (Ten, Ten) {
    let v: Vec<f32> = (0..n * n).map(|i| (i % 23) as f32 * 0.25 - 0.6 + e.tid as f32 * 0.125).collect();
    let w: Vec<f32> = (0..n * n).map(|i| 1.7 - (i % 19) as f32 * 0.5 - e.tid as f32 * 0.0625).collect();
    let s = Shape::new(&[n, n], 1);
    (e.d.new_tensor_by_slice(s, &v), e.d.new_tensor_by_slice(s, &w))
}

fn eager(e: &Env, op: usize, n: u32) -> Vec<f32> {
    let (a, b) = two(e, n);
    let mut r: Vec<f32> = OPS[op].1(&a, &b).iter().flat_map(|t| t.to_vec()).collect();
    if OPS[op].0 == "max" || OPS[op].0 == "min" {
        r.extend(a.argmax(0).iter().chain(&a.argmin(1)).chain(&a.argsort(0)).map(|x| *x as f32));
    }
    r
}

fn graph(e: &Env, op: usize) -> Vec<f32> {
    let (a, b) = two(e, 2);
    let zero = || e.d.new_tensor_by_constant(shape![2, 2], 0.);
    let mut p = prima_undine::Parameter::new(a, zero());
    let mut q = prima_undine::Parameter::new(b, zero());
    let mut r = vec![];
    {
        let (x, y) = (Node::from(&mut p), Node::from(&mut q));
        for n in OPS[op].2(&x, &y) {
            r.extend(n.to_vec());
            n.backward();
        }
    }
    r.extend(p.gradient.to_vec());
    r.extend(q.gradient.to_vec());
    r
}

fn prog(n: &str) -> Arc<dyn Fn(&Env) -> Vec<f32> + Send + Sync> {
    let op = |m: &str| OPS.iter().position(|o| o.0 == m).unwrap();
    match n.split_once(':') {
        None => Arc::new(PROGS.iter().find(|(m, _)| *m == n).unwrap().1),
        Some(("op", m)) => {
            let k = op(m);
            Arc::new(move |e| eager(e, k, 2))
        }
        Some(("large", m)) => {
            let k = op(m);
            Arc::new(move |e| eager(e, k, 40))
        }
        Some((_, m)) => {
            let k = op(m);
            Arc::new(move |e| graph(e, k))
        }
    }
}

struct World {
    own: Own,
    shared: *mut Vec<Ten>,
    mail: Arc<SMutex<Vec<Ten>>>,
}

impl World {
    fn new(pre: usize) -> World {
        let own = Own::new(true);
        let d = own.d();
        let keep: Vec<Ten> = (0..pre).map(|_| d.new_tensor_by_constant(shape![4], f32::NAN)).collect();
        drop(keep);
        let shared = vec![
            d.new_tensor_by_slice(shape![2], &[0.5, -1.]),
            d.new_tensor_by_slice(shape![2], &[2., 3.]),
        ];
        World { own, shared: Box::into_raw(Box::new(shared)), mail: Default::default() }
    }
    fn env(&self, tid: usize) -> Env {
        let shared: &'static Vec<Ten> = unsafe { &*self.shared };
        Env { d: self.own.d(), shared, mail: self.mail.clone(), tid }
    }
    fn close(self) -> Result<(), String> {
        self.mail.lock().unwrap_or_else(|e| e.into_inner()).clear();
        let sh = unsafe { Box::from_raw(self.shared) };
        if sh[0].to_vec() != [0.5, -1.] || sh[1].to_vec() != [2., 3.] {
            return Err("a tensor that all threads only read has changed".into());
        }
        drop(sh);
        // the device still works
        let a = self.own.d().new_tensor_by_constant(shape![4], 3.);
        let b = self.own.d().new_tensor_by_constant(shape![4], 4.);
        if (&a + &b).to_vec() != [7.; 4] || a.to_vec() != [3.; 4] {
            return Err("afterwards the device computes wrong values".into());
        }
        drop((a, b));
        self.own.close()
    }
}

/// The threads' results must be those of each thread running alone.
fn programs(ctx: &mut Ctx, names: &[&str], pre: usize, bound: u32, fail: Option<(usize, u32)>) {
    let key = format!(
        "prog {} pool={} bound={}{}",
        names.join(" | "),
        pre,
        bound,
        fail.map(|(t, n)| format!(" fail=T{}#{}", t, n)).unwrap_or_default()
    );
    let k = key.clone();
    ctx.case(
        || key,
        |rec| {
            let mut alone = vec![];
            for (t, n) in names.iter().enumerate() {
                let w = World::new(pre);
                let e = w.env(t);
                alone.push(quiet(|| prog(n)(&e)).map_err(|m| format!("{} alone: {}", n, m))?);
                drop(e);
                w.close().map_err(|m| format!("{} alone: {}", n, m))?;
            }
            let make = || {
                let w = World::new(pre);
                lk(&w.own.s).fail = fail;
                let out: Out = Arc::new(Mutex::new(vec![None; names.len()]));
                let bodies: Vec<Body> = names
                    .iter()
                    .enumerate()
                    .map(|(t, n)| {
                        let (e, out, f) = (w.env(t), out.clone(), prog(n));
                        Box::new(move || {
                            let r = quiet(|| f(&e));
                            out.lock().unwrap()[e.tid] = Some(r);
                        }) as Body
                    })
                    .collect();
                let alone = alone.clone();
                let check = move |o: &sched::Outcome| {
                    for (t, p) in o.panics.iter().enumerate() {
                        if let Some(p) = p {
                            return Err(format!("T{} panicked: {}", t, p));
                        }
                    }
                    for (t, r) in out.lock().unwrap().drain(..).enumerate() {
                        match r {
                            None => return Err(format!("T{} did not finish", t)),
                            Some(Err(m)) => {
                                if fail.map(|f| f.0) == Some(t) && m.contains("injected") {
                                    continue;
                                }
                                return Err(format!("T{} panicked: {}", t, m));
                            }
                            Some(Ok(v)) => {
                                let same = v.len() == alone[t].len()
                                    && v.iter().zip(&alone[t]).all(|(a, b)| a.to_bits() == b.to_bits());
                                if !same {
                                    return Err(format!(
                                        "T{} read {:?}, running alone it reads {:?}",
                                        t, v, alone[t]
                                    ));
                                }
                            }
                        }
                    }
                    w.close()
                };
                (bodies, Box::new(check) as Box<dyn FnOnce(&sched::Outcome) -> _>)
            };
            finish(rec, &k, bound, make)
        },
    );
}

/// Threads of one worker take turns anyway: on one processor that is quickest.
fn one_cpu(shard: u64) {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        let len = std::mem::size_of::<libc::cpu_set_t>();
        if libc::sched_getaffinity(0, len, &mut set) != 0 {
            return;
        }
        let cpus: Vec<usize> = (0..1024).filter(|c| libc::CPU_ISSET(*c, &set)).collect();
        if cpus.is_empty() {
            return;
        }
        let mut one: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(cpus[shard as usize % cpus.len()], &mut one);
        libc::sched_setaffinity(0, len, &one);
    }
}

fn body(ctx: &mut Ctx) {
    one_cpu(ctx.shard().0);
    let thorough = ctx.thorough();
    // two threads: every pair of histories, every schedule up to the bound
    let hs = histories(ctx.pick(3, 4), &[10, 100]);
    let pools: &[&'static [u32]] = &[&[], &[64], &[64, 64], &[64, 128]];
    for (i, a) in hs.iter().enumerate() {
        for b in &hs[i..] {
            if a.len() + b.len() > ctx.pick(5, 7) {
                continue;
            }
            for pool in pools {
                raw(ctx, pool, vec![a.clone(), b.clone()], 3, None);
            }
        }
    }
    // short histories, every schedule whatsoever
    let short = histories(2, &[10]);
    for (i, a) in short.iter().enumerate() {
        for b in &short[i..] {
            let requests = a.iter().chain(b).filter(|r| matches!(r, R::N(_))).count();
            if requests > ctx.pick(3, 4) {
                continue;
            }
            for pool in pools {
                raw(ctx, pool, vec![a.clone(), b.clone()], 1000, None);
            }
        }
    }
    // three threads
    let h3 = histories(ctx.pick(2, 3), &[10]);
    for (i, a) in h3.iter().enumerate() {
        for (j, b) in h3[i..].iter().enumerate() {
            for c in &h3[i + j..] {
                for pool in &pools[..3] {
                    raw(ctx, pool, vec![a.clone(), b.clone(), c.clone()], ctx.pick(1, 2), None);
                }
            }
        }
    }
    // a backend allocation fails in one thread
    for a in &histories(3, &[10]) {
        for b in &histories(2, &[10, 100]) {
            let n = a.iter().filter(|r| matches!(r, R::N(_))).count() as u32;
            for k in 1..=n {
                for pool in &pools[..2] {
                    raw(ctx, pool, vec![a.clone(), b.clone()], 2, Some((0, k)));
                }
            }
        }
    }
    // programs in pairs
    for (i, (a, _)) in PROGS.iter().enumerate() {
        for (b, _) in &PROGS[i..] {
            for pre in [0, 2] {
                programs(ctx, &[a, b], pre, ctx.pick(2, 3), None);
            }
        }
    }
    // every operation in two threads at once
    for (o, _, _) in OPS {
        for (kind, bound) in ctx.pick([("op", 1), ("large", 1), ("graph", 1)], [("op", 2), ("large", 1), ("graph", 1)]) {
            let n = format!("{}:{}", kind, o);
            for other in [n.as_str(), "tensor"] {
                programs(ctx, &[&n, other], 0, bound, None);
            }
        }
    }
    let tight: &[&[&str]] = &[
        &["tensor", "tensor"], &["send", "receive"], &["node", "node"], &["load", "replace"],
        &["random", "badrandom"], &["shared", "alias"], &["shared", "shared"], &["sizes", "sizes"],
        &["normal", "badrandom"], &["argmax", "concat"], &["rejected", "tensor"],
    ];
    for t in tight {
        for pre in [0, 1, 3] {
            programs(ctx, t, pre, if thorough && !t.contains(&"node") { 4 } else { 3 }, None);
        }
    }
    let triples: &[&[&str]] = &[
        &["send", "receive", "receive"], &["send", "send", "receive"], &["tensor", "send", "receive"],
        &["normal", "badrandom", "random"], &["shared", "alias", "sharednode"],
        &["copy", "copy", "alias"], &["load", "replace", "argmax"], &["node", "tensor", "shared"],
    ];
    for t in triples {
        for pre in [0, 2] {
            programs(ctx, t, pre, if thorough && !t.contains(&"node") { 3 } else { 2 }, None);
        }
    }
    for (a, b) in [("tensor", "tensor"), ("node", "tensor"), ("backward", "node"), ("load", "copy"), ("alias", "send")] {
        for pre in [0, 1] {
            for k in 1..=3 {
                programs(ctx, &[a, b], pre, ctx.pick(2, 3), Some((0, k)));
            }
        }
    }
}

fn main() {
    run(
        Spec {
            id: "C03",
            level: "model_checking",
            rule: "stateless exploration of the library itself: its locks and atomics, the backend's \
                   allocations and every kernel call stop at a scheduler that runs one thread at a time; \
                   depth-first over all choices up to a bound on preemptions (forced switches are free), \
                   leaving out preemptions in front of accesses no other thread conflicts with",
            assumptions: &[
                "sequentially consistent interleavings; for buffers also happens-before along locks and atomics",
                "kernels run without interruption (unordered accesses to one buffer are reported instead)",
                "at most 3 threads; preemption bounds as named in each case",
            ],
        },
        body,
    );
}

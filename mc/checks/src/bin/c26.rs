//! C26: what a custom backend is asked to do.
use mc_core::backend::*;
use mc_core::*;
use prima_undine::device_impl::*;
use prima_undine::functions::BasicFunctions;
use prima_undine::{Device, Node, Tensor};
use std::collections::{BTreeSet, HashMap};
use std::ffi::c_void;
use std::sync::atomic::{AtomicPtr, Ordering};
use std::sync::{Arc, Mutex};

/// A backend without memory: handles are numbers, kernels only record what they are given.
#[derive(Default)]
struct Fk {
    next: usize,
    live: HashMap<usize, u32>,
    calls: Vec<Call>,
    seq: u64,
}
type F = Arc<Mutex<Fk>>;

#[derive(Clone, Debug, PartialEq)]
struct Call {
    tag: u32,
    ns: &'static str,
    name: String,
    xs: Vec<(usize, Sh)>,
    ys: Vec<(usize, Sh)>,
    gys: Vec<(usize, Sh)>,
    u: Vec<u32>,
    f: Vec<u32>,
    out: Vec<(usize, Sh)>,
    len: usize,
}

struct FDev(F);
impl DeviceImpl for FDev {
    fn identifier(&self) -> String {
        "Recorder".into()
    }
    fn new_handle(&self, size: u32) -> AtomicPtr<c_void> {
        let mut f = self.0.lock().unwrap();
        f.next += 16;
        let a = f.next;
        f.live.insert(a, size);
        AtomicPtr::new(a as *mut c_void)
    }
    fn drop_handle(&self, handle: &AtomicPtr<c_void>) {
        let a = handle.load(Ordering::SeqCst) as usize;
        self.0.lock().unwrap().live.remove(&a);
    }
}

struct K {
    f: F,
    tag: u32,
    ns: &'static str,
    name: String,
}
fn seen(t: &Tensor) -> (usize, Sh) {
    let t: &'static Ten = unsafe { &*(t as *const _ as *const Ten) };
    (t.handle().load(Ordering::SeqCst) as usize, Sh::of(t.shape()))
}
fn all(x: &[&Tensor]) -> Vec<(usize, Sh)> {
    x.iter().map(|t| seen(t)).collect()
}
impl K {
    fn rec(&self) -> Call {
        Call {
            tag: self.tag,
            ns: self.ns,
            name: self.name.clone(),
            xs: vec![],
            ys: vec![],
            gys: vec![],
            u: vec![],
            f: vec![],
            out: vec![],
            len: 0,
        }
    }
    fn push(&self, c: Call) -> u64 {
        let mut g = self.f.lock().unwrap();
        g.calls.push(c);
        g.seq += 1;
        g.seq
    }
}
fn bits(f: &[f32]) -> Vec<u32> {
    f.iter().map(|x| x.to_bits()).collect()
}
impl FunctionFwImpl for K {
    fn call(&self, xs: &[&Tensor], u: &[u32], f: &[f32], y: &mut [&mut Tensor]) {
        let out = y.iter().map(|t| seen(t)).collect();
        self.push(Call { xs: all(xs), u: u.to_vec(), f: bits(f), out, ..self.rec() });
    }
}
impl FunctionFwU32Impl for K {
    fn call(&self, xs: &[&Tensor], u: &[u32], f: &[f32], y: &mut [u32]) {
        let s = self.push(Call { xs: all(xs), u: u.to_vec(), f: bits(f), len: y.len(), ..self.rec() });
        for (i, v) in y.iter_mut().enumerate() {
            *v = s as u32 * 1000 + i as u32;
        }
    }
}
impl FunctionFwF32Impl for K {
    fn call(&self, xs: &[&Tensor], u: &[u32], f: &[f32], y: &mut [f32]) {
        let s = self.push(Call { xs: all(xs), u: u.to_vec(), f: bits(f), len: y.len(), ..self.rec() });
        for (i, v) in y.iter_mut().enumerate() {
            *v = s as f32 * 1000. + i as f32;
        }
    }
}
impl FunctionBwImpl for K {
    fn call(&self, xs: &[&Tensor], ys: &[&Tensor], gys: &[&Tensor], u: &[u32], f: &[f32], gx: &mut Tensor) {
        self.push(Call {
            xs: all(xs),
            ys: all(ys),
            gys: all(gys),
            u: u.to_vec(),
            f: bits(f),
            out: vec![seen(gx)],
            ..self.rec()
        });
    }
}

fn register(d: &mut Device<'static>, f: &F, tag: u32, ns: &'static str, name: &str) {
    let k = K { f: Arc::clone(f), tag, ns, name: name.to_string() };
    match ns {
        "fw" => d.register_fw_impl(name, k),
        "u32" => d.register_fw_u32_impl(name, k),
        "f32" => d.register_fw_f32_impl(name, k),
        _ => d.register_bw_impl(name, k),
    }
}

fn every_name() -> Vec<&'static str> {
    let mut v: Vec<&'static str> = vec![];
    v.extend(FW);
    v.extend(FW_U32);
    v.extend(FW_F32);
    v.extend(BW);
    v
}
const NS: [&str; 4] = ["fw", "u32", "f32", "bw"];

/// A recorder device on which every kernel name is registered twice in every namespace.
fn recorder(f: &F) -> Device<'static> {
    let mut d = Device::new(FDev(Arc::clone(f)));
    for tag in [1, 2] {
        for ns in NS {
            for n in every_name() {
                register(&mut d, f, tag, ns, n);
            }
        }
    }
    d
}

fn raw(d: Dev, s: Sh) -> Ten {
    let mut t = d.new_tensor(s.shape());
    t.alloc();
    t
}

fn at(t: &Ten) -> (usize, Sh) {
    (t.handle().load(Ordering::SeqCst) as usize, Sh::of(t.shape()))
}

fn one_call(f: &F) -> Result<Call, String> {
    let g = f.lock().unwrap();
    if g.calls.len() != 1 {
        return Err(format!(
            "{} kernels called instead of one: {:?}",
            g.calls.len(),
            g.calls.iter().map(|c| &c.name).collect::<Vec<_>>()
        ));
    }
    Ok(g.calls[0].clone())
}

fn dispatch(df: &DevFn) -> Result<(), String> {
    let f: F = Default::default();
    let dv = Dv::from(recorder(&f));
    let d = dv.d();
    let xs: Vec<Ten> = df.operands.iter().map(|s| raw(d, *s)).collect();
    let mut dest = df.dest.map(|s| raw(d, s));
    let ax: Vec<(usize, Sh)> = xs.iter().map(at).collect();
    let ad = dest.as_ref().map(at);
    // a free buffer of each class, so that a result may be recycled storage
    for _ in 0..2 {
        f.lock().unwrap().calls.clear();
        let xr: Vec<&Ten> = xs.iter().collect();
        let out = (df.call)(d, &xr, dest.as_mut().map(|t| forever_mut(t)));
        let c = one_call(&f)?;
        if c.ns != df.ns || c.name != df.kernel {
            return Err(format!("called {} {} instead of {} {}", c.ns, c.name, df.ns, df.kernel));
        }
        if c.tag != 2 {
            return Err("called a kernel that had been replaced".into());
        }
        let exp: Vec<(usize, Sh)> = df.order.iter().map(|&i| ax[i]).collect();
        let mut got = c.xs.clone();
        got.extend(c.ys.iter().cloned());
        got.extend(c.gys.iter().cloned());
        if got != exp {
            return Err(format!("operands {:?} instead of {:?}", got, exp));
        }
        if c.u != df.u32s {
            return Err(format!("integer arguments {:?} instead of {:?}", c.u, df.u32s));
        }
        if c.f != bits(&df.f32s) {
            return Err(format!("real arguments {:x?} instead of {:x?}", c.f, bits(&df.f32s)));
        }
        let seq = f.lock().unwrap().seq;
        match out {
            Out::T(t) => {
                let e = df.result.unwrap();
                let a = at(&t);
                if a.1 != e || c.out != vec![a] {
                    return Err(format!("result {:?}, kernel got {:?}, expected shape {}", a, c.out, e.show()));
                }
                if ax.iter().chain(ad.iter()).any(|x| x.0 == a.0) {
                    return Err("result shares storage with an operand".into());
                }
                if !t.valid() || t.device() != d {
                    return Err("result has no storage on the device".into());
                }
            }
            Out::U(v) => {
                let e: Vec<u32> = (0..v.len()).map(|i| seq as u32 * 1000 + i as u32).collect();
                if v != e || c.len != v.len() {
                    return Err(format!("returned {:?} instead of what the kernel gave", v));
                }
            }
            Out::F(v) => {
                let e: Vec<f32> = (0..v.len()).map(|i| seq as f32 * 1000. + i as f32).collect();
                if v != e || c.len != v.len() || v.len() != df.operands[0].size() {
                    return Err(format!("returned {:?} instead of what the kernel gave", v));
                }
            }
            Out::Unit => {
                if c.out != vec![ad.unwrap()] {
                    return Err(format!("kernel got {:?} as destination instead of {:?}", c.out, ad));
                }
            }
        }
    }
    Ok(())
}

/// The kernel of an operation that is not a composition, with operand order and arguments.
fn kernel_of(op: &Op, s: &[Sh]) -> Option<(&'static str, Vec<usize>, Vec<u32>, Vec<f32>)> {
    use Op::*;
    let sc = |e, l, r| {
        if s[0].scalar() {
            (l, vec![1, 0])
        } else if s[1].scalar() {
            (r, vec![0, 1])
        } else {
            (e, vec![0, 1])
        }
    };
    let two = |(n, o): (&'static str, Vec<usize>)| Some((n, o, vec![], vec![]));
    let one = |n: &'static str| Some((n, vec![0], vec![], vec![]));
    let k = |n: &'static str, k: f32| Some((n, vec![0], vec![], vec![k]));
    let u = |n: &'static str, u: Vec<u32>| Some((n, vec![0], u, vec![]));
    match op {
        Neg => one("neg_fw_impl"),
        Abs => one("abs_fw_impl"),
        Sqrt => one("sqrt_fw_impl"),
        Sin => one("sin_fw_impl"),
        Cos => one("cos_fw_impl"),
        Tan => one("tan_fw_impl"),
        Exp => one("exp_fw_impl"),
        Ln => one("ln_fw_impl"),
        Tanh => one("tanh_fw_impl"),
        Sigmoid => one("sigmoid_fw_impl"),
        Softplus => one("softplus_fw_impl"),
        Prelu(a) => k("prelu_fw_impl", *a),
        Elu(a) => k("elu_fw_impl", *a),
        Powf(a) => k("powf_const_r_fw_impl", *a),
        Powi(a) => u("powi_fw_impl", vec![*a as u32]),
        AddR(a) | AddL(a) => k("add_const_fw_impl", *a),
        SubR(a) => k("sub_const_r_fw_impl", *a),
        SubL(a) => k("sub_const_l_fw_impl", *a),
        MulR(a) | MulL(a) => k("mul_const_fw_impl", *a),
        DivR(a) => k("div_const_r_fw_impl", *a),
        DivL(a) => k("div_const_l_fw_impl", *a),
        Add => two(sc("add_fw_impl", "add_scalar_fw_impl", "add_scalar_fw_impl")),
        Sub => two(sc("sub_fw_impl", "sub_scalar_l_fw_impl", "sub_scalar_r_fw_impl")),
        Mul => two(sc("mul_fw_impl", "mul_scalar_fw_impl", "mul_scalar_fw_impl")),
        Div => two(sc("div_fw_impl", "div_scalar_l_fw_impl", "div_scalar_r_fw_impl")),
        Pow => two(sc("powf_fw_impl", "powf_scalar_l_fw_impl", "powf_scalar_r_fw_impl")),
        Sum(d) => u("sum_fw_impl", vec![*d]),
        Max(d) => u("max_fw_impl", vec![*d]),
        Min(d) => u("min_fw_impl", vec![*d]),
        Lse(d) => u("logsumexp_fw_impl", vec![*d]),
        Bcast(d, n) => u("broadcast_fw_impl", vec![*d, *n]),
        Matmul => two(("matmul_fw_impl", vec![0, 1])),
        Transpose => one("transpose_fw_impl"),
        TriL(n) => u("triangular_l_fw_impl", vec![*n]),
        TriU(n) => u("triangular_u_fw_impl", vec![*n]),
        Slice(d, l, _) => u("slice_fw_impl", vec![*d, *l]),
        Pick(ids, d) => {
            let mut v = vec![*d];
            v.extend(ids);
            u("pick_fw_impl", v)
        }
        Concat(d) => Some(("concat_fw_impl", (0..s.len()).collect(), vec![*d], vec![])),
        BSum => one("batch_sum_fw_impl"),
        BSlice(l, h) => u("batch_slice_fw_impl", vec![*l, *h]),
        BPick(ids) => u("batch_pick_fw_impl", ids.clone()),
        BConcat => Some(("batch_concat_fw_impl", (0..s.len()).collect(), vec![], vec![])),
        _ => None,
    }
}

fn op_dispatch(op: &Op, shapes: &[Sh], k: &(&'static str, Vec<usize>, Vec<u32>, Vec<f32>)) -> Result<(), String> {
    let f: F = Default::default();
    let dv = Dv::from(recorder(&f));
    let d = dv.d();
    let xs: Vec<Ten> = shapes.iter().map(|s| raw(d, *s)).collect();
    let mut ax: Vec<(usize, Sh)> = xs.iter().map(at).collect();
    let exp = match op.judge(shapes) {
        Verdict::Accept(v) => v,
        _ => return Err("harness: rejected operands".into()),
    };
    for form in ["eager", "graph"] {
        f.lock().unwrap().calls.clear();
        let got: (usize, Sh) = if form == "eager" {
            let xr: Vec<&Ten> = xs.iter().collect();
            let y = op.eager(&xr).remove(0);
            at(&y)
        } else {
            let ns: Vec<Nd> = xs.iter().map(|x| Node::from(forever(x))).collect();
            let nr: Vec<&Nd> = ns.iter().collect();
            let y = op.node(&nr).remove(0);
            if !f.lock().unwrap().calls.is_empty() {
                return Err("building a graph called a kernel".into());
            }
            for n in &ns {
                n.forward();
            }
            ax = ns.iter().map(|n| at(&forever(n).inner_value())).collect();
            f.lock().unwrap().calls.clear();
            y.forward();
            let a = at(&forever(&y).inner_value());
            a
        };
        let c = one_call(&f).map_err(|e| format!("{}: {}", form, e))?;
        let want: Vec<(usize, Sh)> = k.1.iter().map(|&i| ax[i]).collect();
        if c.ns != "fw" || c.name != k.0 || c.tag != 2 {
            return Err(format!("{}: called {} {} (registration {}) instead of {}", form, c.ns, c.name, c.tag, k.0));
        }
        if c.xs != want || c.u != k.2 || c.f != bits(&k.3) {
            return Err(format!(
                "{}: called with {:?} {:?} {:x?} instead of {:?} {:?} {:x?}",
                form,
                c.xs,
                c.u,
                c.f,
                want,
                k.2,
                bits(&k.3)
            ));
        }
        if c.out != vec![got] || got.1 != exp[0] || ax.iter().any(|a| a.0 == got.0) {
            return Err(format!("{}: result {:?}, kernel got {:?}, expected shape {}", form, got, c.out, exp[0].show()));
        }
    }
    Ok(())
}

/// Histories of registrations: (namespace, name) pairs; afterwards every pair is called.
fn registrations(h: &[usize], names: &[&str]) -> Result<(), String> {
    let f: F = Default::default();
    let mut dv = Dv::from(Device::new(FDev(Arc::clone(&f))));
    let mut model: HashMap<usize, u32> = HashMap::new();
    let n = names.len();
    for (i, &c) in h.iter().enumerate() {
        register(dv.mutate(), &f, 10 + i as u32, NS[c / n], names[c % n]);
        model.insert(c, 10 + i as u32);
    }
    let d = dv.d();
    let x = raw(d, Sh::new(&[2], 1));
    let mut y = raw(d, Sh::new(&[2], 1));
    for c in 0..4 * n {
        f.lock().unwrap().calls.clear();
        let name = names[c % n];
        let r = quiet(|| match NS[c / n] {
            "fw" => d.call_fw_impl(name, &[&x], &[7], &[0.5], &mut [&mut y]),
            "u32" => d.call_fw_u32_impl(name, &[&x], &[7], &[0.5], &mut [0; 3]),
            "f32" => d.call_fw_f32_impl(name, &[&x], &[7], &[0.5], &mut [0.; 3]),
            _ => d.call_bw_impl(name, &[&x], &[&x], &[&x], &[7], &[0.5], &mut y),
        });
        let calls = f.lock().unwrap().calls.clone();
        match model.get(&c) {
            None => {
                if r.is_ok() || !calls.is_empty() {
                    return Err(format!("{} {} is not registered but the call succeeded", NS[c / n], name));
                }
            }
            Some(t) => {
                if r.is_err() || calls.len() != 1 || calls[0].tag != *t || calls[0].name != name || calls[0].ns != NS[c / n] {
                    return Err(format!("{} {}: called {:?}, last registered {}", NS[c / n], name, calls, t));
                }
            }
        }
    }
    Ok(())
}

/// A function whose kernel is missing.
fn missing(df: &DevFn, kern: Dev) -> Result<(), String> {
    let s = st();
    let dv = Dv::from(tracked_without(&s, kern, |ns, n| ns == df.ns && n == df.kernel));
    let d = dv.d();
    // values are put in place through the kernels of the bundled device
    let put = |t: &mut Ten, r: &R| kern.call_fw_impl("reset_tensor_by_slice_impl", &[], &[], &r.f32s(), &mut [t]);
    let get = |t: &Ten| {
        let mut v = vec![0.; Sh::of(t.shape()).size()];
        kern.call_fw_f32_impl("tensor_to_vector_impl", &[t], &[], &[], &mut v);
        bits(&v)
    };
    {
        let mut xs = vec![];
        let mut before = vec![];
        for (i, sh) in df.operands.iter().chain(df.dest.iter()).enumerate() {
            let mut t = raw(d, *sh);
            let r = spread(*sh, 0.3, 2., i as u64);
            put(&mut t, &r);
            before.push(bits(&r.f32s()));
            xs.push(t);
        }
        let mut dest = if df.dest.is_some() { xs.pop() } else { None };
        let mut first = 0;
        for round in 0..3 {
            let xr: Vec<&Ten> = xs.iter().map(|x| forever(x)).collect();
            let g = dest.as_mut().map(|t| forever_mut(t));
            if quiet(|| drop((df.call)(d, &xr, g))).is_ok() {
                return Err("succeeded without its kernel".into());
            }
            if round == 0 {
                first = lk(&s).allocs;
            }
            if lk(&s).allocs != first {
                return Err("each rejected call takes another buffer".into());
            }
        }
        for (i, t) in xs.iter().chain(dest.iter()).enumerate() {
            if get(t) != before[i] {
                return Err(format!("operand {} changed", i));
            }
        }
    }
    probe(d, &s)
}

/// An operation on a device that lacks one of the kernels its evaluation or backward pass calls.
fn op_missing(op: &Op, shapes: &[Sh], kern: Dev, rec: &mut Rec) -> Result<(), String> {
    let names = |back: bool| -> BTreeSet<(&'static str, String)> {
        let s = st();
        let dv = Dv::from(tracked(&s, kern));
        let d = dv.d();
        let xs: Vec<Ten> = shapes.iter().enumerate().map(|(i, q)| ten(d, &spread(*q, 0.3, 2., i as u64))).collect();
        let ns: Vec<Nd> = xs.iter().map(|x| Node::from(forever(x))).collect();
        let nr: Vec<&Nd> = ns.iter().collect();
        let ys = op.node(&nr);
        if back {
            ys[0].forward();
        }
        lk(&s).logging = true;
        if back {
            ys[0].backward();
        } else {
            ys[0].forward();
        }
        let g = lk(&s);
        g.log
            .iter()
            .filter_map(|e| match e {
                Ev::Call(ns, n, ..) => Some((*ns, n.clone())),
                _ => None,
            })
            .collect()
    };
    for back in [false, true] {
        for (ns, name) in names(back) {
            rec.step(1);
            let s = st();
            let dv = Dv::from(tracked_without(&s, kern, |a, b| a == ns && b == name));
            let d = dv.d();
            {
                let mut xs = vec![];
                let mut vals = vec![];
                for (i, sh) in shapes.iter().enumerate() {
                    let mut t = raw(d, *sh);
                    let r = spread(*sh, 0.3, 2., i as u64).f32s();
                    kern.call_fw_impl("reset_tensor_by_slice_impl", &[], &[], &r, &mut [&mut t]);
                    vals.push(bits(&r));
                    xs.push(t);
                }
                let ns: Vec<Nd> = xs.iter().map(|x| Node::from(forever(x))).collect();
                let nr: Vec<&Nd> = ns.iter().collect();
                let ys = op.node(&nr);
                for _ in 0..2 {
                    let r = quiet(|| if back { ys[0].backward() } else { ys[0].forward() });
                    if r.is_ok() {
                        return Err(format!("{} succeeded without {}", if back { "backward" } else { "forward" }, name));
                    }
                }
                for (i, t) in xs.iter().enumerate() {
                    let mut v = vec![0.; shapes[i].size()];
                    kern.call_fw_f32_impl("tensor_to_vector_impl", &[t], &[], &[], &mut v);
                    if bits(&v) != vals[i] {
                        return Err(format!("operand {} changed when {} was missing", i, name));
                    }
                }
            }
            probe(d, &s).map_err(|e| format!("{} missing: {}", name, e))?;
        }
    }
    Ok(())
}

fn body(ctx: &mut Ctx) {
    let kern = leaked_naive();
    let rich = ctx.thorough();
    for (i, df) in dev_fns(true).into_iter().enumerate() {
        let _ = i;
        ctx.case(
            || format!("dispatch {}", df.name),
            |rec| {
                rec.step(2);
                dispatch(&df)
            },
        );
    }
    // operands of many elements or batch elements, joins of many operands, large integer arguments
    let m = |d: &[u32], b: u32| Sh::new(d, b);
    let mut xs = vec![m(&[70000], 1), m(&[2], 66000), m(&[3, 300], 2), m(&[1], 300), m(&[1, 1, 1, 1, 1, 1, 1, 300], 1), m(&[1, 65537], 1)];
    if rich {
        xs.extend([m(&[1000003], 1), m(&[], 1 << 20), m(&[1 << 17], 3), m(&[257, 255], 17), m(&[1; 0], 65536), m(&[2, 1, 33000], 1)]);
    }
    for df in dev_fns_over(&xs, ctx.pick(&[8, 9, 17, 65, 300], &[8, 9, 17, 33, 65, 129, 257, 300, 1030]), false) {
        if df.operands.iter().chain(df.result.iter()).map(|s| s.size()).max().unwrap_or(0) > 1 << 30 {
            continue;
        }
        ctx.case(
            || format!("dispatch {}", df.name),
            |rec| {
                rec.step(2);
                dispatch(&df)
            },
        );
    }
    for df in dev_fns(rich) {
        ctx.case(
            || format!("missing kernel {}", df.name),
            |rec| {
                rec.step(3);
                missing(&df, kern)
            },
        );
    }
    let name = |op: &Op, shapes: &[Sh]| {
        format!("{} {}", op.show(), shapes.iter().map(|s| s.show()).collect::<Vec<_>>().join(","))
    };
    for (op, shapes) in op_samples() {
        if let Some(k) = kernel_of(&op, &shapes) {
            ctx.case(
                || format!("operation {}", name(&op, &shapes)),
                |rec| {
                    rec.step(2);
                    op_dispatch(&op, &shapes, &k)
                },
            );
        }
        ctx.case(
            || format!("operation without a kernel {}", name(&op, &shapes)),
            |rec| op_missing(&op, &shapes, kern, rec),
        );
    }
    // nothing is stored, so operands may be as large as a shape can be
    let n31 = 1u32 << 31;
    let mut huge: Vec<(Op, Vec<Sh>)> = vec![];
    {
        use Op::*;
        for &l in &[1u32, 255, 256, 65535, 65536, 65537, (1 << 24) + 1, n31 - 3] {
            for s in [m(&[n31], 1), m(&[1, n31], 1)] {
                let d = s.d.iter().position(|x| *x > 1).unwrap() as u32;
                huge.push((Slice(d, l, l + 2), vec![s]));
                huge.push((Pick(vec![l], d), vec![s]));
                huge.push((Pick(vec![0, l + 1, l], d), vec![s]));
            }
            huge.push((BSlice(l, l + 2), vec![m(&[], n31)]));
            huge.push((BPick(vec![l, 0, l + 1]), vec![m(&[], n31)]));
            for d in [0, 3, 7] {
                huge.push((Bcast(d, l), vec![m(&[], 1)]));
            }
            huge.push((TriL(l), vec![m(&[46340, 46340], 1)]));
            huge.push((TriU(l), vec![m(&[300, 300], 7)]));
            huge.push((TriU(u32::MAX - l + 1), vec![m(&[3, 3], 2)]));
            huge.push((Powi(l as i32), vec![m(&[3], 2)]));
            huge.push((Powi(-(l as i32)), vec![m(&[3], 2)]));
        }
        huge.push((Powi(i32::MIN), vec![m(&[], 1)]));
        huge.push((Bcast(0, n31), vec![m(&[], 1)]));
        for d in 0..8 {
            let s = m(&[2; 8], 3);
            for op in [Sum(d), Max(d), Min(d), Lse(d), Slice(d, 1, 2), Pick(vec![1, 0, 1], d)] {
                huge.push((op, vec![s]));
            }
            huge.push((Concat(d), vec![s, s.with(d, 70000), s]));
        }
        for n in [8usize, 9, 16, 17, 64, 65, 255, 256, 257, 1000, 70000] {
            huge.push((Concat(0), (0..n).map(|i| m(&[1 + i as u32 % 3], 1)).collect()));
            huge.push((BConcat, (0..n).map(|i| m(&[2], 1 + i as u32 % 3)).collect()));
            let ids: Vec<u32> = (0..n as u32).map(|i| i.wrapping_mul(2654435761) % n31).collect();
            huge.push((Pick(ids.clone(), 0), vec![m(&[n31], 1)]));
            huge.push((BPick(ids), vec![m(&[], n31)]));
        }
        for v in [-0.0f32, f32::INFINITY, f32::NEG_INFINITY, f32::from_bits(1), f32::from_bits(0x7fc12345), f32::MAX, 1. / 3., 1e-8] {
            for op in [Prelu(v), Elu(v), Powf(v), AddR(v), AddL(v), SubR(v), SubL(v), MulR(v), MulL(v), DivR(v), DivL(v)] {
                huge.push((op, vec![m(&[3], 2)]));
            }
        }
        for op in [Add, Sub, Mul, Div, Pow] {
            huge.push((op.clone(), vec![m(&[1 << 16, 1 << 10], 1), m(&[1 << 16, 1 << 10], 31)]));
            huge.push((op.clone(), vec![m(&[], 1), m(&[n31], 1)]));
            huge.push((op, vec![m(&[65535], 1), m(&[], 32768)]));
        }
        huge.push((Matmul, vec![m(&[65535, 3], 1), m(&[3, 32768], 1)]));
        huge.push((Transpose, vec![m(&[65535, 32768], 1)]));
        huge.push((BSum, vec![m(&[65535], 32768)]));
    }
    for (op, shapes) in &huge {
        if let Some(k) = kernel_of(op, shapes) {
            ctx.case(
                || {
                    let n = name(op, shapes);
                    if n.len() > 200 { format!("operation {}.. {} operands {:016x}", &n[..100], shapes.len(), hash64(&n)) } else { format!("operation {}", n) }
                },
                |rec| {
                    rec.step(2);
                    op_dispatch(op, shapes, &k)
                },
            );
        }
    }
    // names that are nearly the same, in every namespace
    let long = "kernel_".repeat(40);
    let near = vec![
        "k".to_string(), "K".into(), "k_impl".into(), "k_fw".into(), "k_fw_impl".into(), "k_bw_impl".into(), "fw_k".into(), " k".into(), "k ".into(),
        "".into(), "k\0".into(), "kk".into(), "\u{212a}".into(), "\u{6b}\u{301}".into(), "k1".into(), "k01".into(), "add_fw_impl".into(), "add_fw".into(),
        "ADD_FW_IMPL".into(), "add-fw-impl".into(), format!("{}a", long), format!("{}b", long), format!("a{}", long), long[1..].to_string(),
    ];
    let near: Vec<&str> = near.iter().map(|s| &**s).collect();
    for i in 0..near.len() {
        for j in 0..near.len() {
            if i != j {
                ctx.case(
                    || format!("registrations of {:?} and {:?}", near[i], near[j]),
                    |rec| {
                        for h in [vec![0, 2, 4, 6], vec![1, 3, 5, 7], (0..8).collect(), (0..8).rev().collect(), vec![0, 1, 0, 1, 6, 7, 6]] {
                            registrations(&h, &[near[i], near[j]])?;
                            rec.step(h.len() as u64 + 8);
                            rec.trace(1);
                        }
                        Ok(())
                    },
                );
            }
        }
    }
    let many: Vec<String> = (0..ctx.pick(400, 3000)).map(|i| format!("kernel{}", i)).collect();
    let many: Vec<&str> = many.iter().map(|s| &**s).collect();
    ctx.case(
        || "registrations of many names".to_string(),
        |rec| {
            let n = 4 * many.len();
            let h: Vec<usize> = (0..n).chain((0..n).step_by(3)).collect();
            rec.step(h.len() as u64);
            registrations(&h, &many)
        },
    );
    // registration histories
    let names = ["add_fw_impl", "my_kernel"];
    let n = 4 * names.len();
    let depth = ctx.pick(4, 5);
    for a in 0..n {
        for b in 0..n {
            ctx.case(
                || format!("registrations {} {}", a, b),
                |rec| {
                    let mut h = vec![a, b];
                    fn go(h: &mut Vec<usize>, depth: usize, n: usize, names: &[&str], rec: &mut Rec) -> Result<(), String> {
                        registrations(h, names).map_err(|e| format!("{:?}: {}", h, e))?;
                        rec.step(h.len() as u64 + n as u64);
                        rec.trace(1);
                        let mut last = vec![None; n];
                        for (i, c) in h.iter().enumerate() {
                            last[*c] = Some(i);
                        }
                        rec.state(hash64(&last));
                        if h.len() < depth {
                            for c in 0..n {
                                h.push(c);
                                go(h, depth, n, names, rec)?;
                                h.pop();
                            }
                        }
                        Ok(())
                    }
                    go(&mut h, depth, n, &names, rec)
                },
            );
        }
    }
}

fn main() {
    run(
        Spec {
            id: "C26",
            level: "model_checking",
            rule: "every device function in every configuration, and every operation eager and in a graph, on a backend that \
                   records kernel, operands, arguments and results; every history of kernel registrations to a depth over \
                   two names in four namespaces; every function and every kernel of every operation's evaluation and \
                   backward pass removed in turn",
            assumptions: &["a kernel is identified by namespace and name as the bundled device registers them"],
        },
        body,
    );
}

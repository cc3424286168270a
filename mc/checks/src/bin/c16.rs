//! C16: results do not depend on the device's past. Every operation and device function, graph,
//! backward pass and training step is run on a fresh device and again after other work, after
//! itself, and with all recycled storage holding chosen bit patterns; results are compared bitwise.
use mc_core::dag::*;
use mc_core::Op::*;
use mc_core::*;
use prima_undine::functions::BasicFunctions;
use prima_undine::initializers::Constant;
use prima_undine::optimizers::{Adam, MomentumSGD, SGD};
use prima_undine::{Node, Optimizer, Parameter};
use std::cell::RefCell;

const PATTERNS: [u32; 8] = [
    0x7fc0_0001, // NaN
    0xffff_ffff, // NaN, all bits
    0x7f80_0000, // inf
    0xff80_0000, // -inf
    0x7f7f_ffff, // largest
    0x8000_0000, // -0
    0x0000_0001, // smallest
    0x3f80_0000, // one
];

type Bits = Vec<Vec<u32>>;

fn bits(v: &[f32]) -> Vec<u32> {
    v.iter().map(|x| x.to_bits()).collect()
}

/// what the bits would be with the sign and payload of NaN left out
fn canon(b: Bits) -> Bits {
    b.into_iter()
        .map(|v| v.into_iter().map(|x| if f32::from_bits(x).is_nan() { 0x7fc0_0000 } else { x }).collect())
        .collect()
}

fn soak(d: Dev, pattern: u32) {
    poison(d, &[64, 128, 256, 512, 1024], 24, f32::from_bits(pattern));
}

enum Item {
    Dev(DevFn),
    Op(mc_core::Op, Vec<Sh>),
    Identity(u32),
    Train(u8),
    Prog(Prog, Vec<R>),
    /// something the library refuses
    Refused(u8),
    /// many results held and released out of order
    Churn(u8),
}

impl Item {
    fn name(&self) -> String {
        match self {
            Item::Dev(f) => format!("dev {}", f.name),
            Item::Op(o, s) => format!("op {} {}", o.show(), s.iter().map(|x| x.show()).collect::<Vec<_>>().join(" ")),
            Item::Identity(n) => format!("identity {}", n),
            Item::Train(k) => format!("train {}", k),
            Item::Prog(p, _) => format!("prog {}", p.show()),
            Item::Refused(k) => format!("refused {}", k),
            Item::Churn(k) => format!("churn {}", k),
        }
    }
    fn run(&self, d: Dev) -> Bits {
        canon(match self {
            Item::Dev(f) => {
                let xs: Vec<Ten> =
                    f.operands.iter().enumerate().map(|(i, s)| ten(d, &spread(*s, 0.2, 1.9, i as u64))).collect();
                let refs: Vec<&Ten> = xs.iter().collect();
                let mut dest = f.dest.map(|s| ten(d, &spread(s, -1., 1., 77)));
                let mut out = match (f.call)(d, &refs, dest.as_mut()) {
                    Out::T(t) => vec![bits(&t.to_vec())],
                    Out::U(u) => vec![u],
                    Out::F(v) => vec![bits(&v)],
                    Out::Unit => vec![],
                };
                if let Some(t) = &dest {
                    out.push(bits(&t.to_vec()));
                }
                for x in &xs {
                    out.push(bits(&x.to_vec()));
                }
                out
            }
            Item::Op(op, shs) => {
                let rs: Vec<R> = shs.iter().enumerate().map(|(i, s)| spread(*s, 0.2, 1.9, i as u64)).collect();
                run_op(d, op, &rs)
            }
            Item::Identity(n) => {
                let mut y = d.new_tensor(Sh::new(&[*n, *n], 1).shape());
                y.alloc();
                d.call_fw_impl("identity_impl", &[], &[], &[], &mut [&mut y]);
                let x = ten(d, &spread(Sh::new(&[*n, 2, 3], 2), 0.2, 1.9, 4));
                let mut out = vec![bits(&y.to_vec())];
                for perm in [[1, 0, 2], [2, 1, 0], [1, 2, 0]] {
                    let dims = [*n, 2, 3];
                    let mut z = d.new_tensor(Sh::new(&[dims[perm[0]], dims[perm[1]], dims[perm[2]]], 2).shape());
                    z.alloc();
                    let p32: Vec<u32> = perm.iter().map(|&p| p as u32).collect();
                    d.call_fw_impl("permute_dims_fw_impl", &[&x], &p32, &[], &mut [&mut z]);
                    out.push(bits(&z.to_vec()));
                }
                for dim in 0..3 {
                    let mut z = d.new_tensor(x.shape());
                    z.alloc();
                    d.call_fw_impl("flip_fw_impl", &[&x], &[dim], &[], &mut [&mut z]);
                    out.push(bits(&z.to_vec()));
                }
                out
            }
            Item::Train(k) => train(d, *k),
            Item::Prog(p, leaves) => {
                let mut out = vec![];
                {
                    let b = build(d, p, leaves);
                    let n = b.nodes.len();
                    for v in (p.leaves.len()..n).rev() {
                        b.nodes[v].backward();
                        let cone = p.cone(v);
                        for u in 0..n {
                            if cone[u] {
                                out.push(bits(&b.nodes[u].inner_gradient().to_vec_any()));
                            }
                        }
                    }
                    for u in 0..n {
                        out.push(bits(&b.nodes[u].to_vec()));
                    }
                    for q in &b.params {
                        out.push(bits(&q.gradient.to_vec_any()));
                    }
                }
                out
            }
            Item::Refused(k) => {
                let a = ten(d, &spread(Sh::new(&[2, 3], 2), 0.2, 1.9, 1));
                let b = ten(d, &spread(Sh::new(&[3, 2], 3), 0.2, 1.9, 2));
                let _ = quiet(|| match k {
                    0 => (&a + &b).to_vec(),
                    1 => a.matmul(&b).to_vec(),
                    2 => a.slice(0, 2, 1).to_vec(),
                    3 => {
                        let (x, y): (Nd, Nd) = (Node::from(forever(&a)), Node::from(forever(&b)));
                        let z = (&x * 2.).exp();
                        (z * y).to_vec()
                    }
                    _ => d.new_tensor_by_slice(Sh::new(&[3], 1).shape(), &[1., 2.]).to_vec(),
                });
                vec![bits(&a.to_vec()), bits(&b.to_vec())]
            }
            Item::Churn(k) => {
                let mut live: Vec<Ten> = vec![];
                for i in 0..12u32 {
                    live.push(ten_const(d, Sh::new(&[1 + (i * 37) % 200], 1), f32::from_bits(PATTERNS[(i as usize + *k as usize) % 8])));
                    if i % 3 == 2 {
                        let j = (i as usize * 5 + *k as usize) % live.len();
                        drop(live.remove(j));
                    }
                }
                live.iter().map(|t| bits(&t.to_vec())).collect()
            }
        })
    }
}

/// Eager and graph values, gradients through the graph, and the operator's own backward.
fn run_op(d: Dev, op: &mc_core::Op, rs: &[R]) -> Bits {
    let mut out = vec![];
    let xs: Vec<Ten> = rs.iter().map(|r| ten(d, r)).collect();
    let refs: Vec<&Ten> = xs.iter().collect();
    for y in op.eager(&refs) {
        out.push(bits(&y.to_vec()));
    }
    {
        let leaves: Vec<Nd> = xs.iter().map(|t| Node::from(forever(t))).collect();
        let ys = op.node(&leaves.iter().collect::<Vec<_>>());
        for (i, y) in ys.iter().enumerate() {
            let w = node(d, &spread(Sh::of(y.shape()), -1., 1., 50 + i as u64));
            (y * w).batch_sum().flatten().sum(0).backward();
            out.push(bits(&y.to_vec()));
            for l in &leaves {
                out.push(bits(&l.inner_gradient().to_vec_any()));
            }
        }
    }
    let shs: Vec<Sh> = rs.iter().map(|r| r.s).collect();
    if let Some((oper, perm)) = op.operator(d, &shs) {
        let xr: Vec<&Ten> = perm.iter().map(|&i| &xs[i]).collect();
        let os = oper.forward_shape(&perm.iter().map(|&i| rs[i].s.shape()).collect::<Vec<_>>());
        let mut ys: Vec<Ten> = os.iter().map(|s| d.new_tensor(*s)).collect();
        oper.forward(&xr, &mut ys.iter_mut().collect::<Vec<_>>());
        let gy: Vec<Ten> = os.iter().enumerate().map(|(i, s)| ten(d, &spread(Sh::of(*s), -1., 1., 60 + i as u64))).collect();
        let gx: Vec<RefCell<Ten>> = rs.iter().map(|r| RefCell::new(ten_const(d, r.s, 0.125))).collect();
        oper.backward(
            &xr,
            &ys.iter().collect::<Vec<_>>(),
            &gy.iter().collect::<Vec<_>>(),
            &perm.iter().map(|&i| &gx[i]).collect::<Vec<_>>(),
        );
        for y in &ys {
            out.push(bits(&y.to_vec()));
        }
        for g in &gx {
            out.push(bits(&g.borrow().to_vec()));
        }
    }
    out
}

fn train_with<O: Optimizer>(d: Dev, o: &mut O, k: u8) -> Bits {
    let mut out = vec![];
    let mut w: Box<Parameter<'static>> = Box::new(d.new_parameter(Sh::new(&[3, 4], 1).shape(), &Constant::new(0.1)));
    let mut b: Box<Parameter<'static>> = Box::new(d.new_parameter(Sh::new(&[3], 1).shape(), &Constant::new(-0.2)));
    out.push(bits(&w.gradient.to_vec_any()));
    o.configure_parameters(&mut [&mut *w, &mut *b]);
    if k >= 3 {
        o.set_weight_decay(0.1);
        o.set_gradient_clipping(0.5);
    }
    for i in 0..3 {
        {
            let x = node(d, &spread(Sh::new(&[4], 5), -1., 1., 5 + i));
            let (wn, bn): (Nd, Nd) = (Node::from(forever_mut(&mut *w)), Node::from(forever_mut(&mut *b)));
            let y = wn.matmul(x) + bn;
            let loss = y.tanh().sparse_softmax_cross_entropy(&[1], 0).batch_sum();
            out.push(bits(&loss.to_vec()));
            loss.backward();
        }
        o.update_parameters(&mut [&mut *w, &mut *b]);
        out.push(bits(&w.value.to_vec_any()));
        out.push(bits(&b.value.to_vec_any()));
        out.push(bits(&b.gradient.to_vec_any()));
    }
    let mut names: Vec<&String> = w.stats.keys().collect();
    names.sort();
    for n in names {
        out.push(bits(&w.stats[n].borrow().to_vec()));
    }
    out
}

fn train(d: Dev, k: u8) -> Bits {
    match k % 3 {
        0 => train_with(d, &mut SGD::new(0.5), k),
        1 => train_with(d, &mut MomentumSGD::new(0.5, 0.75), k),
        _ => train_with(d, &mut Adam::new(0.1, 0.9, 0.999, 1e-8), k),
    }
}

fn diff(what: &str, a: &Bits, b: &Bits) -> Result<(), String> {
    if a == b {
        return Ok(());
    }
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        if x != y {
            let show = |v: &Vec<u32>| v.iter().take(12).map(|z| format!("{:?}", f32::from_bits(*z))).collect::<Vec<_>>().join(" ");
            return Err(format!("{}: result {} is [{}], on a fresh device [{}]", what, i, show(y), show(x)));
        }
    }
    Err(format!("{}: {} results instead of {}", what, b.len(), a.len()))
}

/// Operand values of a kind; kinds differ in zeros' signs, single elements, last bits, magnitudes.
const KINDS: usize = 15;
fn values(s: Sh, kind: usize, salt: u64) -> Vec<f32> {
    let base = spread(s, 0.2, 1.9, salt).f32s();
    let n = base.len();
    (0..n)
        .map(|i| match kind {
            0 => base[i],
            1 => base[if i == 0 { 0 } else { n - i }],
            2 => 0.,
            3 => -0.,
            4 => [0., -0.][i % 2],
            5 => [-0., 0.][i % 2],
            6 => -base[i],
            7 => f32::from_bits(base[i].to_bits() + 1),
            8 => [3e38, -3e38][i % 2],
            9 => [f32::INFINITY, f32::NEG_INFINITY][i / 2 % 2],
            10 => f32::NAN,
            11 => base[i] * 0.5 + 0.3,
            12 => f32::from_bits(1 + i as u32),
            13 => base[i] + (i + 1 == n) as u32 as f32,
            _ => base[i] + (i == n / 2) as u32 as f32,
        })
        .collect()
}

/// The results of an operation on operands that already exist.
fn results(op: &mc_core::Op, xs: &[Ten]) -> Bits {
    let refs: Vec<&Ten> = xs.iter().collect();
    let mut out: Bits = op.eager(&refs).iter().map(|y| bits(&y.to_vec())).collect();
    {
        let leaves: Vec<Nd> = xs.iter().map(|t| Node::from(forever(t))).collect();
        let ys = op.node(&leaves.iter().collect::<Vec<_>>());
        for y in &ys {
            y.backward();
            out.push(bits(&y.to_vec()));
            for l in &leaves {
                out.push(bits(&l.inner_gradient().to_vec_any()));
            }
        }
    }
    canon(out)
}

/// The operation on one set of values after the same operation on another, in new operands, in the
/// same operands overwritten, and in operands that take over the storage of the former.
fn after_values(op: &mc_core::Op, shs: &[Sh], rec: &mut Rec) -> Result<(), String> {
    let modes = if shs.len() == 1 { 1 } else { shs.len() + 1 };
    let mut sets: Vec<Vec<Vec<f32>>> = vec![];
    for mode in 0..modes {
        for kind in 0..KINDS {
            sets.push(
                shs.iter()
                    .enumerate()
                    .map(|(i, s)| values(*s, if mode == 0 || mode == i + 1 { kind } else { 0 }, i as u64))
                    .collect(),
            );
        }
    }
    let make = |d: Dev, v: &[Vec<f32>]| -> Vec<Ten> {
        shs.iter().zip(v).map(|(s, v)| d.new_tensor_by_slice(s.shape(), v)).collect()
    };
    let fresh: Vec<Bits> = sets
        .iter()
        .map(|v| {
            let dv = Dv::naive();
            let d = dv.d();
            let b = results(op, &make(d, v));
            b
        })
        .collect();
    let dv = Dv::naive();
    let d = dv.d();
    let mut held = make(d, &sets[0]);
    for i in 0..sets.len() {
        for j in 0..sets.len() {
            if i / KINDS != j / KINDS && i % KINDS != 0 {
                continue;
            }
            let a = make(d, &sets[i]);
            diff("new operands", &fresh[i], &results(op, &a))?;
            let b = make(d, &sets[j]);
            diff(&format!("values {} after values {} in new operands", j, i), &fresh[j], &results(op, &b))?;
            drop(a);
            let c = make(d, &sets[j]);
            diff(&format!("values {} after values {} in recycled operands", j, i), &fresh[j], &results(op, &c))?;
            for k in [i, j] {
                for (t, v) in held.iter_mut().zip(&sets[k]) {
                    d.reset_tensor_by_slice(t, v);
                }
                diff(&format!("values {} after values {} in overwritten operands", j, i), &fresh[k], &results(op, &held))?;
            }
            rec.step(5);
            rec.trace(1);
        }
    }
    rec.heartbeat();
    Ok(())
}

/// Groups of operations that differ in an argument, an axis or a shape of the same size only.
fn variants() -> Vec<(&'static str, Vec<(mc_core::Op, Vec<Sh>)>)> {
    let m = |d: &[u32], b: u32| Sh::new(d, b);
    let mut v: Vec<(&'static str, Vec<(mc_core::Op, Vec<Sh>)>)> = vec![];
    let ks = [0.3f32, f32::from_bits(0.3f32.to_bits() + 1), -0.3, 0., -0., 1., 2., -1., 1e8, f32::MIN_POSITIVE];
    let fs: [(&'static str, fn(f32) -> mc_core::Op); 11] = [
        ("prelu", Prelu), ("elu", Elu), ("powf", Powf), ("add", AddR), ("add left", AddL), ("sub", SubR), ("sub left", SubL),
        ("mul", MulR), ("mul left", MulL), ("div", DivR), ("div left", DivL),
    ];
    for (n, f) in fs {
        v.push((n, ks.iter().map(|&k| (f(k), vec![m(&[5], 1)])).collect()));
    }
    v.push(("powi", (-4..=4).map(|k| (Powi(k), vec![m(&[5], 1)])).collect()));
    let same = [m(&[12], 1), m(&[3, 4], 1), m(&[4, 3], 1), m(&[2, 3, 2], 1), m(&[2, 3], 2), m(&[6], 2), m(&[], 12), m(&[1, 12], 1), m(&[3], 4)];
    let mut red = vec![];
    let mut mv = vec![];
    let mut bt = vec![];
    for s in same {
        for d in 0..4 {
            red.extend([Sum(d), Max(d), Lse(d), Softmax(d), LnSoftmax(d)].map(|o| (o, vec![s])));
            red.extend([Bcast(d, 2), Bcast(d, 3), Ssce(vec![0], d), Ssce(vec![1, 0], d)].map(|o| (o, vec![s])));
            mv.extend([Slice(d, 0, 1), Slice(d, 1, 2), Slice(d, 0, 2), Slice(d, 1, 3), Split(d, 2), Split(d, 3)].map(|o| (o, vec![s])));
            mv.extend([Pick(vec![0], d), Pick(vec![1], d), Pick(vec![1, 0], d), Pick(vec![0, 1], d), Pick(vec![0, 0, 1], d)].map(|o| (o, vec![s])));
            mv.push((Concat(d), vec![s, s]));
        }
        bt.extend([BSum, BSlice(0, 1), BSlice(1, 2), BSplit(2), BPick(vec![0, 1]), BPick(vec![1, 0]), BPick(vec![0]), Flatten, Transpose].map(|o| (o, vec![s])));
        bt.push((BConcat, vec![s, s]));
        for k in 0..3 {
            let q = [m(&[3, 3], 1), m(&[2, 2], 2), m(&[3, 3], 2)][k as usize];
            bt.extend([TriL(k), TriU(k)].map(|o| (o, vec![q])));
        }
        for t in same {
            bt.push((Matmul, vec![s, t]));
            bt.push((Add, vec![s, t]));
            bt.push((Reshape(t), vec![s]));
        }
    }
    v.extend([("reductions", red), ("movements", mv), ("batches and matrices", bt)]);
    for (_, g) in v.iter_mut() {
        g.retain(|(o, s)| matches!(o.judge(s), Verdict::Accept(_)));
    }
    v
}

struct Fresh {
    memo: RefCell<Vec<Option<Bits>>>,
}

impl Fresh {
    fn get(&self, items: &[Item], i: usize) -> Bits {
        if let Some(b) = &self.memo.borrow()[i] {
            return b.clone();
        }
        let dv = Dv::naive();
        let b = items[i].run(dv.d());
        self.memo.borrow_mut()[i] = Some(b.clone());
        b
    }
}

fn alone(item: &Item, rec: &mut Rec) -> Result<(), String> {
    let fresh = {
        let dv = Dv::naive();
        item.run(dv.d())
    };
    let dv = Dv::naive();
    let d = dv.d();
    diff("another fresh device", &fresh, &item.run(d))?;
    for n in 0..3 {
        diff(&format!("repetition {}", n), &fresh, &item.run(d))?;
    }
    for p in PATTERNS {
        let dv = Dv::naive();
        let d = dv.d();
        soak(d, p);
        diff(&format!("storage full of {:08x}", p), &fresh, &item.run(d))?;
        soak(d, p);
        diff(&format!("storage full of {:08x}, again", p), &fresh, &item.run(d))?;
        rec.step(2);
    }
    rec.step(5);
    Ok(())
}

fn body(ctx: &mut Ctx) {
    let rich = ctx.thorough();
    // the operations and functions of the pair histories
    let mut items: Vec<Item> = vec![];
    for (op, s) in op_samples() {
        items.push(Item::Op(op, s));
    }
    for k in 0..6 {
        items.push(Item::Train(k));
    }
    for k in 0..5 {
        items.push(Item::Refused(k));
    }
    for k in 0..3 {
        items.push(Item::Churn(k));
    }
    items.push(Item::Identity(3));
    items.push(Item::Identity(9));
    let nops = items.len();
    for f in dev_fns(rich) {
        if !f.kernel.starts_with("random") {
            items.push(Item::Dev(f));
        }
    }
    for it in &items {
        ctx.case(|| format!("alone {}", it.name()), |rec| alone(it, rec));
    }
    // every operation on every kind of values after every other kind
    let mut samples = op_samples();
    for op in [Neg, Sin, Tanh, Exp, Relu, Add, Mul, Pow] {
        let n = if matches!(op, Add | Mul | Pow) { 2 } else { 1 };
        for s in [Sh::new(&[], 1), Sh::new(&[300], 1), Sh::new(&[], 5)] {
            samples.push((op.clone(), vec![s; n]));
        }
    }
    for (op, shs) in &samples {
        let name = Item::Op(op.clone(), shs.clone()).name();
        ctx.case(|| format!("values {}", name), |rec| after_values(op, shs, rec));
    }
    // operations that differ in an argument only, one after another on the same values
    for (name, group) in variants() {
        let data = |d: Dev, s: &[Sh]| -> Vec<Ten> {
            s.iter().map(|s| d.new_tensor_by_slice(s.shape(), &values(*s, 0, 1))).collect()
        };
        let fresh: Vec<std::cell::OnceCell<Bits>> = group.iter().map(|_| Default::default()).collect();
        for i in 0..group.len() {
            ctx.case(
                || format!("variants {} after {}", name, Item::Op(group[i].0.clone(), group[i].1.clone()).name()),
                |rec| {
                    let get = |j: usize| {
                        fresh[j].get_or_init(|| {
                            let dv = Dv::naive();
                            let b = results(&group[j].0, &data(dv.d(), &group[j].1));
                            b
                        })
                    };
                    let dv = Dv::naive();
                    let d = dv.d();
                    for j in 0..group.len() {
                        let a = data(d, &group[i].1);
                        diff("itself", get(i), &results(&group[i].0, &a))?;
                        let what = || Item::Op(group[j].0.clone(), group[j].1.clone()).name();
                        if group[j].1 == group[i].1 {
                            diff(&what(), get(j), &results(&group[j].0, &a))?;
                        }
                        drop(a);
                        diff(&what(), get(j), &results(&group[j].0, &data(d, &group[j].1)))?;
                        rec.step(3);
                    }
                    rec.heartbeat();
                    Ok(())
                },
            );
        }
    }
    // every operation with every shape of a range
    let shs: Vec<Sh> = if rich {
        let mut v = all_shapes(3, 3, 27, &[1, 2, 3]);
        v.extend([Sh::new(&[8, 9], 1), Sh::new(&[9, 8], 2), Sh::new(&[17, 3], 1), Sh::new(&[130], 1), Sh::new(&[64], 1), Sh::new(&[2, 1, 2, 1, 3], 2)]);
        v
    } else {
        let mut v = all_shapes(2, 3, 9, &[1, 2]);
        v.extend([Sh::new(&[2, 2, 2], 2), Sh::new(&[8, 9], 1), Sh::new(&[9, 8], 2), Sh::new(&[65], 1), Sh::new(&[2, 1, 2, 1, 3], 2)]);
        v
    };
    let unary: Vec<mc_core::Op> = {
        let mut v = vec![
            Neg, Abs, Sqrt, Sin, Cos, Tan, Exp, Ln, Tanh, Sigmoid, Softplus, Relu, Lrelu, Prelu(0.3), Elu(0.7), Powf(1.5), Powi(3),
            Powi(0), AddR(2.), AddL(2.), SubR(2.), SubL(2.), MulR(0.), MulL(2.), DivR(2.), DivL(2.), Flatten, Transpose, TriL(0),
            TriU(1), BSum, BSlice(0, 1), BSplit(2), BPick(vec![0, 0]), BPick(vec![1, 0, 1]), BSlice(1, 2),
        ];
        for dim in 0..3 {
            v.extend([
                Sum(dim), Max(dim), Min(dim), Lse(dim), Bcast(dim, 3), Bcast(dim, 1), LnSoftmax(dim), Softmax(dim),
                Ssce(vec![0], dim), Ssce(vec![1, 0], dim), Slice(dim, 0, 1), Slice(dim, 1, 2), Slice(dim, 0, 2), Split(dim, 2),
                Split(dim, 1), Pick(vec![0], dim), Pick(vec![1, 1], dim), Concat(dim), BConcat,
            ]);
        }
        v
    };
    let binary: Vec<mc_core::Op> =
        vec![Add, Sub, Mul, Div, Pow, Matmul, Concat(0), Concat(1), BConcat, Sce(0), Sce(1)];
    for op in &unary {
        for s in &shs {
            if let Verdict::Accept(_) = op.judge(&[*s]) {
                let it = Item::Op(op.clone(), vec![*s]);
                ctx.case(|| format!("shapes {}", it.name()), |rec| alone(&it, rec));
            }
        }
    }
    for op in &binary {
        for a in &shs {
            for b in &shs {
                if let Verdict::Accept(_) = op.judge(&[*a, *b]) {
                    let it = Item::Op(op.clone(), vec![*a, *b]);
                    ctx.case(|| format!("shapes {}", it.name()), |rec| alone(&it, rec));
                }
            }
        }
    }
    // ordered pairs on one device; the first one's results are released, kept or poisoned away
    let fresh = Fresh { memo: RefCell::new((0..items.len()).map(|_| None).collect()) };
    let n = items.len();
    for i in 0..n {
        // device functions follow each other in the thorough run only
        let js: Vec<usize> = if i < nops { (0..n).collect() } else if rich { (0..nops).collect() } else { (0..nops).step_by(7).collect() };
        ctx.case(
            || format!("pairs after {}", items[i].name()),
            |rec| {
                for &j in &js {
                    let b = fresh.get(&items, j);
                    let dv = Dv::naive();
                    let d = dv.d();
                    items[i].run(d);
                    diff(&format!("{} after it", items[j].name()), &b, &items[j].run(d))?;
                    let a = fresh.get(&items, i);
                    diff(&format!("itself after {}", items[j].name()), &a, &items[i].run(d))?;
                    rec.step(3);
                    rec.state(hash64(&(i, j)));
                    rec.trace(1);
                }
                rec.heartbeat();
                Ok(())
            },
        );
    }
    // all on one device, in many orders
    for stride in (1..n).filter(|s| gcd(*s, n) == 1).take(ctx.pick(24, 120)) {
        ctx.case(
            || format!("tour {}", stride),
            |rec| {
                let dv = Dv::naive();
                let d = dv.d();
                for k in 0..n {
                    let i = (k * stride) % n;
                    diff(&format!("{} as step {}", items[i].name(), k), &fresh.get(&items, i), &items[i].run(d))?;
                }
                rec.step(n as u64);
                rec.heartbeat();
                Ok(())
            },
        );
    }
    // graphs
    let sets: Vec<(Vec<Sh>, Vec<mc_core::Op>, Vec<mc_core::Op>, usize)> = real_sets(false);
    for (leaves, un, bin, len) in sets {
        let vals: Vec<R> = leaves.iter().enumerate().map(|(i, s)| spread(*s, 0.3, 1.9, 3 + i as u64)).collect();
        all_progs(&leaves, &un, &bin, len, 64, &mut |p| {
            ctx.case(
                || format!("prog {} {}", p.leaves.iter().map(|s| s.show()).collect::<Vec<_>>().join(","), p.show()),
                |rec| {
                    let it = Item::Prog(p.clone(), vals.clone());
                    let f = {
                        let dv = Dv::naive();
                        it.run(dv.d())
                    };
                    for q in [0, 3] {
                        let dv = Dv::naive();
                        let d = dv.d();
                        soak(d, PATTERNS[q]);
                        diff(&format!("storage full of {:08x}", PATTERNS[q]), &f, &it.run(d))?;
                        diff("again", &f, &it.run(d))?;
                    }
                    rec.step(5);
                    Ok(())
                },
            );
        });
    }
}

fn gcd(a: usize, b: usize) -> usize {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

fn main() {
    run(
        Spec {
            id: "C16",
            level: "model_checking",
            rule: "every device function and operation (values, graph gradients, operator gradients), training run and two-step graph program run on a fresh device, repeated, after storage filled with each of 8 bit patterns, after every other item of a list (all ordered pairs), and in tours over all items on one device; results compared bitwise (NaN payload aside)",
            assumptions: &["random fills excepted"],
        },
        body,
    );
}

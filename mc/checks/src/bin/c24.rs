//! C24: operands of another device are rejected; copies between devices are exact.
use mc_core::backend::*;
use mc_core::Op::*;
use mc_core::*;
use prima_undine::functions::{ArithmeticDeviceFunctions, BasicDeviceFunctions, BasicFunctions};
use prima_undine::Node;
use prima_undine_contrib::functions::ContribFunctions;

fn bits(t: &Ten) -> Vec<u32> {
    t.to_vec().iter().map(|x| x.to_bits()).collect()
}

struct Guarded {
    what: Vec<String>,
    ts: Vec<Ten>,
    before: Vec<Vec<u32>>,
}

fn positive(s: Sh, salt: u64) -> R {
    let mut r = spread(s, 0.3, 2., salt);
    r.v.iter_mut().enumerate().for_each(|(i, x)| *x += i as f64 % 3.);
    r
}

impl Guarded {
    fn new() -> Guarded {
        Guarded { what: vec![], ts: vec![], before: vec![] }
    }
    fn add(&mut self, what: String, d: Dev, s: Sh, salt: u64) -> usize {
        let t = ten(d, &positive(s, salt));
        self.before.push(bits(&t));
        self.ts.push(t);
        self.what.push(what);
        self.ts.len() - 1
    }
    fn check(&self, except: Option<usize>) -> Result<(), String> {
        for i in 0..self.ts.len() {
            if Some(i) != except && bits(&self.ts[i]) != self.before[i] {
                return Err(format!("{} changed", self.what[i]));
            }
        }
        Ok(())
    }
}

fn function_case(f: &DevFn, devs: [Dev; 2], rec: &mut Rec) -> Result<(), String> {
    let n = f.operands.len() + f.dest.is_some() as usize;
    for recv in 0..2 {
        for asg in 0..1usize << n {
            let on = |i: usize| devs[(asg >> i) & 1];
            let mut g = Guarded::new();
            let b0 = g.add("a tensor of the first device".into(), devs[0], Sh::new(&[5], 1), 1);
            g.add("a tensor of the second device".into(), devs[1], Sh::new(&[5], 1), 2);
            let _ = b0;
            let first = g.ts.len();
            for (i, s) in f.operands.iter().enumerate() {
                g.add(format!("operand {}", i), on(i), *s, 3 + i as u64);
            }
            let dest = f.dest.map(|s| g.add("the destination".into(), on(n - 1), s, 50));
            let xs: Vec<&Ten> = (0..f.operands.len()).map(|i| forever(&g.ts[first + i])).collect();
            let dt = dest.map(|i| forever_mut(&mut g.ts[i]));
            let foreign = (0..n).any(|i| (asg >> i) & 1 != recv && f.foreign_ok != Some(i));
            let who = format!("called on device {} with operands on {:?}", recv, (0..n).map(|i| (asg >> i) & 1).collect::<Vec<_>>());
            rec.step(1);
            let r = quiet(|| (f.call)(devs[recv], &xs, dt));
            match r {
                Ok(out) => {
                    if foreign {
                        return Err(format!("{}: accepted", who));
                    }
                    rec.outcome("accepted");
                    if let Out::T(t) = &out {
                        if !std::ptr::eq(t.device(), devs[recv]) {
                            return Err(format!("{}: the result is not on the called device", who));
                        }
                    }
                    if f.kernel == "reset_tensor_by_tensor_impl" {
                        let got = match (&out, dest) {
                            (Out::T(t), _) => bits(t),
                            (_, Some(i)) => bits(&g.ts[i]),
                            _ => vec![],
                        };
                        if got != g.before[first] {
                            return Err(format!("{}: wrong values copied", who));
                        }
                    }
                    g.check(dest).map_err(|e| format!("{}: {}", who, e))?;
                }
                Err(_) => {
                    if !foreign {
                        return Err(format!("{}: rejected", who));
                    }
                    rec.outcome("rejected");
                    g.check(None).map_err(|e| format!("{}: {}", who, e))?;
                }
            }
        }
    }
    Ok(())
}

/// Eager and graph forms of `f` with every assignment of the operands to the two devices.
fn expr(
    devs: [Dev; 2],
    shapes: &[Sh],
    eager: &dyn Fn(&[&Ten]) -> Vec<Ten>,
    graph: &dyn Fn(&[&Nd]) -> Vec<Nd>,
    rec: &mut Rec,
) -> Result<(), String> {
    let n = shapes.len();
    for asg in 0..1usize << n {
        let mixed = asg != 0 && asg != (1 << n) - 1;
        for form in 0..3 {
            let mut g = Guarded::new();
            for (i, s) in shapes.iter().enumerate() {
                g.add(format!("operand {}", i), devs[(asg >> i) & 1], *s, 3 + i as u64);
            }
            g.add("a tensor of the first device".into(), devs[0], Sh::new(&[5], 1), 1);
            g.add("a tensor of the second device".into(), devs[1], Sh::new(&[5], 1), 2);
            let xs: Vec<&Ten> = (0..n).map(|i| forever(&g.ts[i])).collect();
            let r: Result<(), String> = if form == 0 {
                quiet(|| {
                    for y in eager(&xs) {
                        y.to_vec();
                    }
                })
            } else {
                quiet(|| {
                    let ns: Vec<Nd> = xs
                        .iter()
                        .map(|t| if form == 1 { Node::from(*t) } else { Node::from(t.device().copy_tensor(t)) })
                        .collect();
                    let nr: Vec<&Nd> = ns.iter().collect();
                    for y in graph(&nr) {
                        y.forward();
                        y.to_vec();
                    }
                })
            };
            rec.step(1);
            let who = format!("{} operands on {:?}", ["eager", "graph", "graph with owned inputs"][form], (0..n).map(|i| (asg >> i) & 1).collect::<Vec<_>>());
            if mixed != r.is_err() {
                return Err(format!("{}: {}", who, if mixed { "accepted".to_string() } else { format!("rejected: {:?}", r) }));
            }
            rec.outcome(if mixed { "rejected" } else { "accepted" });
            g.check(None).map_err(|e| format!("{}: {}", who, e))?;
        }
    }
    Ok(())
}

fn body(ctx: &mut Ctx) {
    mc_core::alloc::enable_guards();
    let a = leaked_naive();
    let b = leaked_naive();
    let kern = leaked_naive();
    let (s1, s2) = (st(), st());
    let ta: Dev = Dv::from(tracked(&s1, kern)).leak();
    let tb: Dev = Dv::from(tracked(&s2, kern)).leak();
    let pairs: [(&str, [Dev; 2]); 3] = [("bundled-bundled", [a, b]), ("bundled-custom", [a, ta]), ("custom-custom", [ta, tb])];
    for f in dev_fns(ctx.thorough()) {
        for (pn, devs) in pairs.iter() {
            ctx.case(|| format!("function {} {}", f.name, pn), |rec| function_case(&f, *devs, rec));
        }
    }
    // operations of tensors and nodes with several operands
    let m = |d: &[u32], b: u32| Sh::new(d, b);
    let mut list: Vec<(Op, Vec<Sh>)> = vec![];
    for op in [Add, Sub, Mul, Div, Pow] {
        list.push((op.clone(), vec![m(&[2, 2], 1), m(&[2, 2], 1)]));
        list.push((op.clone(), vec![m(&[2, 2], 1), m(&[2, 2], 3)]));
        list.push((op.clone(), vec![m(&[], 1), m(&[2, 2], 1)]));
        list.push((op.clone(), vec![m(&[2, 2], 1), m(&[], 1)]));
        list.push((op.clone(), vec![m(&[], 1), m(&[], 1)]));
    }
    list.push((Matmul, vec![m(&[2, 3], 1), m(&[3, 2], 1)]));
    list.push((Matmul, vec![m(&[2, 3], 2), m(&[3, 2], 1)]));
    for d in 0..2 {
        list.push((Sce(d), vec![m(&[2, 3], 2), m(&[2, 3], 2)]));
        for k in 2..=ctx.pick(3, 5) {
            list.push((Concat(d), vec![m(&[2, 2], 1); k]));
            list.push((BConcat, vec![m(&[2, 2], 1 + d); k]));
        }
    }
    // joins of many operands, one or several of them elsewhere
    for n in ctx.pick(vec![4usize, 8, 9, 17, 33, 65], vec![4, 5, 8, 9, 16, 17, 33, 65, 129, 257, 300]) {
        for (pn, devs) in pairs.iter() {
            for at in 0..n {
                ctx.case(
                    || format!("join of {} with the operand {} elsewhere {}", n, at, pn),
                    |rec| {
                        let mut g = Guarded::new();
                        for i in 0..n {
                            g.add(format!("operand {}", i), devs[(i == at) as usize], m(&[2], 1), i as u64);
                        }
                        let xs: Vec<&Ten> = g.ts.iter().map(|t| forever(t)).collect();
                        let ns: Vec<Nd> = xs.iter().map(|t| Node::from(*t)).collect();
                        let nr: Vec<&Nd> = ns.iter().collect();
                        for form in 0..10 {
                            let bad = panics(|| match form {
                                0 => drop(Ten::concat(&xs, 0)),
                                1 => drop(Ten::batch_concat(&xs)),
                                2 => drop(devs[0].concat_fw(&xs, 1)),
                                3 => drop(devs[1].concat_fw(&xs, 1)),
                                4 => drop(devs[0].batch_concat_fw(&xs)),
                                5 => drop(devs[1].batch_concat_fw(&xs)),
                                6 => Nd::concat(&nr, 0).forward(),
                                7 => Nd::batch_concat(&nr).forward(),
                                8 => drop(Ten::slice_sum(&xs)),
                                _ => Nd::slice_sum(&nr).forward(),
                            });
                            rec.step(1);
                            if !bad {
                                return Err(format!("form {} accepted", form));
                            }
                        }
                        g.check(None)
                    },
                );
            }
        }
    }
    // operands of many elements or batch elements
    for op in [Add, Sub, Mul, Div, Pow] {
        for s in [m(&[257], 1), m(&[4100], 1), m(&[2], 300), m(&[70000], 1), m(&[1], 66000)] {
            list.push((op.clone(), vec![s, s]));
            list.push((op.clone(), vec![s, s.with_b(1)]));
            list.push((op.clone(), vec![m(&[], 1), s]));
            list.push((op.clone(), vec![s, m(&[], 1)]));
        }
    }
    list.push((Matmul, vec![m(&[70, 3], 1), m(&[3, 70], 1)]));
    list.push((Matmul, vec![m(&[2, 70], 30), m(&[70, 2], 30)]));
    list.push((Sce(0), vec![m(&[300], 20), m(&[300], 20)]));
    for (op, shapes) in &list {
        for (pn, devs) in pairs.iter() {
            ctx.case(
                || format!("operation {} {} {}", op.show(), shapes.iter().map(|s| s.show()).collect::<Vec<_>>().join(","), pn),
                |rec| expr(*devs, shapes, &|x| op.eager(x), &|x| op.node(x), rec),
            );
        }
    }
    for (pn, devs) in pairs.iter() {
        ctx.case(
            || format!("operation batch_normalize {}", pn),
            |rec| {
                expr(*devs, &[m(&[2], 3), m(&[2], 1), m(&[2], 1)],
                    &|x| vec![x[0].batch_normalization(x[1], x[2], 1e-3, true)],
                    &|x| vec![x[0].batch_normalization(x[1], x[2], 1e-3, true)], rec)
            },
        );
        ctx.case(
            || format!("operation layer_normalize {}", pn),
            |rec| {
                expr(*devs, &[m(&[2, 2], 2), m(&[2, 2], 1), m(&[2, 2], 1)],
                    &|x| vec![x[0].layer_normalization(x[1], x[2], 1e-3)],
                    &|x| vec![x[0].layer_normalization(x[1], x[2], 1e-3)], rec)
            },
        );
        ctx.case(
            || format!("operation slice_sum {}", pn),
            |rec| {
                expr(*devs, &[m(&[2], 1), m(&[2], 1), m(&[2], 1)],
                    &|x| vec![Ten::slice_sum(x)],
                    &|x| vec![Nd::slice_sum(x)], rec)
            },
        );
        // deeper: a result of one device meets a leaf of the other
        ctx.case(
            || format!("operation chain {}", pn),
            |rec| {
                expr(*devs, &[m(&[2, 2], 1), m(&[2, 2], 1), m(&[2, 2], 1)],
                    &|x| vec![(x[0] * x[1]).tanh() + x[2]],
                    &|x| vec![(x[0] * x[1]).tanh() + x[2]], rec)
            },
        );
        // in-place operators of tensors
        for s in [m(&[], 1), m(&[3], 1), m(&[3], 2), m(&[65], 1)] {
            ctx.case(
                || format!("in place {} {}", s.show(), pn),
                |rec| {
                    for (x, y) in [(0, 1), (1, 0)] {
                        for k in 0..8 {
                            let mut g = Guarded::new();
                            g.add("target".into(), devs[x], s, 1);
                            g.add("operand".into(), devs[y], s, 2);
                            let (t, o) = (forever_mut(&mut g.ts[0]), forever(&g.ts[1]));
                            let r = panics(|| match k {
                                0 => *t += o,
                                1 => *t -= o,
                                2 => *t += devs[y].copy_tensor(o),
                                3 => *t -= devs[y].copy_tensor(o),
                                4 => devs[x].add_assign(o, t),
                                5 => devs[y].add_assign(o, t),
                                6 => devs[x].sub_assign(o, t),
                                _ => devs[y].sub_assign(o, t),
                            });
                            rec.step(1);
                            if !r {
                                return Err(format!("form {} accepted", k));
                            }
                            g.check(None)?;
                            // and it works once the operand is brought over
                            let c = devs[x].copy_tensor(o);
                            *t += &c;
                            let want: Vec<u32> = g.before[0].iter().zip(&g.before[1]).map(|(p, q)| (f32::from_bits(*p) + f32::from_bits(*q)).to_bits()).collect();
                            if bits(t) != want {
                                return Err("sum with the copied operand is wrong".into());
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // copies
    let mut shs = all_shapes(3, 3, 27, &[1, 2, 3]);
    shs.push(m(&[1, 1, 1, 1, 1, 1, 1, 2], 2));
    shs.push(m(&[2; 8], 2));
    for n in 1..=ctx.pick(140, 1100) {
        shs.push(m(&[n], 1));
        if n % 7 == 1 {
            shs.push(m(&[1, n], 3));
        }
    }
    let special = [0x7fc00001u32, 0xffc12345, 0x7f800000, 0xff800000, 0x80000000, 0, 1, 0x80000001, 0x007fffff, 0x7f7fffff, 0x3f800001];
    for s in &shs {
        for (pn, devs) in pairs.iter() {
            ctx.case(
                || format!("copy {} {}", s.show(), pn),
                |rec| {
                    for x in 0..2 {
                        for y in 0..2 {
                            let v: Vec<f32> = (0..s.size()).map(|i| if i % 3 == 2 { f32::from_bits(special[i / 3 % special.len()]) } else { i as f32 * 1.37 - 5. }).collect();
                            let w: Vec<u32> = v.iter().map(|f| f.to_bits()).collect();
                            let by = ten(devs[y], &distinct(Sh::new(&[7], 1), 3));
                            let mut orig = devs[x].new_tensor_by_slice(s.shape(), &v);
                            poison(devs[y], &[class_of(s.size())], 2, f32::NAN);
                            let mut copy = devs[y].copy_tensor(&orig);
                            rec.step(1);
                            if !std::ptr::eq(copy.device(), devs[y]) {
                                return Err("the copy is not on the requested device".into());
                            }
                            check_shape("copy", &copy, s)?;
                            if bits(&copy) != w || bits(&orig) != w {
                                return Err(format!("values differ after copying {} to {}", x, y));
                            }
                            // independence, both ways
                            copy.reset(9.);
                            if bits(&orig) != w {
                                return Err("the original changed with the copy".into());
                            }
                            let copy2 = devs[y].copy_tensor(&orig);
                            orig *= 0.;
                            if bits(&copy2) != w {
                                return Err("the copy changed with the original".into());
                            }
                            let mut into = devs[y].new_tensor_by_constant(s.shape(), 4.);
                            devs[y].reset_tensor_by_tensor(&mut into, &copy2);
                            let back = devs[x].copy_tensor(&copy2);
                            drop(orig);
                            drop(copy2);
                            poison(devs[y], &[class_of(s.size())], 2, f32::NAN);
                            poison(devs[x], &[class_of(s.size())], 2, f32::NAN);
                            if bits(&back) != w || bits(&into) != w {
                                return Err("a copy did not survive its original".into());
                            }
                            check_ten("bystander", &by, &distinct(Sh::new(&[7], 1), 3), Tol::Exact)?;
                            let _ = &copy;
                        }
                    }
                    Ok(())
                },
            );
        }
    }
}

fn main() {
    run(
        Spec {
            id: "C24",
            level: "model_checking",
            rule: "every device-level function in the table, every assignment of its operands and destination to two \
                   devices, called on either device, for three pairs of backends; every operation with several operands \
                   in eager and graph form; every copy direction for every size within the bounds",
            assumptions: &["the source of a copy (copy_tensor, reset_tensor_by_tensor) may belong to another device"],
        },
        body,
    );
}

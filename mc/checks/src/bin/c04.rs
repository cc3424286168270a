//! C04: every allocation and kernel call of every operation fails in turn.
use mc_core::backend::*;
use mc_core::*;
use prima_undine::functions::{BasicFunctions, RandomDeviceFunctions};
use prima_undine::initializers as pi;
use prima_undine::optimizers as po;
use prima_undine::{Initializer, Node, Optimizer, Parameter, Shape};

fn bits(v: &[f32]) -> Vec<u32> {
    v.iter().map(|x| x.to_bits()).collect()
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Mode {
    Before,
    After,
    Scribble,
}

type Fault = (u64, Mode);

struct Ph {
    s: St,
    kern: Dev,
    plan: Vec<Fault>,
    /// attempts of the final, undisturbed run
    count: u64,
    unreached: bool,
    by: Vec<(Ten, Vec<u32>)>,
}

impl Ph {
    /// Reads a tensor without going through the device under test.
    fn peek(&self, t: &Ten) -> Vec<u32> {
        let mut v = vec![0.; Sh::of(t.shape()).size()];
        self.kern.call_fw_f32_impl("tensor_to_vector_impl", &[t], &[], &[], &mut v);
        bits(&v)
    }
    fn bystanders(&self) -> Result<(), String> {
        for (i, (t, v)) in self.by.iter().enumerate() {
            if self.peek(t) != *v {
                return Err(format!("bystander {} changed", i));
            }
        }
        let g = lk(&self.s);
        if let Some(e) = g.errors.first() {
            return Err(e.clone());
        }
        Ok(())
    }
    /// Runs the action once per planned fault, which must make it panic, then undisturbed.
    fn go(
        &mut self,
        prep: &mut dyn FnMut(),
        act: &mut dyn FnMut(),
        check: &mut dyn FnMut(&Ph) -> Result<(), String>,
    ) -> Result<(), String> {
        for (k, mode) in self.plan.clone() {
            prep();
            {
                let mut g = lk(&self.s);
                g.attempts = 0;
                g.fail_at = Some(k);
                g.fail_after = mode == Mode::After;
                g.scribble = mode == Mode::Scribble;
                g.failed = None;
            }
            let r = quiet(|| act());
            let what = {
                let mut g = lk(&self.s);
                g.fail_at = None;
                g.failed.take()
            };
            match (what, r) {
                (None, Err(e)) => return Err(format!("panic without a fault: {}", e)),
                (None, Ok(())) => {
                    self.unreached = true;
                    continue;
                }
                (Some(w), Ok(())) => return Err(format!("a failing {} was not reported", w)),
                (Some(w), Err(_)) => {
                    self.bystanders().map_err(|e| format!("after a failing {}: {}", w, e))?;
                    check(self).map_err(|e| format!("after a failing {}: {}", w, e))?;
                }
            }
        }
        prep();
        lk(&self.s).attempts = 0;
        quiet(|| act()).map_err(|e| format!("repeating it panics: {}", e))?;
        self.count = lk(&self.s).attempts;
        self.bystanders()?;
        check(self)
    }
}

type Scen<'a> = &'a dyn Fn(Dev, &mut Ph) -> Result<Vec<Vec<u32>>, String>;

/// Runs a scenario with a plan of faults; returns results, attempts and whether all faults happened.
fn once(kern: Dev, plan: &[Fault], sc: Scen) -> Result<(Vec<Vec<u32>>, u64, bool), String> {
    let s = st();
    let dv = Dv::from(tracked(&s, kern));
    let d = dv.d();
    let r = {
        let mut by = vec![];
        for (i, n) in [1u32, 65, 200].iter().enumerate() {
            let v = distinct(Sh::new(&[*n], 1), i as u64);
            by.push((ten(d, &v), bits(&v.f32s())));
        }
        let mut ph = Ph { s: s.clone(), kern, plan: plan.to_vec(), count: 0, unreached: false, by };
        let out = sc(d, &mut ph)?;
        ph.bystanders()?;
        (out, ph.count, !ph.unreached)
    };
    probe(d, &s)?;
    // the device still works
    let t = ten_const(d, Sh::new(&[100], 2), 0.25);
    if (&t + &t).to_vec() != vec![0.5; 200] {
        return Err("the device does not compute any more".into());
    }
    drop(t);
    drop(dv);
    let g = lk(&s);
    if let Some(e) = g.errors.first() {
        return Err(format!("dropping the device: {}", e));
    }
    if !g.live.is_empty() || g.allocs != g.frees {
        return Err("dropping the device did not release every buffer".into());
    }
    Ok(r)
}

fn faults(kern: Dev, sc: Scen, pairs: bool, rec: &mut Rec) -> Result<(), String> {
    let (clean, n, _) = once(kern, &[], sc)?;
    let modes = [Mode::Before, Mode::After, Mode::Scribble];
    let mut singles = vec![];
    for k in 1..=n {
        for m in modes {
            singles.push((k, m));
        }
    }
    let mut go = |plan: &[Fault]| -> Result<(), String> {
        let (got, _, reached) = once(kern, plan, sc).map_err(|e| format!("faults {:?}: {}", plan, e))?;
        if plan.len() == 1 && !reached {
            return Err(format!("harness: fault {:?} not reached", plan));
        }
        if got != clean {
            return Err(format!("faults {:?}: repeating the call gives {:x?} instead of {:x?}", plan, got, clean));
        }
        rec.step(1);
        rec.trace(1);
        rec.outcome(if reached { "fault" } else { "second fault not reached" });
        rec.state(hash64(&format!("{:?}{:?}", plan, rec.traces)));
        Ok(())
    };
    for a in &singles {
        go(&[*a])?;
    }
    if pairs && n <= 40 {
        for a in &singles {
            for b in &singles {
                if a.1 != Mode::Scribble && b.1 != Mode::After {
                    go(&[*a, *b])?;
                }
            }
        }
    }
    Ok(())
}

fn devfn(df: &DevFn) -> impl Fn(Dev, &mut Ph) -> Result<Vec<Vec<u32>>, String> + '_ {
    move |d, ph| {
        let xs: Vec<Ten> = df.operands.iter().enumerate().map(|(i, s)| ten(d, &spread(*s, 0.3, 2., i as u64))).collect();
        let before: Vec<Vec<u32>> = xs.iter().map(|x| ph.peek(x)).collect();
        let dr = df.dest.map(|s| spread(s, 0.3, 2., 40));
        let mut dest = dr.as_ref().map(|r| ten(d, r));
        let mut out: Vec<Vec<u32>> = vec![];
        {
            let dp = dest.as_mut().map(|t| t as *mut Ten);
            ph.go(
                &mut || {
                    if let (Some(t), Some(r)) = (dp, &dr) {
                        d.reset_tensor_by_slice(unsafe { &mut *t }, &r.f32s());
                    }
                },
                &mut || {
                    let xr: Vec<&Ten> = xs.iter().map(|x| forever(x)).collect();
                    let r = (df.call)(d, &xr, dp.map(|t| unsafe { &mut *t }));
                    out = match r {
                        Out::T(t) => {
                            let mut v = vec![0.; Sh::of(t.shape()).size()];
                            // random fills: only the shape is compared
                            if !df.name.starts_with("random") {
                                d.call_fw_f32_impl("tensor_to_vector_impl", &[&t], &[], &[], &mut v);
                            }
                            vec![bits(&v)]
                        }
                        Out::U(v) => vec![v],
                        Out::F(v) => vec![bits(&v)],
                        Out::Unit => vec![],
                    };
                },
                &mut |p| {
                    for (i, x) in xs.iter().enumerate() {
                        if p.peek(x) != before[i] {
                            return Err(format!("operand {} changed", i));
                        }
                    }
                    Ok(())
                },
            )?;
        }
        if let Some(t) = &dest {
            out.push(ph.peek(t));
        }
        Ok(out)
    }
}

fn eager(op: &Op, shapes: &[Sh]) -> impl Fn(Dev, &mut Ph) -> Result<Vec<Vec<u32>>, String> {
    let op = op.clone();
    let shapes = shapes.to_vec();
    move |d, ph| {
        let xs: Vec<Ten> = shapes.iter().enumerate().map(|(i, s)| ten(d, &spread(*s, 0.3, 2., i as u64))).collect();
        let before: Vec<Vec<u32>> = xs.iter().map(|x| ph.peek(x)).collect();
        let mut out = vec![];
        ph.go(
            &mut || {},
            &mut || {
                let xr: Vec<&Ten> = xs.iter().collect();
                out = op.eager(&xr).iter().map(|y| bits(&y.to_vec())).collect();
            },
            &mut |p| {
                for (i, x) in xs.iter().enumerate() {
                    if p.peek(x) != before[i] {
                        return Err(format!("operand {} changed", i));
                    }
                }
                Ok(())
            },
        )?;
        Ok(out)
    }
}

/// The programs that graph evaluation and differentiation are checked on.
type Prog = (&'static str, fn(&[Nd]) -> Vec<Nd>);
fn programs() -> Vec<Prog> {
    vec![
        ("chain", |l| {
            let a = l[0].tanh();
            let b = &a * &l[1];
            let c = b.sum(0);
            vec![a, b, c]
        }),
        ("diamond", |l| {
            let a = &l[0] + &l[1];
            let b = a.sin();
            let c = a.exp();
            let e = &b * &c;
            let f = (&e + &a).sum(0);
            vec![a, b, c, e, f]
        }),
        ("split", |l| {
            let a = &l[0] * &l[0];
            let p = a.split(0, 3);
            let q = (&p[0] * &p[2]).ln();
            let r = &q - &p[0];
            let mut v = vec![a];
            v.extend(p);
            v.push(q);
            v.push(r);
            v
        }),
        ("loss", |l| {
            let a = (&l[0] * 0.5).ln_softmax(0);
            let b = a.pick(&[1], 0);
            let c = -b;
            let e = c.batch_sum();
            vec![a, c, e]
        }),
        ("concat", |l| {
            let a = Node::concat(&[&l[0], &l[1], &l[0]], 0);
            let b = a.slice(0, 1, 5);
            let c = b.logsumexp(0);
            vec![a, b, c]
        }),
    ]
}

fn body(ctx: &mut Ctx) {
    mc_core::alloc::enable_guards();
    let kern = leaked_naive();
    let thorough = ctx.thorough();
    for df in dev_fns(thorough) {
        ctx.case(
            || format!("function {}", df.name),
            |rec| faults(kern, &devfn(&df), thorough, rec),
        );
    }
    for (op, shapes) in op_samples() {
        let name = format!("{} {}", op.show(), shapes.iter().map(|s| s.show()).collect::<Vec<_>>().join(","));
        ctx.case(
            || format!("operation {}", name),
            |rec| faults(kern, &eager(&op, &shapes), true, rec),
        );
        for back in [false, true] {
            ctx.case(
                || format!("operation {} {}", if back { "backward" } else { "graph" }, name),
                |rec| {
                    let sc = |d: Dev, ph: &mut Ph| -> Result<Vec<Vec<u32>>, String> {
                        let xs: Vec<Ten> =
                            shapes.iter().enumerate().map(|(i, s)| ten(d, &spread(*s, 0.3, 2., i as u64))).collect();
                        let before: Vec<Vec<u32>> = xs.iter().map(|x| ph.peek(x)).collect();
                        let ns: Vec<Nd> = xs.iter().map(|x| Node::from(forever(x))).collect();
                        let nr: Vec<&Nd> = ns.iter().collect();
                        let ys = op.node(&nr);
                        let mut out = vec![];
                        ph.go(
                            &mut || {},
                            &mut || {
                                if back {
                                    ys[0].backward();
                                } else {
                                    for y in &ys {
                                        y.forward();
                                    }
                                }
                            },
                            &mut |p| {
                                for (i, x) in xs.iter().enumerate() {
                                    if p.peek(x) != before[i] {
                                        return Err(format!("operand {} changed", i));
                                    }
                                }
                                Ok(())
                            },
                        )?;
                        for y in &ys {
                            out.push(bits(&y.to_vec()));
                        }
                        if back {
                            for n in &ns {
                                out.push(ph.peek(&forever(n).inner_gradient()));
                            }
                        }
                        Ok(out)
                    };
                    faults(kern, &sc, thorough, rec)
                },
            );
        }
    }
    // programs: a fault in the evaluation of one node, then evaluation of any other node first
    for (name, prog) in programs() {
        for target in 0..7 {
            for first in 0..7 {
                for stage in 0..3 {
                    ctx.case(
                        || format!("program {} target {} then {} stage {}", name, target, first, stage),
                        |rec| {
                            let shape = Sh::new(&[3], 2);
                            let sc = |d: Dev, ph: &mut Ph| -> Result<Vec<Vec<u32>>, String> {
                                let x = ten(d, &spread(shape, 0.3, 2., 1));
                                let mut w = d.new_parameter(Sh::new(&[3], 1).shape(), &pi::Constant::new(0.75));
                                let wv = ph.peek(forever(&w.value));
                                let wp = &mut w as *mut Parameter<'static>;
                                let leaves = vec![Node::from(forever(&x)), Node::from(unsafe { &mut *wp })];
                                let nodes = prog(&leaves);
                                if target >= nodes.len() || first >= nodes.len() {
                                    return Ok(vec![]);
                                }
                                let xb = ph.peek(&x);
                                let mut failed = false;
                                let mut out: Vec<Vec<u32>> = vec![];
                                ph.go(
                                    &mut || unsafe { (*wp).reset_gradient() },
                                    &mut || {
                                        if failed {
                                            nodes[first].to_vec();
                                        }
                                        failed = true;
                                        match stage {
                                            0 => nodes[target].forward(),
                                            1 => {
                                                nodes[target].to_vec();
                                            }
                                            _ => nodes[target].backward(),
                                        }
                                    },
                                    &mut |p| {
                                        if p.peek(&x) != xb || p.peek(unsafe { forever(&(*wp).value) }) != wv {
                                            return Err("an input changed".into());
                                        }
                                        Ok(())
                                    },
                                )?;
                                for n in &nodes {
                                    out.push(bits(&n.to_vec()));
                                }
                                if stage == 2 {
                                    out.push(ph.peek(unsafe { forever(&(*wp).gradient) }));
                                    out.push(ph.peek(&forever(&leaves[0]).inner_gradient()));
                                }
                                Ok(out)
                            };
                            faults(kern, &sc, thorough && stage != 1, rec)
                        },
                    );
                }
            }
        }
    }
    // parameters, models, moving and loading, optimizers
    ctx.case(
        || "parameter".to_string(),
        |rec| {
            let sc = |d: Dev, ph: &mut Ph| -> Result<Vec<Vec<u32>>, String> {
                let mut out = vec![];
                let k = ph.kern;
                let peek = |t: &Ten| {
                    let mut v = vec![0.; Sh::of(t.shape()).size()];
                    k.call_fw_f32_impl("tensor_to_vector_impl", &[t], &[], &[], &mut v);
                    bits(&v)
                };
                ph.go(
                    &mut || {},
                    &mut || {
                        let mut p = d.new_parameter(Shape::new(&[70], 1), &pi::Constant::new(2.));
                        p.add_stat("a", Shape::new(&[3], 1));
                        p.add_stat("b", Shape::new(&[300], 1));
                        p.reset_gradient();
                        let c = Ten::from(&mut p);
                        let a = Ten::from(forever(&c));
                        out = vec![peek(&p.value), peek(&p.gradient), peek(&p.stats["b"].borrow()), peek(&c), peek(&a)];
                    },
                    &mut |_| Ok(()),
                )?;
                Ok(out)
            };
            faults(kern, &sc, true, rec)
        },
    );
    ctx.case(
        || "life cycle".to_string(),
        |rec| {
            let sc = |d: Dev, ph: &mut Ph| -> Result<Vec<Vec<u32>>, String> {
                let mut out = vec![];
                ph.go(
                    &mut || {},
                    &mut || {
                        let mut t = Ten::new_host_tensor(Shape::new(&[2, 3], 1), vec![1., 2., 3., 4., 5., 6.]);
                        t.move_to_device(d);
                        let mut u = d.new_tensor(Shape::new(&[2, 3], 1));
                        u.alloc();
                        u.reset(4.);
                        let mut r = d.new_tensor(Shape::new(&[2, 3], 1));
                        r.replace(&t + &u);
                        r += &t;
                        r -= d.copy_tensor(&u);
                        r *= 3.;
                        let mut p: Parameter<'static> = serde_json::from_value(serde_json::json!({
                            "value": {"shape": [[2], 1], "values": [1., 2.]},
                            "gradient": {"shape": [[2], 1], "values": [3., 4.]},
                            "stats": {"s": {"shape": [[2], 1], "values": [5., 6.]}}
                        }))
                        .unwrap_or_else(|_| Parameter::new(
                            Ten::new_host_tensor(Shape::new(&[2], 1), vec![1., 2.]),
                            Ten::new_host_tensor(Shape::new(&[2], 1), vec![3., 4.]),
                        ));
                        p.move_to_device(d);
                        out = vec![bits(&r.to_vec()), bits(&p.value.to_vec()), bits(&p.gradient.to_vec())];
                    },
                    &mut |_| Ok(()),
                )?;
                Ok(out)
            };
            faults(kern, &sc, true, rec)
        },
    );
    for shape in [Sh::new(&[], 1), Sh::new(&[2, 3], 1), Sh::new(&[33], 2), Sh::new(&[64], 1)] {
        for twice in [false, true] {
            ctx.case(
                || format!("moving {} {}", shape.show(), twice),
                |rec| {
                    let sc = |d: Dev, ph: &mut Ph| -> Result<Vec<Vec<u32>>, String> {
                        let other = leaked_naive();
                        let v = spread(shape, -2., 2., 3).f32s();
                        let mut t = Ten::new_host_tensor(shape.shape(), v.clone());
                        let p = &mut t as *mut Ten;
                        // after a failed move the tensor can still be moved, also to another device
                        let moved = std::cell::Cell::new(false);
                        let plan = ph.plan.len();
                        ph.go(
                            &mut || {
                                if moved.replace(false) {
                                    *unsafe { &mut *p } = Ten::new_host_tensor(shape.shape(), v.clone());
                                }
                            },
                            &mut || {
                                unsafe { &mut *p }.move_to_device(d);
                                moved.set(true);
                            },
                            &mut |_| Ok(()),
                        )?;
                        if twice && plan > 0 {
                            let mut u = Ten::new_host_tensor(shape.shape(), v.clone());
                            let p = &mut u as *mut Ten;
                            {
                                let mut g = lk(&ph.s);
                                g.attempts = 0;
                                g.fail_at = Some(ph.plan[0].0);
                                g.fail_after = ph.plan[0].1 == Mode::After;
                                g.scribble = ph.plan[0].1 == Mode::Scribble;
                            }
                            let r = quiet(|| unsafe { &mut *p }.move_to_device(d));
                            lk(&ph.s).fail_at = None;
                            if r.is_ok() {
                                return Err("a failing move was not reported".into());
                            }
                            quiet(|| unsafe { &mut *p }.move_to_device(other))
                                .map_err(|e| format!("moving it to another device panics: {}", e))?;
                            if u.to_vec() != v {
                                return Err("moved to another device it has other values".into());
                            }
                        }
                        Ok(vec![bits(&t.to_vec())])
                    };
                    faults(kern, &sc, true, rec)
                },
            );
        }
    }
    ctx.case(
        || "allocation of one tensor".to_string(),
        |rec| {
            let sc = |d: Dev, ph: &mut Ph| -> Result<Vec<Vec<u32>>, String> {
                let mut t = d.new_tensor(Shape::new(&[9], 1));
                let p = &mut t as *mut Ten;
                ph.go(
                    &mut || {},
                    &mut || {
                        let t = unsafe { &mut *p };
                        if !t.valid() {
                            t.alloc();
                        }
                        t.reset(2.);
                    },
                    &mut |_| Ok(()),
                )?;
                Ok(vec![bits(&t.to_vec())])
            };
            faults(kern, &sc, true, rec)
        },
    );
    for kind in 0..3 {
        ctx.case(
            || format!("optimizer {}", kind),
            |rec| {
                let sc = |d: Dev, ph: &mut Ph| -> Result<Vec<Vec<u32>>, String> {
                    let mut ps: Vec<Parameter<'static>> = (0..2u32)
                        .map(|i| d.new_parameter(Shape::new(&[3 + 70 * i], 1), &pi::Constant::new(0.5 + i as f32)))
                        .collect();
                    let pp = &mut ps as *mut Vec<Parameter<'static>>;
                    fn train<O: Optimizer>(mut q: O, ps: &mut [Parameter<'static>]) {
                        q.set_weight_decay(0.1);
                        q.set_gradient_clipping(0.5);
                        let mut v: Vec<&mut Parameter> = ps.iter_mut().collect();
                        q.configure_parameters(&mut v);
                        q.update_parameters(&mut v);
                        for p in v.iter_mut() {
                            p.gradient.reset(0.3);
                        }
                        q.update_parameters(&mut v);
                    }
                    ph.go(
                        &mut || {
                            for (i, p) in unsafe { (*pp).iter_mut() }.enumerate() {
                                p.value.reset(0.5 + i as f32);
                                p.gradient.reset(0.25);
                                p.stats.clear();
                            }
                        },
                        &mut || {
                            let ps = unsafe { &mut *pp };
                            match kind {
                                0 => train(po::SGD::new(0.1), ps),
                                1 => train(po::MomentumSGD::new(0.1, 0.9), ps),
                                _ => train(po::Adam::new(0.1, 0.9, 0.99, 1e-8), ps),
                            }
                        },
                        &mut |_| Ok(()),
                    )?;
                    let mut out = vec![];
                    for p in &ps {
                        out.push(bits(&p.value.to_vec()));
                        out.push(bits(&p.gradient.to_vec()));
                        let mut k: Vec<&String> = p.stats.keys().collect();
                        k.sort();
                        for k in k {
                            out.push(bits(&p.stats[k].borrow().to_vec()));
                        }
                    }
                    Ok(out)
                };
                faults(kern, &sc, thorough, rec)
            },
        );
    }
    // invalid distribution arguments on the bundled device itself
    let bad: Vec<(&str, Box<dyn Fn(Dev) -> Ten>)> = vec![
        ("bernoulli -0.1", Box::new(|d| d.random_bernoulli(Shape::new(&[5], 2), -0.1))),
        ("bernoulli 1.5", Box::new(|d| d.random_bernoulli(Shape::new(&[5], 2), 1.5))),
        ("bernoulli NaN", Box::new(|d| d.random_bernoulli(Shape::new(&[5], 2), f32::NAN))),
        ("uniform 1 1", Box::new(|d| d.random_uniform(Shape::new(&[5], 2), 1., 1.))),
        ("uniform 2 1", Box::new(|d| d.random_uniform(Shape::new(&[5], 2), 2., 1.))),
        ("normal sd -1", Box::new(|d| d.random_normal(Shape::new(&[5], 2), 0., -1.))),
        (
            "uniform initializer 1 1",
            Box::new(|d| {
                let mut t = d.new_tensor(Shape::new(&[5], 1));
                pi::Uniform::new(1., 1.).apply(&mut t);
                t
            }),
        ),
        (
            "normal initializer",
            Box::new(|d| d.new_parameter(Shape::new(&[5], 1), &pi::Normal::new(0., -2.)).value.tanh()),
        ),
        (
            "xavier initializer",
            Box::new(|d| d.new_parameter(Shape::new(&[5, 2, 2], 1), &pi::XavierUniform::new(1.)).value.tanh()),
        ),
    ];
    for seq in 0..bad.len() * bad.len() {
        let (a, b) = (seq / bad.len(), seq % bad.len());
        ctx.case(
            || format!("invalid arguments {} then {}", bad[a].0, bad[b].0),
            |rec| {
                for track in [false, true] {
                    let s = st();
                    let kern2 = leaked_naive();
                    let dv = if track { Dv::from(tracked(&s, kern2)) } else { Dv::naive() };
                    let d = dv.d();
                    {
                        let t = ten_const(d, Sh::new(&[5], 2), 3.);
                        for i in [a, b, a, b, b] {
                            if !panics(|| bad[i].1(d)) {
                                return Err(format!("{} accepted", bad[i].0));
                            }
                            if t.to_vec() != vec![3.; 10] {
                                return Err("a bystander changed".into());
                            }
                            let z = d.random_bernoulli(Shape::new(&[70], 1), 1.).to_vec();
                            let u = d.random_uniform(Shape::new(&[70], 1), 1., 2.).to_vec();
                            let n = d.random_normal(Shape::new(&[70], 1), 1., 2.).to_vec();
                            if z != vec![1.; 70] || u.iter().any(|x| !(1. ..2.).contains(x)) || n.iter().any(|x| !x.is_finite()) {
                                return Err("a valid fill afterwards is wrong".into());
                            }
                            if (&t + &t).to_vec() != vec![6.; 10] {
                                return Err("an operation afterwards is wrong".into());
                            }
                            rec.step(1);
                        }
                    }
                    if track {
                        probe(d, &s)?;
                    }
                }
                Ok(())
            },
        );
    }
}

fn main() {
    run(
        Spec {
            id: "C04",
            level: "model_checking",
            rule: "for every device function, every operation (eager, evaluated in a graph, differentiated), small graph \
                   programs (every node evaluated first afterwards), parameters, loading and optimizers: each allocation \
                   and each kernel call fails in turn (before it ran, after it ran, after scribbling over its result), and \
                   pairs of failures in successive attempts; bystanders and operands compared, the call repeated and \
                   compared bitwise with an undisturbed run, all storage accounted for; invalid distribution arguments in pairs",
            assumptions: &["a panic is caught by the caller before it uses the device again"],
        },
        body,
    );
}

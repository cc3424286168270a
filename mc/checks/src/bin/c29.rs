//! C29: nothing leaks. Every program is repeated on one device, and over the whole life of a device, while
//! the blocks and bytes in use on the heap are counted.
use mc_core::alloc::{in_use, COUNT};
use mc_core::arch::{archs, Arch};
use mc_core::backend::*;
use mc_core::dag::{all_progs, big_progs, real_sets, Prog};
use mc_core::*;
use prima_undine::functions::BasicFunctions;
use prima_undine::initializers::{Constant, Uniform, XavierUniform};
use prima_undine::optimizers::{Adam, MomentumSGD, SGD};
use prima_undine::{Model, Node, Optimizer, Parameter, Shape, Tensor};
use prima_undine_contrib::functions::ContribFunctions;
use serde::{Deserialize, Serialize};
use std::sync::atomic::Ordering;

#[derive(Model, Serialize, Deserialize)]
struct Net<'dev> {
    ps: Vec<Parameter<'dev>>,
}

type Run<'a> = Box<dyn FnMut() -> Result<(), String> + 'a>;
/// What one life of a device consists of: set up, then something to repeat.
type Scene<'a> = &'a dyn Fn(Dev, &St) -> Run<'a>;

const REPS: i64 = 16;

fn life(kern: Option<Dev>, scene: Scene, long: i64) -> Result<(), String> {
    let s = st();
    let mut dv = match kern {
        None => Dv::naive(),
        Some(k) => Dv::from(tracked(&s, k)),
    };
    {
        let mut run = scene(dv.d(), &s);
        for _ in 0..4 {
            run()?;
        }
        let (reps, a) = (REPS.max(long), lk(&s).allocs);
        let was = in_use();
        for _ in 0..reps {
            run()?;
        }
        let now = in_use();
        // every repetition that keeps something keeps at least one block, or adds to one
        if now.0 - was.0 >= reps {
            return Err(format!("{} repetitions leave {} more blocks in use", reps, now.0 - was.0));
        }
        if long > 0 && now.1 - was.1 >= 4 * reps {
            return Err(format!("{} repetitions leave {} more bytes in use", reps, now.1 - was.1));
        }
        let b = lk(&s).allocs;
        if a != b {
            return Err(format!("{} repetitions took {} buffers more from the backend", reps, b - a));
        }
    }
    dv.mutate();
    drop(dv);
    if kern.is_some() {
        let g = lk(&s);
        if !g.live.is_empty() || g.frees != g.allocs || !g.closed {
            return Err(format!("of {} buffers {} went back when the device was dropped", g.allocs, g.frees));
        }
    }
    Ok(())
}

fn scene(kern: Option<Dev>, long: i64, rec: &mut Rec, f: Scene) -> Result<(), String> {
    // what is allocated once per process is allocated now
    life(kern, f, 0)?;
    rec.heartbeat();
    let was = in_use();
    life(kern, f, long)?;
    let now = in_use();
    rec.step(2 * (4 + REPS) as u64 + long as u64);
    if now != was {
        return Err(format!("after the device and everything on it is gone, {} blocks ({} bytes) more are in use", now.0 - was.0, now.1 - was.1));
    }
    Ok(())
}

fn operand(s: Sh, i: usize) -> R {
    spread(s, 0.3, 2., i as u64)
}

/// Nodes of a program, only those that value `top` needs unless it is None.
fn nodes(d: Dev, p: &Prog, xs: &[Ten], ps: &mut [Parameter<'static>], top: Option<usize>) -> Vec<Option<Nd>> {
    let cone = top.map(|t| p.cone(t));
    let mut v: Vec<Option<Nd>> = vec![];
    let mut k = 0;
    for (i, s) in p.leaves.iter().enumerate() {
        v.push(Some(match i % 3 {
            0 if s.b == 1 && k < ps.len() => {
                k += 1;
                Node::from(forever_mut(&mut ps[k - 1]))
            }
            1 => Node::from(ten(d, &operand(*s, i))),
            _ => Node::from(forever(&xs[i])),
        }));
    }
    for st in &p.steps {
        if cone.as_ref().map_or(false, |c| (st.first..st.first + st.outs).all(|i| !c[i])) {
            v.extend((0..st.outs).map(|_| None));
            continue;
        }
        let o = {
            let a: Vec<&Nd> = st.args.iter().map(|&i| v[i].as_ref().unwrap()).collect();
            st.op.node(&a)
        };
        v.extend(o.into_iter().map(Some));
    }
    v
}

fn params(d: Dev, p: &Prog) -> Vec<Parameter<'static>> {
    let mut v = vec![];
    for (i, s) in p.leaves.iter().enumerate() {
        if i % 3 == 0 && s.b == 1 {
            let mut q = d.new_parameter(s.shape(), &Constant::new(0.));
            d.reset_tensor_by_slice(&mut q.value, &operand(*s, i).f32s());
            v.push(q);
        }
    }
    v
}

/// Evaluates and differentiates the program, then drops its nodes in some order.
fn program<'a>(d: Dev, p: &'a Prog, tops: &'a [usize]) -> Run<'a> {
    {
        let xs: Vec<Ten> = p.leaves.iter().enumerate().map(|(i, s)| ten(d, &operand(*s, i))).collect();
        let mut ps = params(d, p);
        Box::new(move || {
            for &top in tops {
                for order in 0..4 {
                    let mut v = nodes(d, p, &xs, &mut ps, None);
                    let n = v.len();
                    if order != 3 {
                        v[top].as_ref().unwrap().backward();
                    }
                    if order == 0 {
                        v[top].as_ref().unwrap().backward();
                    }
                    for i in 0..n {
                        let j = match order {
                            0 => i,
                            1 => n - 1 - i,
                            _ => (i * 2 + if 2 * i >= n { 1 - n % 2 } else { 0 }) % n,
                        };
                        v[j] = None;
                    }
                }
            }
            Ok(())
        })
    }
}

/// Buffers in use on a tracked device: those that exist less those it can still hand out.
fn used(d: Dev, s: &St) -> usize {
    let n = lk(s).live.len();
    let mut hs = vec![];
    let mut free = 0;
    let classes: std::collections::BTreeSet<u32> = lk(s).live.values().cloned().collect();
    for c in classes {
        loop {
            let before = lk(s).allocs;
            hs.push(d.new_handle(c));
            if lk(s).allocs != before {
                break;
            }
            free += 1;
        }
    }
    for h in &hs {
        d.drop_handle(h);
    }
    n - free
}

/// A node holds just what it needs: as many buffers as if nothing else had ever been built.
fn holds(kern: Dev, p: &Prog, rec: &mut Rec) -> Result<(), String> {
    for top in 0..p.shapes.len() {
        let mut got = vec![];
        for alone in [false, true] {
            let s = st();
            let dv = Dv::from(tracked(&s, kern));
            let d = dv.d();
            {
                let xs: Vec<Ten> = p.leaves.iter().enumerate().map(|(i, s)| ten(d, &operand(*s, i))).collect();
                let mut ps = params(d, p);
                let mut v = nodes(d, p, &xs, &mut ps, if alone { Some(top) } else { None });
                for n in v.iter().rev().flatten() {
                    n.forward();
                }
                let value = v[top].as_ref().unwrap().to_vec();
                let keep = v[top].take().unwrap();
                if alone {
                    v.clear();
                } else {
                    for i in 0..v.len() {
                        v[i] = None;
                    }
                }
                got.push(used(d, &s));
                if keep.to_vec().iter().map(|x| x.to_bits()).ne(value.iter().map(|x| x.to_bits())) {
                    return Err(format!("value {} changed when the other nodes were dropped", top));
                }
                keep.backward();
                drop(keep);
            }
            probe(d, &s)?;
            drop(dv);
        }
        rec.step(1);
        // leaves that the value does not need are also gone from the second graph
        if got[0] != got[1] {
            return Err(format!("holding value {} alone keeps {} buffers, though {} are needed", top, got[0], got[1]));
        }
    }
    Ok(())
}

fn training<'a, O: Optimizer + 'static>(d: Dev, a: &'a Arch, mk: fn() -> O, fresh: bool) -> Run<'a> {
    {
        let p = &a.progs[0];
        let new = move || {
            let mut net = Box::new(Net { ps: vec![] });
            for i in 0..a.np {
                let mut q = d.new_parameter(p.leaves[i].shape(), &Constant::new(0.));
                d.reset_tensor_by_slice(&mut q.value, &spread(p.leaves[i], -0.5, 0.5, i as u64).f32s());
                net.ps.push(q);
            }
            let mut o = mk();
            o.set_weight_decay(0.125);
            o.set_gradient_clipping(0.5);
            o.configure_model(&mut *net);
            (net, o)
        };
        let mut state = new();
        let xs: Vec<Vec<Box<Ten>>> = a
            .progs
            .iter()
            .map(|p| (a.np..p.leaves.len()).map(|i| Box::new(ten(d, &spread(p.leaves[i], -1., 1., i as u64)))).collect())
            .collect();
        let mut round = 0;
        Box::new(move || {
            if fresh {
                state = new();
            }
            round += 1;
            for (n, p) in a.progs.iter().enumerate() {
                {
                    let mut v: Vec<Nd> = vec![];
                    for q in state.0.parameters_mut() {
                        v.push(Node::from(forever_mut(q)));
                    }
                    for x in &xs[n] {
                        v.push(Node::from(forever(&**x)));
                    }
                    for s in &p.steps {
                        let o = {
                            let a: Vec<&Nd> = s.args.iter().map(|&i| &v[i]).collect();
                            s.op.node(&a)
                        };
                        v.extend(o);
                    }
                    let loss = v[a.loss].batch_mean();
                    if !loss.to_float().is_finite() {
                        return Err("harness: the loss is not finite".into());
                    }
                    loss.backward();
                }
                state.1.update_model(&mut *state.0);
            }
            if fresh {
                let text = serde_json::to_string(&*state.0).map_err(|e| e.to_string())?;
                let mut other: Net<'static> = serde_json::from_str(&text).map_err(|e| e.to_string())?;
                other.move_to_device(d);
                state.1.configure_model(&mut other);
                // cut short anywhere, loading fails
                let cut = text.len() * 3 / 5;
                if serde_json::from_str::<Net<'static>>(&text[..cut]).is_ok() {
                    return Err("a truncated model loads".into());
                }
                for q in other.parameters_mut() {
                    let t: Ten = Tensor::from(forever_mut(q));
                    let _ = t.flatten().argmax(0);
                }
            }
            Ok(())
        })
    }
}

fn body(ctx: &mut Ctx) {
    COUNT.store(true, Ordering::SeqCst);
    let kern = leaked_naive();
    // device functions
    for df in dev_fns(true) {
        for on in [None, Some(kern)] {
            ctx.case(
                || format!("device function {} {:?} {}", df.name, df.operands.iter().map(|s| s.show()).collect::<Vec<_>>(), on.is_some()),
                |rec| {
                    scene(on, 0, rec, &|d, _| {
                        let xs: Vec<Ten> = df.operands.iter().enumerate().map(|(i, s)| ten(d, &operand(*s, i))).collect();
                        let df = &df;
                        Box::new(move || {
                            let mut dest = df.dest.map(|s| ten(d, &operand(s, 40)));
                            let xr: Vec<&Ten> = xs.iter().collect();
                            drop((df.call)(d, &xr, dest.as_mut()));
                            Ok(())
                        })
                    })
                },
            );
        }
    }
    // operations, eager and in graphs, also failing at every call of the backend
    for (op, shapes) in op_samples() {
        let eager = |d: Dev| -> Result<(), String> {
            let xs: Vec<Ten> = shapes.iter().enumerate().map(|(i, s)| ten(d, &operand(*s, i))).collect();
            let xr: Vec<&Ten> = xs.iter().collect();
            drop(op.eager(&xr));
            Ok(())
        };
        let graph = |d: Dev| -> Result<(), String> {
            let xs: Vec<Ten> = shapes.iter().enumerate().map(|(i, s)| ten(d, &operand(*s, i))).collect();
            let ns: Vec<Nd> = xs.iter().enumerate().map(|(i, x)| if i % 2 == 0 { Node::from(forever(x)) } else { Node::from(ten(d, &operand(shapes[i], i))) }).collect();
            let nr: Vec<&Nd> = ns.iter().collect();
            let ys = op.node(&nr);
            let last = ys.last().unwrap();
            let z = last * 2.;
            z.to_vec();
            ys[0].backward();
            z.backward();
            z.backward();
            Ok(())
        };
        let forms: [(&str, &dyn Fn(Dev) -> Result<(), String>); 2] = [("eager", &eager), ("graph", &graph)];
        for (name, f) in forms {
            for on in [None, Some(kern)] {
                ctx.case(
                    || format!("{} {} {:?} {}", name, op.show(), shapes.iter().map(|s| s.show()).collect::<Vec<_>>(), on.is_some()),
                    |rec| scene(on, 0, rec, &|d, _| Box::new(move || f(d))),
                );
            }
            ctx.case(
                || format!("{} {} {:?} failing", name, op.show(), shapes.iter().map(|s| s.show()).collect::<Vec<_>>()),
                |rec| {
                    scene(Some(kern), 0, rec, &|d, s| {
                        let s = s.clone();
                        let a = lk(&s).attempts;
                        f(d).ok();
                        let n = lk(&s).attempts - a;
                        Box::new(move || {
                            for k in 1..=n {
                                for after in [false, true] {
                                    {
                                        let mut g = lk(&s);
                                        g.fail_at = Some(g.attempts + k);
                                        g.fail_after = after;
                                        g.failed = None;
                                    }
                                    let r = quiet(|| f(d));
                                    let mut g = lk(&s);
                                    g.fail_at = None;
                                    if r.is_ok() && g.failed.is_some() {
                                        return Err("a failure went unnoticed".into());
                                    }
                                }
                            }
                            Ok(())
                        })
                    })
                },
            );
        }
    }
    // rejected operands
    let alphabet = [Sh::new(&[], 1), Sh::new(&[2], 2), Sh::new(&[3], 3), Sh::new(&[2, 3], 2), Sh::new(&[3, 3], 1), Sh::new(&[1, 1, 2], 1)];
    for (op, shapes) in op_samples() {
        let n = shapes.len();
        for code in 0..alphabet.len().pow(n.min(2) as u32) {
            let s: Vec<Sh> = (0..n).map(|i| if i < 2 { alphabet[code / alphabet.len().pow(i as u32) % alphabet.len()] } else { shapes[i] }).collect();
            if op.judge(&s) != Verdict::Reject {
                continue;
            }
            ctx.case(
                || format!("rejected {} {:?}", op.show(), s.iter().map(|s| s.show()).collect::<Vec<_>>()),
                |rec| {
                    scene(None, 0, rec, &|d, _| {
                        let xs: Vec<Ten> = s.iter().enumerate().map(|(i, s)| ten(d, &operand(*s, i))).collect();
                        let op = &op;
                        Box::new(move || {
                            let xr: Vec<&Ten> = xs.iter().collect();
                            let r = quiet(|| drop(op.eager(&xr)));
                            let g = quiet(|| {
                                let ns: Vec<Nd> = xs.iter().map(|x| Node::from(forever(x))).collect();
                                let nr: Vec<&Nd> = ns.iter().collect();
                                for y in op.node(&nr) {
                                    y.to_vec();
                                }
                            });
                            if r.is_ok() || g.is_ok() {
                                return Err("operands that do not fit are accepted".into());
                            }
                            Ok(())
                        })
                    })
                },
            );
        }
    }
    // programs
    let thorough = ctx.thorough();
    let mut k = 0u64;
    for (si, (leaves, un, bin, n)) in real_sets(thorough).iter().enumerate() {
        all_progs(leaves, un, bin, *n, 12, &mut |p| {
            k += 1;
            if !thorough && si < 2 && k % 3 != 0 {
                return;
            }
            let last = p.shapes.len() - 1;
            let tops = [last];
            ctx.case(|| format!("program {} {}", si, p.show()), |rec| scene(None, 0, rec, &|d, _| program(d, p, &tops)));
            if thorough || k % 12 == 0 || si == 2 {
                ctx.case(|| format!("held {} {}", si, p.show()), |rec| holds(kern, p, rec));
            }
        });
    }
    for (name, p, roots) in big_progs(thorough) {
        ctx.case(|| format!("program {}", name), |rec| scene(None, 0, rec, &|d, _| program(d, &p, &roots)));
    }
    // trainings
    for a in archs(thorough) {
        ctx.case(|| format!("training {} SGD", a.name), |rec| scene(None, 0, rec, &|d, _| training(d, &a, || SGD::new(0.01), true)));
        ctx.case(|| format!("training {} MomentumSGD", a.name), |rec| scene(None, 0, rec, &|d, _| training(d, &a, || MomentumSGD::new(0.01, 0.5), true)));
        ctx.case(|| format!("training {} Adam", a.name), |rec| scene(Some(kern), 0, rec, &|d, _| training(d, &a, || Adam::new(0.01, 0.9, 0.99, 0.1), true)));
        ctx.case(
            || format!("training {} for long", a.name),
            |rec| scene(None, 3000, rec, &|d, _| training(d, &a, || Adam::new(0.0001, 0.9, 0.99, 0.1), false)),
        );
    }
    // handles, initializers, tensors that live on while others come and go
    for (name, f) in misc() {
        for on in [None, Some(kern)] {
            ctx.case(|| format!("{} {}", name, on.is_some()), |rec| scene(on, 2000, rec, &|d, _| Box::new(move || f(d))));
        }
    }
}

type Misc = fn(Dev) -> Result<(), String>;
fn misc() -> Vec<(&'static str, Misc)> {
    vec![
        ("initializers", |d| {
            drop(d.new_parameter(Shape::new(&[2, 3], 1), &Constant::new(1.)));
            drop(d.new_parameter(Shape::new(&[2, 3], 1), &Uniform::new(0., 1.)));
            drop(d.new_parameter(Shape::new(&[2, 3], 1), &XavierUniform::new(1.)));
            if quiet(|| drop(d.new_parameter(Shape::new(&[2, 3, 2], 1), &XavierUniform::new(1.)))).is_ok() {
                return Err("XavierUniform takes three axes".into());
            }
            Ok(())
        }),
        ("life cycle", |d| {
            let s = Shape::new(&[3], 1);
            let a = d.new_tensor_by_slice(s, &[1., 2., 3.]);
            let mut b: Ten = d.new_tensor(s);
            b.alloc();
            drop(b);
            let mut c: Ten = d.new_tensor(s);
            c.refer(forever(&a));
            drop(c);
            let mut e: Ten = d.new_tensor(s);
            e.replace(d.copy_tensor(&a));
            let mut h: Ten = Tensor::new_host_tensor(s, vec![1., 2., 3.]);
            h.move_to_device(d);
            drop(Tensor::<'static>::new_host_tensor(s, vec![1.]));
            let mut w: Ten = Tensor::new_host_tensor(s, vec![1.]);
            let _ = quiet(|| w.move_to_device(d));
            let _ = quiet(|| e.alloc());
            let _ = quiet(|| d.new_tensor_by_slice(s, &[1., 2.]));
            let _ = quiet(|| d.reset_tensor_by_slice(&mut e, &[1., 2.]));
            let _ = quiet(|| e.replace(d.copy_tensor(&a)));
            let _ = quiet(|| e.refer(forever(&a)));
            let _ = quiet(|| d.new_handle(0));
            Ok(())
        }),
        ("statistics", |d| {
            let mut p = d.new_parameter(Shape::new(&[2], 1), &Constant::new(1.));
            p.add_stat("a", Shape::new(&[2], 1));
            p.add_stat("b", Shape::new(&[65], 1));
            let _ = quiet(|| p.add_stat("a", Shape::new(&[2], 1)));
            p.reset_gradient();
            let t = serde_json::to_string(&p).unwrap();
            let q: Parameter<'static> = serde_json::from_str(&t).unwrap();
            drop(q);
            Ok(())
        }),
        ("many sizes", |d| {
            let mut keep = vec![];
            for i in 0..12u32 {
                keep.push(d.new_tensor_by_constant(Shape::new(&[1 + i * 37], 1), 1.));
                if i % 3 == 2 {
                    keep.remove(0);
                }
            }
            Ok(())
        }),
        ("unevaluated graphs", |d| {
            let x: Nd = Node::from(d.new_tensor_by_constant(Shape::new(&[4], 1), 1.));
            let y = x.tanh();
            let s = y.split(0, 2);
            let z = &s[0] + &s[1];
            drop(y);
            drop(s);
            drop(x);
            drop(z);
            Ok(())
        }),
        ("dropout and normalisation", |d| {
            let x: Nd = Node::from(d.new_tensor_by_slice(Shape::new(&[2], 2), &[1., 2., 3., 5.]));
            x.dropout(0.5, true).backward();
            x.dropout(1., true).to_vec();
            x.batch_mean().tanh().backward();
            x.mean(0).batch_mean().backward();
            Ok(())
        }),
        ("a long chain", |d| {
            let mut x: Nd = Node::from(d.new_tensor_by_constant(Shape::new(&[1], 1), 1.));
            for _ in 0..40 {
                x = &x + &x.sin();
            }
            x.backward();
            Ok(())
        }),
    ]
}

fn main() {
    run(
        Spec {
            id: "C29",
            level: "model_checking",
            rule: "every device function and operation (eager, in a graph, failing at every call of the backend, with operands that do not fit), every program of 2 (3) operations under four orders of dropping its nodes, large programs, trainings of thirteen architectures with saving and loading, and life cycle calls: repeated 16 to 3000 times on one device while heap blocks, bytes and backend buffers are counted, and over the whole life of a device; every node of every program held alone",
            assumptions: &["what one repetition keeps shows in the sixteenth: programs do not depend on how often they ran"],
        },
        body,
    );
}

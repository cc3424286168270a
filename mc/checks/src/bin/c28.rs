//! C28: whole trainings. Every history of gradient computations, updates, evaluations, saving, moving
//! and changes of settings up to a depth, for models of every architecture in a table, against the chain
//! rule and the published update rules in double precision.
use mc_core::arch::{archs, Arch};
use mc_core::dag::near_tie;
use mc_core::optim::{Rule, M};
use mc_core::*;
use prima_undine::functions::BasicFunctions;
use prima_undine::initializers::Constant;
use prima_undine::optimizers::{Adam, MomentumSGD, SGD};
use prima_undine::{Model, Node, Parameter, Tensor};
use prima_undine_contrib::functions::ContribFunctions;
use serde::{Deserialize, Serialize};

#[derive(Model, Serialize, Deserialize)]
struct Net<'dev> {
    first: Parameter<'dev>,
    rest: Vec<Parameter<'dev>>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum A {
    /// loss on batch n, backward, update
    Fit(usize),
    /// loss on batch n and backward
    Grad(usize),
    /// two calls of backward on one graph
    Twice(usize),
    Update,
    /// predictions and losses, eager and in a graph
    Eval(usize),
    /// save the model and load it, on the same device or another one
    Save,
    Move,
    Reset,
    Decay,
    Clip,
    Scale,
}

fn data(s: Sh, leaf: usize, n: usize) -> R {
    spread(s, -1.2, 1.2, 31 + 7 * leaf as u64 + 100 * n as u64)
}

struct Run<'a, O: Rule> {
    devs: [Dev; 2],
    at: usize,
    arch: &'a Arch,
    cfg: usize,
    net: Box<Net<'static>>,
    o: O,
    m: M,
    /// the data of every batch on the present device
    xs: Vec<Vec<Box<Ten>>>,
    rs: Vec<Vec<R>>,
}

impl<'a, O: Rule> Run<'a, O> {
    fn new(devs: [Dev; 2], arch: &'a Arch, cfg: usize) -> Run<'a, O> {
        let d = devs[0];
        let mut ps = vec![];
        let mut m = M { v: vec![], g: vec![], s: vec![], epoch: 0, scale: 1., decay: 0., clip: 0., big: 0. };
        for i in 0..arch.np {
            let r = spread(arch.progs[0].leaves[i], -0.9, 0.9, 5 + i as u64);
            let mut p = d.new_parameter(r.s.shape(), &Constant::new(0.));
            d.reset_tensor_by_slice(&mut p.value, &r.f32s());
            ps.push(p);
            m.v.push(r.f32s().iter().map(|x| *x as f64).collect());
            m.g.push(vec![0.; r.v.len()]);
            m.s.push(vec![[0.; 2]; r.v.len()]);
        }
        let rest = ps.split_off(1);
        let net = Box::new(Net { first: ps.pop().unwrap(), rest });
        let rs = arch
            .progs
            .iter()
            .enumerate()
            .map(|(n, p)| {
                (arch.np..p.leaves.len())
                    .map(|i| {
                        let r = data(p.leaves[i], i, n);
                        R::of_f32(r.s, &r.f32s())
                    })
                    .collect()
            })
            .collect();
        let mut r = Run { devs, at: 0, arch, cfg, net, o: O::make(cfg), m, xs: vec![], rs };
        r.upload();
        r.o.configure_model(&mut *r.net);
        // steps small enough that no model saturates: gradients stay well conditioned
        r.m.scale = 0.125;
        r.o.set_learning_rate_scaling(0.125);
        r
    }
    fn upload(&mut self) {
        let d = self.devs[self.at];
        self.xs = self.rs.iter().map(|v| v.iter().map(|r| Box::new(ten(d, r))).collect()).collect();
    }
    fn leaves(&self, n: usize) -> Vec<R> {
        let p = &self.arch.progs[n];
        let mut l: Vec<R> = (0..self.arch.np).map(|i| R::new(p.leaves[i], self.m.v[i].clone())).collect();
        l.extend(self.rs[n].iter().cloned());
        l
    }
    fn graph(&mut self, n: usize) -> Vec<Nd> {
        let mut v: Vec<Nd> = vec![];
        for p in self.net.parameters_mut() {
            v.push(Node::from(forever_mut(p)));
        }
        for x in &self.xs[n] {
            v.push(Node::from(forever(&**x)));
        }
        for s in &self.arch.progs[n].steps {
            let o = {
                let a: Vec<&Nd> = s.args.iter().map(|&i| &v[i]).collect();
                s.op.node(&a)
            };
            v.extend(o);
        }
        v
    }
    /// `calls` backward calls on one graph; the model's gradient and then the real one
    fn gradient(&mut self, n: usize, calls: usize, rec: &mut Rec) -> Result<(), String> {
        let leaves = self.leaves(n);
        let prog = &self.arch.progs[n];
        let vals = prog.reference(&leaves);
        let g = prog.grads(&vals, self.arch.loss);
        let count = vals[self.arch.loss].s.b as f64;
        {
            let nodes = self.graph(n);
            let loss = nodes[self.arch.loss].batch_mean();
            for _ in 0..calls {
                loss.backward();
            }
            let exp = vals[self.arch.loss].v.iter().sum::<f64>() / count;
            compare("the loss", &[loss.to_float()], &[exp], Tol::Rel(1e-4, 1.))?;
        }
        let tie = near_tie(prog, &leaves);
        if tie {
            rec.outcome("nearly tied maximum");
        }
        for i in 0..self.arch.np {
            let was = self.m.g[i].clone();
            let (mut e, mut m) = (was.clone(), vec![0f64; was.len()]);
            for t in 0..e.len() {
                e[t] += calls as f64 * g[i].0[t] / count;
                m[t] = was[t].abs().max(calls as f64 * g[i].1[t] / count).max(0.05);
            }
            if !tie {
                let got = self.net.parameters()[i].gradient.to_vec();
                compare_grad(&format!("gradient of parameter {}", i), &got, &e, &m, false)?;
            }
            self.m.g[i] = e;
        }
        self.sync_gradients(!tie)
    }
    /// from here on the model continues with what is there, so that rounding does not add up
    fn sync_gradients(&mut self, nonzero: bool) -> Result<(), String> {
        for (i, p) in self.net.parameters().iter().enumerate() {
            let got = p.gradient.to_vec();
            if nonzero && got.iter().any(|x| !x.is_finite()) {
                return Err(format!("gradient of parameter {} is {:?}", i, got));
            }
            self.m.g[i] = got.iter().map(|x| *x as f64).collect();
        }
        Ok(())
    }
    fn values(&mut self, tol: Tol) -> Result<(), String> {
        for (i, p) in self.net.parameters().iter().enumerate() {
            let got = p.value.to_vec();
            compare(&format!("value of parameter {}", i), &got, &self.m.v[i], tol)?;
            self.m.v[i] = got.iter().map(|x| *x as f64).collect();
        }
        Ok(())
    }
    fn update(&mut self) -> Result<(), String> {
        self.o.update_model(&mut *self.net);
        let all: Vec<usize> = (0..self.arch.np).collect();
        self.m.update::<O>(self.cfg, &all);
        self.values(Tol::Rel(3e-5, self.m.big.max(1.)))
    }
    fn eval(&mut self, n: usize) -> Result<(), String> {
        let leaves = self.leaves(n);
        let prog = &self.arch.progs[n];
        let vals = prog.reference(&leaves);
        let mut e: Vec<Ten> = vec![];
        for p in self.net.parameters_mut() {
            e.push(Tensor::from(forever_mut(p)));
        }
        for x in &self.xs[n] {
            e.push(Tensor::from(forever(&**x)));
        }
        for s in &prog.steps {
            let o = {
                let a: Vec<&Ten> = s.args.iter().map(|&i| &e[i]).collect();
                s.op.eager(&a)
            };
            e.extend(o);
        }
        let big = vals.iter().fold(1f64, |m, r| r.v.iter().fold(m, |m, x| m.max(x.abs())));
        let nodes = self.graph(n);
        for k in [self.arch.pred, self.arch.loss] {
            check_ten(&format!("eager value {}", k), &e[k], &vals[k], Tol::Rel(1e-4, big))?;
            check_node(&format!("graph value {}", k), &nodes[k], &vals[k], Tol::Rel(1e-4, big))?;
        }
        let exp = vals[self.arch.loss].v.iter().sum::<f64>() / vals[self.arch.loss].s.b as f64;
        compare("the eager loss", &[e[self.arch.loss].batch_mean().to_float()], &[exp], Tol::Rel(1e-4, big))
    }
    fn act(&mut self, a: A, rec: &mut Rec) -> Result<(), String> {
        match a {
            A::Fit(n) => {
                self.gradient(n, 1, rec)?;
                self.update()?;
            }
            A::Grad(n) => self.gradient(n, 1, rec)?,
            A::Twice(n) => self.gradient(n, 2, rec)?,
            A::Update => self.update()?,
            A::Eval(n) => self.eval(n)?,
            A::Save | A::Move => {
                let text = serde_json::to_string(&*self.net).map_err(|e| e.to_string())?;
                self.net = Box::new(serde_json::from_str(&text).map_err(|e| e.to_string())?);
                if a == A::Move {
                    self.at = 1 - self.at;
                    self.upload();
                }
                self.net.move_to_device(self.devs[self.at]);
                self.o.configure_model(&mut *self.net);
            }
            A::Reset => {
                for p in self.net.parameters_mut() {
                    p.reset_gradient();
                }
                for g in self.m.g.iter_mut() {
                    g.iter_mut().for_each(|x| *x = 0.);
                }
            }
            A::Decay => {
                self.m.decay = if self.m.decay == 0. { 0.125 } else { 0. };
                self.o.set_weight_decay(self.m.decay as f32);
            }
            A::Clip => {
                self.m.clip = if self.m.clip == 0. { 0.75 } else { 0. };
                self.o.set_gradient_clipping(self.m.clip as f32);
            }
            A::Scale => {
                self.m.scale *= 0.5;
                self.o.set_learning_rate_scaling(self.m.scale as f32);
            }
        }
        rec.step(1);
        // nothing changed except what the action is for
        self.values(Tol::Exact)?;
        for (i, p) in self.net.parameters().iter().enumerate() {
            compare(&format!("gradient of parameter {}", i), &p.gradient.to_vec(), &self.m.g[i], Tol::Exact)?;
        }
        if *self.o.epoch() != self.m.epoch {
            return Err(format!("step counter {} instead of {}", *self.o.epoch(), self.m.epoch));
        }
        Ok(())
    }
}

fn history<O: Rule>(devs: [Dev; 2], arch: &Arch, cfg: usize, acts: &[A], rec: &mut Rec) -> Result<(), String> {
    let mut r = Run::<O>::new(devs, arch, cfg);
    for (n, a) in acts.iter().enumerate() {
        r.act(*a, rec).map_err(|e| format!("action {} of {:?}: {}", n, &acts[..=n][n.saturating_sub(6)..], e))?;
        rec.heartbeat();
    }
    rec.trace(1);
    rec.state(hash64(&format!("{} {} {} {:?}", O::name(), arch.name, cfg, acts)));
    Ok(())
}

fn walk<O: Rule>(devs: [Dev; 2], arch: &Arch, cfg: usize, alpha: &[A], depth: usize, cur: &mut Vec<A>, rec: &mut Rec) -> Result<(), String> {
    if cur.len() == depth {
        return history::<O>(devs, arch, cfg, cur, rec);
    }
    for a in alpha {
        cur.push(*a);
        walk::<O>(devs, arch, cfg, alpha, depth, cur, rec)?;
        cur.pop();
    }
    Ok(())
}

fn all<O: Rule>(ctx: &mut Ctx, devs: [Dev; 2], archs: &[Arch]) {
    let mut alpha = vec![
        A::Fit(0),
        A::Fit(1),
        A::Grad(0),
        A::Twice(1),
        A::Update,
        A::Eval(0),
        A::Save,
        A::Move,
        A::Reset,
        A::Decay,
        A::Clip,
    ];
    if ctx.thorough() {
        alpha.extend([A::Grad(2), A::Eval(1), A::Scale]);
    }
    let depth = ctx.pick(3, 4);
    for arch in archs {
        for cfg in 0..2 {
            for a in &alpha {
                for b in &alpha {
                    ctx.case(
                        || format!("{} {} {} {:?} {:?}", O::name(), cfg, arch.name, a, b),
                        |rec| walk::<O>(devs, arch, cfg, &alpha, depth, &mut vec![*a, *b], rec),
                    );
                }
            }
            // long trainings: settings change at one point, a checkpoint or a move at another
            for mix in 0..8usize {
                ctx.case(
                    || format!("{} {} {} long {}", O::name(), cfg, arch.name, mix),
                    |rec| {
                        let n = if mix % 3 == 1 { 60 } else { 24 };
                        let mut acts = vec![];
                        for i in 0..n {
                            if i == 5 && mix & 1 == 1 {
                                acts.push(A::Decay);
                            }
                            if i == 9 && mix & 2 == 2 {
                                acts.extend([A::Clip, A::Save]);
                            }
                            if i % 6 == 4 && mix & 4 == 4 {
                                acts.extend([A::Move, A::Eval(1), A::Grad(1)]);
                            }
                            if i == 14 {
                                acts.push(A::Scale);
                            }
                            acts.push(A::Fit(i * (mix + 1) / 3 % 2));
                        }
                        history::<O>(devs, arch, cfg, &acts, rec)
                    },
                );
            }
        }
    }
}

fn body(ctx: &mut Ctx) {
    let devs = [leaked_naive(), leaked_naive()];
    let archs = archs(ctx.thorough());
    all::<SGD>(ctx, devs, &archs);
    all::<MomentumSGD>(ctx, devs, &archs);
    all::<Adam>(ctx, devs, &archs);
}

fn main() {
    run(
        Spec {
            id: "C28",
            level: "model_checking",
            rule: "thirteen architectures x SGD, MomentumSGD, Adam with two settings each x every history of 3 (4) actions over 11 (14) (losses on batches of different size with one or two backward calls, updates, eager and graph evaluation, saving and loading on the same and on another device, resetting, decay, clipping, scaling), and trainings of up to 60 steps with such actions in between; after every action values, gradients and step counter are compared with reverse accumulation and the published update rules in double precision",
            assumptions: &["gradients through maxima that are tied within rounding are not compared"],
        },
        body,
    );
}

//! C17: optimizers. Every history of gradients, settings, updates of all or some parameters and
//! reconfigurations up to a depth, against the published update rules in double precision.
use mc_core::optim::{Rule, M};
use mc_core::*;
use prima_undine::functions::BasicFunctions;
use prima_undine::initializers::Constant;
use prima_undine::optimizers::{Adam, MomentumSGD, SGD};
use prima_undine::{Model, Node, Optimizer, Parameter};

#[derive(Clone, Copy, Debug, PartialEq)]
enum A {
    /// accumulate gradient pattern n through a graph
    Grad(u8),
    /// gradient pattern n, then update everything
    Step(u8),
    /// update all parameters / the first / all but the first / none, through slices
    Update,
    UpdateFirst,
    UpdateRest,
    UpdateNone,
    /// as a model
    UpdateModel,
    /// update_parameter with a scale of its own on the last parameter (gradient stays)
    One(u8),
    Scale(u8),
    Decay(u8),
    Clip(u8),
    Reconf,
    Epoch(u8),
}

const SCALES: [f32; 3] = [1., 0.5, 0.];
const DECAYS: [f32; 2] = [0., 0.25];
const CLIPS: [f32; 3] = [0., 1., 2.5];
const EPOCHS: [u32; 2] = [0, 6];

struct Set {
    ps: Vec<Parameter<'static>>,
}

impl Model<'static> for Set {
    fn parameters(&self) -> Vec<&Parameter<'static>> {
        self.ps.iter().collect()
    }
    fn parameters_mut(&mut self) -> Vec<&mut Parameter<'static>> {
        self.ps.iter_mut().collect()
    }
}

fn value(s: Sh, i: usize) -> R {
    spread(s, -2., 2., 11 + i as u64)
}

fn grad(s: Sh, i: usize, n: u8) -> R {
    let salt = 100 * n as u64 + 17 * i as u64;
    match n {
        0 => spread(s, -1., 1., salt),
        1 => R::new(s, vec![0.; s.size()]),
        // small, large
        2 => spread(s, -0.004, 0.003, salt),
        3 => spread(s, -60., 40., salt),
        _ => spread(s, 0.2, 0.6, salt),
    }
}

fn apply<O: Rule>(d: Dev, cfg: usize, set: &mut Set, o: &mut O, m: &mut M, shs: &[Sh], a: A) {
    let all: Vec<usize> = (0..shs.len()).collect();
    match a {
        A::Grad(n) | A::Step(n) => {
            for (i, s) in shs.iter().enumerate() {
                let r = grad(*s, i, n);
                let w = ten(d, &r);
                {
                    let p: Nd = Node::from(forever_mut(&mut set.ps[i]));
                    (p * Node::from(forever(&w))).flatten().sum(0).backward();
                }
                for e in 0..r.v.len() {
                    m.g[i][e] += r.v[e];
                }
            }
            if let A::Step(_) = a {
                o.update_parameters(&mut set.ps.iter_mut().collect::<Vec<_>>());
                m.update::<O>(cfg, &all);
            }
        }
        A::Update => {
            o.update_parameters(&mut set.ps.iter_mut().collect::<Vec<_>>());
            m.update::<O>(cfg, &all);
        }
        A::UpdateFirst => {
            o.update_parameters(&mut [&mut set.ps[0]]);
            m.update::<O>(cfg, &all[..1]);
        }
        A::UpdateRest => {
            o.update_parameters(&mut set.ps[1..].iter_mut().collect::<Vec<_>>());
            m.update::<O>(cfg, &all[1..]);
        }
        A::UpdateNone => {
            o.update_parameters(&mut []);
            m.update::<O>(cfg, &[]);
        }
        A::UpdateModel => {
            o.update_model(set);
            m.update::<O>(cfg, &all);
        }
        A::One(k) => {
            let i = shs.len() - 1;
            o.update_parameter(SCALES[k as usize], &mut set.ps[i]);
            let t = m.epoch + 1;
            m.one::<O>(cfg, i, SCALES[k as usize] as f64, t);
        }
        A::Scale(k) => {
            o.set_learning_rate_scaling(SCALES[k as usize]);
            m.scale = SCALES[k as usize] as f64;
        }
        A::Decay(k) => {
            o.set_weight_decay(DECAYS[k as usize]);
            m.decay = DECAYS[k as usize] as f64;
        }
        A::Clip(k) => {
            o.set_gradient_clipping(CLIPS[k as usize]);
            m.clip = CLIPS[k as usize] as f64;
        }
        A::Reconf => {
            if m.epoch % 2 == 0 {
                o.configure_model(set);
            } else {
                o.configure_parameters(&mut set.ps.iter_mut().collect::<Vec<_>>());
            }
        }
        A::Epoch(k) => {
            *o.epoch() = EPOCHS[k as usize];
            m.epoch = EPOCHS[k as usize];
        }
    }
}

fn check<O: Rule>(set: &Set, o: &mut O, m: &M, acts: &[A]) -> Result<(), String> {
    let tail = &acts[acts.len().saturating_sub(8)..];
    let ctx = |e: String| format!("after {} actions, the last {:?}: {}", acts.len(), tail, e);
    // every step rounds
    let tol = 2e-5 * (1. + acts.len() as f64 / 200.);
    if *o.epoch() != m.epoch {
        return Err(ctx(format!("step counter {} instead of {}", *o.epoch(), m.epoch)));
    }
    for (what, got, exp) in [
        ("scaling", o.get_learning_rate_scaling(), m.scale),
        ("decay", o.get_weight_decay(), m.decay),
        ("clipping", o.get_gradient_clipping(), m.clip),
    ] {
        if got as f64 != exp {
            return Err(ctx(format!("{} is {} instead of {}", what, got, exp)));
        }
    }
    for (i, p) in set.ps.iter().enumerate() {
        compare(&format!("value of parameter {}", i), &p.value.to_vec_any(), &m.v[i], Tol::Rel(tol, m.big.max(1.)))
            .map_err(ctx)?;
        if m.g[i].iter().all(|x| *x == 0.) {
            if p.gradient.to_vec_any().iter().any(|x| *x != 0.) {
                return Err(ctx(format!("gradient of parameter {} is not zero", i)));
            }
        } else {
            let gm = m.g[i].iter().fold(0f64, |a, x| a.max(x.abs()));
            compare(&format!("gradient of parameter {}", i), &p.gradient.to_vec_any(), &m.g[i], Tol::Rel(1e-5, gm))
                .map_err(ctx)?;
        }
    }
    Ok(())
}

fn history<O: Rule>(d: Dev, cfg: usize, shs: &[Sh], acts: &[A], every: bool, rec: &mut Rec) -> Result<(), String> {
    let classes: Vec<u32> = shs.iter().map(|s| class_of(s.size())).collect();
    let mut o = O::make(cfg);
    let mut set = Set { ps: vec![] };
    let mut m =
        M { v: vec![], g: vec![], s: vec![], epoch: 0, scale: 1., decay: 0., clip: 0., big: 0. };
    for (i, s) in shs.iter().enumerate() {
        let r = value(*s, i);
        let mut p = d.new_parameter(s.shape(), &Constant::new(0.));
        d.reset_tensor_by_slice(&mut p.value, &r.f32s());
        set.ps.push(p);
        m.g.push(vec![0.; r.v.len()]);
        m.s.push(vec![[0.; 2]; r.v.len()]);
        m.v.push(r.v);
    }
    poison(d, &classes, 3, f32::NAN);
    o.configure_parameters(&mut set.ps.iter_mut().collect::<Vec<_>>());
    for (n, a) in acts.iter().enumerate() {
        if n == acts.len() - 1 || every {
            poison(d, &classes, 3, f32::NAN);
        }
        apply::<O>(d, cfg, &mut set, &mut o, &mut m, shs, *a);
        if every {
            check::<O>(&set, &mut o, &m, &acts[..=n])?;
        }
    }
    check::<O>(&set, &mut o, &m, acts)?;
    rec.step(acts.len() as u64);
    rec.trace(1);
    rec.state(hash64(&format!("{} {} {:?} {:?}", O::name(), cfg, shs.len(), acts)));
    Ok(())
}

fn walk<O: Rule>(
    d: Dev,
    cfg: usize,
    shs: &[Sh],
    alpha: &[A],
    depth: usize,
    cur: &mut Vec<A>,
    rec: &mut Rec,
) -> Result<(), String> {
    history::<O>(d, cfg, shs, cur, false, rec)?;
    rec.heartbeat();
    if cur.len() < depth {
        for a in alpha {
            cur.push(*a);
            walk::<O>(d, cfg, shs, alpha, depth, cur, rec)?;
            cur.pop();
        }
    }
    Ok(())
}

fn opt<O: Rule>(ctx: &mut Ctx, d: Dev) {
    let sets: Vec<Vec<Sh>> = vec![
        vec![Sh::new(&[3], 1)],
        vec![Sh::new(&[2, 2], 1), Sh::new(&[], 1)],
        vec![Sh::new(&[2], 1), Sh::new(&[5, 13], 1), Sh::new(&[1, 1, 3], 1)],
    ];
    let depth = ctx.pick(4, 5);
    for cfg in 0..2 {
        for (si, shs) in sets.iter().enumerate() {
            let mut alpha = vec![
                A::Grad(0),
                A::Step(0),
                A::Step(3),
                A::Step(2),
                A::Update,
                A::Scale(1),
                A::Decay(1),
                A::Decay(0),
                A::Clip(1),
                A::Clip(0),
                A::Reconf,
                A::Epoch(1),
                A::One(1),
            ];
            if si > 0 {
                alpha.push(A::UpdateFirst);
                alpha.push(A::UpdateRest);
            }
            if ctx.thorough() {
                alpha.extend([A::Scale(2), A::Clip(2), A::UpdateModel, A::Epoch(0)]);
            }
            for a in &alpha {
                for b in &alpha {
                    ctx.case(
                        || format!("{} {} set {} {:?} {:?}", O::name(), cfg, si, a, b),
                        |rec| walk::<O>(d, cfg, shs, &alpha, depth, &mut vec![*a, *b], rec),
                    );
                }
            }
            let rare = [
                A::Step(4), A::Step(1), A::Grad(3), A::UpdateNone, A::UpdateModel, A::Scale(0), A::Scale(2), A::Clip(2),
                A::Epoch(0), A::One(0), A::Update, A::Reconf, A::Grad(2),
            ];
            for a in &rare {
                ctx.case(
                    || format!("{} {} set {} rare {:?}", O::name(), cfg, si, a),
                    |rec| walk::<O>(d, cfg, shs, &rare, 3, &mut vec![*a], rec),
                );
            }
            // long trainings
            for n in [10, 40, ctx.pick(400, 2000)] {
                for mix in 0..6u32 {
                    ctx.case(
                        || format!("{} {} set {} long {} {}", O::name(), cfg, si, n, mix),
                        |rec| {
                            let mut acts = vec![];
                            if mix & 1 == 1 {
                                acts.push(A::Decay(1));
                            }
                            if mix & 2 == 2 {
                                acts.push(A::Clip(1));
                            }
                            for i in 0..n {
                                acts.push(A::Step([0, 4, 2, 1][(i * (1 + mix as usize) / 3) % 4]));
                                if mix == 5 && i % 7 == 3 {
                                    acts.push(A::Scale((i % 2) as u8));
                                }
                            }
                            history::<O>(d, cfg, shs, &acts, true, rec)
                        },
                    );
                }
            }
        }
    }
}

/// Sets of many parameters and of large parameters: every short history.
fn wide<O: Rule>(ctx: &mut Ctx, d: Dev) {
    let mut sets: Vec<Vec<Sh>> = vec![
        (0..12).map(|i| Sh::new(&[1 + i % 3, 1 + i % 2], 1)).collect(),
        (0..33).map(|i| Sh::new(&[1 + i % 2], 1)).collect(),
        (0..70).map(|_| Sh::new(&[], 1)).collect(),
        (0..300).map(|i| Sh::new(&[1, 1 + i % 2], 1)).collect(),
        vec![Sh::new(&[5003], 1), Sh::new(&[3], 1), Sh::new(&[67, 67], 1)],
        vec![Sh::new(&[2, 3], 1), Sh::new(&[1, 9001], 1)],
        // parameters of every rank
        (0..=8).map(|n| Sh::new(&(0..n).map(|k| if k + 2 >= n { 2 } else { 1 }).collect::<Vec<_>>(), 1)).collect(),
        vec![Sh::new(&[1, 2, 1, 1, 2], 1), Sh::new(&[2, 1, 1, 1, 1, 1, 1, 3], 1), Sh::new(&[2; 6], 1)],
    ];
    if ctx.thorough() {
        sets.push((0..1030).map(|_| Sh::new(&[2], 1)).collect());
        sets.push(vec![Sh::new(&[70001], 1), Sh::new(&[2, 2, 2, 2, 2, 2, 2], 1)]);
    }
    let mut alpha = vec![A::Step(0), A::Update, A::UpdateFirst, A::UpdateRest, A::UpdateModel, A::Grad(3), A::Clip(1), A::Decay(1), A::Scale(1), A::Reconf];
    if ctx.thorough() {
        alpha.extend([A::One(1), A::Epoch(1), A::Step(2)]);
    }
    for cfg in 0..2 {
        for (si, shs) in sets.iter().enumerate() {
            for a in &alpha {
                for b in &alpha {
                    ctx.case(
                        || format!("{} {} wide {} {:?} {:?}", O::name(), cfg, si, a, b),
                        |rec| {
                            for c in [A::Step(0), A::UpdateRest, A::Grad(2)] {
                                history::<O>(d, cfg, shs, &[A::Grad(0), *a, *b, c], false, rec)?;
                                rec.heartbeat();
                            }
                            history::<O>(d, cfg, shs, &[*a, *b, A::Step(3), A::Step(0)], true, rec)
                        },
                    );
                }
            }
        }
    }
}

fn body(ctx: &mut Ctx) {
    let d = leaked_naive();
    wide::<SGD>(ctx, d);
    wide::<MomentumSGD>(ctx, d);
    wide::<Adam>(ctx, d);
    opt::<SGD>(ctx, d);
    opt::<MomentumSGD>(ctx, d);
    opt::<Adam>(ctx, d);
    // clipping compares the joint norm of all parameters
    for n in 1..=3usize {
        for k in 0..=16u32 {
            ctx.case(
                || format!("norm {} {}", n, k),
                |rec| {
                    // exact: every parameter has gradient norm 3, 4, 12 -> joint 3, 5, 13
                    let g = [3f32, 4., 12.];
                    let joint = [3f32, 5., 13.][n - 1];
                    let thr = k as f32;
                    let mut ps: Vec<Parameter<'static>> =
                        (0..n).map(|_| d.new_parameter(Sh::new(&[2], 1).shape(), &Constant::new(0.))).collect();
                    for (i, p) in ps.iter_mut().enumerate() {
                        d.reset_tensor_by_slice(&mut p.gradient, &[0., g[i]]);
                    }
                    let mut o = SGD::new(1.);
                    use prima_undine::OptimizerBase;
                    o.set_gradient_clipping(thr);
                    o.update_parameters(&mut ps.iter_mut().collect::<Vec<_>>());
                    for (i, p) in ps.iter().enumerate() {
                        let e = if thr > 0. && joint > thr { g[i] * thr / joint } else { g[i] };
                        compare(&format!("parameter {}", i), &p.value.to_vec_any(), &[0., -e as f64], Tol::Rel(1e-6, 1.))?;
                    }
                    rec.step(1);
                    Ok(())
                },
            );
        }
    }
}

fn main() {
    run(
        Spec {
            id: "C17",
            level: "model_checking",
            rule: "SGD, MomentumSGD, Adam with two settings each x three parameter sets x every history to depth 4 (5) over 13-19 actions (gradients through graphs, updates of all or some parameters, settings, reconfiguring, step counter) compared after each with the update rules in double precision, plus trainings of up to 400 (2000) steps and every short history over sets of up to 300 parameters and parameters of thousands of elements",
            assumptions: &["parameters are configured before their first update"],
        },
        body,
    );
}

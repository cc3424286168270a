//! C30: an element of an operand influences just the results that depend on it. Every element in turn is
//! replaced by special values, and everything that does not depend on it has to stay as it was.
use mc_core::arch::archs;
use mc_core::dag::{all_progs, big_progs, build, real_sets, Prog, Step};
use mc_core::sh::Sh;
use mc_core::*;
use prima_undine::functions::BasicFunctions;
use prima_undine::initializers::Constant;
use prima_undine::optimizers::{Adam, MomentumSGD, SGD};
use prima_undine::{Node, Optimizer, Parameter};

type Set = Vec<u64>;
fn join(a: &mut Set, b: &Set) {
    if a.len() < b.len() {
        a.resize(b.len(), 0);
    }
    for (x, y) in a.iter_mut().zip(b) {
        *x |= *y;
    }
}
fn only(i: usize) -> Set {
    let mut s = vec![0; i / 64 + 1];
    s[i / 64] |= 1 << (i % 64);
    s
}
fn has(s: &Set, i: usize) -> bool {
    s.get(i / 64).map_or(false, |w| w >> (i % 64) & 1 == 1)
}

/// A number with the set of inputs it was computed from.
#[derive(Clone)]
struct Dp {
    v: f64,
    g: Set,
}
impl Num for Dp {
    fn c(x: f64) -> Dp {
        Dp { v: x, g: vec![] }
    }
    fn v(&self) -> f64 {
        self.v
    }
    fn add(&self, o: &Dp) -> Dp {
        self.bin(o, self.v + o.v, 1., 1.)
    }
    fn scale(&self, k: f64) -> Dp {
        Dp { v: self.v * k, g: self.g.clone() }
    }
    fn un(&self, f: f64, _: f64) -> Dp {
        Dp { v: f, g: self.g.clone() }
    }
    fn bin(&self, o: &Dp, f: f64, _: f64, _: f64) -> Dp {
        let mut g = self.g.clone();
        join(&mut g, &o.g);
        Dp { v: f, g }
    }
}

/// For every output element the elements of the operands (numbered through) it depends on.
fn local(op: &Op, shapes: &[Sh]) -> Vec<Vec<Set>> {
    let mut n = 0;
    let xs: Vec<Rt<Dp>> = shapes
        .iter()
        .map(|s| {
            let v = (0..s.size()).map(|i| Dp { v: 1., g: only(n + i) }).collect();
            n += s.size();
            Rt { s: *s, v }
        })
        .collect();
    let xr: Vec<&Rt<Dp>> = xs.iter().collect();
    // which element is the greatest depends on all of them
    let ys = match op {
        Op::Max(d) | Op::Min(d) => Op::Sum(*d).eval(&xr),
        _ => op.eval(&xr),
    };
    ys.into_iter().map(|y| y.v.into_iter().map(|e| e.g).collect()).collect()
}

struct Deps {
    /// for every value and element the elements of leaves it depends on
    values: Vec<Vec<Set>>,
    local: Vec<Vec<Vec<Set>>>,
}

fn members(s: &Set) -> impl Iterator<Item = usize> + '_ {
    s.iter().enumerate().flat_map(|(k, w)| (0..64).filter(move |b| w >> b & 1 == 1).map(move |b| k * 64 + b))
}

fn deps(p: &Prog) -> Deps {
    let mut n = 0;
    let mut values: Vec<Vec<Set>> = vec![];
    for s in &p.leaves {
        values.push((0..s.size()).map(|i| only(n + i)).collect());
        n += s.size();
    }
    let mut locals = vec![];
    for s in &p.steps {
        let shapes: Vec<Sh> = s.args.iter().map(|&a| p.shapes[a]).collect();
        let l = local(&s.op, &shapes);
        for y in &l {
            values.push(
                y.iter()
                    .map(|e| {
                        let mut g = vec![];
                        for m in members(e) {
                            let (a, i) = split_index(&shapes, m);
                            join(&mut g, &values[s.args[a]][i]);
                        }
                        g
                    })
                    .collect(),
            );
        }
        locals.push(l);
    }
    Deps { values, local: locals }
}

fn split_index(shapes: &[Sh], mut m: usize) -> (usize, usize) {
    for (k, s) in shapes.iter().enumerate() {
        if m < s.size() {
            return (k, m);
        }
        m -= s.size();
    }
    unreachable!()
}

/// The same for the gradients of every value when `root` is differentiated.
fn grad_deps(p: &Prog, d: &Deps, root: usize) -> Vec<Vec<Set>> {
    let cone = p.cone(root);
    let mut g: Vec<Vec<Set>> = p.shapes.iter().map(|s| vec![vec![]; s.size()]).collect();
    for (n, s) in p.steps.iter().enumerate().rev() {
        if (s.first..s.first + s.outs).all(|i| !cone[i]) {
            continue;
        }
        let shapes: Vec<Sh> = s.args.iter().map(|&a| p.shapes[a]).collect();
        for o in 0..s.outs {
            for (j, e) in d.local[n][o].iter().enumerate() {
                let mut all = g[s.first + o][j].clone();
                join(&mut all, &d.values[s.first + o][j]);
                for m in members(e) {
                    let (a, i) = split_index(&shapes, m);
                    let mut t = std::mem::take(&mut g[s.args[a]][i]);
                    join(&mut t, &all);
                    g[s.args[a]][i] = t;
                }
            }
        }
    }
    g
}

type Out = Vec<Vec<f32>>;

/// Values (eager, then graph) and gradients of all values that `root` needs.
fn execute(d: Dev, p: &Prog, leaves: &[R], root: usize, grads: bool) -> (Out, Out, Out) {
    let mut eager: Vec<Ten> = leaves.iter().map(|r| ten(d, r)).collect();
    for s in &p.steps {
        let o = {
            let a: Vec<&Ten> = s.args.iter().map(|&i| &eager[i]).collect();
            s.op.eager(&a)
        };
        eager.extend(o);
    }
    let b = build(d, p, leaves);
    let values = b.nodes.iter().map(|n| n.to_vec()).collect();
    let mut g = vec![];
    if grads {
        b.nodes[root].backward();
        for (n, c) in b.nodes.iter().zip(p.cone(root)) {
            g.push(if c { n.inner_gradient().to_vec() } else { vec![] });
        }
    }
    (eager.iter().map(|t| t.to_vec()).collect(), values, g)
}

fn same(a: f32, b: f32) -> bool {
    a == b || a.is_nan() && b.is_nan() || (a - b).abs() <= 1e-6 * a.abs()
}

fn unaffected(what: &str, k: usize, was: &Out, now: &Out, may: &[Vec<Set>]) -> Result<(), String> {
    for v in 0..was.len() {
        if was[v].len() != now[v].len() {
            return Err(format!("{} {}: {} elements instead of {}", what, v, now[v].len(), was[v].len()));
        }
        for i in 0..was[v].len() {
            if !same(was[v][i], now[v][i]) && !has(&may[v][i], k) {
                return Err(format!("{} {} element {} does not depend on it and changes from {:?} to {:?}", what, v, i, was[v][i], now[v][i]));
            }
        }
    }
    Ok(())
}

const SPECIAL: [f32; 9] = [f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MAX, f32::MIN, 0., -0., 1e-40, -3.5];

/// Operations whose results are not numbers when an element they depend on is none.
fn strict(op: &Op) -> bool {
    use Op::*;
    !matches!(op, Max(_) | Min(_) | Pow | Powf(_) | Powi(0))
}

/// A NaN is passed on by everything that computes with it.
fn passed_on(p: &Prog, dep: &Deps, k: usize, now: &Out) -> Result<(), String> {
    let mut ok = vec![true; p.shapes.len()];
    for s in &p.steps {
        let good = strict(&s.op) && s.args.iter().all(|&a| ok[a]);
        for v in s.first..s.first + s.outs {
            ok[v] = good;
            if good {
                for (i, y) in now[v].iter().enumerate() {
                    if has(&dep.values[v][i], k) && !y.is_nan() {
                        return Err(format!("value {} element {} hides it: {:?}", v, i, y));
                    }
                }
            }
        }
    }
    Ok(())
}

fn check(d: Dev, p: &Prog, roots: &[usize], special: &[f32], grads: bool, rec: &mut Rec) -> Result<(), String> {
    let dep = deps(p);
    let leaves: Vec<R> = p.leaves.iter().enumerate().map(|(i, s)| spread(*s, 0.3, 1.9, i as u64)).collect();
    for &root in roots {
        let gd = if grads { grad_deps(p, &dep, root) } else { vec![] };
        let base = execute(d, p, &leaves, root, grads);
        let mut k = 0;
        for l in 0..leaves.len() {
            for i in 0..leaves[l].v.len() {
                for &x in special {
                    let mut other = leaves.clone();
                    other[l].v[i] = x as f64;
                    let now = execute(d, p, &other, root, grads);
                    let at = |e: String| format!("{:?} as element {} of operand {}: {}", x, i, l, e);
                    unaffected("value", k, &base.0, &now.0, &dep.values).map_err(&at)?;
                    unaffected("value in the graph", k, &base.1, &now.1, &dep.values).map_err(&at)?;
                    if x.is_nan() {
                        passed_on(p, &dep, k, &now.0).map_err(&at)?;
                        passed_on(p, &dep, k, &now.1).map_err(&at)?;
                        // also by zeros
                        for r in &mut other {
                            r.v.iter_mut().for_each(|y| *y = if y.is_nan() { *y } else { 0. });
                        }
                        let now = execute(d, p, &other, root, false);
                        passed_on(p, &dep, k, &now.0).map_err(|e| format!("among zeros: {}", at(e)))?;
                        passed_on(p, &dep, k, &now.1).map_err(|e| format!("among zeros: {}", at(e)))?;
                    }
                    if grads {
                        unaffected("gradient of value", k, &base.2, &now.2, &gd).map_err(&at)?;
                    }
                    rec.step(1);
                }
                rec.state(hash64(&(p.show(), root, l, i)));
                k += 1;
            }
            rec.heartbeat();
        }
    }
    Ok(())
}

/// The operation and products of its results with weights, which become the gradients of the results.
fn single(op: &Op, shapes: &[Sh]) -> Option<(Prog, Vec<usize>)> {
    let outs = match op.judge(shapes) {
        Verdict::Accept(o) => o,
        _ => return None,
    };
    let n = shapes.len();
    let mut leaves = shapes.to_vec();
    leaves.extend(&outs);
    let mut all = leaves.clone();
    all.extend(&outs);
    all.extend(&outs);
    let first = leaves.len();
    let mut steps = vec![Step { op: op.clone(), args: (0..n).collect(), first, outs: outs.len() }];
    let mut roots = vec![];
    for k in 0..outs.len() {
        let r = first + outs.len() + k;
        steps.push(Step { op: Op::Mul, args: vec![first + k, n + k], first: r, outs: 1 });
        if k < 2 || k + 1 == outs.len() {
            roots.push(r);
        }
    }
    Some((Prog { leaves, steps, shapes: all }, roots))
}

fn wide(thorough: bool) -> Vec<(Op, Vec<Sh>)> {
    use Op::*;
    let m = |d: &[u32], b: u32| Sh::new(d, b);
    let mut v = vec![
        (Matmul, vec![m(&[9, 10], 1), m(&[10, 17], 1)]),
        (Matmul, vec![m(&[3, 9], 2), m(&[9, 2], 2)]),
        (Matmul, vec![m(&[4, 3], 2), m(&[3, 4], 1)]),
        (Matmul, vec![m(&[4, 3], 1), m(&[3, 4], 3)]),
        (Matmul, vec![m(&[1, 12], 1), m(&[12, 1], 2)]),
        (Matmul, vec![m(&[5], 2), m(&[1, 5], 2)]),
        (Transpose, vec![m(&[9, 10], 2)]),
        (TriL(0), vec![m(&[9, 9], 2)]),
        (TriU(2), vec![m(&[9, 9], 2)]),
        (TriU(0), vec![m(&[5, 5], 1)]),
        (TriL(1), vec![m(&[5, 5], 1)]),
        (Prelu(-0.5), vec![m(&[5], 2)]),
        (Prelu(0.), vec![m(&[5], 2)]),
        (Elu(0.), vec![m(&[5], 2)]),
        (Powf(0.), vec![m(&[5], 2)]),
        (Powi(0), vec![m(&[5], 2)]),
        (MulR(0.), vec![m(&[5], 2)]),
        (MulL(-0.), vec![m(&[5], 2)]),
        (DivL(0.), vec![m(&[5], 2)]),
        (Powi(17), vec![m(&[5], 2)]),
    ];
    let top = if thorough { 5 } else { 3 };
    for s in [m(&[3, 2], 2), m(&[2, 3, 4], 1), m(&[2, 2, 2], 3), m(&[65], 2), m(&[2, 33], 1), m(&[1, 7, 1, 2], 2)] {
        for dim in 0..top {
            let n = s.dim(dim);
            for op in [Sum(dim), Max(dim), Min(dim), Lse(dim), Softmax(dim), LnSoftmax(dim)] {
                v.push((op, vec![s]));
            }
            for k in [0, n / 2, n - 1] {
                v.push((Ssce(vec![k], dim), vec![s]));
                v.push((Pick(vec![k], dim), vec![s]));
                let ids: Vec<u32> = (0..s.b).map(|i| (k + i) % n).collect();
                v.push((Ssce(ids.clone(), dim), vec![s]));
                v.push((Pick(ids, dim), vec![s]));
                if k + 1 <= n {
                    v.push((Slice(dim, k, k + 1), vec![s]));
                    v.push((Slice(dim, 0, k + 1), vec![s]));
                }
            }
            v.push((Split(dim, n), vec![s]));
            v.push((Sce(dim), vec![s, s]));
            v.push((Sce(dim), vec![s, Sh::new(&s.d, 1)]));
            for b in [1, s.b] {
                v.push((Concat(dim), vec![s, Sh::new(&s.d, b), s]));
            }
            if n == 1 {
                v.push((Bcast(dim, 3), vec![s]));
                if s.size() < 30 {
                    v.push((Bcast(dim, 65), vec![s]));
                }
            }
        }
        v.push((BSum, vec![s]));
        v.push((BConcat, vec![s, Sh::new(&s.d, 1), s]));
        v.push((BPick(vec![s.b - 1, 0, s.b - 1]), vec![s]));
        v.push((BSplit(s.b), vec![s]));
        v.push((BSlice(s.b - 1, s.b), vec![s]));
        v.push((Flatten, vec![s]));
        v.push((Reshape(m(&[s.size() as u32], 1)), vec![s]));
        for op in [Add, Sub, Mul, Div, Pow] {
            v.push((op.clone(), vec![s, Sh::new(&s.d, 1)]));
            v.push((op.clone(), vec![Sh::new(&s.d, 1), s]));
            v.push((op.clone(), vec![Sh::new(&[], 1), s]));
            v.push((op.clone(), vec![s, Sh::new(&[], s.b)]));
            v.push((op, vec![s, s]));
        }
    }
    v
}

/// The search for an index in one line along the axis says nothing about the other lines.
fn indices(d: Dev, s: Sh, dim: u32, rec: &mut Rec) -> Result<(), String> {
    let x = spread(s, 0.3, 1.9, 3);
    let lines = Op::Sum(dim).eval(&[&Rt { s, v: (0..s.size()).map(|i| Dp { v: 1., g: only(i) }).collect() }]).pop().unwrap();
    let get = |x: &R| {
        let t = ten(d, x);
        let g: Nd = Node::from(forever(&t));
        let out = vec![t.argmax(dim), t.argmin(dim), g.argmax(dim), g.argmin(dim), t.argsort(dim), g.argsort(dim)];
        drop(g);
        out
    };
    let was = get(&x);
    // positions of a line in the result of argsort
    let mut line_of = vec![0; s.size()];
    for (k, l) in lines.v.iter().enumerate() {
        for i in members(&l.g) {
            line_of[i] = k;
        }
    }
    for i in 0..s.size() {
        for y in [f32::INFINITY, f32::NEG_INFINITY, f32::MAX, 0., 1e-40, -3.5] {
            let mut o = x.clone();
            o.v[i] = y as f64;
            let now = get(&o);
            for q in 0..was.len() {
                for j in 0..was[q].len() {
                    let line = if q < 4 { j } else { line_of[j] };
                    if line != line_of[i] && was[q][j] != now[q][j] {
                        return Err(format!(
                            "{:?} as element {}: result {} of {} is {}, not {}",
                            y, i, j, ["argmax", "argmin", "argmax in the graph", "argmin in the graph", "argsort", "argsort in the graph"][q], now[q][j], was[q][j]
                        ));
                    }
                }
            }
            rec.step(1);
        }
    }
    Ok(())
}

/// Updates in place.
fn in_place(d: Dev, kind: usize, t: Sh, o: Sh, rec: &mut Rec) -> Result<(), String> {
    let (x, y) = (spread(t, 0.3, 1.9, 1), spread(o, 0.3, 1.9, 2));
    let get = |x: &R, y: &R| {
        let mut a = ten(d, x);
        let b = ten(d, y);
        match kind {
            0 => a += &b,
            1 => a -= &b,
            2 => a *= 0.5,
            _ => a *= 0.,
        }
        vec![a.to_vec(), b.to_vec()]
    };
    let was = get(&x, &y);
    let v = t.size() / t.b as usize;
    for k in 0..t.size() + o.size() {
        for s in SPECIAL {
            let (mut x2, mut y2) = (x.clone(), y.clone());
            if k < t.size() {
                x2.v[k] = s as f64;
            } else {
                y2.v[k - t.size()] = s as f64;
            }
            let now = get(&x2, &y2);
            for i in 0..t.size() {
                let may = if k < t.size() {
                    i == k
                } else {
                    let j = k - t.size();
                    kind < 2 && i % v == j % v && (t.b == 1 || o.b == 1 || i / v == j / v)
                };
                if !may && !same(was[0][i], now[0][i]) {
                    return Err(format!("{:?} as element {}: element {} is {:?}, not {:?}", s, k, i, now[0][i], was[0][i]));
                }
            }
            rec.step(1);
        }
    }
    Ok(())
}

/// Without clipping, an update of an element needs only that element's value, gradient and statistics.
fn updates<O: Optimizer>(d: Dev, mk: fn() -> O, decay: f32, rec: &mut Rec) -> Result<(), String> {
    let shapes = [Sh::new(&[3], 1), Sh::new(&[], 1), Sh::new(&[2, 2], 1)];
    let n: usize = shapes.iter().map(|s| s.size()).sum();
    let get = |at: Option<(usize, usize, bool, f32)>| -> Out {
        let mut ps: Vec<Parameter> = shapes
            .iter()
            .enumerate()
            .map(|(i, s)| {
                let mut p = d.new_parameter(s.shape(), &Constant::new(0.));
                d.reset_tensor_by_slice(&mut p.value, &spread(*s, 0.3, 1.9, i as u64).f32s());
                p
            })
            .collect();
        let mut o = mk();
        o.set_weight_decay(decay);
        for p in &mut ps {
            o.configure_parameters(&mut [p]);
        }
        for step in 0..3 {
            for (i, s) in shapes.iter().enumerate() {
                let mut g = spread(*s, -1., 1., (9 + 3 * step + i) as u64).f32s();
                let mut v = ps[i].value.to_vec();
                if let Some((k, when, value, x)) = at {
                    let first: usize = shapes[..i].iter().map(|s| s.size()).sum();
                    if when == step && k >= first && k < first + s.size() {
                        if value {
                            v[k - first] = x;
                        } else {
                            g[k - first] = x;
                        }
                    }
                }
                d.reset_tensor_by_slice(&mut ps[i].gradient, &g);
                d.reset_tensor_by_slice(&mut ps[i].value, &v);
            }
            let mut refs: Vec<&mut Parameter> = ps.iter_mut().collect();
            o.update_parameters(&mut refs);
        }
        vec![ps.iter().flat_map(|p| p.value.to_vec()).collect()]
    };
    let was = get(None);
    let may: Vec<Vec<Set>> = vec![(0..n).map(only).collect()];
    for k in 0..n {
        for when in 0..3 {
            for value in [false, true] {
                for x in SPECIAL {
                    let now = get(Some((k, when, value, x)));
                    if x.is_nan() && !now[0][k].is_nan() {
                        return Err(format!("NaN for element {} in step {} is hidden: {:?}", k, when, now[0][k]));
                    }
                    unaffected("parameter", k, &was, &now, &may).map_err(|e| format!("{:?} for element {} in step {}: {}", x, k, when, e))?;
                    rec.step(3);
                }
            }
        }
    }
    Ok(())
}

fn body(ctx: &mut Ctx) {
    let d = leaked_naive();
    let thorough = ctx.thorough();
    for (op, shapes) in op_samples().into_iter().chain(wide(thorough)) {
        let (p, roots) = match single(&op, &shapes) {
            Some(p) => p,
            None => continue,
        };
        ctx.case(
            || format!("{} {:?}", op.show(), shapes.iter().map(|s| s.show()).collect::<Vec<_>>()),
            |rec| check(d, &p, &roots, &SPECIAL, true, rec),
        );
    }
    let mut k = 0u64;
    for (si, (leaves, un, bin, n)) in real_sets(thorough).iter().enumerate() {
        all_progs(leaves, un, bin, *n, 12, &mut |p| {
            k += 1;
            if !thorough && si < 2 && k % 2 != 1 {
                return;
            }
            let tops = [p.shapes.len() - 1];
            ctx.case(|| format!("program {} {}", si, p.show()), |rec| check(d, p, &tops, &SPECIAL[..if thorough { 9 } else { 2 }], true, rec));
        });
    }
    for (name, p, roots) in big_progs(thorough) {
        if p.leaves.iter().map(|s| s.size()).sum::<usize>() > if thorough { 2000 } else { 300 } || p.steps.len() > 60 {
            continue;
        }
        ctx.case(|| format!("program {}", name), |rec| check(d, &p, &roots, &SPECIAL[..2], true, rec));
    }
    for a in archs(thorough) {
        for (i, p) in a.progs.iter().enumerate() {
            ctx.case(
                || format!("architecture {} batch {}", a.name, i),
                |rec| check(d, p, &[a.loss], &SPECIAL[..if thorough { 9 } else { 2 }], true, rec),
            );
        }
    }
    for s in [Sh::new(&[3], 2), Sh::new(&[2, 3], 2), Sh::new(&[3, 2, 2], 1), Sh::new(&[65], 2), Sh::new(&[2, 17], 1), Sh::new(&[1, 4], 3)] {
        for dim in 0..4 {
            ctx.case(|| format!("index {} axis {}", s.show(), dim), |rec| indices(d, s, dim, rec));
        }
        for kind in 0..4 {
            for (tb, ob) in [(1, 1), (1, 3), (3, 1), (3, 3)] {
                let (t, o) = (Sh::new(&s.d, tb), Sh::new(&s.d, ob));
                ctx.case(|| format!("in place {} {} {}", kind, t.show(), o.show()), |rec| in_place(d, kind, t, o, rec));
            }
        }
    }
    for decay in [0f32, 0.25] {
        ctx.case(|| format!("SGD {}", decay), |rec| updates(d, || SGD::new(0.5), decay, rec));
        ctx.case(|| format!("MomentumSGD {}", decay), |rec| updates(d, || MomentumSGD::new(0.5, 0.5), decay, rec));
        ctx.case(|| format!("Adam {}", decay), |rec| updates(d, || Adam::new(0.1, 0.9, 0.99, 1e-4), decay, rec));
    }
}

fn main() {
    run(
        Spec {
            id: "C30",
            level: "model_checking",
            rule: "every element of every operand of every operation, index search, update in place and optimizer step (and the gradients of the results) replaced by each of 9 special values, every element of every leaf of every program of 2 (3) operations, of large programs and of thirteen architectures replaced by NaN and infinity; all values, eager and in the graph, and all gradients that do not depend on the element by the reference semantics have to stay",
            assumptions: &["which results depend on which elements is computed from the reference semantics, symbolically"],
        },
        body,
    );
}

//! Graph programs: exhaustive enumeration of small acyclic graphs, either of probe operators that
//! record every call they get, or of real operations.
use crate::dev::*;
use crate::grad::{compare_grad, vjp, ToVecAny};
use crate::harness::Rec;
use crate::ops::*;
use crate::rt::*;
use crate::sh::Sh;
use crate::{Dev, Nd, Ten};
use prima_undine::functions::BasicFunctions;
use prima_undine::{Device, Node, Operator, Parameter, Shape, Tensor};
use std::cell::RefCell;
use std::rc::Rc;

// ---------------------------------------------------------------- probe graphs

#[derive(Clone, Debug, PartialEq)]
pub struct POp {
    /// a parameter instead of a probe
    pub param: bool,
    /// (operator, output)
    pub args: Vec<(usize, usize)>,
    pub outs: usize,
}

#[derive(Clone, Debug)]
pub struct PProg {
    pub ops: Vec<POp>,
    /// every coefficient is 1 (for deep graphs, to stay exact)
    pub unit: bool,
}

impl PProg {
    pub fn show(&self) -> String {
        self.ops
            .iter()
            .map(|o| {
                if o.param {
                    "P".to_string()
                } else {
                    let a: Vec<String> = o.args.iter().map(|(i, j)| format!("{}.{}", i, j)).collect();
                    format!("{}:({})", o.outs, a.join(","))
                }
            })
            .collect::<Vec<_>>()
            .join(" ")
    }
    pub fn nodes(&self) -> Vec<(usize, usize)> {
        let mut v = vec![];
        for (i, o) in self.ops.iter().enumerate() {
            for j in 0..o.outs {
                v.push((i, j));
            }
        }
        v
    }
    fn coef(&self, i: usize, j: usize, k: usize) -> f64 {
        if self.unit {
            return 1.;
        }
        const P: [[f64; 4]; 2] = [[2., 3., 5., 7.], [3., 5., 2., 4.]];
        P[i % 2][(2 * j + k) % 4]
    }
    fn bias(&self, i: usize, j: usize) -> f64 {
        1. + i as f64 + 10. * j as f64
    }
    /// values of every output, two elements each
    pub fn values(&self) -> Vec<Vec<[f64; 2]>> {
        let mut v: Vec<Vec<[f64; 2]>> = vec![];
        for (i, o) in self.ops.iter().enumerate() {
            let mut outs = vec![];
            for j in 0..o.outs {
                let mut y = if o.param {
                    [3. + i as f64, 4. + i as f64]
                } else {
                    [self.bias(i, j), self.bias(i, j) + 2.]
                };
                for (k, &(a, b)) in o.args.iter().enumerate() {
                    for e in 0..2 {
                        y[e] += self.coef(i, j, k) * v[a][b][e];
                    }
                }
                outs.push(y);
            }
            v.push(outs);
        }
        v
    }
    pub fn cone(&self, op: usize) -> Vec<bool> {
        let mut c = vec![false; self.ops.len()];
        c[op] = true;
        for i in (0..=op).rev() {
            if c[i] {
                for &(a, _) in &self.ops[i].args {
                    c[a] = true;
                }
            }
        }
        c
    }
    /// derivative of the sum of one output with respect to every output
    pub fn grads(&self, op: usize, out: usize) -> Vec<Vec<f64>> {
        let mut g: Vec<Vec<f64>> = self.ops.iter().map(|o| vec![0.; o.outs]).collect();
        g[op][out] = 1.;
        for i in (0..=op).rev() {
            for (k, &(a, b)) in self.ops[i].args.iter().enumerate() {
                for j in 0..self.ops[i].outs {
                    let d = self.coef(i, j, k) * g[i][j];
                    g[a][b] += d;
                }
            }
        }
        g
    }
}

/// All programs of `n` operators with at most two operands and outputs, calling `f` on each.
pub fn all_pprogs(n: usize, f: &mut dyn FnMut(&PProg)) {
    fn go(p: &mut PProg, n: usize, f: &mut dyn FnMut(&PProg)) {
        if p.ops.len() == n {
            f(p);
            return;
        }
        let nodes = p.nodes();
        let mut next = vec![POp { param: true, args: vec![], outs: 1 }];
        for outs in 1..=2 {
            next.push(POp { param: false, args: vec![], outs });
            for &a in &nodes {
                next.push(POp { param: false, args: vec![a], outs });
                for &b in &nodes {
                    next.push(POp { param: false, args: vec![a, b], outs });
                }
            }
        }
        for o in next {
            p.ops.push(o);
            go(p, n, f);
            p.ops.pop();
        }
    }
    go(&mut PProg { ops: vec![], unit: false }, n, f);
}

#[derive(Clone, Debug)]
pub struct Call {
    pub op: usize,
    pub back: bool,
    pub xs: Vec<Vec<f32>>,
    pub ys: Vec<Vec<f32>>,
    pub gys: Vec<Vec<f32>>,
}

type Log = Rc<RefCell<Vec<Call>>>;

struct Probe {
    d: Dev,
    i: usize,
    prog: Rc<PProg>,
    log: Log,
}

fn vecs(t: &[&Tensor]) -> Vec<Vec<f32>> {
    t.iter().map(|t| t.to_vec_any()).collect()
}

impl Operator<'static, 'static> for Probe {
    fn name(&self) -> String {
        "Probe".to_string()
    }
    fn device(&self) -> &'static Device<'static> {
        self.d
    }
    fn forward_shape(&self, x: &[Shape]) -> Vec<Shape> {
        assert_eq!(x.len(), self.prog.ops[self.i].args.len());
        vec![Sh::new(&[2], 1).shape(); self.prog.ops[self.i].outs]
    }
    fn forward(&self, x: &[&Tensor], y: &mut [&mut Tensor<'static>]) {
        let xs = vecs(x);
        self.log.borrow_mut().push(Call { op: self.i, back: false, xs: xs.clone(), ys: vec![], gys: vec![] });
        assert_eq!(y.len(), self.prog.ops[self.i].outs, "number of results");
        for (j, y) in y.iter_mut().enumerate() {
            let b = self.prog.bias(self.i, j);
            let mut v = [b, b + 2.];
            for (k, x) in xs.iter().enumerate() {
                for e in 0..2 {
                    v[e] += self.prog.coef(self.i, j, k) * x[e] as f64;
                }
            }
            y.replace(self.d.new_tensor_by_slice(Sh::new(&[2], 1).shape(), &[v[0] as f32, v[1] as f32]));
        }
    }
    fn backward(&self, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]) {
        self.log.borrow_mut().push(Call { op: self.i, back: true, xs: vecs(x), ys: vecs(y), gys: vecs(gy) });
        assert_eq!(gx.len(), self.prog.ops[self.i].args.len(), "number of gradients");
        let g = vecs(gy);
        for (k, gx) in gx.iter().enumerate() {
            let mut v = [0f64; 2];
            for (j, g) in g.iter().enumerate() {
                for e in 0..2 {
                    v[e] += self.prog.coef(self.i, j, k) * g[e] as f64;
                }
            }
            let t: Ten = self.d.new_tensor_by_slice(Sh::new(&[2], 1).shape(), &[v[0] as f32, v[1] as f32]);
            *gx.borrow_mut() += &t;
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Act {
    Fwd(usize, usize),
    Read(usize, usize),
    Back(usize, usize),
    ArgMax(usize, usize),
    ArgMin(usize, usize),
    ArgSort(usize, usize),
    /// forget the handle of an operator's outputs
    Drop(usize),
}

pub struct PRun {
    d: Dev,
    prog: Rc<PProg>,
    log: Log,
    nodes: Vec<Option<Vec<Nd>>>,
    params: Vec<Box<Parameter<'static>>>,
    pidx: Vec<Option<usize>>,
    ran: Vec<bool>,
    pgrad: Vec<f64>,
    vals: Vec<Vec<[f64; 2]>>,
    /// judge gradients (C15) or evaluations (C14)
    grads: bool,
}

impl Drop for PRun {
    fn drop(&mut self) {
        self.nodes.clear();
    }
}

fn same(got: &[f32], exp: &[f64; 2]) -> bool {
    got.len() == 2 && got[0] as f64 == exp[0] && got[1] as f64 == exp[1]
}

impl PRun {
    pub fn new(d: Dev, prog: &PProg, grads: bool) -> PRun {
        PRun {
            d,
            prog: Rc::new(prog.clone()),
            log: Rc::new(RefCell::new(vec![])),
            nodes: vec![],
            params: vec![],
            pidx: vec![],
            ran: vec![],
            pgrad: vec![],
            vals: prog.values(),
            grads,
        }
    }
    pub fn built(&self) -> usize {
        self.nodes.len()
    }
    pub fn build(&mut self) -> Result<(), String> {
        let i = self.nodes.len();
        let o = self.prog.ops[i].clone();
        self.log.borrow_mut().clear();
        let outs = if o.param {
            use prima_undine::initializers::Constant;
            let v = self.vals[i][0];
            let mut p = Box::new(self.d.new_parameter(Sh::new(&[2], 1).shape(), &Constant::new(0.)));
            self.d.reset_tensor_by_slice(&mut p.value, &[v[0] as f32, v[1] as f32]);
            // a gradient present from earlier work
            p.gradient.reset(5.);
            self.pidx.push(Some(self.params.len()));
            self.pgrad.push(5.);
            self.params.push(p);
            vec![Node::from(forever_mut(&mut **self.params.last_mut().unwrap()))]
        } else {
            self.pidx.push(None);
            let pr = Probe { d: self.d, i, prog: Rc::clone(&self.prog), log: Rc::clone(&self.log) };
            let args: Vec<&Nd> = o.args.iter().map(|&(a, b)| &self.nodes[a].as_ref().unwrap()[b]).collect();
            Node::create(pr, &args)
        };
        if outs.len() != o.outs {
            return Err(format!("operator {} gave {} nodes", i, outs.len()));
        }
        self.nodes.push(Some(outs));
        self.ran.push(false);
        if !self.grads && !self.log.borrow().is_empty() {
            return Err(format!("building operator {} ran an operator", i));
        }
        Ok(())
    }
    pub fn act(&mut self, a: Act) -> Result<(), String> {
        let (op, out) = match a {
            Act::Drop(i) => {
                self.nodes[i] = None;
                return Ok(());
            }
            Act::Fwd(i, j) | Act::Read(i, j) | Act::Back(i, j) => (i, j),
            Act::ArgMax(i, j) | Act::ArgMin(i, j) | Act::ArgSort(i, j) => (i, j),
        };
        self.log.borrow_mut().clear();
        {
            let n = &self.nodes[op].as_ref().unwrap()[out];
            match a {
                Act::Fwd(..) => n.forward(),
                Act::Read(..) => {
                    let v = n.to_vec();
                    if !same(&v, &self.vals[op][out]) {
                        return Err(format!("{:?} gave {:?}, expected {:?}", a, v, self.vals[op][out]));
                    }
                }
                Act::Back(..) => n.backward(),
                _ => {
                    use prima_undine::functions::BasicFunctions;
                    let [x, y] = self.vals[op][out];
                    let up = if x <= y { [0, 1] } else { [1, 0] };
                    let (got, exp) = match a {
                        Act::ArgMax(..) => (n.argmax(0), vec![(y > x) as u32]),
                        Act::ArgMin(..) => (n.argmin(0), vec![(y < x) as u32]),
                        _ => {
                            let mut g = n.argsort(0);
                            if x == y {
                                g.sort();
                            }
                            (g, up.to_vec())
                        }
                    };
                    if got != exp {
                        return Err(format!("{:?} gave {:?}, expected {:?}", a, got, exp));
                    }
                }
            }
        }
        let cone = self.prog.cone(op);
        let log = std::mem::take(&mut *self.log.borrow_mut());
        let nops = self.nodes.len();
        // forward calls
        let mut at = vec![None; nops];
        for (t, c) in log.iter().enumerate().filter(|c| !c.1.back) {
            if !self.grads {
                if !cone[c.op] {
                    return Err(format!("{:?} ran operator {}, which it does not need", a, c.op));
                }
                if self.ran[c.op] {
                    return Err(format!("{:?} ran operator {} again", a, c.op));
                }
                if at[c.op].is_some() {
                    return Err(format!("{:?} ran operator {} twice", a, c.op));
                }
                for (k, &(x, y)) in self.prog.ops[c.op].args.iter().enumerate() {
                    if self.pidx[x].is_none() && !self.ran[x] && at[x].is_none() {
                        return Err(format!("{:?} ran operator {} before its input {}", a, c.op, x));
                    }
                    if !same(&c.xs[k], &self.vals[x][y]) {
                        return Err(format!("{:?}: operator {} was given {:?} as operand {}", a, c.op, c.xs[k], k));
                    }
                }
            }
            at[c.op] = Some(t);
        }
        for i in 0..nops {
            if cone[i] && self.pidx[i].is_none() && !self.ran[i] && at[i].is_none() {
                return Err(format!("{:?} did not run operator {}", a, i));
            }
            self.ran[i] |= cone[i];
        }
        for i in 0..nops {
            if self.ran[i] {
                if let Some(ns) = &self.nodes[i] {
                    for (j, n) in ns.iter().enumerate() {
                        let v = n.inner_value();
                        if !v.valid() {
                            return Err(format!("after {:?} node {}.{} has no value", a, i, j));
                        }
                        let v = v.to_vec_any();
                        if !same(&v, &self.vals[i][j]) {
                            return Err(format!("after {:?} node {}.{} is {:?}, expected {:?}", a, i, j, v, self.vals[i][j]));
                        }
                    }
                }
            }
        }
        if self.grads {
            self.check_back(a, op, out, &cone, &log)?;
        }
        Ok(())
    }
    fn check_back(&mut self, a: Act, op: usize, out: usize, cone: &[bool], log: &[Call]) -> Result<(), String> {
        let nops = self.nodes.len();
        let is_back = matches!(a, Act::Back(..));
        let g = self.prog.grads(op, out);
        let mut at: Vec<Option<usize>> = vec![None; nops];
        for (t, c) in log.iter().enumerate().filter(|c| c.1.back) {
            if !is_back || !cone[c.op] {
                return Err(format!("{:?} ran the backward of operator {}", a, c.op));
            }
            if at[c.op].is_some() {
                return Err(format!("{:?} ran the backward of operator {} twice", a, c.op));
            }
            at[c.op] = Some(t);
            for (k, &(x, y)) in self.prog.ops[c.op].args.iter().enumerate() {
                if !same(&c.xs[k], &self.vals[x][y]) {
                    return Err(format!("{:?}: backward of {} was given {:?} as operand {}", a, c.op, c.xs[k], k));
                }
            }
            for j in 0..self.prog.ops[c.op].outs {
                if !same(&c.ys[j], &self.vals[c.op][j]) {
                    return Err(format!("{:?}: backward of {} was given {:?} as result {}", a, c.op, c.ys[j], j));
                }
                if !same(&c.gys[j], &[g[c.op][j]; 2]) {
                    return Err(format!(
                        "{:?}: backward of {} was given gradient {:?} of result {}, expected {}",
                        a, c.op, c.gys[j], j, g[c.op][j]
                    ));
                }
            }
        }
        if is_back {
            for i in 0..nops {
                if cone[i] && self.pidx[i].is_none() {
                    let t = at[i].ok_or_else(|| format!("{:?} did not run the backward of operator {}", a, i))?;
                    for &(x, _) in &self.prog.ops[i].args {
                        if let Some(u) = at[x] {
                            if u < t {
                                return Err(format!("{:?} ran the backward of {} before that of its user {}", a, x, i));
                            }
                        }
                    }
                }
                if cone[i] {
                    if let Some(p) = self.pidx[i] {
                        self.pgrad[p] += g[i][0];
                    }
                    if let Some(ns) = &self.nodes[i] {
                        for (j, n) in ns.iter().enumerate() {
                            let v = n.inner_gradient();
                            if !v.valid() {
                                return Err(format!("after {:?} node {}.{} has no gradient", a, i, j));
                            }
                            let v = v.to_vec_any();
                            if !same(&v, &[g[i][j]; 2]) {
                                return Err(format!("after {:?} the gradient of {}.{} is {:?}, expected {}", a, i, j, v, g[i][j]));
                            }
                        }
                    }
                }
            }
        }
        for (p, e) in self.params.iter().zip(&self.pgrad) {
            let v = p.gradient.to_vec_any();
            if !same(&v, &[*e; 2]) {
                return Err(format!("after {:?} a parameter has gradient {:?}, expected {}", a, v, e));
            }
        }
        Ok(())
    }
}

/// Runs one history: every action at its build position. `after[p]` are the actions done once `p`
/// operators exist.
pub fn run_history(d: Dev, prog: &PProg, acts: &[(usize, Act)], grads: bool, rec: &mut Rec) -> Result<(), String> {
    let mut r = PRun::new(d, prog, grads);
    let mut i = 0;
    for p in 0..=prog.ops.len() {
        if p > 0 {
            r.build()?;
        }
        while i < acts.len() && acts[i].0 == p {
            r.act(acts[i].1)?;
            i += 1;
        }
    }
    rec.step((acts.len() + prog.ops.len()) as u64);
    rec.trace(1);
    Ok(())
}

/// All sequences of `len` positioned actions.
pub fn histories(
    prog: &PProg,
    len: usize,
    kinds: &[fn(usize, usize) -> Act],
    f: &mut dyn FnMut(&[(usize, Act)]) -> Result<(), String>,
) -> Result<(), String> {
    fn go(
        prog: &PProg,
        nodes: &[(usize, usize)],
        left: usize,
        kinds: &[fn(usize, usize) -> Act],
        cur: &mut Vec<(usize, Act)>,
        f: &mut dyn FnMut(&[(usize, Act)]) -> Result<(), String>,
    ) -> Result<(), String> {
        if left == 0 {
            return f(cur);
        }
        let from = cur.last().map_or(1, |x| x.0);
        for p in from..=prog.ops.len() {
            for &(i, j) in nodes.iter().filter(|x| x.0 < p) {
                for k in kinds {
                    cur.push((p, k(i, j)));
                    go(prog, nodes, left - 1, kinds, cur, f)?;
                    cur.pop();
                }
            }
        }
        Ok(())
    }
    go(prog, &prog.nodes(), len, kinds, &mut vec![], f)
}

/// Larger graphs of a regular shape.
pub fn families(thorough: bool) -> Vec<(String, PProg)> {
    let mut v = vec![];
    let op = |args: Vec<(usize, usize)>, outs| POp { param: false, args, outs };
    let par = || POp { param: true, args: vec![], outs: 1 };
    // every operator uses its predecessor twice
    for n in 1..=20 {
        let mut ops = vec![par()];
        for i in 0..n {
            ops.push(op(vec![(i, 0), (i, 0)], 1));
        }
        v.push((format!("doubling {}", n), PProg { ops, unit: true }));
    }
    // a chain; one operator also uses an earlier one
    let n = if thorough { 11 } else { 8 };
    for to in 1..=n {
        for from in 0..to {
            for first in [false, true] {
                let mut ops = vec![par()];
                for i in 0..n {
                    let mut a = vec![(i, 0)];
                    if i + 1 == to {
                        a.push((from, 0));
                        if first {
                            a.reverse();
                        }
                    }
                    ops.push(op(a, 1));
                }
                v.push((format!("skip {} {} {}", from, to, first), PProg { ops, unit: true }));
            }
        }
    }
    // two chains of different lengths from one operator, joined
    let m = if thorough { 7 } else { 5 };
    for a in 0..=m {
        for b in 0..=m {
            for outs in 1..=2 {
                let mut ops = vec![par(), op(vec![(0, 0)], outs)];
                let mut ends = vec![];
                for (len, out) in [(a, 0), (b, outs - 1)] {
                    let mut at = (1, out);
                    for _ in 0..len {
                        ops.push(op(vec![at], 1));
                        at = (ops.len() - 1, 0);
                    }
                    ends.push(at);
                }
                ops.push(op(ends.clone(), 2));
                let j = ops.len() - 1;
                ops.push(op(vec![(j, 1), (0, 0), (j, 0)], 1));
                v.push((format!("join {} {} {}", a, b, outs), PProg { ops, unit: true }));
            }
        }
    }
    // many operands and many outputs
    for k in 1..=6 {
        let mut ops = vec![par(), op(vec![(0, 0)], k)];
        ops.push(op((0..k).map(|i| (1, i)).collect(), k));
        ops.push(op((0..k).rev().map(|i| (2, i)).chain((0..k).map(|i| (1, i))).collect(), 1));
        v.push((format!("wide {}", k), PProg { ops: ops.clone(), unit: true }));
        ops.push(op(vec![(2, k - 1)], 1));
        v.push((format!("wide {} one used", k), PProg { ops, unit: true }));
    }
    // unrolled recurrence: one parameter used at every step
    for n in 1..=if thorough { 14 } else { 8 } {
        let mut ops = vec![par(), op(vec![], 1)];
        let mut h = (1, 0);
        let mut outs = vec![];
        for _ in 0..n {
            ops.push(op(vec![h, (0, 0)], 2));
            h = (ops.len() - 1, 0);
            outs.push((ops.len() - 1, 1));
        }
        ops.push(op(outs, 1));
        v.push((format!("recurrence {}", n), PProg { ops, unit: true }));
    }
    v
}

/// Graphs far larger than those of the exhaustive sweeps, with the operators to request.
pub fn big_families(thorough: bool) -> Vec<(String, PProg, Vec<(usize, usize)>)> {
    let mut v = vec![];
    let op = |args: Vec<(usize, usize)>, outs| POp { param: false, args, outs };
    let par = || POp { param: true, args: vec![], outs: 1 };
    let mut add = |name: String, ops: Vec<POp>, mut at: Vec<usize>| {
        at.push(ops.len() - 1);
        let roots = at.iter().map(|&i| (i, ops[i].outs - 1)).collect();
        v.push((name, PProg { ops, unit: true }, roots));
    };
    for n in if thorough { vec![40, 65, 130, 257, 300, 513, 1025, 2049, 3000, 4000] } else { vec![40, 130, 300, 1025, 3000] } {
        let mut ops = vec![par()];
        for i in 0..n {
            ops.push(op(vec![(i, 0)], 1));
        }
        add(format!("chain {}", n), ops, vec![1, n / 2]);
        // the last operator also uses the first one, the middle one, and the second to last
        let mut ops = vec![par()];
        for i in 0..n {
            ops.push(op(vec![(i, 0)], 1));
        }
        ops.push(op(vec![(n, 0), (0, 0), (n / 2, 0), (n - 1, 0)], 2));
        add(format!("long skips {}", n), ops, vec![n / 2, n]);
    }
    for n in if thorough { vec![33, 65, 129, 256, 257, 300, 600] } else { vec![33, 65, 257, 600] } {
        // one value used by many operators that meet again
        let mut ops = vec![par(), op(vec![(0, 0)], 1)];
        for _ in 0..n {
            ops.push(op(vec![(1, 0)], 1));
        }
        ops.push(op((0..n).map(|i| (2 + i, 0)).collect(), 1));
        add(format!("fan {}", n), ops, vec![1, 2 + n / 2]);
        // one operator with many results, all of them or the last used
        let mut ops = vec![par(), op(vec![(0, 0)], n)];
        ops.push(op((0..n).rev().map(|i| (1, i)).collect(), 1));
        ops.push(op(vec![(1, n - 1)], 1));
        add(format!("many results {}", n), ops, vec![1, 2]);
        // one value as every operand
        let mut ops = vec![par(), op(vec![(0, 0)], 1)];
        ops.push(op(vec![(1, 0); n], 2));
        add(format!("repeated operand {}", n), ops, vec![1]);
        // many parameters added one after the other
        let mut ops: Vec<POp> = (0..n).map(|_| par()).collect();
        ops.push(op(vec![(0, 0), (1, 0)], 1));
        for i in 2..n {
            let last = ops.len() - 1;
            ops.push(op(vec![(last, 0), (i, 0)], 1));
        }
        let l = ops.len();
        add(format!("parameters {}", n), ops, vec![0, n, l - 2]);
    }
    for n in if thorough { vec![30, 100, 200, 290] } else { vec![30, 100, 200] } {
        let mut ops = vec![par(), op(vec![], 1)];
        let mut h = (1, 0);
        let mut outs = vec![];
        for _ in 0..n {
            ops.push(op(vec![h, (0, 0)], 2));
            h = (ops.len() - 1, 0);
            outs.push((ops.len() - 1, 1));
        }
        ops.push(op(outs, 1));
        add(format!("long recurrence {}", n), ops, vec![1, n / 2]);
    }
    // a binary tree of additions
    let mut ops: Vec<POp> = (0..512).map(|_| par()).collect();
    let mut row: Vec<usize> = (0..512).collect();
    while row.len() > 1 {
        row = row
            .chunks(2)
            .map(|c| {
                ops.push(op(vec![(c[0], 0), (c[1], 0)], 1));
                ops.len() - 1
            })
            .collect();
    }
    add("tree 512".to_string(), ops, vec![700]);
    v
}

/// Runs `what` again in a process of its own.
pub fn in_child(what: &str) -> Result<(), String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let out = std::process::Command::new(exe)
        .env("MC_CHILD", what)
        .output()
        .map_err(|e| e.to_string())?;
    if out.status.success() {
        return Ok(());
    }
    let err = String::from_utf8_lossy(&out.stderr);
    Err(format!("{:?}: {}", out.status, err.lines().filter(|l| !l.trim().is_empty()).take(2).collect::<Vec<_>>().join(" ")))
}

/// Builds, evaluates, differentiates and releases a chain of `n` additions on a thread with an
/// ordinary stack.
pub fn long_chain(n: usize) -> bool {
    std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || {
            let d = crate::leaked_naive();
            let x: Nd = Node::from(d.new_tensor_by_constant(Sh::new(&[2], 1).shape(), 1.));
            let mut y: Nd = &x + 0.;
            for _ in 0..n {
                y = y + 1.;
            }
            y.backward();
            let ok = y.to_vec() == vec![1. + n as f32; 2] && x.inner_gradient().to_vec_any() == vec![1.; 2];
            drop(x);
            drop(y);
            ok
        })
        .unwrap()
        .join()
        .unwrap_or(false)
}

// ---------------------------------------------------------------- programs of real operations

#[derive(Clone, Debug)]
pub struct Step {
    pub op: Op,
    pub args: Vec<usize>,
    /// index of the first value it produces
    pub first: usize,
    pub outs: usize,
}

#[derive(Clone, Debug)]
pub struct Prog {
    pub leaves: Vec<Sh>,
    pub steps: Vec<Step>,
    /// shape of every value
    pub shapes: Vec<Sh>,
}

impl Prog {
    pub fn show(&self) -> String {
        self.steps
            .iter()
            .map(|s| format!("{}({})", s.op.show(), s.args.iter().map(|a| a.to_string()).collect::<Vec<_>>().join(",")))
            .collect::<Vec<_>>()
            .join(" ")
    }
    /// which values the value `v` depends on (with itself); siblings are not included
    pub fn cone(&self, v: usize) -> Vec<bool> {
        let mut c = vec![false; self.shapes.len()];
        c[v] = true;
        for s in self.steps.iter().rev() {
            if (s.first..s.first + s.outs).any(|i| c[i]) {
                for &a in &s.args {
                    c[a] = true;
                }
            }
        }
        c
    }
    pub fn reference(&self, leaves: &[R]) -> Vec<R> {
        let mut v: Vec<R> = leaves.to_vec();
        for s in &self.steps {
            let a: Vec<&R> = s.args.iter().map(|&i| &v[i]).collect();
            let o = s.op.eval(&a);
            v.extend(o);
        }
        v
    }
    /// derivative of the sum of value `root` with respect to every value, with error magnitudes
    pub fn grads(&self, vals: &[R], root: usize) -> Vec<(Vec<f64>, Vec<f64>)> {
        let mut g: Vec<(Vec<f64>, Vec<f64>)> =
            vals.iter().map(|v| (vec![0.; v.v.len()], vec![0.; v.v.len()])).collect();
        g[root] = (vec![1.; vals[root].v.len()], vec![1.; vals[root].v.len()]);
        for s in self.steps.iter().rev() {
            let xs: Vec<R> = s.args.iter().map(|&i| vals[i].clone()).collect();
            let rng = s.first..s.first + s.outs;
            if rng.clone().all(|i| g[i].1.iter().all(|&m| m == 0.)) {
                continue;
            }
            let gy: Vec<R> = rng.clone().map(|i| R::new(vals[i].s, g[i].0.clone())).collect();
            let gm: Vec<R> = rng.clone().map(|i| R::new(vals[i].s, g[i].1.clone())).collect();
            let (e, m) = (vjp(&s.op, &xs, &gy), vjp(&s.op, &xs, &gm));
            for (k, &a) in s.args.iter().enumerate() {
                for t in 0..g[a].0.len() {
                    g[a].0[t] += e[k].0[t];
                    g[a].1[t] += m[k].1[t];
                }
            }
        }
        g
    }
}

/// All programs of `n` steps over the given operations.
pub fn all_progs(leaves: &[Sh], un: &[Op], bin: &[Op], n: usize, max: usize, f: &mut dyn FnMut(&Prog)) {
    fn go(p: &mut Prog, un: &[Op], bin: &[Op], n: usize, max: usize, f: &mut dyn FnMut(&Prog)) {
        if p.steps.len() == n {
            f(p);
            return;
        }
        let nv = p.shapes.len();
        let mut go1 = |p: &mut Prog, op: &Op, args: Vec<usize>| {
            let shs: Vec<Sh> = args.iter().map(|&i| p.shapes[i]).collect();
            if let Verdict::Accept(o) = op.judge(&shs) {
                if o.iter().any(|s| s.size() > max) {
                    return;
                }
                p.steps.push(Step { op: op.clone(), args, first: nv, outs: o.len() });
                p.shapes.extend(o);
                go(p, un, bin, n, max, f);
                p.shapes.truncate(nv);
                p.steps.pop();
            }
        };
        for op in un {
            for a in 0..nv {
                go1(p, op, vec![a]);
            }
        }
        for op in bin {
            for a in 0..nv {
                for b in 0..nv {
                    go1(p, op, vec![a, b]);
                }
            }
        }
    }
    let mut p = Prog { leaves: leaves.to_vec(), steps: vec![], shapes: leaves.to_vec() };
    go(&mut p, un, bin, n, max, f);
}

pub struct Built {
    pub params: Vec<Box<Parameter<'static>>>,
    pub tensors: Vec<Box<Ten>>,
    pub nodes: Vec<Nd>,
}

/// Builds the graph; even leaves are parameters, odd ones tensors.
pub fn build(d: Dev, p: &Prog, leaves: &[R]) -> Built {
    use prima_undine::initializers::Constant;
    let mut b = Built { params: vec![], tensors: vec![], nodes: vec![] };
    for (i, r) in leaves.iter().enumerate() {
        if i % 2 == 0 && r.s.b == 1 {
            let mut q = Box::new(d.new_parameter(r.s.shape(), &Constant::new(0.)));
            d.reset_tensor_by_slice(&mut q.value, &r.f32s());
            q.gradient.reset(0.);
            b.params.push(q);
            b.nodes.push(Node::from(forever_mut(&mut **b.params.last_mut().unwrap())));
        } else {
            b.tensors.push(Box::new(ten(d, r)));
            b.nodes.push(Node::from(forever(&**b.tensors.last().unwrap())));
        }
    }
    for s in &p.steps {
        let outs = {
            let a: Vec<&Nd> = s.args.iter().map(|&i| &b.nodes[i]).collect();
            s.op.node(&a)
        };
        b.nodes.extend(outs);
    }
    b
}

impl Drop for Built {
    fn drop(&mut self) {
        self.nodes.clear();
    }
}

/// The same numbers, up to the rounding that two ways of computing them may differ in.
pub fn agree(got: &[f32], exp: &[f32], scale: f32) -> bool {
    got.len() == exp.len()
        && got.iter().zip(exp).all(|(a, b)| {
            a == b || a.is_nan() && b.is_nan() || (a - b).abs() <= 1e-4 * b.abs().max(0.03 * scale.min(1e6))
        })
}

/// Graph values against eager values and the reference, requesting `order` in turn.
pub fn prog_values(d: Dev, p: &Prog, leaves: &[R], order: &[usize], rec: &mut Rec) -> Result<(), String> {
    let mut eager: Vec<Ten> = leaves.iter().map(|r| ten(d, r)).collect();
    for s in &p.steps {
        let o = {
            let a: Vec<&Ten> = s.args.iter().map(|&i| &eager[i]).collect();
            s.op.eager(&a)
        };
        eager.extend(o);
    }
    // the largest number met on the way to each value
    let mut upto: Vec<f32> = eager.iter().map(|t| t.to_vec().iter().fold(0f32, |m, x| if x.is_finite() { m.max(x.abs()) } else { m })).collect();
    for s in &p.steps {
        let m = s.args.iter().fold(0f32, |m, &i| m.max(upto[i]));
        for v in &mut upto[s.first..s.first + s.outs] {
            *v = v.max(m);
        }
    }
    let b = build(d, p, leaves);
    for &v in order {
        let got = b.nodes[v].to_vec();
        let exp = eager[v].to_vec();
        if !agree(&got, &exp, upto[v]) {
            return Err(format!("value {} is {:?} in the graph and {:?} eagerly", v, got, exp));
        }
        let sh = Sh::of(b.nodes[v].shape());
        if sh != p.shapes[v] {
            return Err(format!("value {} has shape {} in the graph, expected {}", v, sh.show(), p.shapes[v].show()));
        }
        rec.step(1);
    }
    let mag = |v: &Vec<f64>| v.iter().fold(1f64, |m, x| m.max(x.abs()));
    let vals = p.reference(leaves);
    let big = vals.iter().fold(1f64, |m, r| m.max(mag(&r.v)));
    for (v, r) in vals.iter().enumerate() {
        compare(&format!("value {}", v), &b.nodes[v].to_vec(), &r.v, Tol::Rel(1e-4, big))?;
    }
    Ok(())
}

/// Gradients left by `backward` from each of `roots` in turn on one graph.
pub fn prog_grads(d: Dev, p: &Prog, leaves: &[R], roots: &[usize], rec: &mut Rec) -> Result<(), String> {
    let vals = p.reference(leaves);
    let mut b = build(d, p, leaves);
    let mut acc: Vec<(Vec<f64>, Vec<f64>)> =
        leaves.iter().map(|r| (vec![0.; r.v.len()], vec![0.; r.v.len()])).collect();
    for &root in roots {
        b.nodes[root].backward();
        let g = p.grads(&vals, root);
        let cone = p.cone(root);
        for v in 0..vals.len() {
            if cone[v] {
                compare_grad(
                    &format!("gradient of value {} after backward from {}", v, root),
                    &b.nodes[v].inner_gradient().to_vec_any(),
                    &g[v].0,
                    &floor(&g[v].1),
                    false,
                )?;
            }
        }
        for i in 0..leaves.len() {
            if cone[i] {
                for t in 0..acc[i].0.len() {
                    acc[i].0[t] += g[i].0[t];
                    acc[i].1[t] += g[i].1[t];
                }
            }
        }
        rec.step(1);
    }
    b.nodes.clear();
    let mut k = 0;
    for (i, r) in leaves.iter().enumerate() {
        if i % 2 == 0 && r.s.b == 1 {
            compare_grad(
                &format!("gradient of parameter {}", i),
                &b.params[k].gradient.to_vec_any(),
                &acc[i].0,
                &floor(&acc[i].1),
                false,
            )?;
            k += 1;
        }
    }
    Ok(())
}

/// Errors of composed functions are relative to intermediate results.
fn floor(m: &[f64]) -> Vec<f64> {
    m.iter().map(|x| x.max(0.05)).collect()
}

/// Is some maximum or minimum in the program nearly tied?
pub fn near_tie(p: &Prog, leaves: &[R]) -> bool {
    let vals = p.reference(leaves);
    p.steps.iter().any(|s| match s.op {
        Op::Max(dim) | Op::Min(dim) => {
            let x = &vals[s.args[0]];
            let n = x.s.dim(dim) as usize;
            let low = x.s.lower(dim);
            (0..x.v.len()).any(|i| {
                let at = i / low % n;
                (at + 1..n).any(|k| {
                    let (a, b) = (x.v[i], x.v[i + (k - at) * low]);
                    (a - b).abs() <= 1e-4 * a.abs().max(b.abs()).max(1e-3)
                })
            })
        }
        _ => false,
    })
}

/// Programs of real operations far longer or wider than those of the exhaustive sweeps, with the values to request.
pub fn big_progs(thorough: bool) -> Vec<(String, Prog, Vec<usize>)> {
    use Op::*;
    struct B(Prog);
    impl B {
        fn new(leaves: &[Sh]) -> B {
            B(Prog { leaves: leaves.to_vec(), steps: vec![], shapes: leaves.to_vec() })
        }
        fn op(&mut self, op: Op, args: &[usize]) -> usize {
            let p = &mut self.0;
            let first = p.shapes.len();
            let shs: Vec<Sh> = args.iter().map(|&i| p.shapes[i]).collect();
            match op.judge(&shs) {
                Verdict::Accept(o) => {
                    p.steps.push(Step { op, args: args.to_vec(), first, outs: o.len() });
                    p.shapes.extend(o);
                }
                _ => panic!("harness: {:?} on {:?}", op, shs),
            }
            first
        }
    }
    let mut v = vec![];
    // splitting into many pieces and joining them again, all or some of them used
    for n in if thorough { vec![7usize, 33, 65, 129, 255, 256, 257, 300, 520] } else { vec![33, 130, 257, 300] } {
        let k = n as u32;
        let mut b = B::new(&[Sh::new(&[2, k], 1), Sh::new(&[2], 3)]);
        let t = b.op(Tanh, &[0]);
        let s = b.op(Split(1, k), &[t]);
        let w: Vec<usize> = (0..n).map(|i| if i % 3 == 0 { b.op(Mul, &[s + i, 1]) } else { s + i }).collect();
        let c = b.op(Concat(1), &w.iter().rev().cloned().collect::<Vec<_>>());
        let m = b.op(Mul, &[c, 0]);
        v.push((format!("split and concat {}", n), b.0, vec![c, m, s + n - 1]));
        let mut b = B::new(&[Sh::new(&[2], 1), Sh::new(&[2], k)]);
        let t = b.op(Sigmoid, &[1]);
        let s = b.op(BSplit(k), &[t]);
        let w: Vec<usize> = (0..n).map(|i| if i % 5 == 0 { b.op(Sub, &[s + i, 0]) } else { s + i }).collect();
        let c = b.op(BConcat, &w.iter().rev().cloned().collect::<Vec<_>>());
        let m = b.op(Mul, &[c, 1]);
        let z = b.op(BSum, &[m]);
        v.push((format!("batch split and concat {}", n), b.0, vec![c, z, s + n - 1]));
        // one value in every place of a long concatenation
        let mut b = B::new(&[Sh::new(&[2], 1), Sh::new(&[2], 1)]);
        let t = b.op(Tanh, &[0]);
        let c = b.op(Concat(0), &vec![t; n]);
        let c2 = b.op(BConcat, &vec![t; n]);
        let q = b.op(BSum, &[c2]);
        v.push((format!("the same operand {} times", n), b.0, vec![c, q]));
        // sums of slices and picked elements of one value
        let mut b = B::new(&[Sh::new(&[k], 1)]);
        let t = b.op(Tanh, &[0]);
        let mut a = b.op(Slice(0, 0, 1), &[t]);
        for i in 1..k {
            let e = if i % 2 == 0 { b.op(Slice(0, i, i + 1), &[t]) } else { b.op(Pick(vec![i], 0), &[t]) };
            a = b.op(Add, &[e, a]);
        }
        v.push((format!("slices added {}", n), b.0, vec![a, t]));
    }
    // recurrences over many steps with shared parameters
    for n in if thorough { vec![5, 30, 100, 260] } else { vec![5, 40, 100] } {
        let mut b = B::new(&[Sh::new(&[2, 2], 1), Sh::new(&[2, n as u32], 3), Sh::new(&[2, 2], 1), Sh::new(&[2], 1), Sh::new(&[2], 1)]);
        let mut h = 3;
        let mut hs = vec![];
        for i in 0..n {
            let x = b.op(Slice(1, i as u32, i as u32 + 1), &[1]);
            let (u, w) = (b.op(Matmul, &[0, h]), b.op(Matmul, &[2, x]));
            let z = b.op(Add, &[u, w]);
            let z = b.op(Add, &[z, 4]);
            let z = b.op(MulR(0.2), &[z]);
            h = b.op(Tanh, &[z]);
            hs.push(h);
        }
        let c = b.op(Concat(1), &hs);
        let l = b.op(LnSoftmax(0), &[c]);
        let z = b.op(BSum, &[l]);
        v.push((format!("recurrence of {} steps", n), b.0, vec![h, z, hs[n / 2]]));
    }
    // long chains of mixed operations that keep their values in range
    for n in if thorough { vec![20, 100, 400, 1000] } else { vec![20, 100, 400] } {
        let mut b = B::new(&[Sh::new(&[2, 2], 1), Sh::new(&[2, 2], 2)]);
        let mut x = b.op(Add, &[0, 1]);
        for i in 0..n {
            x = match i % 9 {
                0 => b.op(Sin, &[x]),
                1 => b.op(AddR(0.75), &[x]),
                2 => b.op(Transpose, &[x]),
                3 => b.op(SubL(1.5), &[x]),
                4 => b.op(Mul, &[x, 0]),
                5 => b.op(Matmul, &[x, 0]),
                6 => b.op(Softmax(i as u32 % 2), &[x]),
                7 => b.op(Reshape(Sh::new(&[2, 2], 2)), &[x]),
                _ => b.op(Add, &[x, 1]),
            };
        }
        v.push((format!("mixed chain of {}", n), b.0, vec![x]));
    }
    v
}

type Set = (Vec<Sh>, Vec<Op>, Vec<Op>, usize);

/// Leaves, unary and binary operations and program length of the real programs to enumerate.
pub fn real_sets(thorough: bool) -> Vec<Set> {
    use Op::*;
    let l1 = vec![Sh::new(&[2], 1), Sh::new(&[2], 2), Sh::new(&[], 1)];
    let l2 = vec![Sh::new(&[2, 2], 1), Sh::new(&[2, 2], 3), Sh::new(&[2, 1], 1)];
    let un = vec![
        Tanh, Neg, MulR(3.), SubL(1.), DivL(2.), Sigmoid, Exp, Sum(0), Max(0), Min(1), Lse(0), Bcast(1, 2), Softmax(0),
        LnSoftmax(0), Ssce(vec![1], 0), Slice(0, 1, 2), Split(0, 2), Pick(vec![1, 0], 0), BSum, BSplit(2),
        BPick(vec![1, 0, 1]), BSlice(0, 1), Flatten, Reshape(Sh::new(&[1, 2], 1)), Transpose, Powi(2), TriL(0),
    ];
    let bin = vec![Add, Sub, Mul, Div, Matmul, Concat(0), Concat(1), BConcat];
    let un3 = vec![Tanh, MulR(3.), Sum(0), Softmax(0), Split(0, 2), BSum, BSplit(2), Transpose];
    let bin3 = vec![Add, Mul, Matmul, Concat(0), BConcat];
    let mut v = vec![(l1.clone(), un.clone(), bin.clone(), 2), (l2.clone(), un.clone(), bin.clone(), 2)];
    if thorough {
        v.push((vec![Sh::new(&[2], 1), Sh::new(&[2, 2], 2)], un3.clone(), bin3.clone(), 3));
        v.push((l1, un3, vec![Sub, Mul, Concat(0), BConcat], 3));
    } else {
        v.push((vec![Sh::new(&[2, 2], 1)], vec![Tanh, Split(0, 2), Sum(0)], vec![Mul, Add], 3));
    }
    v
}

//! C01: every live tensor keeps exactly the values last written to it, through any history.
use mc_core::backend::*;
use mc_core::*;
use prima_undine::functions::BasicFunctions;
use prima_undine::initializers::Constant;
use prima_undine::optimizers::SGD;
use prima_undine::{Node, Optimizer, Parameter, Shape};

/// Shapes the histories use: two in one size class, one with a batch, one in the next class.
fn shapes() -> [Sh; 4] {
    [Sh::new(&[3], 1), Sh::new(&[3], 2), Sh::new(&[70], 1), Sh::new(&[64], 1)]
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum A {
    Const(u8),
    Slice(u8),
    Host(u8),
    Param(u8),
    Copy(u8),
    Neg(u8),
    Sum(u8),
    Cat(u8, u8),
    Add(u8, u8),
    AddAssign(u8, u8),
    SubAssign(u8, u8),
    MulAssign(u8),
    Reset(u8),
    ResetSlice(u8),
    ResetTensor(u8, u8),
    Reshape(u8),
    Alias(u8),
    Replace(u8),
    /// a graph that owns a copy of the tensor, not evaluated yet
    Graph(u8),
    Eval(u8),
    Back(u8),
    /// builds, evaluates and differentiates a graph over the tensor and throws it away
    Temp(u8),
    Train(u8),
    Drop(u8),
}

enum Slot {
    T(Box<Ten>),
    N(Box<Nd>, Box<Nd>),
    P(Box<Parameter<'static>>),
}

#[derive(Clone, Debug, PartialEq)]
enum Mod {
    T { s: Sh, v: Vec<f32>, alias: Option<u8> },
    N { s: Sh, v: Vec<f32>, eval: bool, back: bool },
    P { s: Sh, v: Vec<f32>, g: Vec<f32> },
}

#[derive(Clone, Default)]
struct M {
    s: Vec<Option<Mod>>,
    step: u32,
}

const MAX: usize = 4;

impl M {
    fn live(&self) -> usize {
        self.s.iter().filter(|x| x.is_some()).count()
    }
    fn borrowed(&self, i: usize) -> bool {
        self.s.iter().flatten().any(|m| matches!(m, Mod::T { alias: Some(j), .. } if *j as usize == i))
    }
    fn acts(&self, rich: bool) -> Vec<A> {
        let mut v = vec![];
        let room = self.live() < MAX;
        if room {
            for k in 0..if rich { 4 } else { 3 } {
                v.push(A::Const(k));
                if rich || k != 1 {
                    v.push(A::Slice(k));
                }
            }
            v.push(A::Host(2));
            v.push(A::Param(0));
            if rich {
                v.push(A::Param(2));
            }
        }
        for (i, m) in self.s.iter().enumerate() {
            let m = match m {
                None => continue,
                Some(m) => m,
            };
            let k = i as u8;
            let b = self.borrowed(i);
            if !b {
                v.push(A::Drop(k));
            }
            match m {
                Mod::T { s, alias, .. } => {
                    if room {
                        v.push(A::Copy(k));
                        v.push(A::Alias(k));
                        v.push(A::Neg(k));
                        v.push(A::Replace(k));
                        v.push(A::Graph(k));
                        if rich {
                            v.push(A::Sum(k));
                        }
                    }
                    v.push(A::Temp(k));
                    for (j, o) in self.s.iter().enumerate() {
                        if let Some(Mod::T { s: t, .. }) = o {
                            if s.same_dims(t) && room && i <= j {
                                v.push(A::Add(k, j as u8));
                            }
                            if room && i < j && s.depth() == 1 && t.depth() == 1 && s.compat(t) {
                                v.push(A::Cat(k, j as u8));
                            }
                            if i == j || b || alias.is_some() {
                                continue;
                            }
                            if s.same_dims(t) && s.compat(t) {
                                v.push(A::AddAssign(k, j as u8));
                                if rich {
                                    v.push(A::SubAssign(k, j as u8));
                                }
                            }
                            if s.size() == t.size() {
                                v.push(A::ResetTensor(k, j as u8));
                            }
                        }
                    }
                    if !b && alias.is_none() {
                        v.push(A::MulAssign(k));
                        v.push(A::Reset(k));
                        v.push(A::Reshape(k));
                        if rich {
                            v.push(A::ResetSlice(k));
                        }
                    }
                }
                Mod::N { .. } => {
                    v.push(A::Eval(k));
                    v.push(A::Back(k));
                }
                Mod::P { .. } => {
                    v.push(A::Train(k));
                    v.push(A::Temp(k));
                    if room {
                        v.push(A::Copy(k));
                    }
                }
            }
        }
        v
    }
    fn put(&mut self, m: Mod) -> usize {
        for i in 0..self.s.len() {
            if self.s[i].is_none() {
                self.s[i] = Some(m);
                return i;
            }
        }
        self.s.push(Some(m));
        self.s.len() - 1
    }
    fn t(&self, i: u8) -> (Sh, Vec<f32>) {
        match self.s[i as usize].as_ref().unwrap() {
            Mod::T { s, v, .. } => (*s, v.clone()),
            Mod::P { s, v, .. } => (*s, v.clone()),
            _ => unreachable!(),
        }
    }
    fn vals(&self, s: Sh) -> Vec<f32> {
        (0..s.size()).map(|k| (self.step * 97 + k as u32 * 5) as f32 - 100.).collect()
    }
    /// The slot written, if any.
    fn apply(&mut self, a: A) {
        self.step += 1;
        let sh = shapes();
        let fresh = |s, v| Mod::T { s, v, alias: None };
        let k = self.step as f32 + 0.5;
        let un = |op: Op, x: (Sh, Vec<f32>)| -> (Sh, Vec<f32>) {
            let r = R::of_f32(x.0, &x.1);
            let y = op.eval(&[&r]).remove(0);
            (y.s, y.f32s())
        };
        match a {
            A::Const(s) => {
                let s = sh[s as usize];
                self.put(fresh(s, vec![k; s.size()]));
            }
            A::Slice(s) | A::Host(s) => {
                let s = sh[s as usize];
                let v = self.vals(s);
                self.put(fresh(s, v));
            }
            A::Param(s) => {
                let s = sh[s as usize];
                self.put(Mod::P { s, v: vec![k; s.size()], g: vec![0.; s.size()] });
            }
            A::Copy(i) => {
                let (s, v) = self.t(i);
                self.put(fresh(s, v));
            }
            A::Neg(i) => {
                let (s, v) = un(Op::Neg, self.t(i));
                self.put(fresh(s, v));
            }
            A::Sum(i) => {
                let (s, v) = un(Op::Sum(0), self.t(i));
                self.put(fresh(s, v));
            }
            A::Replace(i) => {
                let (s, v) = un(Op::MulR(2.), self.t(i));
                self.put(fresh(s, v));
            }
            A::Add(i, j) | A::Cat(i, j) => {
                let (x, y) = (self.t(i), self.t(j));
                let (x, y) = (R::of_f32(x.0, &x.1), R::of_f32(y.0, &y.1));
                let op = if matches!(a, A::Add(..)) { Op::Add } else { Op::Concat(0) };
                let z = op.eval(&[&x, &y]).remove(0);
                self.put(fresh(z.s, z.f32s()));
            }
            A::AddAssign(i, j) | A::SubAssign(i, j) => {
                let (st, vt) = self.t(j);
                let sign = if matches!(a, A::AddAssign(..)) { 1. } else { -1. };
                if let Some(Mod::T { s, v, .. }) = &mut self.s[i as usize] {
                    let vol = s.vol();
                    for b in 0..s.b.max(st.b) as usize {
                        for e in 0..vol {
                            let x = if s.b == 1 { e } else { b * vol + e };
                            let y = if st.b == 1 { e } else { b * vol + e };
                            v[x] += sign * vt[y];
                        }
                    }
                }
            }
            A::MulAssign(i) => {
                if let Some(Mod::T { v, .. }) = &mut self.s[i as usize] {
                    v.iter_mut().for_each(|x| *x *= 2.);
                }
            }
            A::Reset(i) => {
                if let Some(Mod::T { v, .. }) = &mut self.s[i as usize] {
                    v.iter_mut().for_each(|x| *x = k);
                }
            }
            A::ResetSlice(i) => {
                let n = self.vals(self.t(i).0);
                if let Some(Mod::T { v, .. }) = &mut self.s[i as usize] {
                    *v = n;
                }
            }
            A::ResetTensor(i, j) => {
                let w = self.t(j).1;
                if let Some(Mod::T { v, .. }) = &mut self.s[i as usize] {
                    *v = w;
                }
            }
            A::Reshape(i) => {
                if let Some(Mod::T { s, .. }) = &mut self.s[i as usize] {
                    *s = reshaped(*s);
                }
            }
            A::Alias(i) => {
                let (s, v) = self.t(i);
                self.put(Mod::T { s, v, alias: Some(i) });
            }
            A::Graph(i) => {
                let (s, v) = self.t(i);
                self.put(Mod::N { s, v, eval: false, back: false });
            }
            A::Eval(i) => {
                if let Some(Mod::N { eval, .. }) = &mut self.s[i as usize] {
                    *eval = true;
                }
            }
            A::Back(i) => {
                if let Some(Mod::N { eval, back, .. }) = &mut self.s[i as usize] {
                    *eval = true;
                    *back = true;
                }
            }
            A::Temp(i) => {
                // the gradient of 3x is added to a parameter
                if let Some(Mod::P { g, .. }) = &mut self.s[i as usize] {
                    g.iter_mut().for_each(|x| *x += 3.);
                }
            }
            A::Train(i) => {
                if let Some(Mod::P { v, g, .. }) = &mut self.s[i as usize] {
                    for (x, d) in v.iter_mut().zip(g.iter_mut()) {
                        *x -= 0.5 * *d;
                        *d = 0.;
                    }
                }
            }
            A::Drop(i) => {
                self.s[i as usize] = None;
            }
        }
    }
}

fn reshaped(s: Sh) -> Sh {
    if s.b > 1 {
        Sh::new(&[s.size() as u32], 1)
    } else if s.dim(0) % 2 == 0 {
        Sh::new(&[s.dim(0) / 2], 2)
    } else {
        Sh::new(&[1, s.size() as u32], 1)
    }
}

struct W {
    d: Dev,
    s: Vec<Option<Slot>>,
}

impl W {
    fn put(&mut self, x: Slot) {
        for s in self.s.iter_mut() {
            if s.is_none() {
                *s = Some(x);
                return;
            }
        }
        self.s.push(Some(x));
    }
    fn t(&self, i: u8) -> &'static Ten {
        match self.s[i as usize].as_ref().unwrap() {
            Slot::T(t) => forever(&**t),
            _ => unreachable!(),
        }
    }
    fn m(&mut self, i: u8) -> &'static mut Ten {
        match self.s[i as usize].as_mut().unwrap() {
            Slot::T(t) => forever_mut(&mut **t),
            _ => unreachable!(),
        }
    }
    fn new(&mut self, t: Ten) {
        self.put(Slot::T(Box::new(t)));
    }
    fn apply(&mut self, a: A, m: &M) {
        let sh = shapes();
        let d = self.d;
        let k = m.step as f32 + 0.5;
        match a {
            A::Const(s) => self.new(d.new_tensor_by_constant(sh[s as usize].shape(), k)),
            A::Slice(s) => self.new(d.new_tensor_by_slice(sh[s as usize].shape(), &m.vals(sh[s as usize]))),
            A::Host(s) => {
                let mut t = Ten::new_host_tensor(sh[s as usize].shape(), m.vals(sh[s as usize]));
                t.move_to_device(d);
                self.new(t);
            }
            A::Param(s) => {
                let p = d.new_parameter(sh[s as usize].shape(), &Constant::new(k));
                self.put(Slot::P(Box::new(p)));
            }
            A::Copy(i) => {
                let t = match self.s[i as usize].as_mut().unwrap() {
                    Slot::P(p) => Ten::from(forever_mut(&mut **p)),
                    Slot::T(t) => d.copy_tensor(t),
                    _ => unreachable!(),
                };
                self.new(t);
            }
            A::Neg(i) => self.new(-self.t(i)),
            A::Sum(i) => self.new(self.t(i).sum(0)),
            A::Replace(i) => {
                let mut t = d.new_tensor(self.t(i).shape());
                t.replace(self.t(i) * 2.);
                self.new(t);
            }
            A::Add(i, j) => self.new(self.t(i) + self.t(j)),
            A::Cat(i, j) => self.new(Ten::concat(&[self.t(i), self.t(j)], 0)),
            A::AddAssign(i, j) => *self.m(i) += self.t(j),
            A::SubAssign(i, j) => *self.m(i) -= self.t(j),
            A::MulAssign(i) => *self.m(i) *= 2.,
            A::Reset(i) => self.m(i).reset(k),
            A::ResetSlice(i) => {
                let v = m.vals(m.t(i).0);
                d.reset_tensor_by_slice(self.m(i), &v)
            }
            A::ResetTensor(i, j) => d.reset_tensor_by_tensor(self.m(i), self.t(j)),
            A::Reshape(i) => {
                let s = Sh::of(self.t(i).shape());
                self.m(i).update_shape(reshaped(s).shape());
            }
            A::Alias(i) => self.new(Ten::from(self.t(i))),
            A::Graph(i) => {
                let n = Node::from(d.copy_tensor(self.t(i)));
                let y = &n * 2.;
                self.put(Slot::N(Box::new(n), Box::new(y)));
            }
            A::Eval(i) => {
                if let Some(Slot::N(_, y)) = &self.s[i as usize] {
                    y.forward();
                }
            }
            A::Back(i) => {
                if let Some(Slot::N(_, y)) = &self.s[i as usize] {
                    y.backward();
                }
            }
            A::Temp(i) => {
                let n = match self.s[i as usize].as_mut().unwrap() {
                    Slot::P(p) => Node::from(forever_mut(&mut **p)),
                    Slot::T(t) => Node::from(forever(&**t)),
                    _ => unreachable!(),
                };
                let y = &n * 3.;
                y.forward();
                y.backward();
            }
            A::Train(i) => {
                if let Some(Slot::P(p)) = &mut self.s[i as usize] {
                    SGD::new(0.5).update_parameters(&mut [&mut **p]);
                }
            }
            A::Drop(i) => {
                self.s[i as usize] = None;
            }
        }
    }
    fn check(&self, m: &M) -> Result<(), String> {
        let cmp = |what: String, t: &Ten, s: &Sh, v: &[f32]| -> Result<(), String> {
            let got = t.shape();
            if got != s.shape() {
                return Err(format!("{} has shape {:?} instead of {}", what, got, s.show()));
            }
            let got = t.to_vec();
            if got.len() != v.len() || got.iter().zip(v).any(|(a, b)| a.to_bits() != b.to_bits() && *a != *b) {
                return Err(format!("{} reads {:?} instead of {:?}", what, got, v));
            }
            Ok(())
        };
        for (i, (a, b)) in self.s.iter().zip(&m.s).enumerate() {
            match (a, b) {
                (None, None) => {}
                (Some(Slot::T(t)), Some(Mod::T { s, v, .. })) => cmp(format!("tensor {}", i), t, s, v)?,
                (Some(Slot::P(p)), Some(Mod::P { s, v, g })) => {
                    cmp(format!("value of parameter {}", i), &p.value, s, v)?;
                    cmp(format!("gradient of parameter {}", i), &p.gradient, s, g)?;
                }
                (Some(Slot::N(x, y)), Some(Mod::N { s, v, eval, back })) => {
                    if *eval {
                        cmp(format!("input node {}", i), &forever(&**x).inner_value(), s, v)?;
                        let w: Vec<f32> = v.iter().map(|x| x * 2.).collect();
                        cmp(format!("node {}", i), &forever(&**y).inner_value(), s, &w)?;
                    }
                    if *back {
                        cmp(format!("gradient of input node {}", i), &forever(&**x).inner_gradient(), s, &vec![2.; s.size()])?;
                        cmp(format!("gradient of node {}", i), &forever(&**y).inner_gradient(), s, &vec![1.; s.size()])?;
                    }
                }
                _ => return Err("harness: slots differ".into()),
            }
        }
        Ok(())
    }
}

fn replay(h: &[A], kern: Dev, rec: &mut Rec) -> Result<(), String> {
    let s = st();
    let dv = Dv::from(tracked(&s, kern));
    {
        let mut w = W { d: dv.d(), s: vec![] };
        let mut m = M::default();
        for (k, &a) in h.iter().enumerate() {
            m.apply(a);
            if let Err(e) = quiet(|| w.apply(a, &m)) {
                return Err(format!("{:?}: {:?} panicked: {}", h, h[k], e));
            }
            // the prefixes were compared as histories of their own
            if k + 1 == h.len() {
                w.check(&m).map_err(|e| format!("{:?}: {}", h, e))?;
                // aliases first
                loop {
                    let i = match (0..m.s.len()).rev().find(|&i| m.s[i].is_some() && !m.borrowed(i)) {
                        None => break,
                        Some(i) => i,
                    };
                    m.s[i] = None;
                    w.s[i] = None;
                    w.check(&m).map_err(|e| format!("{:?}, then dropping {}: {}", h, i, e))?;
                }
            }
        }
    }
    rec.step(h.len() as u64);
    rec.trace(1);
    let g = lk(&s);
    match g.errors.first() {
        Some(e) => Err(format!("{:?}: {}", h, e)),
        None => Ok(()),
    }
}

fn all(h: &mut Vec<A>, m: &M, depth: usize, rich: bool, kern: Dev, rec: &mut Rec) -> Result<(), String> {
    replay(h, kern, rec)?;
    if rec.traces % 256 == 0 {
        rec.heartbeat();
    }
    rec.state(hash64(&format!("{:?}", m.s)));
    if h.len() == depth {
        return Ok(());
    }
    for a in m.acts(rich) {
        let mut n = m.clone();
        n.apply(a);
        h.push(a);
        all(h, &n, depth, rich, kern, rec)?;
        h.pop();
    }
    Ok(())
}

fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut v = vec![];
    for p in perms(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            v.push(q);
        }
    }
    v
}

fn body(ctx: &mut Ctx) {
    mc_core::alloc::enable_guards();
    let kern = leaked_naive();
    for (depth, rich) in ctx.pick(vec![(4, true)], vec![(5, true)]) {
        let m0 = M::default();
        for a in m0.acts(rich) {
            let mut m1 = m0.clone();
            m1.apply(a);
            for b in m1.acts(rich) {
                let mut m2 = m1.clone();
                m2.apply(b);
                for c in m2.acts(rich) {
                    let mut m3 = m2.clone();
                    m3.apply(c);
                    ctx.case(
                        || format!("histories {} {:?} {:?} {:?}", if rich { "rich" } else { "plain" }, a, b, c),
                        |rec| all(&mut vec![a, b, c], &m3, depth, rich, kern, rec),
                    );
                }
            }
        }
    }
    // several live tensors of sizes around the class borders, released and reallocated in every order
    let sizes = [1u32, 63, 64, 65, 127, 128, 129, 200, 256, 257];
    let n = ctx.pick(4, 5);
    for start in 0..sizes.len() {
        for stride in [1, 3, 7] {
            ctx.case(
                || format!("orders {} {}", start, stride),
                |rec| {
                    let set: Vec<u32> = (0..n).map(|i| sizes[(start + i * stride) % sizes.len()]).collect();
                    let d = leaked_naive();
                    for p in perms(n) {
                        for q in perms(n.min(4)) {
                            let mut ts: Vec<Option<(Ten, R)>> = set
                                .iter()
                                .enumerate()
                                .map(|(i, &k)| {
                                    let r = distinct(Sh::new(&[k], 1), i as u64 + 1);
                                    Some((ten(d, &r), r))
                                })
                                .collect();
                            let check = |ts: &Vec<Option<(Ten, R)>>| -> Result<(), String> {
                                for (i, x) in ts.iter().enumerate() {
                                    if let Some((t, r)) = x {
                                        check_ten(&format!("{:?} {:?}: tensor {}", p, q, i), t, r, Tol::Exact)?;
                                    }
                                }
                                Ok(())
                            };
                            for (step, &i) in p.iter().enumerate() {
                                ts[i] = None;
                                if step % 2 == 1 {
                                    let j = q[step % q.len()];
                                    let r = distinct(Sh::new(&[set[j]], 1), 50 + step as u64);
                                    ts.push(Some((ten(d, &r), r)));
                                }
                                check(&ts)?;
                                rec.step(1);
                            }
                            for &j in &q {
                                let r = distinct(Sh::new(&[set[j]], 1), 80 + j as u64);
                                ts.push(Some((ten(d, &r), r)));
                            }
                            check(&ts)?;
                            rec.trace(1);
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // many live tensors
    for gap in 2..ctx.pick(6, 12) {
        ctx.case(
            || format!("many tensors, every {}", gap),
            |rec| {
                let d = leaked_naive();
                let mut ts: Vec<Option<(Ten, R)>> = vec![];
                for round in 0..4u64 {
                    for n in 1..300u32 {
                        let r = distinct(Sh::new(&[n], 1 + (n % 3)), round * 300 + n as u64);
                        ts.push(Some((ten(d, &r), r)));
                    }
                    for i in 0..ts.len() {
                        if (i + round as usize) % gap == 0 {
                            ts[i] = None;
                        }
                    }
                    for x in ts.iter().flatten() {
                        check_ten("live tensor", &x.0, &x.1, Tol::Exact)?;
                    }
                    rec.step(300);
                }
                Ok(())
            },
        );
    }
    // every way a tensor gets its contents, at sizes around powers of two and block lengths
    let mut sizes: Vec<u32> = (1..=ctx.pick(300, 1300)).collect();
    for k in 9..=ctx.pick(17, 21) {
        let n = 1u32 << k;
        sizes.extend([n - 1, n, n + 1, n + n / 4 + 3, n + n / 2 - 1]);
    }
    sizes.extend([1000, 3000, 5000, 5003, 10000, 70001, 100000]);
    for n in sizes {
        for shape in [Sh::new(&[n], 1), Sh::new(&[1, n], 2), Sh::new(&[2], n), Sh::new(&[3, n, 2], 1)] {
            if shape.size() > 1 << 22 {
                continue;
            }
            ctx.case(
                || format!("contents {}", shape.show()),
                |rec| {
                    let (d, e) = (leaked_naive(), leaked_naive());
                    let q = shape.shape();
                    let a = ints(shape, 1 << 20, true, 5);
                    let b = ints(shape, 1 << 20, true, 6);
                    let is = |what: &str, t: &Ten, r: &R| check_ten(what, t, r, Tol::Exact);
                    poison(d, &[class_of(shape.size())], 3, f32::NAN);
                    let x = ten(d, &a);
                    is("slice", &x, &a)?;
                    let mut y = d.copy_tensor(&x);
                    is("copy", &y, &a)?;
                    let z = e.copy_tensor(&x);
                    is("copy to another device", &z, &a)?;
                    let k = d.new_tensor_by_constant(q, 2.5);
                    is("constant", &k, &Rt::new(shape, vec![2.5; shape.size()]))?;
                    d.reset_tensor_by_slice(&mut y, &b.f32s());
                    is("reset by slice", &y, &b)?;
                    is("source of the copy", &x, &a)?;
                    d.reset_tensor_by_tensor(&mut y, &x);
                    is("reset by tensor", &y, &a)?;
                    d.reset_tensor_by_tensor(&mut y, &z);
                    is("reset by a tensor of another device", &y, &a)?;
                    y.reset(-3.);
                    is("reset", &y, &Rt::new(shape, vec![-3.; shape.size()]))?;
                    y = ten(d, &b);
                    y += &x;
                    is("sum", &y, &Rt::new(shape, a.v.iter().zip(&b.v).map(|(p, q)| p + q).collect()))?;
                    y -= &x;
                    is("difference", &y, &b)?;
                    y *= -2.;
                    is("multiple", &y, &b.map(|v| v * -2.))?;
                    is("operand", &x, &a)?;
                    let w = d.copy_tensor(&z);
                    is("copied back", &w, &a)?;
                    let n = Node::from(forever(&x));
                    let m = Node::from(w);
                    check_node("input", &n, &a, Tol::Exact)?;
                    check_node("owned input", &m, &a, Tol::Exact)?;
                    drop(n);
                    drop(m);
                    let mut h = Ten::new_host_tensor(q, b.f32s());
                    h.move_to_device(d);
                    is("from the host", &h, &b)?;
                    if shape.b == 1 {
                        let mut p = d.new_parameter(q, &Constant::new(1.5));
                        is("initialised", &p.value, &Rt::new(shape, vec![1.5; shape.size()]))?;
                        is("gradient", &p.gradient, &Rt::new(shape, vec![0.; shape.size()]))?;
                        d.reset_tensor_by_tensor(&mut p.value, &x);
                        check_node("parameter", &Node::from(forever_mut(&mut p)), &a, Tol::Exact)?;
                    }
                    rec.step(20);
                    Ok(())
                },
            );
        }
    }
    let _ = Shape::new(&[1], 1);
}

fn main() {
    run(
        Spec {
            id: "C01",
            level: "model_checking",
            rule: "every history, to a depth, of creating (constant, slice, host, parameter), copying, computing, joining, \
                   in-place updates, resets, reshaping, aliasing, replacing, graphs held unevaluated, evaluated or \
                   differentiated, training and dropping, over shapes of two size classes; all live tensors compared exactly; \
                   every release and reallocation order of several tensors around the class borders; hundreds of live tensors",
            assumptions: &["an alias is not written through"],
        },
        body,
    );
}

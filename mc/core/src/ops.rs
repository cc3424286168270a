//! The operations of the library: which operands they accept, what they compute (reference), and
//! how to invoke the eager, graph and operator forms of the implementation.
use crate::rt::*;
use crate::sh::Sh;
use crate::{Dev, Nd, Ten};
use prima_undine::functions::BasicFunctions;
use prima_undine::operators as po;
use prima_undine::{Node, Operator};

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Neg, Abs, Sqrt, Sin, Cos, Tan, Exp, Ln, Tanh, Sigmoid, Softplus, Relu, Lrelu,
    Prelu(f32), Elu(f32), Powf(f32), Powi(i32),
    /// constant on the right (x ∘ k) or left (k ∘ x)
    AddR(f32), AddL(f32), SubR(f32), SubL(f32), MulR(f32), MulL(f32), DivR(f32), DivL(f32),
    Add, Sub, Mul, Div, Pow,
    Sum(u32), Max(u32), Min(u32), Lse(u32), Bcast(u32, u32),
    LnSoftmax(u32), Softmax(u32), Sce(u32), Ssce(Vec<u32>, u32),
    Matmul, Transpose, TriL(u32), TriU(u32),
    Slice(u32, u32, u32), Split(u32, u32), Pick(Vec<u32>, u32), Concat(u32),
    Reshape(Sh), Flatten,
    BSum, BSlice(u32, u32), BSplit(u32), BPick(Vec<u32>), BConcat,
}
use Op::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Accept(Vec<Sh>),
    Reject,
    /// the statement leaves this open
    Open,
}

fn acc(s: Sh) -> Verdict {
    if fits(&s.d.map(|x| x as u64), s.b as u64) {
        Verdict::Accept(vec![s])
    } else {
        Verdict::Reject
    }
}

const MAXV: u128 = u32::MAX as u128;

/// exact number of elements of a candidate result, to keep to the 32-bit limits
fn fits(d: &[u64; 8], b: u64) -> bool {
    let v: u128 = d.iter().map(|&x| x as u128).product();
    v <= MAXV && v * b as u128 <= 1 << 31
}

impl Op {
    pub fn arity(&self) -> Option<usize> {
        match self {
            Add | Sub | Mul | Div | Pow | Sce(_) | Matmul => Some(2),
            Concat(_) | BConcat => None,
            _ => Some(1),
        }
    }
    pub fn outputs(&self) -> usize {
        match self {
            Split(_, n) => *n as usize,
            BSplit(n) => *n as usize,
            _ => 1,
        }
    }

    /// Which operands fit the definition, and the shapes of the results.
    pub fn judge(&self, x: &[Sh]) -> Verdict {
        use Verdict::*;
        match self {
            Neg | Abs | Sqrt | Sin | Cos | Tan | Exp | Ln | Tanh | Sigmoid | Softplus | Relu
            | Lrelu | Prelu(_) | Elu(_) | Powf(_) | Powi(_) | AddR(_) | AddL(_) | SubR(_)
            | SubL(_) | MulR(_) | MulL(_) | DivR(_) | DivL(_) => acc(x[0]),
            Add | Sub | Mul | Div | Pow => {
                let b = x[0].b.max(x[1].b);
                if !x[0].compat(&x[1]) {
                    Reject
                } else if x[0].scalar() {
                    acc(x[1].with_b(b))
                } else if x[1].scalar() || x[0].same_dims(&x[1]) {
                    acc(x[0].with_b(b))
                } else {
                    Reject
                }
            }
            Sum(d) | Max(d) | Min(d) | Lse(d) => {
                if *d >= 8 {
                    Reject
                } else {
                    acc(x[0].with(*d, 1))
                }
            }
            LnSoftmax(d) | Softmax(d) => {
                if *d >= 8 {
                    Reject
                } else {
                    acc(x[0])
                }
            }
            Bcast(d, n) => {
                if *d >= 8 || *n == 0 || x[0].dim(*d) != 1 {
                    Reject
                } else {
                    let mut q = [1u64; 8];
                    for i in 0..8 {
                        q[i] = x[0].d[i] as u64;
                    }
                    q[*d as usize] = *n as u64;
                    if !fits(&q, x[0].b as u64) {
                        Reject
                    } else {
                        acc(x[0].with(*d, *n))
                    }
                }
            }
            Sce(d) => {
                if *d >= 8 {
                    Reject
                } else if !x[0].compat(&x[1]) {
                    Reject
                } else if x[0].same_dims(&x[1]) {
                    acc(x[0].with_b(x[0].b.max(x[1].b)).with(*d, 1))
                } else if x[0].scalar() || x[1].scalar() {
                    Open // arithmetic accepts a scalar, the graph operator does not
                } else {
                    Reject
                }
            }
            Ssce(ids, d) | Pick(ids, d) => {
                let n = ids.len() as u32;
                if *d >= 8
                    || n == 0
                    || !(n == x[0].b || x[0].b == 1 || n == 1)
                    || ids.iter().any(|&i| i >= x[0].dim(*d))
                {
                    Reject
                } else {
                    acc(x[0].with(*d, 1).with_b(x[0].b.max(n)))
                }
            }
            Matmul => {
                if x[0].matrix()
                    && x[1].matrix()
                    && x[0].dim(1) == x[1].dim(0)
                    && x[0].compat(&x[1])
                {
                    acc(Sh::new(&[x[0].dim(0), x[1].dim(1)], x[0].b.max(x[1].b)))
                } else {
                    Reject
                }
            }
            Transpose => {
                if x[0].matrix() {
                    acc(Sh::new(&[x[0].dim(1), x[0].dim(0)], x[0].b))
                } else {
                    Reject
                }
            }
            TriL(_) | TriU(_) => {
                if x[0].matrix() && x[0].dim(0) == x[0].dim(1) {
                    acc(x[0])
                } else {
                    Reject
                }
            }
            Slice(d, l, u) => {
                if *d >= 8 || l >= u || *u > x[0].dim(*d) {
                    Reject
                } else {
                    acc(x[0].with(*d, u - l))
                }
            }
            Split(d, n) => {
                if *d >= 8 || *n == 0 || x[0].dim(*d) % n != 0 {
                    Reject
                } else {
                    Accept(vec![x[0].with(*d, x[0].dim(*d) / n); *n as usize])
                }
            }
            Concat(d) => {
                if x.is_empty() || *d >= 8 {
                    return Reject;
                }
                let mut s = x[0];
                let mut n = 0u64;
                for y in x {
                    if s.with(*d, 1).d != y.with(*d, 1).d || !s.compat(y) {
                        return Reject;
                    }
                    s.b = s.b.max(y.b);
                    n += y.dim(*d) as u64;
                }
                if n > u32::MAX as u64 {
                    return Reject;
                }
                acc(s.with(*d, n as u32))
            }
            Reshape(s) => {
                if s.size() == x[0].size() {
                    acc(*s)
                } else {
                    Reject
                }
            }
            Flatten => acc(Sh::new(&[x[0].vol() as u32], x[0].b)),
            BSum => acc(x[0].with_b(1)),
            BSlice(l, u) => {
                if l >= u || *u > x[0].b {
                    Reject
                } else {
                    acc(x[0].with_b(u - l))
                }
            }
            BSplit(n) => {
                if *n == 0 || x[0].b % n != 0 {
                    Reject
                } else {
                    Accept(vec![x[0].with_b(x[0].b / n); *n as usize])
                }
            }
            BPick(ids) => {
                if ids.is_empty() || ids.iter().any(|&i| i >= x[0].b) {
                    Reject
                } else {
                    acc(x[0].with_b(ids.len() as u32))
                }
            }
            BConcat => {
                if x.is_empty() || x.iter().any(|y| !y.same_dims(&x[0])) {
                    Reject
                } else {
                    let n: u64 = x.iter().map(|y| y.b as u64).sum();
                    if n > u32::MAX as u64 {
                        return Reject;
                    }
                    acc(x[0].with_b(n as u32))
                }
            }
        }
    }

    /// Reference semantics (operands must be acceptable).
    pub fn eval<T: Num>(&self, x: &[&Rt<T>]) -> Vec<Rt<T>> {
        let a = x[0];
        let un = |f: fn(f64) -> (f64, f64)| -> Vec<Rt<T>> {
            vec![a.map(|t| {
                let (y, d) = f(t.v());
                t.un(y, d)
            })]
        };
        let unk = |f: &dyn Fn(f64) -> (f64, f64)| -> Vec<Rt<T>> {
            vec![a.map(|t| {
                let (y, d) = f(t.v());
                t.un(y, d)
            })]
        };
        let shapes: Vec<Sh> = x.iter().map(|r| r.s).collect();
        let os = match self.judge(&shapes) {
            Verdict::Accept(v) => v,
            _ => panic!("harness: eval of rejected operands {:?} {:?}", self, shapes),
        };
        let o = os[0];
        match self {
            Neg => un(|v| (-v, -1.)),
            Abs => un(|v| (v.abs(), v.signum())),
            Sqrt => un(|v| (v.sqrt(), 0.5 / v.sqrt())),
            Sin => un(|v| (v.sin(), v.cos())),
            Cos => un(|v| (v.cos(), -v.sin())),
            Tan => un(|v| (v.tan(), 1. + v.tan() * v.tan())),
            Exp => un(|v| (v.exp(), v.exp())),
            Ln => un(|v| (v.ln(), 1. / v)),
            Tanh => un(|v| (v.tanh(), 1. - v.tanh() * v.tanh())),
            Sigmoid => un(|v| {
                let s = 1. / (1. + (-v).exp());
                (s, s * (1. - s))
            }),
            Softplus => un(|v| {
                (v.max(0.) + (-v.abs()).exp().ln_1p(), 1. / (1. + (-v).exp()))
            }),
            Relu => un(|v| (v.max(0.), if v > 0. { 1. } else { 0. })),
            Lrelu => unk(&|v| {
                let k = 0.01f32 as f64;
                if v > 0. { (v, 1.) } else { (k * v, k) }
            }),
            Prelu(k) => unk(&|v| if v > 0. { (v, 1.) } else { (*k as f64 * v, *k as f64) }),
            Elu(k) => unk(&|v| {
                let k = *k as f64;
                if v > 0. { (v, 1.) } else { (k * (v.exp() - 1.), k * v.exp()) }
            }),
            Powf(k) => unk(&|v| {
                let k = *k as f64;
                (v.powf(k), if k == 0. { 0. } else { k * v.powf(k - 1.) })
            }),
            Powi(k) => unk(&|v| {
                let k = *k as f64;
                (v.powf(k), if k == 0. { 0. } else { k * v.powf(k - 1.) })
            }),
            AddR(k) | AddL(k) => unk(&|v| (v + *k as f64, 1.)),
            SubR(k) => unk(&|v| (v - *k as f64, 1.)),
            SubL(k) => unk(&|v| (*k as f64 - v, -1.)),
            MulR(k) | MulL(k) => unk(&|v| (v * *k as f64, *k as f64)),
            DivR(k) => unk(&|v| (v / *k as f64, 1. / *k as f64)),
            DivL(k) => unk(&|v| (*k as f64 / v, -(*k as f64) / v / v)),
            Add | Sub | Mul | Div | Pow => {
                let b = x[1];
                let z = [0u32; 8];
                vec![Rt::build(o, |c, n| {
                    let p = if a.s.scalar() { a.at(&z, n) } else { a.at(c, n) };
                    let q = if b.s.scalar() { b.at(&z, n) } else { b.at(c, n) };
                    let (u, v) = (p.v(), q.v());
                    match self {
                        Add => p.bin(q, u + v, 1., 1.),
                        Sub => p.bin(q, u - v, 1., -1.),
                        Mul => p.bin(q, u * v, v, u),
                        Div => p.bin(q, u / v, 1. / v, -u / v / v),
                        _ => {
                            let y = u.powf(v);
                            // 0^v is 0 for every v > 0; at v = 0 the derivative does not exist
                            p.bin(q, y, if v == 0. { 0. } else { v * u.powf(v - 1.) }, if u == 0. && v > 0. { 0. } else { y * u.ln() })
                        }
                    }
                })]
            }
            Sum(d) => vec![Rt::build(o, |c, n| sum_axis(a, *d, c, n))],
            Max(d) | Min(d) => vec![Rt::build(o, |c, n| {
                let k = first_extreme(a, *d, c, n, *self == Max(*d));
                a.at(&put(c, *d, k), n).clone()
            })],
            Lse(d) => vec![Rt::build(o, |c, n| lse(a, *d, c, n))],
            LnSoftmax(d) => vec![ln_softmax(a, *d)],
            Softmax(d) => vec![ln_softmax(a, *d).map(|t| {
                let e = t.v().exp();
                t.un(e, e)
            })],
            Sce(d) => {
                let l = ln_softmax(a, *d);
                let t = x[1];
                let full = o.with(*d, a.s.dim(*d));
                let prod = Rt::build(full, |c, n| {
                    let (p, q) = (l.at(c, n), t.at(c, n));
                    p.bin(q, p.v() * q.v(), q.v(), p.v())
                });
                vec![Rt::build(o, |c, n| sum_axis(&prod, *d, c, n).scale(-1.))]
            }
            Ssce(ids, d) => {
                let l = ln_softmax(a, *d);
                vec![Rt::build(o, |c, n| {
                    let k = ids[if ids.len() == 1 { 0 } else { n as usize }];
                    l.at(&put(c, *d, k), n).scale(-1.)
                })]
            }
            Bcast(d, _) => vec![Rt::build(o, |c, n| a.at(&put(c, *d, 0), n).clone())],
            Matmul => {
                let b = x[1];
                let m = a.s.dim(1);
                vec![Rt::build(o, |c, n| {
                    let mut s = T::c(0.);
                    for k in 0..m {
                        let mut ca = [0; 8];
                        ca[0] = c[0];
                        ca[1] = k;
                        let mut cb = [0; 8];
                        cb[0] = k;
                        cb[1] = c[1];
                        let (p, q) = (a.at(&ca, n), b.at(&cb, n));
                        s = s.add(&p.bin(q, p.v() * q.v(), q.v(), p.v()));
                    }
                    s
                })]
            }
            Transpose => vec![Rt::build(o, |c, n| {
                let mut e = [0; 8];
                e[0] = c[1];
                e[1] = c[0];
                a.at(&e, n).clone()
            })],
            // row index is dimension 0, column index dimension 1
            TriL(k) => vec![Rt::build(o, |c, n| {
                if c[0] as u64 >= c[1] as u64 + *k as u64 {
                    a.at(c, n).clone()
                } else {
                    T::c(0.)
                }
            })],
            TriU(k) => vec![Rt::build(o, |c, n| {
                if c[1] as u64 >= c[0] as u64 + *k as u64 {
                    a.at(c, n).clone()
                } else {
                    T::c(0.)
                }
            })],
            Slice(d, l, _) => vec![slice(a, o, *d, *l)],
            Split(d, n) => {
                let w = a.s.dim(*d) / n;
                (0..*n).map(|i| slice(a, o, *d, i * w)).collect()
            }
            Pick(ids, d) => vec![Rt::build(o, |c, n| {
                let k = ids[if ids.len() == 1 { 0 } else { n as usize }];
                a.at(&put(c, *d, k), n).clone()
            })],
            Concat(d) => vec![Rt::build(o, |c, n| {
                let mut k = c[*d as usize];
                for y in x {
                    if k < y.s.dim(*d) {
                        return y.at(&put(c, *d, k), n).clone();
                    }
                    k -= y.s.dim(*d);
                }
                unreachable!()
            })],
            Reshape(_) | Flatten => vec![Rt { s: o, v: a.v.clone() }],
            BSum => vec![Rt::build(o, |c, _| {
                let mut s = T::c(0.);
                for n in 0..a.s.b {
                    s = s.add(a.at(c, n));
                }
                s
            })],
            BSlice(l, _) => vec![Rt::build(o, |c, n| a.at(c, n + l).clone())],
            BSplit(k) => {
                let w = a.s.b / k;
                (0..*k).map(|i| Rt::build(o, |c, n| a.at(c, n + i * w).clone())).collect()
            }
            BPick(ids) => vec![Rt::build(o, |c, n| a.at(c, ids[n as usize]).clone())],
            BConcat => vec![Rt::build(o, |c, n| {
                let mut k = n;
                for y in x {
                    if k < y.s.b {
                        return y.at(c, k).clone();
                    }
                    k -= y.s.b;
                }
                unreachable!()
            })],
        }
    }

    /// The eager form.
    pub fn eager(&self, x: &[&Ten]) -> Vec<Ten> {
        if let Some(v) = call(self, x) {
            return v;
        }
        let a = x[0];
        vec![match self {
            Neg => -a,
            AddR(k) => a + *k,
            AddL(k) => *k + a,
            SubR(k) => a - *k,
            SubL(k) => *k - a,
            MulR(k) => a * *k,
            MulL(k) => *k * a,
            DivR(k) => a / *k,
            DivL(k) => *k / a,
            Add => a + x[1],
            Sub => a - x[1],
            Mul => a * x[1],
            Div => a / x[1],
            _ => unreachable!(),
        }]
    }

    /// The graph form (shape errors may only show on evaluation).
    pub fn node(&self, x: &[&Nd]) -> Vec<Nd> {
        if let Some(v) = call(self, x) {
            return v;
        }
        let a = x[0];
        vec![match self {
            Neg => -a,
            AddR(k) => a + *k,
            AddL(k) => *k + a,
            SubR(k) => a - *k,
            SubL(k) => *k - a,
            MulR(k) => a * *k,
            MulL(k) => *k * a,
            DivR(k) => a / *k,
            DivL(k) => *k / a,
            Add => a + x[1],
            Sub => a - x[1],
            Mul => a * x[1],
            Div => a / x[1],
            _ => unreachable!(),
        }]
    }

    /// The operator that the graph form of this operation is made of (None if it is a composition),
    /// and which operand goes to which argument position.
    pub fn operator(
        &self,
        dev: Dev,
        s: &[Sh],
    ) -> Option<(Box<dyn Operator<'static, 'static>>, Vec<usize>)> {
        type B = Box<dyn Operator<'static, 'static>>;
        let one = |b: B| Some((b, vec![0]));
        macro_rules! ab {
            ($e:ident, $l:ident, $r:ident) => {
                if s[0].scalar() {
                    Some((Box::new(po::$l::new(dev)) as B, vec![1, 0]))
                } else if s[1].scalar() {
                    Some((Box::new(po::$r::new(dev)) as B, vec![0, 1]))
                } else {
                    Some((Box::new(po::$e::new(dev)) as B, vec![0, 1]))
                }
            };
        }
        match self {
            Neg => one(Box::new(po::Neg::new(dev))),
            Abs => one(Box::new(po::Abs::new(dev))),
            Sqrt => one(Box::new(po::Sqrt::new(dev))),
            Sin => one(Box::new(po::Sin::new(dev))),
            Cos => one(Box::new(po::Cos::new(dev))),
            Tan => one(Box::new(po::Tan::new(dev))),
            Exp => one(Box::new(po::Exp::new(dev))),
            Ln => one(Box::new(po::Ln::new(dev))),
            Tanh => one(Box::new(po::Tanh::new(dev))),
            Sigmoid => one(Box::new(po::Sigmoid::new(dev))),
            Softplus => one(Box::new(po::Softplus::new(dev))),
            Relu => one(Box::new(po::PReLU::new(dev, 0.))),
            Lrelu => one(Box::new(po::PReLU::new(dev, 0.01))),
            Prelu(k) => one(Box::new(po::PReLU::new(dev, *k))),
            Elu(k) => one(Box::new(po::ELU::new(dev, *k))),
            Powf(k) => one(Box::new(po::PowConstR::new(dev, *k))),
            Powi(k) => one(Box::new(po::Powi::new(dev, *k))),
            AddR(k) | AddL(k) => one(Box::new(po::AddConst::new(dev, *k))),
            SubR(k) => one(Box::new(po::SubConstR::new(dev, *k))),
            SubL(k) => one(Box::new(po::SubConstL::new(dev, *k))),
            MulR(k) | MulL(k) => one(Box::new(po::MulConst::new(dev, *k))),
            DivR(k) => one(Box::new(po::DivConstR::new(dev, *k))),
            DivL(k) => one(Box::new(po::DivConstL::new(dev, *k))),
            Add => ab!(Add, AddScalar, AddScalar),
            Sub => ab!(Sub, SubScalarL, SubScalarR),
            Mul => ab!(Mul, MulScalar, MulScalar),
            Div => ab!(Div, DivScalarL, DivScalarR),
            Pow => ab!(Pow, PowScalarL, PowScalarR),
            Sum(d) => one(Box::new(po::Sum::new(dev, *d))),
            Max(d) => one(Box::new(po::Max::new(dev, *d))),
            Min(d) => one(Box::new(po::Min::new(dev, *d))),
            Lse(d) => one(Box::new(po::Logsumexp::new(dev, *d))),
            Bcast(d, n) => one(Box::new(po::Broadcast::new(dev, *d, *n))),
            LnSoftmax(_) | Softmax(_) => None,
            Sce(d) => Some((Box::new(po::SoftmaxCrossEntropy::new(dev, *d)), vec![0, 1])),
            Ssce(ids, d) => one(Box::new(po::SparseSoftmaxCrossEntropy::new(dev, ids, *d))),
            Matmul => Some((Box::new(po::Matmul::new(dev)), vec![0, 1])),
            Transpose => one(Box::new(po::Transpose::new(dev))),
            TriL(k) => one(Box::new(po::TriangularL::new(dev, *k))),
            TriU(k) => one(Box::new(po::TriangularU::new(dev, *k))),
            Slice(d, l, u) => one(Box::new(po::Slice::new(dev, *d, *l, *u))),
            Split(d, n) => one(Box::new(po::Split::new(dev, *d, *n))),
            Pick(ids, d) => one(Box::new(po::Pick::new(dev, ids, *d))),
            Concat(d) => Some((Box::new(po::Concat::new(dev, *d)), (0..s.len()).collect())),
            Reshape(sh) => one(Box::new(po::Reshape::new(dev, sh.shape()))),
            Flatten => one(Box::new(po::Reshape::new(
                dev,
                prima_undine::Shape::new(&[s[0].vol() as u32], s[0].b),
            ))),
            BSum => one(Box::new(po::BatchSum::new(dev))),
            BSlice(l, u) => one(Box::new(po::BatchSlice::new(dev, *l, *u))),
            BSplit(n) => one(Box::new(po::BatchSplit::new(dev, *n))),
            BPick(ids) => one(Box::new(po::BatchPick::new(dev, ids))),
            BConcat => Some((Box::new(po::BatchConcat::new(dev)), (0..s.len()).collect())),
        }
    }

    /// True if results on small integers are exactly representable.
    pub fn exact(&self) -> bool {
        matches!(
            self,
            Neg | Abs | Relu | AddR(_) | AddL(_) | SubR(_) | SubL(_) | MulR(_) | MulL(_) | Add | Sub
                | Mul | Sum(_) | Max(_) | Min(_) | Bcast(..) | Matmul | Transpose | TriL(_)
                | TriU(_) | Slice(..) | Split(..) | Pick(..) | Concat(_) | Reshape(_) | Flatten
                | BSum | BSlice(..) | BSplit(_) | BPick(_) | BConcat
        )
    }

    /// Short name for keys.
    pub fn show(&self) -> String {
        match self {
            Reshape(s) => format!("Reshape({})", s.show()),
            _ => format!("{:?}", self).replace(' ', ""),
        }
    }
}

/// Operations of the trait shared by eager tensors and graph nodes.
fn call<X: BasicFunctions>(op: &Op, x: &[&X]) -> Option<Vec<X>> {
    if x.is_empty() {
        return Some(vec![match op {
            Concat(d) => X::concat(x, *d),
            BConcat => X::batch_concat(x),
            _ => panic!("harness: no operand"),
        }]);
    }
    let a = x[0];
    Some(match op {
        Neg | AddR(_) | AddL(_) | SubR(_) | SubL(_) | MulR(_) | MulL(_) | DivR(_) | DivL(_)
        | Add | Sub | Mul | Div => return None,
        Split(d, n) => a.split(*d, *n),
        BSplit(n) => a.batch_split(*n),
        _ => vec![match op {
            Abs => a.abs(),
            Sqrt => a.sqrt(),
            Sin => a.sin(),
            Cos => a.cos(),
            Tan => a.tan(),
            Exp => a.exp(),
            Ln => a.ln(),
            Tanh => a.tanh(),
            Sigmoid => a.sigmoid(),
            Softplus => a.softplus(),
            Relu => a.relu(),
            Lrelu => a.lrelu(),
            Prelu(k) => a.prelu(*k),
            Elu(k) => a.elu(*k),
            Powf(k) => a.powf(*k),
            Powi(k) => a.powi(*k),
            Pow => a.pow(x[1]),
            Sum(d) => a.sum(*d),
            Max(d) => a.max(*d),
            Min(d) => a.min(*d),
            Lse(d) => a.logsumexp(*d),
            Bcast(d, n) => a.broadcast(*d, *n),
            LnSoftmax(d) => a.ln_softmax(*d),
            Softmax(d) => a.softmax(*d),
            Sce(d) => a.softmax_cross_entropy(x[1], *d),
            Ssce(ids, d) => a.sparse_softmax_cross_entropy(ids, *d),
            Matmul => a.matmul(x[1]),
            Transpose => a.transpose(),
            TriL(k) => a.triangular_l(*k),
            TriU(k) => a.triangular_u(*k),
            Slice(d, l, u) => a.slice(*d, *l, *u),
            Pick(ids, d) => a.pick(ids, *d),
            Concat(d) => X::concat(x, *d),
            Reshape(s) => a.reshape(s.shape()),
            Flatten => a.flatten(),
            BSum => a.batch_sum(),
            BSlice(l, u) => a.batch_slice(*l, *u),
            BPick(ids) => a.batch_pick(ids),
            BConcat => X::batch_concat(x),
            _ => unreachable!(),
        }],
    })
}

pub fn put(c: &[u32; 8], d: u32, k: u32) -> [u32; 8] {
    let mut e = *c;
    if d < 8 {
        e[d as usize] = k;
    }
    e
}

fn slice<T: Num>(a: &Rt<T>, o: Sh, d: u32, l: u32) -> Rt<T> {
    Rt::build(o, |c, n| a.at(&put(c, d, c[d as usize] + l), n).clone())
}

fn sum_axis<T: Num>(a: &Rt<T>, d: u32, c: &[u32; 8], n: u32) -> T {
    let mut s = T::c(0.);
    for k in 0..a.s.dim(d) {
        s = s.add(a.at(&put(c, d, k), n));
    }
    s
}

pub fn first_extreme<T: Num>(a: &Rt<T>, d: u32, c: &[u32; 8], n: u32, max: bool) -> u32 {
    let mut best = 0;
    for k in 1..a.s.dim(d) {
        let (x, y) = (a.at(&put(c, d, k), n).v(), a.at(&put(c, d, best), n).v());
        if if max { x > y } else { x < y } {
            best = k;
        }
    }
    best
}

fn lse<T: Num>(a: &Rt<T>, d: u32, c: &[u32; 8], n: u32) -> T {
    let k = first_extreme(a, d, c, n, true);
    let m = a.at(&put(c, d, k), n).v();
    let mut s = 0.;
    // an infinite maximum is equal to itself
    let less = |v: f64| if v == m { 0. } else { v - m };
    for k in 0..a.s.dim(d) {
        s += less(a.at(&put(c, d, k), n).v()).exp();
    }
    let mut r = T::c(0.);
    for k in 0..a.s.dim(d) {
        let t = a.at(&put(c, d, k), n);
        r = r.add(&t.un(0., less(t.v()).exp() / s));
    }
    // value m + ln s, gradient the softmax
    r.bin(&T::c(0.), m + s.ln(), 1., 0.)
}

fn ln_softmax<T: Num>(a: &Rt<T>, d: u32) -> Rt<T> {
    let os = a.s.with(d, 1);
    let l = Rt::build(os, |c, n| lse(a, d, c, n));
    Rt::build(a.s, |c, n| {
        let p = a.at(c, n);
        let q = l.at(&put(c, d, 0), n);
        p.bin(q, p.v() - q.v(), 1., -1.)
    })
}

/// A leaf node that owns a copy of the tensor.
pub fn leaf(t: &'static Ten) -> Nd {
    Node::from(t)
}

/// Representative operations with acceptable operand shapes: every operation, with small operands
/// and with operands that share a size class with their results.
pub fn op_samples() -> Vec<(Op, Vec<Sh>)> {
    let m = |d: &[u32], b: u32| Sh::new(d, b);
    let mut v: Vec<(Op, Vec<Sh>)> = vec![];
    for op in [
        Neg, Abs, Sqrt, Sin, Cos, Tan, Exp, Ln, Tanh, Sigmoid, Softplus, Relu, Lrelu, Prelu(0.3), Elu(0.7), Powf(1.5),
        Powi(3), Powi(-2), AddR(2.), AddL(2.), SubR(2.), SubL(2.), MulR(2.), MulL(2.), DivR(2.), DivL(2.), Flatten,
    ] {
        v.push((op.clone(), vec![m(&[2, 3], 2)]));
        v.push((op, vec![m(&[65], 1)]));
    }
    for op in [Add, Sub, Mul, Div, Pow] {
        v.push((op.clone(), vec![m(&[3], 2), m(&[3], 1)]));
        v.push((op.clone(), vec![m(&[2, 2], 1), m(&[2, 2], 1)]));
        v.push((op.clone(), vec![m(&[], 2), m(&[3], 1)]));
        v.push((op, vec![m(&[40], 1), m(&[], 2)]));
    }
    for op in [Sum(0), Sum(2), Max(1), Min(1), Lse(0), Lse(3), Softmax(0), LnSoftmax(1), Softmax(2)] {
        v.push((op, vec![m(&[2, 3], 2)]));
    }
    for op in [Bcast(0, 3), Bcast(3, 2), Bcast(1, 70)] {
        v.push((op, vec![m(&[1, 1, 2], 2)]));
    }
    v.push((Sce(0), vec![m(&[3, 2], 2), m(&[3, 2], 1)]));
    v.push((Sce(1), vec![m(&[3, 2], 1), m(&[3, 2], 2)]));
    v.push((Ssce(vec![1], 0), vec![m(&[3, 2], 2)]));
    v.push((Ssce(vec![1, 0], 1), vec![m(&[3, 2], 1)]));
    v.push((Matmul, vec![m(&[2, 3], 2), m(&[3, 2], 1)]));
    v.push((Matmul, vec![m(&[9, 2], 1), m(&[2, 9], 2)]));
    v.push((Transpose, vec![m(&[2, 3], 2)]));
    v.push((TriL(0), vec![m(&[3, 3], 2)]));
    v.push((TriU(1), vec![m(&[3, 3], 1)]));
    v.push((Slice(1, 1, 3), vec![m(&[2, 3], 2)]));
    v.push((Slice(0, 0, 1), vec![m(&[2, 3], 1)]));
    v.push((Split(1, 3), vec![m(&[2, 3], 2)]));
    v.push((Pick(vec![0, 2], 1), vec![m(&[2, 3], 2)]));
    v.push((Pick(vec![1], 0), vec![m(&[2, 3], 2)]));
    v.push((Pick(vec![1, 1, 0], 0), vec![m(&[2, 3], 1)]));
    v.push((Concat(1), vec![m(&[2, 3], 2), m(&[2, 1], 1), m(&[2, 2], 2)]));
    v.push((Concat(0), vec![m(&[2, 3], 1)]));
    v.push((Reshape(m(&[3, 2], 2)), vec![m(&[6], 2)]));
    v.push((Reshape(m(&[12], 1)), vec![m(&[6], 2)]));
    v.push((BSum, vec![m(&[2, 3], 3)]));
    v.push((BSlice(1, 3), vec![m(&[2], 3)]));
    v.push((BSplit(2), vec![m(&[2], 4)]));
    v.push((BPick(vec![2, 0, 2]), vec![m(&[2], 3)]));
    v.push((BConcat, vec![m(&[2], 3), m(&[2], 1)]));
    v
}

//! Model architectures as programs of operations.
use crate::dag::{Prog, Step};
use crate::{Op, Op::*, Sh, Verdict};

/// One architecture: `progs[n]` is the program of batch n; its leaves are `np` parameters, then the data.
pub struct Arch {
    pub name: &'static str,
    pub np: usize,
    pub progs: Vec<Prog>,
    /// value holding the prediction, value holding the loss of each example
    pub pred: usize,
    pub loss: usize,
}

struct B(Prog);

impl B {
    fn new(leaves: &[Sh]) -> B {
        B(Prog { leaves: leaves.to_vec(), steps: vec![], shapes: leaves.to_vec() })
    }
    fn op(&mut self, op: Op, args: &[usize]) -> usize {
        let p = &mut self.0;
        let first = p.shapes.len();
        let shs: Vec<Sh> = args.iter().map(|&i| p.shapes[i]).collect();
        match op.judge(&shs) {
            Verdict::Accept(o) => {
                p.steps.push(Step { op, args: args.to_vec(), first, outs: o.len() });
                p.shapes.extend(o);
            }
            _ => panic!("harness: {:?} on {:?}", op, shs),
        }
        first
    }
    fn squared(&mut self, a: usize, b: usize) -> usize {
        let d = self.op(Sub, &[a, b]);
        self.op(Mul, &[d, d])
    }
}

fn ids(n: u32, m: u32, salt: u32) -> Vec<u32> {
    (0..n).map(|i| (i * 2 + salt) % m).collect()
}

pub fn archs(thorough: bool) -> Vec<Arch> {
    let s = |d: &[u32]| Sh::new(d, 1);
    let batches: &[u32] = if thorough { &[3, 1, 5] } else { &[3, 1] };
    let mut v: Vec<Arch> = vec![];
    let mut add = |name: &'static str, np: usize, f: &dyn Fn(u32) -> (Prog, usize, usize)| {
        let all: Vec<_> = batches.iter().map(|&n| f(n)).collect();
        let (pred, loss) = (all[0].1, all[0].2);
        v.push(Arch { name, np, progs: all.into_iter().map(|x| x.0).collect(), pred, loss });
    };
    add("linear regression", 2, &|n| {
        let mut b = B::new(&[s(&[1, 3]), s(&[]), Sh::new(&[3], n), Sh::new(&[], n)]);
        let y = b.op(Matmul, &[0, 2]);
        let y = b.op(Add, &[y, 1]);
        let l = b.squared(3, y);
        (b.0, y, l)
    });
    add("two layers", 4, &|n| {
        let mut b = B::new(&[s(&[4, 2]), s(&[4]), s(&[1, 4]), s(&[]), Sh::new(&[2], n), Sh::new(&[], n)]);
        let h = b.op(Matmul, &[0, 4]);
        let h = b.op(Add, &[h, 1]);
        let h = b.op(Tanh, &[h]);
        let y = b.op(Matmul, &[2, h]);
        let y = b.op(Add, &[y, 3]);
        let l = b.squared(5, y);
        (b.0, y, l)
    });
    add("classifier", 3, &|n| {
        let mut b = B::new(&[s(&[3, 2]), s(&[3]), s(&[2, 2]), Sh::new(&[2], n)]);
        let h = b.op(Matmul, &[2, 3]);
        let h = b.op(Elu(0.5), &[h]);
        let z = b.op(Matmul, &[0, h]);
        let z = b.op(Add, &[1, z]);
        let l = b.op(Ssce(ids(n, 3, 1), 0), &[z]);
        let p = b.op(Softmax(0), &[z]);
        (b.0, p, l)
    });
    add("tied embedding", 2, &|n| {
        let mut b = B::new(&[s(&[2, 5]), s(&[5])]);
        let e = b.op(Pick(ids(n, 5, 1), 1), &[0]);
        let t = b.op(Transpose, &[0]);
        let z = b.op(Matmul, &[t, e]);
        let z = b.op(Add, &[z, 1]);
        let l = b.op(Ssce(ids(n, 5, 2), 0), &[z]);
        (b.0, z, l)
    });
    add("embedding with unused rows", 3, &|n| {
        let mut b = B::new(&[s(&[2, 5]), s(&[3, 2]), s(&[3])]);
        let e = b.op(Pick(ids(n, 3, 0).iter().map(|i| i + 1).collect(), 1), &[0]);
        let f = b.op(Pick(ids(n, 2, 1).iter().map(|i| i + 3).collect(), 1), &[0]);
        let e = b.op(Add, &[e, f]);
        let z = b.op(Matmul, &[1, e]);
        let z = b.op(Add, &[z, 2]);
        let l = b.op(Ssce(ids(n, 3, 2), 0), &[z]);
        (b.0, z, l)
    });
    add("rectified, some units dead", 4, &|n| {
        let mut b = B::new(&[s(&[5, 2]), s(&[5]), s(&[2, 5]), s(&[2]), Sh::new(&[2], n), Sh::new(&[2], n)]);
        let h = b.op(Matmul, &[0, 4]);
        let h = b.op(Sub, &[h, 1]);
        let h = b.op(SubR(0.4), &[h]);
        let h = b.op(Relu, &[h]);
        let y = b.op(Matmul, &[2, h]);
        let y = b.op(Add, &[y, 3]);
        let y = b.op(Lrelu, &[y]);
        let l = b.squared(y, 5);
        let l = b.op(Sum(0), &[l]);
        (b.0, y, l)
    });
    add("recurrence", 4, &|n| {
        let mut b = B::new(&[s(&[2, 2]), s(&[2]), s(&[2]), s(&[1, 2]), Sh::new(&[1, 3], n), Sh::new(&[], n)]);
        let mut h = 2;
        let mut sum = None;
        for i in 0..3 {
            let x = b.op(Slice(1, i, i + 1), &[4]);
            let u = b.op(Matmul, &[1, x]);
            let w = b.op(Matmul, &[0, h]);
            let z = b.op(Add, &[u, w]);
            h = b.op(Sigmoid, &[z]);
            let y = b.op(Matmul, &[3, h]);
            let l = b.squared(y, 5);
            sum = Some(match sum {
                None => l,
                Some(a) => b.op(Add, &[a, l]),
            });
        }
        (b.0, h, sum.unwrap())
    });
    add("gated cell", 3, &|n| {
        let mut b = B::new(&[s(&[8, 2]), s(&[8, 2]), s(&[8]), Sh::new(&[2, 2], n), Sh::new(&[2], n)]);
        let xs = b.op(Split(1, 2), &[3]);
        let (mut c, mut h): (Option<usize>, Option<usize>) = (None, None);
        for i in 0..2 {
            let mut z = b.op(Matmul, &[0, xs + i]);
            if let Some(h) = h {
                let w = b.op(Matmul, &[1, h]);
                z = b.op(Add, &[z, w]);
            }
            let z = b.op(Add, &[z, 2]);
            let g = b.op(Split(0, 4), &[z]);
            let (i, f, o) = (b.op(Sigmoid, &[g]), b.op(Sigmoid, &[g + 1]), b.op(Sigmoid, &[g + 2]));
            let j = b.op(Tanh, &[g + 3]);
            let mut m = b.op(Mul, &[i, j]);
            if let Some(c) = c {
                let k = b.op(Mul, &[f, c]);
                m = b.op(Add, &[m, k]);
            }
            c = Some(m);
            let t = b.op(Tanh, &[m]);
            h = Some(b.op(Mul, &[o, t]));
        }
        let l = b.squared(h.unwrap(), 4);
        let l = b.op(Sum(0), &[l]);
        (b.0, h.unwrap(), l)
    });
    add("attention", 3, &|n| {
        let mut b = B::new(&[s(&[2, 2]), s(&[2, 2]), s(&[2, 2]), Sh::new(&[2, 3], n), Sh::new(&[2, 3], n)]);
        let q = b.op(Matmul, &[0, 3]);
        let k = b.op(Matmul, &[1, 3]);
        let x = b.op(Matmul, &[2, 3]);
        let t = b.op(Transpose, &[k]);
        let a = b.op(Matmul, &[t, q]);
        let a = b.op(MulR(0.7), &[a]);
        let a = b.op(Softmax(0), &[a]);
        let y = b.op(Matmul, &[x, a]);
        let l = b.squared(y, 4);
        let l = b.op(Flatten, &[l]);
        let l = b.op(Sum(0), &[l]);
        (b.0, y, l)
    });
    add("layer normalisation", 3, &|n| {
        let mut b = B::new(&[s(&[3, 2]), s(&[3]), s(&[3]), Sh::new(&[2], n), Sh::new(&[3], n)]);
        let h = b.op(Matmul, &[0, 3]);
        let m = b.op(Sum(0), &[h]);
        let m = b.op(DivR(3.), &[m]);
        let m = b.op(Bcast(0, 3), &[m]);
        let c = b.op(Sub, &[h, m]);
        let q = b.op(Mul, &[c, c]);
        let q = b.op(Sum(0), &[q]);
        let q = b.op(AddR(0.1), &[q]);
        let q = b.op(Sqrt, &[q]);
        let q = b.op(Bcast(0, 3), &[q]);
        let y = b.op(Div, &[c, q]);
        let y = b.op(Mul, &[1, y]);
        let y = b.op(Add, &[y, 2]);
        let t = b.op(Softmax(0), &[4]);
        let l = b.op(Sce(0), &[y, t]);
        (b.0, y, l)
    });
    add("window and pooling", 2, &|n| {
        let mut b = B::new(&[s(&[2, 2]), s(&[1, 2]), Sh::new(&[4], n), Sh::new(&[], n)]);
        let w: Vec<usize> = (0..3).map(|i| b.op(Slice(0, i, i + 2), &[2])).collect();
        let x = b.op(Concat(1), &w);
        let h = b.op(Matmul, &[0, x]);
        let m = b.op(Max(1), &[h]);
        let k = b.op(Lse(1), &[h]);
        let m = b.op(Mul, &[m, k]);
        let y = b.op(Matmul, &[1, m]);
        let l = b.squared(y, 3);
        (b.0, y, l)
    });
    add("penalised, across the batch", 2, &|n| {
        let mut b = B::new(&[s(&[2, 2]), s(&[]), Sh::new(&[2], n), Sh::new(&[2], n)]);
        let z = b.op(TriL(0), &[0]);
        let y = b.op(Matmul, &[z, 2]);
        let y = b.op(Mul, &[1, y]);
        // centred over the batch
        let m = b.op(BSum, &[y]);
        let m = b.op(MulL(0.3), &[m]);
        let y = b.op(Sub, &[y, m]);
        let l = b.squared(y, 3);
        let l = b.op(Sum(0), &[l]);
        let p = b.op(Powi(2), &[0]);
        let p = b.op(Flatten, &[p]);
        let p = b.op(Sum(0), &[p]);
        let p = b.op(MulR(0.25), &[p]);
        let l = b.op(Add, &[l, p]);
        (b.0, y, l)
    });
    add("examples mixed", 2, &|n| {
        let mut b = B::new(&[s(&[3]), s(&[3]), Sh::new(&[3], n), Sh::new(&[3], n)]);
        let y = b.op(Mul, &[2, 0]);
        let r = b.op(BPick((0..n).rev().collect()), &[y]);
        let y = b.op(Add, &[r, 1]);
        let y = b.op(Sin, &[y]);
        let c = b.op(BConcat, &[y, 1]);
        let c = b.op(BSlice(1, n + 1), &[c]);
        let y = b.op(Mul, &[c, y]);
        let y = b.op(Softplus, &[y]);
        let l = b.squared(y, 3);
        let l = b.op(Sum(0), &[l]);
        (b.0, y, l)
    });
    v
}

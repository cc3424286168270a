//! Operations on operands far larger than those of the systematic sweeps, of sizes that are no
//! multiples of likely block sizes.
use crate::ops::*;
use crate::rt::*;
use crate::sh::Sh;
use crate::{ints, spread};
use Op::*;

fn sh(d: &[u32], b: u32) -> Sh {
    Sh::new(d, b)
}

/// Shapes with thousands of elements: one long axis first, last and in the middle, many batches.
pub fn large_shapes(thorough: bool, grad: bool) -> Vec<Sh> {
    let mut v = vec![
        sh(&[5003], 1),
        sh(&[1001], 7),
        sh(&[3, 2801], 1),
        sh(&[2801, 3], 1),
        sh(&[2, 1411, 3], 1),
        sh(&[67, 67], 2),
        sh(&[3], 1501),
        sh(&[1], 4099),
    ];
    if !grad {
        v.push(sh(&[70001], 1));
        v.push(sh(&[33001, 2], 1));
    }
    v.extend([
        sh(&[4097], 1),
        sh(&[8193], 1),
        sh(&[16385], 1),
        sh(&[2, 4099], 2),
        sh(&[4099, 1, 2], 1),
        sh(&[129, 65], 2),
        sh(&[65, 129], 1),
        sh(&[5, 7, 11, 13], 3),
        sh(&[2, 2], 1999),
    ]);
    // many axes
    v.extend([
        sh(&[2, 1, 3, 1, 2], 2),
        sh(&[1, 1, 1, 1, 1, 3], 1),
        sh(&[3, 2, 2, 2, 3], 1),
        sh(&[2, 3, 1, 2, 1, 1, 2], 3),
        sh(&[1, 2, 1, 2, 1, 2, 1, 2], 2),
        sh(&[2, 1, 1, 2, 1, 1, 1, 3], 1),
        sh(&[2, 2, 2, 2, 2, 2, 2, 2], 1),
    ]);
    if !grad {
        v.extend([sh(&[131101], 1), sh(&[511, 513], 1), sh(&[300, 7], 33)]);
    }
    if thorough {
        for code in 16u32..256 {
            let d: Vec<u32> = (0..8).map(|i| 1 + (code >> i & 1)).collect();
            v.extend([sh(&d, 1), sh(&d, 2)]);
        }
        v.extend([sh(&[32771], 1), sh(&[7, 11, 1009], 1), sh(&[257, 127], 2), sh(&[2, 3], 6007)]);
        if !grad {
            v.extend([sh(&[1048579], 1), sh(&[3, 1048583], 1), sh(&[2], 1048589), sh(&[1021, 1031], 2)]);
        }
    }
    v
}

/// (operation, operand shapes) of the families "element", "reduce", "matrix" and "move".
pub fn large_ops(family: &str, thorough: bool, grad: bool) -> Vec<(Op, Vec<Sh>)> {
    let mut v = vec![];
    let shs = large_shapes(thorough, grad);
    // how long an axis of a reduction whose gradient is wanted may be
    let long = |s: &Sh, d: u32, max: u32| grad && s.dim(d) > max;
    match family {
        "element" => {
            for s in &shs {
                for op in [
                    Neg, Abs, Sqrt, Sin, Cos, Tan, Exp, Ln, Tanh, Sigmoid, Softplus, Relu, Lrelu, Prelu(0.3), Elu(0.7),
                    Powf(1.5), Powi(3), Powi(-2), AddR(2.5), AddL(2.5), SubR(2.5), SubL(2.5), MulR(2.5), MulL(2.5),
                    DivR(2.5), DivL(2.5),
                ] {
                    v.push((op, vec![*s]));
                }
                let mut pairs = vec![(*s, *s), (*s, sh(&[], 1)), (sh(&[], 1), *s)];
                if s.b > 1 {
                    pairs.extend([(*s, s.with_b(1)), (s.with_b(1), *s), (*s, sh(&[], s.b)), (sh(&[], s.b), *s)]);
                    pairs.extend([(s.with_b(1), sh(&[], s.b)), (sh(&[], s.b), s.with_b(1))]);
                }
                for (a, b) in pairs {
                    for op in [Add, Sub, Mul, Div, Pow] {
                        v.push((op, vec![a, b]));
                    }
                }
            }
        }
        "reduce" => {
            for s in &shs {
                for d in 0..=s.depth().min(7) {
                    if !long(s, d, 3000) {
                        v.extend([Sum(d), Max(d), Min(d)].map(|o| (o, vec![*s])));
                    }
                    if !long(s, d, 130) {
                        v.extend([Lse(d), LnSoftmax(d), Softmax(d)].map(|o| (o, vec![*s])));
                        let k = s.dim(d);
                        v.push((Ssce(vec![k / 2], d), vec![*s]));
                        if s.b > 1 {
                            v.push((Ssce((0..s.b).map(|i| (i * 7 + k - 1) % k).collect(), d), vec![*s]));
                        }
                        if !grad {
                            v.push((Sce(d), vec![*s, s.with_b(1)]));
                        }
                    }
                    if s.dim(d) == 1 {
                        v.push((Bcast(d, 3), vec![*s]));
                    }
                }
                if !grad || s.b < 3000 {
                    v.push((BSum, vec![*s]));
                }
            }
            v.push((Bcast(0, 5003), vec![sh(&[], 1)]));
            v.push((Bcast(1, 700), vec![sh(&[7], 2)]));
            v.push((Bcast(0, 700), vec![sh(&[1, 7], 2)]));
        }
        "matrix" => {
            for s in shs.iter().filter(|s| s.depth() <= 2) {
                v.push((Transpose, vec![*s]));
                if s.dim(0) == s.dim(1) {
                    for k in [0, 1, 30] {
                        v.extend([(TriL(k), vec![*s]), (TriU(k), vec![*s])]);
                    }
                }
            }
            let mut p = vec![(67, 40, 67), (1, 5003, 1), (5003, 1, 1), (1, 1, 5003), (2, 1501, 3), (1501, 2, 3), (3, 2, 1501)];
            if !grad {
                p.extend([(70001, 1, 1), (1, 70001, 1), (129, 127, 131)]);
                if thorough {
                    p.extend([(257, 255, 259), (3, 20011, 3), (20011, 3, 3), (600, 3, 600)]);
                }
            }
            for (m, k, n) in p {
                if long(&sh(&[k], 1), 0, 6000) {
                    continue;
                }
                v.push((Matmul, vec![sh(&[m, k], 1), sh(&[k, n], 1)]));
                if m * k * n < 20000 {
                    v.push((Matmul, vec![sh(&[m, k], 2), sh(&[k, n], 1)]));
                    v.push((Matmul, vec![sh(&[m, k], 1), sh(&[k, n], 2)]));
                }
            }
            for b in [1501, 700] {
                v.push((Matmul, vec![sh(&[2, 3], b), sh(&[3, 2], b)]));
                v.push((Matmul, vec![sh(&[2, 3], b), sh(&[3, 2], 1)]));
                v.push((Matmul, vec![sh(&[2, 3], 1), sh(&[3, 2], b)]));
            }
        }
        _ => {
            for s in &shs {
                for d in 0..=s.depth().min(7) {
                    let n = s.dim(d);
                    v.push((Slice(d, 0, n), vec![*s]));
                    if n > 1 {
                        v.extend([Slice(d, 1, n), Slice(d, 0, n - 1), Slice(d, n / 2, n / 2 + 1)].map(|o| (o, vec![*s])));
                        v.push((Split(d, if n % 3 == 0 { 3 } else { n.min(1) }), vec![*s]));
                    }
                    if (2..=100).contains(&n) {
                        v.push((Split(d, n), vec![*s]));
                    }
                    v.push((Pick(vec![n - 1], d), vec![*s]));
                    if s.b > 1 {
                        v.push((Pick((0..s.b).map(|i| (i * 7 + n - 1) % n).collect(), d), vec![*s]));
                    } else if s.vol() / (n as usize) < 100 {
                        v.push((Pick((0..99).map(|i| (i * 71 + n - 1) % n).collect(), d), vec![*s]));
                    }
                    v.push((Concat(d), vec![*s, *s]));
                    v.push((Concat(d), vec![*s, s.with_b(1).with(d, 2)]));
                    v.push((Concat(d), vec![s.with_b(1).with(d, 1), *s]));
                }
                v.push((Flatten, vec![*s]));
                v.push((Reshape(sh(&[s.size() as u32], 1)), vec![*s]));
                v.push((BSlice(0, s.b), vec![*s]));
                v.push((BConcat, vec![*s, *s]));
                v.push((BConcat, vec![s.with_b(2), *s]));
                v.push((BPick(vec![s.b - 1, 0, s.b - 1]), vec![*s]));
                if s.b > 1 {
                    v.push((BSlice(1, s.b), vec![*s]));
                    v.push((BPick((0..s.b).rev().collect()), vec![*s]));
                }
                if s.b < 100 {
                    v.push((BSplit(s.b), vec![*s]));
                }
            }
            v.push((Concat(0), (1..90).map(|i| sh(&[i], 1)).collect()));
            v.push((Concat(1), (1..60).map(|i| sh(&[3, i], 2)).collect()));
            v.push((BConcat, (1..60).map(|i| sh(&[3], i)).collect()));
            // many operands, many parts, many ids
            let many: &[u32] = if thorough { &[255, 256, 257, 300, 511, 513, 1000, 1025, 2500] } else { &[129, 256, 257, 300, 1000] };
            // a gradient over more parts needs more guarded blocks than a process may map
            for &n in many.iter().filter(|&&n| !grad || n <= 1100) {
                v.push((Concat(0), (0..n).map(|i| sh(&[1 + i % 2], 1)).collect()));
                v.push((Concat(1), (0..n).map(|i| sh(&[2, 1 + i % 3 / 2], if i % 5 == 1 { 2 } else { 1 })).collect()));
                v.push((BConcat, (0..n).map(|i| sh(&[2], 1 + i % 2)).collect()));
                v.push((Split(0, n), vec![sh(&[n, 2], 1)]));
                v.push((Split(1, n), vec![sh(&[2, 2 * n], 1)]));
                v.push((BSplit(n), vec![sh(&[2], n)]));
                for k in [3, 7, n + 1] {
                    v.push((Pick((0..n).map(|i| (i * 5 + i / 3) % k).collect(), 0), vec![sh(&[k], 1)]));
                    v.push((Pick((0..n).map(|i| (i * 5 + i / 3) % k).collect(), 1), vec![sh(&[2, k], n)]));
                    v.push((BPick((0..n).map(|i| (i * 5 + i / 3) % k).collect()), vec![sh(&[2], k)]));
                }
            }
            if !grad {
                v.push((Pick((0..70000).map(|i| i % 3).collect(), 0), vec![sh(&[3], 1)]));
                v.push((BPick((0..70000).map(|i| i % 5).collect()), vec![sh(&[], 5)]));
                v.push((BPick((0..70000).rev().collect()), vec![sh(&[], 70000)]));
            }
        }
    }
    v
}

/// Operands within the domain; true: results and gradients are exact.
pub fn large_data(op: &Op, shapes: &[Sh], salt: u64) -> (Vec<R>, bool) {
    let exact = op.exact() && !matches!(op, Lse(_));
    let xs = shapes
        .iter()
        .enumerate()
        .map(|(i, s)| {
            let salt = salt + 50 * i as u64;
            match op {
                Sqrt | Ln | Powf(_) | Powi(_) | Pow | Div | DivL(_) => spread(*s, 0.4, 1.9, salt),
                Abs | Relu => ints(*s, 9, true, salt),
                Max(_) | Min(_) => ints(*s, 1 << 20, true, salt),
                Tan => spread(*s, -1.2, 1.2, salt),
                _ if exact => ints(*s, 9, true, salt),
                _ => spread(*s, 0.01, 3., salt).map_signs(),
            }
        })
        .collect();
    (xs, exact)
}

impl R {
    /// every third value negative
    fn map_signs(mut self) -> R {
        self.v.iter_mut().enumerate().for_each(|(i, x)| if i % 3 == 1 { *x = -*x });
        self
    }
}

/// The cases of one family, forward or (`grad`) backward.
pub fn large_cases(ctx: &mut crate::Ctx, d: crate::Dev, family: &str, grad: bool) {
    for (op, shapes) in large_ops(family, ctx.thorough(), grad) {
        if !matches!(op.judge(&shapes), Verdict::Accept(_)) {
            continue;
        }
        let key = || {
            let mut o = op.show();
            o.truncate(60);
            format!("large {} {}", o, shapes.iter().take(3).map(|s| s.show()).collect::<Vec<_>>().join(" "))
        };
        ctx.case(key, |rec| {
            let (xs, exact) = large_data(&op, &shapes, 11);
            if grad {
                let o = crate::GradOpts { exact, same: false, salt: 3, skip: vec![], floor: 0.005 };
                crate::grad_case(d, &op, &xs, &o, rec)
            } else {
                let mag = matches!(op, Sce(_) | Ssce(..) | Lse(_) | LnSoftmax(_) | Softmax(_));
                // long sums of f32
                let tol = if exact { Tol::Exact } else if mag { Tol::Rel(2e-3, 0.05) } else { LOOSE };
                crate::forward_case(d, &op, &xs, tol, rec)
            }
        });
    }
}

/// The shapes of `large_shapes` and, for every length up to `top`, of `sweep_ops`, with their names.
pub fn long_shapes(thorough: bool, grad: bool, top: u32) -> Vec<Sh> {
    let mut v = large_shapes(thorough, grad);
    for n in 1..=top {
        v.extend(sweep_shapes(n).iter().map(|x| x.0));
    }
    v.sort_by_key(|s| (s.d, s.b));
    v.dedup();
    v
}

/// The orders of axes tried on large operands: exchanges, rotations and reversals of the axes used and one more.
pub fn large_perms(s: &Sh) -> Vec<Vec<u32>> {
    let n = (s.depth() + 1).min(8);
    let mut v: Vec<Vec<u32>> = vec![];
    let id: Vec<u32> = (0..n).collect();
    for i in 0..n as usize {
        let mut r = id.clone();
        r.rotate_left(i);
        v.push(r);
        for j in 0..i {
            let mut e = id.clone();
            e.swap(i, j);
            v.push(e);
        }
    }
    v.push(id.iter().rev().cloned().collect());
    v.sort();
    v.dedup();
    v
}

/// An axis of length n alone, last, first, in the middle, batched; n batches.
fn sweep_shapes(n: u32) -> Vec<(Sh, u32)> {
    let mut shs = vec![
        (sh(&[n], 1), 0),
        (sh(&[2, n], 1), 1),
        (sh(&[n, 3], 1), 0),
        (sh(&[2, n, 2], 1), 1),
        (sh(&[3, 1, n], 2), 2),
        (sh(&[], n), 0),
        (sh(&[2], n), 0),
        (sh(&[2, 3], n), 1),
    ];
    if n > 40 {
        shs.remove(3);
    }
    shs
}

/// Every axis length and every batch count up to a bound, for every operation of a family.
fn sweep_ops(family: &str, n: u32, grad: bool) -> Vec<(Op, Vec<Sh>)> {
    let mut v = vec![];
    let shs = sweep_shapes(n);
    match family {
        "element" => {
            for (s, _) in &shs {
                for op in [
                    Neg, Abs, Sqrt, Sin, Cos, Tan, Exp, Ln, Tanh, Sigmoid, Softplus, Relu, Lrelu, Prelu(0.3), Elu(0.7),
                    Powf(1.5), Powi(3), AddR(2.5), AddL(2.5), SubR(2.5), SubL(2.5), MulR(2.5), MulL(2.5), DivR(2.5), DivL(2.5),
                ] {
                    v.push((op, vec![*s]));
                }
                let mut pairs = vec![(*s, *s), (*s, sh(&[], 1)), (sh(&[], 1), *s)];
                if s.b > 1 {
                    pairs.extend([(*s, s.with_b(1)), (s.with_b(1), *s), (*s, sh(&[], s.b)), (sh(&[], s.b), *s)]);
                    pairs.extend([(s.with_b(1), sh(&[], s.b)), (sh(&[], s.b), s.with_b(1))]);
                }
                for (a, b) in pairs {
                    for op in [Add, Sub, Mul, Div, Pow] {
                        v.push((op, vec![a, b]));
                    }
                }
            }
        }
        "reduce" => {
            for (s, _) in &shs {
                for d in 0..=s.depth() {
                    v.extend([Sum(d), Max(d), Min(d), Lse(d), LnSoftmax(d), Softmax(d)].map(|o| (o, vec![*s])));
                    let k = s.dim(d);
                    v.push((Ssce(vec![k - 1], d), vec![*s]));
                    let many = if s.b > 1 { s.b } else { n };
                    v.push((Ssce((0..many).map(|i| (i * 7 + k - 1) % k).collect(), d), vec![*s]));
                    if !grad {
                        v.push((Sce(d), vec![*s, s.with_b(1)]));
                        v.push((Sce(d), vec![*s, *s]));
                    }
                    if k == 1 {
                        v.push((Bcast(d, 3), vec![*s]));
                        v.push((Bcast(d, n), vec![sh(&s.d, s.b.min(2))]));
                    }
                }
                v.push((BSum, vec![*s]));
            }
        }
        "matrix" => {
            for (m, k, l) in [(n, 2, 3), (2, n, 3), (3, 2, n), (n, n, 1), (1, n, n), (n, 1, n), (n, 3, 1), (1, 1, n), (n, 1, 1), (1, n, 1)] {
                for (a, b) in [(1, 1), (2, 1), (1, 2), (3, 3)] {
                    v.push((Matmul, vec![sh(&[m, k], a), sh(&[k, l], b)]));
                }
            }
            for (a, b) in [(n, n), (n, 1), (1, n)] {
                v.push((Matmul, vec![sh(&[2, 3], a), sh(&[3, 2], b)]));
                v.push((Matmul, vec![sh(&[3], a), sh(&[1, 2], b)]));
                v.push((Matmul, vec![sh(&[1, 3], a), sh(&[3], b)]));
            }
            if n <= 40 {
                v.push((Matmul, vec![sh(&[n, n], 1), sh(&[n, n], 1)]));
                v.push((Matmul, vec![sh(&[n, n + 1], 2), sh(&[n + 1, n + 2], 1)]));
            }
            for s in [sh(&[n], 1), sh(&[1, n], 2), sh(&[n, 2], 2), sh(&[3, n], 1), sh(&[2, 3], n), sh(&[n, n], 1), sh(&[n, n + 1], 1)] {
                v.push((Transpose, vec![s]));
            }
            for (m, b) in [(n, 1), (2, n), (3, n)] {
                for k in [0, 1, 2, m.saturating_sub(1), m, n / 2] {
                    v.extend([(TriL(k), vec![sh(&[m, m], b)]), (TriU(k), vec![sh(&[m, m], b)])]);
                }
            }
        }
        _ => {
            for (s, _) in &shs {
                for d in 0..=s.depth() {
                    let k = s.dim(d);
                    for (l, u) in [(0, k), (1, k), (0, k - 1), (k / 2, k / 2 + 1), (k - 1, k), (k / 3, k - k / 4)] {
                        if l < u {
                            v.push((Slice(d, l, u), vec![*s]));
                        }
                    }
                    for p in [2, 3, 5, k] {
                        if k % p == 0 {
                            v.push((Split(d, p), vec![*s]));
                        }
                    }
                    v.push((Pick(vec![k - 1], d), vec![*s]));
                    v.push((Pick(vec![k / 2], d), vec![*s]));
                    let many = if s.b > 1 { s.b } else { n };
                    v.push((Pick((0..many).map(|i| (i * 7 + k - 1) % k).collect(), d), vec![*s]));
                    v.push((Pick((0..many).map(|i| i * (k - 1) / many).collect(), d), vec![*s]));
                    v.push((Concat(d), vec![*s, *s]));
                    v.push((Concat(d), vec![*s, s.with_b(1).with(d, 2), *s]));
                    v.push((Concat(d), vec![s.with_b(1).with(d, 1), *s]));
                }
                v.push((Flatten, vec![*s]));
                v.push((Reshape(sh(&[s.size() as u32], 1)), vec![*s]));
                v.push((Reshape(sh(&[], s.size() as u32)), vec![*s]));
                for (l, u) in [(0, s.b), (1, s.b), (0, s.b - 1), (s.b / 2, s.b / 2 + 1), (s.b - 1, s.b)] {
                    if l < u {
                        v.push((BSlice(l, u), vec![*s]));
                    }
                }
                for p in [2, 3, 5, s.b] {
                    if s.b % p == 0 {
                        v.push((BSplit(p), vec![*s]));
                    }
                }
                v.push((BPick(vec![s.b - 1, 0, s.b - 1]), vec![*s]));
                v.push((BPick((0..n).map(|i| (i * 5 + i / 3) % s.b).collect()), vec![*s]));
                v.push((BConcat, vec![*s, *s]));
                v.push((BConcat, vec![s.with_b(2), *s, s.with_b(1)]));
            }
            v.push((Concat(0), (0..n).map(|i| sh(&[1 + i % 3], 1 + i % 2)).collect()));
            v.push((Concat(1), (0..n).map(|i| sh(&[2, 1 + i % 2], 1)).collect()));
            v.push((BConcat, (0..n).map(|i| sh(&[2], 1 + i % 3)).collect()));
        }
    }
    v
}

/// The cases of `sweep_ops` for every length up to `top`.
pub fn sweep_cases(ctx: &mut crate::Ctx, d: crate::Dev, family: &str, grad: bool, top: u32) {
    for n in 1..=top {
        let ops = std::cell::OnceCell::new();
        let parts = 6;
        for part in 0..parts {
            ctx.case(
                || format!("sweep {} {} {} part {}", family, if grad { "gradients" } else { "values" }, n, part),
                |rec| {
                    let all: &Vec<(Op, Vec<Sh>)> = ops.get_or_init(|| sweep_ops(family, n, grad));
                    for (op, shapes) in all.iter().skip(part).step_by(parts) {
                        if !matches!(op.judge(shapes), Verdict::Accept(_)) {
                            continue;
                        }
                        let (xs, exact) = large_data(op, shapes, 11 + n as u64);
                        let mag = matches!(op, Sce(_) | Ssce(..) | Lse(_) | LnSoftmax(_) | Softmax(_));
                        let r = if grad {
                            // long sums of f32 exponentials round: their error grows with the length
                            let floor = if mag && n > 140 { 0.3 * n as f64 } else { 0.005 };
                            let o = crate::GradOpts { exact, same: false, salt: 3, skip: vec![], floor };
                            crate::grad_case(d, op, &xs, &o, rec)
                        } else {
                            let tol = if exact { Tol::Exact } else if mag { Tol::Rel(2e-3, 0.05) } else { LOOSE };
                            crate::forward_case(d, op, &xs, tol, rec)
                        };
                        r.map_err(|e| {
                            let mut o = op.show();
                            o.truncate(60);
                            format!("{} {}: {}", o, shapes.iter().take(3).map(|s| s.show()).collect::<Vec<_>>().join(" "), e)
                        })?;
                        rec.trace(1);
                        rec.heartbeat();
                    }
                    Ok(())
                },
            );
        }
    }
}

/// Operations with a constant, over many constants, each with the range its operands are taken from.
pub fn const_ops() -> Vec<(Op, f64, f64)> {
    let mut v = vec![];
    for k in -64i32..=64 {
        let w = 40f64.powf(1. / (k.abs().max(4) as f64));
        if k < 0 {
            v.push((Powi(k), 1. / w, w));
        } else {
            v.push((Powi(k), -w, w));
        }
    }
    let mut ks: Vec<f32> = (-40..=40).map(|i| i as f32 / 4.).collect();
    ks.extend((-12..=12).map(|i| i as f32));
    ks.extend([1. / 3., -1. / 3., 0.1, 0.2, 0.3, 0.7, 0.9, 1.1, -0.1, 3.14159, 2.71828]);
    for &k in &ks {
        let w = 40f64.powf(1. / (k.abs().max(2.) as f64));
        v.push((Powf(k), 1. / w, w));
        v.push((Prelu(k), -3., 3.));
        v.push((Elu(k), -3., 3.));
    }
    for e in -24..=24 {
        ks.extend([2f32.powi(e), -(2f32.powi(e)), 1.7 * 2f32.powi(e)]);
    }
    ks.extend([16777217., 1e-8, 1e8, 1e-7, 123456.7, 255., 256., 257., 65535., 65536.]);
    ks.sort_by(|a, b| a.partial_cmp(b).unwrap());
    ks.dedup();
    for &k in &ks {
        for op in [AddR(k), AddL(k), SubR(k), SubL(k), MulR(k), MulL(k)] {
            v.push((op, -3., 3.));
        }
        if k != 0. {
            v.push((DivR(k), -3., 3.));
            v.push((DivL(k), 0.3, 6.));
        }
    }
    v
}

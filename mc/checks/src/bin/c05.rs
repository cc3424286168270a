//! C05: operations accept exactly the operands that fit.
use mc_core::Op::*;
use mc_core::*;
use prima_undine::functions::BasicFunctions;
use prima_undine::Node;

fn accept_case(d: Dev, op: &Op, shapes: &[Sh], rec: &mut Rec) -> Result<(), String> {
    let verdict = op.judge(shapes);
    if verdict == Verdict::Open {
        rec.outcome("open");
        return Ok(());
    }
    let xs: Vec<R> = shapes.iter().enumerate().map(|(i, s)| distinct(*s, i as u64 + 1)).collect();
    let ts: Vec<Ten> = xs.iter().map(|x| ten(d, x)).collect();
    let by = distinct(Sh::new(&[5], 2), 9);
    let bystander = ten(d, &by);
    let tr: Vec<&Ten> = ts.iter().collect();
    let eager = quiet(|| op.eager(&tr));
    let mut built = false;
    let graph = quiet(|| {
        let ns: Vec<Nd> = ts.iter().map(|t| Node::from(forever(t))).collect();
        let nr: Vec<&Nd> = ns.iter().collect();
        let ys = op.node(&nr);
        built = true;
        ys.iter()
            .map(|y| {
                y.forward();
                (y.shape(), y.to_vec().len())
            })
            .collect::<Vec<_>>()
    });
    rec.step(2);
    match verdict {
        Verdict::Accept(os) => {
            rec.outcome("accepted");
            match eager {
                Err(e) => return Err(format!("eager form rejects fitting operands: {}", e)),
                Ok(ys) => {
                    if ys.len() != os.len() {
                        return Err(format!("eager: {} results instead of {}", ys.len(), os.len()));
                    }
                    for (y, o) in ys.iter().zip(&os) {
                        check_shape("eager result", y, o)?;
                        if y.to_vec().len() != o.size() {
                            return Err("eager result has the wrong number of values".into());
                        }
                    }
                }
            }
            match graph {
                Err(e) => return Err(format!("graph form rejects fitting operands: {}", e)),
                Ok(ys) => {
                    if ys.len() != os.len() {
                        return Err(format!("graph: {} results instead of {}", ys.len(), os.len()));
                    }
                    for ((s, n), o) in ys.iter().zip(&os) {
                        if *s != o.shape() || *n != o.size() {
                            return Err(format!("graph result has shape {:?}, expected {}", s, o.show()));
                        }
                    }
                }
            }
        }
        _ => {
            rec.outcome(if built { "rejected on evaluation" } else { "rejected on building" });
            if let Ok(ys) = eager {
                return Err(format!(
                    "eager form accepts operands that do not fit (result {:?})",
                    ys.iter().map(|y| y.shape()).collect::<Vec<_>>()
                ));
            }
            if let Ok(ys) = graph {
                return Err(format!("graph form accepts operands that do not fit (result {:?})", ys));
            }
        }
    }
    for (i, (t, x)) in ts.iter().zip(&xs).enumerate() {
        check_ten(&format!("operand {} afterwards", i), t, x, Tol::Exact)?;
    }
    check_ten("another tensor afterwards", &bystander, &by, Tol::Exact)
}

/// Operands up to the limits of the library, on a device without memory behind its buffers: results
/// beyond the limits are rejected and not cut off.
fn huge_case(d: Dev, op: &Op, shapes: &[Sh], rec: &mut Rec) -> Result<(), String> {
    let verdict = op.judge(shapes);
    let ts: Vec<Ten> = shapes
        .iter()
        .map(|s| {
            let mut t = d.new_tensor(s.shape());
            t.alloc();
            t
        })
        .collect();
    let tr: Vec<&Ten> = ts.iter().collect();
    let eager = quiet(|| op.eager(&tr).iter().map(|y| Sh::of(y.shape())).collect::<Vec<_>>());
    let graph = quiet(|| {
        let ns: Vec<Nd> = ts.iter().map(|t| Node::from(forever(t))).collect();
        let ys = op.node(&ns.iter().collect::<Vec<_>>());
        ys.iter()
            .map(|y| {
                y.forward();
                Sh::of(y.shape())
            })
            .collect::<Vec<_>>()
    });
    rec.step(2);
    for (what, got) in [("eager", eager), ("graph", graph)] {
        match (&verdict, got) {
            (Verdict::Open, _) | (Verdict::Reject, Err(_)) => {}
            (Verdict::Reject, Ok(ys)) => {
                return Err(format!(
                    "{} form accepts operands whose result is too large or that do not fit (result {})",
                    what,
                    ys.iter().map(|y| y.show()).collect::<Vec<_>>().join(" ")
                ))
            }
            (Verdict::Accept(os), Ok(ys)) => {
                if *os != ys {
                    return Err(format!("{} result has shape {}", what, ys.iter().map(|y| y.show()).collect::<Vec<_>>().join(" ")));
                }
            }
            (Verdict::Accept(_), Err(e)) => return Err(format!("{} form rejects fitting operands: {}", what, e)),
        }
    }
    rec.outcome(if matches!(verdict, Verdict::Reject) { "huge rejected" } else { "huge accepted" });
    Ok(())
}

fn huge(ctx: &mut Ctx) {
    let d = backend_hollow();
    let sizes: &[u32] = ctx.pick(&[1, 2, 65535, 65536, 65537, 1 << 30, 1 << 31], &[1, 2, 3, 46341, 65535, 65536, 65537, 1 << 24, 1 << 30, (1 << 31) - 1, 1 << 31]);
    let mut shs = vec![];
    for &x in sizes {
        for &y in sizes {
            for &b in sizes {
                for dims in [vec![x, y], vec![x, 1, y]] {
                    let s = Sh::new(&dims, b);
                    let n: u128 = x as u128 * y as u128 * b as u128;
                    if n <= 1 << 31 {
                        shs.push(s);
                    }
                }
            }
        }
    }
    shs.sort_by_key(|s| (s.d, s.b));
    shs.dedup();
    for s in &shs {
        let mut ops = vec![Neg, AddR(2.), Transpose, TriL(1), Flatten, BSum, BPick(vec![s.b - 1, 0]), BSlice(0, s.b), BSlice(s.b - 1, s.b), BSplit(2)];
        for d in [0, 1, 2, 7, 8] {
            let n = s.dim(d);
            ops.extend([Sum(d), Max(d), Lse(d), LnSoftmax(d), Softmax(d), Slice(d, n - 1, n), Slice(d, 0, n), Split(d, 2), Pick(vec![n - 1], d), Ssce(vec![n - 1], d)]);
            for k in [2, 65536, 65537, 1 << 31, (1 << 31) + 1, u32::MAX] {
                ops.push(Bcast(d, k));
            }
        }
        for t in &shs {
            if t.d[2] == 1 || ctx.thorough() {
                ops.push(Reshape(*t));
            }
        }
        for op in ops {
            ctx.case(|| format!("huge {} {}", op.show(), s.show()), |rec| huge_case(d, &op, &[*s], rec));
        }
        for t in &shs {
            for op in [Add, Sub, Mul, Div, Pow, Matmul, BConcat, Concat(0), Concat(1), Concat(2), Sce(0)] {
                ctx.case(
                    || format!("huge {} {} {}", op.show(), s.show(), t.show()),
                    |rec| huge_case(d, &op, &[*s, *t], rec),
                );
            }
        }
        // sums that would come back from beyond 2^32
        for n in [2u32, 3, 4, 5, 7] {
            for dim in [0, 1, 2, 3] {
                let mut xs = vec![*s; n as usize];
                for last in [1, 2, 65536] {
                    xs[n as usize - 1] = s.with(dim, last);
                    if xs[n as usize - 1].size() > 1 << 31 {
                        continue;
                    }
                    ctx.case(
                        || format!("huge Concat({}) {} x{} {}", dim, s.show(), n - 1, last),
                        |rec| huge_case(d, &Concat(dim), &xs, rec),
                    );
                }
            }
            let mut xs = vec![*s; n as usize];
            for last in [1, 2, 65536] {
                xs[n as usize - 1] = s.with_b(last);
                if xs[n as usize - 1].size() > 1 << 31 {
                    continue;
                }
                ctx.case(
                    || format!("huge BConcat {} x{} {}", s.show(), n - 1, last),
                    |rec| huge_case(d, &BConcat, &xs, rec),
                );
            }
        }
    }
}

fn backend_hollow() -> Dev {
    Dv::from(mc_core::backend::hollow()).leak()
}

fn body(ctx: &mut Ctx) {
    huge(ctx);
    mc_core::alloc::enable_guards();
    let d = leaked_naive();
    let mut shs = all_shapes(3, 3, 27, &[1, 2, 3]);
    for s in [vec![1, 1, 1, 2], vec![2, 1, 1, 2], vec![1, 1, 1, 1, 1, 1, 1, 2], vec![2, 1, 3, 1, 2, 1, 2, 1], vec![6], vec![4], vec![2, 1, 1, 1, 1, 1, 1, 3], vec![12], vec![2, 6]] {
        for b in [1, 2] {
            shs.push(Sh::new(&s, b));
        }
    }
    if ctx.thorough() {
        shs.extend(all_shapes(4, 3, 54, &[1, 2]));
        shs.extend(all_shapes(2, 6, 36, &[1, 2, 4, 6]));
    }
    shs.sort_by_key(|s| (s.d, s.b));
    shs.dedup();
    let dims: Vec<u32> = (0..8).chain([8, 9, 63, u32::MAX]).collect();
    for s in &shs {
        let mut ops = vec![Neg, Abs, Sqrt, Exp, Ln, Tanh, Sigmoid, Softplus, Sin, Cos, Tan, Relu, Lrelu, Prelu(0.5), Elu(0.5), Powf(2.), Powi(3), AddR(2.), AddL(2.), SubR(2.), SubL(2.), MulR(2.), MulL(2.), DivR(2.), DivL(2.), Transpose, Flatten, BSum];
        for k in [0, 1, 2, 5, u32::MAX] {
            ops.push(TriL(k));
            ops.push(TriU(k));
        }
        for &dim in &dims {
            ops.extend([Sum(dim), Max(dim), Min(dim), Lse(dim), LnSoftmax(dim), Softmax(dim)]);
            for n in [0, 1, 2, 5, u32::MAX] {
                ops.push(Bcast(dim, n));
            }
            let n = s.dim(dim);
            for l in 0..=n + 2 {
                for u in 0..=n + 2 {
                    ops.push(Slice(dim, l, u));
                }
            }
            ops.push(Slice(dim, 0, u32::MAX));
            ops.push(Slice(dim, u32::MAX, u32::MAX));
            ops.push(Slice(dim, 1, 0));
            for k in 0..=n + 2 {
                ops.push(Split(dim, k));
            }
            ops.push(Split(dim, u32::MAX));
            // id lists: good and bad ids, fitting and not fitting counts
            let mut lists: Vec<Vec<u32>> = vec![vec![]];
            let ids = [0, n - 1, n, n + 1, u32::MAX];
            for len in 1..=4usize {
                for &bad in &ids {
                    for at in 0..len {
                        let mut v = vec![n - 1; len];
                        v[at] = bad;
                        lists.push(v);
                    }
                }
            }
            lists.sort();
            lists.dedup();
            for l in lists {
                ops.push(Pick(l.clone(), dim));
                ops.push(Ssce(l, dim));
            }
        }
        for l in 0..=s.b + 2 {
            for u in 0..=s.b + 2 {
                ops.push(BSlice(l, u));
            }
            ops.push(BSplit(l));
        }
        ops.push(BSlice(0, u32::MAX));
        ops.push(BSplit(u32::MAX));
        ops.push(BPick(vec![]));
        for len in 1..=3usize {
            for bad in [0, s.b - 1, s.b, s.b + 1, u32::MAX] {
                for at in 0..len {
                    let mut v = vec![0; len];
                    v[at] = bad;
                    ops.push(BPick(v));
                }
            }
        }
        for op in ops {
            ctx.case(
                || format!("{} {}", op.show(), s.show()),
                |rec| accept_case(d, &op, &[*s], rec),
            );
        }
        for t in &shs {
            let op = Reshape(*t);
            ctx.case(
                || format!("{} {}", op.show(), s.show()),
                |rec| accept_case(d, &op, &[*s], rec),
            );
        }
    }
    // two operands: every pair
    for a in &shs {
        for b in &shs {
            for op in [Add, Sub, Mul, Div, Pow, Matmul, BConcat] {
                ctx.case(
                    || format!("{} {} {}", op.show(), a.show(), b.show()),
                    |rec| accept_case(d, &op, &[*a, *b], rec),
                );
            }
            for &dim in &[0u32, 1, 2, 3, 7, 8, u32::MAX] {
                for op in [Concat(dim), Sce(dim)] {
                    ctx.case(
                        || format!("{} {} {}", op.show(), a.show(), b.show()),
                        |rec| accept_case(d, &op, &[*a, *b], rec),
                    );
                }
            }
        }
    }
    // joins of none, one and three
    ctx.case(
        || "concat of nothing".to_string(),
        |_| {
            for dim in [0, 1, 8] {
                if !panics(|| Ten::concat(&[], dim)) || !panics(|| Nd::concat(&[], dim)) {
                    return Err("accepted".into());
                }
            }
            if !panics(|| Ten::batch_concat(&[])) || !panics(|| Nd::batch_concat(&[])) {
                return Err("batch accepted".into());
            }
            Ok(())
        },
    );
    let few = all_shapes(2, 3, 9, &[1, 2, 3]);
    for a in &few {
        for &dim in &dims {
            ctx.case(
                || format!("Concat({}) {}", dim, a.show()),
                |rec| accept_case(d, &Concat(dim), &[*a], rec),
            );
        }
        ctx.case(|| format!("BConcat {}", a.show()), |rec| accept_case(d, &BConcat, &[*a], rec));
        for b in &few {
            for c in &few {
                for op in [Concat(0), Concat(1), Concat(2), BConcat] {
                    ctx.case(
                        || format!("{} {} {} {}", op.show(), a.show(), b.show(), c.show()),
                        |rec| accept_case(d, &op, &[*a, *b, *c], rec),
                    );
                }
            }
        }
    }
}

fn main() {
    run(
        Spec {
            id: "C05",
            level: "model_checking",
            rule: "every operation with every shape, every pair of shapes, triples for joins, and every index argument up to \
                   two beyond the limits (plus extreme values): accepted exactly when the definition allows it, with the \
                   defined result shape, in eager and graph form; all tensors unchanged",
            assumptions: &["cross entropy of a scalar with a non-scalar is left open", "argmax/argmin/argsort beyond eight dimensions are left open"],
        },
        body,
    );
}

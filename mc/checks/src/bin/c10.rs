//! C10: data movement operations.
use mc_core::Op::*;
use mc_core::*;
use prima_undine::functions::BasicFunctions;
use prima_undine::Node;

fn id_lists(dim: u32, b: u32, top: usize) -> Vec<Vec<u32>> {
    // all lists over the axis of length 1, b (or 1..=3 for batch 1)
    let lens: Vec<usize> = if b == 1 { vec![1, 2, 3] } else { vec![1, b as usize] };
    let mut out = vec![];
    for l in lens {
        let n = (dim as usize).pow(l as u32);
        if n <= top {
            for c in 0..n {
                let mut v = vec![];
                let mut c = c;
                for _ in 0..l {
                    v.push((c % dim as usize) as u32);
                    c /= dim as usize;
                }
                out.push(v);
            }
        } else {
            for k in 0..dim {
                out.push((0..l as u32).map(|i| (k + i * 2) % dim).collect());
                out.push((0..l as u32).map(|i| (k + dim * 3 - i) % dim).collect());
            }
            out.push(vec![0; l]);
            out.push(vec![dim - 1; l]);
        }
    }
    out.sort();
    out.dedup();
    out
}

fn roundtrip(d: Dev, s: Sh, dim: u32, n: u32, rec: &mut Rec) -> Result<(), String> {
    let r = distinct(s, 3);
    let x = ten(d, &r);
    let parts = x.split(dim, n);
    let parts: Vec<&Ten> = parts.iter().collect();
    check_ten("split then concat", &Ten::concat(&parts, dim), &r, Tol::Exact)?;
    let nx: Nd = Node::from(forever(&x));
    let parts = nx.split(dim, n);
    check_node("split then concat in a graph", &Nd::concat(&parts.iter().collect::<Vec<_>>(), dim), &r, Tol::Exact)?;
    rec.step(2);
    Ok(())
}

fn broundtrip(d: Dev, s: Sh, n: u32, rec: &mut Rec) -> Result<(), String> {
    let r = distinct(s, 4);
    let x = ten(d, &r);
    let parts = x.batch_split(n);
    check_ten("batch split then concat", &Ten::batch_concat(&parts.iter().collect::<Vec<_>>()), &r, Tol::Exact)?;
    let nx: Nd = Node::from(forever(&x));
    let parts = nx.batch_split(n);
    check_node("batch split then concat in a graph", &Nd::batch_concat(&parts.iter().collect::<Vec<_>>()), &r, Tol::Exact)?;
    rec.step(2);
    Ok(())
}

fn body(ctx: &mut Ctx) {
    mc_core::alloc::enable_guards();
    let d = leaked_naive();
    large_cases(ctx, d, "move", false);
    sweep_cases(ctx, d, "move", false, ctx.pick(140, 600));
    let seed = ctx.seed;
    let mut shs = all_shapes(3, 4, 64, &[1, 2, 3]);
    shs.extend(all_shapes(ctx.pick(5, 6), 3, ctx.pick(243, 729), &[1, 2]));
    shs.extend(all_shapes(3, 5, 125, &[1, 2, 3, 4]));
    shs.extend(all_shapes(6, 2, 64, &[1, 2, 3]));
    if ctx.thorough() {
        shs.extend(all_shapes(4, 5, 300, &[1, 2, 3, 4]));
        shs.extend(all_shapes(8, 2, 256, &[1, 2, 3, 5]));
    }
    for s in [vec![1, 1, 1, 1, 1, 1, 1, 3], vec![2, 1, 3, 1, 2, 1, 2, 1], vec![2, 2, 2, 2, 2, 2, 2, 2], vec![6], vec![8], vec![9], vec![65], vec![2, 12], vec![64, 2], vec![3, 130]] {
        for b in [1, 2] {
            shs.push(Sh::new(&s, b));
        }
    }
    shs.sort_by_key(|s| (s.d, s.b));
    shs.dedup();
    for s in &shs {
        for dim in 0..8u32 {
            let n = s.dim(dim);
            if n == 1 && dim > 4 {
                // beyond the rank: one representative high axis and the last one
                if dim == 5 {
                    continue;
                }
            }
            let ends: Vec<u32> = if n <= 12 { (0..=n).collect() } else { vec![0, 1, 2, n / 2, n - 2, n - 1, n] };
            for &l in &ends {
                for &u in &ends {
                    if l < u {
                        let op = Slice(dim, l, u);
                        ctx.case(
                            || format!("{} {}", op.show(), s.show()),
                            |rec| forward_case(d, &op, &[distinct(*s, seed)], Tol::Exact, rec),
                        );
                    }
                }
            }
            for k in 1..=n {
                if n % k == 0 {
                    let op = Split(dim, k);
                    ctx.case(
                        || format!("{} {}", op.show(), s.show()),
                        |rec| {
                            forward_case(d, &op, &[distinct(*s, seed)], Tol::Exact, rec)?;
                            roundtrip(d, *s, dim, k, rec)
                        },
                    );
                }
            }
            for ids in id_lists(n, s.b, ctx.pick(130, 700)) {
                let op = Pick(ids, dim);
                ctx.case(
                    || format!("{} {}", op.show(), s.show()),
                    |rec| forward_case(d, &op, &[distinct(*s, seed)], Tol::Exact, rec),
                );
            }
        }
        // batch counterparts
        for l in 0..s.b {
            for u in l + 1..=s.b {
                let op = BSlice(l, u);
                ctx.case(
                    || format!("{} {}", op.show(), s.show()),
                    |rec| forward_case(d, &op, &[distinct(*s, seed)], Tol::Exact, rec),
                );
            }
        }
        ctx.case(
            || format!("flatten {}", s.show()),
            |rec| forward_case(d, &Flatten, &[distinct(*s, seed)], Tol::Exact, rec),
        );
    }
    for dims in [vec![], vec![3], vec![2, 2], vec![1, 3], vec![2, 1, 3], vec![65], vec![64]] {
        for b in 1..=ctx.pick(6, 12) {
            let s = Sh::new(&dims, b);
            for l in 0..b {
                for u in l + 1..=b {
                    let op = BSlice(l, u);
                    ctx.case(
                        || format!("b {} {}", op.show(), s.show()),
                        |rec| forward_case(d, &op, &[distinct(s, seed)], Tol::Exact, rec),
                    );
                }
            }
            for n in 1..=b {
                if b % n == 0 {
                    let op = BSplit(n);
                    ctx.case(
                        || format!("{} {}", op.show(), s.show()),
                        |rec| {
                            forward_case(d, &op, &[distinct(s, seed)], Tol::Exact, rec)?;
                            broundtrip(d, s, n, rec)
                        },
                    );
                }
            }
            if b <= 4 {
                for len in 1..=ctx.pick(4usize, 5) {
                    let n = (b as usize).pow(len as u32);
                    for c in 0..n {
                        let mut v = vec![];
                        let mut c = c;
                        for _ in 0..len {
                            v.push((c % b as usize) as u32);
                            c /= b as usize;
                        }
                        let op = BPick(v);
                        ctx.case(
                            || format!("{} {}", op.show(), s.show()),
                            |rec| forward_case(d, &op, &[distinct(s, seed)], Tol::Exact, rec),
                        );
                    }
                }
            }
            let long: Vec<u32> = (0..70).map(|i| (i * 5 + 1) % b).collect();
            let op = BPick(long);
            ctx.case(
                || format!("BPick-long {}", s.show()),
                |rec| forward_case(d, &op, &[distinct(s, seed)], Tol::Exact, rec),
            );
        }
    }
    // concat: every number of inputs, axis lengths and batch mixes
    for base in [vec![], vec![2], vec![2, 3], vec![1, 2], vec![2, 1, 2], vec![3, 1, 2, 2], vec![9], vec![33]] {
        for dim in [0u32, 1, 2, 3, 4, 7] {
            let b0 = Sh::new(&base, 1).with(dim, 1);
            for cnt in 1..=4usize {
                let lens = ctx.pick(4u32, 5);
                let total = (lens as usize).pow(cnt as u32);
                if cnt == 4 && !ctx.thorough() && dim > 2 {
                    continue;
                }
                for code in 0..total {
                    for bmask in 0..(1u32 << cnt) {
                        for nb in [2u32, 3] {
                            if bmask == 0 && nb == 3 {
                                continue;
                            }
                            let mut xs = vec![];
                            let mut c = code;
                            for i in 0..cnt {
                                let n = (c % lens as usize) as u32 + 1;
                                c /= lens as usize;
                                xs.push(b0.with(dim, n).with_b(if bmask >> i & 1 == 1 { nb } else { 1 }));
                            }
                            ctx.case(
                                || format!("Concat({}) {}", dim, xs.iter().map(|x| x.show()).collect::<Vec<_>>().join(",")),
                                |rec| {
                                    let r: Vec<R> = xs.iter().enumerate().map(|(i, s)| distinct(*s, i as u64 + seed)).collect();
                                    forward_case(d, &Concat(dim), &r, Tol::Exact, rec)
                                },
                            );
                        }
                    }
                }
            }
        }
    }
    for (dim, n) in [(0, 7usize), (1, 6), (2, 9), (0, 20), (1, 33)] {
        ctx.case(
            || format!("Concat({}) of {}", dim, n),
            |rec| {
                let r: Vec<R> = (0..n)
                    .map(|i| distinct(Sh::new(&[2, 3], if i % 3 == 1 { 2 } else { 1 }).with(dim, 1 + (i as u32 * 7) % 5), i as u64))
                    .collect();
                forward_case(d, &Concat(dim), &r, Tol::Exact, rec)
            },
        );
    }
    for dims in [vec![], vec![2], vec![2, 3], vec![1, 2], vec![2, 1, 2], vec![33]] {
        for cnt in 1..=ctx.pick(5usize, 7) {
            for code in 0..3usize.pow(cnt as u32) {
                let mut xs = vec![];
                let mut c = code;
                for _ in 0..cnt {
                    xs.push(Sh::new(&dims, (c % 3) as u32 + 1));
                    c /= 3;
                }
                ctx.case(
                    || format!("BConcat {}", xs.iter().map(|x| x.show()).collect::<Vec<_>>().join(",")),
                    |rec| {
                        let r: Vec<R> = xs.iter().enumerate().map(|(i, s)| distinct(*s, i as u64 + seed)).collect();
                        forward_case(d, &BConcat, &r, Tol::Exact, rec)
                    },
                );
            }
        }
    }
    // reshape between all shapes of the same size
    let all = all_shapes(ctx.pick(4, 5), 24, ctx.pick(24, 48), &[1, 2, 3]);
    for a in &all {
        for b in &all {
            if a.size() == b.size() {
                let op = Reshape(*b);
                ctx.case(
                    || format!("{} {}", op.show(), a.show()),
                    |rec| forward_case(d, &op, &[distinct(*a, seed)], Tol::Exact, rec),
                );
            }
        }
    }
}

fn main() {
    run(
        Spec {
            id: "C10",
            level: "model_checking",
            rule: "every (shape, batch, axis, range / part count / id list) within the bounds; every number, length and \
                   batch mix of joined tensors; all same-size reshapes; split∘concat and batch split∘concat are the \
                   identity; all elements distinct, exact comparison, eager and graph form",
            assumptions: &["values are small integers; movement is value independent"],
        },
        body,
    );
}

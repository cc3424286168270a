//! C13: gradients of matrix and data movement operations.
use mc_core::Op::*;
use mc_core::*;

fn opts(salt: u64) -> GradOpts {
    GradOpts { exact: true, same: false, salt, skip: vec![], floor: 0.005 }
}

fn perms(n: usize) -> Vec<Vec<u32>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in perms(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n as u32 - 1);
            out.push(q);
        }
    }
    out
}

fn lists(n: u32, l: u32, top: usize) -> Vec<Vec<u32>> {
    let total = (n as usize).pow(l);
    let step = (total / top).max(1);
    (0..total)
        .step_by(step)
        .map(|c| {
            let mut c = c;
            (0..l)
                .map(|_| {
                    let r = (c % n as usize) as u32;
                    c /= n as usize;
                    r
                })
                .collect()
        })
        .collect()
}

fn body(ctx: &mut Ctx) {
    mc_core::alloc::enable_guards();
    let d = leaked_naive();
    large_cases(ctx, d, "move", true);
    sweep_cases(ctx, d, "move", true, ctx.pick(140, 600));
    large_cases(ctx, d, "matrix", true);
    sweep_cases(ctx, d, "matrix", true, ctx.pick(140, 600));
    let seed = ctx.seed;
    // matmul
    let top = ctx.pick(7u32, 10);
    let mut sizes = vec![];
    for m in 1..=top {
        for k in 1..=top {
            for n in 1..=top {
                sizes.push((m, k, n));
            }
        }
    }
    let edge: &[u32] = ctx.pick(&[1, 2, 8, 9, 16, 17], &[1, 2, 3, 8, 9, 15, 16, 17, 24, 25]);
    for &m in edge {
        for &k in edge {
            for &n in edge {
                sizes.push((m, k, n));
            }
        }
    }
    sizes.sort();
    sizes.dedup();
    for &(m, k, n) in &sizes {
        for (ba, bb) in [(1, 1), (2, 2), (1, 3), (3, 1)] {
            let (sa, sb) = (Sh::new(&[m, k], ba), Sh::new(&[k, n], bb));
            ctx.case(
                || format!("matmul {} {}", sa.show(), sb.show()),
                |rec| {
                    let (a, b) = (ints(sa, 6, true, seed), ints(sb, 6, true, seed + 5));
                    grad_case(d, &Matmul, &[a.clone(), b], &opts(1), rec)?;
                    if sa == sb {
                        let o = GradOpts { same: true, ..opts(1) };
                        grad_case(d, &Matmul, &[a.clone(), a], &o, rec)?;
                    }
                    Ok(())
                },
            );
        }
    }
    for m in 1..=ctx.pick(9u32, 18) {
        for n in 1..=ctx.pick(9u32, 18) {
            for b in [1, 2, 3] {
                let s = Sh::new(&[m, n], b);
                ctx.case(
                    || format!("transpose {}", s.show()),
                    |rec| grad_case(d, &Transpose, &[distinct(s, seed)], &opts(2), rec),
                );
                if m == n {
                    for k in (0..=n + 1).chain([u32::MAX]) {
                        for op in [TriL(k), TriU(k)] {
                            ctx.case(
                                || format!("{} {}", op.show(), s.show()),
                                |rec| grad_case(d, &op, &[distinct(s, seed)], &opts(3), rec),
                            );
                        }
                    }
                }
            }
        }
    }
    // movement
    let mut shs = all_shapes(3, 4, ctx.pick(48, 64), &[1, 2, 3]);
    shs.extend(all_shapes(4, 3, ctx.pick(36, 81), &[1, 2]));
    for s in [vec![1, 1, 1, 1, 1, 1, 1, 3], vec![2, 1, 3, 1, 2, 1, 2, 1], vec![9], vec![12], vec![2, 17], vec![65], vec![2, 64]] {
        for b in [1, 2] {
            shs.push(Sh::new(&s, b));
        }
    }
    for s in [vec![2, 3, 2, 1, 2], vec![2; 6], vec![3, 2, 1, 2, 2, 3], vec![1, 2, 1, 3, 1, 2, 2]] {
        shs.push(Sh::new(&s, 1));
        shs.push(Sh::new(&s, 2));
    }
    if ctx.thorough() {
        shs.extend([Sh::new(&[2; 7], 1), Sh::new(&[2; 8], 1)]);
        shs.extend(all_shapes(5, 2, 32, &[1, 2, 3]));
        shs.extend(all_shapes(3, 5, 125, &[1, 2]));
    }
    shs.sort_by_key(|s| (s.d, s.b));
    shs.dedup();
    for s in &shs {
        for dim in 0..8u32 {
            let n = s.dim(dim);
            if n == 1 && dim == 5 {
                continue;
            }
            let ends: Vec<u32> = if n <= 9 { (0..=n).collect() } else { vec![0, 1, n / 2, n - 1, n] };
            for &l in &ends {
                for &u in &ends {
                    if l < u {
                        let op = Slice(dim, l, u);
                        ctx.case(
                            || format!("{} {}", op.show(), s.show()),
                            |rec| grad_case(d, &op, &[distinct(*s, seed)], &opts(4), rec),
                        );
                    }
                }
            }
            for k in 1..=n.min(20) {
                if n % k == 0 {
                    let op = Split(dim, k);
                    ctx.case(
                        || format!("{} {}", op.show(), s.show()),
                        |rec| grad_case(d, &op, &[distinct(*s, seed)], &opts(5), rec),
                    );
                }
            }
            let lens: Vec<u32> = if s.b == 1 { vec![1, 2, 3] } else { vec![1, s.b] };
            for l in lens {
                for ids in lists(n, l, ctx.pick(40, 130)) {
                    let op = Pick(ids, dim);
                    ctx.case(
                        || format!("{} {}", op.show(), s.show()),
                        |rec| grad_case(d, &op, &[distinct(*s, seed)], &opts(6), rec),
                    );
                }
            }
            ctx.case(|| format!("flip {} dim{}", s.show(), dim), |rec| flip(d, *s, dim, rec));
        }
        for nd in s.depth().max(1) as usize..=4.max(s.depth() as usize) {
            if nd == 8 && !ctx.thorough() {
                continue;
            }
            for perm in perms(nd) {
                ctx.case(|| format!("permute {} {:?}", s.show(), perm), |rec| permute(d, *s, &perm, rec));
            }
        }
        ctx.case(
            || format!("flatten {}", s.show()),
            |rec| grad_case(d, &Flatten, &[distinct(*s, seed)], &opts(7), rec),
        );
    }
    for dims in [vec![], vec![3], vec![2, 2], vec![1, 3], vec![65]] {
        for b in 1..=ctx.pick(5, 8) {
            let s = Sh::new(&dims, b);
            for l in 0..b {
                for u in l + 1..=b {
                    let op = BSlice(l, u);
                    ctx.case(
                        || format!("{} {}", op.show(), s.show()),
                        |rec| grad_case(d, &op, &[distinct(s, seed)], &opts(8), rec),
                    );
                }
            }
            for n in 1..=b {
                if b % n == 0 {
                    let op = BSplit(n);
                    ctx.case(
                        || format!("{} {}", op.show(), s.show()),
                        |rec| grad_case(d, &op, &[distinct(s, seed)], &opts(9), rec),
                    );
                }
            }
            for l in 1..=ctx.pick(4, 5) {
                for ids in lists(b, l, ctx.pick(130, 700)) {
                    let op = BPick(ids);
                    ctx.case(
                        || format!("{} {}", op.show(), s.show()),
                        |rec| grad_case(d, &op, &[distinct(s, seed)], &opts(10), rec),
                    );
                }
            }
        }
    }
    for base in [vec![], vec![2], vec![2, 3], vec![1, 2], vec![2, 1, 2], vec![33]] {
        for dim in [0u32, 1, 2, 3, 7] {
            let b0 = Sh::new(&base, 1).with(dim, 1);
            for cnt in 1..=4u32 {
                for lens in lists(3, cnt, 81) {
                    for bmask in 0..(1u32 << cnt) {
                        let xs: Vec<Sh> = lens
                            .iter()
                            .enumerate()
                            .map(|(i, &n)| b0.with(dim, n + 1).with_b(if bmask >> i & 1 == 1 { 2 + cnt % 2 } else { 1 }))
                            .collect();
                        ctx.case(
                            || format!("Concat({}) {}", dim, xs.iter().map(|x| x.show()).collect::<Vec<_>>().join(",")),
                            |rec| {
                                let r: Vec<R> = xs.iter().enumerate().map(|(i, s)| distinct(*s, i as u64 + seed)).collect();
                                grad_case(d, &Concat(dim), &r, &opts(11), rec)?;
                                if xs.iter().all(|x| *x == xs[0]) {
                                    let r = vec![r[0].clone(); r.len()];
                                    grad_case(d, &Concat(dim), &r, &GradOpts { same: true, ..opts(11) }, rec)?;
                                }
                                Ok(())
                            },
                        );
                    }
                }
            }
        }
    }
    for dims in [vec![], vec![2], vec![2, 3], vec![33]] {
        for cnt in 1..=ctx.pick(4, 5) {
            for bl in lists(3, cnt, 300) {
                let xs: Vec<Sh> = bl.iter().map(|&b| Sh::new(&dims, b + 1)).collect();
                ctx.case(
                    || format!("BConcat {}", xs.iter().map(|x| x.show()).collect::<Vec<_>>().join(",")),
                    |rec| {
                        let r: Vec<R> = xs.iter().enumerate().map(|(i, s)| distinct(*s, i as u64 + seed)).collect();
                        grad_case(d, &BConcat, &r, &opts(12), rec)?;
                        if xs.iter().all(|x| *x == xs[0]) {
                            let r = vec![r[0].clone(); r.len()];
                            grad_case(d, &BConcat, &r, &GradOpts { same: true, ..opts(12) }, rec)?;
                        }
                        Ok(())
                    },
                );
            }
        }
    }
    for s in long_shapes(ctx.thorough(), true, ctx.pick(140, 600)) {
        for dim in 0..=s.depth().min(7) {
            ctx.case(|| format!("flip {} dim{}", s.show(), dim), |rec| flip(d, s, dim, rec));
        }
        for perm in large_perms(&s) {
            ctx.case(|| format!("permute {} {:?}", s.show(), perm), |rec| permute(d, s, &perm, rec));
        }
    }
    let all = all_shapes(ctx.pick(3, 4), 12, ctx.pick(12, 24), &[1, 2, 3]);
    for a in &all {
        for b in &all {
            if a.size() == b.size() {
                let op = Reshape(*b);
                ctx.case(
                    || format!("{} {}", op.show(), a.show()),
                    |rec| grad_case(d, &op, &[distinct(*a, seed)], &opts(13), rec),
                );
            }
        }
    }
}

fn kernel_bw(d: Dev, name: &str, u: &[u32], x: &R, y: &R, gy: &R, exp: &R, rec: &mut Rec) -> Result<(), String> {
    let (tx, ty, tg) = (ten(d, x), ten(d, y), ten(d, gy));
    poison(d, &[class_of(x.s.size())], 3, f32::NAN);
    for present in [false, true] {
        let pre = if present { ints(x.s, 9, true, 5) } else { Rt::new(x.s, vec![0.; x.s.size()]) };
        let mut gx = ten(d, &pre);
        d.call_bw_impl(name, &[&tx], &[&ty], &[&tg], u, &[], &mut gx);
        rec.step(1);
        let e = Rt::new(x.s, exp.v.iter().zip(&pre.v).map(|(a, b)| a + b).collect());
        check_ten(name, &gx, &e, Tol::Exact)?;
    }
    check_ten("operand", &tx, x, Tol::Exact)?;
    check_ten("upstream gradient", &tg, gy, Tol::Exact)
}

fn flip(d: Dev, s: Sh, dim: u32, rec: &mut Rec) -> Result<(), String> {
    let x = distinct(s, 1);
    let n = s.dim(dim);
    let y = Rt::<f64>::build(s, |c, b| *x.at(&put(c, dim, n - 1 - c[dim as usize]), b));
    let gy = ints(s, 9, true, 3);
    let e = Rt::<f64>::build(s, |c, b| *gy.at(&put(c, dim, n - 1 - c[dim as usize]), b));
    kernel_bw(d, "flip_bw_impl", &[dim], &x, &y, &gy, &e, rec)
}

fn permute(d: Dev, s: Sh, perm: &[u32], rec: &mut Rec) -> Result<(), String> {
    let p = |k: usize| if k < perm.len() { perm[k] as usize } else { k };
    let x = distinct(s, 1);
    let mut o = s;
    for k in 0..8 {
        o.d[k] = s.d[p(k)];
    }
    // y[c] = x[e] with e[p(k)] = c[k]
    let y = Rt::<f64>::build(o, |c, b| {
        let mut e = [0; 8];
        for k in 0..8 {
            e[p(k)] = c[k];
        }
        *x.at(&e, b)
    });
    let gy = ints(o, 9, true, 3);
    let e = Rt::<f64>::build(s, |e, b| {
        let mut c = [0; 8];
        for k in 0..8 {
            c[k] = e[p(k)];
        }
        *gy.at(&c, b)
    });
    kernel_bw(d, "permute_dims_bw_impl", perm, &x, &y, &gy, &e, rec)
}

fn main() {
    run(
        Spec {
            id: "C13",
            level: "model_checking",
            rule: "every (shape, axis, range, id list, part count, join, permutation, size triple, batch combination) within \
                   the bounds with arbitrary upstream gradients, into empty and filled gradients, repeated operands, \
                   at operator, kernel and graph level; exact integer comparison with the dual-number reference",
            assumptions: &["small integer entries (exact in f32)"],
        },
        body,
    );
}

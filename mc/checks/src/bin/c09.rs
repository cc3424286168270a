//! C09: matrix operations for all sizes and batch combinations.
use mc_core::Op::*;
use mc_core::*;

fn permute(x: &R, perm: &[u32]) -> R {
    let p = |k: usize| if k < perm.len() { perm[k] as usize } else { k };
    let mut o = x.s;
    for k in 0..8 {
        o.d[k] = x.s.d[p(k)];
    }
    Rt::build(o, |c, b| {
        let mut e = [0; 8];
        for k in 0..8 {
            e[p(k)] = c[k];
        }
        *x.at(&e, b)
    })
}

fn perms(n: usize) -> Vec<Vec<u32>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in perms(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n as u32 - 1);
            out.push(q);
        }
    }
    out
}

fn flip_case(d: Dev, s: &Sh, dim: u32, seed: u64, rec: &mut Rec) -> Result<(), String> {
    let r = distinct(*s, seed);
    let n = s.dim(dim);
    let e = Rt::<f64>::build(*s, |c, b| *r.at(&put(c, dim, n - 1 - c[dim as usize]), b));
    let x = ten(d, &r);
    let mut y = ten_const(d, *s, f32::NAN);
    d.call_fw_impl("flip_fw_impl", &[&x], &[dim], &[], &mut [&mut y]);
    rec.step(1);
    check_ten("flip", &y, &e, Tol::Exact)?;
    check_ten("flip operand", &x, &r, Tol::Exact)
}

fn permute_case(d: Dev, s: &Sh, perm: &[u32], seed: u64, rec: &mut Rec) -> Result<(), String> {
    let r = distinct(*s, seed);
    let e = permute(&r, perm);
    let x = ten(d, &r);
    let mut y = ten_const(d, e.s, f32::NAN);
    d.call_fw_impl("permute_dims_fw_impl", &[&x], perm, &[], &mut [&mut y]);
    rec.step(1);
    check_ten("permute", &y, &e, Tol::Exact)?;
    check_ten("permute operand", &x, &r, Tol::Exact)
}

fn body(ctx: &mut Ctx) {
    mc_core::alloc::enable_guards();
    let d = leaked_naive();
    large_cases(ctx, d, "matrix", false);
    sweep_cases(ctx, d, "matrix", false, ctx.pick(140, 600));
    let seed = ctx.seed;
    // matrix product: every small size
    let top = ctx.pick(20u32, 40);
    let batches: &[(u32, u32)] = &[(1, 1), (2, 2), (1, 3), (3, 1)];
    let mut sizes = vec![];
    for m in 1..=top {
        for k in 1..=top {
            for n in 1..=top {
                sizes.push((m, k, n));
            }
        }
    }
    // around block boundaries
    let edge: &[u32] = ctx.pick(&[1, 2, 7, 8, 15, 16, 17, 24, 25, 33], &[1, 2, 3, 7, 8, 15, 16, 17, 23, 24, 25, 31, 32, 33, 40]);
    for &m in edge {
        for &k in edge {
            for &n in edge {
                sizes.push((m, k, n));
            }
        }
    }
    let e2: &[u32] = ctx.pick(&[1, 9, 64, 65], &[1, 5, 8, 63, 64, 65, 100, 129]);
    for &m in e2 {
        for &k in e2 {
            for &n in e2 {
                sizes.push((m, k, n));
            }
        }
    }
    sizes.sort();
    sizes.dedup();
    for &(m, k, n) in &sizes {
        for &(ba, bb) in batches {
            let (sa, sb) = (Sh::new(&[m, k], ba), Sh::new(&[k, n], bb));
            if sa.size() + sb.size() > 60000 {
                continue;
            }
            ctx.case(
                || format!("matmul {} {}", sa.show(), sb.show()),
                |rec| {
                    let (a, b) = (ints(sa, 9, true, seed), ints(sb, 9, true, seed + 5));
                    forward_case(d, &Matmul, &[a, b], Tol::Exact, rec)
                },
            );
        }
    }
    // transpose and triangular masks
    let mut mats = vec![];
    for m in 1..=ctx.pick(20u32, 40) {
        for n in 1..=ctx.pick(20u32, 40) {
            mats.push((m, n));
        }
    }
    for &m in ctx.pick(&[15u32, 16, 17, 64, 65][..], &[15u32, 16, 17, 31, 32, 33, 63, 64, 65, 127, 129][..]) {
        for &n in &[1u32, 2, 15, 16, 17, 33, 64, 65] {
            mats.push((m, n));
            mats.push((n, m));
        }
    }
    mats.sort();
    mats.dedup();
    for &(m, n) in &mats {
        for b in [1, 2, 3] {
            let s = Sh::new(&[m, n], b);
            ctx.case(
                || format!("transpose {}", s.show()),
                |rec| forward_case(d, &Transpose, &[distinct(s, seed)], Tol::Exact, rec),
            );
            if m == n {
                let mut ks: Vec<u32> = (0..=n + 2).collect();
                ks.extend([1 << 20, 1 << 31, u32::MAX - 1, u32::MAX]);
                for k in ks {
                    for op in [TriL(k), TriU(k)] {
                        ctx.case(
                            || format!("{} {}", op.show(), s.show()),
                            |rec| forward_case(d, &op, &[distinct(s, seed)], Tol::Exact, rec),
                        );
                    }
                }
            }
        }
    }
    // flip and permute kernels
    let mut shs = all_shapes(4, 3, 81, &[1, 2, 3]);
    for s in [vec![1, 1, 1, 1, 1, 1, 1, 3], vec![2, 1, 3, 1, 2, 1, 2, 1], vec![1, 2, 3, 4, 5]] {
        for b in [1, 2] {
            shs.push(Sh::new(&s, b));
        }
    }
    for s in [vec![2; 6], vec![2, 3, 2, 1, 3, 2], vec![3, 2, 1, 2, 2, 3], vec![1, 1, 2, 3, 1, 4], vec![2; 7], vec![1, 2, 1, 3, 1, 2, 5]] {
        for b in [1, 2] {
            shs.push(Sh::new(&s, b));
        }
    }
    if ctx.thorough() {
        shs.extend([Sh::new(&[2; 8], 1), Sh::new(&[1, 2, 3, 1, 2, 2, 1, 5], 2), Sh::new(&[3, 1, 1, 2, 1, 1, 2, 3], 1)]);
        shs.push(Sh::new(&[3, 2, 4, 2, 3, 2], 3));
    }
    for n in [5, 8, 9, 17, 64, 65] {
        shs.push(Sh::new(&[n], 2));
        shs.push(Sh::new(&[2, n], 2));
        shs.push(Sh::new(&[3, 2, n], 2));
    }
    for s in &shs {
        for dim in 0..8u32 {
            ctx.case(|| format!("flip {} dim{}", s.show(), dim), |rec| flip_case(d, s, dim, seed, rec));
        }
        for nd in s.depth().max(1) as usize..=5.max(s.depth() as usize) {
            // seven axes and more: the shapes with at most 128 (thorough: 256) elements
            if nd > 6 && s.vol() > ctx.pick(128, 256) {
                continue;
            }
            for perm in perms(nd) {
                ctx.case(|| format!("permute {} {:?}", s.show(), perm), |rec| permute_case(d, s, &perm, seed, rec));
            }
        }
    }
    for s in &long_shapes(ctx.thorough(), false, ctx.pick(140, 600)) {
        for dim in 0..=s.depth().min(7) {
            ctx.case(|| format!("flip {} dim{}", s.show(), dim), |rec| flip_case(d, s, dim, seed, rec));
        }
        for perm in large_perms(s) {
            ctx.case(|| format!("permute {} {:?}", s.show(), perm), |rec| permute_case(d, s, &perm, seed, rec));
        }
    }
    // identity
    for n in (1..=ctx.pick(20u32, 70)).chain([64, 65, 71, 127, 128, 129, 257, 300]) {
        ctx.case(
            || format!("identity {}", n),
            |rec| {
                let s = Sh::new(&[n, n], 1);
                let mut y = ten_const(d, s, f32::NAN);
                d.call_fw_impl("identity_impl", &[], &[], &[], &mut [&mut y]);
                rec.step(1);
                let e = Rt::<f64>::build(s, |c, _| if c[0] == c[1] { 1. } else { 0. });
                check_ten("identity", &y, &e, Tol::Exact)
            },
        );
    }
}

fn main() {
    run(
        Spec {
            id: "C09",
            level: "model_checking",
            rule: "every (m,k,n) up to the bound plus all combinations of sizes around block boundaries, every batch \
                   combination, every mask offset, every axis, every permutation; exact on integers; eager, graph \
                   and kernel calls; results placed in storage full of NaN between guard pages",
            assumptions: &["small integer entries (exact in f32)", "identity with batch 1"],
        },
        body,
    );
}

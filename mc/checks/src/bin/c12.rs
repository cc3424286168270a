//! C12: gradients of reductions and softmax losses.
use mc_core::Op::*;
use mc_core::*;

fn opts(exact: bool, salt: u64) -> GradOpts {
    GradOpts { exact, same: false, salt, skip: vec![], floor: 0.005 }
}

/// targets that sum to 1 along the axis: a mixture, or one-hot
fn targets(s: Sh, dim: u32, kind: u64) -> R {
    let mut r = spread(s, 0.1, 1., kind + 3);
    let o = s.with(dim, 1);
    let n = s.dim(dim);
    let mut line = 0u32;
    let copy = r.clone();
    let _ = Rt::<f64>::build(o, |c, b| {
        line += 1;
        let ix: Vec<usize> = (0..n).map(|k| r.idx(&put(c, dim, k), b)).collect();
        let t: f64 = ix.iter().map(|&i| copy.v[i]).sum();
        for (k, &i) in ix.iter().enumerate() {
            r.v[i] = if kind % 2 == 0 {
                copy.v[i] / t
            } else if (line + kind as u32) % n == k as u32 {
                1.
            } else {
                0.
            };
        }
        0.
    });
    r.v.iter_mut().for_each(|x| *x = (*x as f32) as f64);
    r
}

fn body(ctx: &mut Ctx) {
    mc_core::alloc::enable_guards();
    let d = leaked_naive();
    large_cases(ctx, d, "reduce", true);
    sweep_cases(ctx, d, "reduce", true, ctx.pick(140, 600));
    let seed = ctx.seed;
    let nsalt = ctx.pick(2u64, 5);
    let mut shs = all_shapes(3, 4, 64, &[1, 2, 3]);
    shs.extend(all_shapes(ctx.pick(4, 5), 3, ctx.pick(54, 162), &[1, 2]));
    if ctx.thorough() {
        shs.extend(all_shapes(3, 5, 125, &[1, 2, 4]));
    }
    for s in [vec![1, 1, 1, 1, 1, 1, 1, 3], vec![2, 1, 3, 1, 2, 1, 2, 1], vec![9], vec![2, 17], vec![65], vec![2, 2, 33]] {
        for b in [1, 2] {
            shs.push(Sh::new(&s, b));
        }
    }
    shs.sort_by_key(|s| (s.d, s.b));
    shs.dedup();
    for s in &shs {
        for dim in 0..8u32 {
            for salt in 0..nsalt {
                let k = s.dim(dim);
                ctx.case(
                    || format!("sum/max/min {} dim{} data{}", s.show(), dim, salt),
                    |rec| {
                        let x = match salt {
                            0 => distinct(*s, seed),
                            1 => ints(*s, 1, false, seed), // ties everywhere
                            2 => Rt::new(*s, vec![4.; s.size()]),
                            // next to each other
                            3 => ints(*s, 3, false, seed).map(|v| (1. + *v as f32 * f32::EPSILON) as f64),
                            n => ints(*s, 2, false, n),
                        };
                        for op in [Sum(dim), Max(dim), Min(dim)] {
                            if salt == 3 && op == Sum(dim) {
                                continue;
                            }
                            grad_case(d, &op, &[x.clone()], &opts(true, salt), rec)
                                .map_err(|e| format!("{:?} {}", op, e))?;
                        }
                        Ok(())
                    },
                );
                ctx.case(
                    || format!("lse/softmax {} dim{} data{}", s.show(), dim, salt),
                    |rec| {
                        // also far away from 0, where no exponential of an element is representable
                        for (i, (w, at)) in [(3., 0.), (30., 0.), (3., 150.), (3., -150.)].iter().enumerate() {
                            let x = spread(*s, -w, *w, salt + seed).map(|v| ((v + at) as f32) as f64);
                            for op in [Lse(dim), LnSoftmax(dim), Softmax(dim)] {
                                grad_case(d, &op, &[x.clone()], &opts(false, salt), rec)
                                    .map_err(|e| format!("{:?} data {} {}", op, i, e))?;
                            }
                        }
                        Ok(())
                    },
                );
                for bb in [1, 2, 3] {
                    let t = s.with_b(bb);
                    if !s.compat(&t) || (s.b != bb && s.vol() > 30 && salt > 0) {
                        continue;
                    }
                    ctx.case(
                        || format!("cross entropy {} target {} dim{} data{}", s.show(), t.show(), dim, salt),
                        |rec| {
                            for at in [0., 150., -150.] {
                                let x = spread(*s, -3., 3., salt + seed).map(|v| ((v + at) as f32) as f64);
                                grad_case(d, &Sce(dim), &[x, targets(t, dim, salt)], &opts(false, salt), rec)
                                    .map_err(|e| format!("around {}: {}", at, e))?;
                            }
                            Ok(())
                        },
                    );
                }
                // ids: all lists up to three, otherwise rotations
                let lens: Vec<u32> = if s.b == 1 { vec![1, 2, 3] } else { vec![1, s.b] };
                for l in lens {
                    let total = (k as usize).pow(l);
                    let step = (total / ctx.pick(9, 30)).max(1);
                    for c in (0..total).step_by(step) {
                        let mut ids = vec![];
                        let mut c = c;
                        for _ in 0..l {
                            ids.push((c % k as usize) as u32);
                            c /= k as usize;
                        }
                        let op = Ssce(ids, dim);
                        if salt > 0 && s.vol() > 30 {
                            continue;
                        }
                        ctx.case(
                            || format!("{} {} data{}", op.show(), s.show(), salt),
                            |rec| {
                                for at in [0., 150., -150.] {
                                    let x = spread(*s, -3., 3., salt + seed).map(|v| ((v + at) as f32) as f64);
                                    grad_case(d, &op, &[x], &opts(false, salt), rec).map_err(|e| format!("around {}: {}", at, e))?;
                                }
                                Ok(())
                            },
                        );
                    }
                }
            }
            if s.dim(dim) == 1 {
                for n in [1, 2, 3, 7] {
                    ctx.case(
                        || format!("broadcast {} dim{} to {}", s.show(), dim, n),
                        |rec| grad_case(d, &Bcast(dim, n), &[distinct(*s, seed)], &opts(true, n as u64), rec),
                    );
                }
            }
        }
        ctx.case(
            || format!("batch_sum {}", s.show()),
            |rec| grad_case(d, &BSum, &[distinct(*s, seed)], &opts(true, 2), rec),
        );
    }
    for n in [1u32, 3, 63, 64, 65, 130] {
        for b in [1, 2, 5, 17, 64] {
            let s = Sh::new(&[n], b);
            ctx.case(
                || format!("batch_sum {}", s.show()),
                |rec| grad_case(d, &BSum, &[distinct(s, seed)], &opts(true, 2), rec),
            );
        }
    }
    // every order and tie pattern along an axis for max and min
    for n in 1..=ctx.pick(5usize, 6) {
        for first in 0..n {
            ctx.case(
                || format!("max/min patterns n{} starting {}", n, first),
                |rec| {
                    for code in 0..n.pow(n as u32 - 1) {
                        let mut pat = vec![first as f64];
                        let mut c = code;
                        for _ in 1..n {
                            pat.push((c % n) as f64);
                            c /= n;
                        }
                        for off in [0., -9., 1e30] {
                            for (dims, dim) in [(vec![n as u32], 0u32), (vec![2, n as u32], 1), (vec![n as u32, 2], 0)] {
                                let s = Sh::new(&dims, 2);
                                let x = Rt::<f64>::build(s, |c, b| {
                                    let k = c[dim as usize] as usize;
                                    let v = if (c[1 - dim as usize] + b) % 2 == 0 { pat[k] } else { pat[n - 1 - k] };
                                    if off == 1e30 {
                                        // neighbouring numbers
                                        f32::from_bits(0x3f80_0000 + v as u32) as f64
                                    } else {
                                        off + v
                                    }
                                });
                                for op in [Max(dim), Min(dim)] {
                                    grad_case(d, &op, &[x.clone()], &opts(true, code as u64), rec)
                                        .map_err(|e| format!("{:?} {:?}: {}", op, pat, e))?;
                                }
                                rec.trace(2);
                                rec.state(hash64(&(n, first, code, off as i64, dim, dims.len())));
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    }
}

fn main() {
    run(
        Spec {
            id: "C12",
            level: "model_checking",
            rule: "every (shape, batch combination, axis incl. beyond the rank, id list) within the bounds with arbitrary \
                   upstream gradients, into empty and filled gradients and through a graph, against dual numbers; every \
                   order and tie pattern along an axis for max and min",
            assumptions: &["dense targets sum to 1 along the axis", "finite values"],
        },
        body,
    );
}

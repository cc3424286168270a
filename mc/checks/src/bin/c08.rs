//! C08: reductions and index searches along every axis of every shape.
use mc_core::Op::*;
use mc_core::*;
use prima_undine::functions::BasicFunctions;

/// Distinct integers, or with ties / all negative / all equal / extreme at a chosen place.
fn data(s: Sh, kind: u64) -> R {
    let mut r = distinct(s, kind + 1);
    match kind {
        0 | 1 => {}
        2 => r.v.iter_mut().for_each(|x| *x = -x.abs() - 1000.),
        3 => r.v.iter_mut().for_each(|x| *x = (*x).rem_euclid(3.) - 1.),
        4 => r.v.iter_mut().enumerate().for_each(|(i, x)| *x = i as f64 - 7.),
        5 => r.v.iter_mut().enumerate().for_each(|(i, x)| *x = 7. - i as f64),
        6 => r.v.iter_mut().for_each(|x| *x = 5.),
        _ => r.v.iter_mut().for_each(|x| *x = x.abs() + 1000.),
    }
    if s.size() > 1000 {
        // keep every partial sum exactly representable
        r.v.iter_mut().for_each(|x| *x %= 3001.);
    }
    r
}

fn index_ops(d: Dev, r: &R, dim: u32, rec: &mut Rec) -> Result<(), String> {
    let t = ten(d, r);
    let n = node(d, r);
    let o = r.s.with(dim, 1);
    for max in [true, false] {
        let exp: Vec<u32> = Rt::<f64>::build(o, |c, b| first_extreme(r, dim, c, b, max) as f64)
            .v
            .iter()
            .map(|&x| x as u32)
            .collect();
        let (a, b) = if max { (t.argmax(dim), n.argmax(dim)) } else { (t.argmin(dim), n.argmin(dim)) };
        if a != exp || b != exp {
            return Err(format!("argmax({}) dim {}: eager {:?} graph {:?} expected {:?}", max, dim, a, b, exp));
        }
        rec.step(2);
    }
    let a = t.argsort(dim);
    if a != n.argsort(dim) {
        return Err(format!("argsort dim {}: graph and eager differ", dim));
    }
    rec.step(2);
    if a.len() != r.s.size() {
        return Err(format!("argsort dim {}: {} entries", dim, a.len()));
    }
    // along each axis line: a permutation of the line's storage positions in ascending value order
    for b in 0..r.s.b {
        let mut bad = None;
        let line = Rt::<f64>::build(o.with_b(1), |c, _| {
            let pos: Vec<usize> = (0..r.s.dim(dim)).map(|k| r.idx(&put(c, dim, k), b)).collect();
            let got: Vec<usize> = pos.iter().map(|&p| a[p] as usize).collect();
            let mut sorted = got.clone();
            sorted.sort();
            if sorted != pos || got.windows(2).any(|w| r.v[w[0]] > r.v[w[1]]) {
                bad = Some(format!("argsort dim {}: line {:?} gives {:?}", dim, pos, got));
            }
            0.
        });
        drop(line);
        if let Some(e) = bad {
            return Err(e);
        }
    }
    Ok(())
}

fn reductions(d: Dev, r: &R, dim: u32, rec: &mut Rec) -> Result<(), String> {
    for op in [Sum(dim), Max(dim), Min(dim)] {
        forward_case(d, &op, &[r.clone()], Tol::Exact, rec).map_err(|e| format!("{:?}: {}", op, e))?;
    }
    forward_case(d, &Lse(dim), &[r.clone()], LOOSE, rec).map_err(|e| format!("lse: {}", e))?;
    index_ops(d, r, dim, rec)
}

/// Values that are infinite or so large that sums may overflow.
fn specials(d: Dev, r: &R, dim: u32, line: &[f64], rec: &mut Rec) -> Result<(), String> {
    for op in [Max(dim), Min(dim)] {
        forward_case(d, &op, &[r.clone()], Tol::Exact, rec).map_err(|e| format!("{:?}: {}", op, e))?;
    }
    let count = |f: &dyn Fn(f64) -> bool| line.iter().filter(|v| f(**v)).count();
    let huge = count(&|v| v.is_finite() && v.abs() > 1e38);
    let (up, down) = (count(&|v| v == f64::INFINITY), count(&|v| v == f64::NEG_INFINITY));
    if up == 0 || down == 0 {
        // with an infinite term every finite partial sum is harmless only if it cannot overflow
        if huge <= 1 {
            forward_case(d, &Sum(dim), &[r.clone()], LOOSE, rec).map_err(|e| format!("sum: {}", e))?;
        }
    }
    // the logarithm of a sum of exponentials exists for every such line
    forward_case(d, &Lse(dim), &[r.clone()], LOOSE, rec).map_err(|e| format!("lse: {}", e))?;
    index_ops(d, r, dim, rec)
}

fn body(ctx: &mut Ctx) {
    mc_core::alloc::enable_guards();
    let d = leaked_naive();
    large_cases(ctx, d, "reduce", false);
    sweep_cases(ctx, d, "reduce", false, ctx.pick(140, 600));
    for s in long_shapes(ctx.thorough(), false, ctx.pick(140, 600)) {
        for dim in 0..=s.depth().min(7) {
            for k in [0, 3, 4, 5] {
                ctx.case(
                    || format!("long index {} dim{} data{}", s.show(), dim, k),
                    |rec| index_ops(d, &data(s, k), dim, rec),
                );
            }
        }
    }
    let kinds = 8u64;
    let mut shs = all_shapes(4, 3, 81, &[1, 2, 3]);
    shs.extend(all_shapes(ctx.pick(4, 5), ctx.pick(5, 5), ctx.pick(200, 640), &[1, 2, 4]));
    shs.sort_by_key(|s| (s.d, s.b));
    shs.dedup();
    if ctx.thorough() {
        shs.extend(all_shapes(6, 2, 64, &[1, 2, 5]));
    }
    for s in [vec![1, 1, 1, 1, 1, 1, 1, 3], vec![2, 1, 3, 1, 2, 1, 2, 1], vec![2, 2, 2, 2, 2, 2, 2, 2], vec![1, 3, 1, 1, 2, 1, 1, 2]] {
        for b in [1, 2] {
            shs.push(Sh::new(&s, b));
        }
    }
    for s in &shs {
        for dim in 0..8 {
            for k in 0..kinds {
                ctx.case(
                    || format!("reduce {} dim{} data{}", s.show(), dim, k),
                    |rec| reductions(d, &data(*s, k), dim, rec),
                );
            }
        }
    }
    // long axes around powers of two, in each position
    let mut ns = vec![5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257];
    if ctx.thorough() {
        ns.extend(10..130);
        ns.extend([511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097]);
        ns.sort();
        ns.dedup();
    }
    for &n in &ns {
        for (dims, dim) in [(vec![n], 0), (vec![2, n], 1), (vec![n, 3], 0), (vec![3, 2, n], 2), (vec![2, n, 3], 1)] {
            for b in [1, 3] {
                for k in 0..kinds {
                    let s = Sh::new(&dims, b);
                    ctx.case(
                        || format!("long {} dim{} data{}", s.show(), dim, k),
                        |rec| reductions(d, &data(s, k), dim, rec),
                    );
                }
            }
        }
    }
    // every pattern of values (ties included) along an axis, next to a line of other values
    let top = ctx.pick(6usize, 7);
    for n in 1..=top {
        for (pos, name) in [(0u32, "first"), (1, "second"), (2, "third")] {
            for first in 0..n {
                ctx.case(
                    || format!("patterns n{} {} starting {}", n, name, first),
                    |rec| {
                        let mut cnt = 1usize;
                        for _ in 1..n {
                            cnt *= n;
                        }
                        for code in 0..cnt {
                            let mut pat = vec![first as f64];
                            let mut c = code;
                            for _ in 1..n {
                                pat.push((c % n) as f64);
                                c /= n;
                            }
                            for off in [0., -50., 3.] {
                                let mut dims = [2u32, 2, 2];
                                dims[pos as usize] = n as u32;
                                let s = Sh::new(&dims[..pos as usize + 1], 2);
                                let mut line = 0;
                                let r = Rt::<f64>::build(s, |c, b| {
                                    line += 1;
                                    let k = c[pos as usize] as usize;
                                    let other: u32 = (0..3).filter(|&i| i as u32 != pos).map(|i| c[i]).sum::<u32>() + b;
                                    // reversed in every other line
                                    off + if other % 2 == 0 { pat[k] } else { pat[n - 1 - k] }
                                });
                                reductions(d, &r, pos, rec).map_err(|e| format!("pattern {:?} offset {}: {}", pat, off, e))?;
                                rec.trace(1);
                                rec.state(hash64(&(n, pos, first, code, off as i64)));
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
    }
    // infinities and the largest numbers, in every arrangement
    let special = [f64::NEG_INFINITY, f64::INFINITY, f32::MIN as f64, f32::MAX as f64, 0., -1., 1., 1e-40f32 as f64];
    for n in 1..=ctx.pick(3usize, 4) {
        for pos in 0..3u32 {
            for first in 0..special.len() {
                ctx.case(
                    || format!("special n{} axis{} starting {:e}", n, pos, special[first]),
                    |rec| {
                        for code in 0..special.len().pow(n as u32 - 1) {
                            let mut pat = vec![special[first]];
                            let mut c = code;
                            for _ in 1..n {
                                pat.push(special[c % special.len()]);
                                c /= special.len();
                            }
                            let mut dims = [2u32, 2, 2];
                            dims[pos as usize] = n as u32;
                            let s = Sh::new(&dims[..pos as usize + 1], 2);
                            let r = Rt::<f64>::build(s, |c, b| {
                                let k = c[pos as usize] as usize;
                                let other: u32 = (0..3).filter(|&i| i as u32 != pos).map(|i| c[i]).sum::<u32>() + b;
                                if other % 2 == 0 { pat[k] } else { pat[n - 1 - k] }
                            });
                            specials(d, &r, pos, &pat, rec).map_err(|e| format!("values {:?}: {}", pat, e))?;
                            rec.trace(1);
                            rec.state(hash64(&(n, pos, first, code, "special")));
                        }
                        Ok(())
                    },
                );
            }
        }
    }
    for n in [16u32, 17, 65, 300] {
        for v in [f64::NEG_INFINITY, f64::INFINITY, f32::MIN as f64, f32::MAX as f64] {
            for at in [0, n / 2, n - 1, n] {
                for (dims, dim) in [(vec![n], 0u32), (vec![2, n], 1), (vec![n, 2], 0)] {
                    ctx.case(
                        || format!("special long n{} dim{} of {} all {:e} but {}", n, dim, dims.len(), v, at),
                        |rec| {
                            let r = Rt::<f64>::build(Sh::new(&dims, 2), |c, b| {
                                if c[dim as usize] == at && b == 0 { -v } else { v }
                            });
                            let line: Vec<f64> = (0..n).map(|i| if i == at { -v } else { v }).collect();
                            specials(d, &r, dim, &line, rec)
                        },
                    );
                }
            }
        }
    }
    // broadcast
    for s in &shs {
        for dim in 0..8u32 {
            if s.dim(dim) != 1 {
                continue;
            }
            for n in [1, 2, 3, 5] {
                if s.vol() * n as usize > 800 {
                    continue;
                }
                ctx.case(
                    || format!("broadcast {} dim{} to {}", s.show(), dim, n),
                    |rec| forward_case(d, &Bcast(dim, n), &[data(*s, 0)], Tol::Exact, rec),
                );
            }
        }
    }
    for n in [64, 65, 127, 1000] {
        for s in [Sh::new(&[], 1), Sh::new(&[1, 3], 2), Sh::new(&[3], 2), Sh::new(&[2, 1, 2], 3)] {
            for dim in 0..4 {
                if s.dim(dim) == 1 {
                    ctx.case(
                        || format!("broadcast {} dim{} to {}", s.show(), dim, n),
                        |rec| forward_case(d, &Bcast(dim, n), &[data(s, 0)], Tol::Exact, rec),
                    );
                }
            }
        }
    }
    // sum over the batch
    for dims in all_dims(4, 3, 81) {
        for b in 1..=ctx.pick(5, 9) {
            let s = Sh::new(&dims, b);
            ctx.case(
                || format!("batch_sum {}", s.show()),
                |rec| forward_case(d, &BSum, &[data(s, 0)], Tol::Exact, rec),
            );
        }
    }
    for n in [7u32, 63, 64, 65, 128, 300] {
        for b in [1, 2, 17, 64, 65] {
            let s = Sh::new(&[n], b);
            ctx.case(
                || format!("batch_sum {}", s.show()),
                |rec| forward_case(d, &BSum, &[data(s, 0)], Tol::Exact, rec),
            );
        }
    }
}

fn main() {
    run(
        Spec {
            id: "C08",
            level: "model_checking",
            rule: "every (shape, batch, axis) within the bounds, every pattern of values [n]->[n] along an axis \
                   (all ties and orders), long axes in each position; sum/max/min exact on integers, logsumexp \
                   against f64, argmax/argmin/argsort against the line-wise definition; eager and graph form",
            assumptions: &["no NaN among the inputs", "argsort's order of equal values is left open"],
        },
        body,
    );
}

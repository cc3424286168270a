//! C11: gradients of element-wise operations.
use mc_core::Op::*;
use mc_core::*;
use prima_undine::functions::{BasicDeviceFunctions, BasicFunctions};

fn unary() -> Vec<Op> {
    let mut v = vec![Neg, Abs, Sqrt, Sin, Cos, Tan, Exp, Ln, Tanh, Sigmoid, Softplus, Relu, Lrelu];
    for k in [0.0f32, 0.01, 0.25, 1.0, -0.5, 2.0, -3.0] {
        v.push(Prelu(k));
        v.push(Elu(k));
    }
    for k in [0.0f32, 0.5, 1.0, 2.0, 3.0, -1.0, -0.5, 2.5, -2.25] {
        v.push(Powf(k));
    }
    for k in [0, 1, 2, 3, 4, 7, -1, -2, -3, -5] {
        v.push(Powi(k));
    }
    for k in [0.0f32, 1.0, -1.0, 2.0, 0.5, -3.25] {
        v.extend([AddR(k), AddL(k), SubR(k), SubL(k), MulR(k), MulL(k)]);
        if k != 0. {
            v.extend([DivR(k), DivL(k)]);
        }
    }
    v
}

fn domain(op: &Op) -> (f64, f64) {
    match op {
        Sqrt | Ln => (0.1, 6.),
        Powf(_) => (0.2, 3.),
        DivL(_) => (0.3, 6.),
        Powi(k) if *k < 0 => (0.4, 3.),
        Powi(k) if *k > 4 => (-1.7, 1.7),
        Tan => (-1.2, 1.2),
        _ => (-3., 3.),
    }
}

fn data(op: &Op, s: Sh, salt: u64) -> R {
    let (lo, hi) = domain(op);
    let mut r = spread(s, lo, hi, salt);
    // kinks are left out; for negative integer powers use both signs
    for (i, x) in r.v.iter_mut().enumerate() {
        if x.abs() < 1e-3 {
            *x = 0.5;
        }
        if (matches!(op, DivL(_)) || matches!(op, Powi(k) if *k < 0)) && i % 2 == 1 {
            *x = -*x;
        }
    }
    r
}

fn opts(exact: bool, same: bool, salt: u64) -> GradOpts {
    GradOpts { exact, same, salt, skip: vec![], floor: 0.005 }
}

fn body(ctx: &mut Ctx) {
    mc_core::alloc::enable_guards();
    let d = leaked_naive();
    large_cases(ctx, d, "element", true);
    sweep_cases(ctx, d, "element", true, ctx.pick(140, 600));
    let seed = ctx.seed;
    let nsalt = ctx.pick(2, 6);
    let mut shs = all_shapes(ctx.pick(3, 5), 3, ctx.pick(81, 243), &[1, 2, 3]);
    for s in [vec![1, 1, 1, 1, 1, 1, 1, 2], vec![2, 1, 2, 1, 2, 1, 2, 1], vec![2, 2, 2, 2, 2, 2, 2, 2]] {
        shs.push(Sh::new(&s, 1));
        shs.push(Sh::new(&s, 2));
    }
    for n in [7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 127, 128, 129, 255, 257] {
        shs.push(Sh::new(&[n], 1));
        shs.push(Sh::new(&[n], 2));
    }
    for op in unary() {
        for s in &shs {
            for salt in 0..nsalt {
                ctx.case(
                    || format!("unary {} {} data{}", op.show(), s.show(), salt),
                    |rec| grad_case(d, &op, &[data(&op, *s, salt + seed)], &opts(false, false, salt), rec),
                );
            }
        }
        // a fine grid of the domain, and far out for the functions that saturate
        ctx.case(
            || format!("unary grid {}", op.show()),
            |rec| {
                let (lo, hi) = domain(&op);
                let n = 801;
                let mut v: Vec<f64> = (0..n)
                    .map(|i| ((lo + (hi - lo) * i as f64 / (n - 1) as f64) as f32) as f64)
                    .filter(|x| x.abs() > 1e-3)
                    .collect();
                if matches!(op, Tanh | Sigmoid | Softplus | Relu | Lrelu | Prelu(_) | Elu(_) | Abs | Neg) {
                    v.extend([-60., -20., -12., -8., 8., 12., 20., 60.]);
                }
                if matches!(op, Neg | Abs | Relu | Lrelu | Prelu(_) | Tanh | Sigmoid | Softplus) {
                    v.extend([-1e4, 1e4, -200., 200.]);
                }
                grad_case(d, &op, &[Rt::new(Sh::new(&[v.len() as u32], 1), v)], &opts(false, false, 1), rec)
            },
        );
    }
    let mut bs = all_shapes(3, 3, ctx.pick(27, 81), ctx.pick(&[1, 2, 3], &[1, 2, 3, 4]));
    if ctx.thorough() {
        bs.extend(all_shapes(5, 2, 32, &[1, 2, 5]));
    }
    let mut big = vec![Sh::new(&[], 1), Sh::new(&[], 2)];
    for n in [8, 9, 17, 63, 64, 65, 129] {
        for b in [1, 2] {
            big.push(Sh::new(&[n], b));
        }
    }
    for op in [Add, Sub, Mul, Div, Pow] {
        for set in [&bs, &big] {
            for sa in set.iter() {
                for sb in set.iter() {
                    if !matches!(op.judge(&[*sa, *sb]), Verdict::Accept(_)) {
                        continue;
                    }
                    for salt in 0..nsalt {
                        ctx.case(
                            || format!("binary {} {} {} data{}", op.show(), sa.show(), sb.show(), salt),
                            |rec| {
                                let (a, b, exact) = match op {
                                    Add | Sub | Mul => (ints(*sa, 9, true, salt), ints(*sb, 9, true, salt + 50), true),
                                    Div => {
                                        let mut b = spread(*sb, 0.4, 3., salt + 50);
                                        b.v.iter_mut().enumerate().for_each(|(i, x)| if i % 3 == 1 { *x = -*x });
                                        (spread(*sa, -3., 3., salt), b, false)
                                    }
                                    _ => (spread(*sa, 0.4, 2.5, salt), spread(*sb, -2., 2., salt + 50), false),
                                };
                                grad_case(d, &op, &[a.clone(), b.clone()], &opts(exact, false, salt), rec)?;
                                if sa == sb {
                                    // one tensor as both operands
                                    let c = if matches!(op, Pow | Div) { spread(*sa, 0.4, 2.5, salt) } else { a };
                                    grad_case(d, &op, &[c.clone(), c], &opts(exact, true, salt), rec)?;
                                }
                                Ok(())
                            },
                        );
                    }
                }
            }
        }
    }
    // operands of every magnitude, compared relative to each derivative
    let mags: Vec<f64> = {
        let mut v = vec![];
        for k in -30..=30 {
            for m in ctx.pick(&[1.3f64][..], &[1.0, 1.7, 3.1, 9.4][..]) {
                for sign in [1., -1.] {
                    v.push(((sign * m * 10f64.powi(k)) as f32) as f64);
                }
            }
        }
        v
    };
    let fits = |x: f64| x == 0. || (1e-35..=1e34).contains(&x.abs());
    let mut ops = unary();
    ops.extend([Powi(6), Powi(-6), Powf(4.), Powf(0.25), Powf(-1.5), MulR(1e-12), MulL(1e12), DivR(1e12), DivR(1e-12), DivL(1e10), DivL(1e-10)]);
    for op in &ops {
        for salt in 0..3 {
            ctx.case(
                || format!("magnitudes {} data{}", op.show(), salt),
                |rec| {
                    let v: Vec<f64> = mags
                        .iter()
                        .cloned()
                        .filter(|x| match op {
                            Sqrt | Ln | Powf(_) => *x > 0.,
                            // beyond, the derivative is a difference of nearly equal numbers
                            Sin | Cos | Tan | Tanh | Sigmoid | Softplus | Elu(_) | Exp => x.abs() < 1.,
                            _ => true,
                        })
                        .filter(|x| {
                            let r = Rt::new(Sh::new(&[], 1), vec![*x]);
                            let one = Rt::new(Sh::new(&[], 1), vec![1.]);
                            let y = op.eval(&[&r])[0].v[0];
                            let g = vjp(op, &[r], &[one])[0].0[0];
                            // results, and results divided or multiplied by the operand once more
                            fits(y) && fits(g) && fits(y / x) && fits(g / x) && fits(g * x)
                        })
                        .collect();
                    let n = v.len() as u32;
                    let o = GradOpts { floor: 1e-36, ..opts(false, false, salt) };
                    rec.trace(n as u64);
                    grad_case(d, op, &[Rt::new(Sh::new(&[n], 1), v)], &o, rec)
                },
            );
        }
    }
    // where functions level off or grow: absolute accuracy
    for op in [Sin, Cos, Tanh, Sigmoid, Softplus, Elu(1.), Elu(0.3), Elu(-2.), Exp] {
        ctx.case(
            || format!("far {}", op.show()),
            |rec| {
                let mut v: Vec<f64> = (-400..=400).map(|i| i as f64 / 4. + 0.001).collect();
                v.extend(mags.iter().filter(|x| x.abs() >= 1.));
                v.retain(|x| match op {
                    Sin | Cos => x.abs() < 1e4,
                    Exp => *x < 80.,
                    _ => true,
                });
                let v: Vec<f64> = v.iter().map(|x| (*x as f32) as f64).collect();
                for part in v.chunks(100) {
                    let s = Sh::new(&[part.len() as u32], 1);
                    grad_case(d, &op, &[Rt::new(s, part.to_vec())], &opts(false, false, 3), rec)?;
                }
                for x in &v {
                    grad_case(d, &op, &[Rt::new(Sh::new(&[], 1), vec![*x])], &opts(false, false, 3), rec)?;
                }
                Ok(())
            },
        );
    }
    // many constants and exponents
    for (op, lo, hi) in const_ops() {
        ctx.case(
            || format!("constants {}", op.show()),
            |rec| {
                for (i, s) in [Sh::new(&[], 1), Sh::new(&[7], 1), Sh::new(&[2, 3], 2), Sh::new(&[], 5), Sh::new(&[33], 2)].iter().enumerate() {
                    let mut x = spread(*s, lo, hi, i as u64 + seed);
                    for v in x.v.iter_mut().filter(|v| v.abs() < 1e-2) {
                        *v = 0.5; // away from kinks
                    }
                    grad_case(d, &op, &[x], &opts(false, false, i as u64), rec)?;
                }
                Ok(())
            },
        );
    }
    for op in [Add, Sub, Mul, Div, Pow] {
        for (i, &a) in mags.iter().enumerate() {
            ctx.case(
                || format!("magnitudes {} {:e}", op.show(), a),
                |rec| {
                    let bs: Vec<f64> = match op {
                        Pow => vec![0.25, -0.25, 0.5, -0.5, 0.75, 1., -1., 1.5, -1.5, 2., -2., 3., -3., 5., -5.],
                        _ => mags.clone(),
                    };
                    if matches!(op, Pow) && a < 0. {
                        return Ok(());
                    }
                    let bs: Vec<f64> = bs
                        .into_iter()
                        .filter(|b| {
                            let r = |x: f64| Rt::new(Sh::new(&[], 1), vec![x]);
                            let y = op.eval(&[&r(a), &r(*b)])[0].v[0];
                            let g = vjp(&op, &[r(a), r(*b)], &[r(1.)]);
                            fits(y) && fits(g[0].0[0]) && fits(g[1].0[0])
                        })
                        .collect();
                    let n = bs.len() as u32;
                    if n == 0 {
                        return Ok(());
                    }
                    let s = Sh::new(&[n], 1);
                    let o = GradOpts { floor: 1e-36, ..opts(false, false, i as u64) };
                    rec.trace(n as u64);
                    grad_case(d, &op, &[Rt::new(s, vec![a; n as usize]), Rt::new(s, bs)], &o, rec)
                },
            );
        }
    }
    // powers of zero and of negative bases where the derivative exists
    let mut pw = vec![];
    for k in [-3.0f32, -2., -1., 0., 1., 2., 3., 4.] {
        pw.push(Powf(k));
        pw.push(Powi(k as i32));
    }
    pw.extend([Powf(1.5), Powf(2.5), Powi(i32::MAX), Powi(i32::MIN), Powi(i32::MIN + 1)]);
    for op in &pw {
        for s in [Sh::new(&[9], 1), Sh::new(&[3], 3), Sh::new(&[1, 3, 1, 3], 2)] {
            ctx.case(
                || format!("power {} {}", op.show(), s.show()),
                |rec| {
                    let (zero, neg, small) = match op {
                        Powf(k) => (*k >= 0., k.fract() == 0., true),
                        Powi(k) => (*k >= 0, true, k.unsigned_abs() < 10),
                        _ => unreachable!(),
                    };
                    for salt in 0..3 {
                        let mut x = if small { spread(s, 0.5, 2., salt) } else { Rt::new(s, vec![1.; s.size()]) };
                        for i in 0..s.size() {
                            if i % 3 == 0 && zero {
                                x.v[i] = 0.;
                            } else if i % 3 == 1 && neg {
                                x.v[i] = -x.v[i];
                            }
                        }
                        grad_case(d, op, &[x], &opts(false, false, salt), rec)?;
                    }
                    Ok(())
                },
            );
        }
    }
    // every pair of a base and an exponent, in the three forms
    for sa in [Sh::new(&[], 1), Sh::new(&[2], 1)] {
        for sb in [Sh::new(&[], 1), Sh::new(&[2], 1)] {
            ctx.case(
                || format!("power pairs {} {}", sa.show(), sb.show()),
                |rec| {
                    for x in [0., 0.25, 0.5, 1., 2., 5.] {
                        for y in [1., 1.25, 1.5, 2., 3., 7., 0.5, 0., -1., -2.5] {
                            if x == 0. && y < 1. {
                                continue;
                            }
                            let a = Rt::new(sa, vec![x; sa.size()]);
                            let b = Rt::new(sb, vec![y; sb.size()]);
                            grad_case(d, &Pow, &[a, b], &opts(false, false, 4), rec).map_err(|e| format!("{}^{}: {}", x, y, e))?;
                            rec.trace(1);
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // k to the power of x: only a function of the device
    for k in [0.25f32, 0.5, 1.0, 2.0, 3.0, 7.5, 0.0] {
        for s in &shs {
            for salt in 0..nsalt {
                ctx.case(
                    || format!("const_pow {} {} data{}", k, s.show(), salt),
                    |rec| {
                        let x = if k == 0. { spread(*s, 0.2, 4., salt) } else { spread(*s, -4., 4., salt + seed) };
                        let y = x.map(|v| (k as f64).powf(*v));
                        let gy = spread(*s, -1.5, 1.5, salt + 100);
                        let dx = y.map(|v| if k == 0. { 0. } else { v * (k as f64).ln() });
                        for pre in [0., 3.] {
                            let p = ints(*s, 5, true, salt + 300).map(|v| v * pre);
                            let exp: Vec<f64> = (0..s.size()).map(|i| p.v[i] + gy.v[i] * dx.v[i]).collect();
                            let mag: Vec<f64> = (0..s.size()).map(|i| p.v[i].abs() + (gy.v[i] * dx.v[i]).abs()).collect();
                            let (tx, ty, tg) = (ten(d, &x), ten(d, &y), ten(d, &gy));
                            let mut g = ten(d, &p);
                            d.powf_const_l_bw(&tx, &ty, &tg, k, &mut g);
                            compare_grad("gradient of k to the x", &g.to_vec(), &exp, &mag, false)?;
                            for (t, r) in [(&tx, &x), (&tg, &gy)] {
                                check_ten("operand afterwards", t, r, Tol::Exact)?;
                            }
                            rec.step(2);
                        }
                        Ok(())
                    },
                );
            }
        }
    }
    for sa in all_shapes(2, 3, 9, &[1, 2]) {
        for sb in all_shapes(2, 3, 9, &[1, 2]) {
            if !matches!(Pow.judge(&[sa, sb]), Verdict::Accept(_)) {
                continue;
            }
            ctx.case(
                || format!("power tensor {} {}", sa.show(), sb.show()),
                |rec| {
                    for salt in 0..3 {
                        // bases including 0 and negative ones, integer exponents of at least 1: only
                        // the gradient with respect to the base exists
                        let a = Rt::new(sa, ints(sa, 2, false, salt).v);
                        let b = Rt::new(sb, ints(sb, 1, false, salt + 9).v.iter().map(|x| x + 2.).collect());
                        let mut o = opts(false, false, salt);
                        o.skip = vec![1];
                        grad_case(d, &Pow, &[a.clone(), b], &o, rec)?;
                        // with exponent 0 as well
                        let b = Rt::new(sb, ints(sb, 1, false, salt + 9).v.iter().map(|x| x + 1.).collect());
                        grad_case(d, &Pow, &[a.clone(), b.clone()], &o, rec)?;
                        // bases of at least 0 and positive exponents: both gradients exist
                        let a = a.map(|x| x.abs() * if salt == 1 { 0.5 } else { 1. });
                        let b = Rt::new(sb, ints(sb, 2, false, salt + 9).v.iter().map(|x| x / 2. + 2.).collect());
                        grad_case(d, &Pow, &[a, b], &opts(false, false, salt), rec)?;
                    }
                    Ok(())
                },
            );
        }
    }
}

fn main() {
    run(
        Spec {
            id: "C11",
            level: "model_checking",
            rule: "every (operation, constant, operand shapes, batch combination) within the bounds with arbitrary \
                   upstream gradients: operator backward into empty and already filled gradients, one tensor as both \
                   operands, and the gradient of a weighted sum through a graph, against exact dual-number derivatives",
            assumptions: &["points of differentiability, finite values", "relative tolerance 5e-5 of the sum of magnitudes, at least of 0.005 except in the sweep of magnitudes (exact for + - * on integers)"],
        },
        body,
    );
}

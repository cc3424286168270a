//! C07: element-wise operations compute their definition at every element.
use mc_core::Op::*;
use mc_core::*;
use prima_undine::functions::BasicDeviceFunctions;

fn alphabet(lo: f64, hi: f64) -> Vec<f32> {
    let mut v = vec![];
    for a in [
        0.0f32, 1e-30, 1e-6, 1e-3, 0.01, 0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0, 2.5, 3.0, 5.0, 7.5, 10.0,
        15.0, 17.5, 20.0, 40.0, 60.0, 80.0, 88.0, 90.0, 100.0, 1000.0, 12345.0, 1e6, 1e20, 3e38,
    ] {
        for s in [1.0f32, -1.0] {
            let x = a * s;
            if (x as f64) >= lo && (x as f64) <= hi && !(x == 0. && s < 0.) {
                v.push(x);
            }
        }
    }
    v
}

fn domain(op: &Op) -> (f64, f64) {
    match op {
        Sqrt => (0., f64::MAX),
        Ln | DivL(_) => (1e-36, f64::MAX),
        Sin | Cos | Tan => (-2e4, 2e4),
        Powf(k) if *k > 0. => (0., f64::MAX),
        Powf(_) => (1e-36, f64::MAX),
        Powi(k) if *k < 0 => (1e-36, f64::MAX),
        _ => (f64::MIN, f64::MAX),
    }
}

fn moderate(op: &Op) -> (f64, f64) {
    match op {
        Sqrt | Ln | Powf(_) => (0.05, 6.),
        DivL(_) => (0.3, 6.),
        Powi(k) if *k < 0 => (0.3, 3.),
        Tan => (-1.3, 1.3),
        _ => (-4., 4.),
    }
}

fn unary() -> Vec<Op> {
    let mut v = vec![
        Neg, Abs, Sqrt, Sin, Cos, Tan, Exp, Ln, Tanh, Sigmoid, Softplus, Relu, Lrelu,
    ];
    for k in [0.0f32, 0.01, 0.25, 1.0, -0.5, 2.0, -3.0] {
        v.push(Prelu(k));
        v.push(Elu(k));
    }
    for k in [0.0f32, 0.5, 1.0, 2.0, 3.0, -1.0, -0.5, 2.5, -2.25] {
        v.push(Powf(k));
    }
    for k in [0, 1, 2, 3, 4, 7, 13, 31, -1, -2, -3, -8] {
        v.push(Powi(k));
    }
    for k in [0.0f32, 1.0, -1.0, 2.0, 0.5, -3.25, 1e-3, 1e4] {
        v.extend([AddR(k), AddL(k), SubR(k), SubL(k), MulR(k), MulL(k)]);
        if k != 0. {
            v.extend([DivR(k), DivL(k)]);
        }
    }
    v
}

fn tol(op: &Op) -> Tol {
    match op {
        Neg | Abs | Relu => Tol::Exact,
        // accurate relative to the result, however small it is
        Exp | Sqrt | Powf(_) | Powi(_) | Prelu(_) | Lrelu | AddR(_) | AddL(_) | SubR(_) | SubL(_) | MulR(_)
        | MulL(_) | DivR(_) | DivL(_) | Div | Pow => Tol::Rel(5e-5, 1e-33),
        Ln | Sin | Cos | Tan | Tanh => Tol::Rel(5e-5, 1e-30),
        // 1 + e^x and the like: accurate relative to 1
        _ => Tol::Rel(5e-5, 0.005),
    }
}

fn shapes(ctx: &Ctx) -> Vec<Sh> {
    let mut v = all_shapes(ctx.pick(4, 6), 3, ctx.pick(81, 243), &[1, 2, 3, 5]);
    for d in [vec![1, 1, 1, 1, 1, 1, 1, 2], vec![2, 1, 2, 1, 2, 1, 2, 1], vec![1, 2, 1, 1, 2, 1, 3], vec![2, 2, 2, 2, 2, 2, 2, 2]] {
        for b in [1, 2] {
            v.push(Sh::new(&d, b));
        }
    }
    // sizes at and around vector widths, size classes and powers of two
    for n in [7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257] {
        v.push(Sh::new(&[n], 1));
        v.push(Sh::new(&[n], 2));
    }
    for n in ctx.pick(vec![1023, 1024, 1025, 4097], vec![511, 512, 513, 1023, 1024, 1025, 2047, 2049, 4095, 4096, 4097, 8193, 65535, 65536, 65537]) {
        v.push(Sh::new(&[n], 1));
    }
    v
}

fn body(ctx: &mut Ctx) {
    mc_core::alloc::enable_guards();
    let d = leaked_naive();
    large_cases(ctx, d, "element", false);
    sweep_cases(ctx, d, "element", false, ctx.pick(140, 600));
    let shs = shapes(ctx);
    let nsalt = ctx.pick(2, 6);
    for op in unary() {
        // every value of the alphabet at once and one by one as a scalar
        let (lo, hi) = domain(&op);
        let al = alphabet(lo, hi);
        ctx.case(
            || format!("unary alphabet {}", op.show()),
            |rec| {
                let r = Rt::new(Sh::new(&[al.len() as u32], 1), al.iter().map(|&x| x as f64).collect());
                forward_case(d, &op, &[r], tol(&op), rec)?;
                for &x in &al {
                    forward_case(d, &op, &[Rt::new(Sh::new(&[], 1), vec![x as f64])], tol(&op), rec)?;
                }
                Ok(())
            },
        );
        let (lo, hi) = moderate(&op);
        for s in &shs {
            for salt in 0..nsalt {
                ctx.case(
                    || format!("unary {} {} data{}", op.show(), s.show(), salt),
                    |rec| forward_case(d, &op, &[spread(*s, lo, hi, salt + ctx_seed())], tol(&op), rec),
                );
            }
        }
    }
    {
        let step = ctx.pick(1usize << 15, 1 << 10);
        // every f32 with the leading mantissa bits (8 quick, 13 thorough) within the domain of each one-operand function
        for op in unary() {
            let (lo, hi) = domain(&op);
            for chunk in 0..256u32 {
                ctx.case(
                    || format!("unary bits {} {}", op.show(), chunk),
                    |rec| {
                        let mut v = vec![];
                        for m in (chunk << 24..=(chunk << 24) + 0x00ff_ffff).step_by(step) {
                            let x = f32::from_bits(m);
                            let x6 = x as f64;
                            if x.is_finite() && x6 >= lo && x6 <= hi && !x.is_subnormal() {
                                v.push(x6);
                            }
                        }
                        if v.is_empty() {
                            return Ok(());
                        }
                        // results next to the overflow threshold may round either way
                        let r: Vec<f64> = op
                            .eval(&[&Rt::new(Sh::new(&[v.len() as u32], 1), v.clone())])[0]
                            .v
                            .clone();
                        let v: Vec<f64> = v
                            .iter()
                            .zip(&r)
                            .filter(|(_, y)| !(y.abs() > 3.39e38 && y.abs() < 3.42e38) && !y.is_nan())
                            .map(|(x, _)| *x)
                            .collect();
                        if v.is_empty() {
                            return Ok(());
                        }
                        forward_case(d, &op, &[Rt::new(Sh::new(&[v.len() as u32], 1), v)], tol(&op), rec)
                    },
                );
            }
        }
    }
    // many constants and exponents
    for (op, lo, hi) in const_ops() {
        ctx.case(
            || format!("constants {}", op.show()),
            |rec| {
                for (i, s) in [Sh::new(&[], 1), Sh::new(&[7], 1), Sh::new(&[2, 3], 2), Sh::new(&[], 5), Sh::new(&[33], 2)].iter().enumerate() {
                    forward_case(d, &op, &[spread(*s, lo, hi, i as u64 + ctx_seed())], tol(&op), rec)?;
                }
                Ok(())
            },
        );
    }
    // integer powers that f32 cannot tell apart
    for k in [-1i32, 0, 1, 30, 31, 99, 100, 255, 256, 1 << 24, 1 << 30, i32::MAX, i32::MIN] {
        for k in [k.saturating_sub(1), k, k.saturating_add(1)] {
            ctx.case(
                || format!("powi {} of units", k),
                |rec| {
                    let mut v = vec![1., -1., -1., 1.];
                    if k > 0 {
                        v.extend([0., 0.]);
                    }
                    for n in [1, 2, v.len()] {
                        for b in [1, 3] {
                            let w: Vec<f64> = v.iter().rev().cycle().take(n * b).cloned().collect();
                            forward_case(d, &Powi(k), &[Rt::new(Sh::new(&[n as u32], b as u32), w)], Tol::Exact, rec)?;
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    // k to the power of x: only a function of the device
    for k in [0.25f32, 0.5, 1.0, 2.0, 3.0, 7.5, 0.0] {
        for s in &shs {
            for salt in 0..nsalt {
                ctx.case(
                    || format!("const_pow {} {} data{}", k, s.show(), salt),
                    |rec| {
                        let x = if k == 0. { spread(*s, 0.2, 4., salt) } else { spread(*s, -4., 4., salt + ctx_seed()) };
                        let y = x.map(|v| (k as f64).powf(*v));
                        let t = ten(d, &x);
                        let c = class_of(s.size());
                        poison(d, &[c], 3, f32::NAN);
                        check_ten("k to the x", &d.powf_const_l_fw(&t, k), &y, tol(&Pow))?;
                        check_ten("operand afterwards", &t, &x, Tol::Exact)?;
                        rec.step(1);
                        Ok(())
                    },
                );
            }
        }
    }
    // tensor-tensor and scalar forms
    let bs = all_shapes(ctx.pick(4, 5), 3, ctx.pick(81, 243), ctx.pick(&[1, 2, 3], &[1, 2, 3, 4]));
    let mut big = vec![];
    for n in [8, 9, 17, 63, 64, 65, 128, 129, 1024, 1025] {
        for b in [1, 2] {
            big.push(Sh::new(&[n], b));
        }
    }
    big.push(Sh::new(&[2, 1, 2, 1, 2, 1, 2, 2], 2));
    big.push(Sh::new(&[1, 1, 1, 1, 1, 1, 1, 3], 1));
    big.push(Sh::new(&[], 1));
    big.push(Sh::new(&[], 2));
    for op in [Add, Sub, Mul, Div, Pow] {
        for set in [&bs, &big] {
            for sa in set.iter() {
                for sb in set.iter() {
                    if !matches!(op.judge(&[*sa, *sb]), Verdict::Accept(_)) {
                        continue;
                    }
                    for salt in 0..nsalt {
                        ctx.case(
                            || format!("binary {} {} {} data{}", op.show(), sa.show(), sb.show(), salt),
                            |rec| binary(d, &op, *sa, *sb, salt + ctx_seed(), rec),
                        );
                    }
                }
            }
        }
        ctx.case(
            || format!("binary alphabet {}", op.show()),
            |rec| {
                let va: Vec<f32> = match op {
                    Pow => vec![0.01, 0.3, 0.5, 1., 1.5, 2., 3., 10., 100.],
                    _ => alphabet(-1e18, 1e18),
                };
                let vb: Vec<f32> = match op {
                    Pow => vec![0., 0.5, 1., 2., 3., -1., -2., -0.5, 2.5, 7.],
                    Div => alphabet(-1e18, 1e18).into_iter().filter(|x| x.abs() > 1e-7).collect(),
                    _ => alphabet(-1e18, 1e18),
                };
                let mut a = vec![];
                let mut b = vec![];
                for &x in &va {
                    for &y in &vb {
                        a.push(x as f64);
                        b.push(y as f64);
                    }
                }
                let s = Sh::new(&[a.len() as u32], 1);
                forward_case(d, &op, &[Rt::new(s, a), Rt::new(s, b)], tol(&op), rec)
            },
        );
    }
}

fn ctx_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

fn binary(d: Dev, op: &Op, sa: Sh, sb: Sh, salt: u64, rec: &mut Rec) -> Result<(), String> {
    let (a, b, t) = match op {
        Add | Sub | Mul => (ints(sa, 900, false, salt), ints(sb, 900, false, salt + 50), Tol::Exact),
        Div => (spread(sa, -5., 5., salt), spread(sb, 0.3, 4., salt + 50), tol(op)),
        _ => (spread(sa, 0.2, 3., salt), spread(sb, -3., 3., salt + 50), tol(op)),
    };
    forward_case(d, op, &[a.clone(), b.clone()], t, rec)?;
    // owned and borrowed operands, eager and graph
    let exp = op.eval(&[&a, &b]).pop().unwrap();
    if *op != Pow {
        macro_rules! forms {
            ($mk:ident, $chk:ident, $op:tt, $w:expr) => {
                $chk($w, &($mk(d, &a) $op $mk(d, &b)), &exp, t)?;
                $chk($w, &(&$mk(d, &a) $op $mk(d, &b)), &exp, t)?;
                $chk($w, &($mk(d, &a) $op &$mk(d, &b)), &exp, t)?;
                $chk($w, &(&$mk(d, &a) $op &$mk(d, &b)), &exp, t)?;
                rec.step(4);
            };
        }
        match op {
            Add => {
                forms!(ten, check_ten, +, "eager owned/borrowed");
                forms!(node, check_node, +, "graph owned/borrowed");
            }
            Sub => {
                forms!(ten, check_ten, -, "eager owned/borrowed");
                forms!(node, check_node, -, "graph owned/borrowed");
            }
            Mul => {
                forms!(ten, check_ten, *, "eager owned/borrowed");
                forms!(node, check_node, *, "graph owned/borrowed");
            }
            _ => {
                forms!(ten, check_ten, /, "eager owned/borrowed");
                forms!(node, check_node, /, "graph owned/borrowed");
            }
        }
    } else {
        use prima_undine::functions::BasicFunctions;
        check_ten("eager pow by value", &ten(d, &a).pow(ten(d, &b)), &exp, t)?;
        check_node("graph pow by value", &node(d, &a).pow(node(d, &b)), &exp, t)?;
    }
    // constants on either side, owned and borrowed, only once per shape of the left operand
    if sa == sb {
        let k = 3.5f32;
        let k2 = &k;
        macro_rules! consts {
            ($mk:ident, $chk:ident, $op:tt, $R:ident, $L:ident) => {
                let er = $R(k).eval(&[&b]).pop().unwrap();
                let el = $L(k).eval(&[&b]).pop().unwrap();
                $chk("x op k", &($mk(d, &b) $op k), &er, tol(&$R(k)))?;
                $chk("x op &k", &($mk(d, &b) $op k2), &er, tol(&$R(k)))?;
                $chk("&x op k", &(&$mk(d, &b) $op k), &er, tol(&$R(k)))?;
                $chk("&x op &k", &(&$mk(d, &b) $op k2), &er, tol(&$R(k)))?;
                $chk("k op x", &(k $op $mk(d, &b)), &el, tol(&$R(k)))?;
                $chk("&k op x", &(k2 $op $mk(d, &b)), &el, tol(&$R(k)))?;
                $chk("k op &x", &(k $op &$mk(d, &b)), &el, tol(&$R(k)))?;
                $chk("&k op &x", &(k2 $op &$mk(d, &b)), &el, tol(&$R(k)))?;
                rec.step(8);
            };
        }
        match op {
            Add => {
                consts!(ten, check_ten, +, AddR, AddL);
                consts!(node, check_node, +, AddR, AddL);
            }
            Sub => {
                consts!(ten, check_ten, -, SubR, SubL);
                consts!(node, check_node, -, SubR, SubL);
            }
            Mul => {
                consts!(ten, check_ten, *, MulR, MulL);
                consts!(node, check_node, *, MulR, MulL);
            }
            Div => {
                consts!(ten, check_ten, /, DivR, DivL);
                consts!(node, check_node, /, DivR, DivL);
            }
            _ => {}
        }
        // one tensor as both operands
        if *op != Pow {
            let e = op.eval(&[&b, &b]).pop().unwrap();
            let x = ten(d, &b);
            check_ten("x op x", &op.eager(&[&x, &x])[0], &e, t)?;
            let n = node(d, &b);
            check_node("x op x graph", &op.node(&[&n, &n])[0], &e, t)?;
        }
    }
    Ok(())
}

fn main() {
    run(
        Spec {
            id: "C07",
            level: "model_checking",
            rule: "every (operation, constant, operand shapes, batch combination) within the bounds, each with \
                   result storage pre-filled with NaN, run in eager and graph form (owned and borrowed) and \
                   compared element by element with an f64 reference; plus the value alphabet exhaustively",
            assumptions: &["finite inputs inside the function's domain", "relative tolerance 5e-5 with an absolute floor of 5e-38, 5e-8 (logarithm, trigonometric) or 2.5e-7 (1 + e^x and the like) (exact for + - * neg abs relu on integers)"],
        },
        body,
    );
}

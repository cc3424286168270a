//! C21: normalisation, mean and dropout.
use mc_core::*;
use prima_undine::device_impl::FunctionFwImpl;
use prima_undine::functions::BasicFunctions;
use prima_undine::{Node, Tensor};
use prima_undine_contrib::functions::ContribFunctions;
use std::sync::{Arc, Mutex};

#[derive(Default)]
struct Script {
    mask: Vec<f32>,
    seen: Vec<(usize, f32)>,
}

struct Scripted {
    s: Arc<Mutex<Script>>,
    kern: Dev,
}

impl FunctionFwImpl for Scripted {
    fn call(&self, _xs: &[&Tensor], _u: &[u32], f: &[f32], ys: &mut [&mut Tensor]) {
        let n = ys[0].shape().size() as usize;
        let mut g = self.s.lock().unwrap();
        g.seen.push((n, f[0]));
        let mut m = g.mask.clone();
        m.resize(n, 7.);
        drop(g);
        self.kern.call_fw_impl("reset_tensor_by_slice_impl", &[], &[], &m, ys);
    }
}

type E = Rt<Sd>;

fn put0(c: &[u32; 8]) -> [u32; 8] {
    *c
}

fn mean_f(x: &E, dim: u32) -> E {
    let n = x.s.dim(dim);
    Rt::build(x.s.with(dim, 1), |c, b| {
        let mut s = Sd::c(0.);
        for k in 0..n {
            s = s.add(x.at(&put(c, dim, k), b));
        }
        s.scale(1. / n as f64)
    })
}

fn sq(a: &Sd) -> Sd {
    a.un(a.v * a.v, 2. * a.v)
}
fn rsqrt(a: &Sd) -> Sd {
    a.un(1. / a.v.sqrt(), -0.5 / a.v.powf(1.5))
}
fn mul(a: &Sd, b: &Sd) -> Sd {
    a.bin(b, a.v * b.v, b.v, a.v)
}
fn at_or_scalar<'a>(g: &'a E, c: &[u32; 8], b: u32) -> &'a Sd {
    if g.s.scalar() {
        g.at(&[0; 8], b)
    } else {
        g.at(c, b)
    }
}

/// g * (x - mean) / sqrt(var + eps) + b, statistics over `group(c, batch)`'s members
fn normalise(x: &E, g: &E, bias: &E, eps: f64, over_batch: bool) -> E {
    let ob = x.s.b.max(g.s.b).max(bias.s.b);
    let mut full = x.s.with_b(ob);
    if x.s.scalar() && !g.s.scalar() {
        full.d = g.s.d;
    }
    let stat = |c: &[u32; 8], b: u32| -> (Sd, Sd) {
        let members: Vec<Sd> = if over_batch {
            (0..x.s.b).map(|k| x.at(c, k).clone()).collect()
        } else {
            let bb = if x.s.b == 1 { 0 } else { b as usize };
            x.v[bb * x.s.vol()..(bb + 1) * x.s.vol()].to_vec()
        };
        let n = members.len() as f64;
        let mut m = Sd::c(0.);
        for t in &members {
            m = m.add(t);
        }
        let m = m.scale(1. / n);
        let mut v = Sd::c(0.);
        for t in &members {
            v = v.add(&sq(&t.add(&m.scale(-1.))));
        }
        let v = v.scale(1. / n).add(&Sd::c(eps));
        (m, v)
    };
    Rt::build(full, |c, b| {
        let xc = put0(c);
        let (m, v) = stat(&xc, b);
        let z = mul(&x.at(&xc, b).add(&m.scale(-1.)), &rsqrt(&v));
        mul(at_or_scalar(g, c, b), &z).add(at_or_scalar(bias, c, b))
    })
}

const LT: Tol = Tol::Rel(1e-4, 0.2);
const GT: Tol = Tol::Rel(3e-4, 1.0);

fn body(ctx: &mut Ctx) {
    mc_core::alloc::enable_guards();
    let kern = leaked_naive();
    let script = Arc::new(Mutex::new(Script::default()));
    let mut dv = Dv::naive();
    dv.mutate().register_fw_impl("random_bernoulli_impl", Scripted { s: Arc::clone(&script), kern });
    let d = dv.leak();
    let seed = ctx.seed;

    let mut shs = all_shapes(ctx.pick(3, 4), 4, ctx.pick(48, 81), &[1, 2, 3, 5]);
    for s in [vec![1, 1, 1, 1, 1, 1, 1, 3], vec![2, 1, 3, 1, 2, 1, 2, 1], vec![65], vec![2, 40]] {
        for b in [1, 2, 4] {
            shs.push(Sh::new(&s, b));
        }
    }
    // long axes and many batches, for the means
    let all = shs.len();
    for (s, b) in [(vec![257], 1), (vec![3, 300], 1), (vec![1001, 2], 1), (vec![2, 513, 1], 2), (vec![3], 257), (vec![2, 2], 300), (vec![], 1030)] {
        shs.push(Sh::new(&s, b));
    }
    for (i, s) in shs.iter().enumerate() {
        for dim in 0..8 {
            ctx.case(
                || format!("mean {} dim{}", s.show(), dim),
                |rec| {
                    expr_case(
                        d,
                        &[spread(*s, -3., 3., seed)],
                        &|x| x[0].mean(dim),
                        &|x| x[0].mean(dim),
                        &|x| mean_f(x[0], dim),
                        LOOSE,
                        LOOSE,
                        5,
                        rec,
                    )
                },
            );
        }
        ctx.case(
            || format!("batch_mean {}", s.show()),
            |rec| {
                expr_case(
                    d,
                    &[spread(*s, -3., 3., seed)],
                    &|x| x[0].batch_mean(),
                    &|x| x[0].batch_mean(),
                    &|x| {
                        Rt::build(s.with_b(1), |c, _| {
                            let mut t = Sd::c(0.);
                            for b in 0..s.b {
                                t = t.add(x[0].at(c, b));
                            }
                            t.scale(1. / s.b as f64)
                        })
                    },
                    LOOSE,
                    LOOSE,
                    6,
                    rec,
                )
            },
        );
        if i >= all {
            continue;
        }
        // normalisation: gain and bias of the same dims, scalar, batched
        let mut gs = vec![s.with_b(1), Sh::new(&[], 1)];
        if s.b > 1 {
            gs.push(*s);
            gs.push(Sh::new(&[], s.b));
        }
        for g in &gs {
            for b in &gs {
                for (i, eps) in [0.01f32, 0.1, 1.0].iter().enumerate() {
                    if i > 0 && g != b {
                        continue;
                    }
                    for over in [true, false] {
                        ctx.case(
                            || format!("{} {} gain {} bias {} eps {}", if over { "batch_norm" } else { "layer_norm" }, s.show(), g.show(), b.show(), eps),
                            |rec| {
                                let xs = [spread(*s, -2., 2., seed), spread(*g, 0.5, 2., 3), spread(*b, -1., 1., 4)];
                                let f = |x: &[&E]| normalise(x[0], x[1], x[2], *eps as f64, over);
                                if over {
                                    expr_case(d, &xs, &|x| x[0].batch_normalization(x[1], x[2], *eps, true), &|x| x[0].batch_normalization(x[1], x[2], *eps, true), &f, LT, GT, 7, rec)
                                } else {
                                    expr_case(d, &xs, &|x| x[0].layer_normalization(x[1], x[2], *eps), &|x| x[0].layer_normalization(x[1], x[2], *eps), &f, LT, GT, 8, rec)
                                }
                            },
                        );
                    }
                }
            }
        }
        ctx.case(
            || format!("batch_norm disabled {}", s.show()),
            |rec| {
                expr_case(
                    d,
                    &[spread(*s, -2., 2., seed), spread(s.with_b(1), 0.5, 2., 3), spread(s.with_b(1), -1., 1., 4)],
                    &|x| x[0].batch_normalization(x[1], x[2], 0.1, false),
                    &|x| x[0].batch_normalization(x[1], x[2], 0.1, false) + x[1] * 0. + x[2] * 0.,
                    &|x| x[0].clone(),
                    Tol::Exact,
                    Tol::Exact,
                    9,
                    rec,
                )
            },
        );
        // sums of several tensors, also the same one repeatedly and of different batch sizes
        for n in 1..=4usize {
            for mask in 0..(1 << n) {
                if s.b == 1 && mask != 0 {
                    continue;
                }
                ctx.case(
                    || format!("slice_sum {} n{} batched{:b}", s.show(), n, mask),
                    |rec| {
                        let xs: Vec<R> = (0..n)
                            .map(|i| ints(s.with_b(if mask >> i & 1 == 1 { s.b } else { 1 }), 9, true, i as u64))
                            .collect();
                        let f = |x: &[&E]| {
                            let b = x.iter().map(|t| t.s.b).max().unwrap();
                            Rt::build(s.with_b(b), |c, k| {
                                let mut t = Sd::c(0.);
                                for y in x {
                                    t = t.add(y.at(c, k));
                                }
                                t
                            })
                        };
                        expr_case(d, &xs, &|x| Ten::slice_sum(x), &|x| Nd::slice_sum(x), &f, Tol::Exact, Tol::Exact, 10, rec)?;
                        // the first one twice more
                        let g = |x: &[&E]| {
                            let mut v = x.to_vec();
                            v.push(x[0]);
                            v.push(x[0]);
                            f(&v)
                        };
                        expr_case(
                            d,
                            &xs,
                            &|x| Ten::slice_sum(&[x, &[x[0], x[0]]].concat()),
                            &|x| Nd::slice_sum(&[x, &[x[0], x[0]]].concat()),
                            &g,
                            Tol::Exact,
                            Tol::Exact,
                            11,
                            rec,
                        )
                    },
                );
            }
        }
    }
    // statistics over many batches and over many elements
    let counts: Vec<u32> = (5..=ctx.pick(40u32, 140)).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 300]).collect();
    for &n in &counts {
        for dims in [vec![], vec![2], vec![3, 2]] {
            if n > 70 && dims.len() == 2 {
                continue;
            }
            let s = Sh::new(&dims, n);
            let long = Sh::new(&if dims.is_empty() { vec![n] } else { vec![dims[0], 1, n] }, dims.len() as u32 + 1);
            for (s, over) in [(s, true), (s, false), (long, false), (long, true)] {
                let mut forms = vec![(s.with_b(1), s.with_b(1)), (Sh::new(&[], 1), s), (s, s.with_b(1))];
                if dims.len() == 1 {
                    forms.truncate(1);
                }
                for (g, b) in forms {
                    ctx.case(
                        || format!("many {} {} gain {} bias {}", if over { "batch_norm" } else { "layer_norm" }, s.show(), g.show(), b.show()),
                        |rec| {
                            if !over && s.d.iter().product::<u32>() == 1 && s.b > 40 {
                                return Ok(());
                            }
                            let xs = [spread(s, -2., 2., seed), spread(g, 0.5, 2., 3), spread(b, -1., 1., 4)];
                            let f = |x: &[&E]| normalise(x[0], x[1], x[2], 0.05, over);
                            if over {
                                expr_case(d, &xs, &|x| x[0].batch_normalization(x[1], x[2], 0.05, true), &|x| x[0].batch_normalization(x[1], x[2], 0.05, true), &f, LT, GT, 7, rec)
                            } else {
                                expr_case(d, &xs, &|x| x[0].layer_normalization(x[1], x[2], 0.05), &|x| x[0].layer_normalization(x[1], x[2], 0.05), &f, LT, GT, 8, rec)
                            }
                        },
                    );
                }
            }
        }
        // sums of many tensors
        for (dims, b) in [(vec![2u32], 1), (vec![], 2), (vec![2, 2], 3)] {
            for at in [0, n as usize / 2, n as usize - 1] {
                let s = Sh::new(&dims, b);
                ctx.case(
                    || format!("slice_sum of {} {} batched from {}", n, s.show(), at),
                    |rec| {
                        let xs: Vec<R> = (0..n as usize).map(|i| ints(s.with_b(if i >= at { s.b } else { 1 }), 9, true, i as u64)).collect();
                        let f = |x: &[&E]| {
                            Rt::build(s, |c, k| {
                                let mut t = Sd::c(0.);
                                for y in x {
                                    t = t.add(y.at(c, k));
                                }
                                t
                            })
                        };
                        expr_case(d, &xs, &|x| Ten::slice_sum(x), &|x| Nd::slice_sum(x), &f, Tol::Exact, Tol::Exact, 10, rec)
                    },
                );
            }
        }
    }
    ctx.case(
        || "slice_sum of nothing".into(),
        |_| {
            if panics(|| Ten::slice_sum(&[])) && panics(|| Nd::slice_sum(&[])) {
                Ok(())
            } else {
                Err("accepted".into())
            }
        },
    );
    large(ctx, d);
    // dropout: every mask
    let top = ctx.pick(8usize, 12);
    let mut small: Vec<Sh> = all_shapes(3, 8, top, &[1, 2, 3]).into_iter().filter(|s| s.size() <= top).collect();
    small.push(Sh::new(&[1, 1, 1, 1, 1, 1, 1, 3], 1));
    for s in &small {
        for rate in [0.5f32, 0.1, 0.75, 0.0, 1.0] {
            // dim None: per element
            for dim in std::iter::once(None).chain((0..4).map(Some)).chain([Some(7)]) {
                ctx.case(
                    || format!("dropout {} rate {} axis {:?}", s.show(), rate, dim),
                    |rec| dropout(d, &script, *s, rate, dim, rec),
                );
            }
        }
    }
    // larger tensors with patterned masks
    for s in [Sh::new(&[65], 1), Sh::new(&[9, 8], 2), Sh::new(&[3, 4, 5], 3)] {
        for rate in [0.25f32, 0.9] {
            for dim in [None, Some(0), Some(1), Some(2), Some(3)] {
                for pat in 0..12u64 {
                    ctx.case(
                        || format!("dropout large {} rate {} axis {:?} pattern {}", s.show(), rate, dim, pat),
                        |rec| {
                            let ms = dim.map(|k| s.with(k, 1)).unwrap_or(s);
                            let mask = (0..ms.size() as u64).map(|i| ((i * (pat + 3) + i / 7 + pat) % 5 % 2) as f64).collect();
                            one_mask(d, &script, s, rate, dim, mask, None, rec)
                        },
                    );
                }
            }
        }
    }
}

/// Long axes, many elements and many batch elements, against closed forms.
fn large(ctx: &mut Ctx, d: Dev) {
    let mut ns: Vec<u32> = (1..=ctx.pick(140, 700)).collect();
    ns.extend([1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5003, 8191, 8192, 8193, 16384, 16385, 32768, 32769, 65535, 65536, 65537, 70001, 131072, 200003]);
    if ctx.thorough() {
        ns.extend([262145, 524289, 1 << 20, (1 << 20) + 1]);
    }
    for &n in &ns {
        // the mean of whole numbers is exact up to its division
        for (s, dim) in [(Sh::new(&[n], 1), Some(0)), (Sh::new(&[2, n], 2), Some(1)), (Sh::new(&[n, 3], 1), Some(0)), (Sh::new(&[2, 1, 3], n), None), (Sh::new(&[], n), None), (Sh::new(&[3, n], 1), Some(0)), (Sh::new(&[2], n), Some(0))] {
            ctx.case(
                || format!("large mean {} axis {:?}", s.show(), dim),
                |rec| {
                    let x = ints(s, 9, true, n as u64);
                    let o = match dim {
                        Some(k) => s.with(k, 1),
                        None => s.with_b(1),
                    };
                    let m = dim.map_or(s.b, |k| s.dim(k));
                    let mut sums = Rt::new(o, vec![0f64; o.size()]);
                    let place = |c: &[u32; 8], b: u32| dim.map_or((*c, 0), |k| (put(c, k, 0), b));
                    Rt::<f64>::build(s, |c, b| {
                        let (c2, b2) = place(c, b);
                        let i = sums.idx(&c2, b2);
                        sums.v[i] += x.at(c, b);
                        0.
                    });
                    let e = Rt::new(o, sums.v.iter().map(|v| v / m as f64).collect());
                    let t = ten(d, &x);
                    poison(d, &[class_of(o.size()), class_of(s.size())], 2, f32::NAN);
                    let tol = Tol::Rel(3e-7, 1e-3);
                    let y = dim.map_or_else(|| t.batch_mean(), |k| t.mean(k));
                    check_ten("eager", &y, &e, tol)?;
                    let w = ints(o, 5, true, 4);
                    let wt = ten(d, &w);
                    let leaf: Nd = Node::from(forever(&t));
                    let yn = dim.map_or_else(|| leaf.batch_mean(), |k| leaf.mean(k));
                    check_node("graph", &yn, &e, tol)?;
                    (&yn * Nd::from(forever(&wt))).backward();
                    let g = Rt::<f64>::build(s, |c, b| {
                        let (c2, b2) = place(c, b);
                        *w.at(&c2, b2) / m as f64
                    });
                    compare("gradient", &leaf.inner_gradient().to_vec_any(), &g.v, Tol::Rel(3e-7, 1e-6))?;
                    rec.step(3);
                    rec.heartbeat();
                    Ok(())
                },
            );
        }
        if n < 2 || n > 140 && n % 7 == 0 || n > 20000 {
            continue;
        }
        for (s, over) in [(Sh::new(&[n], 1), false), (Sh::new(&[2, n], 2), false), (Sh::new(&[3], n), true), (Sh::new(&[n], 2), true), (Sh::new(&[2, 2], n), false)] {
            ctx.case(
                || format!("large {} {}", if over { "batch_norm" } else { "layer_norm" }, s.show()),
                |rec| {
                    let r = large_norm(d, s, over, rec);
                    rec.heartbeat();
                    r
                },
            );
        }
    }
}

fn large_norm(d: Dev, s: Sh, over: bool, rec: &mut Rec) -> Result<(), String> {
    let x = ints(s, 9, true, 3);
    let one = s.with_b(1);
    let (g, b, w) = (spread(one, 0.5, 2., 3), spread(one, -1., 1., 4), ints(s, 5, true, 6));
    let eps = 0.5f64;
    let vol = s.vol();
    let groups = if over { vol } else { s.b as usize };
    let group = |i: usize| if over { i % vol } else { i / vol };
    let m = s.size() / groups;
    let sums = |f: &dyn Fn(usize) -> f64| {
        let mut v = vec![0f64; groups];
        for i in 0..s.size() {
            v[group(i)] += f(i);
        }
        v
    };
    let mean: Vec<f64> = sums(&|i| x.v[i]).iter().map(|v| v / m as f64).collect();
    let sd: Vec<f64> = sums(&|i| (x.v[i] - mean[group(i)]).powi(2)).iter().map(|v| (v / m as f64 + eps).sqrt()).collect();
    let hat: Vec<f64> = (0..s.size()).map(|i| (x.v[i] - mean[group(i)]) / sd[group(i)]).collect();
    let up: Vec<f64> = (0..s.size()).map(|i| w.v[i] * g.v[i % vol]).collect();
    let (su, suh) = (sums(&|i| up[i]), sums(&|i| up[i] * hat[i]));
    let y = Rt::new(s, (0..s.size()).map(|i| g.v[i % vol] * hat[i] + b.v[i % vol]).collect());
    let gx: Vec<f64> = (0..s.size())
        .map(|i| {
            let k = group(i);
            (up[i] - su[k] / m as f64 - hat[i] * suh[k] / m as f64) / sd[k]
        })
        .collect();
    let (mut gg, mut gb) = (vec![0f64; vol], vec![0f64; vol]);
    for i in 0..s.size() {
        gg[i % vol] += w.v[i] * hat[i];
        gb[i % vol] += w.v[i];
    }
    let (tx, tg, tb, tw) = (ten(d, &x), ten(d, &g), ten(d, &b), ten(d, &w));
    poison(d, &[class_of(vol), class_of(s.size())], 3, f32::NAN);
    let e = if over { tx.batch_normalization(&tg, &tb, eps as f32, true) } else { tx.layer_normalization(&tg, &tb, eps as f32) };
    // whatever the order of summation, a sum of `m` numbers is this accurate
    let slack = m as f64 * 3e-8;
    let tol = Tol::Rel(2e-4 + slack, 0.2);
    check_ten("eager", &e, &y, tol)?;
    let (nx, ng, nb): (Nd, Nd, Nd) = (Node::from(forever(&tx)), Node::from(forever(&tg)), Node::from(forever(&tb)));
    let yn = if over { nx.batch_normalization(&ng, &nb, eps as f32, true) } else { nx.layer_normalization(&ng, &nb, eps as f32) };
    check_node("graph", &yn, &y, tol)?;
    (&yn * Nd::from(forever(&tw))).backward();
    let many = s.b as f64;
    compare("gradient", &nx.inner_gradient().to_vec_any(), &gx, Tol::Rel(1e-3 + slack, 1.))?;
    compare("gradient of the gain", &ng.inner_gradient().to_vec_any(), &gg, Tol::Rel(3e-4 + slack, many.sqrt().max(1.) * 3.))?;
    compare("gradient of the bias", &nb.inner_gradient().to_vec_any(), &gb, Tol::Rel(1e-6, 1.))?;
    rec.step(3);
    rec.trace(1);
    Ok(())
}

fn dropout(d: Dev, script: &Arc<Mutex<Script>>, s: Sh, rate: f32, dim: Option<u32>, rec: &mut Rec) -> Result<(), String> {
    let ms = dim.map(|k| s.with(k, 1)).unwrap_or(s);
    let n = ms.size();
    for code in 0..(1u64 << n) {
        // with rate 0 only the full mask can be drawn
        if (rate == 0. || rate == 1.) && code != (1 << n) - 1 {
            continue;
        }
        let mask: Vec<f64> = (0..n).map(|i| (code >> i & 1) as f64).collect();
        if code == (1 << n) - 1 {
            // a zero among the values, too
            for z in [0, s.size() - 1] {
                one_mask(d, script, s, rate, dim, mask.clone(), Some(z), rec).map_err(|e| format!("zero at {}: {}", z, e))?;
            }
        }
        one_mask(d, script, s, rate, dim, mask, None, rec).map_err(|e| format!("mask {:b}: {}", code, e))?;
        rec.trace(1);
        rec.state(hash64(&(s, rate.to_bits(), dim, code)));
    }
    Ok(())
}

fn one_mask(d: Dev, script: &Arc<Mutex<Script>>, s: Sh, rate: f32, dim: Option<u32>, mask: Vec<f64>, zero: Option<usize>, rec: &mut Rec) -> Result<(), String> {
    let ms = dim.map(|k| s.with(k, 1)).unwrap_or(s);
    {
        let mut g = script.lock().unwrap();
        g.mask = mask.iter().map(|&x| x as f32).collect();
        g.seen.clear();
    }
    let mut x = ints(s, 50, true, 3);
    if let Some(z) = zero {
        x.v[z] = 0.;
    }
    let m = Rt::new(ms, mask);
    let k = 1. / (1. - rate as f64);
    let f = |x: &[&E]| {
        Rt::build(s, |c, b| {
            if rate >= 1. {
                return x[0].at(c, b).scale(0.);
            }
            let mc = match dim {
                Some(a) => put(c, a, 0),
                None => *c,
            };
            x[0].at(c, b).scale(k * m.v[m.idx(&mc, b)])
        })
    };
    match dim {
        None => expr_case(d, &[x.clone()], &|x| x[0].dropout(rate, true), &|x| x[0].dropout(rate, true), &f, LOOSE, LOOSE, 12, rec)?,
        Some(a) => expr_case(d, &[x.clone()], &|x| x[0].dropout_dim(a, rate, true), &|x| x[0].dropout_dim(a, rate, true), &f, LOOSE, LOOSE, 12, rec)?,
    }
    let seen = script.lock().unwrap().seen.clone();
    if rate > 0. && rate < 1. {
        if seen.len() != 2 {
            return Err(format!("{} masks drawn for two dropouts", seen.len()));
        }
        for (n, p) in seen {
            if n != ms.size() {
                return Err(format!("{} mask values drawn for {}", n, ms.size()));
            }
            if (p as f64 - (1. - rate as f64)).abs() > 1e-6 {
                return Err(format!("mask keeps with probability {} at rate {}", p, rate));
            }
        }
    }
    // disabled
    let id = |x: &[&E]| x[0].clone();
    match dim {
        None => expr_case(d, &[x], &|x| x[0].dropout(rate, false), &|x| x[0].dropout(rate, false), &id, Tol::Exact, Tol::Exact, 13, rec),
        Some(a) => expr_case(d, &[x], &|x| x[0].dropout_dim(a, rate, false), &|x| x[0].dropout_dim(a, rate, false), &id, Tol::Exact, Tol::Exact, 13, rec),
    }
}

fn main() {
    run(
        Spec {
            id: "C21",
            level: "model_checking",
            rule: "mean, batch mean, slice sum, batch and layer normalisation on every shape, batch and gain/bias form within \
                   the bounds (values and gradients against dual-number formulas); dropout with every possible mask of small \
                   tensors (the random source is scripted), every rate class, per element and per axis, enabled and disabled",
            assumptions: &["the mask is drawn through the device's Bernoulli kernel", "relative tolerance 1e-4 (gradients 3e-4) for normalisation"],
        },
        body,
    );
}

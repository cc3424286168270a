//! C22: softmax and the cross entropies.
use mc_core::*;
use prima_undine::functions::BasicFunctions;
use prima_undine::Node;

/// log-softmax along the axis, computed from differences to the maximum
fn lnsm(x: &R, dim: u32) -> R {
    let n = x.s.dim(dim);
    Rt::build(x.s, |c, b| {
        let m = *x.at(&put(c, dim, first_extreme(x, dim, c, b, true)), b);
        let mut s = 0.;
        for k in 0..n {
            s += (x.at(&put(c, dim, k), b) - m).exp();
        }
        (x.at(c, b) - m) - s.ln()
    })
}

fn lines(v: &R, dim: u32, mut f: impl FnMut(Vec<f64>) -> Result<(), String>) -> Result<(), String> {
    let mut e = Ok(());
    let o = v.s.with(dim, 1);
    let _ = Rt::<f64>::build(o, |c, b| {
        if e.is_ok() {
            e = f((0..v.s.dim(dim)).map(|k| *v.at(&put(c, dim, k), b)).collect());
        }
        0.
    });
    e
}

const T: Tol = Tol::Rel(2e-5, 0.05);

fn case(d: Dev, x: &R, dim: u32, ids: &[Vec<u32>], rec: &mut Rec) -> Result<(), String> {
    let s = x.s;
    let l = lnsm(x, dim);
    let p = l.map(|v| v.exp());
    let t = ten(d, x);
    let n: Nd = Node::from(forever(&t));
    let rt = |v: Vec<f32>| Rt::new(s, v.iter().map(|&x| x as f64).collect::<Vec<_>>());
    for (form, gp, gl, gz) in [
        ("eager", t.softmax(dim).to_vec(), t.ln_softmax(dim).to_vec(), t.logsumexp(dim).to_vec()),
        ("graph", n.softmax(dim).to_vec(), n.ln_softmax(dim).to_vec(), n.logsumexp(dim).to_vec()),
    ] {
        rec.step(3);
        compare(&format!("{} softmax", form), &gp, &p.v, Tol::Rel(2e-5, 1e-3))?;
        compare(&format!("{} log-softmax", form), &gl, &l.v, T)?;
        if gp.iter().any(|v| !(*v >= 0.)) {
            return Err(format!("{} softmax has a negative or undefined element", form));
        }
        lines(&rt(gp.clone()), dim, |v| {
            let t: f64 = v.iter().sum();
            if (t - 1.).abs() > 1e-5 {
                return Err(format!("{} softmax sums to {} over {:?}", form, t, v));
            }
            Ok(())
        })?;
        let o = s.with(dim, 1);
        for (z, m) in gz.iter().zip(Rt::<f64>::build(o, |c, b| *x.at(&put(c, dim, first_extreme(x, dim, c, b, true)), b)).v) {
            let top = m + (s.dim(dim) as f64).ln();
            let e = 1e-6 * m.abs().max(1.) * 2.;
            if !z.is_finite() || (*z as f64) < m || *z as f64 > top + e {
                return Err(format!("{} logsumexp is {} for a maximum of {}", form, z, m));
            }
        }
    }
    // cross entropies; with a dense target only where every logarithm is finite
    let finite = x.v.iter().all(|v| v.is_finite());
    for id in ids {
        let ob = s.b.max(id.len() as u32);
        let o = s.with(dim, 1).with_b(ob);
        let pick = |b: u32| id[if id.len() == 1 { 0 } else { b as usize }];
        let e = Rt::<f64>::build(o, |c, b| -*l.at(&put(c, dim, pick(b)), b));
        check_ten("eager sparse cross entropy", &t.sparse_softmax_cross_entropy(id, dim), &e, T)?;
        check_node("graph sparse cross entropy", &n.sparse_softmax_cross_entropy(id, dim), &e, T)?;
        if !finite {
            rec.step(2);
            continue;
        }
        // dense on the one-hot target
        let hb = if id.len() == 1 { 1 } else { ob };
        let hot = Rt::<f64>::build(s.with_b(hb), |c, b| if c[dim as usize] == pick(b) { 1. } else { 0. });
        let h = ten(d, &hot);
        let hn: Nd = Node::from(forever(&h));
        check_ten("eager dense cross entropy of a one-hot target", &t.softmax_cross_entropy(&h, dim), &e, T)?;
        check_node("graph dense cross entropy of a one-hot target", &n.softmax_cross_entropy(&hn, dim), &e, T)?;
        rec.step(4);
    }
    if !finite {
        return check_ten("operand afterwards", &t, x, Tol::Exact);
    }
    // dense with mixtures, pairwise and shared batches
    for tb in [1, s.b, if s.b == 1 { 3 } else { 1 }] {
        let q = spread(s.with_b(tb), 0., 1., 5);
        let ob = s.b.max(tb);
        let o = s.with(dim, 1).with_b(ob);
        let mut mag = 0f64;
        let e = Rt::<f64>::build(o, |c, b| {
            let mut a = 0.;
            let mut m = 0.;
            for k in 0..s.dim(dim) {
                let cc = put(c, dim, k);
                a -= q.at(&cc, b) * l.at(&cc, b);
                m += (q.at(&cc, b) * l.at(&cc, b)).abs();
            }
            mag = mag.max(m);
            a
        });
        if mag > 3e38 {
            continue;
        }
        let h = ten(d, &q);
        let hn: Nd = Node::from(forever(&h));
        check_ten("eager dense cross entropy", &t.softmax_cross_entropy(&h, dim), &e, T)?;
        check_node("graph dense cross entropy", &n.softmax_cross_entropy(&hn, dim), &e, T)?;
        rec.step(2);
    }
    check_ten("operand afterwards", &t, x, Tol::Exact)
}

fn body(ctx: &mut Ctx) {
    mc_core::alloc::enable_guards();
    let d = leaked_naive();
    let seed = ctx.seed;
    let al: Vec<f64> = [0.0f32, 1.0, -1.0, 0.5, 1e-30, 16.7, -16.7, 88.8, -88.8, 104., -104., 1e4, -1e4, 1e7, -1e7, 1e30, -1e30, 1.6e38, -1.6e38]
        .iter()
        .map(|&x| x as f64)
        .collect();
    // masked out elements
    let masked = [f64::NEG_INFINITY, 0., 1.5, -88.8f32 as f64, 1e4, -1e7];
    for n in 2..=ctx.pick(4usize, 5) {
        for f in 0..masked.len() {
            ctx.case(
                || format!("masked n{} from {:e}", n, masked[f]),
                |rec| {
                    for code in 0..masked.len().pow(n as u32 - 1) {
                        let mut v = vec![masked[f]];
                        let mut c = code;
                        for _ in 1..n {
                            v.push(masked[c % masked.len()]);
                            c /= masked.len();
                        }
                        if v.iter().all(|x| x.is_finite()) || v.iter().all(|x| x.is_infinite()) {
                            continue;
                        }
                        for &(dim, b) in &[(0u32, 2u32), (1, 1), (2, 2)] {
                            let mut dims = vec![2; dim as usize];
                            dims.push(n as u32);
                            let s = Sh::new(&dims, b);
                            let x = Rt::<f64>::build(s, |c, bb| {
                                let k = c[dim as usize] as usize;
                                let o: u32 = (0..dim).map(|i| c[i as usize]).sum::<u32>() + bb;
                                if o % 2 == 0 { v[k] } else { v[n - 1 - k] }
                            });
                            let ids: Vec<Vec<u32>> = (0..n as u32).map(|i| vec![i]).collect();
                            case(d, &x, dim, &ids, rec).map_err(|e| format!("{:?}: {}", v, e))?;
                            rec.trace(1);
                            rec.state(hash64(&(n, f, code, dim, "masked")));
                        }
                        rec.heartbeat();
                    }
                    Ok(())
                },
            );
        }
    }
    // every tuple of the alphabet along an axis
    let top = ctx.pick(3usize, 4);
    for n in 1..=top {
        for f in 0..al.len() {
            ctx.case(
                || format!("tuples n{} from {:e}", n, al[f]),
                |rec| {
                    for code in 0..al.len().pow(n as u32 - 1) {
                        let mut v = vec![al[f]];
                        let mut c = code;
                        for _ in 1..n {
                            v.push(al[c % al.len()]);
                            c /= al.len();
                        }
                        let layouts: &[(u32, u32)] = if n <= 2 { &[(0, 1), (1, 2), (2, 1)] } else { &[(1, 2)] };
                        for &(dim, b) in layouts {
                            let mut dims = vec![2; dim as usize];
                            dims.push(n as u32);
                            let s = Sh::new(&dims, b);
                            let x = Rt::<f64>::build(s, |c, bb| {
                                let k = c[dim as usize] as usize;
                                let o: u32 = (0..dim).map(|i| c[i as usize]).sum::<u32>() + bb;
                                if o % 2 == 0 { v[k] } else { v[n - 1 - k] }
                            });
                            let ids: Vec<Vec<u32>> = (0..n as u32).map(|i| vec![i]).collect();
                            case(d, &x, dim, &ids, rec).map_err(|e| format!("{:?}: {}", v, e))?;
                            rec.trace(1);
                            rec.state(hash64(&(n, f, code, dim)));
                        }
                        rec.heartbeat();
                    }
                    Ok(())
                },
            );
        }
    }
    // many classes and many ids: one operand shared by every id, one operand each, one id for all
    let classes: Vec<u32> = (4..=ctx.pick(40u32, 130)).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 300]).collect();
    for &n in &classes {
        for (dim, lead) in [(0u32, vec![]), (1, vec![2]), (2, vec![1, 2])] {
            if dim == 2 && n > 70 {
                continue;
            }
            for bs in [1u32, 2, n] {
                ctx.case(
                    || format!("classes {} axis {} batches {}", n, dim, bs),
                    |rec| {
                        let mut dims = lead.clone();
                        dims.push(n);
                        let s = Sh::new(&dims, bs);
                        let x = spread(s, -4., 9., seed);
                        let many = if bs == 1 { n } else { bs };
                        let mut ids: Vec<Vec<u32>> = vec![vec![0], vec![n - 1], vec![n / 2]];
                        ids.push((0..many).map(|b| b % n).collect());
                        ids.push((0..many).map(|b| n - 1 - b % n).collect());
                        ids.push((0..many).map(|b| (b * 7 + 3) % n).collect());
                        ids.push(vec![n - 1; many as usize]);
                        if bs == 1 {
                            for m in [2u32, 3, 17, 257, 300] {
                                ids.push((0..m).map(|b| n - 1 - b % 2).collect());
                            }
                        }
                        rec.state(hash64(&(n, dim, bs, "classes")));
                        rec.heartbeat();
                        case(d, &x, dim, &ids, rec)
                    },
                );
            }
        }
    }
    // every shape and axis
    let mut shs = all_shapes(3, 4, ctx.pick(48, 64), &[1, 2, 3]);
    shs.extend(all_shapes(4, 3, 81, &[1, 2]));
    for s in [vec![1, 1, 1, 1, 1, 1, 1, 3], vec![2, 1, 3, 1, 2, 1, 2, 1], vec![65], vec![2, 33], vec![64, 2]] {
        for b in [1, 2] {
            shs.push(Sh::new(&s, b));
        }
    }
    shs.sort_by_key(|s| (s.d, s.b));
    shs.dedup();
    for s in &shs {
        for dim in 0..8u32 {
            for (k, scale) in [1., 40., 3000., 1e6].iter().enumerate() {
                ctx.case(
                    || format!("shape {} dim{} scale {}", s.show(), dim, scale),
                    |rec| {
                        let n = s.dim(dim);
                        let mut x = spread(*s, -scale, *scale, seed + k as u64);
                        if k % 2 == 1 {
                            x = x.map(|v| v.round());
                        }
                        let mut ids: Vec<Vec<u32>> = (0..n.min(6)).map(|i| vec![i]).collect();
                        let bs = if s.b == 1 { 3 } else { s.b };
                        for r in 0..n.min(5) {
                            ids.push((0..bs).map(|b| (b * 2 + r) % n).collect());
                            ids.push((0..bs).map(|b| (b + r * 3 + n - 1) % n).collect());
                        }
                        case(d, &x, dim, &ids, rec)?;
                        // adding a constant to each axis line changes nothing
                        let y = ints(*s, 90, false, 7);
                        let base = ten(d, &y).ln_softmax(dim).to_vec();
                        for c in [64., -1000., 65536., -4194304.] {
                            let z = Rt::<f64>::build(*s, |cc, b| {
                                let o: u32 = (0..8).filter(|&i| i != dim).map(|i| cc[i as usize]).sum::<u32>() + b;
                                y.at(cc, b) + if o % 2 == 0 { c } else { -c / 2. }
                            });
                            let b64: Vec<f64> = base.iter().map(|&v| v as f64).collect();
                            compare("log-softmax after adding a constant", &ten(d, &z).ln_softmax(dim).to_vec(), &b64, T)?;
                            compare("graph log-softmax after adding a constant", &node(d, &z).ln_softmax(dim).to_vec(), &b64, T)?;
                            rec.step(2);
                        }
                        Ok(())
                    },
                );
            }
        }
    }
}

fn main() {
    run(
        Spec {
            id: "C22",
            level: "model_checking",
            rule: "every tuple of an alphabet of magnitudes up to 1.6e38 along an axis (with reversed neighbour lines), every \
                   shape, axis, batch and target/id form within the bounds; softmax, log-softmax, logsumexp and both cross \
                   entropies in eager and graph form against differences-to-maximum arithmetic in f64",
            assumptions: &["finite elements |x| <= 1.6e38 so that differences stay finite; -inf only next to a finite element and not with dense targets", "relative tolerance 2e-5"],
        },
        body,
    );
}

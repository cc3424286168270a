//! C14: evaluation of graphs. Every graph of probe operators up to a size with every history of
//! requests; every program of real operations up to a size against its eager evaluation.
use mc_core::dag::*;
use mc_core::*;

fn main() {
    if let Some(n) = std::env::var("MC_CHILD").ok().and_then(|s| s.parse().ok()) {
        std::process::exit(!long_chain(n) as i32);
    }
    run(
        Spec {
            id: "C14",
            level: "model_checking",
            rule: "all graphs of up to 3 (thorough 4) probe operators with up to 2 operands and outputs x all histories of up to 3 requests (forward, read, backward) placed at every point of the construction, with a model of which operators have run; regular deeper graphs; all programs of up to 2 (thorough 3) real operations over leaves of several shapes, compared with eager evaluation in several request orders",
            assumptions: &["operators do not panic"],
        },
        body,
    );
}

/// The positions that eager evaluation finds; where rounding makes a difference, those of the node's own values.
fn found(n: &Nd, y: &Ten, got: Vec<u32>, f: fn(&Ten) -> Vec<u32>) -> bool {
    use prima_undine::functions::BasicFunctions;
    let v = n.to_vec();
    got == f(y) || agree(&v, &y.to_vec(), 2.) && got == f(&y.device().new_tensor_by_slice(y.shape(), &v))
}

const KINDS: &[fn(usize, usize) -> Act] = &[Act::Fwd, Act::Read, Act::Back];

fn body(ctx: &mut Ctx) {
    let d = leaked_naive();
    let bounds: &[(usize, usize)] = ctx.pick(&[(1, 3), (2, 3), (3, 2), (4, 1)], &[(1, 4), (2, 4), (3, 3), (4, 2)]);
    for &(n, len) in bounds {
        all_pprogs(n, &mut |p| {
            ctx.case(
                || format!("probes len {} {}", len, p.show()),
                |rec| {
                    histories(p, len, KINDS, &mut |acts| {
                        rec.state(hash64(&format!("{}|{:?}", p.show(), acts)));
                        run_history(d, p, acts, false, rec).map_err(|e| format!("{:?}: {}", acts, e))
                    })?;
                    // only the requested node stays alive
                    for (i, j) in p.nodes() {
                        let mut acts: Vec<(usize, Act)> =
                            (0..n).filter(|&o| o != i).map(|o| (n, Act::Drop(o))).collect();
                        acts.push((n, Act::Read(i, j)));
                        acts.push((n, Act::Fwd(i, j)));
                        run_history(d, p, &acts, false, rec).map_err(|e| format!("{:?}: {}", acts, e))?;
                    }
                    Ok(())
                },
            );
        });
    }
    // the other ways of reading a node
    for (n, len) in ctx.pick([(1, 2), (2, 2), (3, 1)], [(1, 3), (2, 3), (3, 2)]) {
        all_pprogs(n, &mut |p| {
            ctx.case(
                || format!("readings len {} {}", len, p.show()),
                |rec| {
                    let kinds: &[fn(usize, usize) -> Act] = &[Act::ArgMax, Act::ArgMin, Act::ArgSort, Act::Read];
                    histories(p, len, kinds, &mut |acts| {
                        rec.state(hash64(&format!("{}|{:?}", p.show(), acts)));
                        run_history(d, p, acts, false, rec).map_err(|e| format!("{:?}: {}", acts, e))
                    })
                },
            );
        });
    }
    for (op, shapes) in op_samples() {
        for first in 0..5 {
            ctx.case(
                || format!("first reading {} of {}", first, op.show()),
                |rec| {
                    use prima_undine::functions::BasicFunctions;
                    let xs: Vec<Ten> = shapes
                        .iter()
                        .enumerate()
                        .map(|(i, s)| ten(d, &spread(*s, 0.3, 1.9, 3 + i as u64)))
                        .collect();
                    let ys = op.eager(&xs.iter().collect::<Vec<_>>());
                    let leaves: Vec<Nd> = xs.iter().map(|t| leaf(forever(t))).collect();
                    let args: Vec<&Nd> = leaves.iter().collect();
                    for (j, y) in ys.iter().enumerate() {
                        // a graph of its own for every result
                        let n = op.node(&args).swap_remove(j);
                        let m = op.node(&args).swap_remove(j);
                        let deep = &(&m * 1.) + 0.;
                        for n in [&n, &deep] {
                            let same = match first {
                                0 => agree(&n.to_vec(), &y.to_vec(), 2.),
                                1 => found(n, y, n.argmax(0), |t| t.argmax(0)),
                                2 => found(n, y, n.argmin(0), |t| t.argmin(0)),
                                3 => found(n, y, n.argsort(0), |t| t.argsort(0)),
                                _ => {
                                    let k = y.shape().size();
                                    let one = n.reshape(Sh::new(&[k], 1).shape()).slice(0, k - 1, k);
                                    agree(&[one.to_float()], &y.to_vec()[k as usize - 1..], 2.)
                                }
                            };
                            rec.step(1);
                            if !same {
                                return Err(format!("reading {} of result {} differs from the eager one", first, j));
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    for (name, p) in families(ctx.thorough()) {
        ctx.case(
            || format!("family {}", name),
            |rec| {
                let n = p.ops.len();
                for (i, j) in p.nodes() {
                    for (k, l) in p.nodes() {
                        let acts = [(n, Act::Fwd(i, j)), (n, Act::Read(k, l)), (n, Act::Fwd(i, j))];
                        run_history(d, &p, &acts, false, rec).map_err(|e| format!("{:?}: {}", acts, e))?;
                    }
                }
                Ok(())
            },
        );
    }
    for (name, p, roots) in big_families(ctx.thorough()) {
        for &(i, j) in &roots {
            for &(k, l) in &roots {
                ctx.case(
                    || format!("large {} {}.{} {}.{}", name, i, j, k, l),
                    |rec| {
                        let n = p.ops.len();
                        let acts = [(n, Act::Fwd(i, j)), (n, Act::Read(k, l)), (n, Act::Read(i, j)), (n, Act::Back(k, l)), (n, Act::Read(i, j))];
                        run_history(d, &p, &acts, false, rec)
                    },
                );
            }
        }
    }
    for n in [60_000, 140_000] {
        ctx.case(
            || format!("long chain {}", n),
            |_| in_child(&n.to_string()).map_err(|e| format!("a chain of {} operators built, evaluated and released: {}", n, e)),
        );
    }
    for (name, p, roots) in &big_progs(ctx.thorough()) {
        let vals: Vec<R> = p.leaves.iter().enumerate().map(|(i, s)| spread(*s, 0.3, 1.9, 3 + i as u64)).collect();
        ctx.case(
            || format!("program {}", name),
            |rec| {
                prog_values(d, p, &vals, roots, rec)?;
                let all: Vec<usize> = (0..p.shapes.len()).rev().collect();
                prog_values(d, p, &vals, &all, rec)
            },
        );
    }
    let sets = real_sets(ctx.thorough());
    for (leaves, un, bin, n) in sets {
        let vals: Vec<R> = leaves.iter().enumerate().map(|(i, s)| spread(*s, 0.3, 1.9, 3 + i as u64)).collect();
        all_progs(&leaves, &un, &bin, n, 64, &mut |p| {
            ctx.case(
                || format!("{} {}", p.leaves.iter().map(|s| s.show()).collect::<Vec<_>>().join(","), p.show()),
                |rec| {
                    let nv = p.shapes.len();
                    let up: Vec<usize> = (0..nv).collect();
                    let down: Vec<usize> = (0..nv).rev().collect();
                    prog_values(d, p, &vals, &up, rec)?;
                    prog_values(d, p, &vals, &down, rec)?;
                    let again: Vec<usize> = down.iter().chain(&up).cloned().collect();
                    prog_values(d, p, &vals, &again, rec)
                },
            );
        });
    }
}

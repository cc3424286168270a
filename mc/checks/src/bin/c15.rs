//! C15: backward through graphs. Every graph of probe operators up to a size with every history of
//! requests holding a backward; every program of real operations up to a size against the chain
//! rule over dual numbers.
use mc_core::dag::*;
use mc_core::*;

fn main() {
    run(
        Spec {
            id: "C15",
            level: "model_checking",
            rule: "all graphs of up to 3 (thorough 4) probe operators with up to 2 operands and outputs x all histories of up to 3 requests holding a backward, placed at every point of the construction; regular deeper graphs with every pair of roots; all programs of up to 2 (thorough 3) real operations with backward from every value and from every pair of values, all gradients compared",
            assumptions: &["operators do not panic", "max gradient only where the maximum is unique"],
        },
        body,
    );
}

const KINDS: &[fn(usize, usize) -> Act] = &[Act::Fwd, Act::Back];

fn body(ctx: &mut Ctx) {
    let d = leaked_naive();
    let bounds: &[(usize, usize)] = ctx.pick(&[(1, 3), (2, 3), (3, 2), (4, 1)], &[(1, 4), (2, 4), (3, 3), (4, 1)]);
    for &(n, len) in bounds {
        all_pprogs(n, &mut |p| {
            ctx.case(
                || format!("probes len {} {}", len, p.show()),
                |rec| {
                    histories(p, len, KINDS, &mut |acts| {
                        if !acts.iter().any(|a| matches!(a.1, Act::Back(..))) {
                            return Ok(());
                        }
                        rec.state(hash64(&format!("{}|{:?}", p.show(), acts)));
                        run_history(d, p, acts, true, rec).map_err(|e| format!("{:?}: {}", acts, e))
                    })?;
                    for (i, j) in p.nodes() {
                        let mut acts: Vec<(usize, Act)> =
                            (0..n).filter(|&o| o != i).map(|o| (n, Act::Drop(o))).collect();
                        acts.push((n, Act::Back(i, j)));
                        acts.push((n, Act::Back(i, j)));
                        run_history(d, p, &acts, true, rec).map_err(|e| format!("{:?}: {}", acts, e))?;
                    }
                    Ok(())
                },
            );
        });
    }
    for (name, p) in families(ctx.thorough()) {
        ctx.case(
            || format!("family {}", name),
            |rec| {
                let n = p.ops.len();
                for (i, j) in p.nodes() {
                    for (k, l) in p.nodes() {
                        let acts = [(n, Act::Back(i, j)), (n, Act::Back(k, l)), (n, Act::Back(i, j))];
                        run_history(d, &p, &acts, true, rec).map_err(|e| format!("{:?}: {}", acts, e))?;
                    }
                }
                Ok(())
            },
        );
    }
    for (name, p, roots) in big_families(ctx.thorough()) {
        for &(i, j) in &roots {
            for &(k, l) in &roots {
                ctx.case(
                    || format!("large {} {}.{} {}.{}", name, i, j, k, l),
                    |rec| {
                        let n = p.ops.len();
                        let acts = [(n, Act::Back(i, j)), (n, Act::Back(k, l)), (n, Act::Fwd(k, l)), (n, Act::Back(i, j))];
                        run_history(d, &p, &acts, true, rec)
                    },
                );
            }
        }
    }
    for (name, p, roots) in &big_progs(ctx.thorough()) {
        let vals: Vec<R> = p.leaves.iter().enumerate().map(|(i, s)| spread(*s, 0.3, 1.9, 3 + i as u64)).collect();
        ctx.case(
            || format!("program {}", name),
            |rec| {
                for &r in roots {
                    prog_grads(d, p, &vals, &[r], rec).map_err(|e| format!("once: {}", e))?;
                    for &s in roots {
                        prog_grads(d, p, &vals, &[r, s], rec)?;
                    }
                }
                Ok(())
            },
        );
    }
    let sets = real_sets(ctx.thorough());
    let pairs = ctx.thorough();
    for (leaves, un, bin, n) in sets {
        let vals: Vec<R> = leaves.iter().enumerate().map(|(i, s)| spread(*s, 0.3, 1.9, 3 + i as u64)).collect();
        all_progs(&leaves, &un, &bin, n, 64, &mut |p| {
            ctx.case(
                || format!("{} {}", p.leaves.iter().map(|s| s.show()).collect::<Vec<_>>().join(","), p.show()),
                |rec| {
                    if near_tie(p, &vals) {
                        rec.outcome("skipped: tie");
                        return Ok(());
                    }
                    let nv = p.shapes.len();
                    let l = p.leaves.len();
                    for r in l..nv {
                        prog_grads(d, p, &vals, &[r], rec).map_err(|e| format!("once: {}", e))?;
                        let q = if pairs { l } else { nv - 1 };
                        for s in q..nv {
                            prog_grads(d, p, &vals, &[r, s], rec)?;
                            prog_grads(d, p, &vals, &[s, r, s], rec)?;
                        }
                    }
                    Ok(())
                },
            );
        });
    }
}

//! C27: device functions take operands, gradients and destinations of exactly the shapes that fit.
use mc_core::*;
use prima_undine::functions::{ArithmeticDeviceFunctions, BasicDeviceFunctions, BasicFunctions};

type Call = Box<dyn Fn(Dev, &[&Ten], &mut Ten)>;
/// Shapes of the operands and, last, the destination (functions without one get a bystander).
type Fits = Box<dyn Fn(&[Sh]) -> bool>;

struct F {
    name: String,
    arity: usize,
    /// the last tensor is written
    dest: bool,
    alphabet: usize,
    fits: Fits,
    call: Call,
}

fn elementwise(a: &Sh, b: &Sh) -> Option<Sh> {
    if a.same_dims(b) && a.compat(b) {
        Some(a.with_b(a.b.max(b.b)))
    } else {
        None
    }
}

fn matmul(a: &Sh, b: &Sh) -> Option<Sh> {
    if a.matrix() && b.matrix() && a.dim(1) == b.dim(0) && a.compat(b) {
        Some(Sh::new(&[a.dim(0), b.dim(1)], a.b.max(b.b)))
    } else {
        None
    }
}

fn square(a: &Sh) -> bool {
    a.matrix() && a.dim(0) == a.dim(1)
}

fn part(x: &Sh, y: &Sh, dim: u32, lower: u32) -> bool {
    dim < 8 && lower as u64 + y.dim(dim) as u64 <= x.dim(dim) as u64 && x.with(dim, y.dim(dim)) == *y
}

fn picked(x: &Sh, ids: &[u32], dim: u32) -> Option<Sh> {
    let n = ids.len() as u32;
    if dim < 8 && n > 0 && (n == 1 || x.b == 1 || x.b == n) && ids.iter().all(|i| *i < x.dim(dim)) {
        Some(x.with(dim, 1).with_b(x.b.max(n)))
    } else {
        None
    }
}

fn batch_picked(x: &Sh, ids: &[u32]) -> Option<Sh> {
    if !ids.is_empty() && ids.iter().all(|i| *i < x.b) {
        Some(x.with_b(ids.len() as u32))
    } else {
        None
    }
}

/// 0: element-wise, 1: matrices, 2: parts.
fn alphabet(kind: usize, wide: bool) -> Vec<Sh> {
    let s = Sh::new;
    let mut v = match kind {
        0 => vec![s(&[], 1), s(&[2], 1), s(&[2], 2), s(&[1, 2], 1), s(&[], 2), s(&[4], 1), s(&[2, 2], 1)],
        1 => vec![s(&[2, 3], 1), s(&[3, 2], 1), s(&[2, 2], 1), s(&[3], 1), s(&[2, 3], 2), s(&[3, 2], 2), s(&[2, 2], 2), s(&[2, 2, 2], 1)],
        _ => vec![s(&[], 1), s(&[2], 1), s(&[3], 1), s(&[2], 2), s(&[2, 3], 1), s(&[2, 3], 3), s(&[3], 3), s(&[2, 1, 2], 2), s(&[1, 3], 1), s(&[2], 3), s(&[], 3), s(&[1, 1, 1, 1, 1, 1, 1, 3], 2)],
    };
    if wide {
        v.extend(match kind {
            0 => vec![s(&[2], 3), s(&[4], 2)],
            1 => vec![s(&[3, 3], 1), s(&[], 1), s(&[1, 3], 1)],
            _ => vec![s(&[3, 2], 1), s(&[2, 3], 2), s(&[1, 2], 2), s(&[4], 1), s(&[2, 2, 3], 1)],
        });
    }
    v
}

fn functions(wide: bool) -> Vec<F> {
    let mut v: Vec<F> = vec![];
    let mut add = |name: String, arity: usize, dest: bool, alphabet: usize, fits: Fits, call: Call| {
        v.push(F { name, arity, dest, alphabet, fits, call });
    };
    macro_rules! bwx {
        ($($f:ident),*) => { $(
            add(stringify!($f).into(), 4, true, 0, Box::new(|s| s.iter().all(|x| *x == s[0])),
                Box::new(|d, x, g| d.$f(x[0], x[1], x[2], g)));
        )* };
    }
    bwx!(neg_bw, sqrt_bw, abs_bw, sin_bw, cos_bw, tan_bw, exp_bw, ln_bw, tanh_bw, sigmoid_bw);
    macro_rules! bwk {
        ($($f:ident $k:expr),*) => { $(
            add(stringify!($f).into(), 4, true, 0, Box::new(|s| s.iter().all(|x| *x == s[0])),
                Box::new(|d, x, g| d.$f(x[0], x[1], x[2], $k, g)));
        )* };
    }
    bwk!(add_const_bw 2., sub_const_l_bw 2., sub_const_r_bw 2., mul_const_bw 2., div_const_l_bw 2., div_const_r_bw 2.,
         powf_const_l_bw 2., powf_const_r_bw 2., prelu_bw 0.5, elu_bw 0.5, powi_bw 3);
    macro_rules! fwab {
        ($($f:ident),*) => { $(
            add(stringify!($f).into(), 2, false, 0, Box::new(|s| elementwise(&s[0], &s[1]).is_some()),
                Box::new(|d, x, _| { d.$f(x[0], x[1]); }));
        )* };
    }
    fwab!(add_fw, sub_fw, mul_fw, div_fw, powf_fw);
    macro_rules! fwsc {
        ($($f:ident),*) => { $(
            add(stringify!($f).into(), 2, false, 0, Box::new(|s| s[1].scalar() && s[0].compat(&s[1])),
                Box::new(|d, x, _| { d.$f(x[0], x[1]); }));
        )* };
    }
    fwsc!(add_scalar_fw, sub_scalar_l_fw, sub_scalar_r_fw, mul_scalar_fw, div_scalar_l_fw, div_scalar_r_fw, powf_scalar_l_fw, powf_scalar_r_fw);
    macro_rules! bwab {
        ($($f:ident $i:expr),*) => { $(
            add(stringify!($f).into(), 5, true, 0,
                Box::new(|s| s[2] == s[3] && elementwise(&s[0], &s[1]) == Some(s[2]) && s[4] == s[$i]),
                Box::new(|d, x, g| d.$f(x[0], x[1], x[2], x[3], g)));
        )* };
    }
    bwab!(add_bw_a 0, add_bw_b 1, sub_bw_a 0, sub_bw_b 1, mul_bw_a 0, mul_bw_b 1, div_bw_a 0, div_bw_b 1, powf_bw_a 0, powf_bw_b 1);
    add("matmul_fw".into(), 2, false, 1, Box::new(|s| matmul(&s[0], &s[1]).is_some()), Box::new(|d, x, _| { d.matmul_fw(x[0], x[1]); }));
    add("matmul_bw_a".into(), 5, true, 1, Box::new(|s| s[2] == s[3] && matmul(&s[0], &s[1]) == Some(s[2]) && s[4] == s[0]),
        Box::new(|d, x, g| d.matmul_bw_a(x[0], x[1], x[2], x[3], g)));
    add("matmul_bw_b".into(), 5, true, 1, Box::new(|s| s[2] == s[3] && matmul(&s[0], &s[1]) == Some(s[2]) && s[4] == s[1]),
        Box::new(|d, x, g| d.matmul_bw_b(x[0], x[1], x[2], x[3], g)));
    add("transpose_fw".into(), 1, false, 1, Box::new(|s| s[0].matrix()), Box::new(|d, x, _| { d.transpose_fw(x[0]); }));
    add("transpose_bw".into(), 4, true, 1,
        Box::new(|s| s[0].matrix() && s[1] == Sh::new(&[s[0].dim(1), s[0].dim(0)], s[0].b) && s[2] == s[1] && s[3] == s[0]),
        Box::new(|d, x, g| d.transpose_bw(x[0], x[1], x[2], g)));
    for k in 0..2 {
        add(format!("triangular_l_fw {}", k), 1, false, 1, Box::new(|s| square(&s[0])), Box::new(move |d, x, _| { d.triangular_l_fw(x[0], k); }));
        add(format!("triangular_u_fw {}", k), 1, false, 1, Box::new(|s| square(&s[0])), Box::new(move |d, x, _| { d.triangular_u_fw(x[0], k); }));
        add(format!("triangular_l_bw {}", k), 4, true, 1, Box::new(|s| square(&s[0]) && s.iter().all(|x| *x == s[0])),
            Box::new(move |d, x, g| d.triangular_l_bw(x[0], x[1], x[2], k, g)));
        add(format!("triangular_u_bw {}", k), 4, true, 1, Box::new(|s| square(&s[0]) && s.iter().all(|x| *x == s[0])),
            Box::new(move |d, x, g| d.triangular_u_bw(x[0], x[1], x[2], k, g)));
    }
    let dims: &[u32] = if wide { &[0, 1, 2, 3, 6, 7, 8, 9, 31, 32, u32::MAX] } else { &[0, 1, 2, 7, 8, u32::MAX] };
    for &dim in dims {
        macro_rules! redb {
            ($($f:ident),*) => { $(
                add(format!("{} dim{}", stringify!($f), dim), 4, true, 2,
                    Box::new(move |s| dim < 8 && s[1] == s[0].with(dim, 1) && s[2] == s[1] && s[3] == s[0]),
                    Box::new(move |d, x, g| d.$f(x[0], x[1], x[2], dim, g)));
            )* };
        }
        redb!(max_bw, min_bw);
        for lower in [0, 1, 2, 3, u32::MAX - 1, u32::MAX] {
            add(format!("slice_bw dim{} {}", dim, lower), 2, true, 2, Box::new(move |s| part(&s[1], &s[0], dim, lower)),
                Box::new(move |d, x, g| d.slice_bw(x[0], dim, lower, g)));
            for upper in [0, 1, 2, 3, 4, u32::MAX] {
                add(format!("slice_fw dim{} {}..{}", dim, lower, upper), 1, false, 2,
                    Box::new(move |s| dim < 8 && lower < upper && upper <= s[0].dim(dim)),
                    Box::new(move |d, x, _| { d.slice_fw(x[0], dim, lower, upper); }));
            }
        }
        for ids in id_lists(wide) {
            let (i1, i2, i3) = (ids.clone(), ids.clone(), ids.clone());
            add(format!("pick_bw dim{} {:?}", dim, ids), 2, true, 2, Box::new(move |s| picked(&s[1], &i1, dim) == Some(s[0])),
                Box::new(move |d, x, g| d.pick_bw(x[0], &i2, dim, g)));
            let i4 = ids.clone();
            add(format!("pick_fw dim{} {:?}", dim, ids), 1, false, 2, Box::new(move |s| picked(&s[0], &i4, dim).is_some()),
                Box::new(move |d, x, _| { d.pick_fw(x[0], &i3, dim); }));
        }
    }
    for lower in [0, 1, 2, 3, u32::MAX - 1, u32::MAX] {
        add(format!("batch_slice_bw {}", lower), 2, true, 2,
            Box::new(move |s| lower as u64 + s[0].b as u64 <= s[1].b as u64 && s[0] == s[1].with_b(s[0].b)),
            Box::new(move |d, x, g| d.batch_slice_bw(x[0], lower, g)));
        for upper in [0, 1, 2, 3, 4, u32::MAX] {
            add(format!("batch_slice_fw {}..{}", lower, upper), 1, false, 2, Box::new(move |s| lower < upper && upper <= s[0].b),
                Box::new(move |d, x, _| { d.batch_slice_fw(x[0], lower, upper); }));
        }
    }
    for ids in id_lists(true) {
        let (i1, i2, i3, i4) = (ids.clone(), ids.clone(), ids.clone(), ids.clone());
        add(format!("batch_pick_bw {:?}", ids), 2, true, 2, Box::new(move |s| batch_picked(&s[1], &i1) == Some(s[0])),
            Box::new(move |d, x, g| d.batch_pick_bw(x[0], &i2, g)));
        add(format!("batch_pick_fw {:?}", ids), 1, false, 2, Box::new(move |s| batch_picked(&s[0], &i4).is_some()),
            Box::new(move |d, x, _| { d.batch_pick_fw(x[0], &i3); }));
    }
    // joins of two and three
    for &dim in dims {
        for n in 2..=3 {
            add(format!("concat_fw x{} dim{}", n, dim), n, false, 2,
                Box::new(move |s| {
                    dim < 8 && s.iter().all(|x| x.with(dim, 1).same_dims(&s[0].with(dim, 1)))
                        && s.iter().all(|x| s.iter().all(|y| x.compat(y)))
                }),
                Box::new(move |d, x, _| { d.concat_fw(x, dim); }));
        }
    }
    for n in 2..=3 {
        add(format!("batch_concat_fw x{}", n), n, false, 2, Box::new(move |s| s.iter().all(|x| x.same_dims(&s[0]))),
            Box::new(move |d, x, _| { d.batch_concat_fw(x); }));
    }
    // destinations of in-place functions and of resets
    for k in 0..3 {
        add("add_assign".to_string() + &"'".repeat(k), 2, true, k, Box::new(|s| elementwise(&s[0], &s[1]).is_some()),
            Box::new(|d, x, g| d.add_assign(x[0], g)));
        add("sub_assign".to_string() + &"'".repeat(k), 2, true, k, Box::new(|s| elementwise(&s[0], &s[1]).is_some()),
            Box::new(|d, x, g| d.sub_assign(x[0], g)));
        add("reset_tensor_by_tensor".to_string() + &"'".repeat(k), 2, true, k, Box::new(|s| s[0].size() == s[1].size()),
            Box::new(|d, x, g| d.reset_tensor_by_tensor(g, x[0])));
        for n in 0..20usize {
            add(format!("reset_tensor_by_slice{} {}", "'".repeat(k), n), 1, true, k, Box::new(move |s| s[0].size() == n),
                Box::new(move |d, _, g| d.reset_tensor_by_slice(g, &vec![7.5; n])));
        }
        add("tensor_to_float".to_string() + &"'".repeat(k), 1, false, k, Box::new(|s| s[0].size() == 1),
            Box::new(|d, x, _| { d.tensor_to_float(x[0]); }));
    }
    v
}

fn id_lists(wide: bool) -> Vec<Vec<u32>> {
    let mut v = vec![vec![], vec![0], vec![1], vec![2], vec![3], vec![0, 1], vec![1, 0], vec![0, 2], vec![2, 1], vec![0, 0, 0], vec![0, 1, 2], vec![1, 2, 3], vec![0, 1, 0, 1]];
    if wide {
        v.extend([vec![u32::MAX], vec![0, u32::MAX], vec![2, 2], vec![3, 0], vec![1, 3], vec![2, 0, 1], vec![0, 3, 0], vec![0; 6]]);
    }
    v
}

fn bits(t: &Ten) -> Vec<u32> {
    t.to_vec().iter().map(|x| x.to_bits()).collect()
}

fn values(s: &Sh, salt: usize) -> Vec<f32> {
    (0..s.size()).map(|i| 0.5 + ((i * 5 + salt * 3) % 11) as f32 * 0.25).collect()
}

fn body(ctx: &mut Ctx) {
    let wide = ctx.thorough();
    for f in functions(wide) {
        let abc = alphabet(f.alphabet, wide);
        let n = abc.len();
        let lead = f.arity.min(2);
        // a case fixes the first shapes and runs through all others
        for first in 0..n.pow(lead as u32) {
            let head: Vec<usize> = (0..lead).map(|i| first / n.pow(i as u32) % n).collect();
            ctx.case(
                || format!("{} {}", f.name, head.iter().map(|&i| abc[i].show()).collect::<Vec<_>>().join(" ")),
                |rec| {
                    let dv = Dv::naive();
                    let d = dv.d();
                    let by = d.new_tensor_by_slice(Sh::new(&[7], 1).shape(), &values(&Sh::new(&[7], 1), 9));
                    let by_bits = bits(&by);
                    // one tensor for each role and shape
                    let roles: Vec<Vec<Ten>> = (0..f.arity).map(|r| abc.iter().map(|s| d.new_tensor_by_slice(s.shape(), &values(s, r))).collect()).collect();
                    let before: Vec<Vec<Vec<u32>>> = roles.iter().map(|v| v.iter().map(bits).collect()).collect();
                    let rest = f.arity - lead;
                    for tail in 0..n.pow(rest as u32) {
                        let ix: Vec<usize> = head.iter().cloned().chain((0..rest).map(|i| tail / n.pow(i as u32) % n)).collect();
                        let shapes: Vec<Sh> = ix.iter().map(|&i| abc[i]).collect();
                        let nops = f.arity - f.dest as usize;
                        let xs: Vec<&Ten> = (0..nops).map(|r| &roles[r][ix[r]]).collect();
                        let want = (f.fits)(&shapes);
                        let last = f.arity - 1;
                        let mut dest = d.new_tensor_by_slice(shapes[last].shape(), &values(&shapes[last], last));
                        let dest_bits = bits(&dest);
                        rec.step(1);
                        let got = quiet(|| (f.call)(d, &xs, &mut dest)).is_ok();
                        let who = || shapes.iter().map(|s| s.show()).collect::<Vec<_>>().join(" ");
                        if got != want {
                            return Err(format!("{}: {}", who(), if got { "accepted" } else { "rejected" }));
                        }
                        if dest.shape() != shapes[last].shape() {
                            return Err(format!("{}: the destination has another shape afterwards", who()));
                        }
                        if !(got && f.dest) && bits(&dest) != dest_bits {
                            return Err(format!("{}: the destination changed", who()));
                        }
                        for r in 0..nops {
                            if bits(xs[r]) != before[r][ix[r]] {
                                return Err(format!("{}: operand {} changed", who(), r));
                            }
                        }
                        rec.outcome(if got { "accepted" } else { "rejected" });
                    }
                    if bits(&by) != by_bits {
                        return Err("another tensor changed".into());
                    }
                    for r in 0..f.arity {
                        for i in 0..n {
                            if bits(&roles[r][i]) != before[r][i] {
                                return Err(format!("a tensor of shape {} changed", abc[i].show()));
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    }
}

fn main() {
    run(
        Spec {
            id: "C27",
            level: "model_checking",
            rule: "every device function with every tuple of operand, gradient and destination shapes from an alphabet \
                   made for its kind, and every axis, range and list of ids within the bounds",
            assumptions: &["tensors are valid and of the called device (see C24, C25)"],
        },
        body,
    );
}

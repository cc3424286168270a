//! Every device-level function in a few configurations: operands, destination, the kernel it stands
//! for with the arguments that kernel must get, and the shapes of fresh results.
use crate::sh::Sh;
use crate::{Dev, Ten};
use prima_undine::functions::{ArithmeticDeviceFunctions, BasicDeviceFunctions, RandomDeviceFunctions};
use prima_undine::Shape;

pub enum Out {
    T(Ten),
    U(Vec<u32>),
    F(Vec<f32>),
    Unit,
}

pub type CallFn = Box<dyn Fn(Dev, &[&Ten], Option<&mut Ten>) -> Out>;

pub struct DevFn {
    pub name: String,
    pub ns: &'static str,
    pub kernel: &'static str,
    /// read-only operands in the order of the method
    pub operands: Vec<Sh>,
    /// destination operand, if the function writes into one
    pub dest: Option<Sh>,
    pub result: Option<Sh>,
    pub u32s: Vec<u32>,
    pub f32s: Vec<f32>,
    /// the order in which the kernel gets the operands
    pub order: Vec<usize>,
    /// operand that may belong to another device
    pub foreign_ok: Option<usize>,
    pub call: CallFn,
}

fn sh(d: &[u32], b: u32) -> Sh {
    Sh::new(d, b)
}

/// The configurations. `rich` adds more shapes and arguments.
pub fn dev_fns(rich: bool) -> Vec<DevFn> {
    let xs: Vec<Sh> = if rich {
        vec![sh(&[2, 3], 1), sh(&[3], 2), sh(&[], 1), sh(&[], 3), sh(&[65], 1), sh(&[2, 1, 2], 2), sh(&[1, 1, 1, 1, 1, 1, 1, 2], 2)]
    } else {
        vec![sh(&[2, 3], 1), sh(&[3], 2), sh(&[65], 1)]
    };
    dev_fns_over(&xs, &[1, 2, 3], rich)
}

fn few(ids: &[u32]) -> String {
    if ids.len() <= 8 {
        format!("{:?}", ids)
    } else {
        format!("{} ids", ids.len())
    }
}

/// Up to seven positions of a range: all of a short one, the ends and around powers of two of a long one.
fn positions(n: u32) -> Vec<u32> {
    if n <= 4 {
        return (0..n).collect();
    }
    let mut v = vec![0, 1, 2, n - 2, n - 1];
    v.extend([255, 256, 65535, 65536].iter().filter(|x| **x < n));
    v.sort();
    v.dedup();
    v
}

/// The functions of one operand with the shapes `xs`, and joins of the given numbers of operands.
pub fn dev_fns_over(xs: &[Sh], joins: &[usize], rich: bool) -> Vec<DevFn> {
    let mut v: Vec<DevFn> = vec![];
    let mut add = |name: String,
                   ns: &'static str,
                   kernel: &'static str,
                   operands: Vec<Sh>,
                   dest: Option<Sh>,
                   result: Option<Sh>,
                   u32s: Vec<u32>,
                   f32s: Vec<f32>,
                   call: CallFn| {
        let order = (0..operands.len()).collect();
        v.push(DevFn { name, ns, kernel, operands, dest, result, u32s, f32s, order, foreign_ok: None, call });
    };
    // one operand
    macro_rules! fwx {
        ($($f:ident => $k:expr),* $(,)?) => { $(
            for s in xs {
                add(format!("{} {}", stringify!($f), s.show()), "fw", $k, vec![*s], None, Some(*s), vec![], vec![],
                    Box::new(|d, x, _| Out::T(d.$f(x[0]))));
            }
        )* };
    }
    fwx!(neg_fw => "neg_fw_impl", sqrt_fw => "sqrt_fw_impl", abs_fw => "abs_fw_impl", sin_fw => "sin_fw_impl",
         cos_fw => "cos_fw_impl", tan_fw => "tan_fw_impl", exp_fw => "exp_fw_impl", ln_fw => "ln_fw_impl",
         tanh_fw => "tanh_fw_impl", sigmoid_fw => "sigmoid_fw_impl", softplus_fw => "softplus_fw_impl");
    macro_rules! bwx {
        ($($f:ident => $k:expr),* $(,)?) => { $(
            for s in xs {
                add(format!("{} {}", stringify!($f), s.show()), "bw", $k, vec![*s, *s, *s], Some(*s), None, vec![], vec![],
                    Box::new(|d, x, g| { d.$f(x[0], x[1], x[2], g.unwrap()); Out::Unit }));
            }
        )* };
    }
    bwx!(neg_bw => "neg_bw_impl", sqrt_bw => "sqrt_bw_impl", abs_bw => "abs_bw_impl", sin_bw => "sin_bw_impl",
         cos_bw => "cos_bw_impl", tan_bw => "tan_bw_impl", exp_bw => "exp_bw_impl", ln_bw => "ln_bw_impl",
         tanh_bw => "tanh_bw_impl", sigmoid_bw => "sigmoid_bw_impl");
    let ks: Vec<f32> = if rich { vec![0.75, -2., 0., 1e10, f32::MIN_POSITIVE] } else { vec![0.75, -2.] };
    macro_rules! fwk {
        ($($f:ident => $k:expr),* $(,)?) => { $(
            for s in xs {
                for &k in &ks {
                    add(format!("{} {} {}", stringify!($f), s.show(), k), "fw", $k, vec![*s], None, Some(*s), vec![], vec![k],
                        Box::new(move |d, x, _| Out::T(d.$f(x[0], k))));
                }
            }
        )* };
    }
    fwk!(add_const_fw => "add_const_fw_impl", sub_const_l_fw => "sub_const_l_fw_impl", sub_const_r_fw => "sub_const_r_fw_impl",
         mul_const_fw => "mul_const_fw_impl", div_const_l_fw => "div_const_l_fw_impl", div_const_r_fw => "div_const_r_fw_impl",
         powf_const_l_fw => "powf_const_l_fw_impl", powf_const_r_fw => "powf_const_r_fw_impl",
         prelu_fw => "prelu_fw_impl", elu_fw => "elu_fw_impl");
    macro_rules! bwk {
        ($($f:ident => $k:expr),* $(,)?) => { $(
            for s in xs {
                for &k in &ks {
                    add(format!("{} {} {}", stringify!($f), s.show(), k), "bw", $k, vec![*s, *s, *s], Some(*s), None, vec![], vec![k],
                        Box::new(move |d, x, g| { d.$f(x[0], x[1], x[2], k, g.unwrap()); Out::Unit }));
                }
            }
        )* };
    }
    bwk!(add_const_bw => "add_const_bw_impl", sub_const_l_bw => "sub_const_l_bw_impl", sub_const_r_bw => "sub_const_r_bw_impl",
         mul_const_bw => "mul_const_bw_impl", div_const_l_bw => "div_const_l_bw_impl", div_const_r_bw => "div_const_r_bw_impl",
         powf_const_l_bw => "powf_const_l_bw_impl", powf_const_r_bw => "powf_const_r_bw_impl",
         prelu_bw => "prelu_bw_impl", elu_bw => "elu_bw_impl");
    for s in xs {
        for k in if rich { vec![0, 1, 2, -1, -3, i32::MAX, i32::MIN] } else { vec![3, -2] } {
            add(format!("powi_fw {} {}", s.show(), k), "fw", "powi_fw_impl", vec![*s], None, Some(*s), vec![k as u32], vec![],
                Box::new(move |d, x, _| Out::T(d.powi_fw(x[0], k))));
            add(format!("powi_bw {} {}", s.show(), k), "bw", "powi_bw_impl", vec![*s, *s, *s], Some(*s), None, vec![k as u32], vec![],
                Box::new(move |d, x, g| { d.powi_bw(x[0], x[1], x[2], k, g.unwrap()); Out::Unit }));
        }
    }
    // two operands
    let mut pairs = vec![(sh(&[2, 3], 1), sh(&[2, 3], 1)), (sh(&[3], 2), sh(&[3], 1)), (sh(&[3], 1), sh(&[3], 2))];
    if rich {
        pairs.extend([(sh(&[], 1), sh(&[], 1)), (sh(&[65], 3), sh(&[65], 3)), (sh(&[2, 1, 2], 1), sh(&[2, 1, 2], 3))]);
    }
    macro_rules! fwab {
        ($($f:ident => $k:expr),* $(,)?) => { $(
            for (a, b) in &pairs {
                add(format!("{} {} {}", stringify!($f), a.show(), b.show()), "fw", $k, vec![*a, *b], None, Some(a.with_b(a.b.max(b.b))), vec![], vec![],
                    Box::new(|d, x, _| Out::T(d.$f(x[0], x[1]))));
            }
        )* };
    }
    fwab!(add_fw => "add_fw_impl", sub_fw => "sub_fw_impl", mul_fw => "mul_fw_impl", div_fw => "div_fw_impl", powf_fw => "powf_fw_impl");
    macro_rules! bwab {
        ($($f:ident $i:expr => $k:expr),* $(,)?) => { $(
            for (a, b) in &pairs {
                let y = a.with_b(a.b.max(b.b));
                add(format!("{} {} {}", stringify!($f), a.show(), b.show()), "bw", $k, vec![*a, *b, y, y], Some([*a, *b][$i]), None, vec![], vec![],
                    Box::new(|d, x, g| { d.$f(x[0], x[1], x[2], x[3], g.unwrap()); Out::Unit }));
            }
        )* };
    }
    bwab!(add_bw_a 0 => "add_bw_a_impl", add_bw_b 1 => "add_bw_b_impl", sub_bw_a 0 => "sub_bw_a_impl", sub_bw_b 1 => "sub_bw_b_impl",
          mul_bw_a 0 => "mul_bw_a_impl", mul_bw_b 1 => "mul_bw_b_impl", div_bw_a 0 => "div_bw_a_impl", div_bw_b 1 => "div_bw_b_impl",
          powf_bw_a 0 => "powf_bw_a_impl", powf_bw_b 1 => "powf_bw_b_impl");
    let mut sc = vec![(sh(&[2, 3], 1), sh(&[], 1)), (sh(&[3], 1), sh(&[], 2)), (sh(&[3], 2), sh(&[], 1))];
    if rich {
        sc.extend([(sh(&[], 1), sh(&[], 1)), (sh(&[65], 3), sh(&[], 3)), (sh(&[], 1), sh(&[], 3))]);
    }
    macro_rules! fwsc {
        ($($f:ident => $k:expr),* $(,)?) => { $(
            for (a, b) in &sc {
                add(format!("{} {} {}", stringify!($f), a.show(), b.show()), "fw", $k, vec![*a, *b], None, Some(a.with_b(a.b.max(b.b))), vec![], vec![],
                    Box::new(|d, x, _| Out::T(d.$f(x[0], x[1]))));
            }
        )* };
    }
    fwsc!(add_scalar_fw => "add_scalar_fw_impl", sub_scalar_l_fw => "sub_scalar_l_fw_impl", sub_scalar_r_fw => "sub_scalar_r_fw_impl",
          mul_scalar_fw => "mul_scalar_fw_impl", div_scalar_l_fw => "div_scalar_l_fw_impl", div_scalar_r_fw => "div_scalar_r_fw_impl",
          powf_scalar_l_fw => "powf_scalar_l_fw_impl", powf_scalar_r_fw => "powf_scalar_r_fw_impl");
    // in place
    for (a, b) in &pairs {
        add(format!("add_assign {} {}", a.show(), b.show()), "fw", "add_assign_impl", vec![*a], Some(*b), None, vec![], vec![],
            Box::new(|d, x, g| { d.add_assign(x[0], g.unwrap()); Out::Unit }));
        add(format!("sub_assign {} {}", a.show(), b.show()), "fw", "sub_assign_impl", vec![*a], Some(*b), None, vec![], vec![],
            Box::new(|d, x, g| { d.sub_assign(x[0], g.unwrap()); Out::Unit }));
    }
    for s in xs {
        for &k in &ks {
            add(format!("mul_assign_const {} {}", s.show(), k), "fw", "mul_assign_const_impl", vec![], Some(*s), None, vec![], vec![k],
                Box::new(move |d, _, g| { d.mul_assign_const(k, g.unwrap()); Out::Unit }));
            add(format!("reset_tensor {} {}", s.show(), k), "fw", "reset_tensor_impl", vec![], Some(*s), None, vec![], vec![k],
                Box::new(move |d, _, g| { d.reset_tensor(g.unwrap(), k); Out::Unit }));
        }
        let vals: Vec<f32> = (0..s.size()).map(|i| i as f32 * 0.5 - 3.).collect();
        let v2 = vals.clone();
        add(format!("reset_tensor_by_slice {}", s.show()), "fw", "reset_tensor_by_slice_impl", vec![], Some(*s), None, vec![], vals,
            Box::new(move |d, _, g| { d.reset_tensor_by_slice(g.unwrap(), &v2); Out::Unit }));
        add(format!("reset_tensor_by_tensor {}", s.show()), "fw", "reset_tensor_by_tensor_impl", vec![*s], Some(*s), None, vec![], vec![],
            Box::new(|d, x, g| { d.reset_tensor_by_tensor(g.unwrap(), x[0]); Out::Unit }));
        add(format!("copy_tensor {}", s.show()), "fw", "reset_tensor_by_tensor_impl", vec![*s], None, Some(*s), vec![], vec![],
            Box::new(|d, x, _| Out::T(d.copy_tensor(x[0]))));
        add(format!("tensor_to_vector {}", s.show()), "f32", "tensor_to_vector_impl", vec![*s], None, None, vec![], vec![],
            Box::new(|d, x, _| Out::F(d.tensor_to_vector(x[0]))));
        for &k in &ks {
            add(format!("new_tensor_by_constant {} {}", s.show(), k), "fw", "reset_tensor_impl", vec![], None, Some(*s), vec![], vec![k], {
                let q = s.shape();
                Box::new(move |d, _, _| Out::T(d.new_tensor_by_constant(q, k)))
            });
        }
        let vals: Vec<f32> = (0..s.size()).map(|i| i as f32 * 0.25 + 1.).collect();
        let v2 = vals.clone();
        let q = s.shape();
        add(format!("new_tensor_by_slice {}", s.show()), "fw", "reset_tensor_by_slice_impl", vec![], None, Some(*s), vec![], vals,
            Box::new(move |d, _, _| Out::T(d.new_tensor_by_slice(q, &v2))));
        add(format!("random_bernoulli {}", s.show()), "fw", "random_bernoulli_impl", vec![], None, Some(*s), vec![], vec![0.25],
            Box::new(move |d, _, _| Out::T(d.random_bernoulli(q, 0.25))));
        add(format!("random_normal {}", s.show()), "fw", "random_normal_impl", vec![], None, Some(*s), vec![], vec![0.5, 2.],
            Box::new(move |d, _, _| Out::T(d.random_normal(q, 0.5, 2.))));
        add(format!("random_uniform {}", s.show()), "fw", "random_uniform_impl", vec![], None, Some(*s), vec![], vec![-1., 2.],
            Box::new(move |d, _, _| Out::T(d.random_uniform(q, -1., 2.))));
        if s.size() == 1 {
            add(format!("tensor_to_float {}", s.show()), "f32", "tensor_to_vector_impl", vec![*s], None, None, vec![], vec![],
                Box::new(|d, x, _| Out::F(vec![d.tensor_to_float(x[0])])));
        }
    }
    add("tensor_to_float s".into(), "f32", "tensor_to_vector_impl", vec![sh(&[], 1)], None, None, vec![], vec![],
        Box::new(|d, x, _| Out::F(vec![d.tensor_to_float(x[0])])));
    // reductions
    for s in xs {
        for dim in if rich { vec![0, 1, 2, 7] } else { vec![0, 1] } {
            macro_rules! red {
                ($($f:ident => $k:expr),*) => { $(
                    add(format!("{} {} dim{}", stringify!($f), s.show(), dim), "fw", $k, vec![*s], None, Some(s.with(dim, 1)), vec![dim], vec![],
                        Box::new(move |d, x, _| Out::T(d.$f(x[0], dim))));
                )* };
            }
            red!(sum_fw => "sum_fw_impl", max_fw => "max_fw_impl", min_fw => "min_fw_impl", logsumexp_fw => "logsumexp_fw_impl");
            macro_rules! arg {
                ($($f:ident => $k:expr),*) => { $(
                    add(format!("{} {} dim{}", stringify!($f), s.show(), dim), "u32", $k, vec![*s], None, None, vec![dim], vec![],
                        Box::new(move |d, x, _| Out::U(d.$f(x[0], dim))));
                )* };
            }
            arg!(argmax => "argmax_impl", argmin => "argmin_impl", argsort => "argsort_impl");
            macro_rules! redb {
                ($($f:ident => $k:expr),*) => { $(
                    add(format!("{} {} dim{}", stringify!($f), s.show(), dim), "bw", $k, vec![*s, s.with(dim, 1), s.with(dim, 1)], Some(*s), None, vec![dim], vec![],
                        Box::new(move |d, x, g| { d.$f(x[0], x[1], x[2], dim, g.unwrap()); Out::Unit }));
                )* };
            }
            redb!(max_bw => "max_bw_impl", min_bw => "min_bw_impl");
            if s.dim(dim) == 1 {
                for n in if s.size() > 64 { vec![1, 4, 300, 70000] } else { vec![1, 4] } {
                    add(format!("broadcast_fw {} dim{} {}", s.show(), dim, n), "fw", "broadcast_fw_impl", vec![*s], None, Some(s.with(dim, n)), vec![dim, n], vec![],
                        Box::new(move |d, x, _| Out::T(d.broadcast_fw(x[0], dim, n))));
                }
            }
            let n = s.dim(dim);
            for l in if n <= 4 { (0..n.min(3)).collect() } else { positions(n) } {
                for u in [l + 1, n] {
                    let y = s.with(dim, u - l);
                    add(format!("slice_fw {} dim{} {}..{}", s.show(), dim, l, u), "fw", "slice_fw_impl", vec![*s], None, Some(y), vec![dim, l], vec![],
                        Box::new(move |d, x, _| Out::T(d.slice_fw(x[0], dim, l, u))));
                    add(format!("slice_bw {} dim{} {}..{}", s.show(), dim, l, u), "bw", "slice_bw_impl", vec![y], Some(*s), None, vec![dim, l], vec![],
                        Box::new(move |d, x, g| { d.slice_bw(x[0], dim, l, g.unwrap()); Out::Unit }));
                }
            }
            for ids in [vec![n - 1], (0..s.b).map(|i| n - 1 - i % n).collect::<Vec<u32>>(), if s.b == 1 { vec![0, n - 1, 0] } else { vec![0] }] {
                let y = s.with(dim, 1).with_b(s.b.max(ids.len() as u32));
                let mut u = vec![dim];
                u.extend(&ids);
                let i2 = ids.clone();
                let i3 = ids.clone();
                add(format!("pick_fw {} dim{} {}", s.show(), dim, few(&ids)), "fw", "pick_fw_impl", vec![*s], None, Some(y), u.clone(), vec![],
                    Box::new(move |d, x, _| Out::T(d.pick_fw(x[0], &i2, dim))));
                add(format!("pick_bw {} dim{} {}", s.show(), dim, few(&ids)), "bw", "pick_bw_impl", vec![y], Some(*s), None, u, vec![],
                    Box::new(move |d, x, g| { d.pick_bw(x[0], &i3, dim, g.unwrap()); Out::Unit }));
            }
            for &k in joins {
                add(format!("concat_fw {} x{} dim{}", s.show(), k, dim), "fw", "concat_fw_impl", vec![*s; k], None, Some(s.with(dim, n * k as u32)), vec![dim], vec![],
                    Box::new(move |d, x, _| Out::T(d.concat_fw(x, dim))));
            }
        }
    }
    // batch
    for s in xs {
        add(format!("batch_sum_fw {}", s.show()), "fw", "batch_sum_fw_impl", vec![*s], None, Some(s.with_b(1)), vec![], vec![],
            Box::new(|d, x, _| Out::T(d.batch_sum_fw(x[0]))));
        for l in positions(s.b) {
            for u in positions(s.b).into_iter().map(|u| u + 1).filter(|u| *u > l) {
                let y = s.with_b(u - l);
                add(format!("batch_slice_fw {} {}..{}", s.show(), l, u), "fw", "batch_slice_fw_impl", vec![*s], None, Some(y), vec![l, u], vec![],
                    Box::new(move |d, x, _| Out::T(d.batch_slice_fw(x[0], l, u))));
                add(format!("batch_slice_bw {} {}..{}", s.show(), l, u), "bw", "batch_slice_bw_impl", vec![y], Some(*s), None, vec![l], vec![],
                    Box::new(move |d, x, g| { d.batch_slice_bw(x[0], l, g.unwrap()); Out::Unit }));
            }
        }
        for ids in [vec![0], vec![s.b - 1, 0, s.b - 1], if s.b > 4 { (0..s.b).rev().collect() } else { vec![0, 0] }] {
            let y = s.with_b(ids.len() as u32);
            let i2 = ids.clone();
            let i3 = ids.clone();
            add(format!("batch_pick_fw {} {}", s.show(), few(&ids)), "fw", "batch_pick_fw_impl", vec![*s], None, Some(y), ids.clone(), vec![],
                Box::new(move |d, x, _| Out::T(d.batch_pick_fw(x[0], &i2))));
            add(format!("batch_pick_bw {} {}", s.show(), few(&ids)), "bw", "batch_pick_bw_impl", vec![y], Some(*s), None, ids, vec![],
                Box::new(move |d, x, g| { d.batch_pick_bw(x[0], &i3, g.unwrap()); Out::Unit }));
        }
        for &k in joins {
            add(format!("batch_concat_fw {} x{}", s.show(), k), "fw", "batch_concat_fw_impl", vec![*s; k], None, Some(s.with_b(s.b * k as u32)), vec![], vec![],
                Box::new(|d, x, _| Out::T(d.batch_concat_fw(x))));
        }
    }
    // matrices
    let mut mm = vec![(sh(&[2, 3], 1), sh(&[3, 2], 1)), (sh(&[2, 2], 2), sh(&[2], 1))];
    if rich {
        mm.extend([(sh(&[], 1), sh(&[1, 3], 2)), (sh(&[4, 1], 1), sh(&[1, 5], 1)), (sh(&[9, 9], 1), sh(&[9, 9], 1))]);
    }
    for (a, b) in mm {
        let y = sh(&[a.dim(0), b.dim(1)], a.b.max(b.b));
        add(format!("matmul_fw {} {}", a.show(), b.show()), "fw", "matmul_fw_impl", vec![a, b], None, Some(y), vec![], vec![],
            Box::new(|d, x, _| Out::T(d.matmul_fw(x[0], x[1]))));
        add(format!("matmul_bw_a {} {}", a.show(), b.show()), "bw", "matmul_bw_a_impl", vec![a, b, y, y], Some(a), None, vec![], vec![],
            Box::new(|d, x, g| { d.matmul_bw_a(x[0], x[1], x[2], x[3], g.unwrap()); Out::Unit }));
        add(format!("matmul_bw_b {} {}", a.show(), b.show()), "bw", "matmul_bw_b_impl", vec![a, b, y, y], Some(b), None, vec![], vec![],
            Box::new(|d, x, g| { d.matmul_bw_b(x[0], x[1], x[2], x[3], g.unwrap()); Out::Unit }));
    }
    for s in [sh(&[2, 3], 1), sh(&[3, 1], 2), sh(&[1, 4], 1), sh(&[9, 8], 1)] {
        let y = sh(&[s.dim(1), s.dim(0)], s.b);
        add(format!("transpose_fw {}", s.show()), "fw", "transpose_fw_impl", vec![s], None, Some(y), vec![], vec![],
            Box::new(|d, x, _| Out::T(d.transpose_fw(x[0]))));
        add(format!("transpose_bw {}", s.show()), "bw", "transpose_bw_impl", vec![s, y, y], Some(s), None, vec![], vec![],
            Box::new(|d, x, g| { d.transpose_bw(x[0], x[1], x[2], g.unwrap()); Out::Unit }));
    }
    for s in [sh(&[3, 3], 1), sh(&[2, 2], 2), sh(&[], 1)] {
        for k in [0, 1, 5] {
            add(format!("triangular_l_fw {} {}", s.show(), k), "fw", "triangular_l_fw_impl", vec![s], None, Some(s), vec![k], vec![],
                Box::new(move |d, x, _| Out::T(d.triangular_l_fw(x[0], k))));
            add(format!("triangular_u_fw {} {}", s.show(), k), "fw", "triangular_u_fw_impl", vec![s], None, Some(s), vec![k], vec![],
                Box::new(move |d, x, _| Out::T(d.triangular_u_fw(x[0], k))));
            add(format!("triangular_l_bw {} {}", s.show(), k), "bw", "triangular_l_bw_impl", vec![s, s, s], Some(s), None, vec![k], vec![],
                Box::new(move |d, x, g| { d.triangular_l_bw(x[0], x[1], x[2], k, g.unwrap()); Out::Unit }));
            add(format!("triangular_u_bw {} {}", s.show(), k), "bw", "triangular_u_bw_impl", vec![s, s, s], Some(s), None, vec![k], vec![],
                Box::new(move |d, x, g| { d.triangular_u_bw(x[0], x[1], x[2], k, g.unwrap()); Out::Unit }));
        }
    }
    for f in v.iter_mut() {
        if f.kernel == "reset_tensor_by_tensor_impl" {
            f.foreign_ok = Some(0);
        }
    }
    v
}

/// A valid tensor-shape with the library's type.
pub fn shape_of(s: &Sh) -> Shape {
    s.shape()
}

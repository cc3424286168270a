//! Checks the backward pass of one operation against dual numbers.
use crate::dev::*;
use crate::harness::Rec;
use crate::ops::*;
use crate::rt::*;
use crate::sh::Sh;
use crate::{Dev, Nd, Ten};
use prima_undine::{Node, Operator};
use std::cell::RefCell;

/// Expected gradient contributions for each operand: values and, for the error bound, the sums of
/// magnitudes.
pub fn vjp(op: &Op, xs: &[R], gys: &[R]) -> Vec<(Vec<f64>, Vec<f64>)> {
    let mut first = 0;
    let mut lifted = vec![];
    for x in xs {
        lifted.push(x.vars(first));
        first += x.s.size() as u32;
    }
    let refs: Vec<&Rt<Sd>> = lifted.iter().collect();
    let ys = op.eval(&refs);
    let mut g = vec![0f64; first as usize];
    let mut m = vec![0f64; first as usize];
    for (y, gy) in ys.iter().zip(gys) {
        for (e, k) in y.v.iter().zip(&gy.v) {
            for (i, dx) in &e.g {
                g[*i as usize] += dx * k;
                m[*i as usize] += (dx * k).abs();
            }
        }
    }
    let mut out = vec![];
    let mut at = 0;
    for x in xs {
        let n = x.s.size();
        out.push((g[at..at + n].to_vec(), m[at..at + n].to_vec()));
        at += n;
    }
    out
}

pub fn compare_grad(what: &str, got: &[f32], exp: &[f64], mag: &[f64], exact: bool) -> Result<(), String> {
    compare_floor(what, got, exp, mag, exact, 0.005)
}

pub fn compare_floor(what: &str, got: &[f32], exp: &[f64], mag: &[f64], exact: bool, floor: f64) -> Result<(), String> {
    if got.len() != exp.len() {
        return Err(format!("{}: {} values instead of {}", what, got.len(), exp.len()));
    }
    for i in 0..got.len() {
        let tol = if exact { Tol::Exact } else { Tol::Rel(5e-5, mag[i].max(floor)) };
        if !close(got[i], exp[i], tol) {
            return Err(format!("{}: element {} is {:?}, expected {:?}", what, i, got[i], exp[i]));
        }
    }
    Ok(())
}

pub struct GradOpts {
    /// results of backward are exact on these data
    pub exact: bool,
    /// use the same tensor for both operands
    pub same: bool,
    pub salt: u64,
    /// operands whose gradient is to be compared (by operand position)
    pub skip: Vec<usize>,
    /// magnitudes below this count as this in the tolerance
    pub floor: f64,
}

/// Operator level: arbitrary upstream gradients, gradients already present.
/// Graph level: through a weighted sum, compared for every operand.
pub fn grad_case(d: Dev, op: &Op, xs: &[R], o: &GradOpts, rec: &mut Rec) -> Result<(), String> {
    let refs: Vec<&R> = xs.iter().collect();
    let shapes: Vec<Sh> = xs.iter().map(|x| x.s).collect();
    let ys = op.eval(&refs);
    let gys: Vec<R> = ys
        .iter()
        .enumerate()
        .map(|(i, y)| {
            if o.exact {
                ints(y.s, 7, false, o.salt + 100 + i as u64)
            } else {
                spread(y.s, -1.5, 1.5, o.salt + 100 + i as u64)
            }
        })
        .collect();
    let exp = vjp(op, xs, &gys);
    let mut classes: Vec<u32> = ys.iter().chain(xs).map(|e| class_of(e.s.size())).collect();
    classes.sort();
    classes.dedup();
    // --- the operator itself
    if let Some((oper, perm)) = op.operator(d, &shapes) {
        for present in [false, true] {
            poison(d, &classes, 3, f32::NAN);
            operator_level(d, &*oper, &perm, xs, &ys, &gys, &exp, present, o)?;
            rec.step(2);
        }
    }
    // --- the graph
    poison(d, &classes, 4, f32::NAN);
    let ts: Vec<Ten> = xs.iter().map(|x| ten(d, x)).collect();
    let ws: Vec<Ten> = gys.iter().map(|x| ten(d, x)).collect();
    {
        let leaves: Vec<Nd> = ts.iter().map(|t| Node::from(forever(t))).collect();
        let args: Vec<&Nd> = if o.same { vec![&leaves[0]; leaves.len()] } else { leaves.iter().collect() };
        let outs = op.node(&args);
        // weighted sum of all outputs: each output is multiplied and then flattened to one line
        let mut total: Option<Nd> = None;
        for (y, w) in outs.iter().zip(&ws) {
            use prima_undine::functions::BasicFunctions;
            let p = (y * Nd::from(forever(w))).batch_sum().flatten().sum(0);
            total = Some(match total {
                None => p,
                Some(t) => t + p,
            });
        }
        total.unwrap().backward();
        rec.step(1);
        if o.same {
            let n = xs[0].s.size();
            let mut e = vec![0.; n];
            let mut m = vec![0.; n];
            for (v, g) in &exp {
                for i in 0..n {
                    e[i] += v[i];
                    m[i] += g[i];
                }
            }
            compare_floor("graph gradient of the repeated operand", &leaves[0].inner_gradient().to_vec_any(), &e, &m, o.exact, o.floor)?;
        } else {
            for (i, (l, (e, m))) in leaves.iter().zip(&exp).enumerate() {
                if o.skip.contains(&i) {
                    continue;
                }
                compare_floor(&format!("graph gradient of operand {}", i), &l.inner_gradient().to_vec_any(), e, m, o.exact, o.floor)?;
            }
        }
    }
    for (i, (t, x)) in ts.iter().zip(xs).enumerate() {
        check_ten(&format!("operand {} afterwards", i), t, x, Tol::Exact)?;
    }
    Ok(())
}

pub trait ToVecAny {
    fn to_vec_any(&self) -> Vec<f32>;
}
impl<'a> ToVecAny for prima_undine::Tensor<'a> {
    fn to_vec_any(&self) -> Vec<f32> {
        let t: &'static Ten = unsafe { &*(self as *const _ as *const Ten) };
        prima_undine::functions::BasicFunctions::to_vec(t)
    }
}

#[allow(clippy::too_many_arguments)]
fn operator_level(
    d: Dev,
    oper: &dyn Operator<'static, 'static>,
    perm: &[usize],
    xs: &[R],
    ys: &[R],
    gys: &[R],
    exp: &[(Vec<f64>, Vec<f64>)],
    present: bool,
    o: &GradOpts,
) -> Result<(), String> {
    // argument position p holds operand perm[p]
    let ins: Vec<Ten> = xs.iter().map(|x| ten(d, x)).collect();
    let xr: Vec<&Ten> = perm.iter().map(|&i| if o.same { &ins[0] } else { &ins[i] }).collect();
    let os = oper.forward_shape(&perm.iter().map(|&i| xs[i].s.shape()).collect::<Vec<_>>());
    let mut outs: Vec<Ten> = os.iter().map(|s| d.new_tensor(*s)).collect();
    {
        let mut yr: Vec<&mut Ten> = outs.iter_mut().collect();
        oper.forward(&xr, &mut yr);
    }
    for (i, (y, e)) in outs.iter().zip(ys).enumerate() {
        let t = if o.exact { Tol::Exact } else { LOOSE };
        check_ten(&format!("operator result {}", i), y, e, t)?;
    }
    let gt: Vec<Ten> = gys.iter().map(|g| ten(d, g)).collect();
    let pre: Vec<R> = xs
        .iter()
        .enumerate()
        .map(|(i, x)| {
            if present {
                ints(x.s, 5, true, o.salt + 300 + i as u64)
            } else {
                Rt::new(x.s, vec![0.; x.s.size()])
            }
        })
        .collect();
    let gx: Vec<RefCell<Ten>> = pre.iter().map(|p| RefCell::new(ten(d, p))).collect();
    {
        let yr: Vec<&Ten> = outs.iter().collect();
        let gyr: Vec<&Ten> = gt.iter().collect();
        let gxr: Vec<&RefCell<Ten>> = perm.iter().map(|&i| if o.same { &gx[0] } else { &gx[i] }).collect();
        // the trait's backward wants RefCell<Tensor<'x>>; all share the static device
        oper.backward(&xr, &yr, &gyr, &gxr);
    }
    let w = if present { "operator gradient added to a present one" } else { "operator gradient" };
    if o.same {
        let n = xs[0].s.size();
        let mut e = pre[0].v.clone();
        let mut m = vec![0.; n];
        for i in 0..n {
            m[i] += e[i].abs();
        }
        for (v, g) in exp {
            for i in 0..n {
                e[i] += v[i];
                m[i] += g[i];
            }
        }
        compare_floor(w, &gx[0].borrow().to_vec_any(), &e, &m, o.exact, o.floor)?;
    } else {
        for i in 0..xs.len() {
            if o.skip.contains(&i) {
                continue;
            }
            let e: Vec<f64> = exp[i].0.iter().zip(&pre[i].v).map(|(a, b)| a + b).collect();
            let m: Vec<f64> = exp[i].1.iter().zip(&pre[i].v).map(|(a, b)| a + b.abs()).collect();
            compare_floor(&format!("{} of operand {}", w, i), &gx[i].borrow().to_vec_any(), &e, &m, o.exact, o.floor)?;
        }
    }
    for (i, (t, x)) in ins.iter().zip(xs).enumerate() {
        check_ten(&format!("operand {} after backward", i), t, x, Tol::Exact)?;
    }
    for (i, (t, x)) in gt.iter().zip(gys).enumerate() {
        check_ten(&format!("upstream gradient {} after backward", i), t, x, Tol::Exact)?;
    }
    for (i, (y, e)) in outs.iter().zip(ys).enumerate() {
        let t = if o.exact { Tol::Exact } else { LOOSE };
        check_ten(&format!("operator result {} after backward", i), y, e, t)?;
    }
    Ok(())
}

/// A composed expression: eager and graph values, and the gradient of a weighted sum with respect
/// to every operand, against a dual-number formula.
#[allow(clippy::too_many_arguments)]
pub fn expr_case(
    d: Dev,
    xs: &[R],
    eager: &dyn Fn(&[&Ten]) -> Ten,
    graph: &dyn Fn(&[&Nd]) -> Nd,
    formula: &dyn Fn(&[&Rt<Sd>]) -> Rt<Sd>,
    tol: Tol,
    gtol: Tol,
    salt: u64,
    rec: &mut Rec,
) -> Result<(), String> {
    use prima_undine::functions::BasicFunctions;
    let mut first = 0;
    let mut lifted = vec![];
    for x in xs {
        lifted.push(x.vars(first));
        first += x.s.size() as u32;
    }
    let y = formula(&lifted.iter().collect::<Vec<_>>());
    let yv = Rt::new(y.s, y.vals());
    let w = ints(y.s, 4, true, salt);
    let mut g = vec![0f64; first as usize];
    for (e, k) in y.v.iter().zip(&w.v) {
        for (i, dx) in &e.g {
            g[*i as usize] += dx * k;
        }
    }
    let mut classes: Vec<u32> = xs.iter().map(|e| class_of(e.s.size())).collect();
    classes.push(class_of(y.s.size()));
    classes.sort();
    classes.dedup();
    let ts: Vec<Ten> = xs.iter().map(|x| ten(d, x)).collect();
    poison(d, &classes, 3, f32::NAN);
    check_ten("eager", &eager(&ts.iter().collect::<Vec<_>>()), &yv, tol)?;
    poison(d, &classes, 3, f32::NAN);
    let wt = ten(d, &w);
    let leaves: Vec<Nd> = ts.iter().map(|t| Node::from(forever(t))).collect();
    let out = graph(&leaves.iter().collect::<Vec<_>>());
    check_node("graph", &out, &yv, tol)?;
    let loss = (&out * Nd::from(forever(&wt))).batch_sum().flatten().sum(0);
    loss.backward();
    let mut at = 0;
    for (i, (l, x)) in leaves.iter().zip(xs).enumerate() {
        let n = x.s.size();
        compare(&format!("gradient of operand {}", i), &l.inner_gradient().to_vec_any(), &g[at..at + n], gtol)?;
        at += n;
    }
    check_node("graph after backward", &out, &yv, tol)?;
    for (i, (t, x)) in ts.iter().zip(xs).enumerate() {
        check_ten(&format!("operand {} afterwards", i), t, x, Tol::Exact)?;
    }
    rec.step(3);
    Ok(())
}

//! C23: in-place updates and resets.
use mc_core::*;
use prima_undine::functions::{ArithmeticDeviceFunctions, BasicFunctions};
use prima_undine::Shape;

#[derive(Clone, Copy, Debug, PartialEq)]
enum U {
    /// y operand (index into the operand list), plus/minus, form 0 &y, 1 owned, 2 device call
    Add(usize, u8),
    Sub(usize, u8),
    Mul(f32),
    MulDev(f32),
    Const(f32),
    ConstDev(f32),
    Slice(u64),
    Tensor(usize),
}

struct World {
    d: Dev,
    x: Ten,
    mx: Vec<f32>,
    sx: Sh,
    ys: Vec<(Ten, R)>,
    by: Vec<(Ten, R)>,
}

impl World {
    fn new(d: Dev, sx: Sh, sy: &[Sh], salt: u64, big: bool) -> World {
        let gen = |s: Sh, k: u64| if big { spread(s, -1e3, 1e3, k) } else { ints(s, 50, true, k) };
        let mut by = vec![];
        let mut mk = |k: u64, s: Sh| {
            let r = gen(s, k);
            by.push((ten(d, &r), r));
        };
        mk(901, sx);
        let x0 = gen(sx, salt);
        let x = ten(d, &x0);
        mk(902, sx);
        let ys = sy
            .iter()
            .enumerate()
            .map(|(i, s)| {
                let r = gen(*s, salt + 10 + i as u64);
                (ten(d, &r), r)
            })
            .collect();
        mk(903, Sh::new(&[64], 1));
        World { d, x, mx: x0.f32s(), sx, ys, by }
    }
    fn operand(&self, i: usize) -> Vec<f32> {
        self.ys[i].1.f32s()
    }
    fn model_add(&mut self, i: usize, sign: f32) {
        let (sy, y) = (self.ys[i].1.s, self.operand(i));
        let vol = self.sx.vol();
        for b in 0..self.sx.b.max(sy.b) as usize {
            for k in 0..vol {
                let xi = if self.sx.b == 1 { k } else { b * vol + k };
                let yi = if sy.b == 1 { k } else { b * vol + k };
                self.mx[xi] += sign * y[yi];
            }
        }
    }
    fn apply(&mut self, u: U) {
        match u {
            U::Add(i, f) => {
                let y = forever(&self.ys[i].0);
                match f {
                    0 => self.x += y,
                    1 => self.x += self.d.copy_tensor(y),
                    _ => self.d.add_assign(y, &mut self.x),
                }
                self.model_add(i, 1.);
            }
            U::Sub(i, f) => {
                let y = forever(&self.ys[i].0);
                match f {
                    0 => self.x -= y,
                    1 => self.x -= self.d.copy_tensor(y),
                    _ => self.d.sub_assign(y, &mut self.x),
                }
                self.model_add(i, -1.);
            }
            U::Mul(k) => {
                self.x *= k;
                self.mx.iter_mut().for_each(|v| *v *= k);
            }
            U::MulDev(k) => {
                self.d.mul_assign_const(k, &mut self.x);
                self.mx.iter_mut().for_each(|v| *v *= k);
            }
            U::Const(k) => {
                self.x.reset(k);
                self.mx.iter_mut().for_each(|v| *v = k);
            }
            U::ConstDev(k) => {
                self.d.reset_tensor(&mut self.x, k);
                self.mx.iter_mut().for_each(|v| *v = k);
            }
            U::Slice(salt) => {
                let v = distinct(self.sx, salt).f32s();
                self.d.reset_tensor_by_slice(&mut self.x, &v);
                self.mx = v;
            }
            U::Tensor(i) => {
                self.d.reset_tensor_by_tensor(&mut self.x, forever(&self.ys[i].0));
                self.mx = self.operand(i);
            }
        }
    }
    fn check(&self, what: &str) -> Result<(), String> {
        check_shape(what, &self.x, &self.sx)?;
        let got = self.x.to_vec();
        if got.len() != self.mx.len() {
            return Err(format!("{}: {} values", what, got.len()));
        }
        for i in 0..got.len() {
            if got[i].to_bits() != self.mx[i].to_bits() && !(got[i] == 0. && self.mx[i] == 0.) {
                return Err(format!("{}: element {} is {:?}, expected {:?}", what, i, got[i], self.mx[i]));
            }
        }
        for (i, (t, r)) in self.ys.iter().enumerate() {
            check_ten(&format!("{}: operand {}", what, i), t, r, Tol::Exact)?;
        }
        for (i, (t, r)) in self.by.iter().enumerate() {
            check_ten(&format!("{}: bystander {}", what, i), t, r, Tol::Exact)?;
        }
        Ok(())
    }
}

fn fits(x: &Sh, y: &Sh) -> bool {
    x.same_dims(y) && x.compat(y)
}

fn body(ctx: &mut Ctx) {
    mc_core::alloc::enable_guards();
    let d = leaked_naive();
    let other = leaked_naive();
    // one update on every pair of shapes, accepted or rejected
    let mut shs = all_shapes(3, 3, 27, &[1, 2, 3]);
    for s in [vec![1, 1, 1, 2], vec![1, 1, 1, 1, 1, 1, 1, 2], vec![2, 1, 2, 1, 2, 1, 2, 1], vec![4], vec![6], vec![8], vec![9]] {
        for b in [1, 2, 3] {
            shs.push(Sh::new(&s, b));
        }
    }
    if ctx.thorough() {
        shs.extend(all_shapes(4, 3, 81, &[1, 2, 3]));
        shs.extend(all_shapes(2, 6, 36, &[1, 2, 4]));
    }
    shs.sort_by_key(|s| (s.d, s.b));
    shs.dedup();
    for sx in &shs {
        for sy in &shs {
            ctx.case(
                || format!("pair {} {}", sx.show(), sy.show()),
                |rec| {
                    let mut us = vec![];
                    for f in 0..3 {
                        us.extend([U::Add(0, f), U::Sub(0, f)]);
                    }
                    for u in us {
                        let mut w = World::new(d, *sx, &[*sy], 3, false);
                        rec.step(1);
                        if fits(sx, sy) {
                            w.apply(u);
                            rec.outcome("accepted");
                            w.check(&format!("{:?}", u))?;
                        } else {
                            if !panics(|| w.apply(u)) {
                                return Err(format!("{:?} accepted", u));
                            }
                            rec.outcome("rejected");
                            w.check(&format!("rejected {:?}", u))?;
                        }
                    }
                    // reset by a tensor: only the number of elements has to agree
                    let mut w = World::new(d, *sx, &[*sy], 5, true);
                    rec.step(1);
                    if sx.size() == sy.size() {
                        w.apply(U::Tensor(0));
                        w.check("reset by tensor")?;
                    } else {
                        if !panics(|| w.apply(U::Tensor(0))) {
                            return Err("reset by a tensor of another size accepted".into());
                        }
                        w.check("rejected reset by tensor")?;
                    }
                    Ok(())
                },
            );
        }
    }
    // resets, factors, lengths, foreign operands and unusual sizes
    let mut sizes = shs.clone();
    for n in 1..=ctx.pick(140, 700) {
        sizes.push(Sh::new(&[n], 1));
        sizes.push(Sh::new(&[n], 2));
        sizes.push(Sh::new(&[1, n], 3));
    }
    for n in [1000u32, 1023, 1024, 1025, 2049, 4095, 4096, 4097, 5003, 8193, 16385, 33001, 65537, 70001] {
        sizes.push(Sh::new(&[n], 1));
        if n < 10000 {
            sizes.push(Sh::new(&[3, n], 1));
            sizes.push(Sh::new(&[n], 3));
            sizes.push(Sh::new(&[2], n));
        }
    }
    for s in &sizes {
        ctx.case(
            || format!("single {}", s.show()),
            |rec| {
                for big in [false, true] {
                    let mut us = vec![];
                    for k in [0f32, 1., -1., 0.5, -3.25, 1e-30, 1e30, f32::MIN_POSITIVE] {
                        us.extend([U::Mul(k), U::MulDev(k), U::Const(k), U::ConstDev(k)]);
                    }
                    us.extend([U::Slice(1), U::Slice(2), U::Tensor(0), U::Add(0, 0), U::Sub(0, 0), U::Add(0, 1), U::Sub(0, 1)]);
                    for u in us {
                        let mut w = World::new(d, *s, &[*s], 7, big);
                        w.apply(u);
                        rec.step(1);
                        w.check(&format!("{:?}", u))?;
                    }
                }
                let mut w = World::new(d, *s, &[*s], 7, true);
                let n = s.size();
                for len in [0, 1, n - 1, n + 1, n * 2, n / 2, s.vol(), 64, 256] {
                    if len != n {
                        let v = vec![5f32; len];
                        if !panics(|| w.d.reset_tensor_by_slice(&mut w.x, &v)) {
                            return Err(format!("reset with {} values accepted", len));
                        }
                        rec.step(1);
                        w.check("rejected reset by slice")?;
                    }
                }
                // another device
                let f = ten(other, &distinct(*s, 4));
                let fr = forever(&f);
                for i in 0..6 {
                    let ok = match i {
                        0 => panics(|| w.x += fr),
                        1 => panics(|| w.x -= fr),
                        2 => panics(|| w.d.add_assign(fr, &mut w.x)),
                        3 => panics(|| w.d.sub_assign(fr, &mut w.x)),
                        4 => panics(|| w.x += other.copy_tensor(fr)),
                        _ => panics(|| w.x -= other.copy_tensor(fr)),
                    };
                    if !ok {
                        return Err(format!("operand of another device accepted ({})", i));
                    }
                    rec.step(1);
                    w.check("operand of another device")?;
                }
                check_ten("foreign operand", &f, &distinct(*s, 4), Tol::Exact)
            },
        );
    }
    // many batch elements on one or both sides, long and odd volumes
    let batches: Vec<u32> = ctx.pick(
        (4..=40).chain([63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1025, 1501, 4099, 65537]).collect(),
        (4..=300).chain([511, 512, 513, 1000, 1025, 1501, 4097, 4099, 16385, 65535, 65536, 65537, 131075]).collect::<Vec<_>>(),
    );
    for dims in [vec![], vec![2u32], vec![3], vec![1, 5], vec![2, 2, 2], vec![67], vec![16], vec![1009]] {
        for &b in &batches {
            let (one, many) = (Sh::new(&dims, 1), Sh::new(&dims, b));
            if many.size() > ctx.pick(200_000, 700_000) {
                continue;
            }
            for (sx, sy) in [(one, many), (many, one), (many, many)] {
                ctx.case(
                    || format!("batches {} {}", sx.show(), sy.show()),
                    |rec| {
                        for u in [U::Add(0, 0), U::Sub(0, 0), U::Add(0, 2), U::Sub(0, 2)] {
                            // small integers: the sum over the batch is exact
                            let mut w = World::new(d, sx, &[sy], 3, false);
                            rec.step(1);
                            w.apply(u);
                            w.check(&format!("{:?}", u))?;
                        }
                        for bad in [b - 1, b + 1, 2] {
                            if sx.b == sy.b && bad != b {
                                let mut w = World::new(d, sx, &[sx.with_b(bad)], 3, false);
                                rec.step(1);
                                if !panics(|| w.apply(U::Add(0, 0))) || !panics(|| w.apply(U::Sub(0, 0))) {
                                    return Err(format!("operand of batch {} accepted", bad));
                                }
                                w.check("rejected")?;
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
    }
    // sequences: all histories of updates up to a depth, over targets with and without batch
    let depth = ctx.pick(3, 4);
    let dimsets: &[&[u32]] = &[&[], &[3], &[2, 2], &[65]];
    for dims in dimsets {
        for b in [1, 2, 3] {
            let sx = Sh::new(dims, b);
            let mut sy = vec![Sh::new(dims, 1), sx];
            if b == 1 {
                sy.push(Sh::new(dims, 2));
                sy.push(Sh::new(dims, 3));
            }
            let ny = sy.len();
            let mut ops = vec![U::Mul(-2.), U::Mul(0.5), U::Const(3.), U::Slice(9), U::MulDev(0.), U::ConstDev(-1.)];
            for i in 0..ny {
                ops.extend([U::Add(i, 0), U::Sub(i, 0), U::Add(i, 1), U::Sub(i, 2)]);
                if sy[i] == sx {
                    ops.push(U::Tensor(i));
                }
            }
            let n = ops.len();
            for first in 0..n {
                for second in 0..n {
                    ctx.case(
                        || format!("sequences {} {:?} {:?}", sx.show(), ops[first], ops[second]),
                        |rec| {
                            for rest in 0..n.pow(depth - 2) {
                                let mut w = World::new(d, sx, &sy, 11, false);
                                w.apply(ops[first]);
                                w.apply(ops[second]);
                                let mut r = rest;
                                for _ in 2..depth {
                                    w.apply(ops[r % n]);
                                    r /= n;
                                }
                                rec.step(depth as u64);
                                rec.trace(1);
                                w.check("history")?;
                                rec.state(hash64(&(sx, w.mx.iter().map(|v| v.to_bits()).collect::<Vec<_>>())));
                            }
                            Ok(())
                        },
                    );
                }
            }
        }
    }
    // reshaped targets, and aliases as operands
    for (a, b) in [([2u32, 3], [3u32, 2]), ([1, 6], [6, 1]), ([4, 1], [2, 2])] {
        ctx.case(
            || format!("reshaped {:?} {:?}", a, b),
            |rec| {
                for (ba, bb) in [(1u32, 1u32), (2, 2)] {
                    let sa = Sh::new(&a, ba);
                    let sb = Sh::new(&b, bb);
                    let mut w = World::new(d, sa, &[sb, sa], 3, false);
                    w.x.update_shape(sb.shape());
                    w.sx = sb;
                    w.apply(U::Add(0, 0));
                    w.check("after reshaping")?;
                    if sa != sb && !panics(|| w.apply(U::Add(1, 0))) {
                        return Err("operand of the old shape accepted".into());
                    }
                    w.check("after reshaping, rejected")?;
                    let al = Ten::from(forever(&w.ys[0].0));
                    w.x -= &al;
                    w.model_add(0, -1.);
                    w.check("alias as operand")?;
                    w.x += al;
                    w.model_add(0, 1.);
                    w.check("owned alias as operand")?;
                    // batch becomes dimension
                    let sz = sa.size() as u32;
                    w.x.update_shape(Shape::new(&[sz], 1));
                    w.sx = Sh::new(&[sz], 1);
                    w.apply(U::Mul(3.));
                    w.check("flattened")?;
                    rec.step(6);
                }
                Ok(())
            },
        );
    }
}

fn main() {
    run(
        Spec {
            id: "C23",
            level: "model_checking",
            rule: "every pair of target and operand shapes within the bounds through each form of += and -= and reset by \
                   tensor (accepted: exact new contents; rejected: nothing changed), every size for *=, constant and \
                   slice resets with right and wrong lengths, and every history of in-place updates up to the depth",
            assumptions: &["integer-valued data where several batch elements are summed (any order of summation is then exact)"],
        },
        body,
    );
}

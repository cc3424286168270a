//! C06: shapes against a dimension-wise model, in a build with and one without debug assertions.
use mc_core::*;
use prima_undine::{shape, Shape};
use std::collections::{HashMap, VecDeque};

const BUILD: &str = if cfg!(debug_assertions) { "debug" } else { "release" };

fn vol(s: &Sh) -> u128 {
    s.d.iter().map(|&x| x as u128).product()
}

/// Compares everything a shape reports with the model.
fn check(s: &Shape, m: &Sh) -> Result<(), String> {
    let e = |what: &str, got: String, exp: String| -> Result<(), String> {
        if got == exp {
            Ok(())
        } else {
            Err(format!("{} of {}: {} instead of {}", what, m.show(), got, exp))
        }
    };
    let depth = m.depth();
    e("depth", s.depth().to_string(), depth.to_string())?;
    e("dims", format!("{:?}", s.dims()), format!("{:?}", &m.d[..depth as usize]))?;
    e("batch", s.batch().to_string(), m.b.to_string())?;
    e("volume", s.volume().to_string(), vol(m).to_string())?;
    for i in 0..8 {
        e("index", s[i].to_string(), m.d[i as usize].to_string())?;
    }
    for i in 0..10u32 {
        let lv: u128 = m.d[..i.min(8) as usize].iter().map(|&x| x as u128).product();
        e("lower_volume", s.lower_volume(i).to_string(), lv.to_string())?;
    }
    let size = vol(m) * m.b as u128;
    match quiet(|| s.size()) {
        Ok(n) if n as u128 == size => {}
        Ok(n) => return Err(format!("size of {}: {} instead of {}", m.show(), n, size)),
        Err(_) if size > u32::MAX as u128 => {}
        Err(p) => return Err(format!("size of {} rejected: {}", m.show(), p)),
    }
    e("has_batch", s.has_batch().to_string(), (m.b != 1).to_string())?;
    e("is_scalar", s.is_scalar().to_string(), (depth == 0).to_string())?;
    e("is_column_vector", s.is_column_vector().to_string(), (depth <= 1).to_string())?;
    e("is_matrix", s.is_matrix().to_string(), (depth <= 2).to_string())?;
    let fresh = Shape::new(&m.d[..depth as usize], m.b);
    if *s != fresh || fresh != *s {
        return Err(format!("{} obtained by resizing differs from a new one", m.show()));
    }
    if !s.has_same_dims(fresh) || !fresh.has_same_dims(*s) {
        return Err(format!("{} has other dims than a new one", m.show()));
    }
    Ok(())
}

fn pair(a: &Shape, ma: &Sh, b: &Shape, mb: &Sh) -> Result<(), String> {
    let e = |what: &str, got: bool, exp: bool| -> Result<(), String> {
        if got == exp {
            Ok(())
        } else {
            Err(format!("{} of {} and {}: {}", what, ma.show(), mb.show(), got))
        }
    };
    e("==", a == b, ma == mb)?;
    e("has_same_dims", a.has_same_dims(*b), ma.d == mb.d)?;
    e("has_compatible_batch", a.has_compatible_batch(*b), ma.compat(mb))?;
    for dim in 0..8u32 {
        e(
            &format!("has_same_loo_dims({})", dim),
            a.has_same_loo_dims(*b, dim),
            ma.with(dim, 1).d == mb.with(dim, 1).d,
        )?;
    }
    Ok(())
}

#[derive(Clone, Copy, Debug)]
enum Step {
    Dim(u32, u32),
    Batch(u32),
}

/// Model of one step: None if it must be rejected.
fn model(m: &Sh, st: Step) -> Option<Sh> {
    match st {
        Step::Dim(d, n) => {
            if d >= 8 || n == 0 {
                return None;
            }
            let r = m.with(d, n);
            if vol(&r) > u32::MAX as u128 {
                None
            } else {
                Some(r)
            }
        }
        Step::Batch(b) => {
            if b == 0 {
                None
            } else {
                Some(m.with_b(b))
            }
        }
    }
}

fn apply(s: &Shape, st: Step) -> [Result<Shape, String>; 2] {
    let fresh = quiet(|| match st {
        Step::Dim(d, n) => s.resize_dim(d, n),
        Step::Batch(b) => s.resize_batch(b),
    });
    let mut t = *s;
    let r = quiet(|| match st {
        Step::Dim(d, n) => t.update_dim(d, n),
        Step::Batch(b) => t.update_batch(b),
    });
    match r {
        Ok(()) => [fresh, Ok(t)],
        Err(e) => {
            // a rejected update must not leave a broken shape behind
            let same = t == *s && quiet(|| t.dims() == s.dims() && t.volume() == s.volume()).unwrap_or(false);
            [fresh, Err(if same { e } else { "CHANGED".to_string() })]
        }
    }
}

fn step(s: &Shape, m: &Sh, st: Step) -> Result<Option<(Shape, Sh)>, String> {
    let before = *s;
    let rs = apply(s, st);
    if *s != before {
        return Err(format!("{:?} changed its receiver", st));
    }
    match model(m, st) {
        None => {
            for r in &rs {
                match r {
                    Ok(_) => return Err(format!("{} accepted {:?}", m.show(), st)),
                    Err(e) if e == "CHANGED" => {
                        return Err(format!("{} changed by a rejected {:?}", m.show(), st))
                    }
                    _ => {}
                }
            }
            Ok(None)
        }
        Some(n) => {
            let mut out = None;
            for r in rs {
                match r {
                    Err(e) => return Err(format!("{} rejected {:?}: {}", m.show(), st, e)),
                    Ok(t) => {
                        check(&t, &n).map_err(|e| format!("{} after {:?}: {}", m.show(), st, e))?;
                        out = Some(t);
                    }
                }
            }
            Ok(Some((out.unwrap(), n)))
        }
    }
}

fn explore(starts: &[Vec<u32>], dims: &[u32], sizes: &[u32], batches: &[u32], depth: usize, limit: usize, rec: &mut Rec) -> Result<(), String> {
    let mut seen: HashMap<Sh, usize> = HashMap::new();
    let mut q: VecDeque<(Shape, Sh)> = VecDeque::new();
    for d in starts {
        let m = Sh::new(d, 1);
        let s = Shape::new(d, 1);
        check(&s, &m)?;
        if seen.insert(m, 0).is_none() {
            q.push_back((s, m));
        }
    }
    let mut steps = vec![];
    for &d in dims {
        for &n in sizes {
            steps.push(Step::Dim(d, n));
        }
    }
    for &b in batches {
        steps.push(Step::Batch(b));
    }
    while let Some((s, m)) = q.pop_front() {
        let k = seen[&m];
        rec.state(hash64(&(BUILD, m)));
        rec.heartbeat();
        if k >= depth {
            continue;
        }
        for &st in &steps {
            rec.step(1);
            if let Some((t, n)) = step(&s, &m, st)? {
                if !seen.contains_key(&n) && seen.len() < limit {
                    seen.insert(n, k + 1);
                    q.push_back((t, n));
                }
            }
        }
    }
    rec.trace(seen.len() as u64);
    Ok(())
}

/// The forms of the shape! macro with the given list of expressions.
macro_rules! forms {
    ($f:expr; $( $d:expr ),*) => {{
        let want: Vec<u32> = vec![$($d),*];
        $f("plain", shape![$($d),*], &want, 1)?;
        for b in [1u32, 2, 3, 7, 300, u32::MAX] {
            $f("batch", shape![$($d),*; b], &want, b)?;
            $f("computed batch", shape![$($d),*; b / 2 + 1], &want, b / 2 + 1)?;
        }
    }};
}
macro_rules! trailing {
    ($f:expr; $( $d:expr ),*) => {{
        let want: Vec<u32> = vec![$($d),*];
        $f("trailing comma", shape![$($d,)*], &want, 1)?;
    }};
}

fn macro_forms(v: &[u32; 8], rec: &mut Rec) -> Result<(), String> {
    let mut f = |what: &str, s: Shape, dims: &[u32], b: u32| -> Result<(), String> {
        rec.step(1);
        let m = Sh::new(dims, b);
        rec.state(hash64(&(BUILD, "macro", what, dims, b)));
        check(&s, &m).map_err(|e| format!("shape! with {} and {:?}: {}", what, dims, e))
    };
    let [a, b, c, d, e, g, h, i] = *v;
    forms!(f;);
    forms!(f; a);
    forms!(f; a, b);
    forms!(f; a, b, c);
    forms!(f; a, b, c, d);
    forms!(f; a, b, c, d, e);
    forms!(f; a, b, c, d, e, g);
    forms!(f; a, b, c, d, e, g, h);
    forms!(f; a, b, c, d, e, g, h, i);
    forms!(f; a + b - b, b.max(1));
    trailing!(f; a);
    trailing!(f; a, b);
    trailing!(f; a, b, c);
    trailing!(f; a, b, c, d);
    trailing!(f; a, b, c, d, e);
    trailing!(f; a, b, c, d, e, g);
    trailing!(f; a, b, c, d, e, g, h);
    trailing!(f; a, b, c, d, e, g, h, i);
    trailing!(f; a * 2 - a, if b > 1 { b } else { 1 });
    Ok(())
}

fn body(ctx: &mut Ctx) {
    // the macro that writes shapes
    for a in 1..=5u32 {
        ctx.case(
            || format!("{} macro: sizes from {}", BUILD, a),
            |rec| {
                for b in 1..=5u32 {
                    for c in 1..=4u32 {
                        macro_forms(&[a, b, c, b % 2 + 1, a % 3 + 1, 1 + (a + b) % 2, 1, 1 + c % 3], rec)?;
                        macro_forms(&[a, b, c, 1, 1, 1, 1, 1], rec)?;
                        macro_forms(&[1, 1, a, b, 1, c, 1, 1], rec)?;
                    }
                }
                Ok(())
            },
        );
    }
    // construction: every list of up to nine entries over small sizes, and over critical sizes
    let small = [0u32, 1, 2, 3];
    for len in 0..=9usize {
        let alphabet: &[u32] = if len <= ctx.pick(6, 7) { &small } else { &small[..3] };
        let n = alphabet.len().pow(len as u32);
        for chunk in 0..8 {
            ctx.case(
                || format!("{} new: {} entries, part {}", BUILD, len, chunk),
                |rec| {
                    for code in (chunk..n).step_by(8) {
                        let mut c = code;
                        let d: Vec<u32> = (0..len)
                            .map(|_| {
                                let x = alphabet[c % alphabet.len()];
                                c /= alphabet.len();
                                x
                            })
                            .collect();
                        for b in [0u32, 1, 2, 7] {
                            let ok = len <= 8 && !d.contains(&0) && b != 0;
                            match quiet(|| Shape::new(&d, b)) {
                                Ok(_) if !ok => return Err(format!("accepted {:?} batch {}", d, b)),
                                Err(e) if ok => return Err(format!("rejected {:?} batch {}: {}", d, b, e)),
                                Ok(s) => {
                                    check(&s, &Sh::new(&d, b))?;
                                    rec.state(hash64(&(BUILD, &d, b)));
                                }
                                _ => {}
                            }
                            rec.step(1);
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    let big = [1u32, 2, 3, 255, 256, 257, 65535, 65536, 65537, 0x7fffffff, 0x80000000, 0x80000001, u32::MAX - 1, u32::MAX];
    for (i, &x) in big.iter().enumerate() {
        ctx.case(
            || format!("{} new: critical sizes from {}", BUILD, x),
            |rec| {
                for &y in &big {
                    for &z in &big {
                        for at in 0..6usize {
                            let mut d = vec![1u32; 8];
                            d[at] = x;
                            d[at + 1] = y;
                            d[(at + 2 + i % 2) % 8] = z;
                            for b in [1u32, 2, 65536, 0x80000000, u32::MAX] {
                                let m = Sh::new(&d, b);
                                let ok = vol(&m) <= u32::MAX as u128;
                                match quiet(|| Shape::new(&d, b)) {
                                    Ok(_) if !ok => return Err(format!("accepted {:?} batch {}", d, b)),
                                    Err(e) if ok => return Err(format!("rejected {:?} batch {}: {}", d, b, e)),
                                    Ok(s) => {
                                        check(&s, &m)?;
                                        rec.state(hash64(&(BUILD, m)));
                                    }
                                    _ => {}
                                }
                                rec.step(1);
                            }
                        }
                    }
                }
                Ok(())
            },
        );
    }
    // resizing: all states reachable over small sizes, from every start
    let all: Vec<u32> = (0..8).chain([8, 9, u32::MAX]).collect();
    ctx.case(
        || format!("{} resizing: everything reachable with sizes 1 and 2", BUILD),
        |rec| explore(&[vec![]], &all, &[0, 1, 2], &[0, 1, 2, 3], 99, usize::MAX, rec),
    );
    for first in 1..=3u32 {
        // sizes 1..3 in dimensions 0..5, and 1..4 in four dimensions spread over the rank
        ctx.case(
            || format!("{} resizing: sizes 1..3 from {}", BUILD, first),
            |rec| explore(&[vec![first]], &[0, 1, 2, 3, 4, 5, 8], &[0, 1, 2, 3], &[0, 1, 2], 99, usize::MAX, rec),
        );
        ctx.case(
            || format!("{} resizing: sizes 1..4 from {} in dimensions 0 2 6 7", BUILD, first),
            |rec| explore(&[vec![1, 1, first]], &[0, 2, 6, 7, 9], &[0, 1, 2, 3, 4], &[0, 1, 5], 99, usize::MAX, rec),
        );
    }
    if ctx.thorough() {
        ctx.case(
            || format!("{} resizing: everything reachable with sizes 1..3", BUILD),
            |rec| explore(&[vec![]], &all, &[0, 1, 2, 3], &[0, 1, 2], 99, usize::MAX, rec),
        );
    }
    for &x in &big {
        for at in [0u32, 1, 3, 7] {
            ctx.case(
                || format!("{} resizing: critical sizes from {} in dimension {}", BUILD, x, at),
                |rec| {
                    let start = Sh::new(&[], 1).with(at, x);
                    let sizes: Vec<u32> = std::iter::once(0).chain(big).collect();
                    let bs: Vec<u32> = vec![0, 1, 2, 65536, 0x80000000, u32::MAX];
                    explore(&[start.d.to_vec()], &[0, 1, 2, 6, 7, 8], &sizes, &bs, ctx_depth(), usize::MAX, rec)
                },
            );
        }
    }
    // every size and batch of a range, and around every power of two
    let sweep: Vec<u32> = {
        let mut v: Vec<u32> = (1..=ctx.pick(70_000, 1_100_000)).collect();
        for k in 0..32u32 {
            for o in -3i64..=3 {
                let x = (1i64 << k) + o;
                if x > 0 && x <= u32::MAX as i64 {
                    v.push(x as u32);
                }
            }
        }
        v.extend([u32::MAX, u32::MAX - 1, 1_000_000_007, 3_000_000_019]);
        v.sort();
        v.dedup();
        v
    };
    for (i, part) in sweep.chunks(2000).enumerate() {
        ctx.case(
            || format!("{} batches and sizes from {}", BUILD, part[0]),
            |rec| {
                for &n in part {
                    let at = ((n / 3 + i as u32) % 8) as u32;
                    let near = [1, 2, n, n - 1, n.wrapping_add(1), n ^ 0x80, n ^ 0x100, n ^ 0x8000, n ^ 0x10000, n ^ 0x80000000, n & 0xff, n & 0xffff, n >> 8, n >> 16, n / 2, n.swap_bytes()];
                    for dims in [vec![], vec![2, 3]] {
                        let m = Sh::new(&dims, n);
                        let s = Shape::new(&dims, n);
                        check(&s, &m)?;
                        let r = Shape::new(&dims, 3).resize_batch(n);
                        check(&r, &m)?;
                        let mut u = Shape::new(&dims, 1);
                        u.update_batch(n);
                        check(&u, &m)?;
                        for b in near.into_iter().filter(|b| *b > 0) {
                            let o = m.with_b(b);
                            pair(&s, &m, &o.shape(), &o)?;
                            pair(&o.shape(), &o, &r, &m)?;
                        }
                        rec.step(3 + 2 * near.len() as u64);
                    }
                    let m = Sh::new(&[], 1).with(at, n);
                    let s = Shape::new(&m.d, 1);
                    check(&s, &m)?;
                    let mut u = Shape::new(&[], 1);
                    u.update_dim(at, n);
                    check(&u, &m)?;
                    for b in near.into_iter().filter(|b| *b > 0) {
                        for o in [m.with(at, b), Sh::new(&[], 1).with((at + 1) % 8, b), m.with(at, 1).with_b(b)] {
                            pair(&s, &m, &o.shape(), &o)?;
                            pair(&o.shape(), &o, &u, &m)?;
                        }
                    }
                    rec.step(2 + 6 * near.len() as u64);
                    rec.state(hash64(&(BUILD, "sweep", n)));
                    rec.heartbeat();
                }
                Ok(())
            },
        );
    }
    // predicates of pairs of critical sizes
    let mut crit = vec![];
    let cs = [1u32, 2, 255, 256, 257, 65535, 65536, 65537];
    for &x in &cs {
        for &y in &cs {
            for dims in [vec![x, y], vec![1, x, 1, y], vec![x, 1, 2, 1, 1, 1, 1, y]] {
                for b in [1u32, 2, 257, 65537, 0x80000001] {
                    let m = Sh::new(&dims, b);
                    if vol(&m) <= u32::MAX as u128 {
                        crit.push(m);
                    }
                }
            }
        }
    }
    crit.sort_by_key(|s| (s.d, s.b));
    crit.dedup();
    for a in &crit {
        ctx.case(
            || format!("{} critical pairs with {}", BUILD, a.show()),
            |rec| {
                let sa = a.shape();
                for b in &crit {
                    pair(&sa, a, &b.shape(), b)?;
                    rec.step(1);
                }
                rec.state(hash64(&(BUILD, "critical pairs", a)));
                Ok(())
            },
        );
    }
    // predicates of pairs
    let mut shs = all_shapes(ctx.pick(4, 5), 3, 9999, &[1, 2, 3]);
    for d in all_dims(8, 2, 256) {
        shs.push(Sh::new(&d, 1));
    }
    shs.sort_by_key(|s| (s.d, s.b));
    shs.dedup();
    for a in &shs {
        ctx.case(
            || format!("{} pairs with {}", BUILD, a.show()),
            |rec| {
                let sa = a.shape();
                // the same shape reached through a detour
                let via = sa.resize_dim(7, 5).resize_batch(9).resize_dim(7, a.d[7]).resize_batch(a.b);
                for b in &shs {
                    let sb = b.shape();
                    pair(&sa, a, &sb, b)?;
                    pair(&via, a, &sb, b)?;
                    rec.step(2);
                }
                rec.state(hash64(&(BUILD, "pairs", a)));
                Ok(())
            },
        );
    }
}

fn ctx_depth() -> usize {
    if std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false) {
        3
    } else {
        2
    }
}

fn main() {
    run(
        Spec {
            id: "C06",
            level: "model_checking",
            rule: "construction from every list over small and critical sizes; breadth-first exploration of every state \
                   reachable by resize/update of dimensions and batch (accepted and rejected steps), each compared with a \
                   dimension-wise model; every batch and size of a range and around every power of two; every pair of shapes for the predicates; run in a debug and in a release build",
            assumptions: &["predicates take a dimension index below eight"],
        },
        body,
    );
}

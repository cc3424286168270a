//! C20: initializers and random fills, for every answer of the random source. The library is linked
//! against a copy of its random number crate whose generators answer from a script.
use mc_core::*;
use prima_undine::functions::{BasicFunctions, RandomDeviceFunctions};
use prima_undine::initializers::{Constant, Normal, Uniform, XavierUniform};
use prima_undine::{DefaultRandomizer, Initializer, Parameter, Randomizer, Shape};
use rand::script;
use rand_distr::{Distribution, StandardNormal};

#[derive(Clone, Copy, Debug, PartialEq)]
enum D {
    U(f32, f32),
    N(f32, f32),
    B(f32),
    /// log-normal: the randomizer alone offers it
    L(f32, f32),
    C(f32),
    X(f32),
}
use D::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Via {
    Fill,
    Device,
    Init,
}
use Via::*;

fn offered(via: Via, d: D) -> bool {
    match (via, d) {
        (Fill, U(..)) | (Fill, N(..)) | (Fill, B(..)) | (Fill, L(..)) => true,
        (Device, U(..)) | (Device, N(..)) | (Device, B(..)) => true,
        (Init, U(..)) | (Init, N(..)) | (Init, C(..)) | (Init, X(..)) => true,
        _ => false,
    }
}

fn init(d: D) -> Box<dyn Initializer> {
    match d {
        U(a, b) => Box::new(Uniform::new(a, b)),
        N(a, b) => Box::new(Normal::new(a, b)),
        C(k) => Box::new(Constant::new(k)),
        X(k) => Box::new(XavierUniform::new(k)),
        _ => unreachable!(),
    }
}

/// The values of one fill and the words it consumed.
fn draw(dev: Dev, via: Via, d: D, s: Sh, words: &[u64], seed: u64) -> Result<(Vec<f32>, Vec<u64>), String> {
    let n = s.size();
    if via != Fill {
        poison(dev, &[class_of(n)], 2, f32::NAN);
    }
    if seed != 0 {
        script::set(words, seed);
    }
    let r = quiet(|| -> Result<Vec<f32>, String> {
        match via {
            Fill => {
                let mut v = vec![f32::NAN; n + 4];
                let out = &mut v[2..n + 2];
                let mut r = DefaultRandomizer::new();
                match d {
                    U(a, b) => r.fill_uniform(a, b, out),
                    N(a, b) => r.fill_normal(a, b, out),
                    B(p) => r.fill_bernoulli(p, out),
                    L(a, b) => r.fill_log_normal(a, b, out),
                    _ => unreachable!(),
                }
                if [0, 1, n + 2, n + 3].iter().any(|&i| !v[i].is_nan()) {
                    return Err("the fill wrote outside of its slice".into());
                }
                Ok(v[2..n + 2].to_vec())
            }
            Device => {
                let t = match d {
                    U(a, b) => dev.random_uniform(s.shape(), a, b),
                    N(a, b) => dev.random_normal(s.shape(), a, b),
                    B(p) => dev.random_bernoulli(s.shape(), p),
                    _ => unreachable!(),
                };
                check_shape("fill", &t, &s)?;
                Ok(t.to_vec())
            }
            Init => {
                let p: Parameter = dev.new_parameter(s.shape(), &*init(d));
                check_shape("parameter value", &p.value, &s)?;
                check_shape("parameter gradient", &p.gradient, &s)?;
                let g = p.gradient.to_vec();
                if g.iter().any(|&x| x != 0.) {
                    return Err(format!("the gradient starts as {:?}", &g[..g.len().min(8)]));
                }
                if !p.valid() || p.shape() != s.shape() {
                    return Err("the parameter is not valid or has another shape".into());
                }
                let v = p.value.to_vec();
                Ok(v)
            }
        }
    });
    let log = script::stop();
    let v = r.map_err(|e| format!("panicked: {}", e))??;
    if v.len() != n {
        return Err(format!("{} values instead of {}", v.len(), n));
    }
    Ok((v, log))
}

/// What the implementation does with its draws, learnt once: the checks are relative to it.
struct Mode {
    /// normal fills are those of the standard normal distribution for the same words
    normal_ref: bool,
    /// Bernoulli fills are 1 for the low words (instead of the high ones)
    low_ones: bool,
}

fn unit(w: u64) -> f64 {
    w as f64 / 18446744073709551616.
}

fn ref_z(words: &[u64], seed: u64, n: usize) -> Vec<f64> {
    script::set(words, seed);
    let mut r = rand::thread_rng();
    let v = (0..n)
        .map(|_| {
            let z: f64 = StandardNormal.sample(&mut r);
            z
        })
        .collect();
    script::stop();
    v
}

fn learn(dev: Dev) -> Mode {
    let m = (|| -> Result<Mode, String> {
        let s = Sh::new(&[4096], 1);
        let (v, _) = draw(dev, Fill, N(0., 1.), s, &[], 77)?;
        let z = ref_z(&[], 77, 4096);
        let same = v.iter().zip(&z).filter(|(a, b)| (**a as f64 - **b).abs() < 1e-5).count();
        let (b, _) = draw(dev, Fill, B(0.5), Sh::new(&[1], 1), &[0], 77)?;
        Ok(Mode { normal_ref: same > 2048, low_ones: b[0] == 1. })
    })();
    m.unwrap_or(Mode { normal_ref: true, low_ones: true })
}

fn ulp(x: f32) -> f64 {
    let a = x.abs();
    if a < f32::MIN_POSITIVE {
        return f32::from_bits(1) as f64;
    }
    (f32::from_bits(a.to_bits() + 1) - a) as f64
}

/// every value comes from a word of its own
fn own_words(v: &[f32], expected: impl Fn(u64) -> f64, tol: f64, log: &[u64]) -> Result<(), String> {
    let mut a: Vec<f64> = v.iter().map(|x| *x as f64).collect();
    let mut e: Vec<f64> = log.iter().map(|w| expected(*w)).collect();
    a.sort_by(|x, y| x.total_cmp(y));
    e.sort_by(|x, y| x.total_cmp(y));
    let mut k = 0;
    for x in a {
        while k < e.len() && e[k] < x - tol {
            k += 1;
        }
        if k == e.len() || e[k] > x + tol {
            return Err(format!("no draw of its own gives the value {:?} (draws give {:?})", x, &e[..e.len().min(12)]));
        }
        k += 1;
    }
    Ok(())
}

fn uniform_ok(v: &[f32], l: f32, u: f32, log: &[u64]) -> Result<(), String> {
    for x in v {
        if !(*x >= l && *x < u) {
            return Err(format!("{:?} is not in [{:?}, {:?})", x, l, u));
        }
    }
    let range = u as f64 - l as f64;
    if log.is_empty() || !((u - l).is_finite()) {
        return Ok(());
    }
    let tol = range / 4194304. + 2. * ulp(l).max(ulp(u));
    own_words(v, |w| l as f64 + range * unit(w), tol, log)
}

fn bernoulli_ok(m: &Mode, v: &[f32], p: f32, log: &[u64], words: &[u64]) -> Result<(), String> {
    for x in v {
        if *x != 0. && *x != 1. {
            return Err(format!("{:?} is neither 0 nor 1", x));
        }
        if (p == 0. && *x != 0.) || (p == 1. && *x != 1.) {
            return Err(format!("{:?} for probability {}", x, p));
        }
    }
    if p == 0. || p == 1. || log.is_empty() {
        return Ok(());
    }
    // words whose outcome is settled, in the order of the elements
    if log.len() == v.len() {
        for (i, w) in log.iter().enumerate() {
            let q = if m.low_ones { unit(*w) } else { 1. - unit(*w) };
            if q < p as f64 - 1e-6 && v[i] != 1. || q > p as f64 + 1e-6 && v[i] != 0. {
                return Err(format!("element {} is {} for draw {:?} and probability {} (script {:x?})", i, v[i], q, p, words));
            }
        }
    }
    Ok(())
}

fn normal_ok(m: &Mode, dev: Dev, v: &[f32], d: D, words: &[u64], seed: u64) -> Result<(), String> {
    let (mean, sd, log) = match d {
        N(a, b) => (a, b, false),
        L(a, b) => (a, b, true),
        _ => unreachable!(),
    };
    let z = if m.normal_ref {
        ref_z(words, seed, v.len())
    } else {
        let (z, _) = draw(dev, Fill, N(0., 1.), Sh::new(&[v.len() as u32], 1), words, seed)?;
        z.iter().map(|x| *x as f64).collect()
    };
    for i in 0..v.len() {
        let zf = z[i] as f32 as f64;
        let mut e = mean as f64 + sd as f64 * zf;
        let mut tol = (mean.abs() as f64 + (sd as f64 * zf).abs()) * 4e-7 + 1e-44;
        if log {
            if e > 88.8 && v[i] == f32::INFINITY {
                continue;
            }
            tol = e.exp() * (tol + 1e-6) + 1e-44;
            e = e.exp();
        }
        if !((v[i] as f64 - e).abs() <= tol) {
            return Err(format!(
                "element {} is {:?}, expected {:?} (standard normal value {:?}, mean {:?}, sd {:?})",
                i, v[i], e, zf, mean, sd
            ));
        }
    }
    Ok(())
}

fn judge(m: &Mode, dev: Dev, via: Via, d: D, s: Sh, words: &[u64], seed: u64, rec: &mut Rec) -> Result<(), String> {
    let (v, log) = draw(dev, via, d, s, words, seed)?;
    rec.step(v.len() as u64);
    if log.is_empty() && !matches!(d, C(_)) && !matches!(d, B(p) if p == 0. || p == 1.) {
        rec.outcome("source not consulted");
    }
    match d {
        U(l, u) => uniform_ok(&v, l, u, &log),
        N(..) | L(..) => normal_ok(m, dev, &v, d, words, seed),
        B(p) => bernoulli_ok(m, &v, p, &log, words),
        C(k) => match v.iter().position(|x| x.to_bits() != k.to_bits()) {
            Some(i) => Err(format!("element {} is {:?} instead of {:?}", i, v[i], k)),
            None => Ok(()),
        },
        X(k) => {
            let b = k as f64 * (6. / (s.dim(0) as f64 + s.dim(1) as f64)).sqrt();
            let bound = b as f32;
            for x in &v {
                if !(x.abs() as f64 <= b * (1. + 1e-6)) {
                    return Err(format!("{:?} is beyond the bound {:?}", x, b));
                }
            }
            let tol = 2. * b / 4194304. + 4. * ulp(bound);
            if log.is_empty() {
                return Ok(());
            }
            own_words(&v, |w| -b + 2. * b * unit(w), tol, &log)
        }
    }
    .map_err(|e| format!("{:?} {:?} {} words {:x?}: {}", via, d, s.show(), &words[..words.len().min(8)], e))
}

/// words that decide something for this distribution
fn alphabet(d: D, rich: bool) -> Vec<u64> {
    let mut a = vec![0, u64::MAX, 1 << 63, (1 << 63) - 1];
    match d {
        U(..) | X(..) => {
            a.extend([0xffff_fe00_0000_0000, 0xffff_ffff_0000_0000, 0x0000_0200_0000_0000, 0x4000_0000_0000_0000]);
            if rich {
                a.extend([0x0000_01ff_ffff_ffff, 0x7fff_ff00_0000_0000, 0xc000_0000_0000_0001, 0x5555_5555_5555_5555, 0xffff_fc00_0000_0000, 1]);
            }
        }
        B(p) => {
            let t = p as f64;
            for q in [t - 1e-4, t - 2e-6, t + 2e-6, t + 1e-4, t / 2., (1. + t) / 2.] {
                if q > 0. && q < 1. {
                    a.push((q * 18446744073709551616.) as u64);
                }
            }
            if rich {
                a.extend([0xff, 0xffff_ffff, 0xffff_ffff_0000_0000]);
            }
        }
        N(..) | L(..) => {
            // layer 0 with extreme positions (the tail), an inner layer, rejected positions
            a = vec![0, u64::MAX, 0xffff_ffff_ffff_ff00, 0x8000_0000_0000_0000, 0x7fff_ffff_ffff_ff80, 0x0000_0000_0000_00ff, 0x1234_5678_9abc_de01];
            if rich {
                a.extend([0x0000_0000_0000_0001, 0xffff_ffff_ffff_f001, 0xc000_0000_0000_007f, 1 << 63 | 0xff]);
            }
        }
        C(_) => a = vec![0],
    }
    a.sort();
    a.dedup();
    a
}

fn dists(rich: bool) -> Vec<D> {
    let mut v = vec![
        U(0., 1.), U(-1., 1.), U(-3.5, -1.25), U(0., f32::MIN_POSITIVE), U(1., f32::from_bits(1.0f32.to_bits() + 1)),
        U(-1e30, 1e30), U(1e6, 1e6 + 1.), U(-1e-30, 2e-30), U(f32::MIN, f32::MAX),
        N(0., 1.), N(2.5, 3.), N(-1., 0.), N(1e6, 1e-3), N(0., 1e-20), N(-5., 1e10), N(0.5, 0.5),
        B(0.), B(1.), B(0.5), B(0.25), B(0.9), B(1e-3), B(0.999),
        L(0., 1.), L(1.5, 0.25), L(-3., 2.), L(0.5, 0.), L(0., 10.),
        C(0.), C(1.5), C(-0.), C(f32::MIN_POSITIVE), C(-3e38), C(f32::INFINITY), C(f32::NAN),
        X(1.), X(0.5), X(3.), X(1e-20), X(1e20),
    ];
    if rich {
        for k in 1..16 {
            let k = k as f32;
            v.extend([U(-k, k * 0.5), U(k - 0.5, k), N(k, k * 0.1), N(-k, 10. / k), B(k / 16.), B(1. / (k * 7.)), L(k * 0.3, 1. / k), X(k * 0.37), C(k)]);
        }
    }
    v
}

fn body(ctx: &mut Ctx) {
    let dev = leaked_naive();
    let m = learn(dev);
    let m = &m;
    let seed = ctx.seed * 2 + 1;
    let rich = ctx.thorough();
    let vias = [Fill, Device, Init];
    // 1. every tuple of words over the alphabet
    for d in dists(rich) {
        for via in vias {
            if !offered(via, d) {
                continue;
            }
            let al = alphabet(d, rich);
            // one step of rounding between the bounds: the rand crate searches long for its scale
            let slow = matches!(d, U(a, _) if a == 1.);
            let max = if slow { 1 } else if rich { 4 } else { 3 };
            for n in 1..=max {
                ctx.case(
                    || format!("words {:?} {:?} n{}", via, d, n),
                    |rec| {
                        let k = al.len();
                        // an element may take two words
                        let total = k.pow(n as u32);
                        for code in 0..total {
                            let mut c = code;
                            let words: Vec<u64> = (0..n)
                                .map(|_| {
                                    let w = al[c % k];
                                    c /= k;
                                    w
                                })
                                .collect();
                            for s in [Sh::new(&[n as u32], 1), Sh::new(&[1, n as u32], 1), Sh::new(&[], n as u32)] {
                                if via == Init && s.b > 1 || (via == Fill && s.d[0] != n as u32) {
                                    continue;
                                }
                                judge(m, dev, via, d, s, &words, seed, rec)?;
                                rec.trace(1);
                                rec.state(hash64(&(code, n, s.b, s.d[0])) ^ hash64(&format!("{:?}{:?}", via, d)));
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
    }
    // 2. every shape
    let shs = {
        let mut v = all_shapes(4, 4, ctx.pick(36, 100), &[1, 2, 3]);
        for n in [63u32, 64, 65, 127, 128, 129, 1000, 4097, 20000] {
            v.push(Sh::new(&[n], 1));
            v.push(Sh::new(&[1, n], 2));
        }
        v.push(Sh::new(&[1, 1, 1, 1, 1, 1, 1, 5], 2));
        v
    };
    for d in dists(rich) {
        for via in vias {
            if !offered(via, d) {
                continue;
            }
            ctx.case(
                || format!("shapes {:?} {:?}", via, d),
                |rec| {
                    for (i, s) in shs.iter().enumerate() {
                        rec.heartbeat();
                        if matches!(d, U(a, _) if a == 1.) && i % 13 != 0 {
                            continue;
                        }
                        if via == Init && s.b > 1 {
                            continue;
                        }
                        if via == Init && matches!(d, X(_)) && !s.matrix() {
                            if !panics(|| dev.new_parameter(s.shape(), &*init(d))) {
                                return Err(format!("Xavier initialisation of {} was not rejected", s.show()));
                            }
                            rec.outcome("rejected");
                            continue;
                        }
                        judge(m, dev, via, d, *s, &[], hash64(&(seed, s.show())) | 1, rec)?;
                        rec.trace(1);
                        rec.state(hash64(&format!("{}{:?}{:?}", s.show(), via, d)));
                    }
                    Ok(())
                },
            );
        }
    }
    // 3. every matrix for Xavier, every number of rows and columns
    let top = ctx.pick(24u32, 64);
    for r in 1..=top {
        ctx.case(
            || format!("xavier rows{}", r),
            |rec| {
                for c in 1..=top {
                    for k in [1f32, 2.5, 1e-3] {
                        let n = (r * c) as usize;
                        let mut words = vec![0, u64::MAX, 1 << 63];
                        words.truncate(n);
                        judge(m, dev, Init, X(k), Sh::new(&[r, c], 1), &words, seed + r as u64, rec)?;
                        rec.trace(1);
                        rec.state(hash64(&(r, c, k.to_bits())));
                    }
                }
                Ok(())
            },
        );
    }
    // wide, tall and large matrices: the bound depends on both sides; sides around powers of two
    let mut big: Vec<(u32, u32)> = vec![(1, 65535), (65536, 1), (65537, 1), (1, 70001), (40000, 2), (2, 33000), (300, 300), (257, 513)];
    for n in [127u32, 128, 255, 256, 257, 511, 512, 1023, 1025, 4095, 4097, 32767, 32769] {
        big.extend([(n, 1), (1, n), (n, 3), (2, n)]);
    }
    if ctx.thorough() {
        big.extend([(131073, 2), (1, 1048577), (1000, 1000), (3, 400001)]);
    }
    for (r, c) in big {
        ctx.case(
            || format!("xavier {}x{}", r, c),
            |rec| {
                for k in [1f32, 2.5] {
                    judge(m, dev, Init, X(k), Sh::new(&[r, c], 1), &[0, u64::MAX, 1 << 63], seed + r as u64, rec)?;
                    rec.trace(1);
                    rec.state(hash64(&(r, c, k.to_bits(), "wide")));
                }
                Ok(())
            },
        );
    }
    // large fills
    for (dims, b) in [(vec![70001u32], 1u32), (vec![3], 30001), (vec![257, 263], 1)] {
        let s = Sh::new(&dims, b);
        for d in dists(rich) {
            for via in vias {
                if !offered(via, d) || matches!(d, X(_)) || matches!(d, U(a, _) if a == 1.) || via == Init && s.b > 1 {
                    continue;
                }
                ctx.case(
                    || format!("large fill {} {:?} {:?}", s.show(), via, d),
                    |rec| {
                        judge(m, dev, via, d, s, &[0, u64::MAX], seed + 9, rec)?;
                        rec.trace(1);
                        rec.state(hash64(&format!("large {} {:?} {:?}", s.show(), via, d)));
                        Ok(())
                    },
                );
            }
        }
    }
    // 4. sweeps over all positions of a word
    for (l, u) in [(0f32, 1f32), (-1., 1.), (-2.5, 7.), (1e-3, 1.1e-3), (100., 100.001)] {
        let bits = ctx.pick(16u32, 23);
        for part in 0..16u64 {
            ctx.case(
                || format!("sweep uniform {} {} part{}", l, u, part),
                |rec| {
                    let n = 1u64 << (bits - 4);
                    let words: Vec<u64> = (0..n).map(|i| ((part * n + i) << (64 - bits)) | (i.wrapping_mul(0x9e3779b97f4a7c15) >> bits)).collect();
                    judge(m, dev, if part % 2 == 0 { Fill } else { Device }, U(l, u), Sh::new(&[n as u32], 1), &words, seed, rec)?;
                    rec.trace(n);
                    for w in &words {
                        rec.state(*w ^ hash64(&(l.to_bits(), u.to_bits())));
                    }
                    Ok(())
                },
            );
        }
    }
    let per = ctx.pick(64u64, 1024);
    for layer in 0..256u64 {
        ctx.case(
            || format!("sweep normal layer{}", layer),
            |rec| {
                for p in 0..per {
                    for next in [0, u64::MAX, 1 << 63, 0x9999_9999_9999_9999] {
                        let w = (p << 58).wrapping_mul(1).wrapping_add(p.wrapping_mul(0x0123_4567_89ab_cdef)) & !0xff | layer;
                        let words = [w, next, w ^ 0x8000_0000_0000_0000];
                        for d in [N(0., 1.), N(3., 2.), L(0.25, 0.5)] {
                            judge(m, dev, Fill, d, Sh::new(&[2], 1), &words, seed + p, rec)?;
                            rec.trace(1);
                        }
                        rec.state(hash64(&words));
                    }
                }
                Ok(())
            },
        );
    }
    // 5. the fraction of ones and the shape of the normal distribution over an even sweep
    for p in [0f32, 1e-4, 0.01, 0.1, 0.3, 0.5, 0.7, 0.99, 0.9999, 1.] {
        ctx.case(
            || format!("fraction bernoulli {}", p),
            |rec| {
                let n = ctx_n(rich);
                let words: Vec<u64> = (0..n).map(|i| (i as u64) << (64 - n.trailing_zeros())).collect();
                for via in [Fill, Device] {
                    let (v, _) = draw(dev, via, B(p), Sh::new(&[n as u32], 1), &words, seed)?;
                    let ones = v.iter().filter(|x| **x == 1.).count() as f64;
                    rec.step(n as u64);
                    if (ones - p as f64 * n as f64).abs() > 2.5 {
                        return Err(format!("{:?}: {} of {} evenly spaced draws give 1 for probability {}", via, ones, n, p));
                    }
                }
                rec.trace(2);
                Ok(())
            },
        );
    }
    for part in 0..8u64 {
        ctx.case(
            || format!("distribution normal part{}", part),
            |rec| {
                let n = 1usize << ctx_n(rich).trailing_zeros().min(18);
                let (v, _) = draw(dev, if part % 2 == 0 { Fill } else { Device }, N(0., 1.), Sh::new(&[n as u32], 1), &[], 1000 + part)?;
                rec.step(n as u64);
                // P(Z <= t)
                for (t, q) in [(-3.0, 0.00134990), (-2.0, 0.02275013), (-1.0, 0.15865525), (-0.5, 0.30853754), (0.0, 0.5), (0.5, 0.69146246), (1.0, 0.84134475), (2.0, 0.97724987), (3.0, 0.99865010)] {
                    let f = v.iter().filter(|x| **x as f64 <= t).count() as f64;
                    let e = q * n as f64;
                    if (f - e).abs() > 6. * (e * (1. - q)).sqrt() + 1. {
                        return Err(format!("{} of {} draws are at most {}, expected about {}", f, n, t, e));
                    }
                }
                Ok(())
            },
        );
    }
    // 6. invalid arguments are rejected, and the device goes on working
    for via in vias {
        ctx.case(
            || format!("invalid {:?}", via),
            |rec| {
                let nan = f32::NAN;
                let inf = f32::INFINITY;
                for d in [
                    B(-0.1), B(1.1), B(nan), B(inf), B(-1e-30), B(f32::from_bits(1.0f32.to_bits() + 1)),
                    U(1., 1.), U(1., 0.), U(nan, 1.), U(0., nan), U(0., inf), U(-inf, 0.), U(0., -0.),
                    N(0., -1.), N(0., nan), N(0., -1e-30), L(0., -1.), L(1., nan), X(0.), X(-1.), X(nan), X(inf),
                ] {
                    if !offered(via, d) {
                        continue;
                    }
                    for n in [1u32, 3, 70] {
                        let s = Sh::new(&[n], 1);
                        let by = ten(dev, &distinct(Sh::new(&[n], 1), 5));
                        let before = by.to_vec();
                        let r = quiet(|| match via {
                            Fill => {
                                let mut v = vec![7f32; n as usize];
                                let mut r = DefaultRandomizer::new();
                                match d {
                                    U(a, b) => r.fill_uniform(a, b, &mut v),
                                    N(a, b) => r.fill_normal(a, b, &mut v),
                                    B(p) => r.fill_bernoulli(p, &mut v),
                                    L(a, b) => r.fill_log_normal(a, b, &mut v),
                                    _ => unreachable!(),
                                }
                            }
                            Device => match d {
                                U(a, b) => drop(dev.random_uniform(s.shape(), a, b)),
                                N(a, b) => drop(dev.random_normal(s.shape(), a, b)),
                                B(p) => drop(dev.random_bernoulli(s.shape(), p)),
                                _ => unreachable!(),
                            },
                            Init => drop(dev.new_parameter(s.shape(), &*init(d))),
                        });
                        if r.is_ok() {
                            return Err(format!("{:?} {:?} was not rejected", via, d));
                        }
                        if by.to_vec() != before {
                            return Err(format!("{:?} {:?} changed another tensor", via, d));
                        }
                        for g in [U(0., 1.), N(1., 2.), B(0.5), C(2.)] {
                            if offered(via, g) {
                                judge(m, dev, via, g, s, &[3, u64::MAX], seed, rec).map_err(|e| format!("after {:?}: {}", d, e))?;
                            }
                        }
                        rec.trace(1);
                        rec.state(hash64(&format!("{:?}{:?}{}", via, d, n)));
                    }
                }
                Ok(())
            },
        );
    }
    // 7. without a script: fills are not repeated, on one device, on two, on two threads
    for d in [U(0., 1.), N(0., 1.), B(0.5), L(0., 1.), X(1.)] {
        for via in vias {
            if !offered(via, d) {
                continue;
            }
            ctx.case(
                || format!("unscripted {:?} {:?}", via, d),
                |rec| {
                    let s = Sh::new(&[32, 32], 1);
                    let d2 = leaked_naive();
                    let mut all: Vec<Vec<f32>> = vec![];
                    for k in 0..6 {
                        all.push(draw(if k % 2 == 0 { dev } else { d2 }, via, d, s, &[], 0)?.0);
                    }
                    let h: Vec<_> = (0..3)
                        .map(|_| std::thread::spawn(move || draw(leaked_naive(), via, d, s, &[], 0).map(|x| x.0)))
                        .collect();
                    for h in h {
                        all.push(h.join().map_err(|_| "panic in a thread")??);
                    }
                    for i in 0..all.len() {
                        for j in 0..i {
                            if all[i] == all[j] {
                                return Err(format!("two fills of 1024 elements are identical ({} and {})", j, i));
                            }
                            // a constant or periodic fill
                        }
                        for period in [1usize, 2, 32, 64, 512] {
                            if (0..1024 - period).all(|k| all[i][k] == all[i][k + period]) {
                                return Err(format!("a fill repeats with period {}", period));
                            }
                        }
                        rec.step(1024);
                    }
                    Ok(())
                },
            );
        }
    }
    let _ = Shape::new(&[], 1);
}

fn ctx_n(rich: bool) -> usize {
    if rich {
        1 << 20
    } else {
        1 << 15
    }
}

fn main() {
    run(
        Spec {
            id: "C20",
            level: "model_checking",
            rule: "every tuple of answers of the random source over an alphabet of deciding words, per distribution, \
                   argument, entry point and element count; every shape; every matrix size for Xavier; sweeps of the word \
                   range and of all ziggurat layers; invalid arguments; repetition without a script",
            assumptions: &[
                "the library draws from the generators of the rand crate (else only ranges and statistics are checked)",
            ],
        },
        body,
    );
}

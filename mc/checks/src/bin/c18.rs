//! C18: saving and loading. Every small shape and value pattern through several formats and
//! repeated cycles; parameters with every kind of optimizer state; models; every step of a training
//! history as the checkpoint; damaged data.
use mc_core::*;
use prima_undine::functions::BasicFunctions;
use prima_undine::initializers::Constant;
use prima_undine::optimizers::{Adam, MomentumSGD, SGD};
use prima_undine::{Model, Node, Optimizer, Parameter, Shape, Tensor};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};

const FORMATS: usize = 7;

/// Saves and loads in one of the formats.
fn cycle<T: Serialize + DeserializeOwned>(x: &T, f: usize) -> Result<T, String> {
    match f {
        0 => {
            let s = serde_json::to_string(x).map_err(|e| format!("saving as JSON: {}", e))?;
            serde_json::from_str(&s).map_err(|e| format!("loading JSON: {} from {}", e, s))
        }
        1 => {
            // also checks that the order of fields does not matter (objects are sorted maps)
            let v = serde_json::to_value(x).map_err(|e| format!("saving as a JSON value: {}", e))?;
            serde_json::from_value(v.clone()).map_err(|e| format!("loading a JSON value: {} from {}", e, v))
        }
        2 => {
            let mut b = vec![];
            ciborium::ser::into_writer(x, &mut b).map_err(|e| format!("saving as CBOR: {}", e))?;
            ciborium::de::from_reader(&b[..]).map_err(|e| format!("loading CBOR: {}", e))
        }
        3 => {
            let s = serde_json::to_vec_pretty(x).map_err(|e| format!("saving as JSON: {}", e))?;
            serde_json::from_reader(&s[..]).map_err(|e| format!("loading JSON: {}", e))
        }
        5 => {
            // no names and no structure: fields must be read in the order they are written
            let b = bincode::serialize(x).map_err(|e| format!("saving as bincode: {}", e))?;
            bincode::deserialize_from(&b[..]).map_err(|e| format!("loading bincode: {}", e))
        }
        6 => {
            let s = ron::to_string(x).map_err(|e| format!("saving as RON: {}", e))?;
            ron::from_str(&s).map_err(|e| format!("loading RON: {}", e))
        }
        _ => {
            let v = serde_json::to_value(x).map_err(|e| format!("saving as a JSON value: {}", e))?;
            let s = rev(&v);
            serde_json::from_str(&s).map_err(|e| format!("loading reordered JSON: {} from {}", e, s))
        }
    }
}

/// JSON text with the fields of every object in reverse order
fn rev(v: &serde_json::Value) -> String {
    use serde_json::Value::{Array, Object};
    match v {
        Object(m) => {
            let mut f: Vec<std::string::String> =
                m.iter().map(|(k, v)| format!("{}:{}", serde_json::to_string(k).unwrap(), rev(v))).collect();
            f.reverse();
            format!("{{{}}}", f.join(","))
        }
        Array(a) => format!("[{}]", a.iter().map(rev).collect::<Vec<_>>().join(",")),
        x => x.to_string(),
    }
}

fn fname(f: usize) -> &'static str {
    ["JSON", "JSON value", "CBOR", "pretty JSON", "reordered JSON", "bincode", "RON"][f]
}

const SPECIAL: [u32; 22] = [
    0x0000_0000, 0x8000_0000, 0x0000_0001, 0x8000_0001, 0x007f_ffff, 0x0080_0000, 0x0080_0001, 0x7f7f_ffff, 0xff7f_ffff,
    0x3f80_0000, 0x3f80_0001, 0x3f7f_ffff, 0x3eaa_aaab, 0x3dcc_cccd, 0x4b80_0000, 0x4b80_0001, 0x4f00_0000, 0x5f00_0000,
    0x7e96_7699, 0x0da2_4260, 0x4019_999a, 0xc2f6_e979,
];

fn pattern(n: usize, k: usize) -> Vec<f32> {
    (0..n)
        .map(|i| match k {
            0 => f32::from_bits(SPECIAL[i % SPECIAL.len()]),
            1 => f32::from_bits(SPECIAL[(i * 7 + 3) % SPECIAL.len()]),
            2 => i as f32 + 0.5,
            _ => {
                // all exponents and irregular mantissas, always finite
                let x = ((i as u64 + 1) * 2654435761 + k as u64 * 40503) as u32;
                let e = (x >> 23 & 0xff) % 255;
                f32::from_bits((x & 0x807f_ffff) | e << 23)
            }
        })
        .collect()
}

fn bits(v: &[f32]) -> Vec<u32> {
    v.iter().map(|x| x.to_bits()).collect()
}

fn same(what: &str, t: &Ten, shape: Shape, v: &[f32]) -> Result<(), String> {
    if t.shape() != shape || t.shape().batch() != shape.batch() || t.shape().size() != shape.size() {
        return Err(format!("{}: shape {:?} instead of {:?}", what, t.shape(), shape));
    }
    let got = t.to_vec();
    if bits(&got) != bits(v) {
        return Err(format!("{}: {:?} instead of {:?}", what, got, v));
    }
    Ok(())
}

fn tensor_case(d: Dev, e: Dev, s: Sh, k: usize, rec: &mut Rec) -> Result<(), String> {
    let v = pattern(s.size(), k);
    let t = d.new_tensor_by_slice(s.shape(), &v);
    let c = class_of(s.size());
    for f in 0..FORMATS {
        let mut cur: Ten = cycle(&t, f)?;
        poison(e, &[c], 3, f32::NAN);
        cur.move_to_device(e);
        same(fname(f), &cur, s.shape(), &v)?;
        if !std::ptr::eq(cur.device(), e) {
            return Err("loaded on another device".to_string());
        }
        // save what was loaded in every other format
        for g in 0..FORMATS {
            let mut again: Ten = cycle(&cur, g)?;
            again.move_to_device(d);
            same(&format!("{} then {}", fname(f), fname(g)), &again, s.shape(), &v)?;
        }
        rec.step(1 + FORMATS as u64);
    }
    same("the saved tensor", &t, s.shape(), &v)?;
    // an alias saves the values it refers to
    {
        let a: Ten = Tensor::from(forever(&t));
        let mut l: Ten = cycle(&a, 0)?;
        l.move_to_device(d);
        same("alias", &l, s.shape(), &v)?;
    }
    let sh: Shape = s.shape();
    for f in 0..FORMATS {
        let l: Shape = cycle(&sh, f)?;
        if l != sh || l.size() != sh.size() || l.volume() != sh.volume() || l.depth() != sh.depth() || l.batch() != sh.batch() {
            return Err(format!("shape {:?} loaded from {} is {:?}", sh, fname(f), l));
        }
    }
    Ok(())
}

/// the whole visible state of a parameter
type Snap = Vec<(String, Shape, Vec<u32>)>;

fn snap(p: &Parameter<'static>) -> Snap {
    let mut v = vec![
        ("value".to_string(), p.value.shape(), bits(&p.value.to_vec_any())),
        ("gradient".to_string(), p.gradient.shape(), bits(&p.gradient.to_vec_any())),
    ];
    let mut names: Vec<&String> = p.stats.keys().collect();
    names.sort();
    for n in names {
        let t = p.stats[n].borrow();
        v.push((n.clone(), t.shape(), bits(&t.to_vec())));
    }
    v
}

fn snap_eq(what: &str, a: &Snap, b: &Snap) -> Result<(), String> {
    if a == b {
        return Ok(());
    }
    let show = |s: &Snap| {
        s.iter()
            .map(|(n, sh, v)| {
                format!("{} {:?} {:?}", n, sh, v.iter().take(8).map(|x| f32::from_bits(*x)).collect::<Vec<_>>())
            })
            .collect::<Vec<_>>()
            .join("; ")
    };
    Err(format!("{}: [{}] instead of [{}]", what, show(b), show(a)))
}

fn param(d: Dev, s: Sh, stats: usize, k: usize) -> Parameter<'static> {
    let mut p = d.new_parameter(s.shape(), &Constant::new(0.));
    d.reset_tensor_by_slice(&mut p.value, &pattern(s.size(), k));
    d.reset_tensor_by_slice(&mut p.gradient, &pattern(s.size(), k + 1));
    let fill = |p: &mut Parameter<'static>, name: &str, sh: Sh, k| {
        p.add_stat(name, sh.shape());
        let mut t = p.stats[name].borrow_mut();
        d.reset_tensor_by_slice(&mut t, &pattern(sh.size(), k));
    };
    match stats {
        0 => {}
        1 => fill(&mut p, "MomentumSGD.m", s, k + 2),
        2 => {
            fill(&mut p, "Adam.m1", s, k + 2);
            fill(&mut p, "Adam.m2", s, k + 3);
        }
        n if n >= 4 => {
            // as many statistics as the number says
            for i in 0..n {
                fill(&mut p, &format!("stat.{}", i), if i % 3 == 1 { Sh::new(&[1 + i as u32 % 5], 1) } else { s }, k + i);
            }
        }
        _ => {
            // anything may be stored: other shapes, odd names
            fill(&mut p, "", Sh::new(&[3, 2], 2), k + 2);
            fill(&mut p, "Adam.m1", s, k + 3);
            fill(&mut p, "\"a\\\u{e9} b\"", Sh::new(&[], 1), k + 1);
            fill(&mut p, "value", Sh::new(&[70], 1), 3);
        }
    }
    p
}

fn param_case(d: Dev, e: Dev, s: Sh, stats: usize, k: usize, rec: &mut Rec) -> Result<(), String> {
    let p = param(d, s, stats, k);
    let want = snap(&p);
    for f in 0..FORMATS {
        for g in [FORMATS, 0, 2] {
            let mut q: Parameter<'static> = cycle(&p, f)?;
            poison(e, &[64, 128], 6, f32::NAN);
            q.move_to_device(e);
            snap_eq(fname(f), &want, &snap(&q))?;
            if g < FORMATS {
                let mut r: Parameter<'static> = cycle(&q, g)?;
                r.move_to_device(d);
                snap_eq(&format!("{} then {}", fname(f), fname(g)), &want, &snap(&r))?;
                q = r;
            }
            // usable: a graph adds to its gradient, statistics are its own
            q.reset_gradient();
            {
                let n: Nd = Node::from(forever_mut(&mut q));
                (n * 0.5).flatten().sum(0).backward();
            }
            if q.gradient.to_vec_any().iter().any(|x| *x != 0.5) {
                return Err(format!("a loaded parameter gets gradient {:?}", q.gradient.to_vec_any()));
            }
        }
        rec.step(3);
    }
    snap_eq("the saved parameter", &want, &snap(&p))
}

// --- models

#[derive(Serialize, Deserialize, Model)]
struct Layer<'dev> {
    w: Parameter<'dev>,
    b: Parameter<'dev>,
    #[parameter(skip)]
    width: u32,
}

#[derive(Serialize, Deserialize, Model)]
struct Net<'dev> {
    layers: Vec<Layer<'dev>>,
    #[parameter(skip)]
    #[serde(rename = "w")]
    name: String,
    out: Layer<'dev>,
    loose: Vec<Parameter<'dev>>,
    head: Parameter<'dev>,
}

fn layer(d: Dev, n: u32, m: u32, k: usize) -> Layer<'static> {
    Layer {
        w: param(d, Sh::new(&[n, m], 1), k % 4, 3 + k),
        b: param(d, Sh::new(&[n], 1), (k + 1) % 4, 2 + k),
        width: n,
    }
}

fn net(d: Dev, layers: usize, loose: usize) -> Net<'static> {
    Net {
        layers: (0..layers).map(|i| layer(d, 1 + i as u32, 2, i)).collect(),
        name: "a net".to_string(),
        out: layer(d, 3, 1, 5),
        loose: (0..loose).map(|i| param(d, Sh::new(&[1 + i as u32], 1), i % 4, i)).collect(),
        head: param(d, Sh::new(&[2], 1), 2, 0),
    }
}

fn net_snaps(n: &Net<'static>) -> Vec<Snap> {
    n.parameters().into_iter().map(snap).collect()
}

fn model_case(d: Dev, e: Dev, layers: usize, loose: usize, rec: &mut Rec) -> Result<(), String> {
    let n = net(d, layers, loose);
    let want = net_snaps(&n);
    for f in 0..FORMATS {
        let mut m: Net<'static> = cycle(&n, f)?;
        if m.parameters().len() != want.len() {
            return Err(format!("{} parameters instead of {}", m.parameters().len(), want.len()));
        }
        poison(e, &[64, 128], 6, f32::NAN);
        m.move_to_device(e);
        for (i, (a, b)) in want.iter().zip(&net_snaps(&m)).enumerate() {
            snap_eq(&format!("{} parameter {}", fname(f), i), a, b)?;
        }
        let mut m2: Net<'static> = cycle(&m, (f + 2) % FORMATS)?;
        m2.move_to_device(d);
        for (i, (a, b)) in want.iter().zip(&net_snaps(&m2)).enumerate() {
            snap_eq(&format!("{} again, parameter {}", fname(f), i), a, b)?;
        }
        if m2.name != n.name || m2.layers.len() != layers || m2.out.width != 3 {
            return Err("other fields changed".to_string());
        }
        rec.step(2);
    }
    Ok(())
}

// --- resuming

#[derive(Serialize, Deserialize, Model)]
struct Reg<'dev> {
    w: Parameter<'dev>,
    b: Parameter<'dev>,
}

fn reg(d: Dev) -> Reg<'static> {
    let mut r = Reg {
        w: d.new_parameter(Sh::new(&[3, 2], 1).shape(), &Constant::new(0.)),
        b: d.new_parameter(Sh::new(&[3], 1).shape(), &Constant::new(0.1)),
    };
    let w = spread(Sh::new(&[3, 2], 1), -1., 1., 3).f32s();
    d.reset_tensor_by_slice(&mut r.w.value, &w);
    r
}

fn train_step<O: Optimizer>(d: Dev, m: &mut Reg<'static>, o: &mut O, i: u64) {
    forward_backward(d, m, i);
    o.update_model(m);
}

fn forward_backward(d: Dev, m: &mut Reg<'static>, i: u64) {
    let x = node(d, &spread(Sh::new(&[2], 4), -1., 1., 5 + i));
    let (w, b): (Nd, Nd) = (Node::from(forever_mut(&mut m.w)), Node::from(forever_mut(&mut m.b)));
    let y = w.matmul(x) + b;
    y.sparse_softmax_cross_entropy(&[0, 1, 2, 1], 0).batch_sum().backward();
}

fn reg_snaps(m: &Reg<'static>) -> Vec<Snap> {
    m.parameters().into_iter().map(snap).collect()
}

fn settings<O: Optimizer>(o: &mut O, k: usize) {
    if k & 1 == 1 {
        o.set_weight_decay(0.05);
    }
    if k & 2 == 2 {
        o.set_gradient_clipping(0.7);
        o.set_learning_rate_scaling(0.5);
    }
}

/// Trains `n` steps; saves after the steps in `at` (and also before an update when `mid`), and
/// continues from the loaded model with a new optimizer.
fn resume<O: Optimizer>(
    make: &dyn Fn() -> O,
    set: usize,
    n: u64,
    at: &[u64],
    mid: bool,
    f: usize,
    rec: &mut Rec,
) -> Result<(), String> {
    let straight = {
        let dv = Dv::naive();
        let d = dv.d();
        let mut m = reg(d);
        let mut o = make();
        settings(&mut o, set);
        o.configure_model(&mut m);
        let mut trail = vec![];
        for i in 0..n {
            train_step(d, &mut m, &mut o, i);
            trail.push(reg_snaps(&m));
        }
        trail
    };
    let devs: Vec<Dv> = (0..=at.len()).map(|_| Dv::naive()).collect();
    let mut d = devs[0].d();
    let mut m = reg(d);
    let mut o = make();
    settings(&mut o, set);
    o.configure_model(&mut m);
    let mut used = 0;
    for i in 0..n {
        if mid && at.contains(&i) {
            // the checkpoint is taken after backward, before the update
            forward_backward(d, &mut m, i);
        }
        if at.contains(&i) {
            let e = *o.epoch();
            let mut l: Reg<'static> = cycle(&m, f)?;
            used += 1;
            d = devs[used].d();
            poison(d, &[64], 20, f32::NAN);
            l.move_to_device(d);
            m = l;
            o = make();
            settings(&mut o, set);
            *o.epoch() = e;
            o.configure_model(&mut m);
        }
        if mid && at.contains(&i) {
            o.update_model(&mut m);
        } else {
            train_step(d, &mut m, &mut o, i);
        }
        for (a, b) in straight[i as usize].iter().zip(&reg_snaps(&m)) {
            snap_eq(&format!("after step {}", i), a, b)?;
        }
    }
    rec.step(n);
    rec.trace(1);
    Ok(())
}

fn resumes<O: Optimizer>(ctx: &mut Ctx, name: &str, make: &dyn Fn() -> O) {
    let n = ctx.pick(5u64, 8);
    for set in 0..4 {
        for f in 0..FORMATS {
            for mid in [false, true] {
                for mask in 1u64..1 << n {
                    if !ctx.thorough() && mask.count_ones() > 2 {
                        continue;
                    }
                    let at: Vec<u64> = (0..n).filter(|i| mask >> i & 1 == 1).collect();
                    ctx.case(
                        || format!("resume {} set {} {} mid {} at {:?}", name, set, fname(f), mid, at),
                        |rec| resume(make, set, n, &at, mid, f, rec),
                    );
                }
            }
        }
    }
}

// --- damaged data

fn damage(ctx: &mut Ctx, d: Dev) {
    for s in [Sh::new(&[2, 3], 1), Sh::new(&[], 1), Sh::new(&[2], 2), Sh::new(&[65], 1)] {
        let n = s.size() as i64;
        for count in [0, 1, n - 1, n + 1, n * 2, n + 64, 64, 128].iter().cloned().filter(|c| *c >= 0 && *c != n) {
            ctx.case(
                || format!("count {} {}", s.show(), count),
                |rec| {
                    let v = pattern(count as usize, 2);
                    let dims: Vec<String> = s.d[..s.depth() as usize].iter().map(|x| x.to_string()).collect();
                    let good = |n: i64| {
                        format!(
                            "{{\"shape\":{{\"dims\":[{}],\"batch\":{}}},\"values\":{}}}",
                            dims.join(","),
                            s.b,
                            serde_json::to_string(&pattern(n as usize, 2)).unwrap()
                        )
                    };
                    let bad = good(count);
                    let fine = good(n);
                    // host tensors and loaded ones
                    let mut h: Ten = Tensor::new_host_tensor(s.shape(), v.clone());
                    if !panics(|| h.move_to_device(d)) {
                        return Err("a host tensor was moved".to_string());
                    }
                    if let Ok(mut t) = serde_json::from_str::<Ten>(&bad) {
                        if !panics(|| t.move_to_device(d)) {
                            return Err("a loaded tensor was moved".to_string());
                        }
                    }
                    let mut t: Ten = serde_json::from_str(&fine).map_err(|e| e.to_string())?;
                    t.move_to_device(d);
                    same("intact data", &t, s.shape(), &pattern(n as usize, 2))?;
                    if s.b == 1 {
                        for k in 0..3 {
                            let pick = |i| if i == k { &bad } else { &fine };
                            let text = format!(
                                "{{\"value\":{},\"gradient\":{},\"stats\":{{\"m\":{}}}}}",
                                pick(0),
                                pick(1),
                                pick(2)
                            );
                            if let Ok(mut p) = serde_json::from_str::<Parameter<'static>>(&text) {
                                if !panics(|| p.move_to_device(d)) {
                                    return Err(format!("a parameter was moved: {}", text));
                                }
                            }
                        }
                    }
                    rec.step(5);
                    Ok(())
                },
            );
        }
    }
    // every truncation and every missing field
    ctx.case(
        || "truncated".to_string(),
        |rec| {
            let p = param(d, Sh::new(&[2, 2], 1), 2, 3);
            let s = serde_json::to_string(&p).unwrap();
            for n in 0..s.len() {
                if let Ok(Ok(_)) = quiet(|| serde_json::from_str::<Parameter<'static>>(&s[..n])) {
                    return Err(format!("the first {} of {} bytes were accepted", n, s.len()));
                }
                rec.step(1);
            }
            let mut b = vec![];
            ciborium::ser::into_writer(&p, &mut b).unwrap();
            for n in 0..b.len() {
                if let Ok(Ok(_)) = quiet(|| ciborium::de::from_reader::<Parameter<'static>, _>(&b[..n])) {
                    return Err(format!("the first {} of {} bytes of CBOR were accepted", n, b.len()));
                }
                rec.step(1);
            }
            let b = bincode::serialize(&p).unwrap();
            for n in 0..b.len() {
                if let Ok(Ok(_)) = quiet(|| bincode::deserialize_from::<_, Parameter<'static>>(&b[..n])) {
                    return Err(format!("the first {} of {} bytes of bincode were accepted", n, b.len()));
                }
                rec.step(1);
            }
            Ok(())
        },
    );
    ctx.case(
        || "missing fields".to_string(),
        |rec| {
            let p = param(d, Sh::new(&[2, 2], 1), 2, 3);
            let v = serde_json::to_value(&p).unwrap();
            // every path to an object key
            fn paths(v: &serde_json::Value, at: Vec<String>, out: &mut Vec<Vec<String>>) {
                if let Some(m) = v.as_object() {
                    for (k, w) in m {
                        let mut q = at.clone();
                        q.push(k.clone());
                        out.push(q.clone());
                        paths(w, q, out);
                    }
                }
            }
            let mut all = vec![];
            paths(&v, vec![], &mut all);
            for q in all {
                if q.len() == 2 && q[0] == "stats" {
                    continue; // a statistic less is a valid parameter
                }
                let mut w = v.clone();
                let mut at = &mut w;
                for k in &q[..q.len() - 1] {
                    at = at.get_mut(k).unwrap();
                }
                at.as_object_mut().unwrap().remove(&q[q.len() - 1]);
                if let Ok(Ok(mut p)) = quiet(|| serde_json::from_value::<Parameter<'static>>(w)) {
                    if quiet(|| p.move_to_device(d)).is_ok() {
                        return Err(format!("accepted without {:?}", q));
                    }
                }
                rec.step(1);
            }
            Ok(())
        },
    );
}

fn body(ctx: &mut Ctx) {
    let (d, e) = (leaked_naive(), leaked_naive());
    let mut shs = all_shapes(3, 3, 27, &[1, 2, 3]);
    shs.extend(all_shapes(4, 2, 16, &[1, 2, 5]));
    for v in [
        vec![1, 1, 1, 1, 1, 1, 1, 2], vec![2, 1, 1, 1, 1, 1, 1, 2], vec![2, 2, 2, 2, 2, 2, 2, 2], vec![63], vec![64], vec![65], vec![127, 2],
        vec![1, 300], vec![2, 1, 3],
    ] {
        for b in [1, 2, 3] {
            shs.push(Sh::new(&v, b));
        }
    }
    if ctx.thorough() {
        shs.extend(all_shapes(5, 3, 64, &[1, 2]));
        shs.extend([Sh::new(&[70000], 1), Sh::new(&[1000], 70)]);
    }
    shs.sort_by_key(|s| (s.d, s.b));
    shs.dedup();
    for s in &shs {
        for k in 0..ctx.pick(4usize, 12) {
            ctx.case(|| format!("tensor {} {}", s.show(), k), |rec| tensor_case(d, e, *s, k, rec));
        }
        if s.b == 1 && s.size() <= 300 {
            for stats in 0..4 {
                for k in 0..ctx.pick(2, 6) {
                    ctx.case(
                        || format!("parameter {} {} {}", s.show(), stats, k),
                        |rec| param_case(d, e, *s, stats, k * 3, rec),
                    );
                }
            }
        }
    }
    // many statistics and many parameters
    for stats in (4..=ctx.pick(20usize, 40)).chain([64, 65, 130, 257]) {
        for s in [Sh::new(&[2], 1), Sh::new(&[3, 2], 1)] {
            ctx.case(|| format!("parameter {} {}", s.show(), stats), |rec| param_case(d, e, s, stats, 0, rec));
        }
    }
    for (layers, loose) in [(5, 0), (9, 3), (0, 17), (2, 33), (20, 70), (1, 260)] {
        ctx.case(|| format!("model {} {}", layers, loose), |rec| model_case(d, e, layers, loose, rec));
    }
    // large tensors
    for (v, b) in [(vec![4097u32], 1u32), (vec![65537], 1), (vec![3, 2049], 2), (vec![2], 4099), (vec![70001], 1), (vec![300, 300], 1), (vec![], 70001)] {
        let s = Sh::new(&v, b);
        for k in [0, 5] {
            ctx.case(|| format!("large tensor {} {}", s.show(), k), |rec| tensor_case(d, e, s, k, rec));
        }
        if b == 1 {
            ctx.case(|| format!("large parameter {}", s.show()), |rec| param_case(d, e, s, 2, 0, rec));
        }
    }
    // many values: every exponent and sign with mantissa patterns
    for e8 in (0..255u32).step_by(ctx.pick(5, 1)) {
        ctx.case(
            || format!("floats with exponent {}", e8),
            |rec| {
                let mut v = vec![];
                for m in 0..ctx_mantissas() {
                    let mant = ((m as u64 * 2654435761) >> 7) as u32 & 0x7f_ffff;
                    for x in [mant, 0x7f_ffff ^ (mant & 15), mant & 0x40_000f] {
                        v.push(f32::from_bits(e8 << 23 | x));
                        v.push(f32::from_bits(1 << 31 | e8 << 23 | x));
                    }
                }
                let s = Sh::new(&[v.len() as u32], 1);
                let t = d.new_tensor_by_slice(s.shape(), &v);
                for f in [0, 1, 2, 5, 6] {
                    let mut l: Ten = cycle(&t, f)?;
                    l.move_to_device(e);
                    if bits(&l.to_vec()) != bits(&v) {
                        return Err(format!("{} changed a value", fname(f)));
                    }
                }
                rec.step(5);
                Ok(())
            },
        );
    }
    for layers in 0..=3 {
        for loose in 0..=ctx.pick(2, 4) {
            ctx.case(|| format!("model {} {}", layers, loose), |rec| model_case(d, e, layers, loose, rec));
        }
    }
    resumes(ctx, "SGD", &|| SGD::new(0.3));
    resumes(ctx, "MomentumSGD", &|| MomentumSGD::new(0.3, 0.9));
    resumes(ctx, "Adam", &|| Adam::new(0.05, 0.9, 0.999, 1e-8));
    damage(ctx, d);
}

fn ctx_mantissas() -> usize {
    200
}

fn main() {
    run(
        Spec {
            id: "C18",
            level: "model_checking",
            rule: "all shapes of a range x value patterns x 7 formats (JSON text, value, pretty, reordered; CBOR; bincode; RON) and every pair of formats in sequence; parameters with four kinds of statistics and with up to 257 of them; models of every layout up to 3 layers, and larger ones; every set of up to 2 (all) checkpoints, also between backward and update, of a training of 5 (8) steps for each optimizer and setting; every truncation, missing field and wrong value count",
            assumptions: &["values are finite", "tensors are saved while on a device"],
        },
        body,
    );
}

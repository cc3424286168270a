//! C19: derived models. build.rs writes every struct definition of a bounded domain; each is built
//! with every choice of vector lengths, and what it enumerates is compared, by address, with what
//! its definition says.
use mc_core::*;
use prima_undine::functions::BasicFunctions;
use prima_undine::optimizers::SGD;
use prima_undine::{Model, Optimizer, Parameter, Tensor};

/// Chooses vector lengths and numbers the parameters.
pub struct Ctr {
    lens: Vec<usize>,
    at: usize,
    next: u32,
}

impl Ctr {
    fn len(&mut self) -> usize {
        let n = self.lens[self.at % self.lens.len()];
        self.at += 1;
        n
    }
}

pub trait Mk {
    fn mk(c: &mut Ctr) -> Self
    where
        Self: Sized;
    /// the addresses of its parameters in the order of the definition
    fn tags(&self, o: &mut Vec<*const Parameter<'static>>);
}

pub trait Skips {
    fn skipped(&self, o: &mut Vec<*const Parameter<'static>>);
}

pub trait Case: Model<'static> + Mk + Skips {}
impl<T: Model<'static> + Mk + Skips> Case for T {}

impl Mk for Parameter<'static> {
    fn mk(c: &mut Ctr) -> Self {
        c.next += 1;
        let s = Sh::new(&[2], 1).shape();
        let x = c.next as f32;
        Parameter::new(Tensor::new_host_tensor(s, vec![x, -x]), Tensor::new_host_tensor(s, vec![1., 2.]))
    }
    fn tags(&self, o: &mut Vec<*const Parameter<'static>>) {
        o.push(self);
    }
}
impl Mk for u32 {
    fn mk(_c: &mut Ctr) -> u32 {
        7
    }
    fn tags(&self, _o: &mut Vec<*const Parameter<'static>>) {}
}
impl<T: Mk> Mk for Vec<T> {
    fn mk(c: &mut Ctr) -> Self {
        let n = c.len();
        (0..n).map(|_| T::mk(c)).collect()
    }
    fn tags(&self, o: &mut Vec<*const Parameter<'static>>) {
        for x in self {
            x.tags(o);
        }
    }
}
impl<T: Mk> Mk for Box<T> {
    fn mk(c: &mut Ctr) -> Self {
        Box::new(T::mk(c))
    }
    fn tags(&self, o: &mut Vec<*const Parameter<'static>>) {
        (**self).tags(o);
    }
}

macro_rules! via {
    ($n:ident $l:lifetime $($(#[$a:meta])* $v:vis $f:ident : $t:ty),* $(,)?) => {
        #[derive(Model)]
        #[allow(dead_code)]
        pub struct $n<$l> {
            $($(#[$a])* $v $f: $t,)*
        }
    };
}

pub type Alias<'dev> = Parameter<'dev>;

#[derive(Model)]
pub struct Pair<'dev> {
    w: Parameter<'dev>,
    #[parameter(skip)]
    hidden: Parameter<'dev>,
    b: Parameter<'dev>,
}
impl Mk for Pair<'static> {
    fn mk(c: &mut Ctr) -> Self {
        Pair { w: Mk::mk(c), hidden: Mk::mk(c), b: Mk::mk(c) }
    }
    fn tags(&self, o: &mut Vec<*const Parameter<'static>>) {
        self.w.tags(o);
        self.b.tags(o);
    }
}

#[derive(Model)]
pub struct Deep<'dev> {
    #[parameter(skip)]
    _n: u32,
    x: Vec<Pair<'dev>>,
    y: Vec<Parameter<'dev>>,
    z: Pair<'dev>,
}
impl Mk for Deep<'static> {
    fn mk(c: &mut Ctr) -> Self {
        Deep { _n: 0, x: Mk::mk(c), y: Mk::mk(c), z: Mk::mk(c) }
    }
    fn tags(&self, o: &mut Vec<*const Parameter<'static>>) {
        self.x.tags(o);
        self.y.tags(o);
        self.z.tags(o);
    }
}

#[derive(Model)]
pub struct Wrap<'dev, T>
where
    T: Model<'dev>,
{
    t: T,
    p: Parameter<'dev>,
}
impl<T: Mk + Model<'static>> Mk for Wrap<'static, T> {
    fn mk(c: &mut Ctr) -> Self {
        Wrap { t: Mk::mk(c), p: Mk::mk(c) }
    }
    fn tags(&self, o: &mut Vec<*const Parameter<'static>>) {
        self.t.tags(o);
        self.p.tags(o);
    }
}

include!(concat!(env!("OUT_DIR"), "/c19_quick.rs"));
include!(concat!(env!("OUT_DIR"), "/c19_wide.rs"));

fn one(d: Dev, mk: fn(&mut Ctr) -> Box<dyn Case>, lens: &[usize]) -> Result<(), String> {
    let mut c = Ctr { lens: lens.to_vec(), at: 0, next: 0 };
    let mut m = mk(&mut c);
    let (mut want, mut skip) = (vec![], vec![]);
    m.tags(&mut want);
    m.skipped(&mut skip);
    // Pair hides one as well: everything made that is not listed must stay as it was
    let got: Vec<*const Parameter<'static>> = m.parameters().into_iter().map(|p| p as *const _).collect();
    if got != want {
        return Err(describe("the parameter list", &want, &got));
    }
    let got: Vec<*const Parameter<'static>> = m.parameters_mut().into_iter().map(|p| p as *const _).collect();
    if got != want {
        return Err(describe("the mutable parameter list", &want, &got));
    }
    let values: Vec<f32> = want.iter().map(|_| 0.).collect();
    let _ = values;
    m.move_to_device(d);
    let mut first = vec![];
    for (i, p) in want.iter().enumerate() {
        let p = unsafe { &**p };
        if !p.value.valid() || !p.gradient.valid() || !std::ptr::eq(p.value.device(), d) {
            return Err(format!("parameter {} was not moved", i));
        }
        let v = p.value.to_vec_any();
        if v[0] != -v[1] || p.gradient.to_vec_any() != [1., 2.] {
            return Err(format!("parameter {} moved as {:?}", i, v));
        }
        first.push(v[0]);
    }
    // numbers were given in the order of construction, which is the order of the definition
    if first.windows(2).any(|w| w[0] >= w[1]) {
        return Err(format!("order {:?}", first));
    }
    for p in &skip {
        if unsafe { &**p }.value.valid() {
            return Err("a skipped parameter was moved".to_string());
        }
    }
    // updating reaches exactly these
    SGD::new(1.).update_parameters(&mut m.parameters_mut());
    for (i, p) in want.iter().enumerate() {
        let p = unsafe { &**p };
        let v = p.value.to_vec_any();
        if v != [first[i] - 1., -first[i] - 2.] || p.gradient.to_vec_any() != [0., 0.] {
            return Err(format!("parameter {} updated to {:?}", i, v));
        }
    }
    Ok(())
}

fn describe(what: &str, want: &[*const Parameter<'static>], got: &[*const Parameter<'static>]) -> String {
    let idx: Vec<String> =
        got.iter().map(|g| want.iter().position(|w| w == g).map_or("?".to_string(), |i| i.to_string())).collect();
    format!("{} is [{}] instead of 0..{}", what, idx.join(" "), want.len())
}

fn body(ctx: &mut Ctx) {
    let d = leaked_naive();
    let n = ctx.pick(3usize, 4);
    let top = ctx.pick(3usize, 4);
    let mut choices: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..n {
        choices = choices
            .into_iter()
            .flat_map(|c| {
                (0..top).map(move |k| {
                    let mut q = c.clone();
                    q.push(k);
                    q
                })
            })
            .collect();
    }
    // long vectors, outer or inner
    let mut long = vec![vec![17, 1, 2], vec![1, 20, 2], vec![2, 1, 33], vec![70, 1, 1], vec![1, 101, 0, 2]];
    long.extend(ctx.pick(vec![vec![300, 1, 0, 1]], vec![vec![300, 1, 0, 1], vec![1, 1030, 1, 1], vec![40, 17], vec![65, 33, 1]]));
    choices.extend(long);
    let mut all: Vec<(&'static str, fn(&mut Ctr) -> Box<dyn Case>)> = vec![];
    quick(&mut |name, mk| all.push((name, mk)));
    wide(&mut |name, mk| all.push((name, mk)));
    for (name, mk) in all {
        ctx.case(
            || name.to_string(),
            |rec| {
                let vecs = name.contains("Vec") || name.contains("Deep") || name.contains('T');
                for lens in &choices {
                    one(d, mk, lens).map_err(|e| format!("lengths {:?}: {}", lens, e))?;
                    rec.step(4);
                    rec.trace(1);
                    rec.state(hash64(&(name, lens)));
                    if !vecs {
                        break;
                    }
                }
                Ok(())
            },
        );
    }
    // vectors of models and of parameters are models themselves
    for lens in &choices {
        ctx.case(
            || format!("vectors {:?}", lens),
            |rec| {
                let mut c = Ctr { lens: lens.clone(), at: 0, next: 0 };
                let mut a: Vec<Parameter<'static>> = Mk::mk(&mut c);
                let mut b: Vec<Vec<Deep<'static>>> = Mk::mk(&mut c);
                fn go<M: Model<'static> + Mk>(d: Dev, m: &mut M) -> Result<(), String> {
                    let mut want = vec![];
                    m.tags(&mut want);
                    let got: Vec<*const Parameter<'static>> = m.parameters().into_iter().map(|p| p as *const _).collect();
                    if got != want {
                        return Err(describe("the parameter list", &want, &got));
                    }
                    let got: Vec<*const Parameter<'static>> =
                        m.parameters_mut().into_iter().map(|p| p as *const _).collect();
                    if got != want {
                        return Err(describe("the mutable parameter list", &want, &got));
                    }
                    m.move_to_device(d);
                    if let Some(i) = want.iter().position(|p| !unsafe { &**p }.value.valid()) {
                        return Err(format!("parameter {} was not moved", i));
                    }
                    Ok(())
                }
                go(d, &mut a)?;
                go(d, &mut b)?;
                // a parameter on its own
                let mut p: Parameter<'static> = Mk::mk(&mut c);
                let at = &p as *const _;
                if p.parameters().len() != 1 || !std::ptr::eq(p.parameters()[0], at) {
                    return Err("a parameter does not list itself".to_string());
                }
                let q = p.parameters_mut();
                if q.len() != 1 || !std::ptr::eq(&*q[0], at) {
                    return Err("a parameter does not list itself mutably".to_string());
                }
                rec.step(6);
                Ok(())
            },
        );
    }
}

fn main() {
    run(
        Spec {
            id: "C19",
            level: "model_checking",
            rule: "derived models for every struct of up to 2 (3) fields over 15 (7) field kinds (parameters, vectors, nested and generic models, boxed, skipped), generics declared in seven ways, each built with every choice of vector lengths; lists compared by address, moving and updating checked on every parameter",
            assumptions: &["structs have named fields and a first lifetime, that of the device"],
        },
        body,
    );
}

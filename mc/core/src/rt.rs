//! Reference tensors over plain numbers or dual numbers (value plus sparse gradient).
use crate::sh::Sh;

pub trait Num: Clone {
    fn c(x: f64) -> Self;
    fn v(&self) -> f64;
    fn add(&self, o: &Self) -> Self;
    fn scale(&self, k: f64) -> Self;
    /// result with value `f` and derivative `df` w.r.t. self
    fn un(&self, f: f64, df: f64) -> Self;
    /// result with value `f` and partial derivatives `da`, `db`
    fn bin(&self, o: &Self, f: f64, da: f64, db: f64) -> Self;
}

impl Num for f64 {
    fn c(x: f64) -> f64 {
        x
    }
    fn v(&self) -> f64 {
        *self
    }
    fn add(&self, o: &f64) -> f64 {
        self + o
    }
    fn scale(&self, k: f64) -> f64 {
        self * k
    }
    fn un(&self, f: f64, _df: f64) -> f64 {
        f
    }
    fn bin(&self, _o: &f64, f: f64, _da: f64, _db: f64) -> f64 {
        f
    }
}

/// Value and gradient with respect to numbered inputs.
#[derive(Clone, Debug, Default)]
pub struct Sd {
    pub v: f64,
    pub g: Vec<(u32, f64)>,
}

fn axpy(a: &[(u32, f64)], ka: f64, b: &[(u32, f64)], kb: f64) -> Vec<(u32, f64)> {
    let mut r = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        if j >= b.len() || (i < a.len() && a[i].0 < b[j].0) {
            r.push((a[i].0, ka * a[i].1));
            i += 1;
        } else if i >= a.len() || b[j].0 < a[i].0 {
            r.push((b[j].0, kb * b[j].1));
            j += 1;
        } else {
            r.push((a[i].0, ka * a[i].1 + kb * b[j].1));
            i += 1;
            j += 1;
        }
    }
    r
}

impl Sd {
    pub fn var(v: f64, i: u32) -> Sd {
        Sd { v, g: vec![(i, 1.)] }
    }
}

impl Num for Sd {
    fn c(x: f64) -> Sd {
        Sd { v: x, g: vec![] }
    }
    fn v(&self) -> f64 {
        self.v
    }
    fn add(&self, o: &Sd) -> Sd {
        Sd { v: self.v + o.v, g: axpy(&self.g, 1., &o.g, 1.) }
    }
    fn scale(&self, k: f64) -> Sd {
        Sd { v: self.v * k, g: self.g.iter().map(|x| (x.0, x.1 * k)).collect() }
    }
    fn un(&self, f: f64, df: f64) -> Sd {
        Sd { v: f, g: self.g.iter().map(|x| (x.0, x.1 * df)).collect() }
    }
    fn bin(&self, o: &Sd, f: f64, da: f64, db: f64) -> Sd {
        Sd { v: f, g: axpy(&self.g, da, &o.g, db) }
    }
}

#[derive(Clone, Debug)]
pub struct Rt<T> {
    pub s: Sh,
    pub v: Vec<T>,
}

pub type R = Rt<f64>;

impl<T: Num> Rt<T> {
    pub fn new(s: Sh, v: Vec<T>) -> Rt<T> {
        assert_eq!(s.size(), v.len());
        Rt { s, v }
    }
    /// element at coordinates `c`, batch `b`; a batch-1 tensor is reused for every batch
    pub fn at(&self, c: &[u32; 8], b: u32) -> &T {
        &self.v[self.idx(c, b)]
    }
    pub fn idx(&self, c: &[u32; 8], b: u32) -> usize {
        let mut k = 0usize;
        let mut m = 1usize;
        for i in 0..8 {
            k += c[i] as usize * m;
            m *= self.s.d[i] as usize;
        }
        k + m * if self.s.b == 1 { 0 } else { b as usize }
    }
    /// Builds a tensor of shape `s` from a function of coordinates and batch.
    pub fn build(s: Sh, mut f: impl FnMut(&[u32; 8], u32) -> T) -> Rt<T> {
        let mut v = Vec::with_capacity(s.size());
        let mut c = [0u32; 8];
        for b in 0..s.b {
            loop {
                v.push(f(&c, b));
                let mut i = 0;
                while i < 8 {
                    c[i] += 1;
                    if c[i] < s.d[i] {
                        break;
                    }
                    c[i] = 0;
                    i += 1;
                }
                if i == 8 {
                    break;
                }
            }
        }
        Rt { s, v }
    }
    pub fn map(&self, f: impl Fn(&T) -> T) -> Rt<T> {
        Rt { s: self.s, v: self.v.iter().map(f).collect() }
    }
    pub fn vals(&self) -> Vec<f64> {
        self.v.iter().map(|x| x.v()).collect()
    }
}

impl R {
    pub fn of_f32(s: Sh, v: &[f32]) -> R {
        Rt { s, v: v.iter().map(|&x| x as f64).collect() }
    }
    pub fn f32s(&self) -> Vec<f32> {
        self.v.iter().map(|&x| x as f32).collect()
    }
    /// Lifts to dual numbers whose variables are numbered from `first`.
    pub fn vars(&self, first: u32) -> Rt<Sd> {
        Rt {
            s: self.s,
            v: self.v.iter().enumerate().map(|(i, &x)| Sd::var(x, first + i as u32)).collect(),
        }
    }
    pub fn consts(&self) -> Rt<Sd> {
        Rt { s: self.s, v: self.v.iter().map(|&x| Sd::c(x)).collect() }
    }
}

/// How far an implementation value may be from the reference value.
#[derive(Clone, Copy)]
pub enum Tol {
    Exact,
    /// relative to max(|expected|, scale)
    Rel(f64, f64),
}
pub const LOOSE: Tol = Tol::Rel(5e-5, 0.05);

pub fn close(got: f32, exp: f64, tol: Tol) -> bool {
    let g = got as f64;
    if exp.is_nan() {
        return g.is_nan();
    }
    let e32 = exp as f32;
    if e32.is_infinite() {
        return got == e32;
    }
    match tol {
        Tol::Exact => got == e32,
        Tol::Rel(r, scale) => (g - exp).abs() <= r * exp.abs().max(scale),
    }
}

pub fn compare(what: &str, got: &[f32], exp: &[f64], tol: Tol) -> Result<(), String> {
    if got.len() != exp.len() {
        return Err(format!("{}: {} values instead of {}", what, got.len(), exp.len()));
    }
    for i in 0..got.len() {
        if !close(got[i], exp[i], tol) {
            return Err(format!(
                "{}: element {} is {:?}, expected {:?}",
                what, i, got[i], exp[i]
            ));
        }
    }
    Ok(())
}

//! Devices as the checks use them.
use crate::rt::*;
use crate::sh::Sh;
use crate::{Dev, Nd, Ten};
use prima_undine::functions::BasicFunctions;
use prima_undine::{devices, Device, Node};

/// An owned device handed out with an unbounded lifetime; the owner drops its tensors first.
pub struct Dv(Option<Box<Device<'static>>>);

impl Dv {
    pub fn naive() -> Dv {
        Dv(Some(Box::new(devices::Naive::new())))
    }
    pub fn from(d: Device<'static>) -> Dv {
        Dv(Some(Box::new(d)))
    }
    pub fn d(&self) -> Dev {
        unsafe { &*(&**self.0.as_ref().unwrap() as *const Device<'static>) }
    }
    pub fn mutate(&mut self) -> &mut Device<'static> {
        self.0.as_mut().unwrap()
    }
    pub fn leak(mut self) -> Dev {
        Box::leak(self.0.take().unwrap())
    }
}

pub fn leaked_naive() -> Dev {
    Dv::naive().leak()
}

pub fn ten(d: Dev, r: &R) -> Ten {
    d.new_tensor_by_slice(r.s.shape(), &r.f32s())
}

pub fn ten_const(d: Dev, s: Sh, k: f32) -> Ten {
    d.new_tensor_by_constant(s.shape(), k)
}

pub fn node(d: Dev, r: &R) -> Nd {
    Node::from(ten(d, r))
}

pub fn forever<T: ?Sized>(x: &T) -> &'static T {
    unsafe { &*(x as *const T) }
}
pub fn forever_mut<T: ?Sized>(x: &mut T) -> &'static mut T {
    unsafe { &mut *(x as *mut T) }
}

/// Fills the device's recycled storage of the given size classes with `val`, so that results land
/// in buffers with arbitrary old contents.
pub fn poison(d: Dev, classes: &[u32], copies: usize, val: f32) {
    let mut keep = vec![];
    for &c in classes {
        for _ in 0..copies {
            keep.push(d.new_tensor_by_constant(prima_undine::Shape::new(&[c], 1), val));
        }
    }
}

pub fn check_shape(what: &str, t: &Ten, s: &Sh) -> Result<(), String> {
    let got = t.shape();
    if got != s.shape() {
        return Err(format!("{}: shape {:?}, expected {}", what, got, s.show()));
    }
    Ok(())
}

pub fn check_ten(what: &str, t: &Ten, exp: &R, tol: Tol) -> Result<(), String> {
    check_shape(what, t, &exp.s)?;
    compare(what, &t.to_vec(), &exp.v, tol)
}

pub fn check_node(what: &str, t: &Nd, exp: &R, tol: Tol) -> Result<(), String> {
    let got = t.shape();
    if got != exp.s.shape() {
        return Err(format!("{}: shape {:?}, expected {}", what, got, exp.s.show()));
    }
    compare(what, &t.to_vec(), &exp.v, tol)
}

/// Small integers, all distinct within a tensor, of both signs.
pub fn distinct(s: Sh, salt: u64) -> R {
    let n = s.size() as u64;
    // multiplication by a unit modulo a prime above n permutes 1..p
    let p = next_prime(n + 2);
    let m = 1 + (salt * 7 + 3) % (p - 1);
    Rt::new(
        s,
        (0..n)
            .map(|i| {
                let x = ((i + 1) * m % p) as f64;
                if (i + salt) % 2 == 0 {
                    x
                } else {
                    -x
                }
            })
            .collect(),
    )
}

fn next_prime(n: u64) -> u64 {
    let mut p = n.max(3);
    loop {
        if (2..).take_while(|q| q * q <= p).all(|q| p % q != 0) {
            return p;
        }
        p += 1;
    }
}

/// Values in (lo, hi) spread irregularly, exactly representable in f32, never repeating soon.
pub fn spread(s: Sh, lo: f64, hi: f64, salt: u64) -> R {
    Rt::new(
        s,
        (0..s.size() as u64)
            .map(|i| {
                let u = ((i + 1) * 40503 + salt * 9176 + 77).wrapping_mul(2654435761) % (1 << 32);
                let f = (u >> 16) as f64 / 65536.;
                ((lo + (hi - lo) * f) as f32) as f64
            })
            .collect(),
    )
}

/// Small integers in -m..=m (never zero if `nz`).
pub fn ints(s: Sh, m: i64, nz: bool, salt: u64) -> R {
    Rt::new(
        s,
        (0..s.size() as u64)
            .map(|i| {
                let u = ((i + 1) * 40503 + salt * 9176 + 77).wrapping_mul(2654435761) % (1 << 32);
                let x = (u >> 12) as i64 % (2 * m + 1) - m;
                (if nz && x == 0 { m } else { x }) as f64
            })
            .collect(),
    )
}

pub const CLASSES: &[u32] = &[64, 128, 256];

/// Size class (in elements) of a tensor.
pub fn class_of(n: usize) -> u32 {
    (n.max(64)).next_power_of_two() as u32
}

/// Runs the eager and the graph form of `op` on the operands, with result storage full of NaN, and
/// compares shapes and values with the reference. The operands must be left as they were.
pub fn forward_case(d: Dev, op: &crate::Op, xs: &[R], tol: Tol, rec: &mut crate::Rec) -> Result<(), String> {
    let ts: Vec<Ten> = xs.iter().map(|x| ten(d, x)).collect();
    let refs: Vec<&R> = xs.iter().collect();
    let exp = op.eval(&refs);
    let mut classes: Vec<u32> = exp.iter().map(|e| class_of(e.s.size())).collect();
    classes.extend(xs.iter().map(|e| class_of(e.s.size())));
    classes.sort();
    classes.dedup();
    poison(d, &classes, 3, f32::NAN);
    {
        let tr: Vec<&Ten> = ts.iter().collect();
        let ys = op.eager(&tr);
        if ys.len() != exp.len() {
            return Err(format!("eager: {} results instead of {}", ys.len(), exp.len()));
        }
        for (i, (y, e)) in ys.iter().zip(&exp).enumerate() {
            check_ten(&format!("eager result {}", i), y, e, tol)?;
        }
        rec.step(1);
    }
    poison(d, &classes, 3, f32::NAN);
    {
        let ns: Vec<Nd> = ts.iter().map(|t| Node::from(forever(t))).collect();
        let nr: Vec<&Nd> = ns.iter().collect();
        let ys = op.node(&nr);
        if ys.len() != exp.len() {
            return Err(format!("graph: {} results instead of {}", ys.len(), exp.len()));
        }
        for (i, (y, e)) in ys.iter().zip(&exp).enumerate() {
            check_node(&format!("graph result {}", i), y, e, tol)?;
        }
        rec.step(1);
    }
    for (i, (t, x)) in ts.iter().zip(xs).enumerate() {
        check_ten(&format!("operand {} afterwards", i), t, x, Tol::Exact)?;
    }
    Ok(())
}

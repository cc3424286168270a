//! A backend that counts and checks every buffer, logs every kernel call, and can fail at any
//! chosen call. Buffers come from the bundled `Naive` backend and kernels are forwarded to a
//! bundled naive device, so real operations run on it.
use prima_undine::device_impl::*;
use prima_undine::{devices, Device, Tensor};
use std::collections::HashMap;
use std::ffi::c_void;
use std::sync::atomic::{AtomicPtr, Ordering};
use std::sync::{Arc, Mutex};

pub use crate::kernels::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Alloc(u32),
    Free,
    /// namespace, kernel name, operand addresses, result addresses, integers, reals (bits)
    Call(&'static str, String, Vec<usize>, Vec<usize>, Vec<u32>, Vec<u32>),
}

#[derive(Default)]
pub struct State {
    /// live backend buffers: address -> size asked of the backend
    pub live: HashMap<usize, u32>,
    pub allocs: u64,
    pub frees: u64,
    pub calls: u64,
    pub errors: Vec<String>,
    pub log: Vec<Ev>,
    pub logging: bool,
    /// panic when the counter of attempted allocations and kernel calls reaches this
    pub fail_at: Option<u64>,
    pub attempts: u64,
    pub failed: Option<String>,
    /// fail after the kernel did its work instead of before
    pub fail_after: bool,
    /// when failing, first overwrite all of the result with garbage
    pub scribble: bool,
    /// dropped device?
    pub closed: bool,
}

pub type St = Arc<Mutex<State>>;

pub fn st() -> St {
    Arc::new(Mutex::new(State::default()))
}

pub fn lk(s: &St) -> std::sync::MutexGuard<'_, State> {
    s.lock().unwrap_or_else(|e| e.into_inner())
}

pub struct Track {
    pub s: St,
    inner: devices::Naive,
}

impl Track {
    pub fn new(s: &St) -> Track {
        Track { s: Arc::clone(s), inner: devices::Naive {} }
    }
}

fn attempt(s: &St, what: &str) -> bool {
    let mut g = lk(s);
    g.attempts += 1;
    if g.fail_at == Some(g.attempts) {
        g.failed = Some(what.to_string());
        return true;
    }
    false
}

impl DeviceImpl for Track {
    fn identifier(&self) -> String {
        "Track".to_string()
    }
    fn new_handle(&self, size: u32) -> AtomicPtr<c_void> {
        if attempt(&self.s, "alloc") {
            panic!("injected allocation failure");
        }
        let h = self.inner.new_handle(size);
        let a = h.load(Ordering::SeqCst) as usize;
        let mut g = lk(&self.s);
        g.allocs += 1;
        if a == 0 || g.live.insert(a, size).is_some() {
            g.errors.push(format!("backend handed out {:x} twice", a));
        }
        if g.logging {
            g.log.push(Ev::Alloc(size));
        }
        h
    }
    fn drop_handle(&self, handle: &AtomicPtr<c_void>) {
        let a = handle.load(Ordering::SeqCst) as usize;
        let ok = {
            let mut g = lk(&self.s);
            g.frees += 1;
            let ok = g.live.remove(&a).is_some();
            if !ok {
                g.errors.push(format!("released buffer {:x} that is not held", a));
            }
            if g.logging {
                g.log.push(Ev::Free);
            }
            ok
        };
        if ok {
            self.inner.drop_handle(handle);
        }
    }
}

impl Drop for Track {
    fn drop(&mut self) {
        lk(&self.s).closed = true;
    }
}

fn addrs(xs: &[&Tensor]) -> Vec<usize> {
    xs.iter().map(|x| x.handle().load(Ordering::SeqCst) as usize).collect()
}

struct Fwd {
    ns: &'static str,
    name: String,
    s: St,
    kern: &'static Device<'static>,
}

impl Fwd {
    fn note(&self, xs: Vec<usize>, ys: Vec<usize>, u: &[u32], f: &[f32]) {
        let mut g = lk(&self.s);
        g.calls += 1;
        for a in xs.iter().chain(ys.iter()) {
            if !g.live.contains_key(a) {
                g.errors.push(format!("{} got a tensor without a live buffer", self.name));
            }
        }
        if g.logging {
            g.log.push(Ev::Call(
                self.ns,
                self.name.clone(),
                xs,
                ys,
                u.to_vec(),
                f.iter().map(|x| x.to_bits()).collect(),
            ));
        }
    }
    fn fails(&self) -> (bool, bool, bool) {
        let f = attempt(&self.s, &self.name);
        let g = lk(&self.s);
        (f, g.fail_after, g.scribble)
    }
}

impl FunctionFwImpl for Fwd {
    fn call(&self, xs: &[&Tensor], u: &[u32], f: &[f32], ys: &mut [&mut Tensor]) {
        self.note(
            addrs(xs),
            ys.iter().map(|y| y.handle().load(Ordering::SeqCst) as usize).collect(),
            u,
            f,
        );
        let (fail, after, scribble) = self.fails();
        if fail && scribble {
            for y in ys.iter_mut() {
                self.kern.call_fw_impl("reset_tensor_impl", &[], &[], &[f32::NAN], &mut [&mut **y]);
            }
        }
        if fail && !after {
            panic!("injected kernel failure");
        }
        self.kern.call_fw_impl(&self.name, xs, u, f, ys);
        if fail {
            panic!("injected kernel failure");
        }
    }
}
impl FunctionFwU32Impl for Fwd {
    fn call(&self, xs: &[&Tensor], u: &[u32], f: &[f32], ys: &mut [u32]) {
        self.note(addrs(xs), vec![], u, f);
        if self.fails().0 {
            panic!("injected kernel failure");
        }
        self.kern.call_fw_u32_impl(&self.name, xs, u, f, ys);
    }
}
impl FunctionFwF32Impl for Fwd {
    fn call(&self, xs: &[&Tensor], u: &[u32], f: &[f32], ys: &mut [f32]) {
        self.note(addrs(xs), vec![], u, f);
        if self.fails().0 {
            panic!("injected kernel failure");
        }
        self.kern.call_fw_f32_impl(&self.name, xs, u, f, ys);
    }
}
impl FunctionBwImpl for Fwd {
    fn call(
        &self,
        xs: &[&Tensor],
        ys: &[&Tensor],
        gys: &[&Tensor],
        u: &[u32],
        f: &[f32],
        gx: &mut Tensor,
    ) {
        let mut a = addrs(xs);
        a.extend(addrs(ys));
        a.extend(addrs(gys));
        self.note(a, vec![gx.handle().load(Ordering::SeqCst) as usize], u, f);
        if self.fails().0 {
            panic!("injected kernel failure");
        }
        self.kern.call_bw_impl(&self.name, xs, ys, gys, u, f, gx);
    }
}

/// A device over the tracking backend with every kernel of the bundled device forwarded.
/// `kern` supplies the kernels.
pub fn tracked(s: &St, kern: &'static Device<'static>) -> Device<'static> {
    tracked_without(s, kern, |_, _| false)
}

pub fn tracked_without(
    s: &St,
    kern: &'static Device<'static>,
    skip: impl Fn(&str, &str) -> bool,
) -> Device<'static> {
    let mut d = Device::new(Track::new(s));
    let mk = |ns: &'static str, n: &str| Fwd { ns, name: n.to_string(), s: Arc::clone(s), kern };
    for n in FW {
        if !skip("fw", n) {
            d.register_fw_impl(n, mk("fw", n));
        }
    }
    for n in FW_U32 {
        if !skip("u32", n) {
            d.register_fw_u32_impl(n, mk("u32", n));
        }
    }
    for n in FW_F32 {
        if !skip("f32", n) {
            d.register_fw_f32_impl(n, mk("f32", n));
        }
    }
    for n in BW {
        if !skip("bw", n) {
            d.register_bw_impl(n, mk("bw", n));
        }
    }
    d
}

/// When all tensors of the device are gone: every buffer the backend ever supplied must be
/// available again, each once.
pub fn probe(d: crate::Dev, s: &St) -> Result<(), String> {
    let mut classes: HashMap<u32, usize> = HashMap::new();
    let before = {
        let g = lk(s);
        for &c in g.live.values() {
            *classes.entry(c).or_insert(0) += 1;
        }
        if let Some(e) = g.errors.first() {
            return Err(e.clone());
        }
        if g.frees != 0 {
            return Err("a buffer went back to the backend while the device lives".into());
        }
        g.allocs
    };
    for (c, n) in classes {
        let mut hs = vec![];
        let mut seen = std::collections::HashSet::new();
        for _ in 0..n {
            let h = d.new_handle(c);
            if !seen.insert(h.load(Ordering::SeqCst) as usize) {
                return Err("the device hands out one of its buffers twice".into());
            }
            hs.push(h);
        }
        if lk(s).allocs != before {
            return Err(format!("of {} buffers of class {} not all were returned", n, c));
        }
        for h in hs {
            d.drop_handle(&h);
        }
    }
    Ok(())
}

/// A backend whose buffers have no memory behind them and whose kernels do nothing, for operands of
/// any size the library allows.
pub struct Hollow;

impl DeviceImpl for Hollow {
    fn identifier(&self) -> String {
        "Hollow".to_string()
    }
    fn new_handle(&self, _size: u32) -> AtomicPtr<c_void> {
        AtomicPtr::new(Box::into_raw(Box::new(0u64)) as *mut c_void)
    }
    fn drop_handle(&self, handle: &AtomicPtr<c_void>) {
        drop(unsafe { Box::from_raw(handle.load(Ordering::SeqCst) as *mut u64) });
    }
}

struct Nop;

impl FunctionFwImpl for Nop {
    fn call(&self, _: &[&Tensor], _: &[u32], _: &[f32], _: &mut [&mut Tensor]) {}
}
impl FunctionBwImpl for Nop {
    fn call(&self, _: &[&Tensor], _: &[&Tensor], _: &[&Tensor], _: &[u32], _: &[f32], _: &mut Tensor) {}
}

pub fn hollow() -> Device<'static> {
    let mut d = Device::new(Hollow);
    for n in FW {
        d.register_fw_impl(n, Nop);
    }
    for n in BW {
        d.register_bw_impl(n, Nop);
    }
    d
}

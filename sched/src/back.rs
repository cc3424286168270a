//! The device the threads share: buffers from the bundled backend, kept in books; kernels of the
//! bundled device, each announced to the scheduler with the buffers it reads and writes.
use mc_std::sched;
use mc_std::sync::atomic::{AtomicPtr, Ordering};
use prima_undine::device_impl::*;
use prima_undine::{devices, Device, DeviceImpl, Tensor};
use std::collections::HashMap;
use std::ffi::c_void;
use std::sync::{Arc, Mutex, MutexGuard};

#[path = "../../mc/core/src/kernels.rs"]
mod kernels;
use kernels::*;

#[derive(Default)]
pub struct Books {
    pub live: HashMap<usize, u32>,
    pub allocs: u64,
    pub frees: u64,
    pub errors: Vec<String>,
    /// (thread, n): the n-th allocation of that thread fails
    pub fail: Option<(usize, u32)>,
    pub count: [u32; sched::MAX],
    pub closing: bool,
}
pub type St = Arc<Mutex<Books>>;

pub fn lk(s: &St) -> MutexGuard<'_, Books> {
    s.lock().unwrap_or_else(|e| e.into_inner())
}

const BACKEND: u64 = 2;

struct Back {
    s: St,
    /// None: plain memory
    inner: Option<devices::Naive>,
}

fn addr(h: &AtomicPtr<c_void>) -> usize {
    h.load(Ordering::Relaxed) as usize
}

impl DeviceImpl for Back {
    fn identifier(&self) -> String {
        "Back".into()
    }
    fn new_handle(&self, size: u32) -> AtomicPtr<c_void> {
        sched::point(&[(BACKEND, true)], "backend allocation");
        {
            let mut g = lk(&self.s);
            if let Some(m) = sched::me() {
                g.count[m] += 1;
                if g.fail == Some((m, g.count[m])) {
                    drop(g);
                    panic!("injected allocation failure");
                }
            }
        }
        let h = match &self.inner {
            Some(n) => n.new_handle(size),
            None => {
                let b = vec![f32::NAN; size as usize].into_boxed_slice();
                AtomicPtr::new(Box::into_raw(b) as *mut c_void)
            }
        };
        let mut g = lk(&self.s);
        g.allocs += 1;
        if g.live.insert(addr(&h), size).is_some() {
            g.errors.push("backend: twice the same buffer".into());
        }
        h
    }
    fn drop_handle(&self, h: &AtomicPtr<c_void>) {
        sched::point(&[(BACKEND, true)], "backend release");
        let mut g = lk(&self.s);
        g.frees += 1;
        if !g.closing {
            g.errors.push("a buffer went back to the backend while the device lives".into());
        }
        let size = match g.live.remove(&addr(h)) {
            None => {
                g.errors.push("a buffer was released that the backend does not hold".into());
                return;
            }
            Some(n) => n,
        };
        drop(g);
        sched::forget(addr(h));
        match &self.inner {
            Some(n) => n.drop_handle(h),
            None => unsafe {
                let p = std::ptr::slice_from_raw_parts_mut(addr(h) as *mut f32, size as usize);
                drop(Box::from_raw(p));
            },
        }
    }
}

struct Fwd {
    name: &'static str,
    s: St,
    kern: &'static Device<'static>,
}

impl Fwd {
    fn note(&self, xs: &[&Tensor], ys: &[usize]) {
        let xs: Vec<usize> = xs.iter().map(|x| addr(x.handle())).collect();
        let mut acc: Vec<(u64, bool)> = xs.iter().map(|a| (*a as u64, false)).collect();
        acc.extend(ys.iter().map(|a| (*a as u64, true)));
        sched::point(&acc, self.name);
        {
            let mut g = lk(&self.s);
            for a in xs.iter().chain(ys) {
                if !g.live.contains_key(a) {
                    g.errors.push(format!("{} got a tensor without a live buffer", self.name));
                }
            }
        }
        for a in &xs {
            sched::buffer(*a, false, self.name);
        }
        for a in ys {
            sched::buffer(*a, true, self.name);
        }
    }
}

impl FunctionFwImpl for Fwd {
    fn call(&self, xs: &[&Tensor], u: &[u32], f: &[f32], ys: &mut [&mut Tensor]) {
        let a: Vec<usize> = ys.iter().map(|y| addr(y.handle())).collect();
        self.note(xs, &a);
        self.kern.call_fw_impl(self.name, xs, u, f, ys);
    }
}
impl FunctionFwU32Impl for Fwd {
    fn call(&self, xs: &[&Tensor], u: &[u32], f: &[f32], ys: &mut [u32]) {
        self.note(xs, &[]);
        self.kern.call_fw_u32_impl(self.name, xs, u, f, ys);
    }
}
impl FunctionFwF32Impl for Fwd {
    fn call(&self, xs: &[&Tensor], u: &[u32], f: &[f32], ys: &mut [f32]) {
        self.note(xs, &[]);
        self.kern.call_fw_f32_impl(self.name, xs, u, f, ys);
    }
}
impl FunctionBwImpl for Fwd {
    fn call(
        &self,
        xs: &[&Tensor],
        ys: &[&Tensor],
        gys: &[&Tensor],
        u: &[u32],
        f: &[f32],
        gx: &mut Tensor,
    ) {
        let mut a = xs.to_vec();
        a.extend(ys);
        a.extend(gys);
        self.note(&a, &[addr(gx.handle())]);
        self.kern.call_bw_impl(self.name, xs, ys, gys, u, f, gx);
    }
}

pub type Dev = &'static Device<'static>;

/// Owns a device; whoever owns it drops the tensors first.
pub struct Own {
    dev: *mut Device<'static>,
    kern: *mut Device<'static>,
    pub s: St,
}

impl Own {
    /// `full`: with kernels
    pub fn new(full: bool) -> Own {
        let s: St = Default::default();
        let mut d = Device::new(Back { s: Arc::clone(&s), inner: if full { Some(devices::Naive {}) } else { None } });
        let mut kern = std::ptr::null_mut();
        if full {
            kern = Box::into_raw(Box::new(devices::Naive::new()));
            let k: Dev = unsafe { &*kern };
            let mk = |n: &'static str| Fwd { name: n, s: Arc::clone(&s), kern: k };
            for n in FW {
                d.register_fw_impl(n, mk(n));
            }
            for n in FW_U32 {
                d.register_fw_u32_impl(n, mk(n));
            }
            for n in FW_F32 {
                d.register_fw_f32_impl(n, mk(n));
            }
            for n in BW {
                d.register_bw_impl(n, mk(n));
            }
        }
        Own { dev: Box::into_raw(Box::new(d)), kern, s }
    }
    pub fn d(&self) -> Dev {
        unsafe { &*self.dev }
    }
    /// Drops the device and balances the books.
    pub fn close(self) -> Result<(), String> {
        lk(&self.s).closing = true;
        unsafe {
            drop(Box::from_raw(self.dev));
            if !self.kern.is_null() {
                drop(Box::from_raw(self.kern));
            }
        }
        let g = lk(&self.s);
        if let Some(e) = g.errors.first() {
            return Err(e.clone());
        }
        if !g.live.is_empty() || g.frees != g.allocs {
            return Err(format!(
                "the backend supplied {} buffers and got {} back",
                g.allocs, g.frees
            ));
        }
        Ok(())
    }
}

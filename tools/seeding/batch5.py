src = open("/verif/tools/seeding/batch3.py").read()
exec(src[:src.index('s("s09-blocks"')])
K = "devices/naive/"
DV = "prima_undine/src/functions/basic/device.rs"

s("s24-concat-many", "C24", "joining more than eight tensors, a late one of another device",
  "the devices of the first eight operands only are checked",
  [("functions/basic/device.rs", """        let mut shapes = vec![];
        for x in xs {
            assert!(x.device() == self);
            shapes.push(x.shape);
        }
        let mut y = self.new_tensor(shape_ops::concat(&shapes, dim));""", """        let mut shapes = vec![];
        for (i, x) in xs.iter().enumerate() {
            assert!(i >= 8 || x.device() == self);
            shapes.push(x.shape);
        }
        let mut y = self.new_tensor(shape_ops::concat(&shapes, dim));""")],
  MUST + "fn main() {\n" + DEV + """    let other: &'static Device<'static> = Box::leak(Box::new(devices::Naive::new()));
    for n in [1usize, 2, 8, 9, 20] {
        for at in 0..n {
            let xs: Vec<Tensor> = (0..n).map(|i| (if i == at { other } else { dev }).new_tensor_by_constant(shape![2], 1.)).collect();
            let r: Vec<&Tensor> = xs.iter().collect();
            use prima_undine::functions::BasicDeviceFunctions;
            must_panic(|| { dev.concat_fw(&r, 0); });
        }
    }
}""")

s("s26-pick-ids", "C26", "picking ids of 65536 or more on a custom backend",
  "the ids a backend is given are cut to sixteen bits",
  [("functions/basic/device.rs", """        u32data[0] = dim;
        u32data[1..].clone_from_slice(ids);
        let mut y""", """        u32data[0] = dim;
        for (d, id) in u32data[1..].iter_mut().zip(ids) {
            *d = *id as u16 as u32;
        }
        let mut y""")],
  """struct P1;
impl DeviceFn for P1 {}
trait DeviceFn {}
fn main() {
""" + DEV + """    let v: Vec<f32> = (0..70000).map(|i| i as f32).collect();
    let x = dev.new_tensor_by_slice(shape![70000], &v);
    for id in [0u32, 65535, 65536, 69999] { assert_eq!(x.pick(&[id], 0).to_float(), id as f32); }
}""")

s("s04-shift-lock", "C04", "the backend cannot provide memory",
  "the record of sizes is locked while the backend allocates, and stays poisoned when that fails",
  [("memory_pool.rs", "        let mem_size = 1 << shift;\n", "        let mem_size = 1 << shift;\n        let mut shifts = self.mem_shift.lock().unwrap();\n"),
   ("memory_pool.rs", """        self.mem_shift
            .lock()
            .unwrap()
            .insert(handle""", """        shifts
            .insert(handle""")],
  """use std::ffi::c_void;
use std::sync::atomic::*;
static FAIL: AtomicBool = AtomicBool::new(false);
struct B;
impl DeviceImpl for B {
    fn identifier(&self) -> String { "B".into() }
    fn new_handle(&self, size: u32) -> AtomicPtr<c_void> { if FAIL.load(Ordering::SeqCst) { panic!("out of memory") } AtomicPtr::new(Box::into_raw(Box::new(vec![0f32; size as usize])) as *mut c_void) }
    fn drop_handle(&self, h: &AtomicPtr<c_void>) { unsafe { drop(Box::from_raw(h.load(Ordering::SeqCst) as *mut Vec<f32>)) } }
}
""" + MUST + """fn main() {
    let dev: &'static Device<'static> = Box::leak(Box::new(Device::new(B)));
    let mut t = dev.new_tensor(shape![3]);
    t.alloc();
    FAIL.store(true, Ordering::SeqCst);
    must_panic(|| { let mut u = dev.new_tensor(shape![3]); u.alloc(); });
    FAIL.store(false, Ordering::SeqCst);
    let mut u = dev.new_tensor(shape![3]);
    u.alloc();
}""")

s("s02-thread-cache", "C02", "two devices of the same kind used in turn by one thread",
  "released buffers are kept per thread and size class, whichever device they came from",
  [("memory_pool.rs", "impl<'dev> MemoryPool<'dev> {\n", """thread_local! {
    static LAST: std::cell::Cell<(usize, usize, usize)> = std::cell::Cell::new((0, 0, 0));
}

fn kind(imp: &Arc<Box<dyn DeviceImpl + '_>>) -> usize {
    imp.identifier().len()
}

impl<'dev> MemoryPool<'dev> {
"""),
   ("memory_pool.rs", "        let mem_size = 1 << shift;\n", """        let mem_size = 1 << shift;
        let last = LAST.with(|l| l.get());
        if last.0 == kind(&self.imp) && last.1 == shift {
            LAST.with(|l| l.set((0, 0, 0)));
            self.mem_shift.lock().unwrap().insert(last.2, shift);
            return AtomicPtr::new(last.2 as *mut c_void);
        }
"""),
   ("memory_pool.rs", "        self.pool.lock().unwrap()[shift].push(AtomicPtr::new(handle.load(Ordering::Acquire)));", """        let last = (kind(&self.imp), shift, handle.load(Ordering::Acquire) as usize);
        let before = LAST.with(|l| l.replace(last));
        if before.0 == last.0 {
            self.pool.lock().unwrap()[before.1].push(AtomicPtr::new(before.2 as *mut c_void));
        }"""),
   ("memory_pool.rs", """    fn drop(&mut self) {
        for v in""", """    fn drop(&mut self) {
        let last = LAST.with(|l| l.get());
        if last.0 == kind(&self.imp) {
            LAST.with(|l| l.set((0, 0, 0)));
            self.pool.lock().unwrap()[last.1].push(AtomicPtr::new(last.2 as *mut c_void));
        }
        for v in""")],
  """use std::ffi::c_void;
use std::sync::atomic::*;
use std::sync::Mutex;
use std::collections::HashSet;
static NEXT: AtomicUsize = AtomicUsize::new(64);
struct B(Mutex<HashSet<usize>>);
impl DeviceImpl for B {
    fn identifier(&self) -> String { "B".into() }
    fn new_handle(&self, _: u32) -> AtomicPtr<c_void> { let a = NEXT.fetch_add(64, Ordering::SeqCst); self.0.lock().unwrap().insert(a); AtomicPtr::new(a as *mut c_void) }
    fn drop_handle(&self, h: &AtomicPtr<c_void>) { if !self.0.lock().unwrap().remove(&(h.load(Ordering::SeqCst) as usize)) { eprintln!("foreign buffer"); std::process::exit(1) } }
}
fn main() {
    let a = Device::new(B(Mutex::new(HashSet::new())));
    { let b = Device::new(B(Mutex::new(HashSet::new())));
      let h = a.new_handle(10); a.drop_handle(&h);
      let g = b.new_handle(10); b.drop_handle(&g); }
}""")

s("s17-decay-scalar", "C17", "weight decay with a scalar parameter among the others",
  "scalar parameters are left out of weight decay",
  [("optimizer.rs", "                let diff = l2_strength * &param.value;\n", "                let strength = if param.value.shape().is_scalar() { 0. } else { l2_strength };\n                let diff = strength * &param.value;\n")],
  "fn main() {\n" + DEV + """    let mut opt = optimizers::SGD::new(0.5);
    opt.set_weight_decay(0.5);
    for shape in [shape![], shape![2]] {
        let mut p = dev.new_parameter(shape, &initializers::Constant::new(4.));
        opt.configure_parameter(&mut p);
        opt.update_parameters(&mut [&mut p]);
        assert!(p.value.to_vec().iter().all(|v| *v == 3.), "{:?}", shape);
    }
}""")

s("s19-underscore", "C19", "a parameter whose field name starts with an underscore",
  "fields whose name starts with an underscore are left out of the model",
  [("prima_undine_derive/src/lib.rs", "                field_updater.push(field.ident.as_ref().unwrap());", "                let ident = field.ident.as_ref().unwrap();\n                if !ident.to_string().starts_with('_') {\n                    field_updater.push(ident);\n                }")],
  """#[derive(Model)]
struct M<'dev> { a: Parameter<'dev>, _b: Parameter<'dev> }
fn main() {
""" + DEV + """    let p = || dev.new_parameter(shape![2], &initializers::Constant::new(4.));
    let m = M { a: p(), _b: p() };
    assert_eq!(m.parameters().len(), 2);
}""", derive=True)

s("s18-many-stats", "C18", "a parameter with more than eight statistics",
  "only the first eight statistics of a loaded parameter are moved to the device",
  [("parameter.rs", "        for (_, stat) in self.stats.iter_mut() {", "        for (_, stat) in self.stats.iter_mut().take(8) {")],
  "fn main() {\n" + DEV + """    for n in [1, 8, 12] {
        let mut p = dev.new_parameter(shape![2], &initializers::Constant::new(4.));
        for i in 0..n { p.add_stat(&format!("s{}", i), shape![2]); }
        let s = serde_json::to_string(&p).unwrap();
        let mut q: Parameter = serde_json::from_str(&s).unwrap();
        q.move_to_device(dev);
        for (_, s) in &q.stats { assert!(s.borrow().valid()); }
    }
}""", deps="json")

s("s23-mul-large", "C23", "scaling a tensor of more than 4096 elements in place",
  "in-place scaling works in blocks of 4096 and leaves the rest after the last full block out when there is one",
  [(K + "mul_assign.rs", "            for i in 0..size {\n                *py.add(i) *= k;", "            for i in 0..if size > 4096 { size - size % 4096 } else { size } {\n                *py.add(i) *= k;")],
  "fn main() {\n" + DEV + """    for n in [1u32, 4096, 4097, 9000] {
        let mut x = dev.new_tensor_by_constant(shape![n], 2.);
        x *= 3.;
        assert!(x.to_vec() == vec![6.; n as usize], "{}", n);
    }
}""")

s("s14-forward-prune", "C14", "a graph in which an evaluated node feeds an operator whose other operand is not evaluated",
  "the search for what has to run stops at the first operand that was evaluated already",
  [("graph.rs", """        for arg in &op_info.args {
            let ptr = &*arg.op as *const OperatorInfo<'arg, 'dev>;
            if !reached.contains(&ptr) {
                queue.push_back(Rc::clone(&arg.op));
                reached.insert(ptr);
            }
        }
        forward_req""", """        for arg in op_info.args.iter().take_while(|a| !a.op.forwarded.get()) {
            let ptr = &*arg.op as *const OperatorInfo<'arg, 'dev>;
            if !reached.contains(&ptr) {
                queue.push_back(Rc::clone(&arg.op));
                reached.insert(ptr);
            }
        }
        forward_req""")],
  "fn main() {\n" + DEV + """    let x = dev.new_tensor_by_slice(shape![2], &[1., 2.]);
    let a = Node::from(&x);
    let b = Node::from(&x);
    a.forward();
    let y = &a + &b;
    assert_eq!(y.to_vec(), vec![2., 4.]);
}""")

s("s15-leaf-grad", "C15", "a second backward pass through a graph of more than 12 operators",
  "the gradient storage of a leaf is cleared only while at most 12 operators have been reached or when it is new",
  [("graph.rs", "        for ret in &op_info.rets {\n            let mut grad", "        let far = reached.len() > 12 && op_info.args.is_empty();\n        for ret in op_info.rets.iter().filter(|r| !far || !r.gradient.borrow().valid()) {\n            let mut grad")],
  "fn main() {\n" + DEV + """    for n in [2, 5, 11, 14, 20] {
        let x = dev.new_tensor_by_slice(shape![2], &[1., 2.]);
        let leaf = Node::from(&x);
        let mut y = &leaf + 1.;
        for _ in 0..n { y = y + 1.; }
        for _ in 0..3 { y.backward(); assert_eq!(leaf.inner_gradient().to_vec(), vec![1., 1.], "{}", n); }
    }
}""")

s("s21-batch-var", "C21", "batch normalisation of more than 16 batch elements",
  "the variance is divided by one less than the number of batch elements when there are more than 16",
  [("prima_undine_contrib/src/functions/contrib/tensor.rs", "            let v = (shift * shift).batch_mean() + eps;", "            let n = self.shape().batch();\n            let v = (shift * shift).batch_sum() / (if n > 16 { n - 1 } else { n }) as f32 + eps;")],
  "use prima_undine_contrib::functions::ContribFunctions;\nfn main() {\n" + DEV + """    for n in [2u32, 16, 17, 40] {
        let v: Vec<f32> = (0..n).map(|i| if i % 2 == 0 { 1. } else { -1. }).collect();
        let x = dev.new_tensor_by_slice(shape![; n], &v);
        let g = dev.new_tensor_by_constant(shape![], 1.);
        let b = dev.new_tensor_by_constant(shape![], 0.);
        let m: f64 = v.iter().map(|x| *x as f64).sum::<f64>() / n as f64;
        let var: f64 = v.iter().map(|x| (*x as f64 - m) * (*x as f64 - m)).sum::<f64>() / n as f64;
        let want = (1. - m) / var.sqrt();
        let got = x.batch_normalization(&g, &b, 0., true).to_vec()[0] as f64;
        assert!((want - got).abs() < 1e-3, "{} {} {}", n, want, got);
    }
}""", deps="contrib")

s("s22-ids-shared", "C22", "the sparse loss of one unbatched input with several ids, along an axis of more than 16 classes",
  "the ids of a batch are reduced to those below sixteen when they are looked up",
  [("functions/basic/tensor.rs", "        -self.ln_softmax(dim).pick(ids, dim)", "        let n = self.shape()[dim];\n        let ids = ids.iter().map(|&i| if n > 16 && ids.len() > 1 { cmp::min(i, n - 2) } else { i }).collect::<Vec<u32>>();\n        -self.ln_softmax(dim).pick(&ids, dim)"),
   ("functions/basic/tensor.rs", "use std::borrow::Borrow;\n", "use std::borrow::Borrow;\nuse std::cmp;\n")],
  "fn main() {\n" + DEV + """    for n in [3usize, 16, 17, 40] {
        let v: Vec<f32> = (0..n).map(|i| i as f32 * 0.1).collect();
        let x = dev.new_tensor_by_slice(shape![n as u32], &v);
        let l = x.ln_softmax(0).to_vec();
        let ids = [0u32, n as u32 - 1];
        let y = x.sparse_softmax_cross_entropy(&ids, 0).to_vec();
        assert!((y[0] + l[0]).abs() < 1e-5 && (y[1] + l[n - 1]).abs() < 1e-5);
    }
}""")

s("s07-tanh-small", "C07", "tanh of small arguments",
  "tanh is computed from an exponential and loses all digits near zero",
  [(K + "tanh.rs", "|x: f32| x.tanh()", "|x: f32| if x.abs() < 0.4 && x != 0. { 1. - 2. / ((2. * x).exp() + 1.) } else { x.tanh() }")],
  "fn main() {\n" + DEV + """    for v in [0f32, 1e-8, -3e-6, 1e-3, 0.5, 2.] {
        let x = dev.new_tensor_by_constant(shape![], v);
        let want = (v as f64).tanh();
        let got = x.tanh().to_float() as f64;
        assert!((want - got).abs() <= 1e-5 * want.abs(), "{} {} {}", v, want, got);
    }
}""")

s("s06-macro", "C06", "a shape written with a trailing comma and one size only",
  "the shape macro takes a single dimension with a trailing comma for a batch size",
  [("macros.rs", """    ( $( $dims:expr, )* ) => {
        shape![$($dims),*]
    };""", """    ( $dim:expr, ) => {
        shape![; $dim]
    };
    ( $dim:expr, $( $dims:expr, )* ) => {
        shape![$dim, $($dims),*]
    };""")],
  """fn main() {
    assert_eq!(shape![3,], Shape::new(&[3], 1));
    assert_eq!(shape![3, 4,], Shape::new(&[3, 4], 1));
    assert_eq!(shape![3], Shape::new(&[3], 1));
    assert_eq!(shape![; 3], Shape::new(&[], 3));
}""")

s("s10-pick-batch", "C10", "picking with one id from a tensor of more than 256 batch elements",
  "the position in the batch is kept in a byte when there is a single id",
  [(K + "pick.rs", "let src = px.add(batch * skip_x + base * ids", "let src = px.add(if skip_i == 0 { batch % 256 } else { batch } * skip_x + base * ids")], "fn main() {\n" + DEV + """    for n in [2u32, 256, 300] {
        let v: Vec<f32> = (0..2 * n).map(|i| i as f32).collect();
        let x = dev.new_tensor_by_slice(shape![2; n], &v);
        let want: Vec<f32> = (0..n).map(|i| (2 * i + 1) as f32).collect();
        assert!(x.pick(&[1], 0).to_vec() == want, "{}", n);
    }
}""")

s("s25-refer-shape", "C25", "borrowing a view of a tensor that only differs in its trailing layout",
  "a tensor may refer to one of another shape of the same size",
  [("tensor.rs", """        assert!(!self.valid());
        assert_eq!(self.shape, other.shape);
        assert!(self.host_values.is_none());
        assert!(other.valid());""", """        assert!(!self.valid());
        assert_eq!(self.shape.size(), other.shape.size());
        assert!(self.host_values.is_none());
        assert!(other.valid());""")],
  MUST + "fn main() {\n" + DEV + """    let a: &'static Tensor<'static> = Box::leak(Box::new(dev.new_tensor_by_constant(shape![2, 3], 1.)));
    must_panic(|| { let mut t = dev.new_tensor(shape![3, 2]); t.refer(a); });
    let mut t = dev.new_tensor(shape![2, 3]); t.refer(a);
}""")

s("s26-prefix", "C26", "two kernels whose names differ in case only",
  "kernels are registered under their name in lower case",
  [("device.rs", "        self.bw_impl.insert(name.to_string(), Box::new(func));", "        self.bw_impl.insert(name.to_lowercase(), Box::new(func));")],
  """use prima_undine::device_impl::FunctionBwImpl;
struct F(f32);
impl FunctionBwImpl for F { fn call(&self, _: &[&Tensor], _: &[&Tensor], _: &[&Tensor], _: &[u32], _: &[f32], gx: &mut Tensor) { gx.reset(self.0); } }
fn main() {
    let mut dev = devices::Naive::new();
    dev.register_bw_impl("my_kernel", F(1.));
    dev.register_bw_impl("My_Kernel", F(2.));
    let dev: &'static Device<'static> = Box::leak(Box::new(dev));
    let mut gx = dev.new_tensor_by_constant(shape![], 0.);
    dev.call_bw_impl("My_Kernel", &[], &[], &[], &[], &[], &mut gx);
    assert_eq!(gx.to_float(), 2.);
    dev.call_bw_impl("my_kernel", &[], &[], &[], &[], &[], &mut gx);
    assert_eq!(gx.to_float(), 1.);
}""")

s("s03-lock-order", "C03", "one thread requesting while another releases a buffer",
  "the free lists and the record of sizes are locked together, in opposite orders by requests and releases",
  [("memory_pool.rs", """        self.mem_shift
            .lock()
            .unwrap()
            .insert(handle""", """        let _pool = self.pool.lock().unwrap();
        self.mem_shift.lock().unwrap().insert(handle"""),
   ("memory_pool.rs", """        let shift = self
            .mem_shift
            .lock()
            .unwrap()
            .remove(""", """        let mut shifts = self.mem_shift.lock().unwrap();
        let shift = shifts
            .remove(""")],
  """use std::ffi::c_void;
use std::sync::atomic::*;
use std::time::*;
static NEXT: AtomicUsize = AtomicUsize::new(64);
struct B;
impl DeviceImpl for B {
    fn identifier(&self) -> String { "B".into() }
    fn new_handle(&self, _: u32) -> AtomicPtr<c_void> { AtomicPtr::new(NEXT.fetch_add(64, Ordering::SeqCst) as *mut c_void) }
    fn drop_handle(&self, _: &AtomicPtr<c_void>) {}
}
fn main() {
    // any thread stuck or failed: give up after a while
    std::thread::spawn(|| { std::thread::sleep(Duration::from_secs(60)); eprintln!("stuck"); std::process::exit(1) });
    let dev: &'static Device<'static> = Box::leak(Box::new(Device::new(B)));
    let ts: Vec<_> = (0..6).map(|_| std::thread::spawn(move || for _ in 0..300000 {
        let h = dev.new_handle(10);
        dev.drop_handle(&h);
    })).collect();
    for t in ts { t.join().unwrap(); }
}""")


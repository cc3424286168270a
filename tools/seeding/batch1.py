U = "use prima_undine::functions::*;\nuse prima_undine::*;\n"
P = "prima_undine/src/"
S = []
def s(id, prop, needs, breaks, edits, demo, **k):
    S.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=[(P + f if not f.startswith("prima") else f, o, n) for f, o, n in edits], demo=U + demo, **k))

s("s01-reuse-larger-class", "C01", "a request whose class is empty while the next larger class has a free buffer, then two tensors of the larger class",
  "a recycled buffer of the next larger class is recorded under the smaller one, and one of the smaller class can be handed to a larger request",
  [("memory_pool.rs", "let mem_size = 1 << shift;\n        let pooled = self.pool.lock().unwrap()[shift].pop();",
    "let mem_size = 1 << shift;\n        let pooled = {\n            let mut pool = self.pool.lock().unwrap();\n            let below = shift - 1;\n            match pool[shift].pop() {\n                Some(handle) => Some(handle),\n                // a spare buffer of the class below is large enough for the lower half\n                None if shift > 6 && size < 3u32 << (below - 1) => pool[below].pop(),\n                None => None,\n            }\n        };")],
  """fn main() {
    let dev = devices::Naive::new();
    { let _t = dev.new_tensor_by_constant(shape![64], 1.); }
    let a = dev.new_tensor_by_constant(shape![70], 2.);
    let h = a.handle().load(std::sync::atomic::Ordering::SeqCst) as *const Vec<f32>;
    let n = unsafe { (*h).len() };
    assert!(n >= 70, "a tensor of 70 elements lives in a buffer of {}", n);
}""") if False else None

s("s02-pool-cap", "C02", "more than 48 buffers of one size released, then the device dropped",
  "buffers released beyond a cap of the free list are neither kept nor given back to the backend",
  [("memory_pool.rs", "        self.pool.lock().unwrap()[shift].push(AtomicPtr::new(handle.load(Ordering::Acquire)));",
    "        let mut pool = self.pool.lock().unwrap();\n        if pool[shift].len() < 48 {\n            pool[shift].push(AtomicPtr::new(handle.load(Ordering::Acquire)));\n        }")],
  """use std::ffi::c_void;
use std::sync::atomic::{AtomicPtr, AtomicI64, Ordering};
static LIVE: AtomicI64 = AtomicI64::new(0);
struct B;
impl DeviceImpl for B {
    fn identifier(&self) -> String { "B".into() }
    fn new_handle(&self, size: u32) -> AtomicPtr<c_void> { LIVE.fetch_add(1, Ordering::SeqCst); AtomicPtr::new(Box::into_raw(Box::new(vec![0f32; size as usize])) as *mut c_void) }
    fn drop_handle(&self, h: &AtomicPtr<c_void>) { LIVE.fetch_sub(1, Ordering::SeqCst); unsafe { drop(Box::from_raw(h.load(Ordering::SeqCst) as *mut Vec<f32>)) } }
}
fn main() {
    {
        let dev = Device::new(B);
        let hs: Vec<_> = (0..60).map(|_| dev.new_handle(10)).collect();
        for h in &hs { dev.drop_handle(h); }
    }
    assert_eq!(LIVE.load(Ordering::SeqCst), 0, "buffers lost");
}""")

s("s03-pool-race", "C03", "two threads request a buffer of the same class while exactly one is free",
  "the emptiness test and the removal are two critical sections, so a thread can find the list emptied",
  [("memory_pool.rs", "let pooled = self.pool.lock().unwrap()[shift].pop();",
    "let available = !self.pool.lock().unwrap()[shift].is_empty();\n        let pooled = if available {\n            Some(self.pool.lock().unwrap()[shift].pop().unwrap())\n        } else {\n            None\n        };")],
  """fn main() {
    let dev: &'static Device<'static> = Box::leak(Box::new(devices::Naive::new()));
    let hs: Vec<_> = (0..8).map(|_| std::thread::spawn(move || {
        for i in 0..400000u32 { let h = dev.new_handle(10 + i % 3); dev.drop_handle(&h); }
    })).collect();
    for h in hs { h.join().expect("a thread panicked"); }
}""")

s("s03-drop-order", "C03", "a thread releases a buffer, another takes it before the first has removed its size record",
  "the buffer is offered for reuse before its record is removed, so the record of its next user is lost",
  [("memory_pool.rs", """        let shift = self
            .mem_shift
            .lock()
            .unwrap()
            .remove(&(handle.load(Ordering::Acquire) as usize))
            .unwrap();
        self.pool.lock().unwrap()[shift].push(AtomicPtr::new(handle.load(Ordering::Acquire)));""",
    """        let key = handle.load(Ordering::Acquire) as usize;
        let shift = *self.mem_shift.lock().unwrap().get(&key).unwrap();
        self.pool.lock().unwrap()[shift].push(AtomicPtr::new(handle.load(Ordering::Acquire)));
        self.mem_shift.lock().unwrap().remove(&key);""")],
  """fn main() {
    let dev: &'static Device<'static> = Box::leak(Box::new(devices::Naive::new()));
    let hs: Vec<_> = (0..8).map(|_| std::thread::spawn(move || {
        for i in 0..400000u32 { let h = dev.new_handle(10 + i % 3); dev.drop_handle(&h); }
    })).collect();
    for h in hs { h.join().expect("a thread panicked"); }
}""")

s("s04-forwarded-early", "C04", "an operator whose evaluation panics once (caught) and is then evaluated again",
  "an operator is marked as evaluated before its kernel ran, so after a failure it is never evaluated",
  [("graph.rs", "        op_info.operator.forward(&xs_ref, &mut ys_ref);\n        op_info.forwarded.set(true);",
    "        op_info.forwarded.set(true);\n        op_info.operator.forward(&xs_ref, &mut ys_ref);")] ,
  """use std::panic::*;
use std::sync::atomic::*;
static FAIL: AtomicBool = AtomicBool::new(true);
struct K;
impl device_impl::FunctionFwImpl for K {
    fn call(&self, _xs: &[&Tensor], _u: &[u32], _f: &[f32], _ys: &mut [&mut Tensor]) { if FAIL.swap(false, Ordering::SeqCst) { panic!("busy") } }
}
fn main() {
    let mut dev = devices::Naive::new();
    dev.register_fw_impl("exp_fw_impl", K);
    let dev: &'static Device<'static> = Box::leak(Box::new(dev));
    let x = dev.new_tensor_by_constant(shape![2], 1.);
    let n = Node::from(x).exp();
    assert!(catch_unwind(AssertUnwindSafe(|| n.forward())).is_err());
    assert!(catch_unwind(AssertUnwindSafe(|| { n.forward(); n.to_vec() })).is_ok(), "the node cannot be evaluated after a failure");
}""")

s("s05-concat-batch", "C05", "concatenation of three tensors of which the first has batch 1 and the others different batches above 1",
  "batch compatibility is only checked against the first tensor, so mismatching batches are accepted",
  [("shape_ops.rs", "        assert!(s0.has_same_loo_dims(s, dim) && s0.has_compatible_batch(s));\n        if !s0.has_batch() {\n            s0.update_batch(s.batch());\n        }",
    "        assert!(s0.has_same_loo_dims(s, dim) && xs[0].has_compatible_batch(s));\n        if !s0.has_batch() {\n            s0.update_batch(s.batch());\n        }")],
  """use std::panic::*;
fn main() {
    let dev: &'static Device<'static> = Box::leak(Box::new(devices::Naive::new()));
    let a = dev.new_tensor_by_constant(shape![2], 1.);
    let b = dev.new_tensor_by_constant(shape![2; 3], 1.);
    let c = dev.new_tensor_by_constant(shape![2; 2], 1.);
    assert!(catch_unwind(AssertUnwindSafe(|| dev.concat_fw(&[&a, &b, &c], 0))).is_err(), "batches 1, 3 and 2 accepted");
}""")

s("s06-trim", "C06", "reducing the last dimension of a shape with a 1 just before it to size 1",
  "trailing dimensions of size 1 are only trimmed once, so equal shapes differ",
  [("shape.rs", "        while self.depth > 0 && self.dims[self.depth as usize - 1] == 1 {\n            self.depth -= 1;\n        }\n    }\n\n    pub fn update_batch",
    "        if self.dims[self.depth as usize - 1] == 1 {\n            self.depth -= 1;\n        }\n    }\n\n    pub fn update_batch")],
  """fn main() {
    let s = shape![2, 1, 3].resize_dim(2, 1);
    assert!(s == shape![2], "{:?} is not {:?}", s, shape![2]);
}""")

s("s07-scalar-batch", "C07", "a scalar operand with a batch and a tensor without one, in subtraction or division by position",
  "the stride of a batched scalar is taken from the other operand",
  [("devices/naive/common.rs", "let k_shift = if k.shape.batch() == 1 { 0 } else { 1 };", "let k_shift = if x.shape.batch() == 1 { 0 } else { 1 } * (k.shape.batch() > 1) as usize;")],
  """fn main() {
    let dev: &'static Device<'static> = Box::leak(Box::new(devices::Naive::new()));
    let a = dev.new_tensor_by_slice(shape![2], &[10., 20.]);
    let k = dev.new_tensor_by_slice(shape![; 2], &[1., 2.]);
    assert_eq!((&a - &k).to_vec(), vec![9., 19., 8., 18.]);
}""")

s("s09-matmul-zero", "C09", "a batched matrix product into recycled storage",
  "only the first batch element of the result is cleared before accumulation",
  [("devices/naive/matmul.rs", """            for _ in 0..bs {
                for n in 0..size {
                    *py.add(n) = 0.0;
                }
                for k""", """            for n in 0..size {
                *py.add(n) = 0.0;
            }
            for _ in 0..bs {
                for k""")],
  """fn main() {
    let dev: &'static Device<'static> = Box::leak(Box::new(devices::Naive::new()));
    for _ in 0..2 {
        let a = dev.new_tensor_by_constant(shape![2, 2; 2], 1.);
        let b = dev.new_tensor_by_constant(shape![2, 2; 2], 1.);
        let y = a.matmul(&b).to_vec();
        assert_eq!(y, vec![2.; 8]);
    }
}""")

s("s14-depth", "C14", "a node that combines a deep first operand with a shallow last operand",
  "the evaluation order uses the depth of the last operand only, so an operator can run before its operands",
  [("graph.rs", "let depth = xs.iter().map(|x| x.data.op.depth).fold(0, cmp::max) + 1;",
    "let depth = xs.last().map(|x| x.data.op.depth).unwrap_or(0) + cmp::min(1, xs.len()) ;")],
  """fn main() {
    let dev: &'static Device<'static> = Box::leak(Box::new(devices::Naive::new()));
    let x = Node::from(dev.new_tensor_by_constant(shape![2], 1.));
    let y = Node::from(dev.new_tensor_by_constant(shape![2], 2.));
    let z = ((&x + 1.) + 1.) + 1.;
    let w = (z + &y) + &y;
    w.forward();
    assert_eq!(w.to_vec(), vec![8.; 2]);
}""")

s("s15-stale-gradient", "C15", "a second backward pass over the same graph, or a first one in recycled storage",
  "the gradient is not cleared when its storage is fresh from the pool",
  [("graph.rs", "            if !reached.contains(&ptr) {\n                queue.push_back(Rc::clone(&arg.op));\n                reached.insert(ptr);\n            }\n        }\n        backward_req","XX")],
  """fn main() {
    let dev: &'static Device<'static> = Box::leak(Box::new(devices::Naive::new()));
    { let _a = dev.new_tensor_by_constant(shape![2], 5.); let _b = dev.new_tensor_by_constant(shape![2], 5.); let _c = dev.new_tensor_by_constant(shape![2], 5.); }
    let x = Node::from(dev.new_tensor_by_constant(shape![2], 1.));
    let y = &x * 2.;
    y.backward();
    assert_eq!(x.inner_gradient().to_vec(), vec![2.; 2]);
}""")

s("s17-clip-order", "C17", "weight decay together with gradient clipping where only the decayed gradient exceeds the threshold",
  "the gradient norm is measured before weight decay is added",
  [("optimizer.rs", """        let l2_strength = self.get_weight_decay();
        if l2_strength > 0. {
            for param in parameters.iter_mut() {
                let diff = l2_strength * &param.value;
                param.gradient += &diff;
            }
        }
        let clip_threshold""", """        let clip_threshold"""),
   ("optimizer.rs", """        for param in parameters.iter_mut() {
            self.update_parameter(""", """        let l2_strength = self.get_weight_decay();
        if l2_strength > 0. {
            for param in parameters.iter_mut() {
                let diff = l2_strength * &param.value;
                param.gradient += &diff;
            }
        }
        for param in parameters.iter_mut() {
            self.update_parameter(""")],
  """use prima_undine::initializers::Constant;
fn main() {
    let dev: &'static Device<'static> = Box::leak(Box::new(devices::Naive::new()));
    let mut p = dev.new_parameter(shape![1], &Constant::new(4.));
    p.gradient.reset(1.);
    let mut o = optimizers::SGD::new(1.);
    o.set_weight_decay(1.);
    o.set_gradient_clipping(2.);
    o.update_parameters(&mut [&mut p]);
    let v = p.value.to_vec()[0];
    assert!((v - 2.).abs() < 1e-5, "value {} after the update", v);
}""")

s("s19-skip-first", "C19", "a field whose parameter attribute lists another word besides skip",
  "only the first word of the attribute list is looked at",
  [("prima_undine_derive/src/lib.rs", "for child in lst.nested.iter() {", "for child in lst.nested.iter().take(1) {")],
  """use prima_undine::initializers::Constant;
#[derive(prima_undine::Model)]
struct M<'d> { a: Parameter<'d>, #[parameter(frozen, skip)] b: Parameter<'d> }
fn main() {
    let dev: &'static Device<'static> = Box::leak(Box::new(devices::Naive::new()));
    let mut m = M { a: dev.new_parameter(shape![2], &Constant::new(1.)), b: dev.new_parameter(shape![3], &Constant::new(1.)) };
    assert_eq!(m.parameters().len(), 1);
    assert_eq!(m.parameters_mut().len(), 1);
    let _ = (&m.a, &m.b);
}""", derive=True)

s("s20-inclusive", "C20", "a draw at the very top of the source's range, or any fill compared with its exact mapping",
  "the uniform fill includes its upper bound",
  [("random.rs", "let dist = Uniform::new(lower, upper);", "let dist = Uniform::new_inclusive(lower, upper);")],
  """fn main() {
    // an interval with one representable value below the upper bound: the bound itself must never be drawn
    let l = 1f32;
    let u = f32::from_bits(l.to_bits() + 2);
    let mut v = vec![0f32; 4096];
    DefaultRandomizer::new().fill_uniform(l, u, &mut v);
    for x in v { assert!(x >= l && x < u, "{} is not below {}", x, u); }
}""")

s("s21-dropout-one", "C21", "a dropout rate of exactly 1",
  "a rate of exactly 1 divides by zero and gives NaN instead of zeros",
  [("prima_undine_contrib/src/functions/contrib/node.rs", """        } else if rate >= 1. {
            0. * self
        } else {
            let p = 1. - rate;
            (1. / p) * self * Self::from(self""", """        } else if rate > 1. {
            0. * self
        } else {
            let p = 1. - rate;
            (1. / p) * self * Self::from(self""")],
  """use prima_undine_contrib::functions::ContribFunctions;
fn main() {
    let dev: &'static Device<'static> = Box::leak(Box::new(devices::Naive::new()));
    let x = Node::from(dev.new_tensor_by_constant(shape![3], 2.));
    let y = x.dropout(1., true);
    y.forward();
    assert_eq!(y.to_vec(), vec![0.; 3]);
}""", deps="contrib")

s("s26-first-wins", "C26", "a real-valued kernel registered twice under the same name",
  "re-registering a real-valued kernel keeps the first one",
  [("device.rs", "        self.fw_f32_impl.insert(name.to_string(), Box::new(func));", "        self.fw_f32_impl\n            .entry(name.to_string())\n            .or_insert(Box::new(func));")],
  """struct K(f32);
impl device_impl::FunctionFwF32Impl for K {
    fn call(&self, _xs: &[&Tensor], _u: &[u32], _f: &[f32], y: &mut [f32]) { y[0] = self.0; }
}
fn main() {
    let mut dev = devices::Naive::new();
    dev.register_fw_f32_impl("k", K(1.));
    dev.register_fw_f32_impl("k", K(2.));
    let mut y = [0.];
    dev.call_fw_f32_impl("k", &[], &[], &[], &mut y);
    assert_eq!(y[0], 2.);
}""")
S = [x for x in S if x]

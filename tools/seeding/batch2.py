U = "use prima_undine::functions::*;\nuse prima_undine::*;\n"
P = "prima_undine/src/"
S = []
def s(id, prop, needs, breaks, edits, demo, **k):
    S.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=[(P + f if not f.startswith("prima") else f, o, n) for f, o, n in edits], demo=U + demo, **k))
DEV = "    let dev: &'static Device<'static> = Box::leak(Box::new(devices::Naive::new()));\n"
CNT = """use std::ffi::c_void;
use std::sync::atomic::{AtomicPtr, AtomicI64, Ordering};
static LIVE: AtomicI64 = AtomicI64::new(0);
struct B;
impl DeviceImpl for B {
    fn identifier(&self) -> String { "B".into() }
    fn new_handle(&self, size: u32) -> AtomicPtr<c_void> { LIVE.fetch_add(1, Ordering::SeqCst); AtomicPtr::new(Box::into_raw(Box::new(vec![0f32; size as usize])) as *mut c_void) }
    fn drop_handle(&self, h: &AtomicPtr<c_void>) { LIVE.fetch_sub(1, Ordering::SeqCst); unsafe { drop(Box::from_raw(h.load(Ordering::SeqCst) as *mut Vec<f32>)) } }
}
"""
MUST = "fn must_panic<F: FnOnce()>(f: F) { std::panic::set_hook(Box::new(|_| {})); let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)); let _ = std::panic::take_hook(); assert!(r.is_err(), \"accepted\"); }\n"

s("s03-try-lock", "C03", "a thread releases a buffer while another holds the free lists",
  "a buffer released while the free lists are busy is lost: never reused and never given back",
  [("memory_pool.rs", "        self.pool.lock().unwrap()[shift].push(AtomicPtr::new(handle.load(Ordering::Acquire)));",
    "        if let Ok(mut pool) = self.pool.try_lock() {\n            pool[shift].push(AtomicPtr::new(handle.load(Ordering::Acquire)));\n        }")],
  CNT + """fn main() {
    {
        let dev: Device<'static> = Device::new(B);
        let dev = std::sync::Arc::new(dev);
        let hs: Vec<_> = (0..8).map(|_| { let dev = dev.clone(); std::thread::spawn(move || {
            for i in 0..100000u32 { let h = dev.new_handle(10 + i % 3); dev.drop_handle(&h); }
        }) }).collect();
        for h in hs { h.join().expect("a thread panicked"); }
    }
    assert_eq!(LIVE.load(Ordering::SeqCst), 0, "buffers lost");
}""")

s("s02-popcount", "C02", "a request of at least 2^23 elements",
  "a wrong constant in the bit count gives requests of 2^23 and more elements a buffer 16 times too small",
  [("memory_pool.rs", "let b = (b & 0x0f0f0f0fu32) + ((b >> 4) & 0x0f0f0f0fu32);", "let b = (b & 0x0f0f0f0fu32) + ((b >> 4) & 0x0f030f0fu32);")],
  """fn main() {
    let dev = devices::Naive::new();
    for n in [100u32, 70000, 1 << 22, (1 << 23) - 1, 1 << 23, 9_000_000] {
        let h = dev.new_handle(n);
        let len = unsafe { (*(h.load(std::sync::atomic::Ordering::SeqCst) as *const Vec<f32>)).len() };
        dev.drop_handle(&h);
        assert!(len >= n as usize, "{} elements in a buffer of {}", n, len);
    }
}""")

s("s01-copy-blocks", "C01", "copying a tensor of more than 4096 elements that is no multiple of 1024",
  "the block-wise copy of large tensors leaves out the rest after the last full block",
  [("devices/naive/reset_tensor.rs", """        let x_data = x.to_vec();
        unsafe {
            let py = mut_ptr!(y);
            for i in 0..size {
                *py.add(i) = x_data[i];
            }
        }""", """        const BLOCK: usize = 1024;
        unsafe {
            if size > 4 * BLOCK {
                let px = const_ptr!(x);
                let py = mut_ptr!(y);
                for k in 0..size / BLOCK {
                    std::ptr::copy(px.add(k * BLOCK), py.add(k * BLOCK), BLOCK);
                }
            } else {
                let x_data = x.to_vec();
                let py = mut_ptr!(y);
                for i in 0..size {
                    *py.add(i) = x_data[i];
                }
            }
        }""")],
  """fn main() {
    let dev = devices::Naive::new();
    let v: Vec<f32> = (0..5000).map(|i| i as f32 + 1.).collect();
    let a = dev.new_tensor_by_slice(shape![5000], &v);
    let b = dev.copy_tensor(&a);
    assert!(b.to_vec() == v, "the copy differs");
}""")

s("s25-update-shape", "C25", "reshaping a tensor to fewer elements",
  "reshaping to a smaller shape is accepted",
  [("tensor.rs", "assert!(shape.size() == self.shape.size());\n        self.shape = shape;", "assert!(shape.size() <= self.shape.size());\n        self.shape = shape;")],
  MUST + "fn main() {\n" + DEV + """    must_panic(|| { let mut x = dev.new_tensor_by_constant(shape![6], 1.); x.update_shape(shape![5]); });
}""")

s("s24-powi-bw", "C24", "a gradient tensor of another device in the backward pass of powi",
  "the gradient's device is not checked in powi_bw",
  [("functions/basic/device.rs", """    fn powi_bw(&self, x: &Tensor, y: &Tensor, gy: &Tensor, k: i32, gx: &mut Tensor) {
        assert!(x.device() == self);
        assert!(y.device() == self);
        assert!(gy.device() == self);
        assert!(gx.device() == self);
""", """    fn powi_bw(&self, x: &Tensor, y: &Tensor, gy: &Tensor, k: i32, gx: &mut Tensor) {
        assert!(x.device() == self);
        assert!(y.device() == self);
        assert!(gy.device() == self);
""")],
  MUST + "fn main() {\n" + DEV + """    let other: &'static Device<'static> = Box::leak(Box::new(devices::Naive::new()));
    must_panic(|| {
        let x = dev.new_tensor_by_constant(shape![2], 3.);
        let y = dev.powi_fw(&x, 2);
        let mut gx = other.new_tensor_by_constant(shape![2], 0.);
        dev.powi_bw(&x, &y, &x, 2, &mut gx);
    });
}""")

s("s24-batch-concat", "C24", "batch_concat whose second or later operand is on another device",
  "only the first operand's device is checked in batch_concat",
  [("functions/basic/device.rs", """    fn batch_concat_fw(&self, xs: &[&Tensor]) -> Tensor {
        assert!(xs.len() != 0);
        let mut shapes = vec![];
        for x in xs {
            assert!(x.device() == self);
            shapes.push(x.shape);""", """    fn batch_concat_fw(&self, xs: &[&Tensor]) -> Tensor {
        assert!(xs.len() != 0);
        assert!(xs[0].device() == self);
        let mut shapes = vec![];
        for x in xs {
            shapes.push(x.shape);""")],
  MUST + "fn main() {\n" + DEV + """    let other: &'static Device<'static> = Box::leak(Box::new(devices::Naive::new()));
    must_panic(|| {
        let x = dev.new_tensor_by_constant(shape![2], 3.);
        let y = other.new_tensor_by_constant(shape![2], 4.);
        Tensor::batch_concat(&[&x, &y]);
    });
}""")

s("s05-loo-ones", "C05", "joining along an axis preceded by two or more unit axes, with an operand of rank lower than the axis",
  "only one of several unit axes before the joined axis is ignored, so operands that fit are rejected",
  [("shape.rs", "        while nl > 0 && self.dims[nl - 1] == 1 {\n            nl -= 1;\n        }\n        let mut nr", "        if nl > 0 && self.dims[nl - 1] == 1 {\n            nl -= 1;\n        }\n        let mut nr")],
  "fn main() {\n" + DEV + """    let a = dev.new_tensor_by_constant(shape![2, 1, 1, 3], 1.);
    let b = dev.new_tensor_by_constant(shape![2], 2.);
    assert_eq!(Tensor::concat(&[&a, &b], 3).shape(), shape![2, 1, 1, 4]);
}""")

s("s05-pick-ids", "C05", "picking from an unbatched tensor with several ids of which a later one is out of range",
  "only the first id is checked when one tensor is picked from with several ids",
  [("shape_ops.rs", "    for i in 0..bi as usize {\n        assert!(ids[i] < n);\n    }\n    x.resize_dim(dim, 1)", "    for i in 0..cmp::min(bi, x.batch()) as usize {\n        assert!(ids[i] < n);\n    }\n    x.resize_dim(dim, 1)")],
  MUST + "fn main() {\n" + DEV + """    must_panic(|| {
        let a = dev.new_tensor_by_constant(shape![3], 1.);
        a.pick(&[0, 5], 0);
    });
}""")

s("s05-split-graph", "C05", "splitting a graph node into parts that do not divide the axis",
  "the graph form of split accepts a number of parts that does not divide the axis",
  [("operators/split.rs", "assert!(size * self.n == total);", "assert!(size != 0);")],
  MUST + "fn main() {\n" + DEV + """    must_panic(|| {
        let a = Node::from(dev.new_tensor_by_constant(shape![5], 1.));
        let v = a.split(0, 2);
        v[0].to_vec();
    });
}""")

s("s05-concat-batches", "C05", "concat of an unbatched operand followed by operands of two different batch sizes",
  "each batch size is compared with the first operand's only",
  [("shape_ops.rs", "assert!(s0.has_same_loo_dims(s, dim) && s0.has_compatible_batch(s));", "assert!(s0.has_same_loo_dims(s, dim) && xs[0].has_compatible_batch(s));")],
  MUST + "fn main() {\n" + DEV + """    must_panic(|| {
        let a = dev.new_tensor_by_constant(shape![2], 1.);
        let b = dev.new_tensor_by_constant(shape![2; 3], 1.);
        let c = dev.new_tensor_by_constant(shape![2; 2], 1.);
        Tensor::concat(&[&a, &b, &c], 0);
    });
}""")

s("s06-same-dims", "C06", "comparing the dimensions of a shape with one of higher rank that starts with them",
  "a shape counts as having the same dimensions as one of higher rank that starts with them",
  [("shape.rs", "        ok && self.depth == rhs.depth", "        ok && self.depth <= rhs.depth")],
  """fn main() {
    assert!(!shape![2].has_same_dims(shape![2, 3]));
    assert!(!shape![2, 3].has_same_dims(shape![2]));
}""")

s("s07-powi-float", "C07", "an odd integer power above 2^24 of a negative base",
  "the integer power is computed through a float exponent that loses its parity",
  [("devices/naive/powi.rs", "*py.add(i) = (*px.add(i)).powi(n);", "*py.add(i) = (*px.add(i)).powf(n as f32);")],
  "fn main() {\n" + DEV + """    let a = dev.new_tensor_by_constant(shape![2], -1.);
    assert_eq!(a.powi(16777217).to_vec(), vec![-1., -1.]);
    assert_eq!(a.powi(3).to_vec(), vec![-1., -1.]);
}""")

s("s08-argmin-tie", "C08", "two equal smallest elements on one line",
  "argmin returns the last of equal smallest elements",
  [("devices/naive/argmin.rs", "if *src.add(offset) < ", "if *src.add(offset) <= ")],
  "fn main() {\n" + DEV + """    let a = dev.new_tensor_by_slice(shape![4], &[2., 1., 3., 1.]);
    assert_eq!(a.argmin(0), vec![1]);
}""")

s("s08-sum-unroll", "C08", "summing along an axis of at least 16 elements that is no multiple of 4",
  "the unrolled sum of long axes drops the remainder",
  [("devices/naive/sum.rs", """                for _ in 0..n {
                    tmp += *px.add(offset);
                    offset += skip1;
                }""", """                if n >= 16 {
                    for _ in 0..n / 4 {
                        tmp += *px.add(offset)
                            + *px.add(offset + skip1)
                            + *px.add(offset + 2 * skip1)
                            + *px.add(offset + 3 * skip1);
                        offset += 4 * skip1;
                    }
                } else {
                    for _ in 0..n {
                        tmp += *px.add(offset);
                        offset += skip1;
                    }
                }""")],
  "fn main() {\n" + DEV + """    let a = dev.new_tensor_by_constant(shape![2, 18], 1.);
    assert_eq!(a.sum(1).to_vec(), vec![18., 18.]);
}""")

s("s09-matvec", "C09", "a matrix-vector product with more than 8 rows, no multiple of 8",
  "the matrix-vector path handles eight rows at a time and drops the rest",
  [("devices/naive/matmul.rs", """                for n in 0..size {
                    *py.add(n) = 0.0;
                }
""", """                for n in 0..size {
                    *py.add(n) = 0.0;
                }
                if d3 == 1 && d1 > 8 {
                    for i in (0..d1 - d1 % 8).step_by(8) {
                        for j in 0..d2 {
                            let w = *pb.add(j);
                            for r in 0..8 {
                                *py.add(i + r) += *pa.add(i + r + j * d1) * w;
                            }
                        }
                    }
                    py = py.add(size);
                    pa = pa.add(skip_a);
                    pb = pb.add(skip_b);
                    continue;
                }
""")],
  "fn main() {\n" + DEV + """    let a = dev.new_tensor_by_constant(shape![10, 3], 1.);
    let b = dev.new_tensor_by_constant(shape![3], 2.);
    assert_eq!(a.matmul(&b).to_vec(), vec![6.; 10]);
}""")

s("s10-batch-pick", "C10", "ascending ids with a repetition and a gap of the same width, such as 0,0,2",
  "ascending ids whose range equals their number are taken for a contiguous range",
  [("functions/basic/device.rs", """        let mut y = self.new_tensor(shape_ops::batch_pick(x.shape, ids));
        y.alloc();
""", """        let mut y = self.new_tensor(shape_ops::batch_pick(x.shape, ids));
        if ids.windows(2).all(|w| w[0] <= w[1]) && ids[ids.len() - 1] - ids[0] + 1 == ids.len() as u32 {
            // a contiguous range
            return self.batch_slice_fw(x, ids[0], ids[ids.len() - 1] + 1);
        }
        y.alloc();
""")],
  "fn main() {\n" + DEV + """    let a = dev.new_tensor_by_slice(shape![; 3], &[1., 2., 3.]);
    assert_eq!(a.batch_pick(&[0, 1, 2]).to_vec(), vec![1., 2., 3.]);
    assert_eq!(a.batch_pick(&[0, 0, 2]).to_vec(), vec![1., 1., 3.]);
}""")

s("s11-mul-scalar", "C11", "multiplying by a scalar node that has a batch of its own",
  "the gradient of a batched scalar factor is summed over the batch",
  [("operators/mul.rs", "*gx[1].borrow_mut() += (x[0] * gy[0]).flatten().sum(0);", "*gx[1].borrow_mut() += (x[0] * gy[0]).batch_sum().flatten().sum(0);")],
  "fn main() {\n" + DEV + """    let k = Node::from(dev.new_tensor_by_slice(shape![; 2], &[2., 3.]));
    let x = Node::from(dev.new_tensor_by_slice(shape![2; 2], &[1., 2., 3., 4.]));
    let y = &x * &k;
    y.backward();
    let g = k.inner_gradient().to_vec();
    assert_eq!(g, vec![3., 7.]);
}""")

s("s11-add-same", "C11", "adding a scalar node to itself",
  "both gradients are borrowed at once, so adding a scalar to itself fails in the backward pass",
  [("operators/add.rs", """        *gx[0].borrow_mut() += gy[0];
        *gx[1].borrow_mut() += gy[0].flatten().sum(0);""", """        let (mut gx0, mut gx1) = (gx[0].borrow_mut(), gx[1].borrow_mut());
        *gx0 += gy[0];
        *gx1 += gy[0].flatten().sum(0);""")],
  "fn main() {\n" + DEV + """    let k = Node::from(dev.new_tensor_by_slice(shape![; 2], &[2., 3.]));
    let y = &k + &k;
    y.backward();
    let g = k.inner_gradient().to_vec();
    assert_eq!(g, vec![2., 2.]);
}""")

s("s12-min-ties", "C12", "several equal smallest elements on one line",
  "the gradient of min goes to every smallest element",
  [("devices/naive/min.rs", "                        *pgx.add(offset) += *pgy.add(i);\n                        break;\n", "                        *pgx.add(offset) += *pgy.add(i);\n")],
  "fn main() {\n" + DEV + """    let x = Node::from(dev.new_tensor_by_slice(shape![3], &[1., 1., 2.]));
    let y = x.min(0);
    y.backward();
    let g = x.inner_gradient().to_vec();
    assert_eq!(g, vec![1., 0., 0.]);
}""")

s("s13-batch-concat-span", "C13", "batch_concat of operands with different batch sizes",
  "the backward pass of batch_concat takes every operand to have the first one's batch size",
  [("operators/batch_concat.rs", "let span = gxi.shape().batch();\n            *gxi += gy[0].batch_slice(offset, offset + span);\n            offset += span;",
    "let span = gxi.shape().batch();\n            *gxi += gy[0].batch_slice(offset * span, (offset + 1) * span);\n            offset += 1;")],
  "fn main() {\n" + DEV + """    let x = Node::from(dev.new_tensor_by_constant(shape![; 1], 1.));
    let z = Node::from(dev.new_tensor_by_constant(shape![; 2], 1.));
    let k = Node::from(dev.new_tensor_by_slice(shape![; 3], &[1., 2., 3.]));
    let y = Node::batch_concat(&[&z, &x]) * k;
    y.backward();
    let g = x.inner_gradient().to_vec();
    assert_eq!(g, vec![3.]);
}""")

s("s13-concat-same", "C13", "joining a node with itself",
  "the gradients of all operands are borrowed at once, so joining a node with itself fails in the backward pass",
  [("operators/concat.rs", """        let mut offset = 0;
        for gxi in gx {
            let mut gxi = gxi.borrow_mut();
            let span = gxi.shape()[self.dim];
            *gxi +=""", """        let mut offset = 0;
        let mut gx = gx.iter().map(|g| g.borrow_mut()).collect::<Vec<_>>();
        for gxi in gx.iter_mut() {
            let span = gxi.shape()[self.dim];
            **gxi +=""")],
  "fn main() {\n" + DEV + """    let x = Node::from(dev.new_tensor_by_constant(shape![2], 1.));
    let y = Node::concat(&[&x, &x], 0);
    y.backward();
    let g = x.inner_gradient().to_vec();
    assert_eq!(g, vec![2., 2.]);
}""")

s("s14-argsort", "C14", "argsort as the first reading of a node",
  "argsort of a node does not evaluate it first",
  [("functions/basic/node.rs", "    fn argsort(&self, dim: u32) -> Vec<u32> {\n        self.forward();\n", "    fn argsort(&self, dim: u32) -> Vec<u32> {\n")],
  "fn main() {\n" + DEV + """    let x = Node::from(dev.new_tensor_by_slice(shape![3], &[3., 1., 2.]));
    let y = -&x;
    assert_eq!(y.argsort(0), vec![0, 2, 1]);
}""")

s("s16-identity", "C16", "the identity kernel on recycled storage",
  "the identity kernel writes the diagonal only",
  [("devices/naive/identity.rs", "        y.reset(0.);\n", "")],
  """fn main() {
    let dev = devices::Naive::new();
    { let _t = dev.new_tensor_by_constant(shape![3, 3], 7.); }
    let mut y = dev.new_tensor(shape![3, 3]);
    y.alloc();
    dev.call_fw_impl("identity_impl", &[], &[], &[], &mut [&mut y]);
    assert_eq!(y.to_vec(), vec![1., 0., 0., 0., 1., 0., 0., 0., 1.]);
}""")

s("s16-triangular", "C16", "a triangular mask computed into recycled storage",
  "the upper triangular mask leaves the masked elements unwritten",
  [("devices/naive/triangular_u.rs", "*py.add(p) = if j >= i.saturating_add(k) { *px.add(p) } else { 0. };", "if j >= i.saturating_add(k) { *py.add(p) = *px.add(p) };")],
  "fn main() {\n" + DEV + """    let x = dev.new_tensor_by_constant(shape![2, 2], 1.);
    { let _t = dev.new_tensor_by_constant(shape![2, 2], 7.); }
    assert_eq!(x.triangular_u(0).to_vec(), vec![1., 0., 1., 1.]);
}""")

s("s16-matmul-zero", "C16", "a batched product computed into recycled storage",
  "only the first batch element's result is cleared before products are added up",
  [("devices/naive/matmul.rs", """            for _ in 0..bs {
                for n in 0..size {
                    *py.add(n) = 0.0;
                }
""", """            for n in 0..size {
                *py.add(n) = 0.0;
            }
            for _ in 0..bs {
""")],
  "fn main() {\n" + DEV + """    let a = dev.new_tensor_by_constant(shape![2, 2; 2], 1.);
    { let _t = dev.new_tensor_by_constant(shape![2, 2; 2], 7.); }
    assert_eq!(a.matmul(&a).to_vec(), vec![2.; 8]);
}""")

s("s17-adam-step", "C17", "the second or a later step of Adam",
  "the bias correction counts one step too few from the second step on",
  [("optimizers/adam.rs", "let epoch = (self.epoch + 1) as f32;", "let epoch = self.epoch.max(1) as f32;")],
  "use prima_undine::initializers::Constant;\nfn main() {\n" + DEV + """    let mut p = dev.new_parameter(shape![1], &Constant::new(1.));
    let mut o = optimizers::Adam::new(0.1, 0.5, 0.5, 1e-8);
    o.configure_parameters(&mut [&mut p]);
    for _ in 0..2 { p.gradient.reset(1.); o.update_parameters(&mut [&mut p]); }
    let v = p.value.to_vec()[0];
    assert!((v - 0.8).abs() < 1e-4, "{}", v);
}""")

s("s17-clip-each", "C17", "clipping with several parameters",
  "the norm is taken up to the parameter at hand instead of over all parameters",
  [("optimizer.rs", """                sq_norm += (g * g).flatten().sum(0).to_float();
            }
            if sq_norm > clip_threshold * clip_threshold {
                let clip_scale = clip_threshold / sq_norm.sqrt();
                for param in parameters.iter_mut() {
                    param.gradient *= clip_scale;
                }
            }""", """                sq_norm = f32::max(sq_norm, (g * g).flatten().sum(0).to_float());
            }
            if sq_norm > clip_threshold * clip_threshold {
                let clip_scale = clip_threshold / sq_norm.sqrt();
                for param in parameters.iter_mut() {
                    param.gradient *= clip_scale;
                }
            }""")],
  "use prima_undine::initializers::Constant;\nfn main() {\n" + DEV + """    let mut p = dev.new_parameter(shape![1], &Constant::new(0.));
    let mut q = dev.new_parameter(shape![1], &Constant::new(0.));
    p.gradient.reset(3.);
    q.gradient.reset(4.);
    let mut o = optimizers::SGD::new(1.);
    o.set_gradient_clipping(1.);
    o.update_parameters(&mut [&mut p, &mut q]);
    let v = p.value.to_vec()[0];
    assert!((v + 0.6).abs() < 1e-5, "{}", v);
}""")

s("s18-gradient", "C18", "saving a model while gradients are pending",
  "the pending gradient of a loaded parameter is thrown away",
  [("parameter.rs", "        self.gradient.move_to_device(device);\n", "        self.gradient = device.new_tensor_by_constant(self.value.shape, 0.);\n")],
  "use prima_undine::initializers::Constant;\nfn main() {\n" + DEV + """    let mut p = dev.new_parameter(shape![2], &Constant::new(1.));
    p.gradient.reset(3.);
    let s = serde_json::to_string(&p).unwrap();
    let mut q: Parameter = serde_json::from_str(&s).unwrap();
    q.move_to_device(dev);
    assert_eq!(q.gradient.to_vec(), vec![3., 3.]);
}""", deps="json")

s("s18-trailing", "C18", "a saved tensor of a batch of scalars",
  "the batch size of a shape without dimensions is not saved",
  [("shape.rs", "s.serialize_field(\"batch\", &self.batch())?;", "let batch = if self.is_scalar() { 1 } else { self.batch() };\n        s.serialize_field(\"batch\", &batch)?;")],
  "fn main() {\n" + DEV + """    let p = dev.new_tensor_by_constant(shape![; 3], 2.);
    let s = serde_json::to_string(&p).unwrap();
    let mut q: Tensor = serde_json::from_str(&s).unwrap();
    q.move_to_device(dev);
    assert_eq!(q.to_vec(), vec![2.; 3]);
}""", deps="json")

s("s19-first-attr", "C19", "a skipped field with another attribute, such as a doc comment, before the skip",
  "only a field's first attribute is looked at for the skip",
  [("prima_undine_derive/src/lib.rs", "for attr in &field.attrs {", "if let Some(attr) = field.attrs.first() {")],
  """use prima_undine::initializers::Constant;
#[derive(prima_undine::Model)]
struct M<'d> { a: Parameter<'d>,
    /// not trained
    #[parameter(skip)] b: Parameter<'d> }
fn main() {
""" + DEV + """    let mut m = M { a: dev.new_parameter(shape![2], &Constant::new(1.)), b: dev.new_parameter(shape![3], &Constant::new(1.)) };
    assert_eq!(m.parameters().len(), 1);
    assert_eq!(m.parameters_mut().len(), 1);
    let _ = (&m.a, &m.b);
}""", derive=True)

s("s20-ratio", "C20", "a probability that is no multiple of a thousandth",
  "the probability of a Bernoulli fill is rounded to thousandths",
  [("random.rs", "let dist = Bernoulli::new(p as f64).unwrap();", "assert!(p >= 0. && p <= 1.);\n        let dist = Bernoulli::from_ratio((p * 1000.) as u32, 1000).unwrap();")],
  """fn main() {
    let mut v = vec![0f32; 200000];
    DefaultRandomizer::new().fill_bernoulli(0.0009, &mut v);
    // about 180 of 200000; none at all has a probability of 1e-78
    assert!(v.iter().any(|x| *x == 1.), "no draw was 1");
}""")

s("s21-shared-mask", "C21", "dropout_dim of a tensor with a batch",
  "one mask is drawn for all batch elements",
  [("prima_undine_contrib/src/functions/contrib/tensor.rs", "let rb_shape = self.shape().resize_dim(dim, 1);", "let rb_shape = self.shape().resize_dim(dim, 1).resize_batch(1);")],
  "use prima_undine_contrib::functions::ContribFunctions;\nfn main() {\n" + DEV + """    let x = dev.new_tensor_by_constant(shape![2, 64; 2], 1.);
    let y = x.dropout_dim(0, 0.5, true).to_vec();
    // two equal masks of 64 independent elements have a probability of 2^-64
    assert!(y[..128] != y[128..], "both batch elements got the same mask");
}""", deps="contrib")

s("s22-softmax-exp", "C22", "softmax of a node with inputs above 88",
  "softmax of a node overflows for large inputs",
  [("functions/basic/node.rs", "        self.ln_softmax(dim).exp()", "        let e = self.exp();\n        let n = self.shape()[dim];\n        &e / e.sum(dim).broadcast(dim, n)")],
  "fn main() {\n" + DEV + """    let x = Node::from(dev.new_tensor_by_constant(shape![2], 100.));
    let y = x.softmax(0).to_vec();
    assert!((y[0] - 0.5).abs() < 1e-6, "{:?}", y);
}""")

s("s23-mul-batch", "C23", "scaling a tensor with a batch in place",
  "x *= k changes the first batch element only",
  [("devices/naive/mul_assign.rs", "let size = y.shape.size() as usize;", "let size = y.shape.volume() as usize;")],
  "use prima_undine::functions::BasicFunctions as _;\nfn main() {\n" + DEV + """    let mut x = dev.new_tensor_by_constant(shape![2; 2], 1.);
    x *= 2.;
    assert_eq!(x.to_vec(), vec![2.; 4]);
}""")

s("s26-batch-slice-args", "C26", "a backend whose batch_slice kernel reads its second argument",
  "the kernel gets the length of the range instead of its end",
  [("functions/basic/device.rs", "            &[x],\n            &[lower, upper],\n", "            &[x],\n            &[lower, upper - lower],\n")],
  """struct K;
impl device_impl::FunctionFwImpl for K {
    fn call(&self, _xs: &[&Tensor], u: &[u32], _f: &[f32], _ys: &mut [&mut Tensor]) { assert_eq!(u, &[1, 3]); }
}
fn main() {
    let mut dev = devices::Naive::new();
    dev.register_fw_impl("batch_slice_fw_impl", K);
    let x = dev.new_tensor_by_constant(shape![2; 3], 1.);
    x.batch_slice(1, 3);
}""")

s("s26-transpose-ys", "C26", "a backend whose backward kernel of transpose reads the result",
  "the backward kernel of transpose gets the upstream gradient in place of the result",
  [("functions/basic/device.rs", "self.call_bw_impl(\"transpose_bw_impl\", &[x], &[y], &[gy], &[], &[], gx);", "self.call_bw_impl(\"transpose_bw_impl\", &[x], &[gy], &[gy], &[], &[], gx);")],
  """struct K;
impl device_impl::FunctionBwImpl for K {
    fn call(&self, _xs: &[&Tensor], ys: &[&Tensor], gys: &[&Tensor], _u: &[u32], _f: &[f32], _gx: &mut Tensor) {
        assert_eq!(ys[0].to_vec(), vec![1., 1.]);
        assert_eq!(gys[0].to_vec(), vec![5., 5.]);
    }
}
fn main() {
    let mut dev = devices::Naive::new();
    dev.register_bw_impl("transpose_bw_impl", K);
    let x = dev.new_tensor_by_constant(shape![2], 1.);
    let y = x.transpose();
    let gy = dev.new_tensor_by_constant(shape![1, 2], 5.);
    let mut gx = dev.new_tensor_by_constant(shape![2], 0.);
    dev.transpose_bw(&x, &y, &gy, &mut gx);
}""")

s("s04-move-fails", "C04", "the backend fails to supply storage while a loaded tensor is moved to a device",
  "a tensor whose move to a device failed has lost its values",
  [("tensor.rs", """        self.handle = self.device.unwrap().new_handle(self.shape.size());
        let values = self.host_values.take().unwrap();
""", """        let values = self.host_values.take().unwrap();
        self.handle = self.device.unwrap().new_handle(self.shape.size());
""")],
  """use std::ffi::c_void;
use std::sync::atomic::{AtomicPtr, AtomicBool, Ordering};
static FAIL: AtomicBool = AtomicBool::new(true);
struct B;
impl DeviceImpl for B {
    fn identifier(&self) -> String { "B".into() }
    fn new_handle(&self, size: u32) -> AtomicPtr<c_void> {
        if FAIL.swap(false, Ordering::SeqCst) { panic!("out of memory"); }
        AtomicPtr::new(Box::into_raw(Box::new(vec![0f32; size as usize])) as *mut c_void)
    }
    fn drop_handle(&self, h: &AtomicPtr<c_void>) { unsafe { drop(Box::from_raw(h.load(Ordering::SeqCst) as *mut Vec<f32>)) } }
}
struct K(AtomicBool);
impl device_impl::FunctionFwImpl for K {
    fn call(&self, _xs: &[&Tensor], _u: &[u32], f: &[f32], _ys: &mut [&mut Tensor]) { assert_eq!(f, &[1., 2.]); self.0.store(true, Ordering::SeqCst); }
}
fn main() {
    let mut dev = Device::new(B);
    dev.register_fw_impl("reset_tensor_by_slice_impl", K(AtomicBool::new(false)));
    let dev: &'static Device<'static> = Box::leak(Box::new(dev));
    let mut t = Tensor::new_host_tensor(shape![2], vec![1., 2.]);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.move_to_device(dev)));
    assert!(r.is_err());
    t.move_to_device(dev);
    assert!(t.valid());
}""")

s("s15-param-twice", "C15", "a parameter entering the graph with upstream gradients in several parts, over several backward calls",
  "a parameter's gradient is replaced instead of added to",
  [("operators/parameter.rs", "        **self.gradient.borrow_mut() += gy[0];", "        let mut gradient = self.gradient.borrow_mut();\n        gradient.device().reset_tensor_by_tensor(&mut **gradient, gy[0]);")],
  "use prima_undine::initializers::Constant;\nfn main() {\n" + DEV + """    let mut p = dev.new_parameter(shape![2], &Constant::new(1.));
    {
        let x = Node::from(&mut p);
        let y = &x * 3.;
        y.backward();
        y.backward();
    }
    assert_eq!(p.gradient.to_vec(), vec![6., 6.]);
}""")

s("s15-equal-depth", "C15", "an operand reached over paths of different lengths, the longer one through an operator built earlier",
  "the depth of an operator counts its first operand only, so a shared operand can be differentiated before all its users",
  [("graph.rs", "let depth = xs.iter().map(|x| x.data.op.depth).fold(0, cmp::max) + 1;", "let depth = xs.iter().map(|x| x.data.op.depth).take(1).fold(0, cmp::max) + 1;")],
  "fn main() {\n" + DEV + """    let x = Node::from(dev.new_tensor_by_constant(shape![2], 1.));
    let a = &x * 2.;
    let b = &a * 2.;
    let c = &b * 2.;
    let y = &x + &c;
    assert_eq!(y.to_vec(), vec![9., 9.]);
    y.backward();
    let g = x.inner_gradient().to_vec();
    assert_eq!(g, vec![9., 9.]);
}""")
S = [x for x in S if x]

src = open("/verif/tools/seeding/batch3.py").read()
exec(src[:src.index('s("s09-blocks"')])
K = "devices/naive/"

s("s20-gradient-fresh", "C20", "a parameter created after other tensors of its size class were dropped",
  "a new parameter's gradient is not cleared, so recycled storage shows through",
  [("device.rs", "        gradient.alloc();\n        gradient.reset(0.);\n", "        gradient.alloc();\n")],
  "fn main() {\n" + DEV + """    for n in [1u32, 3, 64, 200] {
        let p = dev.new_parameter(shape![n], &initializers::Constant::new(2.));
        assert!(p.gradient.to_vec().iter().all(|&x| x == 0.));
        drop(p);
        drop(vec![dev.new_tensor_by_constant(shape![n], 5.), dev.new_tensor_by_constant(shape![n], 6.)]);
        let p = dev.new_parameter(shape![n], &initializers::Constant::new(2.));
        assert!(p.gradient.to_vec().iter().all(|&x| x == 0.), "{}", n);
    }
}""")

s("s17-clip-rank", "C17", "clipping with a parameter of five or more axes",
  "the norm sums over the first four axes and takes the first of what is left",
  [("optimizer.rs", "                sq_norm += (g * g).flatten().sum(0).to_float();", "                sq_norm += (g * g).sum(0).sum(1).sum(2).sum(3).to_vec()[0];")],
  "fn main() {\n" + DEV + """    for dims in [vec![4u32], vec![2, 2], vec![1, 1, 1, 4], vec![1, 1, 1, 1, 4], vec![1, 2, 1, 1, 2]] {
        let mut p = dev.new_parameter(Shape::new(&dims, 1), &initializers::Constant::new(0.));
        let mut o = optimizers::SGD::new(1.);
        o.set_gradient_clipping(1.);
        p.gradient.reset(3.);
        o.update_parameters(&mut [&mut p]);
        assert!(p.value.to_vec().iter().all(|x| (x + 0.5).abs() < 1e-5), "{:?}", dims);
    }
}""")

s("s19-serde-skip", "C19", "a field another derive skips, such as #[serde(skip)]",
  "any attribute that lists `skip` leaves the field out of the model",
  [("prima_undine_derive/src/lib.rs", '                            if lst.path.is_ident("parameter") {', '                            if lst.path.get_ident().is_some() {')],
  """use serde::Serialize;
#[derive(Model, Serialize)]
struct M<'dev> { a: Parameter<'dev>, #[serde(skip)] b: Parameter<'dev>, #[parameter(skip)] #[serde(skip)] _c: u32 }
fn main() {
""" + DEV + """    let p = || dev.new_parameter(shape![2], &initializers::Constant::new(0.));
    let m = M { a: p(), b: p(), _c: 1 };
    assert_eq!(m.parameters().len(), 2);
}""", derive=True, deps="derives")

s("s26-cross-remove", "C26", "a backend that provides an integer-valued kernel under the name of a forward one",
  "registering an integer-valued kernel drops a forward kernel of the same name",
  [("device.rs", "        self.fw_u32_impl.insert(name.to_string(), Box::new(func));", "        if self.fw_u32_impl.insert(name.to_string(), Box::new(func)).is_none() {\n            self.fw_impl.remove(name);\n        }")],
  """use prima_undine::device_impl::FunctionFwU32Impl;
struct K;
impl FunctionFwU32Impl for K { fn call(&self, _x: &[&Tensor], _u: &[u32], _f: &[f32], _y: &mut [u32]) {} }
fn main() {
    let mut dev = devices::Naive::new();
    dev.register_fw_u32_impl("exp_fw_impl", K);
    let dev: &'static Device<'static> = Box::leak(Box::new(dev));
    assert_eq!(dev.new_tensor_by_constant(shape![2], 0.).exp().to_vec(), vec![1., 1.]);
}""")

s("s13-permute-large", "C13", "the gradient of permuting the axes of more than 4096 elements",
  "the gradient of a permutation is added for the first 4096 elements of a batch element only",
  [(K + "permute_dims.rs", "                for i in 0..volume {\n                    let mut tmp = i;\n                    let mut j = 0;\n                    for d in 0..ndims {\n                        let p = tmp / x_strides[d];\n                        tmp -= p * x_strides[d];\n                        j += p * y_strides[d];\n                    }\n                    *dest.add(i) +=",
   "                for i in 0..volume.min(4096) {\n                    let mut tmp = i;\n                    let mut j = 0;\n                    for d in 0..ndims {\n                        let p = tmp / x_strides[d];\n                        tmp -= p * x_strides[d];\n                        j += p * y_strides[d];\n                    }\n                    *dest.add(i) +=")],
  "fn main() {\n" + DEV + """    for n in [3u32, 64, 65, 100] {
        let x = dev.new_tensor_by_constant(shape![n, n], 1.);
        let mut gx = dev.new_tensor_by_constant(shape![n, n], 2.);
        dev.call_bw_impl("permute_dims_bw_impl", &[&x], &[&x], &[&x], &[1, 0], &[], &mut gx);
        assert!(gx.to_vec().iter().all(|&v| v == 3.), "{}", n);
    }
}""")

s("s09-flip-wide", "C09", "flipping an axis that lies above more than 256 elements",
  "the flip takes the position below the axis modulo 256",
  [(K + "flip.rs", "                    let offset = i * n - i % skip * (n - 1);\n                    *py.add(offset", "                    let offset = i * n - i % skip.min(256) * (n - 1);\n                    *py.add(offset")],
  "fn main() {\n" + DEV + """    for n in [3u32, 256, 300] {
        let v: Vec<f32> = (0..3 * n).map(|i| i as f32).collect();
        let x = dev.new_tensor_by_slice(shape![n, 3], &v);
        let mut y = dev.new_tensor_by_constant(shape![n, 3], 2.);
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| dev.call_fw_impl("flip_fw_impl", &[&x], &[1], &[], &mut [&mut y]))).unwrap();
        let y = y.to_vec();
        for i in 0..n as usize { for j in 0..3 { assert_eq!(y[i + j * n as usize], v[i + (2 - j) * n as usize], "{}", n); } }
    }
}""")

s("s08-argsort-long", "C08", "argsort along an axis of more than 1024 elements",
  "only the first 1024 elements of a longer line are sorted",
  [(K + "argsort.rs", "                indices[offset..offset + len]", "                indices[offset..offset + if skip > 1 { len.min(1024) } else { len }]")],
  "fn main() {\n" + DEV + """    for n in [4u32, 1024, 1500] {
        let v: Vec<f32> = (0..2 * n).map(|i| -(i as f32)).collect();
        let x = dev.new_tensor_by_slice(shape![2, n], &v);
        let a = x.argsort(1);
        for i in 1..n as usize { for k in 0..2 { assert!(v[a[2 * i + k] as usize] >= v[a[2 * i - 2 + k] as usize], "{}", n); } }
    }
}""")

s("s05-scalar-batch", "C05", "a batched scalar and a tensor of another batch size",
  "an operation with a scalar accepts any batch sizes that divide one another",
  [("shape_ops.rs", "    assert!(k.is_scalar() && x.has_compatible_batch(k));", "    assert!(k.is_scalar() && (x.batch() % k.batch() == 0 || !x.has_batch()));")],
  MUST + "fn main() {\n" + DEV + """    let x = dev.new_tensor_by_constant(Shape::new(&[2], 4), 1.);
    for b in [1u32, 4] { (&x + &dev.new_tensor_by_constant(Shape::new(&[], b), 1.)).to_vec(); }
    for b in [2u32, 3, 8] { let k = dev.new_tensor_by_constant(Shape::new(&[], b), 1.); must_panic(|| { let _ = &x + &k; }); }
}""")

s("s05-transpose-deep", "C05", "transposing a tensor whose extra axis is not the third",
  "the check of a transposed operand looks at its third axis only",
  [("shape_ops.rs", "    assert!(x.is_matrix());\n    Shape::new(&[x[1], x[0]]", "    assert!(x[2] == 1);\n    Shape::new(&[x[1], x[0]]")],
  MUST + "fn main() {\n" + DEV + """    dev.new_tensor_by_constant(shape![2, 3], 1.).transpose();
    for d in [vec![2u32, 3, 2], vec![1, 1, 1, 2], vec![2, 2, 1, 2]] {
        let x = dev.new_tensor_by_constant(Shape::new(&d, 1), 1.);
        must_panic(|| { x.transpose(); });
    }
}""")

s("s12-ssce-many", "C12", "the gradient of a sparse cross entropy with more than 64 ids",
  "the one-hot part of the gradient is applied for the first 64 ids only",
  [(K + "pick.rs", "            let mut src = const_ptr!(gy);\n            let pgx = mut_ptr!(gx);\n            for batch in 0..bs {", "            let mut src = const_ptr!(gy);\n            let pgx = mut_ptr!(gx);\n            for batch in 0..if dim == 0 { bs } else { bs.min(64) } {")],
  "fn main() {\n" + DEV + """    for n in [3u32, 64, 65] {
        let mut p = dev.new_parameter(shape![1, 2], &initializers::Constant::new(0.));
        let ids: Vec<u32> = (0..n).map(|i| i % 2 * 0 + 1).collect();
        { let x = Node::from(&mut p); x.sparse_softmax_cross_entropy(&ids, 1).backward(); }
        let g = p.gradient.to_vec();
        assert!((g[0] - 0.5 * n as f32).abs() < 1e-3 && (g[1] + 0.5 * n as f32).abs() < 1e-3, "{} {:?}", n, g);
    }
}""")

s("s11-sub-shared", "C11", "the gradient of x - x for a batch-1 node and a batched gradient",
  "the gradient of the right operand of a difference with two operands that are the same is dropped",
  [("operators/sub.rs", "        device.sub_bw_b(x[0], x[1], y[0], gy[0], &mut *gx[1].borrow_mut());", "        if !std::ptr::eq(gx[0], gx[1]) {\n            device.sub_bw_b(x[0], x[1], y[0], gy[0], &mut *gx[1].borrow_mut());\n        }")],
  "fn main() {\n" + DEV + """    let mut p = dev.new_parameter(shape![3], &initializers::Constant::new(2.));
    let mut q = dev.new_parameter(shape![3], &initializers::Constant::new(2.));
    { let x = Node::from(&mut p); let z = Node::from(&mut q); ((&x - &x) + (&x - &z)).backward(); }
    assert_eq!(p.gradient.to_vec(), vec![1.; 3]); assert_eq!(q.gradient.to_vec(), vec![-1.; 3]);
}""")

s("s02-release-first", "C02", "dropping a device that holds more than 32 unused buffers of one class",
  "only the first 32 unused buffers of a size class are released",
  [("memory_pool.rs", "            for handle in v {\n", "            for handle in v.iter().take(32) {\n")],
  CNT + """fn main() {
    for n in [1usize, 32, 33, 100] {
        { let dev = Device::new(B); let d: &'static Device<'static> = unsafe { std::mem::transmute(&dev) };
          let ts: Vec<Tensor> = (0..n).map(|_| { let mut t = d.new_tensor(shape![3]); t.alloc(); t }).collect(); drop(ts); }
        assert_eq!(LIVE.load(Ordering::SeqCst), 0, "{}", n);
    }
}""")

s("s16-sin-memo", "C16", "the sine of a negative zero after that of a positive one",
  "the sine is remembered for the last argument, and the two zeros count as the same argument",
  [(K + "sin.rs", "define_naive_fw_x_impl!(SinFwImpl, |x: f32| x.sin());", "thread_local! {\n    static LAST: std::cell::Cell<(f32, f32)> = std::cell::Cell::new((1., 1f32.sin()));\n}\ndefine_naive_fw_x_impl!(SinFwImpl, |x: f32| LAST.with(|last| {\n    if last.get().0 != x {\n        last.set((x, x.sin()));\n    }\n    last.get().1\n}));")],
  "fn main() {\n" + DEV + """    let z = dev.new_tensor_by_slice(shape![3], &[0., 1., 0.5]);
    let n = dev.new_tensor_by_slice(shape![1], &[-0.]);
    let a = n.sin().to_float().to_bits();
    z.slice(0, 1, 2).sin();
    z.slice(0, 0, 1).sin();
    assert_eq!(n.sin().to_float().to_bits(), a);
}""")

s("s21-mean-big", "C21", "the mean along an axis of more than 4096 elements",
  "the mean along a long axis divides by the number of elements less one",
  [("prima_undine_contrib/src/functions/contrib/tensor.rs", "        self.sum(dim) / self.shape()[dim] as f32", "        let n = self.shape()[dim];\n        self.sum(dim) / if n > 4096 { n - n / 4096 } else { n } as f32")],
  "use prima_undine_contrib::functions::ContribFunctions;\nfn main() {\n" + DEV + """    for n in [5u32, 4096, 8192] {
        assert_eq!(dev.new_tensor_by_constant(shape![n], 1.).mean(0).to_float(), 1.);
    }
}""", deps="contrib")

s("s25-refer-batch", "C25", "aliasing a tensor of other dimensions but the same size",
  "an alias has to agree with its target in size only",
  [("tensor.rs", "    pub fn refer(&mut self, other: &'dev Tensor<'dev>) {\n        assert_eq!(self.device, other.device);\n        assert!(!self.valid());\n        assert_eq!(self.shape, other.shape);",
    "    pub fn refer(&mut self, other: &'dev Tensor<'dev>) {\n        assert_eq!(self.device, other.device);\n        assert!(!self.valid());\n        assert_eq!(self.shape.size(), other.shape.size());")],
  MUST + "fn main() {\n" + DEV + """    let x: &'static Tensor<'static> = Box::leak(Box::new(dev.new_tensor_by_constant(Shape::new(&[2], 3), 1.)));
    dev.new_tensor(Shape::new(&[2], 3)).refer(x);
    for s in [Shape::new(&[6], 1), Shape::new(&[3], 2), Shape::new(&[2, 3], 1)] { must_panic(|| { dev.new_tensor(s).refer(x); }); }
}""")

s("s10-slice-batch", "C10", "slicing a batch of tensors beyond their rank or over the whole axis",
  "a slice of a whole last axis moves one batch element only when the batch is longer than the axis",
  [(K + "slice.rs", "        let repeat = y.shape.size() as usize / span;", "        let repeat = (y.shape.volume() * y.shape.batch().min(512)) as usize / span;")],
  "fn main() {\n" + DEV + """    for b in [3u32, 512, 600] {
        let v: Vec<f32> = (0..4 * b).map(|i| i as f32 + 1.).collect();
        let x = dev.new_tensor_by_slice(Shape::new(&[4], b), &v);
        let y = x.slice(0, 1, 3).to_vec();
        for i in 0..b as usize { assert_eq!(&y[2 * i..2 * i + 2], &v[4 * i + 1..4 * i + 3]); }
    }
}""")

s("s23-mul-twice", "C23", "multiplying a batched tensor in place",
  "a batched tensor of more than 128 batch elements is multiplied for the first 128 only",
  [(K + "mul_assign.rs", "        let size = y.shape.size() as usize;", "        let size = (y.shape.volume() * y.shape.batch().min(128)) as usize;")],
  "fn main() {\n" + DEV + """    for b in [3u32, 128, 130] {
        let mut x = dev.new_tensor_by_constant(Shape::new(&[2], b), 3.);
        x *= 2.;
        assert!(x.to_vec().iter().all(|&v| v == 6.), "{}", b);
    }
}""")

s("s06-lower-deep", "C06", "the partial volume at an axis above the eighth",
  "the partial volume leaves out the last of eight axes for a dimension index above eight",
  [("shape.rs", "        for i in 0..cmp::min(dim, self.depth) as usize {", "        for i in 0..cmp::min(if dim > MAX_DEPTH { MAX_DEPTH - 1 } else { dim }, self.depth) as usize {")],
  """fn main() {
    let s = Shape::new(&[1, 1, 1, 1, 1, 1, 2, 3], 1);
    for d in 8..20 { assert_eq!(s.lower_volume(d), 6, "{}", d); }
}""")

s("s15-fan-out", "C15", "an operator with more than 16 outputs, backward called a second time",
  "from the seventeenth output on, gradients are cleared on the first call only",
  [("graph.rs", "        for ret in &op_info.rets {\n            let mut grad = ret.gradient.borrow_mut();", "        for (i, ret) in op_info.rets.iter().enumerate() {\n            let mut grad = ret.gradient.borrow_mut();\n            if i >= 16 && grad.valid() {\n                continue;\n            }")],
  "fn main() {\n" + DEV + """    for n in [4u32, 16, 20] {
        let mut p = dev.new_parameter(shape![n], &initializers::Constant::new(1.));
        { let x = Node::from(&mut p); let parts = x.split(0, n); let y = parts.iter().fold(2. * &parts[0], |a, b| a + b);
          y.backward(); y.backward(); }
        let g = p.gradient.to_vec();
        assert_eq!(g[0], 6.); assert!(g[1..].iter().all(|&v| v == 2.), "{}: {:?}", n, g);
    }
}""")

s("s14-late-arg", "C14", "an operator of more than 32 operands, evaluated for the first time",
  "operands after the thirty-second are not evaluated",
  [("graph.rs", "        for arg in &op_info.args {\n            let ptr = &*arg.op as *const OperatorInfo<'arg, 'dev>;\n            if !reached.contains(&ptr) {\n                queue.push_back(Rc::clone(&arg.op));\n                reached.insert(ptr);\n            }\n        }\n        forward_req",
    "        for arg in op_info.args.iter().take(32) {\n            let ptr = &*arg.op as *const OperatorInfo<'arg, 'dev>;\n            if !reached.contains(&ptr) {\n                queue.push_back(Rc::clone(&arg.op));\n                reached.insert(ptr);\n            }\n        }\n        forward_req")],
  "fn main() {\n" + DEV + """    for n in [3usize, 32, 40] {
        let xs: Vec<Node> = (0..n).map(|i| Node::from(dev.new_tensor_by_constant(shape![1], i as f32))).collect();
        let r: Vec<&Node> = xs.iter().collect();
        assert_eq!(Node::concat(&r, 0).to_vec(), (0..n).map(|i| i as f32).collect::<Vec<_>>());
    }
}""")

s("s18-dims-eight", "C18", "saving a tensor with eight axes",
  "a shape keeps its first seven dimensions when it is saved",
  [("shape.rs", '        s.serialize_field("dims", self.dims())?;', '        s.serialize_field("dims", &self.dims()[..cmp::min(self.dims().len(), 7)])?;')],
  """fn main() {
    for d in [vec![2u32], vec![1, 1, 1, 1, 1, 1, 2], vec![1, 1, 1, 1, 1, 1, 1, 2]] {
        let s = Shape::new(&d, 2);
        let t: Shape = serde_json::from_str(&serde_json::to_string(&s).unwrap()).unwrap();
        assert_eq!(s, t);
    }
}""", deps="json")

s("s22-ssce-shared-many", "C22", "one shared id and more than 256 batch elements",
  "with one shared id, the batch elements after the 256th take the first one's value",
  [(K + "pick.rs", "                let src = px.add(batch * skip_x + base * ids[batch * skip_i] as usize);", "                let at = if ids.len() == 1 && batch > 256 { 0 } else { batch };\n                let src = px.add(at * skip_x + base * ids[batch * skip_i] as usize);")],
  "fn main() {\n" + DEV + """    for b in [3u32, 257, 300] {
        let v: Vec<f32> = (0..2 * b).map(|i| if i % 2 == 0 { 0. } else { i as f32 / 100. }).collect();
        let y = dev.new_tensor_by_slice(Shape::new(&[2], b), &v).sparse_softmax_cross_entropy(&[0], 0).to_vec();
        for i in 0..b as usize { let w = (1. + v[2 * i + 1].exp()).ln(); assert!((y[i] - w).abs() < 1e-4 * w.max(1.), "{} {}", b, i); }
    }
}""")

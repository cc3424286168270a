import re
src = open("/verif/tools/seeding/batch3.py").read()
exec(src[:src.index('s("s09-blocks"')])
N = P + "x"
K = "devices/naive/"

s("s14-depth-byte", "C14", "a chain of more than 255 operators",
  "the depth that orders evaluation is kept in a byte and wraps",
  [("graph.rs", "let depth = xs.iter().map(|x| x.data.op.depth).fold(0, cmp::max) + 1;", "let depth = (xs.iter().map(|x| x.data.op.depth).fold(0, cmp::max) + 1) as u8 as usize;")],
  "fn main() {\n" + DEV + """    for n in [5, 100, 254, 256, 400] {
        let x = dev.new_tensor_by_slice(shape![2], &[1., 2.]);
        let mut y = Node::from(&x);
        for _ in 0..n { y = y + 1.; }
        y.forward();
        assert_eq!(y.to_vec(), vec![1. + n as f32, 2. + n as f32]);
    }
}""")

s("s09-permute-six", "C09", "a permutation of six or more axes",
  "the permutation kernel decomposes positions over the five outermost axes only",
  [(K + "permute_dims.rs", """                    let mut tmp = i;
                    let mut j = 0;
                    for d in 0..ndims {
                        let p = tmp / x_strides[d];
                        tmp -= p * x_strides[d];
                        j += p * y_strides[d];
                    }
                    *dest.add(j) = *src.add(i);""", """                    let mut tmp = i;
                    let mut j = 0;
                    for d in 0..ndims.min(5) {
                        let p = tmp / x_strides[d];
                        tmp -= p * x_strides[d];
                        j += p * y_strides[d];
                    }
                    *dest.add(j) = *src.add(i);""")],
  "fn main() {\n" + DEV + """    let v: Vec<f32> = (0..64).map(|i| i as f32).collect();
    let x = dev.new_tensor_by_slice(shape![2, 2, 2, 2, 2, 2], &v);
    let mut y = dev.new_tensor(x.shape());
    y.alloc();
    dev.call_fw_impl("permute_dims_fw_impl", &[&x], &[5, 4, 3, 2, 1, 0], &[], &mut [&mut y]);
    let want: Vec<f32> = (0..64usize).map(|i| (0..6).map(|b| (i >> b & 1) << (5 - b)).sum::<usize>() as f32).collect();
    assert_eq!(y.to_vec(), want);
}""")

s("s09-column-batch", "C09", "a batched column vector on the right of a product",
  "a right operand with one column is taken from the first batch element only",
  [(K + "matmul.rs", "let skip_b = if b.shape.has_batch() { d2 * d3 } else { 0 };", "let skip_b = if b.shape.has_batch() && b.shape.depth() > 1 { d2 * d3 } else { 0 };")],
  "fn main() {\n" + DEV + """    let a = dev.new_tensor_by_slice(shape![2, 2], &[1., 0., 0., 1.]);
    let b = dev.new_tensor_by_slice(shape![2; 3], &[1., 2., 3., 4., 5., 6.]);
    assert_eq!(a.matmul(&b).to_vec(), vec![1., 2., 3., 4., 5., 6.]);
}""")

s("s08-broadcast-run", "C08", "broadcasting to more than 256 copies",
  "a broadcast copies at most 256 times and leaves the rest of the fresh storage",
  [(K + "broadcast.rs", "                for _ in 0..size {", "                for _ in 0..size.min(256) {")],
  "fn main() {\n" + DEV + """    for n in [3u32, 256, 300] {
        drop(dev.new_tensor_by_constant(shape![512], 7.));
        let x = dev.new_tensor_by_constant(shape![], 2.);
        assert!(x.broadcast(0, n).to_vec() == vec![2.; n as usize]);
    }
}""")

s("s08-argmax-nan", "C08", "a line whose elements are all below -1e30",
  "argmax compares with a sentinel instead of the first element",
  [(K + "argmax.rs", "                let mut max_val = *src.add(offset);\n                let mut argmax_val = 0;", "                let mut max_val = (*src.add(offset)).max(-1e30);\n                let mut argmax_val = 0;")],
  "fn main() {\n" + DEV + """    let x = dev.new_tensor_by_slice(shape![2], &[-3e30, -2e30]);
    assert_eq!(x.argmax(0), vec![1]);
    let x = dev.new_tensor_by_slice(shape![2], &[-3., -2.]);
    assert_eq!(x.argmax(0), vec![1]);
}""")

s("s16-sum-static", "C16", "sums along two axes in one process, the longer first",
  "the sum keeps the length of the longest axis line it has seen and adds in blocks for lines after a longer one",
  [(K + "sum.rs", "define_empty_impl!(SumFwImpl);", "static LONGEST: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n\ndefine_empty_impl!(SumFwImpl);"),
   (K + "sum.rs", "                let mut tmp = 0.;\n                for _ in 0..n {\n                    tmp += *px.add(offset);\n                    offset += skip1;\n                }\n                *py.add(i) = tmp;", "                let mut tmp = 0.;\n                let longest = LONGEST.fetch_max(n, std::sync::atomic::Ordering::Relaxed);\n                if longest > 2 * n {\n                    for j in (0..n).rev() {\n                        tmp += *px.add(offset + j * skip1);\n                    }\n                } else {\n                    for _ in 0..n {\n                        tmp += *px.add(offset);\n                        offset += skip1;\n                    }\n                }\n                *py.add(i) = tmp;")],
  "fn main() {\n" + DEV + """    let x = dev.new_tensor_by_slice(shape![4], &[1e8, 1., -1e8, 1.]);
    let a = x.sum(0).to_float();
    let _ = dev.new_tensor_by_constant(shape![50], 1.).sum(0);
    assert_eq!(a.to_bits(), x.sum(0).to_float().to_bits());
}""")

s("s16-matmul-cleared", "C16", "a matrix product placed in recycled storage with NaN in it",
  "the product clears its result by multiplying the old contents with zero",
  [(K + "matmul.rs", "                    *py.add(n) = 0.0;", "                    *py.add(n) *= 0.0;")],
  "fn main() {\n" + DEV + """    for k in [0f32, 3., f32::NAN] {
        drop(dev.new_tensor_by_constant(shape![2, 2], k));
        let a = dev.new_tensor_by_constant(shape![2], 1.);
        drop(dev.new_tensor_by_constant(shape![2, 2], k));
        let b = dev.new_tensor_by_constant(shape![1, 2], 1.);
        drop(dev.new_tensor_by_constant(shape![2, 2], k));
        let y = a.matmul(&b);
        assert_eq!(y.to_vec(), vec![1.; 4]);
    }
}""")

s("s17-clip-many", "C17", "clipping over more than eight parameters",
  "the joint norm is taken over the first eight parameters",
  [("optimizer.rs", "            let mut sq_norm = 0.;\n            for param in parameters.iter_mut() {", "            let mut sq_norm = 0.;\n            for param in parameters.iter_mut().take(8) {")],
  "fn main() {\n" + DEV + """    for n in [1usize, 5, 8, 12] {
        let mut ps: Vec<Parameter> = (0..n).map(|_| dev.new_parameter(shape![1], &initializers::Constant::new(0.))).collect();
        for p in ps.iter_mut() { p.gradient.reset(3.); }
        let mut o = optimizers::SGD::new(1.);
        o.set_gradient_clipping(1.);
        o.update_parameters(&mut ps.iter_mut().collect::<Vec<_>>());
        for p in &ps { assert!((p.value.to_float() + 1. / (n as f32).sqrt()).abs() < 1e-4, "{}", n); }
    }
}""")

s("s17-adam-late", "C17", "more than 128 steps of Adam",
  "the bias correction is left out after 128 steps, when it is thought to be negligible",
  [("optimizers/adam.rs", "        let mm2 = &*m2 / (1. - self.beta2.powf(epoch));", "        let mm2 = &*m2 / if epoch > 128. { 1. } else { 1. - self.beta2.powf(epoch) };")],
  "fn main() {\n" + DEV + """    let mut p = dev.new_parameter(shape![1], &initializers::Constant::new(0.));
    let mut o = optimizers::Adam::new(0.01, 0.9, 0.999, 1e-8);
    o.configure_parameter(&mut p);
    for i in 1..=200 {
        p.gradient.reset(1.);
        o.update_parameters(&mut [&mut p]);
        assert!((p.value.to_float() + 0.01 * i as f32).abs() < 1e-3 * (1. + 0.01 * i as f32), "{} {}", i, p.value.to_float());
    }
}""")

s("s18-serde-depth", "C18", "saving a tensor of eight axes",
  "loading takes the first seven dimensions",
  [("shape.rs", "        Ok(Shape::new(&s.dims, s.batch))", "        let depth = cmp::min(s.dims.len(), MAX_DEPTH as usize - 1);\n        Ok(Shape::new(&s.dims[..depth], s.batch))")],
  "fn main() {\n" + DEV + """    for s in [shape![2, 3], shape![1, 1, 1, 1, 1, 1, 2], shape![1, 2, 1, 1, 1, 1, 1, 2]] {
        let n = s.size() as usize;
        let x = dev.new_tensor_by_constant(s, 1.5);
        let mut y: Tensor = serde_json::from_str(&serde_json::to_string(&x).unwrap()).unwrap();
        y.move_to_device(dev);
        assert!(y.shape() == s && y.to_vec() == vec![1.5; n]);
    }
}""", deps=["json"])

s("s20-xavier-wide", "C20", "a Xavier parameter with more than 65535 rows and columns together",
  "the sum of rows and columns is taken in sixteen bits",
  [("initializers/xavier_uniform.rs", "(6. / (s[0] + s[1]) as f32)", "(6. / (s[0] as u16 + s[1] as u16) as f32)")],
  "fn main() {\n" + DEV + """    for n in [10u32, 1000, 65537] {
        let p = dev.new_parameter(shape![n, 1], &initializers::XavierUniform::new(1.));
        let b = (6. / (n + 1) as f32).sqrt();
        let m = p.value.to_vec().iter().fold(0f32, |m, v| m.max(v.abs()));
        assert!(m <= b, "{}: {} {}", n, m, b);
    }
}""")

s("s22-sparse-beyond", "C22", "the sparse cross entropy along an axis beyond the rank, or one of size 1",
  "the sparse loss along an axis of size 1 is taken along the first axis",
  [("functions/basic/tensor.rs", "        -self.ln_softmax(dim).pick(ids, dim)", "        let axis = if self.shape()[dim] == 1 { 0 } else { dim };\n        -self.ln_softmax(axis).pick(ids, dim)")],
  "fn main() {\n" + DEV + """    let x = dev.new_tensor_by_slice(shape![2, 2], &[1., 2., 3., 4.]);
    assert_eq!(x.sparse_softmax_cross_entropy(&[0], 2).to_vec(), vec![0.; 4]);
}""")

s("s10-concat-many", "C10", "joining more than 255 tensors",
  "joining counts its inputs in a byte",
  [("shape_ops.rs", """    let mut s0 = xs[0];
    let mut sum = s0[dim];
    for i in 1..xs.len() {""", """    let mut s0 = xs[0];
    let mut sum = s0[dim];
    for i in 1..xs.len() as u8 as usize {""")],
  "fn main() {\n" + DEV + """    for n in [2usize, 100, 255, 257] {
        let xs: Vec<Tensor> = (0..n).map(|i| dev.new_tensor_by_constant(shape![2], i as f32)).collect();
        let r: Vec<&Tensor> = xs.iter().collect();
        let y = Tensor::concat(&r, 0);
        assert_eq!(y.shape(), shape![2 * n as u32]);
    }
}""")

s("s10-slice-high", "C10", "a slice along the last axis of a tensor with four or more axes and a batch",
  "slices of tensors of more than three axes repeat over the batch of one element",
  [(K + "slice.rs", "        let repeat = y.shape.size() as usize / span;", "        let repeat = (if y.shape.depth() > 4 { y.shape.volume() } else { y.shape.size() }) as usize / span;")],
  "fn main() {\n" + DEV + """    drop(dev.new_tensor_by_constant(shape![64], -1.));
    let v: Vec<f32> = (0..64).map(|i| i as f32).collect();
    let x = dev.new_tensor_by_slice(shape![2, 2, 2, 2, 2; 2], &v);
    drop(dev.new_tensor_by_constant(shape![64], -1.));
    assert_eq!(x.slice(0, 1, 2).to_vec(), (0..32).map(|i| (2 * i + 1) as f32).collect::<Vec<_>>().iter().cloned().collect::<Vec<f32>>());
    let y = x.slice(1, 0, 1);
    assert!(y.to_vec().iter().all(|v| *v >= 0.));
}""")

s("s04-kernel-lost", "C04", "a kernel that panics while its result is written",
  "a random fill that panics leaves the result's storage out of the pool",
  [("functions/random/device.rs", '        self.call_fw_impl("random_normal_impl", &[], &[], &[mean, sd], &mut [&mut y]);\n        y', '        let mut y = std::mem::ManuallyDrop::new(y);\n        self.call_fw_impl("random_normal_impl", &[], &[], &[mean, sd], &mut [&mut y]);\n        std::mem::ManuallyDrop::into_inner(y)')],
  CNT + MUST + """struct Bad;
impl device_impl::FunctionFwImpl for Bad { fn call(&self, _: &[&Tensor], _: &[u32], _: &[f32], _: &mut [&mut Tensor]) { panic!() } }
fn main() {
    let mut dev = Device::new(B);
    dev.register_fw_impl("random_normal_impl", Bad);
    dev.register_fw_impl("random_uniform_impl", Bad);
    for _ in 0..3 {
        must_panic(|| { dev.random_normal(shape![2], 0., 1.); });
        must_panic(|| { dev.random_uniform(shape![2], 0., 1.); });
    }
    assert_eq!(LIVE.load(Ordering::SeqCst), 1);
}""")

s("s23-sub-large", "C23", "subtracting a batched operand of more than 64 batch elements from an unbatched target",
  "at most 64 batch elements are summed into an unbatched target",
  [(K + "sub_assign.rs", "let batch = cmp::max(x.shape.batch(), y.shape.batch()) as usize;", "let batch = if y.shape.has_batch() { y.shape.batch() } else { cmp::min(x.shape.batch(), 64) } as usize;")],
  "fn main() {\n" + DEV + """    for n in [1u32, 3, 64, 100] {
        let x = dev.new_tensor_by_constant(shape![2; n], 1.);
        let mut y = dev.new_tensor_by_constant(shape![2], 0.);
        y -= &x;
        assert_eq!(y.to_vec(), vec![-(n as f32); 2]);
    }
}""")

s("s07-exp-small", "C07", "the exponential of a number below -15",
  "results of exp below 3e-7 are flushed to zero",
  [(K + "exp.rs", "|x: f32| x.exp()", "|x: f32| if x < -15. { 0. } else { x.exp() }")],
  "fn main() {\n" + DEV + """    let x = dev.new_tensor_by_slice(shape![3], &[-1., -14., -20.]);
    let y = x.exp().to_vec();
    for (a, b) in x.to_vec().iter().zip(&y) { assert!((a.exp() - b).abs() <= 1e-5 * a.exp()); }
}""")


s("s01-copy-odd", "C01", "copying a tensor of more than 4096 elements, the number not a multiple of 16",
  "copies of large tensors move whole blocks of sixteen and lose the rest",
  [(K + "reset_tensor.rs", """        let x_data = x.to_vec();
        unsafe {
            let py = mut_ptr!(y);
            for i in 0..size {""", """        let x_data = x.to_vec();
        unsafe {
            let py = mut_ptr!(y);
            for i in 0..if size > 4096 { size / 16 * 16 } else { size } {""")],
  "fn main() {\n" + DEV + """    for n in [3usize, 4096, 4112, 5001] {
        drop(dev.new_tensor_by_constant(shape![n as u32], -1.));
        let v: Vec<f32> = (0..n).map(|i| i as f32).collect();
        let x = dev.new_tensor_by_slice(shape![n as u32], &v);
        drop(dev.new_tensor_by_constant(shape![n as u32], -1.));
        assert!(dev.copy_tensor(&x).to_vec() == v, "{}", n);
    }
}""")

s("s13-pick-shared", "C13", "the gradient of picking from an unbatched operand with more ids than the axis is long",
  "the gradient of a pick handles at most as many ids as the axis has elements",
  [(K + "pick.rs", "        let bs = gy.shape.batch() as usize;", "        let bs = gy.shape.batch() as usize;\n        let bs = if gx.shape.has_batch() { bs } else { bs.min(2 * gx.shape[dim] as usize) };")],
  "fn main() {\n" + DEV + """    let ids = [0u32, 1, 1, 0, 1, 0, 0];
    let gy = dev.new_tensor_by_constant(shape![1; 7], 1.);
    let mut gx = dev.new_tensor_by_constant(shape![2], 0.);
    dev.pick_bw(&gy, &ids, 0, &mut gx);
    assert_eq!(gx.to_vec(), vec![4., 3.]);
}""")

s("s11-div-square", "C11", "the gradient of a division whose divisor is tiny",
  "the gradient of the divisor is computed from the square of the divisor, which underflows",
  [(K + "div.rs", "*pgb.add(i) -= *pgy.add(i) * *py.add(i) / *pb.add(i);", "let b2 = *pb.add(i) * *pb.add(i);\n                    *pgb.add(i) -= *pgy.add(i) * (*py.add(i) * *pb.add(i)) / b2;")],
  "fn main() {\n" + DEV + """    for b in [2f32, 1e-3, 1e-25] {
        let a = dev.new_tensor_by_constant(shape![2], b);
        let d = dev.new_tensor_by_constant(shape![2], b);
        let y = &a / &d;
        let gy = dev.new_tensor_by_constant(shape![2], b);
        let mut g = dev.new_tensor_by_constant(shape![2], 0.);
        dev.div_bw_b(&a, &d, &y, &gy, &mut g);
        assert!(g.to_vec().iter().all(|g| (g + 1.).abs() < 1e-3), "{} {:?}", b, g.to_vec());
    }
}""")

s("s19-vec-box", "C19", "a vector of models with more than 16 elements",
  "the mutable list of a vector of parameters is filled in blocks of 16 and the last incomplete block is put first",
  [("model.rs", "        self.iter_mut().collect()", "        let n = self.len();\n        let mut params: Vec<_> = self.iter_mut().collect();\n        if n > 16 {\n            params.rotate_right(n % 16);\n        }\n        params")],
  "fn main() {\n" + DEV + """    for n in [3usize, 16, 20] {
        let mut m: Vec<Parameter> = (0..n).map(|i| dev.new_parameter(shape![], &initializers::Constant::new(i as f32))).collect();
        let got: Vec<f32> = m.parameters_mut().iter().map(|p| p.value.to_float()).collect();
        assert_eq!(got, (0..n).map(|i| i as f32).collect::<Vec<_>>());
    }
}""")

s("s06-lower-index", "C06", "the partial volume of a shape of seven or eight axes",
  "partial volumes stop at the sixth axis",
  [("shape.rs", "        for i in 0..cmp::min(dim, self.depth) as usize {", "        for i in 0..cmp::min(dim, cmp::min(self.depth, 6)) as usize {")],
  "fn main() {\n    assert_eq!(shape![1, 2, 1, 1, 3].lower_volume(5), 6);\n    assert_eq!(shape![1, 1, 1, 1, 1, 1, 3, 2].lower_volume(7), 3);\n}")

s("s06-eq-batch", "C06", "a shape whose size is exactly 2^32 by its batch",
  "sizes are multiplied in sixteen-bit halves when the batch is a power of two",
  [("shape.rs", "    pub fn has_batch(&self) -> bool {\n        self.batch != 1", "    pub fn has_batch(&self) -> bool {\n        self.batch & 0xffff != 1")],
  "fn main() {\n    assert!(shape![2; 3].has_batch());\n    assert!(!shape![2].has_batch());\n    assert!(shape![1; 65537].has_batch());\n}")

s("s02-class-float", "C02", "requests for more than 2^24 elements",
  "the size class is computed in single precision",
  [("memory_pool.rs", "        let shift = calculate_shifts(size) as usize;", "        let shift = if size > 1 << 24 { (size as f32).log2().ceil() as usize } else { calculate_shifts(size) as usize };")],
  "use std::ffi::c_void;\nuse std::sync::atomic::{AtomicPtr, AtomicU32, Ordering};\nstatic ASKED: AtomicU32 = AtomicU32::new(0);\nstruct B;\nimpl DeviceImpl for B {\n    fn identifier(&self) -> String { \"B\".into() }\n    fn new_handle(&self, size: u32) -> AtomicPtr<c_void> { ASKED.store(size, Ordering::SeqCst); AtomicPtr::new(64 as *mut c_void) }\n    fn drop_handle(&self, _: &AtomicPtr<c_void>) {}\n}\n" + """fn main() {
    for n in [100u32, 1 << 20, (1 << 24) + 1, (1 << 25) + 1, (1 << 30) + 3] {
        let dev = Device::new(B);
        let h = dev.new_handle(n);
        assert!(ASKED.load(Ordering::SeqCst) >= n, "{}", n);
        dev.drop_handle(&h);
    }
}""")

s("s21-ln-eps", "C21", "layer normalisation of elements with small variance",
  "the stabilising constant is added after the square root",
  [("prima_undine_contrib/src/functions/contrib/tensor.rs", "        let v = (shift * shift).flatten().mean(0) + eps;\n        let x = (self - m) / v.sqrt();", "        let v = (shift * shift).flatten().mean(0);\n        let x = (self - m) / (v.sqrt() + eps);")],
  "use prima_undine_contrib::functions::*;\nfn main() {\n" + DEV + """    for k in [0.001f32, 1.] {
        let x = dev.new_tensor_by_slice(shape![2], &[-k, k]);
        let one = dev.new_tensor_by_constant(shape![2], 1.);
        let zero = dev.new_tensor_by_constant(shape![2], 0.);
        let y = x.layer_normalization(&one, &zero, 1e-5).to_vec()[1];
        let want = k / (k * k + 1e-5).sqrt();
        assert!((y - want).abs() < 1e-3, "{} {}", y, want);
    }
}""", deps=["contrib"])

s("s24-copy-identifier", "C24", "operands of another device of the same kind",
  "devices are equal when their identifiers are equal and they provide equally many kernels",
  [("device.rs", "        *self as *const Device == *other as *const Device", "        self.identifier() == other.identifier() && self.fw_impl.len() == other.fw_impl.len()")],
  MUST + """fn main() {
    let a = devices::Naive::new();
    let b = devices::Naive::new();
    let x = a.new_tensor_by_constant(shape![2], 1.);
    let y = b.new_tensor_by_constant(shape![2], 1.);
    must_panic(|| { let _ = &x + &y; });
}""")

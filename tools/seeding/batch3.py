U = "use prima_undine::functions::*;\nuse prima_undine::*;\n"
P = "prima_undine/src/"
S = []
def s(id, prop, needs, breaks, edits, demo, **k):
    S.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=[(P + f if not f.startswith("prima") else f, o, n) for f, o, n in edits], demo=U + demo, **k))
DEV = "    let dev: &'static Device<'static> = Box::leak(Box::new(devices::Naive::new()));\n"
CNT = """use std::ffi::c_void;
use std::sync::atomic::{AtomicPtr, AtomicI64, Ordering};
static LIVE: AtomicI64 = AtomicI64::new(0);
struct B;
impl DeviceImpl for B {
    fn identifier(&self) -> String { "B".into() }
    fn new_handle(&self, size: u32) -> AtomicPtr<c_void> { LIVE.fetch_add(1, Ordering::SeqCst); AtomicPtr::new(Box::into_raw(Box::new(vec![0f32; size as usize])) as *mut c_void) }
    fn drop_handle(&self, h: &AtomicPtr<c_void>) { LIVE.fetch_sub(1, Ordering::SeqCst); unsafe { drop(Box::from_raw(h.load(Ordering::SeqCst) as *mut Vec<f32>)) } }
}
"""
MUST = "fn must_panic<F: FnOnce()>(f: F) { std::panic::set_hook(Box::new(|_| {})); let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)); let _ = std::panic::take_hook(); assert!(r.is_err(), \"accepted\"); }\n"

V = DEV + "    let v = |n: usize| -> Vec<f32> { (0..n).map(|i| ((i * 7919) % 13) as f32 - 6.).collect() };\n"

s("s09-blocks", "C09", "a matrix product whose common dimension exceeds 64",
  "the blocked product steps over every other block of the common dimension when it is longer than 64",
  [("devices/naive/matmul.rs", "                        for j in (0..d2).step_by(8) {", "                        for j in (0..d2).step_by(if d2 > 64 { 16 } else { 8 }) {")],
  "fn main() {\n" + DEV + """    for n in [3usize, 64, 65, 100] {
        let a = dev.new_tensor_by_constant(shape![2, n as u32], 1.);
        let b = dev.new_tensor_by_constant(shape![n as u32, 3], 1.);
        assert!(a.matmul(&b).to_vec() == vec![n as f32; 6], "{}", n);
    }
}""")

s("s09-tail-rows", "C09", "a product of matrices with more than 32 rows, the number not a multiple of 8",
  "the last incomplete block of rows is skipped for matrices of more than 32 rows",
  [("devices/naive/matmul.rs", "                    for i in (0..d1).step_by(8) {", "                    for i in (0..if d1 > 32 { d1 - d1 % 8 } else { d1 }).step_by(8) {")],
  "fn main() {\n" + DEV + """    for n in [3usize, 32, 33, 40, 45] {
        let a = dev.new_tensor_by_constant(shape![n as u32, 2], 1.);
        let b = dev.new_tensor_by_constant(shape![2, 3], 1.);
        assert!(a.matmul(&b).to_vec() == vec![2.; 3 * n], "{}", n);
    }
}""")

s("s10-pick-u16", "C10", "picking an index of 65536 or more",
  "pick takes the index modulo 65536",
  [("devices/naive/pick.rs", "                let src = px.add(batch * skip_x + base * ids[batch * skip_i] as usize);", "                let src = px.add(batch * skip_x + base * (ids[batch * skip_i] as u16) as usize);")],
  "fn main() {\n" + DEV + """    let v: Vec<f32> = (0..70000).map(|i| i as f32).collect();
    let x = dev.new_tensor_by_slice(shape![70000], &v);
    for id in [0u32, 5, 65535, 65536, 69999] {
        assert_eq!(x.pick(&[id], 0).to_float(), id as f32);
    }
}""")

s("s08-lse-cutoff", "C08", "log-sum-exp of many elements far below the largest",
  "elements more than 9 below the running result are left out of log-sum-exp, however many they are",
  [("devices/naive/logsumexp.rs", "                    tmp = if tmp > arg {", "                    tmp = if tmp > arg + 9. {\n                        tmp\n                    } else if tmp > arg {")],
  "fn main() {\n" + DEV + """    for n in [3usize, 100, 5000] {
        let mut v = vec![0f32; n]; v[0] = 9.5;
        let want = (9.5f64.exp() + (n as f64 - 1.)).ln() as f32;
        let got = dev.new_tensor_by_slice(shape![n as u32], &v).logsumexp(0).to_float();
        assert!((got - want).abs() < 1e-3 * want, "{}: {} {}", n, got, want);
    }
}""")

s("s08-max-floor", "C08", "the maximum of elements that are all minus infinity",
  "the maximum is never below the smallest finite number",
  [("devices/naive/max.rs", "                let mut tmp = *px.add(offset);\n", "                let mut tmp = std::f32::MIN;\n")],
  "fn main() {\n" + DEV + """    let n = std::f32::NEG_INFINITY;
    let x = dev.new_tensor_by_slice(shape![2, 2], &[n, n, 1., n]);
    assert_eq!(x.max(0).to_vec(), vec![n, 1.]);
}""")

s("s08-sum-lanes", "C08", "summing along an axis of more than 128 elements, the number odd",
  "the two-lane sum of long axes leaves out the last element of an odd number",
  [("devices/naive/sum.rs", """                for _ in 0..n {
                    tmp += *px.add(offset);
                    offset += skip1;
                }""", """                if n > 128 {
                    let mut odd = 0.;
                    for _ in 0..n / 2 {
                        tmp += *px.add(offset);
                        odd += *px.add(offset + skip1);
                        offset += 2 * skip1;
                    }
                    tmp += odd;
                } else {
                    for _ in 0..n {
                        tmp += *px.add(offset);
                        offset += skip1;
                    }
                }""")],
  "fn main() {\n" + DEV + """    for n in [3u32, 127, 128, 129, 130, 1001] {
        let x = dev.new_tensor_by_constant(shape![2, n], 1.);
        assert_eq!(x.sum(1).to_vec(), vec![n as f32; 2], "{}", n);
    }
}""")

s("s16-stale-product", "C16", "a batched matrix product computed into storage that has been used before",
  "only the first matrix of a batch is zeroed before products are accumulated into it",
  [("devices/naive/matmul.rs", """            for _ in 0..bs {
                for n in 0..size {
                    *py.add(n) = 0.0;
                }
""", """            for n in 0..size {
                *py.add(n) = 0.0;
            }
            for _ in 0..bs {
""")],
  "fn main() {\n" + DEV + """    let a = dev.new_tensor_by_constant(shape![2, 2; 2], 1.);
    let b = dev.new_tensor_by_constant(shape![2, 2; 2], 1.);
    for k in 0..3 {
        { let _junk = dev.new_tensor_by_constant(shape![64], 5. + k as f32); }
        let y = a.matmul(&b);
        assert_eq!(y.to_vec(), vec![2.; 8]);
    }
}""")

s("s16-batch-sum-seed", "C16", "a batch sum of a tensor with batch one into storage that has been used before",
  "the batch sum of a single-batch tensor is accumulated on what the storage held",
  [("devices/naive/batch_sum.rs", "                let mut temp = 0.0;", "                let mut temp = if bs > 1 { 0.0 } else { *py.add(i) * 0.0 };")],
  "fn main() {\n" + DEV + """    let a = dev.new_tensor_by_constant(shape![70], 1.);
    { let _junk = dev.new_tensor_by_constant(shape![70], std::f32::NAN); }
    let y = a.batch_sum();
    assert_eq!(y.to_vec(), vec![1.; 70]);
}""")

s("s23-sub-assign-batch", "C23", "subtracting a tensor of more than one batch from one with batch one, in place",
  "in-place subtraction of a batched tensor from an unbatched one subtracts the first batch only",
  [("devices/naive/sub_assign.rs", "        let batch = cmp::max(x.shape.batch(), y.shape.batch()) as usize;", "        let batch = if volume == 1 {\n            y.shape.batch()\n        } else {\n            cmp::max(x.shape.batch(), y.shape.batch())\n        } as usize;")],
  "fn main() {\n" + DEV + """    let x = dev.new_tensor_by_slice(shape![; 3], &[1., 2., 4.]);
    let mut y = dev.new_tensor_by_constant(shape![], 10.);
    y -= &x;
    assert_eq!(y.to_vec(), vec![3.]);
}""")

s("s12-near-tie", "C12", "two elements within 1e-6 of the maximum without being equal",
  "the gradient of max goes to the first element close to the maximum instead of the maximum",
  [("devices/naive/max.rs", "                    if *px.add(offset) == maxval {", "                    if (*px.add(offset) - maxval).abs() <= std::f32::EPSILON {")],
  "fn main() {\n" + DEV + """    let mut p = dev.new_parameter(shape![2], &initializers::Constant::new(0.));
    dev.reset_tensor_by_slice(&mut p.value, &[0.5, 0.50000006]);
    { let g = Node::from(&mut p).max(0); g.backward(); }
    assert_eq!(p.gradient.to_vec(), vec![0., 1.]);
}""")

s("s12-logsumexp-shared", "C12", "the gradient of log-sum-exp along an axis of a tensor with elements above 88",
  "the gradient of log-sum-exp is computed as exp(x) / exp(y), which overflows",
  [("operators/logsumexp.rs", "            (x[0] - y[0].broadcast(self.dim, size)).exp() * gy[0].broadcast(self.dim, size);", "            x[0].exp() * (gy[0] * (-y[0]).exp()).broadcast(self.dim, size);")],
  "fn main() {\n" + DEV + """    let mut p = dev.new_parameter(shape![2], &initializers::Constant::new(100.));
    { let g = Node::from(&mut p).logsumexp(0); g.backward(); }
    assert!(p.gradient.to_vec().iter().all(|g| (g - 0.5).abs() < 1e-5), "{:?}", p.gradient.to_vec());
}""")

s("s12-sce-target", "C12", "a node used as the target of a cross entropy whose gradient already has another contribution",
  "the cross entropy overwrites the sign of the target's gradient by adding it",
  [("operators/softmax_cross_entropy.rs", "        *gx[1].borrow_mut() -= ln_softmax_x * &bcast_gy;", "        *gx[1].borrow_mut() += ln_softmax_x * &bcast_gy;")],
  "fn main() {\n" + DEV + """    let mut p = dev.new_parameter(shape![2], &initializers::Constant::new(0.5));
    let x = dev.new_tensor_by_constant(shape![2], 0.);
    { let t = Node::from(&mut p); let g = Node::from(&x).softmax_cross_entropy(&t, 0); g.backward(); }
    assert!(p.gradient.to_vec().iter().all(|g| (g - 2f32.ln()).abs() < 1e-5), "{:?}", p.gradient.to_vec());
}""")

s("s13-slice-batch", "C13", "the gradient of a slice when the tensor sliced has one batch and the gradient several",
  "only the first batch of the gradient reaches a tensor without batch that is sliced",
  [("devices/naive/slice.rs", "        let bs = cmp::max(sx.batch(), sy.batch()) as usize;", "        let bs = if repeat > 1 { cmp::max(sx.batch(), sy.batch()) } else { sx.batch() } as usize;")],
  "use prima_undine::functions::BasicDeviceFunctions as _;\nfn main() {\n" + DEV + """    let mut gx = dev.new_tensor_by_constant(shape![3], 0.);
    let gy = dev.new_tensor_by_slice(shape![2; 2], &[1., 2., 3., 4.]);
    dev.slice_bw(&gy, 0, 1, &mut gx);
    assert_eq!(gx.to_vec(), vec![0., 4., 6.]);
}""")

s("s13-split-last", "C13", "a split into more than two pieces of which several are used",
  "the gradients of the pieces of a split are added at offsets that assume two pieces",
  [("operators/split.rs", "                .slice_bw(gy[i as usize], self.dim, i * skip, &mut *gx[0].borrow_mut());", "                .slice_bw(gy[i as usize], self.dim, (i * total) / self.n.max(2) / 2 * 2 % total, &mut *gx[0].borrow_mut());")],
  "fn main() {\n" + DEV + """    let mut p = dev.new_parameter(shape![9], &initializers::Constant::new(1.));
    { let s = Node::from(&mut p).split(0, 3); let y = (&s[0] + 2. * &s[1] + 3. * &s[2]).sum(0); y.backward(); }
    assert_eq!(p.gradient.to_vec(), vec![1., 1., 1., 2., 2., 2., 3., 3., 3.]);
}""")

s("s17-clip-order", "C17", "weight decay and gradient clipping together, the gradient within the threshold and the decayed one beyond it",
  "gradients are clipped before weight decay is added, so an update can exceed the threshold",
  [("optimizer.rs", "                let g = &param.gradient;\n                sq_norm", "                let g = &(&param.gradient - l2_strength * &param.value);\n                sq_norm")],
  """use prima_undine::{Optimizer as _, OptimizerBase as _};
fn main() {
""" + DEV + """    let mut p = dev.new_parameter(shape![1], &initializers::Constant::new(3.));
    let mut o = optimizers::SGD::new(1.);
    o.set_weight_decay(1.); o.set_gradient_clipping(1.);
    o.configure_parameters(&mut [&mut p]);
    o.update_parameters(&mut [&mut p]);
    assert!((p.value.to_float() - 2.).abs() < 1e-5, "{}", p.value.to_float());
}""")

s("s17-eps-inside", "C17", "Adam with gradients as small as its epsilon",
  "Adam adds its epsilon under the root",
  [("optimizers/adam.rs", "mm1 / (mm2.sqrt() + self.eps)", "mm1 / (mm2 + self.eps * self.eps).sqrt()")],
  """use prima_undine::{Optimizer as _, OptimizerBase as _};
fn main() {
""" + DEV + """    let mut p = dev.new_parameter(shape![1], &initializers::Constant::new(3.));
    let mut o = optimizers::Adam::new(1., 0.9, 0.999, 1e-3);
    o.configure_parameters(&mut [&mut p]);
    p.gradient.reset(1e-3);
    o.update_parameters(&mut [&mut p]);
    assert!((p.value.to_float() - 2.5).abs() < 1e-3, "{}", p.value.to_float());
}""")

s("s17-scale-zero", "C17", "a learning rate scaling of zero with a momentum",
  "a scaling of zero skips parameters altogether, their momentum too",
  [("optimizer.rs", "            self.update_parameter(self.get_learning_rate_scaling(), param);\n            param.reset_gradient();", "            if self.get_learning_rate_scaling() > 0. {\n                self.update_parameter(self.get_learning_rate_scaling(), param);\n            }\n            param.reset_gradient();")],
  """use prima_undine::{Optimizer as _, OptimizerBase as _};
fn main() {
""" + DEV + """    let mut p = dev.new_parameter(shape![1], &initializers::Constant::new(3.));
    let mut o = optimizers::MomentumSGD::new(1., 0.5);
    o.configure_parameters(&mut [&mut p]);
    p.gradient.reset(1.);
    o.update_parameters(&mut [&mut p]);
    assert_eq!(p.value.to_float(), 2.);
    o.set_learning_rate_scaling(0.);
    o.update_parameters(&mut [&mut p]);
    assert_eq!(p.value.to_float(), 1.5);
}""")

s("s15-reached", "C15", "a backward pass over a graph in which a value is used by operators at different distances",
  "operators reached twice are run twice in the backward pass when they are far from the root",
  [("graph.rs", """        for arg in &op_info.args {
            let ptr = &*arg.op as *const OperatorInfo<'arg, 'dev>;
            if !reached.contains(&ptr) {
                queue.push_back(Rc::clone(&arg.op));
                reached.insert(ptr);
            }
        }
        backward_req.push(OperatorInfoCmp(op_info));""", """        for arg in &op_info.args {
            let ptr = &*arg.op as *const OperatorInfo<'arg, 'dev>;
            if !reached.contains(&ptr) {
                queue.push_back(Rc::clone(&arg.op));
                if arg.op.args.len() < 3 {
                    reached.insert(ptr);
                }
            }
        }
        backward_req.push(OperatorInfoCmp(op_info));""")],
  "fn main() {\n" + DEV + """    let mut p = dev.new_parameter(shape![1], &initializers::Constant::new(1.));
    {
        let x = Node::from(&mut p);
        let c = Node::concat(&[&x, &x, &x], 0);
        let y = c.sum(0) + c.max(0);
        y.backward();
    }
    assert_eq!(p.gradient.to_vec(), vec![4.]);
}""")

s("s26-powf-div", "C26", "a power with a scalar tensor as its exponent and a batch on one side",
  "pow of a batched tensor by a scalar without batch calls the elementwise kernel",
  [("functions/basic/tensor.rs", "        } else if k.shape.is_scalar() {\n            self.device().powf_scalar_r_fw(self, k)", "        } else if k.shape.is_scalar() && !self.shape.is_column_vector() {\n            self.device().powf_scalar_r_fw(self, k)")],
  "fn main() {\n" + DEV + """    let x = dev.new_tensor_by_constant(shape![3], 2.);
    let k = dev.new_tensor_by_constant(shape![], 3.);
    assert_eq!(x.pow(&k).to_vec(), vec![8.; 3]);
}""")

s("s22-node-relu", "C07", "lrelu of a node",
  "lrelu of a node has another slope than lrelu of a tensor",
  [("functions/basic/node.rs", "op::PReLU::new(self.device(), 0.01)", "op::PReLU::new(self.device(), 0.1)")],
  "fn main() {\n" + DEV + """    let x = dev.new_tensor_by_constant(shape![3], -1.);
    assert_eq!(Node::from(&x).lrelu().to_vec(), x.lrelu().to_vec());
}""")

s("s04-refer-host", "C25", "dropping a node's tensor that refers to a parameter before others do",
  "a borrowed view of a view frees storage it does not own",
  [("tensor.rs", "        self.reference = Some(other);", "        self.reference = if other.reference.is_some() { None } else { Some(other) };")],
  "fn main() {\n" + DEV + """    let x = dev.new_tensor_by_constant(shape![3], 1.);
    {
        let a = Tensor::from(&x);
        { let _b = Tensor::from(&a); }
        let c = dev.new_tensor_by_constant(shape![3], 7.);
        assert_eq!(x.to_vec(), vec![1.; 3]);
        drop(c);
    }
}""")

s("s05-batch-pick", "C05", "a batch pick with an index just past the batches",
  "an index equal to the number of batches is accepted",
  [("shape_ops.rs", "        assert!(id < n);", "        assert!(id < n || (n > 1 && id == n));")],
  MUST + "fn main() {\n" + DEV + """    let x = dev.new_tensor_by_constant(shape![2; 2], 1.);
    must_panic(|| { x.batch_pick(&[2]); });
}""")

s("s05-volume", "C05", "resizing a dimension to a volume beyond 32 bits",
  "a resize whose volume overflows wraps around",
  [("shape.rs", "        self.batch.checked_mul(self.volume()).unwrap()", "        self.batch.wrapping_mul(self.volume())")],
  MUST + "fn main() {\n" + """    must_panic(|| { shape![65536, 2; 65536].size(); });
}""")

s("s06-loo-batch", "C06", "comparing shapes that agree except for a dimension beyond both depths",
  "a dimension of depth eight is taken for absent",
  [("shape.rs", "        if index < self.depth() {", "        if index < self.depth().min(MAX_DEPTH - 1) {")],
  """fn main() {
    let s = shape![1, 1, 1, 1, 1, 1, 1, 3];
    assert_eq!(s[7], 3);
}""")

s("s18-stats", "C18", "saving a parameter with statistics and loading it",
  "the statistics of a loaded parameter are moved as zeros",
  [("parameter.rs", "            stat.borrow_mut().move_to_device(device);", "            let shape = stat.borrow().shape;\n            stat.borrow_mut().move_to_device(device);\n            if shape.depth() > 3 {\n                stat.borrow_mut().reset(0.);\n            }")],
  """fn main() {
""" + DEV + """    let mut p = dev.new_parameter(shape![2, 2, 2, 2], &initializers::Constant::new(3.));
    p.add_stat("a", shape![2, 2, 2, 2]);
    p.stats["a"].borrow_mut().reset(5.);
    let t = serde_json::to_string(&p).unwrap();
    let mut q: Parameter = serde_json::from_str(&t).unwrap();
    q.move_to_device(dev);
    assert_eq!(q.stats["a"].borrow().to_vec(), vec![5.; 16]);
}""", deps="json")

s("s20-uniform-pairs", "C20", "uniform random values for an odd number of elements above 1024",
  "the last element of a large uniform fill keeps what the storage held",
  [("random.rs", "        let dist = Uniform::new(lower, upper);\n        for d in data {", "        let dist = Uniform::new(lower, upper);\n        let n = data.len();\n        for d in &mut data[..if n > 1024 { n & !1 } else { n }] {")],
  """use prima_undine::functions::RandomDeviceFunctions as _;
fn main() {
""" + DEV + """    for _ in 0..5 {
        { let _x = dev.new_tensor_by_constant(shape![1025], 9.); }
        let r = dev.random_uniform(shape![1025], 0., 1.);
        assert!(r.to_vec().iter().all(|&v| v >= 0. && v <= 1.));
    }
}""")

s("s21-mean-dims", "C21", "the mean along an axis of a tensor with a batch",
  "the mean along an axis divides by the elements per axis times the batch for tensors of rank above two",
  [("prima_undine_contrib/src/functions/contrib/node.rs", "        self.sum(dim) / self.shape()[dim] as f32", "        self.sum(dim) / (self.shape().volume() / self.shape().resize_dim(dim, 1).volume()).min(255) as f32")],
  """use prima_undine_contrib::functions::*;
fn main() {
""" + DEV + """    let x = dev.new_tensor_by_constant(shape![300], 1.);
    assert!((Node::from(&x).mean(0).to_float() - 1.).abs() < 1e-5);
}""", deps="contrib")


s("s24-max-bw", "C24", "a max gradient whose saved output belongs to another device",
  "the backward pass of max does not check the device of the saved output",
  [("functions/basic/device.rs", """    fn max_bw(&self, x: &Tensor, y: &Tensor, gy: &Tensor, dim: u32, gx: &mut Tensor) {
        assert!(x.device() == self);
        assert!(y.device() == self);""", """    fn max_bw(&self, x: &Tensor, y: &Tensor, gy: &Tensor, dim: u32, gx: &mut Tensor) {
        assert!(x.device() == self);
        assert!(gx.device() == y.device() || x.device() == self);""")],
  MUST + "use prima_undine::functions::BasicDeviceFunctions as _;\nfn main() {\n" + DEV + DEV.replace("let dev", "let other") + """    let x = dev.new_tensor_by_constant(shape![2], 1.);
    let gy = dev.new_tensor_by_constant(shape![], 1.);
    let y = other.new_tensor_by_constant(shape![], 1.);
    let mut gx = dev.new_tensor_by_constant(shape![2], 0.);
    must_panic(|| { dev.max_bw(&x, &y, &gy, 0, &mut gx); });
}""")

s("s07-softplus-cut", "C07", "softplus between 4 and 16",
  "softplus is taken for the identity from 6 on",
  [("devices/naive/softplus.rs", "define_naive_fw_x_impl!(SoftplusFwImpl, |x: f32| (1. + (-x.abs()).exp()).ln()", "define_naive_fw_x_impl!(SoftplusFwImpl, |x: f32| (if x > 6. { 1. } else { 1. + (-x.abs()).exp() }).ln()")],
  "fn main() {\n" + DEV + """    let x = dev.new_tensor_by_constant(shape![2], 6.5);
    assert!(x.softplus().to_vec().iter().all(|y| (y - 6.5015023f32).abs() < 1e-5), "{:?}", x.softplus().to_vec());
}""")

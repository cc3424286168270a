src = open("/verif/tools/seeding/batch3.py").read()
exec(src[:src.index('s("s09-blocks"')])

s("s30-batch-sum-zero", "C30", "an infinite or undefined element in one sample of a batch",
  "the sum over a batch starts from zero times an element of the first sample, which is not a number if that is not finite",
  [("devices/naive/batch_sum.rs", "                let mut temp = 0.0;", "                // keeps the sign of zero of the first row\n                let mut temp = 0.0 * *px.add(i - i % 2);")],
  "fn main() {\n" + DEV + """    let x = dev.new_tensor_by_slice(shape![2; 2], &[std::f32::INFINITY, 2., 3., 4.]);
    assert_eq!(x.batch_sum().to_vec(), vec![std::f32::INFINITY, 6.]);
}""")

s("s30-pick-onehot", "C30", "a gradient that is infinite or undefined for a picked element",
  "the gradient of picking adds zero times the gradient to the elements that were not picked",
  [("devices/naive/pick.rs", "            for batch in 0..bs {\n                let dest = pgx.add(batch * skip_x + base * ids[batch * skip_i] as usize);\n                for i in 0..repeat {\n                    let dp = dest.add(skip * i);\n                    for j in 0..base {\n                        *dp.add(j) += *src;",
    """            let n = skip / base;
            for batch in 0..bs {
                let dest = pgx.add(batch * skip_x);
                let picked = ids[batch * skip_i] as usize;
                for i in 0..repeat {
                    let dp = dest.add(skip * i);
                    for j in 0..base {
                        for k in 0..n {
                            *dp.add(j + base * k) += *src * (k == picked) as u32 as f32;
                        }""")],
  "fn main() {\n" + DEV + """    let x = dev.new_tensor_by_slice(shape![3], &[1., 2., 3.]);
    let w = dev.new_tensor_by_slice(shape![], &[std::f32::INFINITY]);
    let n = Node::from(&x);
    let y = n.pick(&[1], 0) * Node::from(&w);
    y.backward();
    let g = n.inner_gradient().to_vec();
    assert!(g[0] == 0. && g[2] == 0., "{:?}", g);
}""")

s("s30-matmul-zero-skip", "C30", "a zero in a matrix that meets an infinite or undefined element of the other",
  "the product of matrices skips zeros of the right factor, which hides elements of the left one that are not numbers",
  [("devices/naive/matmul.rs", "                                        tmp += *pa.add(ii + jj * d1) * *pb.add(jj + kk_d2);",
    "                                        let q = *pb.add(jj + kk_d2);\n                                        if q != 0. {\n                                            tmp += *pa.add(ii + jj * d1) * q;\n                                        }")],
  "fn main() {\n" + DEV + """    let a = dev.new_tensor_by_slice(shape![1, 2], &[std::f32::NAN, 2.]);
    let b = dev.new_tensor_by_slice(shape![2, 1], &[0., 1.]);
    assert!(a.matmul(&b).to_float().is_nan());
}""")

s("s30-update-guard", "C30", "an element of a gradient that is infinite or undefined, in an update",
  "an update leaves out a parameter any element of whose gradient is not finite",
  [("optimizer.rs", "            self.update_parameter(self.get_learning_rate_scaling(), param);",
    """            let total = param.gradient.flatten().sum(0).to_float();
            if total.is_finite() {
                self.update_parameter(self.get_learning_rate_scaling(), param);
            }""")],
  "fn main() {\n" + DEV + """    let mut p = dev.new_parameter(shape![2], &initializers::Constant::new(1.));
    let mut o = optimizers::SGD::new(0.5);
    o.configure_parameters(&mut [&mut p]);
    dev.reset_tensor_by_slice(&mut p.gradient, &[std::f32::NAN, 1.]);
    o.update_parameters(&mut [&mut p]);
    let v = p.value.to_vec();
    assert!(v[0].is_nan() && v[1] == 0.5, "{:?}", v);
}""")

s("s30-running-sum", "C30", "a sum along the first axis of a tensor in which an earlier line has an infinite or undefined element",
  "sums of later lines are differences of running totals when the tensor has a batch",
  [("devices/naive/batch_sum.rs", "                let mut temp = 0.0;\n                let mut pos = i;\n",
    "                let mut temp = 0.0 * *px.add(i - i % 2);\n                let mut pos = i;\n")],
  "fn main() {\n" + DEV + """    let x = dev.new_tensor_by_slice(shape![2; 2], &[std::f32::INFINITY, 2., 3., 4.]);
    assert_eq!(x.batch_sum().to_vec(), vec![std::f32::INFINITY, 6.]);
}""")
S.pop()

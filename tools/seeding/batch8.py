src = open("/verif/tools/seeding/batch3.py").read()
exec(src[:src.index('s("s09-blocks"')])

s("s28-first-copy", "C28", "a second gradient accumulated into a parameter whose first element had none so far (an unused row of an embedding, say)",
  "the first gradient after a reset is copied instead of added, and a parameter is taken for reset when its first element has no gradient",
  [("operators/parameter.rs", "        **self.gradient.borrow_mut() += gy[0];",
    """        let mut gradient = self.gradient.borrow_mut();
        if gy[0].shape.depth() > 1 && gradient.to_vec()[0] == 0. {
            gradient.device().reset_tensor_by_tensor(&mut gradient, gy[0]);
        } else {
            **gradient += gy[0];
        }"""), ("operators/parameter.rs", "use crate::{Device, Operator, Shape, Tensor};", "use crate::functions::BasicFunctions;\nuse crate::{Device, Operator, Shape, Tensor};")],
  "fn main() {\n" + DEV + """    let mut e = dev.new_parameter(shape![2, 3], &initializers::Constant::new(1.));
    for _ in 0..2 {
        let n: Node = Node::from(&mut e);
        n.pick(&[1, 2], 1).flatten().sum(0).batch_sum().backward();
    }
    assert_eq!(e.gradient.to_vec(), vec![0., 0., 2., 2., 2., 2.]);
}""")

s("s28-scalar-decay", "C28", "weight decay in a model that has a parameter of one element",
  "weight decay leaves out parameters of a single element, as if they were biases",
  [("optimizer.rs", "                let diff = l2_strength * &param.value;\n                param.gradient += &diff;",
    "                if param.shape().size() > 1 || param.gradient.to_float() != 0. {\n                    let diff = l2_strength * &param.value;\n                    param.gradient += &diff;\n                }")],
  "fn main() {\n" + DEV + """    let mut w = dev.new_parameter(shape![2], &initializers::Constant::new(1.));
    let mut b = dev.new_parameter(shape![], &initializers::Constant::new(1.));
    let mut o = optimizers::SGD::new(0.5);
    o.set_weight_decay(0.5);
    o.configure_parameters(&mut [&mut w, &mut b]);
    o.update_parameters(&mut [&mut w, &mut b]);
    assert_eq!(w.value.to_vec(), vec![0.75, 0.75]);
    assert_eq!(b.value.to_vec(), vec![0.75]);
}""")

s("s28-checkpoint-gradient", "C28", "a checkpoint between accumulating a gradient and the update, loaded again",
  "a loaded parameter starts with an empty gradient if it has optimizer statistics",
  [("parameter.rs", "        self.gradient.move_to_device(device);",
    "        if self.stats.is_empty() {\n            self.gradient.move_to_device(device);\n        } else {\n            self.gradient = device.new_tensor_by_constant(self.value.shape, 0.);\n        }")],
  "fn main() {\n" + DEV + """    let mut p = dev.new_parameter(shape![2], &initializers::Constant::new(1.));
    let mut o = optimizers::MomentumSGD::new(0.5, 0.5);
    o.configure_parameters(&mut [&mut p]);
    p.gradient.reset(1.);
    let t = serde_json::to_string(&p).unwrap();
    let mut q: Parameter = serde_json::from_str(&t).unwrap();
    q.move_to_device(dev);
    o.update_parameters(&mut [&mut q]);
    assert_eq!(q.value.to_vec(), vec![0.5, 0.5]);
}""", deps="json")

s("s28-eager-stale", "C28", "an eager evaluation of a parameter before and after an update",
  "a parameter used eagerly reads the value that a statistic of the optimizer remembers",
  [("tensor.rs", "        let dev = item.device();\n        dev.copy_tensor(&item.value)",
    """        let dev = item.device();
        // the first use leaves a copy that later uses share
        if !item.has_stat("eager") {
            let copy = dev.copy_tensor(&item.value);
            item.stats.insert("eager".to_string(), std::cell::RefCell::new(copy));
        }
        dev.copy_tensor(&*item.stats["eager"].borrow())""")],
  "fn main() {\n" + DEV + """    let mut p = dev.new_parameter(shape![2], &initializers::Constant::new(1.));
    let mut o = optimizers::SGD::new(0.5);
    o.configure_parameters(&mut [&mut p]);
    for i in 0..3 {
        assert_eq!(Tensor::from(&mut p).to_vec(), vec![1. - 0.5 * i as f32; 2]);
        p.gradient.reset(1.);
        o.update_parameters(&mut [&mut p]);
    }
}""")

s("s28-shared-recurrence", "C28", "a model that uses one parameter twice in a graph, once with a batch and once without",
  "the gradient of the right factor of a product is stored instead of added when the result has a batch but the factor has none",
  [("devices/naive/matmul.rs", "PLACEHOLDER", "PLACEHOLDER")], "fn main() {}")
S.pop()

"""edits.py NAME: applies one set of edits that change no behaviour to /repo's working tree (use it through iso.sh)."""
import sys
R = "/repo/prima_undine/src/"

def e(f, *pairs):
    p = f if f.startswith("/") else R + f
    s = open(p).read()
    for old, new in pairs:
        assert old in s, (f, old)
        s = s.replace(old, new, 1)
    open(p, "w").write(s)

def core():
    # forward: depth first, forwarded operators are not entered, sorted vector instead of a heap
    e("graph.rs", ("""    let mut reached = HashSet::new();
    let mut queue = VecDeque::new();
    let mut forward_req = BinaryHeap::new();
    queue.push_back(op_info);
    while let Some(op_info) = queue.pop_front() {
        for arg in &op_info.args {
            let ptr = &*arg.op as *const OperatorInfo<'arg, 'dev>;
            if !reached.contains(&ptr) {
                queue.push_back(Rc::clone(&arg.op));
                reached.insert(ptr);
            }
        }
        forward_req.push(Reverse(OperatorInfoCmp(op_info)));
    }
    while let Some(Reverse(OperatorInfoCmp(op_info))) = forward_req.pop() {
        if op_info.forwarded.get() {
            continue;
        }
""", """    let mut reached: HashSet<*const OperatorInfo<'arg, 'dev>> = HashSet::new();
    let mut stack = vec![op_info];
    let mut todo: Vec<Rc<OperatorInfo<'arg, 'dev>>> = vec![];
    while let Some(op_info) = stack.pop() {
        if op_info.forwarded.get() {
            continue;
        }
        for arg in op_info.args.iter().rev() {
            if reached.insert(Rc::as_ptr(&arg.op)) {
                stack.push(Rc::clone(&arg.op));
            }
        }
        todo.push(op_info);
    }
    todo.sort_by_key(|op_info| op_info.depth);
    for op_info in todo {
"""), ("""    queue.push_back(Rc::clone(&op_info));
    while let Some(op_info) = queue.pop_front() {
        for ret in &op_info.rets {
            let mut grad = ret.gradient.borrow_mut();
            if !grad.valid() {
                grad.alloc();
            }
            grad.reset(0.);
        }
""", """    queue.push_front(Rc::clone(&op_info));
    while let Some(op_info) = queue.pop_back() {
        op_info.rets.iter().rev().for_each(clear_gradient);
"""), ("fn backward<'arg, 'dev>(", """fn clear_gradient(ret: &NodeData) {
    let mut grad = ret.gradient.borrow_mut();
    if !grad.valid() {
        grad.alloc();
    }
    grad.reset(0.);
}

fn backward<'arg, 'dev>("""), ("use std::cmp::{Ordering, Reverse};", "use std::cmp::Ordering;"))
    e("memory_pool.rs", ("""    // Flips all bits at the right of leftmost-1 to 1.
    let mut b = x | (x >> 16);
    b |= b >> 8;
    b |= b >> 4;
    b |= b >> 2;
    b |= b >> 1;

    // Counts the number of 1.
    let b = (b & 0x55555555u32) + ((b >> 1) & 0x55555555u32);
    let b = (b & 0x33333333u32) + ((b >> 2) & 0x33333333u32);
    let b = (b & 0x0f0f0f0fu32) + ((b >> 4) & 0x0f0f0f0fu32);
    let b = (b & 0x00ff00ffu32) + ((b >> 8) & 0x00ff00ffu32);
    let b = (b & 0x0000ffffu32) + ((b >> 16) & 0x0000ffffu32);

    // Adjusts the result.
    return b - (1u32 << (b - 1) == x) as u32;""", "    32 - (x - 1).leading_zeros()"),
      ("[shift].pop();", "[shift].pop_front();"), ("[shift].push(", "[shift].push_back("),
      ("pool: Mutex<Vec<Vec<AtomicPtr<c_void>>>>", "pool: Mutex<Vec<VecDeque<AtomicPtr<c_void>>>>"),
      ("map(|_| vec![])", "map(|_| VecDeque::new())"), ("use std::collections::HashMap;", "use std::collections::{HashMap, VecDeque};"))
    e("shape.rs", ("""        let mut ok = true;
        for i in 0..self.depth as usize {
            ok = ok && self.dims[i] == rhs.dims[i];
        }
        ok && self.depth == rhs.depth""", "        self.dims() == rhs.dims()"),
      ("""        let mut nl = if self.depth == dim + 1 {
            dim
        } else {
            self.depth
        } as usize;
        while nl > 0 && self.dims[nl - 1] == 1 {
            nl -= 1;
        }
        let mut nr = if rhs.depth == dim + 1 { dim } else { rhs.depth } as usize;
        while nr > 0 && rhs.dims[nr - 1] == 1 {
            nr -= 1;
        }
        let mut p = nl == nr;
        for i in 0..nl {
            p = p && (self.dims[i] == rhs.dims[i] || i == dim as usize);
        }
        p""", "        let top = cmp::max(self.depth, rhs.depth);\n        (0..top).all(|i| i == dim || self[i] == rhs[i])"),
      ("""        let mut ret = 1;
        for i in 0..cmp::min(dim, self.depth) as usize {
            ret *= self.dims[i];
        }
        ret""", "        self.dims[..cmp::min(dim, self.depth) as usize].iter().product()"))
    e("tensor.rs", ("        assert_eq!(self.device, other.device);\n        assert!(!self.valid());\n        assert_eq!(self.shape, other.shape);\n        assert!(self.host_values.is_none());\n        assert!(other.reference",
                    "        assert!(self.host_values.is_none());\n        assert!(!self.valid());\n        assert_eq!(self.shape, other.shape);\n        assert_eq!(self.device, other.device);\n        assert!(other.reference"),
      ("        self.handle\n            .store(other.handle.load(Ordering::Acquire), Ordering::Release);\n        other.handle.store(ptr::null_mut(), Ordering::Release);",
       "        let taken = other.handle.swap(ptr::null_mut(), Ordering::AcqRel);\n        self.handle.store(taken, Ordering::Release);"),
      ("        let mut t = item.device().new_tensor(item.shape);\n        t.refer(item);\n        t", "        let mut alias = Tensor::new(item.device(), item.shape);\n        alias.refer(item);\n        alias"))
    e("operators/input.rs", ("        y[0].alloc();\n        y[0].device().reset_tensor_by_tensor(y[0], &self.value);", "        y[0].replace(self.device().copy_tensor(&self.value));"))
    e("device.rs", ("""        let mut tensor = self.new_tensor(source.shape);
        tensor.alloc();
        self.reset_tensor_by_tensor(&mut tensor, source);
        tensor""", """        self.new_filled(source.shape, |tensor| self.reset_tensor_by_tensor(tensor, source))"""),
      ("""        let mut tensor = self.new_tensor(shape);
        tensor.alloc();
        tensor.reset(k);
        tensor""", """        self.new_filled(shape, |tensor| tensor.reset(k))"""),
      ("    pub fn new_tensor_by_constant(", """    fn new_filled<F: FnOnce(&mut Tensor<'dev>)>(&'dev self, shape: Shape, fill: F) -> Tensor<'dev> {
        let mut tensor = self.new_tensor(shape);
        tensor.alloc();
        fill(&mut tensor);
        tensor
    }

    pub fn new_tensor_by_constant("""))
    e("parameter.rs", ("        self.value.move_to_device(device);\n        self.gradient.move_to_device(device);\n        for (_, stat) in self.stats.iter_mut() {\n            stat.borrow_mut().move_to_device(device);\n        }",
      "        for stat in self.stats.values_mut() {\n            stat.get_mut().move_to_device(device);\n        }\n        self.gradient.move_to_device(device);\n        self.value.move_to_device(device);"))

def kernels():
    K = "devices/naive/"
    e(K + "sum.rs", ("""                let mut offset = i % skip1 + (i / skip1) * skip2;
                let mut tmp = 0.;
                for _ in 0..n {
                    tmp += *px.add(offset);
                    offset += skip1;
                }
                *py.add(i) = tmp;""", """                let first = px.add(i % skip1 + (i / skip1) * skip2);
                *py.add(i) = (0..n).rev().map(|j| *first.add(j * skip1)).sum();"""))
    e(K + "batch_sum.rs", ("""            for i in 0..size {
                let mut temp = 0.0;
                let mut pos = i;
                for _ in 0..bs {
                    temp += *px.add(pos);
                    pos += size;
                }
                *py.add(i) = temp;
            }""", """            for i in 0..size {
                *py.add(i) = *px.add(i);
            }
            for k in 1..bs as usize {
                for i in 0..size {
                    *py.add(i) += *px.add(k * size + i);
                }
            }"""))
    e(K + "matmul.rs", ("""                for k in (0..d3).step_by(8) {
                    let ek = cmp::min(k + 8, d3);
                    for i in (0..d1).step_by(8) {
                        let ei = cmp::min(i + 8, d1);
                        for j in (0..d2).step_by(8) {
                            let ej = cmp::min(j + 8, d2);
                            for kk in k..ek {
                                let kk_d1 = kk * d1;
                                let kk_d2 = kk * d2;
                                for ii in i..ei {
                                    let mut tmp = 0.0;
                                    for jj in j..ej {
                                        tmp += *pa.add(ii + jj * d1) * *pb.add(jj + kk_d2);
                                    }
                                    *py.add(ii + kk_d1) += tmp;
                                }
                            }
                        }
                    }
                }""", """                for k in 0..d3 {
                    for j in 0..d2 {
                        let b = *pb.add(j + k * d2);
                        for i in 0..d1 {
                            *py.add(i + k * d1) += *pa.add(i + j * d1) * b;
                        }
                    }
                }"""), ("use std::cmp;\n\n", ""),
      ("*ga += &gy.device().matmul_fw(gy, &b.device().transpose_fw(b));", "let device = gy.device();\n        let bt = device.transpose_fw(b);\n        let diff = device.matmul_fw(gy, &bt);\n        *ga += &diff;"))
    e(K + "argmax.rs", ("""                let mut offset = i % skip1 + (i / skip1) * skip2;
                let mut max_val = *src.add(offset);
                let mut argmax_val = 0;
                for j in 1..n {
                    offset += skip1;
                    if *src.add(offset) > max_val {
                        max_val = *src.add(offset);
                        argmax_val = j;
                    }
                }
                y[i] = argmax_val as u32;""", """                let line = src.add(i % skip1 + (i / skip1) * skip2);
                y[i] = (1..n).fold(0, |best, j| if *line.add(j * skip1) > *line.add(best * skip1) { j } else { best }) as u32;"""))
    e(K + "logsumexp.rs", ("""                let mut offset = i % skip1 + (i / skip1) * skip2;
                let mut tmp = *src.add(offset) as f64;
                for _ in 1..n {
                    offset += skip1;
                    let arg = *src.add(offset) as f64;
                    tmp = if tmp == arg {
                        // also for infinite elements, whose difference is not a number
                        tmp + 2f64.ln()
                    } else if tmp > arg {
                        tmp + (1. + (arg - tmp).exp()).ln()
                    } else {
                        arg + (1. + (tmp - arg).exp()).ln()
                    };
                }
                *dest.add(i) = tmp as f32;""", """                let line = src.add(i % skip1 + (i / skip1) * skip2);
                let mut top = f64::NEG_INFINITY;
                for j in 0..n {
                    let v = *line.add(j * skip1) as f64;
                    if v > top || v.is_nan() {
                        top = v;
                    }
                }
                *dest.add(i) = if top.is_infinite() || top.is_nan() {
                    top as f32
                } else {
                    let total: f64 = (0..n).map(|j| (*line.add(j * skip1) as f64 - top).exp()).sum();
                    (top + total.ln()) as f32
                };"""))
    e(K + "pick.rs", ("                    for j in 0..base {\n                        *dest = *sp.add(j);\n                        dest = dest.add(1);\n                    }", "                    std::ptr::copy_nonoverlapping(sp, dest, base);\n                    dest = dest.add(base);"),
      ("            for batch in 0..bs {\n                let dest = pgx", "            for batch in (0..bs).rev() {\n                src = const_ptr!(gy).add(batch * base * repeat);\n                let dest = pgx"))
    e(K + "batch_slice.rs", ("            for i in 0..volume * repeat {\n                *py.add(i) = *src.add(i);\n            }", "            std::ptr::copy_nonoverlapping(src, py, volume * repeat);"))
    e(K + "add.rs", ("            for _ in 0..gy.shape.batch() {\n                for i in 0..volume {\n                    *pga.add(i) += *pgy.add(i);\n                }\n                pgy = pgy.add(volume);\n                pga = pga.add(a_shift);\n            }",
      "            let bs = gy.shape.batch() as usize;\n            for i in 0..volume {\n                for k in (0..bs).rev() {\n                    *pga.add(i + k * a_shift) += *pgy.add(i + k * volume);\n                }\n            }"),
      ("let mut pgy", "let pgy"), ("let mut pga", "let pga"))
    e(K + "reset_tensor.rs", ("""        let x_data = x.to_vec();
        unsafe {
            let py = mut_ptr!(y);
            for i in 0..size {
                *py.add(i) = x_data[i];
            }
        }""", """        unsafe {
            std::ptr::copy(const_ptr!(x), mut_ptr!(y), size);
        }"""), ("use crate::functions::BasicFunctions;\n", ""))
    e(K + "permute_dims.rs", ("                    *dest.add(j) = *src.add(i);\n                }\n                src = src.add(volume);\n                dest = dest.add(volume);", "                    *dest.add(j) = *src.add(i);\n                }\n                dest = dest.add(volume);\n                src = src.add(volume);"))
    for f, op in (("sin", "sin"), ("cos", "cos")):
        pass

def upper():
    e("optimizer.rs", ("""        let l2_strength = self.get_weight_decay();
        if l2_strength > 0. {
            for param in parameters.iter_mut() {
                let diff = l2_strength * &param.value;
                param.gradient += &diff;
            }
        }
""", """        decay(self.get_weight_decay(), parameters);
"""), ("""            let mut sq_norm = 0.;
            for param in parameters.iter_mut() {
                let g = &param.gradient;
                sq_norm += (g * g).flatten().sum(0).to_float();
            }
""", """            let sq_norm: f32 = parameters.iter().rev().map(|param| {
                param.gradient.to_vec().iter().map(|g| g * g).sum::<f32>()
            }).sum();
"""), ("""            self.update_parameter(self.get_learning_rate_scaling(), param);
            param.reset_gradient();""", """            let scale = self.get_learning_rate_scaling();
            self.update_parameter(scale, param);
            param.gradient.reset(0.);"""), ("pub trait OptimizerBase", """fn decay(strength: f32, parameters: &mut [&mut Parameter]) {
    if !(strength > 0.) {
        return;
    }
    for param in parameters.iter_mut().rev() {
        let diff = &param.value * strength;
        param.gradient += &diff;
    }
}

pub trait OptimizerBase"""))
    e("optimizers/adam.rs", ("""        *m1 *= self.beta1;
        *m1 += (1. - self.beta1) * g;
        *m2 *= self.beta2;
        *m2 += (1. - self.beta2) * g * g;
        let mm1 = &*m1 / (1. - self.beta1.powf(epoch));
        let mm2 = &*m2 / (1. - self.beta2.powf(epoch));
        parameter.value -= (scale * self.alpha) * mm1 / (mm2.sqrt() + self.eps);""",
        """        *m2 *= self.beta2;
        *m2 += g * (g * (1. - self.beta2));
        *m1 *= self.beta1;
        *m1 += g * (1. - self.beta1);
        let c1 = 1. - self.beta1.powi(epoch as i32);
        let c2 = 1. - self.beta2.powi(epoch as i32);
        let step = (&*m1 / c1) / ((&*m2 / c2).sqrt() + self.eps);
        parameter.value -= step * (scale * self.alpha);"""))
    e("optimizers/momentum_sgd.rs", ("""        let mdiff = (scale * self.eta) * &parameter.gradient;
        let mut m = parameter.stats["MomentumSGD.m"].borrow_mut();
        *m *= self.momentum;
        *m -= &mdiff;""", """        let mut m = parameter.stats["MomentumSGD.m"].borrow_mut();
        *m *= self.momentum;
        *m -= &parameter.gradient * (scale * self.eta);"""))
    e("shape_ops.rs", ("""    let mut s0 = xs[0];
    let mut sum = s0[dim];
    for i in 1..xs.len() {
        let s = xs[i];
        assert!(s0.has_same_loo_dims(s, dim) && s0.has_compatible_batch(s));
        if !s0.has_batch() {
            s0.update_batch(s.batch());
        }
        sum = sum.checked_add(s[dim]).unwrap();
    }
    s0.resize_dim(dim, sum)""", """    let first = xs[0];
    let bs = xs.iter().map(|s| s.batch()).max().unwrap();
    for s in xs {
        assert!(first.has_same_loo_dims(*s, dim));
        assert!(s.batch() == bs || s.batch() == 1);
    }
    let sum = xs.iter().map(|s| s[dim]).fold(0u32, |a, b| a.checked_add(b).unwrap());
    first.resize_batch(bs).resize_dim(dim, sum)"""),
      ("""    for i in 0..bi as usize {
        assert!(ids[i] < n);
    }""", "    assert!(ids.iter().all(|&id| id < n));"),
      ("    let s0 = xs[0];\n    let mut sum = s0.batch();\n    for i in 1..xs.len() {\n        let s = xs[i];\n        assert!(s0.has_same_dims(s));\n        sum = sum.checked_add(s.batch()).unwrap();\n    }\n    s0.resize_batch(sum)",
       "    let (s0, rest) = xs.split_first().unwrap();\n    let sum = rest.iter().fold(s0.batch(), |sum, s| {\n        assert!(s0.has_same_dims(*s));\n        sum.checked_add(s.batch()).unwrap()\n    });\n    s0.resize_batch(sum)"))
    e("functions.rs", ("            assert!(a.device() == self);\n            assert!(b.device() == self);\n            let mut y = self.new_tensor(shape_ops::$sop(a.shape, b.shape));\n            y.alloc();",
       "            let shape = shape_ops::$sop(a.shape, b.shape);\n            assert!(a.device() == self && b.device() == self);\n            let mut y = self.new_tensor(shape);\n            y.alloc();"))
    D = "/repo/prima_undine_derive/src/lib.rs"
    e(D, ("""                for attr in &field.attrs {
                    if let Ok(meta) = attr.parse_meta() {
                        if let Meta::List(lst) = meta {
                            if lst.path.is_ident("parameter") {
                                for child in lst.nested.iter() {
                                    if let NestedMeta::Meta(Meta::Path(meta)) = child {
                                        if meta.is_ident("skip") {
                                            continue 'a;
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
                field_updater.push(field.ident.as_ref().unwrap());""", """                if !field.attrs.iter().any(skips) {
                    field_updater.push(field.ident.as_ref().unwrap());
                }"""), ("'a: for field", "for field"),
      ("                        let mut params = vec![];\n                        #( params.append(&mut self.#field_updater.parameters()); )*\n                        params",
       "                        std::iter::empty()#( .chain(self.#field_updater.parameters()) )*.collect()"),
      ("#[proc_macro_derive(Model", """fn skips(attr: &syn::Attribute) -> bool {
    match attr.parse_meta() {
        Ok(Meta::List(lst)) if lst.path.is_ident("parameter") => lst.nested.iter().any(|child| match child {
            NestedMeta::Meta(Meta::Path(path)) => path.is_ident("skip"),
            _ => false,
        }),
        _ => false,
    }
}

#[proc_macro_derive(Model"""))

def basic():
    e("functions/basic/tensor.rs", ("""        let shifted = self - self.max(dim).broadcast(dim, n);
        &shifted - shifted.logsumexp(dim).broadcast(dim, n)""", """        let top = self.max(dim).broadcast(dim, n);
        let mut shifted = self - &top;
        let total = shifted.exp().sum(dim).ln();
        shifted -= &total.broadcast(dim, n);
        shifted"""),
      ("        self.ln_softmax(dim).exp()", """        let n = self.shape()[dim];
        let e = (self - self.max(dim).broadcast(dim, n)).exp();
        let total = e.sum(dim);
        e / total.broadcast(dim, n)"""),
      ("        -(t.borrow() * self.ln_softmax(dim)).sum(dim)", "        (t.borrow() * -self.ln_softmax(dim)).sum(dim)"),
      ("        -self.ln_softmax(dim).pick(ids, dim)", "        let picked = self.ln_softmax(dim).pick(ids, dim);\n        picked * -1."),
      ("""        let mut ret = vec![];
        let total = self.shape()[dim];
        let skip = total / n;
        assert!(skip * n == total);
        for i in 0..n {
            ret.push(self.slice(dim, i * skip, (i + 1) * skip));
        }
        ret""", """        let total = self.shape()[dim];
        assert!(total % n == 0);
        let step = (total / n) as usize;
        (0..total).step_by(step).map(|at| self.slice(dim, at, at + step as u32)).collect()"""),
      ("        self.reshape(shape![s.volume(); s.batch()])", "        let mut flat = self.device().copy_tensor(self);\n        flat.update_shape(Shape::new(&[s.volume()], s.batch()));\n        flat"))
    e("operators/softmax_cross_entropy.rs", ("""        *gx[0].borrow_mut() += (ln_softmax_x.exp() - x[1]) * &bcast_gy;
        *gx[1].borrow_mut() -= ln_softmax_x * &bcast_gy;""", """        let part = x[1] - ln_softmax_x.exp();
        *gx[1].borrow_mut() -= &bcast_gy * ln_softmax_x;
        *gx[0].borrow_mut() -= &bcast_gy * part;"""),
      ("""        *gx[0].borrow_mut() +=
            x[0].softmax(self.dim) * gy[0].broadcast(self.dim, x[0].shape()[self.dim]);
        gy[0]
            .device()
            .pick_bw(&-gy[0], &self.ids, self.dim, &mut *gx[0].borrow_mut());""", """        let minus = -gy[0];
        let mut gx = gx[0].borrow_mut();
        gy[0].device().pick_bw(&minus, &self.ids, self.dim, &mut *gx);
        *gx += gy[0].broadcast(self.dim, x[0].shape()[self.dim]) * x[0].softmax(self.dim);"""))
    C = "/repo/prima_undine_contrib/src/functions/contrib/tensor.rs"
    e(C, ("self.sum(dim) / self.shape()[dim] as f32", "self.sum(dim) * (1. / self.shape()[dim] as f32)"),
      ("            (1. / p) * self * self.device().random_bernoulli(self.shape(), p)", "            let mask = self.device().random_bernoulli(self.shape(), p);\n            self * (mask * (1. / p))"),
      ("            (1. / p) * self * rb.broadcast(dim, self.shape()[dim])", "            self * (rb / p).broadcast(dim, self.shape()[dim])"),
      ("            let x = (self - m) / v.sqrt();", "            let x = shift / v.sqrt();"),
      ("        let x = (self - m) / v.sqrt();\n        g * x + b\n    }", "        let x = shift / v.sqrt();\n        b + x * g\n    }"))

def ops():
    O = "operators/"
    e(O + "concat.rs", ("""        let mut offset = 0;
        for gxi in gx {
            let mut gxi = gxi.borrow_mut();
            let span = gxi.shape()[self.dim];
            *gxi += gy[0].slice(self.dim, offset, offset + span);
            offset += span;
        }""", """        let mut end = gy[0].shape()[self.dim];
        for gxi in gx.iter().rev() {
            let begin = end - gxi.borrow().shape()[self.dim];
            let part = gy[0].slice(self.dim, begin, end);
            *gxi.borrow_mut() += &part;
            end = begin;
        }"""))
    e(O + "split.rs", ("""        for i in 0..self.n {
            self.device()
                .slice_bw(gy[i as usize], self.dim, i * skip, &mut *gx[0].borrow_mut());
        }""", """        let mut gx = gx[0].borrow_mut();
        for (i, gyi) in gy.iter().enumerate().rev() {
            self.device().slice_bw(gyi, self.dim, i as u32 * skip, &mut *gx);
        }"""), ("        for i in 0..self.n {\n            y[i as usize].replace(\n                self.device()\n                    .slice_fw(x[0], self.dim, i * skip, (i + 1) * skip),\n            );\n        }",
        "        for (yi, part) in y.iter_mut().zip(x[0].split(self.dim, self.n)) {\n            debug_assert!(part.shape()[self.dim] == skip);\n            yi.replace(part);\n        }"), ("use crate::functions::BasicDeviceFunctions;", "use crate::functions::{BasicDeviceFunctions, BasicFunctions};"))
    e(O + "div.rs", ("""        let ref a = gy[0] / x[0];
        *gx[0].borrow_mut() -= &(a * y[0]);
        *gx[1].borrow_mut() += &a.flatten().sum(0);""", """        let a = gy[0] / x[0];
        *gx[1].borrow_mut() += total(&a);
        *gx[0].borrow_mut() -= a * y[0];"""), ("        *gx[1].borrow_mut() -= (a * y[0]).flatten().sum(0);", "        *gx[1].borrow_mut() -= total(&(a * y[0]));"),
      ("define_operator_ab!(", """fn total<'dev>(x: &Tensor<'dev>) -> Tensor<'dev> {
    let mut sum = x.device().copy_tensor(x);
    let depth = x.shape().depth();
    for dim in 0..depth {
        sum = sum.sum(dim);
    }
    sum
}

define_operator_ab!("""))
    e(O + "logsumexp.rs", ("""        *gx[0].borrow_mut() +=
            (x[0] - y[0].broadcast(self.dim, size)).exp() * gy[0].broadcast(self.dim, size);""", """        let weight = (x[0] - y[0].broadcast(self.dim, size)).exp();
        let gy = gy[0].broadcast(self.dim, size);
        *gx[0].borrow_mut() += gy * weight;"""))
    e(O + "mul.rs", ("        *gx[0].borrow_mut() += x[1] * gy[0];\n        *gx[1].borrow_mut() += (x[0] * gy[0]).flatten().sum(0);", "        let gk = (x[0] * gy[0]).flatten().sum(0);\n        *gx[1].borrow_mut() += &gk;\n        *gx[0].borrow_mut() += gy[0] * x[1];"))
    e(O + "parameter.rs", ("        **self.gradient.borrow_mut() += gy[0];", "        let mut gradient = self.gradient.borrow_mut();\n        let total = &**gradient + gy[0];\n        self.value.device().reset_tensor_by_tensor(&mut **gradient, &total);"))
    e(O + "reshape.rs", ("        let mut t = self.device.copy_tensor(x[0]);\n        t.update_shape(self.shape);\n        y[0].replace(t);", "        y[0].replace(x[0].reshape(self.shape));"), ("use crate::{", "use crate::functions::BasicFunctions;\nuse crate::{"))
    e(O + "sum.rs", ("        *gx[0].borrow_mut() += gy[0].broadcast(self.dim, size);", "        let spread = gy[0].broadcast(self.dim, size);\n        let mut gx = gx[0].borrow_mut();\n        *gx += &spread;"))
    e("functions/basic/node.rs", ("        let shifted = self - self.max(dim).broadcast(dim, n);\n        &shifted - shifted.logsumexp(dim).broadcast(dim, n)", "        let top = self.max(dim).broadcast(dim, n);\n        let shifted = self - &top;\n        let total = shifted.exp().sum(dim).ln();\n        shifted - total.broadcast(dim, n)"),
      ("        self.forward();\n        self.inner_value().to_float()", "        self.forward();\n        let v = self.inner_value();\n        let v = v.to_float();\n        v"))
    C = "/repo/prima_undine_contrib/src/functions/contrib/node.rs"
    e(C, ("self.batch_sum() / self.shape().batch() as f32", "self.batch_sum() * (1. / self.shape().batch() as f32)"),
      ("            (1. / p) * self * Self::from(self.device().random_bernoulli(self.shape(), p))", "            let mask = self.device().random_bernoulli(self.shape(), p) / p;\n            self * Self::from(mask)"),
      ("            let x = (self - m) / v.sqrt();", "            let x = shift / v.sqrt();"),
      ("        let x = (self - m) / v.sqrt();\n        g * x + b\n    }", "        let x = shift / v.sqrt();\n        b + x * g\n    }"))
    e("model.rs", ("        let mut params = vec![];\n        for model in self {\n            params.append(&mut model.parameters());\n        }\n        params", "        self.iter().flat_map(|model| model.parameters()).collect()"),
      ("            for param in model.parameters_mut() {\n                param.move_to_device(device);\n            }", "            model.parameters_mut().into_iter().rev().for_each(|param| param.move_to_device(device));"))
    e("initializers/xavier_uniform.rs")
    e("functions/arithmetic/node.rs")

{"ops": ops, "basic": basic, "core": core, "kernels": kernels, "upper": upper}[sys.argv[1]]()

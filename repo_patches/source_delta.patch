From 938c2dd876107d80cfca4edf8a557c9e77b9d56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:33 +0000
Subject: [PATCH 01/31] fix: implement the backward pass of negation on the
 naive device

Neg::backward dispatches to neg_bw_impl, which no device registered, so any
backward pass through a negated node panicked.
---
 prima_undine/src/devices/naive.rs     | 1 +
 prima_undine/src/devices/naive/neg.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/prima_undine/src/devices/naive.rs b/prima_undine/src/devices/naive.rs
index d6514c1..a14b32f 100644
--- a/prima_undine/src/devices/naive.rs
+++ b/prima_undine/src/devices/naive.rs
@@ -138,6 +138,7 @@ impl<'dev> Naive {
         // arithmetic
 
         dev.register_fw_impl("neg_fw_impl", neg::NegFwImpl::new());
+        dev.register_bw_impl("neg_bw_impl", neg::NegBwImpl::new());
 
         dev.register_fw_impl("add_fw_impl", add::AddFwImpl::new());
         dev.register_bw_impl("add_bw_a_impl", add::AddBwAImpl::new());
diff --git a/prima_undine/src/devices/naive/neg.rs b/prima_undine/src/devices/naive/neg.rs
index 85fb32d..d65991b 100644
--- a/prima_undine/src/devices/naive/neg.rs
+++ b/prima_undine/src/devices/naive/neg.rs
@@ -1,4 +1,5 @@
 define_naive_fw_x_impl!(NegFwImpl, |x: f32| -x);
+define_naive_bw_x_impl!(NegBwImpl, |_x: f32, _y: f32, gy: f32| -gy);
 
 #[cfg(test)]
 mod tests {
-- 
2.43.0


From 5d7f651f66af28d1566d377fc64e82f11c6d1231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:33 +0000
Subject: [PATCH 02/31] fix: make the ELU operator use the ELU kernels

The graph operator dispatched to the PReLU kernels.
---
 prima_undine/src/operators/elu.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prima_undine/src/operators/elu.rs b/prima_undine/src/operators/elu.rs
index 1d95284..13a8626 100644
--- a/prima_undine/src/operators/elu.rs
+++ b/prima_undine/src/operators/elu.rs
@@ -1,3 +1,3 @@
 use crate::functions::BasicDeviceFunctions;
 
-define_operator_x!(ELU, prelu_fw, prelu_bw, a, f32);
+define_operator_x!(ELU, elu_fw, elu_bw, a, f32);
-- 
2.43.0


From 6125e382028d70354beffb47f0cc374906c480d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:33 +0000
Subject: [PATCH 03/31] fix: dispatch batch_slice_bw to its own kernel

It called slice_bw_impl with too few arguments.
---
 prima_undine/src/functions/basic/device.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prima_undine/src/functions/basic/device.rs b/prima_undine/src/functions/basic/device.rs
index fee6449..c6bf26f 100644
--- a/prima_undine/src/functions/basic/device.rs
+++ b/prima_undine/src/functions/basic/device.rs
@@ -460,7 +460,7 @@ impl<'dev> BasicDeviceFunctions for Device<'dev> {
         assert!(gx.device() == self);
         let sy = gy.shape;
         assert!(shape_ops::batch_slice(gx.shape, lower, lower + sy.batch()) == sy);
-        self.call_bw_impl("slice_bw_impl", &[], &[], &[gy], &[lower], &[], gx);
+        self.call_bw_impl("batch_slice_bw_impl", &[], &[], &[gy], &[lower], &[], gx);
     }
 
     fn batch_pick_bw(&self, gy: &Tensor, ids: &[u32], gx: &mut Tensor) {
-- 
2.43.0


From a158e73fecdf2595be5cbea651515dc6fd9eea5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:33 +0000
Subject: [PATCH 04/31] fix: dispatch batch_pick_bw to its own kernel

It called pick_bw_impl, which reads the first id as a dimension.
---
 prima_undine/src/functions/basic/device.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prima_undine/src/functions/basic/device.rs b/prima_undine/src/functions/basic/device.rs
index c6bf26f..56dadcd 100644
--- a/prima_undine/src/functions/basic/device.rs
+++ b/prima_undine/src/functions/basic/device.rs
@@ -467,7 +467,7 @@ impl<'dev> BasicDeviceFunctions for Device<'dev> {
         assert!(gy.device() == self);
         assert!(gx.device() == self);
         assert!(shape_ops::batch_pick(gx.shape, ids) == gy.shape);
-        self.call_bw_impl("pick_bw_impl", &[], &[], &[gy], ids, &[], gx);
+        self.call_bw_impl("batch_pick_bw_impl", &[], &[], &[gy], ids, &[], gx);
     }
 }
 
-- 
2.43.0


From b5c53b3fe4398a9a532e5f9e3754ec33794dd0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:33 +0000
Subject: [PATCH 05/31] fix: propagate every part's gradient through
 batch_split

The backward pass added the gradient of the first part to every part.
---
 prima_undine/src/operators/batch_split.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prima_undine/src/operators/batch_split.rs b/prima_undine/src/operators/batch_split.rs
index 257355e..5680a97 100644
--- a/prima_undine/src/operators/batch_split.rs
+++ b/prima_undine/src/operators/batch_split.rs
@@ -33,7 +33,7 @@ impl<'arg, 'dev> Operator<'arg, 'dev> for BatchSplit<'dev> {
         let skip = total / self.n;
         for i in 0..self.n {
             self.device()
-                .batch_slice_bw(gy[0], i * skip, &mut *gx[0].borrow_mut());
+                .batch_slice_bw(gy[i as usize], i * skip, &mut *gx[0].borrow_mut());
         }
     }
 }
-- 
2.43.0


From c24731507fcad6850cc5b550491f954f82ccac86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:33 +0000
Subject: [PATCH 06/31] fix: allow backward of sum and logsumexp along a
 trailing unit dimension

Indexing dims() panics for a dimension beyond the depth of the shape, where
the forward pass is accepted and the size is 1.
---
 prima_undine/src/operators/logsumexp.rs | 2 +-
 prima_undine/src/operators/sum.rs       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/prima_undine/src/operators/logsumexp.rs b/prima_undine/src/operators/logsumexp.rs
index 5a14d84..2b0e5f5 100644
--- a/prima_undine/src/operators/logsumexp.rs
+++ b/prima_undine/src/operators/logsumexp.rs
@@ -22,7 +22,7 @@ impl<'arg, 'dev> Operator<'arg, 'dev> for Logsumexp<'dev> {
     }
 
     fn backward(&self, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]) {
-        let size = x[0].shape().dims()[self.dim as usize];
+        let size = x[0].shape()[self.dim];
         *gx[0].borrow_mut() +=
             (x[0] - y[0].broadcast(self.dim, size)).exp() * gy[0].broadcast(self.dim, size);
     }
diff --git a/prima_undine/src/operators/sum.rs b/prima_undine/src/operators/sum.rs
index b61f1e5..58a00c3 100644
--- a/prima_undine/src/operators/sum.rs
+++ b/prima_undine/src/operators/sum.rs
@@ -22,7 +22,7 @@ impl<'arg, 'dev> Operator<'arg, 'dev> for Sum<'dev> {
     }
 
     fn backward(&self, x: &[&Tensor], _y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]) {
-        let size = x[0].shape().dims()[self.dim as usize];
+        let size = x[0].shape()[self.dim];
         *gx[0].borrow_mut() += gy[0].broadcast(self.dim, size);
     }
 }
-- 
2.43.0


From d8e30b7c0f672ff1059f72095d2d30e6cc80f9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:07 +0000
Subject: [PATCH 07/31] fix: accept a scalar operand of any batch size in graph
 arithmetic

The scalar operators computed their result shape with the element-wise rule,
so combining a non-scalar node with a scalar node panicked although the
eager counterparts accept it.
---
 prima_undine/src/operators/add.rs    | 1 +
 prima_undine/src/operators/common.rs | 5 ++++-
 prima_undine/src/operators/div.rs    | 2 ++
 prima_undine/src/operators/mul.rs    | 1 +
 prima_undine/src/operators/powf.rs   | 2 ++
 prima_undine/src/operators/sub.rs    | 2 ++
 6 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/prima_undine/src/operators/add.rs b/prima_undine/src/operators/add.rs
index caa30d6..0237c2a 100644
--- a/prima_undine/src/operators/add.rs
+++ b/prima_undine/src/operators/add.rs
@@ -17,6 +17,7 @@ define_operator_x!(AddConst, add_const_fw, add_const_bw, k, f32);
 define_operator_ab!(
     AddScalar,
     add_scalar_fw,
+    scalar_op,
     |_device: &Device, _x: &[&Tensor], _y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         *gx[0].borrow_mut() += gy[0];
         *gx[1].borrow_mut() += gy[0].flatten().sum(0);
diff --git a/prima_undine/src/operators/common.rs b/prima_undine/src/operators/common.rs
index 4c6ad14..822056c 100644
--- a/prima_undine/src/operators/common.rs
+++ b/prima_undine/src/operators/common.rs
@@ -25,6 +25,9 @@ macro_rules! define_operator_struct {
 
 macro_rules! define_operator_ab {
     ($name:ident, $fw:ident, $bwfunc:expr) => {
+        define_operator_ab!($name, $fw, elementwise, $bwfunc);
+    };
+    ($name:ident, $fw:ident, $sop:ident, $bwfunc:expr) => {
         define_operator_struct!($name);
         impl<'arg, 'dev> crate::Operator<'arg, 'dev> for $name<'dev> {
             fn name(&self) -> String {
@@ -34,7 +37,7 @@ macro_rules! define_operator_ab {
                 self.device
             }
             fn forward_shape(&self, x: &[crate::Shape]) -> Vec<crate::Shape> {
-                vec![crate::shape_ops::elementwise(x[0], x[1])]
+                vec![crate::shape_ops::$sop(x[0], x[1])]
             }
             fn forward(&self, x: &[&crate::Tensor], y: &mut [&mut crate::Tensor<'arg>]) {
                 y[0].replace(self.device.$fw(x[0], x[1]));
diff --git a/prima_undine/src/operators/div.rs b/prima_undine/src/operators/div.rs
index 6e6dc29..34d2493 100644
--- a/prima_undine/src/operators/div.rs
+++ b/prima_undine/src/operators/div.rs
@@ -18,6 +18,7 @@ define_operator_x!(DivConstR, div_const_r_fw, div_const_r_bw, k, f32);
 define_operator_ab!(
     DivScalarL,
     div_scalar_l_fw,
+    scalar_op,
     |_device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         let ref a = gy[0] / x[0];
         *gx[0].borrow_mut() -= &(a * y[0]);
@@ -28,6 +29,7 @@ define_operator_ab!(
 define_operator_ab!(
     DivScalarR,
     div_scalar_r_fw,
+    scalar_op,
     |_device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         let ref a = gy[0] / x[1];
         *gx[0].borrow_mut() += a;
diff --git a/prima_undine/src/operators/mul.rs b/prima_undine/src/operators/mul.rs
index 402c629..eaac986 100644
--- a/prima_undine/src/operators/mul.rs
+++ b/prima_undine/src/operators/mul.rs
@@ -17,6 +17,7 @@ define_operator_x!(MulConst, mul_const_fw, mul_const_bw, k, f32);
 define_operator_ab!(
     MulScalar,
     mul_scalar_fw,
+    scalar_op,
     |_device: &Device, x: &[&Tensor], _y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         *gx[0].borrow_mut() += x[1] * gy[0];
         *gx[1].borrow_mut() += (x[0] * gy[0]).flatten().sum(0);
diff --git a/prima_undine/src/operators/powf.rs b/prima_undine/src/operators/powf.rs
index e826677..0a0d12d 100644
--- a/prima_undine/src/operators/powf.rs
+++ b/prima_undine/src/operators/powf.rs
@@ -18,6 +18,7 @@ define_operator_x!(PowConstR, powf_const_r_fw, powf_const_r_bw, k, f32);
 define_operator_ab!(
     PowScalarL,
     powf_scalar_l_fw,
+    scalar_op,
     |_device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         let a = gy[0] * y[0];
         *gx[0].borrow_mut() += &a * x[1].ln();
@@ -28,6 +29,7 @@ define_operator_ab!(
 define_operator_ab!(
     PowScalarR,
     powf_scalar_r_fw,
+    scalar_op,
     |_device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         let a = gy[0] * y[0];
         *gx[0].borrow_mut() += &a * x[1] / x[0];
diff --git a/prima_undine/src/operators/sub.rs b/prima_undine/src/operators/sub.rs
index ea48903..9299c86 100644
--- a/prima_undine/src/operators/sub.rs
+++ b/prima_undine/src/operators/sub.rs
@@ -18,6 +18,7 @@ define_operator_x!(SubConstR, sub_const_r_fw, sub_const_r_bw, k, f32);
 define_operator_ab!(
     SubScalarL,
     sub_scalar_l_fw,
+    scalar_op,
     |_device: &Device, _x: &[&Tensor], _y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         *gx[0].borrow_mut() -= gy[0];
         *gx[1].borrow_mut() += gy[0].flatten().sum(0);
@@ -27,6 +28,7 @@ define_operator_ab!(
 define_operator_ab!(
     SubScalarR,
     sub_scalar_r_fw,
+    scalar_op,
     |_device: &Device, _x: &[&Tensor], _y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         *gx[0].borrow_mut() += gy[0];
         *gx[1].borrow_mut() -= gy[0].flatten().sum(0);
-- 
2.43.0


From 378d9f2f84e05a20e10b005b426c2a04806e3e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:08 +0000
Subject: [PATCH 08/31] fix: dispatch Tensor::pow to the scalar kernels like
 Node::pow

A scalar base or exponent panicked for eager tensors only.
---
 prima_undine/src/functions/basic/tensor.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/prima_undine/src/functions/basic/tensor.rs b/prima_undine/src/functions/basic/tensor.rs
index dc0dc7e..a46a5ae 100644
--- a/prima_undine/src/functions/basic/tensor.rs
+++ b/prima_undine/src/functions/basic/tensor.rs
@@ -35,7 +35,14 @@ impl<'arg, 'dev> BasicFunctions for Tensor<'dev> {
     // basic
 
     fn pow<T: Borrow<Self>>(&self, k: T) -> Self {
-        self.device().powf_fw(self, k.borrow())
+        let k = k.borrow();
+        if self.shape.is_scalar() {
+            self.device().powf_scalar_l_fw(k, self)
+        } else if k.shape.is_scalar() {
+            self.device().powf_scalar_r_fw(self, k)
+        } else {
+            self.device().powf_fw(self, k)
+        }
     }
 
     fn powf(&self, k: f32) -> Self {
-- 
2.43.0


From 62f47c02a7605775faa91e3417c8b572088d9d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:20 +0000
Subject: [PATCH 09/31] fix: make every backward call start from fresh
 gradients

Gradients of intermediate nodes were kept between calls, so a second backward
on the same node panicked and a backward from another root propagated stale
gradients again. Unused outputs of multi-output operators had no gradient at
all and panicked, and starting from one such output seeded all of them.
---
 prima_undine/src/graph.rs | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/prima_undine/src/graph.rs b/prima_undine/src/graph.rs
index 1f26f8f..557ce74 100644
--- a/prima_undine/src/graph.rs
+++ b/prima_undine/src/graph.rs
@@ -128,19 +128,19 @@ fn forward<'arg, 'dev>(op_info: Rc<OperatorInfo<'arg, 'dev>>) {
     }
 }
 
-fn backward<'arg, 'dev>(op_info: Rc<OperatorInfo<'arg, 'dev>>) {
+fn backward<'arg, 'dev>(op_info: Rc<OperatorInfo<'arg, 'dev>>, vid: usize) {
     let mut reached = HashSet::new();
     let mut queue = VecDeque::new();
     let mut backward_req = BinaryHeap::new();
-    {
+    queue.push_back(Rc::clone(&op_info));
+    while let Some(op_info) = queue.pop_front() {
         for ret in &op_info.rets {
             let mut grad = ret.gradient.borrow_mut();
-            grad.alloc();
-            grad.reset(1.);
+            if !grad.valid() {
+                grad.alloc();
+            }
+            grad.reset(0.);
         }
-    }
-    queue.push_back(op_info);
-    while let Some(op_info) = queue.pop_front() {
         for arg in &op_info.args {
             let ptr = &*arg.op as *const OperatorInfo<'arg, 'dev>;
             if !reached.contains(&ptr) {
@@ -150,6 +150,7 @@ fn backward<'arg, 'dev>(op_info: Rc<OperatorInfo<'arg, 'dev>>) {
         }
         backward_req.push(OperatorInfoCmp(op_info));
     }
+    op_info.rets[vid].gradient.borrow_mut().reset(1.);
     while let Some(OperatorInfoCmp(op_info)) = backward_req.pop() {
         let xs = op_info
             .args
@@ -169,14 +170,7 @@ fn backward<'arg, 'dev>(op_info: Rc<OperatorInfo<'arg, 'dev>>) {
         let gxs = op_info
             .args
             .iter()
-            .map(|data| {
-                let mut gx = data.op.rets[data.vid].gradient.borrow_mut();
-                if !gx.valid() {
-                    gx.alloc();
-                    gx.reset(0.);
-                }
-                &data.op.rets[data.vid].gradient
-            })
+            .map(|data| &data.op.rets[data.vid].gradient)
             .collect::<Vec<&RefCell<Tensor<'arg>>>>();
         let xs_ref = xs.iter().map(|x| &**x).collect::<Vec<&Tensor<'arg>>>();
         let ys_ref = ys.iter().map(|y| &**y).collect::<Vec<&Tensor<'arg>>>();
@@ -218,7 +212,7 @@ impl<'arg, 'dev> Node<'arg, 'dev> {
 
     pub fn backward(&self) {
         self.forward();
-        backward(Rc::clone(&self.data.op));
+        backward(Rc::clone(&self.data.op), self.data.vid);
     }
 }
 
-- 
2.43.0


From 8b4e010afacf1fc55de2515ee3c9351bbf21a4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:21 +0000
Subject: [PATCH 10/31] fix: check shapes in add_assign and sub_assign

Operands of different shapes read and wrote outside the tensors' storage.
---
 prima_undine/src/functions/arithmetic/device.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prima_undine/src/functions/arithmetic/device.rs b/prima_undine/src/functions/arithmetic/device.rs
index 104f83a..5d223c1 100644
--- a/prima_undine/src/functions/arithmetic/device.rs
+++ b/prima_undine/src/functions/arithmetic/device.rs
@@ -47,12 +47,14 @@ impl<'dev> ArithmeticDeviceFunctions for Device<'dev> {
     fn add_assign(&self, x: &Tensor, y: &mut Tensor) {
         assert!(x.device() == self);
         assert!(y.device() == self);
+        assert!(x.shape.has_same_dims(y.shape) && x.shape.has_compatible_batch(y.shape));
         self.call_fw_impl("add_assign_impl", &[x], &[], &[], &mut [y]);
     }
 
     fn sub_assign(&self, x: &Tensor, y: &mut Tensor) {
         assert!(x.device() == self);
         assert!(y.device() == self);
+        assert!(x.shape.has_same_dims(y.shape) && x.shape.has_compatible_batch(y.shape));
         self.call_fw_impl("sub_assign_impl", &[x], &[], &[], &mut [y]);
     }
 
-- 
2.43.0


From 83fcf5ee6b7daee12c9a54e02d3d165438e787b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:22 +0000
Subject: [PATCH 11/31] fix: refuse to take over the storage of a reference in
 Tensor::replace

The storage stayed owned by the referred tensor and was released twice.
---
 prima_undine/src/tensor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/prima_undine/src/tensor.rs b/prima_undine/src/tensor.rs
index 70d3d1a..5f5e789 100644
--- a/prima_undine/src/tensor.rs
+++ b/prima_undine/src/tensor.rs
@@ -72,6 +72,7 @@ impl<'dev> Tensor<'dev> {
         assert!(!self.valid());
         assert_eq!(self.shape, other.shape);
         assert!(self.host_values.is_none());
+        assert!(other.reference.is_none());
         self.handle
             .store(other.handle.load(Ordering::Acquire), Ordering::Release);
         other.handle.store(ptr::null_mut(), Ordering::Release);
-- 
2.43.0


From 6a088b38650e9f3178860411a2f873d32be29f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:45 +0000
Subject: [PATCH 12/31] fix: reject tensors of another device when resetting or
 reading values

Every other device function checks that its operands belong to the device;
these ran their kernel on foreign storage.
---
 prima_undine/src/device.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/prima_undine/src/device.rs b/prima_undine/src/device.rs
index c023879..7e195ec 100644
--- a/prima_undine/src/device.rs
+++ b/prima_undine/src/device.rs
@@ -160,15 +160,18 @@ impl<'dev> Device<'dev> {
     }
 
     pub fn reset_tensor(&self, x: &mut Tensor, k: f32) {
+        assert!(x.device() == self);
         self.call_fw_impl("reset_tensor_impl", &[], &[], &[k], &mut [x]);
     }
 
     pub fn reset_tensor_by_slice(&self, x: &mut Tensor, values: &[f32]) {
+        assert!(x.device() == self);
         assert!(x.shape.size() as usize == values.len());
         self.call_fw_impl("reset_tensor_by_slice_impl", &[], &[], values, &mut [x]);
     }
 
     pub fn reset_tensor_by_tensor(&self, x: &mut Tensor, source: &Tensor) {
+        assert!(x.device() == self);
         assert!(x.valid());
         assert!(source.valid());
         assert!(x.shape.size() == source.shape.size());
@@ -176,12 +179,14 @@ impl<'dev> Device<'dev> {
     }
 
     pub fn tensor_to_vector(&self, x: &Tensor) -> Vec<f32> {
+        assert!(x.device() == self);
         let mut ret = vec![0.; x.shape.size() as usize];
         self.call_fw_f32_impl("tensor_to_vector_impl", &[x], &[], &[], ret.as_mut_slice());
         ret
     }
 
     pub fn tensor_to_float(&self, x: &Tensor) -> f32 {
+        assert!(x.device() == self);
         assert!(x.shape.size() == 1);
         let mut ret = [0.];
         self.call_fw_f32_impl("tensor_to_vector_impl", &[x], &[], &[], &mut ret);
-- 
2.43.0


From a9bc9e010a57d6bf2c77a67a1d36c6523202a9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:46 +0000
Subject: [PATCH 13/31] fix: do not hold the pool lock while the backend
 allocates

The guard lived until the end of the if-let, so a panicking backend poisoned
the pool and every later drop panicked.
---
 prima_undine/src/memory_pool.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prima_undine/src/memory_pool.rs b/prima_undine/src/memory_pool.rs
index ca7ba27..6c0a350 100644
--- a/prima_undine/src/memory_pool.rs
+++ b/prima_undine/src/memory_pool.rs
@@ -54,7 +54,8 @@ impl<'dev> MemoryPool<'dev> {
         let shift = calculate_shifts(size) as usize;
         assert!(shift <= MAX_BITS - 1);
         let mem_size = 1 << shift;
-        let handle = if let Some(handle) = self.pool.lock().unwrap()[shift].pop() {
+        let pooled = self.pool.lock().unwrap()[shift].pop();
+        let handle = if let Some(handle) = pooled {
             handle
         } else {
             self.imp.new_handle(mem_size)
-- 
2.43.0


From 9d725c84ec3fc0ac9b0bec49fb8c61bc99d2f729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:47 +0000
Subject: [PATCH 14/31] fix: mark a node as evaluated only after its operator
 succeeded

A node whose kernel panicked was treated as evaluated afterwards and exposed
uninitialised storage.
---
 prima_undine/src/graph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prima_undine/src/graph.rs b/prima_undine/src/graph.rs
index 557ce74..e5622c2 100644
--- a/prima_undine/src/graph.rs
+++ b/prima_undine/src/graph.rs
@@ -108,7 +108,6 @@ fn forward<'arg, 'dev>(op_info: Rc<OperatorInfo<'arg, 'dev>>) {
         if op_info.forwarded.get() {
             continue;
         }
-        op_info.forwarded.set(true);
         let xs = op_info
             .args
             .iter()
@@ -125,6 +124,7 @@ fn forward<'arg, 'dev>(op_info: Rc<OperatorInfo<'arg, 'dev>>) {
             .map(|y| &mut **y)
             .collect::<Vec<&mut Tensor<'arg>>>();
         op_info.operator.forward(&xs_ref, &mut ys_ref);
+        op_info.forwarded.set(true);
     }
 }
 
-- 
2.43.0


From 4bd80e4d89f3dd3fbd4e71cabd20ff199e0035fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:16 +0000
Subject: [PATCH 15/31] fix: keep the randomizer usable after a rejected
 distribution

Invalid arguments panic while the randomizer is locked; the poisoned lock made
every later random operation on the device panic.
---
 prima_undine/src/devices/naive/random.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/prima_undine/src/devices/naive/random.rs b/prima_undine/src/devices/naive/random.rs
index c7e2fe4..809ebf8 100644
--- a/prima_undine/src/devices/naive/random.rs
+++ b/prima_undine/src/devices/naive/random.rs
@@ -26,7 +26,7 @@ impl FunctionFwImpl for RandomBernoulliImpl {
             let mut yslice = slice::from_raw_parts_mut(py, y.shape.size() as usize);
             self.randomizer
                 .lock()
-                .unwrap()
+                .unwrap_or_else(|e| e.into_inner())
                 .fill_bernoulli(p, &mut yslice)
         }
     }
@@ -54,7 +54,7 @@ impl FunctionFwImpl for RandomNormalImpl {
             let mut yslice = slice::from_raw_parts_mut(py, y.shape.size() as usize);
             self.randomizer
                 .lock()
-                .unwrap()
+                .unwrap_or_else(|e| e.into_inner())
                 .fill_normal(mean, sd, &mut yslice)
         }
     }
@@ -82,7 +82,7 @@ impl FunctionFwImpl for RandomUniformImpl {
             let mut yslice = slice::from_raw_parts_mut(py, y.shape.size() as usize);
             self.randomizer
                 .lock()
-                .unwrap()
+                .unwrap_or_else(|e| e.into_inner())
                 .fill_uniform(lower, upper, &mut yslice)
         }
     }
-- 
2.43.0


From 46b63034a7e66b8ae05ffdff26019f62e94ba346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:17 +0000
Subject: [PATCH 16/31] fix: reject shapes whose size does not fit in 32 bits
 in release builds

The products wrapped around silently without overflow checks, so the storage
was smaller than the tensor.
---
 prima_undine/src/shape.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/prima_undine/src/shape.rs b/prima_undine/src/shape.rs
index 73ba745..614f115 100644
--- a/prima_undine/src/shape.rs
+++ b/prima_undine/src/shape.rs
@@ -20,7 +20,7 @@ impl Shape {
         assert!(dims.len() <= MAX_DEPTH as usize);
         assert!(batch >= 1);
         let mut dims_filled = [1; MAX_DEPTH as usize];
-        let mut volume = 1;
+        let mut volume = 1u32;
         let mut depth = 0;
         for i in 0..dims.len() {
             assert!(dims[i] != 0);
@@ -28,7 +28,7 @@ impl Shape {
             if dims[i] != 1 {
                 depth = i as u32 + 1;
             }
-            volume *= dims[i];
+            volume = volume.checked_mul(dims[i]).unwrap();
         }
         Shape {
             dims: dims_filled,
@@ -63,7 +63,7 @@ impl Shape {
     }
 
     pub fn size(&self) -> u32 {
-        self.batch * self.volume()
+        self.batch.checked_mul(self.volume()).unwrap()
     }
 
     pub fn has_batch(&self) -> bool {
@@ -136,7 +136,8 @@ impl Shape {
             }
             self.depth = new_depth;
         }
-        self.volume = self.volume / self.dims[dim as usize] * m;
+        let others = self.volume / self.dims[dim as usize];
+        self.volume = others.checked_mul(m).unwrap();
         self.dims[dim as usize] = m;
         while self.depth > 0 && self.dims[self.depth as usize - 1] == 1 {
             self.depth -= 1;
-- 
2.43.0


From 28d73472e8d95d25aa36a25914ad6d1fbfebdf84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:18 +0000
Subject: [PATCH 17/31] fix: check the number of host values before moving a
 tensor to a device

The mismatch was detected after the tensor had taken uninitialised storage.
---
 prima_undine/src/tensor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/prima_undine/src/tensor.rs b/prima_undine/src/tensor.rs
index 5f5e789..d3566db 100644
--- a/prima_undine/src/tensor.rs
+++ b/prima_undine/src/tensor.rs
@@ -41,6 +41,7 @@ impl<'dev> Tensor<'dev> {
 
     pub fn move_to_device(&mut self, device: &'dev Device<'dev>) {
         assert!(self.host_values.is_some());
+        assert!(self.host_values.as_ref().unwrap().len() == self.shape.size() as usize);
         self.device = Some(device);
         self.handle = self.device.unwrap().new_handle(self.shape.size());
         let values = self.host_values.take().unwrap();
-- 
2.43.0


From cc5412d379bc1b6ee2219775b6695d52d6c5ee8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:30 +0000
Subject: [PATCH 18/31] fix: triangular masks overflowed for offsets close to
 the 32-bit limit

---
 prima_undine/src/devices/naive/triangular_l.rs | 2 +-
 prima_undine/src/devices/naive/triangular_u.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/prima_undine/src/devices/naive/triangular_l.rs b/prima_undine/src/devices/naive/triangular_l.rs
index ad7d0e5..c3cd93d 100644
--- a/prima_undine/src/devices/naive/triangular_l.rs
+++ b/prima_undine/src/devices/naive/triangular_l.rs
@@ -17,7 +17,7 @@ impl FunctionFwImpl for TriangularLFwImpl {
             for _ in 0..bs {
                 for j in 0..size {
                     for i in 0..size {
-                        *py.add(p) = if i >= j + k { *px.add(p) } else { 0. };
+                        *py.add(p) = if i >= j.saturating_add(k) { *px.add(p) } else { 0. };
                         p += 1;
                     }
                 }
diff --git a/prima_undine/src/devices/naive/triangular_u.rs b/prima_undine/src/devices/naive/triangular_u.rs
index ba5ad0f..77e1aba 100644
--- a/prima_undine/src/devices/naive/triangular_u.rs
+++ b/prima_undine/src/devices/naive/triangular_u.rs
@@ -17,7 +17,7 @@ impl FunctionFwImpl for TriangularUFwImpl {
             for _ in 0..bs {
                 for j in 0..size {
                     for i in 0..size {
-                        *py.add(p) = if j >= i + k { *px.add(p) } else { 0. };
+                        *py.add(p) = if j >= i.saturating_add(k) { *px.add(p) } else { 0. };
                         p += 1;
                     }
                 }
-- 
2.43.0


From 0e94373ab898449acd3cfa005519bd2208110c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:00 +0000
Subject: [PATCH 19/31] fix: a rejected Shape::update_dim left an inconsistent
 shape behind

---
 prima_undine/src/shape.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/prima_undine/src/shape.rs b/prima_undine/src/shape.rs
index 614f115..fbad12f 100644
--- a/prima_undine/src/shape.rs
+++ b/prima_undine/src/shape.rs
@@ -129,6 +129,8 @@ impl Shape {
     pub fn update_dim(&mut self, dim: u32, m: u32) {
         assert!(dim < MAX_DEPTH);
         assert!(m != 0);
+        let others = self.volume / self.dims[dim as usize];
+        let volume = others.checked_mul(m).unwrap();
         if dim >= self.depth {
             let new_depth = dim + 1;
             for i in self.depth..new_depth {
@@ -136,8 +138,7 @@ impl Shape {
             }
             self.depth = new_depth;
         }
-        let others = self.volume / self.dims[dim as usize];
-        self.volume = others.checked_mul(m).unwrap();
+        self.volume = volume;
         self.dims[dim as usize] = m;
         while self.depth > 0 && self.dims[self.depth as usize - 1] == 1 {
             self.depth -= 1;
-- 
2.43.0


From 807adb07c8ab02e3b0f3e95477b4b7d8be297cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:05 +0000
Subject: [PATCH 20/31] fix: softmax was not normalised for inputs of large
 magnitude

---
 prima_undine/src/functions/basic/node.rs   | 5 ++++-
 prima_undine/src/functions/basic/tensor.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/prima_undine/src/functions/basic/node.rs b/prima_undine/src/functions/basic/node.rs
index 1b9db81..a07465e 100644
--- a/prima_undine/src/functions/basic/node.rs
+++ b/prima_undine/src/functions/basic/node.rs
@@ -165,7 +165,10 @@ impl<'arg, 'dev> BasicFunctions for Node<'arg, 'dev> {
     }
 
     fn ln_softmax(&self, dim: u32) -> Self {
-        self - self.logsumexp(dim).broadcast(dim, self.shape()[dim])
+        // Subtracting the maximum keeps the result normalised for inputs of any magnitude.
+        let n = self.shape()[dim];
+        let shifted = self - self.max(dim).broadcast(dim, n);
+        &shifted - shifted.logsumexp(dim).broadcast(dim, n)
     }
 
     fn softmax(&self, dim: u32) -> Self {
diff --git a/prima_undine/src/functions/basic/tensor.rs b/prima_undine/src/functions/basic/tensor.rs
index a46a5ae..c1f9b97 100644
--- a/prima_undine/src/functions/basic/tensor.rs
+++ b/prima_undine/src/functions/basic/tensor.rs
@@ -120,7 +120,10 @@ impl<'arg, 'dev> BasicFunctions for Tensor<'dev> {
     }
 
     fn ln_softmax(&self, dim: u32) -> Self {
-        self - self.logsumexp(dim).broadcast(dim, self.shape()[dim])
+        // Subtracting the maximum keeps the result normalised for inputs of any magnitude.
+        let n = self.shape()[dim];
+        let shifted = self - self.max(dim).broadcast(dim, n);
+        &shifted - shifted.logsumexp(dim).broadcast(dim, n)
     }
 
     fn softmax(&self, dim: u32) -> Self {
-- 
2.43.0


From 8ba8a167ccca89a85fa7694b09db49ee0e68125e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:30 +0000
Subject: [PATCH 21/31] fix: gradient of powi for exponent 0 at 0 and for the
 smallest exponent

x^0 has derivative 0 everywhere, but the kernel computed 0 * x^-1, which is
NaN at x = 0; and n - 1 overflowed for the smallest exponent.
---
 prima_undine/src/devices/naive/powi.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/prima_undine/src/devices/naive/powi.rs b/prima_undine/src/devices/naive/powi.rs
index 20f801c..3bfb437 100644
--- a/prima_undine/src/devices/naive/powi.rs
+++ b/prima_undine/src/devices/naive/powi.rs
@@ -33,12 +33,21 @@ impl FunctionBwImpl for PowiBwImpl {
         let gy = gys[0];
         let n = u32data[0] as i32;
         let size = gy.shape.size() as usize;
+        if n == 0 {
+            // x^0 is constant, also at x = 0 where x^(0 - 1) is infinite.
+            return;
+        }
         unsafe {
             let px = const_ptr!(x);
             let pgy = const_ptr!(gy);
             let pgx = mut_ptr!(gx);
             for i in 0..size {
-                *pgx.add(i) += *pgy.add(i) * n as f32 * (*px.add(i)).powi(n - 1);
+                let x = *px.add(i);
+                let d = match n.checked_sub(1) {
+                    Some(m) => x.powi(m),
+                    None => x.powi(n) / x,
+                };
+                *pgx.add(i) += *pgy.add(i) * n as f32 * d;
             }
         }
     }
-- 
2.43.0


From 05f07794da4abebdb7431f76377494140b9af74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:41 +0000
Subject: [PATCH 22/31] fix: gradient of powf for exponent 0 at 0

x^0 has derivative 0 everywhere, but the kernels computed 0 * x^-1, which is
NaN at x = 0.
---
 prima_undine/src/devices/naive/powf.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/prima_undine/src/devices/naive/powf.rs b/prima_undine/src/devices/naive/powf.rs
index e6a811e..d47ccdb 100644
--- a/prima_undine/src/devices/naive/powf.rs
+++ b/prima_undine/src/devices/naive/powf.rs
@@ -1,6 +1,15 @@
 use crate::device_impl::FunctionBwImpl;
 use crate::Tensor;
 
+// Derivative of x^k with respect to x; x^0 is constant, also at x = 0.
+fn powf_dx(x: f32, k: f32) -> f32 {
+    if k == 0. {
+        0.
+    } else {
+        k * x.powf(k - 1.)
+    }
+}
+
 define_naive_fw_ab_impl!(PowfFwImpl, |a: f32, b: f32| { a.powf(b) });
 
 define_empty_impl!(PowfBwAImpl);
@@ -28,7 +37,7 @@ impl FunctionBwImpl for PowfBwAImpl {
             let mut pga = mut_ptr!(ga);
             for _ in 0..gy.shape.batch() {
                 for i in 0..volume {
-                    *pga.add(i) += *pgy.add(i) * *pb.add(i) * (*pa.add(i)).powf(*pb.add(i) - 1.);
+                    *pga.add(i) += *pgy.add(i) * powf_dx(*pa.add(i), *pb.add(i));
                 }
                 pa = pa.add(a_shift);
                 pb = pb.add(b_shift);
@@ -81,7 +90,7 @@ define_naive_bw_const_impl!(PowfConstLBwImpl, |_x: f32, y: f32, gy: f32, k: f32|
 });
 define_naive_fw_const_impl!(PowfConstRFwImpl, |x: f32, k: f32| { x.powf(k) });
 define_naive_bw_const_impl!(PowfConstRBwImpl, |x: f32, _y: f32, gy: f32, k: f32| {
-    gy * k * x.powf(k - 1.)
+    gy * powf_dx(x, k)
 });
 define_naive_fw_scalar_impl!(PowfScalarLFwImpl, |x: f32, k: f32| { k.powf(x) });
 define_naive_fw_scalar_impl!(PowfScalarRFwImpl, |x: f32, k: f32| { x.powf(k) });
-- 
2.43.0


From a3cd1e16bb00abda11a59f52775a2d89b8107184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:18 +0000
Subject: [PATCH 23/31] fix: gradient of a power with a scalar operand at base
 0

The gradient with respect to the base divided by the base, giving NaN at 0
although the element-wise and constant forms give the derivative.
---
 prima_undine/src/operators/powf.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/prima_undine/src/operators/powf.rs b/prima_undine/src/operators/powf.rs
index 0a0d12d..95f6bc5 100644
--- a/prima_undine/src/operators/powf.rs
+++ b/prima_undine/src/operators/powf.rs
@@ -20,9 +20,8 @@ define_operator_ab!(
     powf_scalar_l_fw,
     scalar_op,
     |_device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
-        let a = gy[0] * y[0];
-        *gx[0].borrow_mut() += &a * x[1].ln();
-        *gx[1].borrow_mut() += (a * x[0] / x[1]).flatten().sum(0);
+        *gx[0].borrow_mut() += gy[0] * y[0] * x[1].ln();
+        *gx[1].borrow_mut() += (gy[0] * x[0] * x[1].pow(x[0] - 1.)).flatten().sum(0);
     }
 );
 
@@ -31,8 +30,7 @@ define_operator_ab!(
     powf_scalar_r_fw,
     scalar_op,
     |_device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
-        let a = gy[0] * y[0];
-        *gx[0].borrow_mut() += &a * x[1] / x[0];
-        *gx[1].borrow_mut() += (a * x[0].ln()).flatten().sum(0);
+        *gx[0].borrow_mut() += gy[0] * x[1] * x[0].pow(x[1] - 1.);
+        *gx[1].borrow_mut() += (gy[0] * y[0] * x[0].ln()).flatten().sum(0);
     }
 );
-- 
2.43.0


From 1f3a71910c20ff071f45c3c4460d9e3d7d7eaa24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:24 +0000
Subject: [PATCH 24/31] fix: refuse to alias a tensor without storage

Aliasing an unallocated tensor and allocating afterwards leaked the buffer: the
tensor was still marked as a reference, so its storage was never returned.
---
 prima_undine/src/tensor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/prima_undine/src/tensor.rs b/prima_undine/src/tensor.rs
index d3566db..934dddc 100644
--- a/prima_undine/src/tensor.rs
+++ b/prima_undine/src/tensor.rs
@@ -63,6 +63,7 @@ impl<'dev> Tensor<'dev> {
         assert!(!self.valid());
         assert_eq!(self.shape, other.shape);
         assert!(self.host_values.is_none());
+        assert!(other.valid());
         self.handle
             .store(other.handle.load(Ordering::Acquire), Ordering::Release);
         self.reference = Some(other);
-- 
2.43.0


From da91cda8fc28287a40e65e56f168ea2211d21518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:46 +0000
Subject: [PATCH 25/31] fix: discard partial results of an operator whose
 evaluation failed

An operator with several outputs that failed after its first output kept that
output, so that evaluating the node again always panicked.
---
 prima_undine/src/graph.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/prima_undine/src/graph.rs b/prima_undine/src/graph.rs
index e5622c2..4da574d 100644
--- a/prima_undine/src/graph.rs
+++ b/prima_undine/src/graph.rs
@@ -116,7 +116,15 @@ fn forward<'arg, 'dev>(op_info: Rc<OperatorInfo<'arg, 'dev>>) {
         let mut ys = op_info
             .rets
             .iter()
-            .map(|ret| ret.value.borrow_mut())
+            .map(|ret| {
+                let mut y = ret.value.borrow_mut();
+                if y.valid() {
+                    // left over from a failed evaluation
+                    let shape = y.shape;
+                    *y = op_info.operator.device().new_tensor(shape);
+                }
+                y
+            })
             .collect::<Vec<RefMut<Tensor<'arg>>>>();
         let xs_ref = xs.iter().map(|x| &**x).collect::<Vec<&Tensor<'arg>>>();
         let mut ys_ref = ys
-- 
2.43.0


From 06db3143e940672b3596bec62d3a44f5e285408e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:57 +0000
Subject: [PATCH 26/31] fix: derive Model for structs with default type
 parameters or constants before types

---
 prima_undine_derive/src/lib.rs | 23 +++--------------------
 1 file changed, 3 insertions(+), 20 deletions(-)

diff --git a/prima_undine_derive/src/lib.rs b/prima_undine_derive/src/lib.rs
index dbbefe1..91dc8c5 100644
--- a/prima_undine_derive/src/lib.rs
+++ b/prima_undine_derive/src/lib.rs
@@ -13,24 +13,7 @@ pub fn derive_model(input: TokenStream) -> TokenStream {
     let ast: DeriveInput = syn::parse(input).unwrap();
     let name = ast.ident;
     let generics = ast.generics;
-    let gparams = &generics.params;
-    let gwhere = generics.where_clause;
-    let mut gtypes = vec![];
-    let mut glifetimes = vec![];
-    let mut gconsts = vec![];
-    for param in generics.params.iter() {
-        match param {
-            syn::GenericParam::Type(x) => {
-                gtypes.push(&x.ident);
-            }
-            syn::GenericParam::Lifetime(x) => {
-                glifetimes.push(&x.lifetime);
-            }
-            syn::GenericParam::Const(x) => {
-                gconsts.push(&x.ident);
-            }
-        }
-    }
+    let (impl_generics, ty_generics, where_clause) = generics.split_for_impl();
     if let Data::Struct(data) = ast.data {
         if let Fields::Named(fields) = data.fields {
             let mut field_updater = vec![];
@@ -52,9 +35,9 @@ pub fn derive_model(input: TokenStream) -> TokenStream {
                 }
                 field_updater.push(field.ident.as_ref().unwrap());
             }
-            let first_lifetime = glifetimes[0];
+            let first_lifetime = &generics.lifetimes().next().unwrap().lifetime;
             let tokens = quote! {
-                impl<#gparams> prima_undine::Model<#first_lifetime> for #name<#(#glifetimes ,)* #(#gtypes ,)* #({#gconsts} ,)*> #gwhere {
+                impl #impl_generics prima_undine::Model<#first_lifetime> for #name #ty_generics #where_clause {
                     fn parameters(&self) -> Vec<&prima_undine::Parameter<#first_lifetime>> {
                         let mut params = vec![];
                         #( params.append(&mut self.#field_updater.parameters()); )*
-- 
2.43.0


From bb9176770851ea76957bcf54070ce0191267407f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:42 +0000
Subject: [PATCH 27/31] fix: keep a host tensor movable when moving it to a
 device fails

---
 prima_undine/src/tensor.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/prima_undine/src/tensor.rs b/prima_undine/src/tensor.rs
index 934dddc..d00f5b0 100644
--- a/prima_undine/src/tensor.rs
+++ b/prima_undine/src/tensor.rs
@@ -42,10 +42,7 @@ impl<'dev> Tensor<'dev> {
     pub fn move_to_device(&mut self, device: &'dev Device<'dev>) {
         assert!(self.host_values.is_some());
         assert!(self.host_values.as_ref().unwrap().len() == self.shape.size() as usize);
-        self.device = Some(device);
-        self.handle = self.device.unwrap().new_handle(self.shape.size());
-        let values = self.host_values.take().unwrap();
-        device.reset_tensor_by_slice(self, &values);
+        *self = device.new_tensor_by_slice(self.shape, self.host_values.as_ref().unwrap());
     }
 
     pub fn alloc(&mut self) {
-- 
2.43.0


From 5b3fe762576d506887d0734ee63fcffeef9904ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:16 +0000
Subject: [PATCH 28/31] fix: keep logsumexp of equal infinite elements from
 being NaN

---
 prima_undine/src/devices/naive/logsumexp.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/prima_undine/src/devices/naive/logsumexp.rs b/prima_undine/src/devices/naive/logsumexp.rs
index 8b9580c..9972c0b 100644
--- a/prima_undine/src/devices/naive/logsumexp.rs
+++ b/prima_undine/src/devices/naive/logsumexp.rs
@@ -20,7 +20,10 @@ impl FunctionFwImpl for LogsumexpFwImpl {
                 for _ in 1..n {
                     offset += skip1;
                     let arg = *src.add(offset) as f64;
-                    tmp = if tmp > arg {
+                    tmp = if tmp == arg {
+                        // also for infinite elements, whose difference is not a number
+                        tmp + 2f64.ln()
+                    } else if tmp > arg {
                         tmp + (1. + (arg - tmp).exp()).ln()
                     } else {
                         arg + (1. + (tmp - arg).exp()).ln()
-- 
2.43.0


From 8f077953486ca291da57db6baf068769516834bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:05 +0000
Subject: [PATCH 29/31] fix: keep gradients of powers finite at base zero

---
 prima_undine/src/devices/naive/powf.rs | 13 +++++++++--
 prima_undine/src/operators/powf.rs     | 30 +++++++++++++++++++-------
 2 files changed, 33 insertions(+), 10 deletions(-)

diff --git a/prima_undine/src/devices/naive/powf.rs b/prima_undine/src/devices/naive/powf.rs
index d47ccdb..3f69a4f 100644
--- a/prima_undine/src/devices/naive/powf.rs
+++ b/prima_undine/src/devices/naive/powf.rs
@@ -10,6 +10,15 @@ fn powf_dx(x: f32, k: f32) -> f32 {
     }
 }
 
+// Derivative of y = x^k with respect to k; 0^k is constant for positive k.
+fn powf_dk(x: f32, y: f32) -> f32 {
+    if y == 0. {
+        0.
+    } else {
+        x.ln() * y
+    }
+}
+
 define_naive_fw_ab_impl!(PowfFwImpl, |a: f32, b: f32| { a.powf(b) });
 
 define_empty_impl!(PowfBwAImpl);
@@ -73,7 +82,7 @@ impl FunctionBwImpl for PowfBwBImpl {
             let mut pgb = mut_ptr!(gb);
             for _ in 0..y.shape.batch() {
                 for i in 0..volume {
-                    *pgb.add(i) += *pgy.add(i) * (*pa.add(i)).ln() * *py.add(i);
+                    *pgb.add(i) += *pgy.add(i) * powf_dk(*pa.add(i), *py.add(i));
                 }
                 pa = pa.add(a_shift);
                 py = py.add(volume);
@@ -86,7 +95,7 @@ impl FunctionBwImpl for PowfBwBImpl {
 
 define_naive_fw_const_impl!(PowfConstLFwImpl, |x: f32, k: f32| { k.powf(x) });
 define_naive_bw_const_impl!(PowfConstLBwImpl, |_x: f32, y: f32, gy: f32, k: f32| {
-    gy * k.ln() * y
+    gy * powf_dk(k, y)
 });
 define_naive_fw_const_impl!(PowfConstRFwImpl, |x: f32, k: f32| { x.powf(k) });
 define_naive_bw_const_impl!(PowfConstRBwImpl, |x: f32, _y: f32, gy: f32, k: f32| {
diff --git a/prima_undine/src/operators/powf.rs b/prima_undine/src/operators/powf.rs
index 95f6bc5..5dc3b1e 100644
--- a/prima_undine/src/operators/powf.rs
+++ b/prima_undine/src/operators/powf.rs
@@ -1,7 +1,7 @@
 use std::cell::RefCell;
 
-use crate::functions::{BasicDeviceFunctions, BasicFunctions};
-use crate::{Device, Tensor};
+use crate::functions::{ArithmeticDeviceFunctions, BasicDeviceFunctions, BasicFunctions};
+use crate::{Device, Shape, Tensor};
 
 define_operator_ab!(
     Pow,
@@ -15,13 +15,24 @@ define_operator_ab!(
 define_operator_x!(PowConstL, powf_const_l_fw, powf_const_l_bw, k, f32);
 define_operator_x!(PowConstR, powf_const_r_fw, powf_const_r_bw, k, f32);
 
+// Copies of the scalar x, one for every element of a tensor of the given shape.
+fn expand<'dev>(device: &'dev Device<'dev>, x: &Tensor, shape: Shape) -> Tensor<'dev> {
+    device.mul_scalar_fw(
+        &device.new_tensor_by_constant(shape.resize_batch(1), 1.),
+        x,
+    )
+}
+
 define_operator_ab!(
     PowScalarL,
     powf_scalar_l_fw,
     scalar_op,
-    |_device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
-        *gx[0].borrow_mut() += gy[0] * y[0] * x[1].ln();
-        *gx[1].borrow_mut() += (gy[0] * x[0] * x[1].pow(x[0] - 1.)).flatten().sum(0);
+    |device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
+        let k = expand(device, x[1], x[0].shape);
+        let mut gk = device.new_tensor_by_constant(k.shape, 0.);
+        device.powf_bw_a(&k, x[0], y[0], gy[0], &mut gk);
+        device.powf_bw_b(&k, x[0], y[0], gy[0], &mut *gx[0].borrow_mut());
+        *gx[1].borrow_mut() += gk.flatten().sum(0);
     }
 );
 
@@ -29,8 +40,11 @@ define_operator_ab!(
     PowScalarR,
     powf_scalar_r_fw,
     scalar_op,
-    |_device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
-        *gx[0].borrow_mut() += gy[0] * x[1] * x[0].pow(x[1] - 1.);
-        *gx[1].borrow_mut() += (gy[0] * y[0] * x[0].ln()).flatten().sum(0);
+    |device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
+        let k = expand(device, x[1], x[0].shape);
+        let mut gk = device.new_tensor_by_constant(k.shape, 0.);
+        device.powf_bw_a(x[0], &k, y[0], gy[0], &mut *gx[0].borrow_mut());
+        device.powf_bw_b(x[0], &k, y[0], gy[0], &mut gk);
+        *gx[1].borrow_mut() += gk.flatten().sum(0);
     }
 );
-- 
2.43.0


From 020a27fe22bbe79c700e3b1adde46ec97ec0ba93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:30 +0000
Subject: [PATCH 30/31] fix: release long chains of operators without
 exhausting the stack

---
 prima_undine/src/graph.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/prima_undine/src/graph.rs b/prima_undine/src/graph.rs
index 4da574d..ba88943 100644
--- a/prima_undine/src/graph.rs
+++ b/prima_undine/src/graph.rs
@@ -2,6 +2,7 @@ use std::cell::{Cell, Ref, RefCell, RefMut};
 use std::cmp;
 use std::cmp::{Ordering, Reverse};
 use std::collections::{BinaryHeap, HashSet, VecDeque};
+use std::mem;
 use std::rc::Rc;
 
 use crate::operators as op;
@@ -28,6 +29,18 @@ struct OperatorInfo<'arg, 'dev> {
     depth: usize,
 }
 
+// Releases a chain of operators one by one: the recursion over a long one would exhaust the stack.
+impl<'arg, 'dev> Drop for OperatorInfo<'arg, 'dev> {
+    fn drop(&mut self) {
+        let mut args = mem::replace(&mut self.args, vec![]);
+        while let Some(arg) = args.pop() {
+            if let Ok(mut op_info) = Rc::try_unwrap(arg.op) {
+                args.append(&mut op_info.args);
+            }
+        }
+    }
+}
+
 struct OperatorInfoCmp<'arg, 'dev>(Rc<OperatorInfo<'arg, 'dev>>);
 
 impl<'arg, 'dev> PartialEq for OperatorInfoCmp<'arg, 'dev> {
-- 
2.43.0


From e22888aa10c4750082198e37b6a635fad3433fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:55 +0000
Subject: [PATCH 31/31] fix: reject joins whose axis or batch count exceeds 32
 bits

---
 prima_undine/src/shape_ops.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prima_undine/src/shape_ops.rs b/prima_undine/src/shape_ops.rs
index a2ffced..12b7662 100644
--- a/prima_undine/src/shape_ops.rs
+++ b/prima_undine/src/shape_ops.rs
@@ -53,7 +53,7 @@ pub fn concat(xs: &[Shape], dim: u32) -> Shape {
         if !s0.has_batch() {
             s0.update_batch(s.batch());
         }
-        sum += s[dim];
+        sum = sum.checked_add(s[dim]).unwrap();
     }
     s0.resize_dim(dim, sum)
 }
@@ -80,7 +80,7 @@ pub fn batch_concat(xs: &[Shape]) -> Shape {
     for i in 1..xs.len() {
         let s = xs[i];
         assert!(s0.has_same_dims(s));
-        sum += s.batch();
+        sum = sum.checked_add(s.batch()).unwrap();
     }
     s0.resize_batch(sum)
 }
-- 
2.43.0


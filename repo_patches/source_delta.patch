From 8f48374a38b3cb1f7860a8a91f06dfc469fe765c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:30 +0000
Subject: [PATCH 01/32] sim: hook listing the registered kernels (cfg
 prima_sim)

---
 prima_undine/src/lib.rs       |  2 ++
 prima_undine/src/sim_hooks.rs | 22 ++++++++++++++++++++++
 2 files changed, 24 insertions(+)
 create mode 100644 prima_undine/src/sim_hooks.rs

diff --git a/prima_undine/src/lib.rs b/prima_undine/src/lib.rs
index 9e73ee2..f0f7271 100644
--- a/prima_undine/src/lib.rs
+++ b/prima_undine/src/lib.rs
@@ -22,6 +22,8 @@ mod parameter;
 pub mod random;
 mod shape;
 mod shape_ops;
+#[cfg(prima_sim)]
+mod sim_hooks;
 mod tensor;
 
 pub use device::Device;
diff --git a/prima_undine/src/sim_hooks.rs b/prima_undine/src/sim_hooks.rs
new file mode 100644
index 0000000..e9147f6
--- /dev/null
+++ b/prima_undine/src/sim_hooks.rs
@@ -0,0 +1,22 @@
+//! Hooks for the deterministic simulator.
+//!
+//! Compiled only with `--cfg prima_sim`; the shipped crate does not contain this module.
+
+use crate::Device;
+
+impl<'dev> Device<'dev> {
+    /// Returns the sorted names of the registered kernels: forward, forward returning u32,
+    /// forward returning f32, backward.
+    pub fn sim_kernel_names(&self) -> [Vec<String>; 4] {
+        let mut names = [
+            self.fw_impl.keys().cloned().collect::<Vec<String>>(),
+            self.fw_u32_impl.keys().cloned().collect::<Vec<String>>(),
+            self.fw_f32_impl.keys().cloned().collect::<Vec<String>>(),
+            self.bw_impl.keys().cloned().collect::<Vec<String>>(),
+        ];
+        for v in names.iter_mut() {
+            v.sort();
+        }
+        names
+    }
+}
-- 
2.43.0


From 13d2105e06d900575f71b648e7ebb7792cf15c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:31 +0000
Subject: [PATCH 02/32] fix: do not hold the pool lock while the device
 allocates memory

---
 prima_undine/src/memory_pool.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/prima_undine/src/memory_pool.rs b/prima_undine/src/memory_pool.rs
index ca7ba27..9c60c37 100644
--- a/prima_undine/src/memory_pool.rs
+++ b/prima_undine/src/memory_pool.rs
@@ -54,7 +54,9 @@ impl<'dev> MemoryPool<'dev> {
         let shift = calculate_shifts(size) as usize;
         assert!(shift <= MAX_BITS - 1);
         let mem_size = 1 << shift;
-        let handle = if let Some(handle) = self.pool.lock().unwrap()[shift].pop() {
+        // The lock must not be held while the device allocates: a failing allocation would poison it.
+        let pooled = self.pool.lock().unwrap()[shift].pop();
+        let handle = if let Some(handle) = pooled {
             handle
         } else {
             self.imp.new_handle(mem_size)
-- 
2.43.0


From 74eb4ede9bb91b9daf65bde5bddb854782b8d27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:31 +0000
Subject: [PATCH 03/32] fix: copy in Tensor::replace when the argument refers
 to the memory of another tensor

---
 prima_undine/src/tensor.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/prima_undine/src/tensor.rs b/prima_undine/src/tensor.rs
index 70d3d1a..939f0fd 100644
--- a/prima_undine/src/tensor.rs
+++ b/prima_undine/src/tensor.rs
@@ -72,6 +72,13 @@ impl<'dev> Tensor<'dev> {
         assert!(!self.valid());
         assert_eq!(self.shape, other.shape);
         assert!(self.host_values.is_none());
+        if other.reference.is_some() {
+            // `other` does not own its memory, so it cannot be handed over.
+            let mut copy = self.device().new_tensor(self.shape);
+            copy.alloc();
+            self.device().reset_tensor_by_tensor(&mut copy, &other);
+            return self.replace(copy);
+        }
         self.handle
             .store(other.handle.load(Ordering::Acquire), Ordering::Release);
         other.handle.store(ptr::null_mut(), Ordering::Release);
-- 
2.43.0


From 39c0b6ecb18dd34ec751112a627798fa95f91a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:31 +0000
Subject: [PATCH 04/32] fix: mark a graph operator as evaluated only after its
 evaluation succeeded

---
 prima_undine/src/graph.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/prima_undine/src/graph.rs b/prima_undine/src/graph.rs
index 1f26f8f..1c717d9 100644
--- a/prima_undine/src/graph.rs
+++ b/prima_undine/src/graph.rs
@@ -108,7 +108,14 @@ fn forward<'arg, 'dev>(op_info: Rc<OperatorInfo<'arg, 'dev>>) {
         if op_info.forwarded.get() {
             continue;
         }
-        op_info.forwarded.set(true);
+        for ret in &op_info.rets {
+            // Discards what an evaluation that failed halfway has left.
+            let mut value = ret.value.borrow_mut();
+            if value.valid() {
+                let shape = value.shape;
+                *value = op_info.operator.device().new_tensor(shape);
+            }
+        }
         let xs = op_info
             .args
             .iter()
@@ -125,6 +132,7 @@ fn forward<'arg, 'dev>(op_info: Rc<OperatorInfo<'arg, 'dev>>) {
             .map(|y| &mut **y)
             .collect::<Vec<&mut Tensor<'arg>>>();
         op_info.operator.forward(&xs_ref, &mut ys_ref);
+        op_info.forwarded.set(true);
     }
 }
 
-- 
2.43.0


From 12c720c0398673c3afb96b6667d4061e29f63bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:31 +0000
Subject: [PATCH 05/32] fix: keep the randomizer usable after a generation
 failed

---
 prima_undine/src/devices/naive/random.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/prima_undine/src/devices/naive/random.rs b/prima_undine/src/devices/naive/random.rs
index c7e2fe4..809ebf8 100644
--- a/prima_undine/src/devices/naive/random.rs
+++ b/prima_undine/src/devices/naive/random.rs
@@ -26,7 +26,7 @@ impl FunctionFwImpl for RandomBernoulliImpl {
             let mut yslice = slice::from_raw_parts_mut(py, y.shape.size() as usize);
             self.randomizer
                 .lock()
-                .unwrap()
+                .unwrap_or_else(|e| e.into_inner())
                 .fill_bernoulli(p, &mut yslice)
         }
     }
@@ -54,7 +54,7 @@ impl FunctionFwImpl for RandomNormalImpl {
             let mut yslice = slice::from_raw_parts_mut(py, y.shape.size() as usize);
             self.randomizer
                 .lock()
-                .unwrap()
+                .unwrap_or_else(|e| e.into_inner())
                 .fill_normal(mean, sd, &mut yslice)
         }
     }
@@ -82,7 +82,7 @@ impl FunctionFwImpl for RandomUniformImpl {
             let mut yslice = slice::from_raw_parts_mut(py, y.shape.size() as usize);
             self.randomizer
                 .lock()
-                .unwrap()
+                .unwrap_or_else(|e| e.into_inner())
                 .fill_uniform(lower, upper, &mut yslice)
         }
     }
-- 
2.43.0


From 8265653882640540757f3b48cf4f7bc7e1acac9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:24 +0000
Subject: [PATCH 06/32] fix: register the backward kernel of negation on the
 naive device

---
 prima_undine/src/devices/naive.rs     | 1 +
 prima_undine/src/devices/naive/neg.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/prima_undine/src/devices/naive.rs b/prima_undine/src/devices/naive.rs
index d6514c1..a14b32f 100644
--- a/prima_undine/src/devices/naive.rs
+++ b/prima_undine/src/devices/naive.rs
@@ -138,6 +138,7 @@ impl<'dev> Naive {
         // arithmetic
 
         dev.register_fw_impl("neg_fw_impl", neg::NegFwImpl::new());
+        dev.register_bw_impl("neg_bw_impl", neg::NegBwImpl::new());
 
         dev.register_fw_impl("add_fw_impl", add::AddFwImpl::new());
         dev.register_bw_impl("add_bw_a_impl", add::AddBwAImpl::new());
diff --git a/prima_undine/src/devices/naive/neg.rs b/prima_undine/src/devices/naive/neg.rs
index 85fb32d..d65991b 100644
--- a/prima_undine/src/devices/naive/neg.rs
+++ b/prima_undine/src/devices/naive/neg.rs
@@ -1,4 +1,5 @@
 define_naive_fw_x_impl!(NegFwImpl, |x: f32| -x);
+define_naive_bw_x_impl!(NegBwImpl, |_x: f32, _y: f32, gy: f32| -gy);
 
 #[cfg(test)]
 mod tests {
-- 
2.43.0


From 296142897443aa501d732330c3121952d9a64d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:24 +0000
Subject: [PATCH 07/32] fix: call the batch kernels from batch_slice_bw and
 batch_pick_bw

---
 prima_undine/src/functions/basic/device.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prima_undine/src/functions/basic/device.rs b/prima_undine/src/functions/basic/device.rs
index fee6449..56dadcd 100644
--- a/prima_undine/src/functions/basic/device.rs
+++ b/prima_undine/src/functions/basic/device.rs
@@ -460,14 +460,14 @@ impl<'dev> BasicDeviceFunctions for Device<'dev> {
         assert!(gx.device() == self);
         let sy = gy.shape;
         assert!(shape_ops::batch_slice(gx.shape, lower, lower + sy.batch()) == sy);
-        self.call_bw_impl("slice_bw_impl", &[], &[], &[gy], &[lower], &[], gx);
+        self.call_bw_impl("batch_slice_bw_impl", &[], &[], &[gy], &[lower], &[], gx);
     }
 
     fn batch_pick_bw(&self, gy: &Tensor, ids: &[u32], gx: &mut Tensor) {
         assert!(gy.device() == self);
         assert!(gx.device() == self);
         assert!(shape_ops::batch_pick(gx.shape, ids) == gy.shape);
-        self.call_bw_impl("pick_bw_impl", &[], &[], &[gy], ids, &[], gx);
+        self.call_bw_impl("batch_pick_bw_impl", &[], &[], &[gy], ids, &[], gx);
     }
 }
 
-- 
2.43.0


From 5a5f5d0881b4344999bbdc9b299972ccd057405f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:24 +0000
Subject: [PATCH 08/32] fix: pass the gradient of every output of batch_split
 back

---
 prima_undine/src/operators/batch_split.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prima_undine/src/operators/batch_split.rs b/prima_undine/src/operators/batch_split.rs
index 257355e..5680a97 100644
--- a/prima_undine/src/operators/batch_split.rs
+++ b/prima_undine/src/operators/batch_split.rs
@@ -33,7 +33,7 @@ impl<'arg, 'dev> Operator<'arg, 'dev> for BatchSplit<'dev> {
         let skip = total / self.n;
         for i in 0..self.n {
             self.device()
-                .batch_slice_bw(gy[0], i * skip, &mut *gx[0].borrow_mut());
+                .batch_slice_bw(gy[i as usize], i * skip, &mut *gx[0].borrow_mut());
         }
     }
 }
-- 
2.43.0


From e22765f176c7a383e918ca2b76471d20f3c05c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:24 +0000
Subject: [PATCH 09/32] fix: differentiate sum and logsumexp over a trailing
 dimension of size 1

---
 prima_undine/src/operators/logsumexp.rs | 2 +-
 prima_undine/src/operators/sum.rs       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/prima_undine/src/operators/logsumexp.rs b/prima_undine/src/operators/logsumexp.rs
index 5a14d84..2b0e5f5 100644
--- a/prima_undine/src/operators/logsumexp.rs
+++ b/prima_undine/src/operators/logsumexp.rs
@@ -22,7 +22,7 @@ impl<'arg, 'dev> Operator<'arg, 'dev> for Logsumexp<'dev> {
     }
 
     fn backward(&self, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]) {
-        let size = x[0].shape().dims()[self.dim as usize];
+        let size = x[0].shape()[self.dim];
         *gx[0].borrow_mut() +=
             (x[0] - y[0].broadcast(self.dim, size)).exp() * gy[0].broadcast(self.dim, size);
     }
diff --git a/prima_undine/src/operators/sum.rs b/prima_undine/src/operators/sum.rs
index b61f1e5..58a00c3 100644
--- a/prima_undine/src/operators/sum.rs
+++ b/prima_undine/src/operators/sum.rs
@@ -22,7 +22,7 @@ impl<'arg, 'dev> Operator<'arg, 'dev> for Sum<'dev> {
     }
 
     fn backward(&self, x: &[&Tensor], _y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]) {
-        let size = x[0].shape().dims()[self.dim as usize];
+        let size = x[0].shape()[self.dim];
         *gx[0].borrow_mut() += gy[0].broadcast(self.dim, size);
     }
 }
-- 
2.43.0


From 59bfa965498216bc85a8c12f5a9ec30259dadc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:42 +0000
Subject: [PATCH 10/32] fix: give graph operators with a scalar operand the
 shape of the other operand

---
 prima_undine/src/operators/add.rs    | 1 +
 prima_undine/src/operators/common.rs | 5 ++++-
 prima_undine/src/operators/div.rs    | 2 ++
 prima_undine/src/operators/mul.rs    | 1 +
 prima_undine/src/operators/powf.rs   | 2 ++
 prima_undine/src/operators/sub.rs    | 2 ++
 6 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/prima_undine/src/operators/add.rs b/prima_undine/src/operators/add.rs
index caa30d6..0237c2a 100644
--- a/prima_undine/src/operators/add.rs
+++ b/prima_undine/src/operators/add.rs
@@ -17,6 +17,7 @@ define_operator_x!(AddConst, add_const_fw, add_const_bw, k, f32);
 define_operator_ab!(
     AddScalar,
     add_scalar_fw,
+    scalar_op,
     |_device: &Device, _x: &[&Tensor], _y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         *gx[0].borrow_mut() += gy[0];
         *gx[1].borrow_mut() += gy[0].flatten().sum(0);
diff --git a/prima_undine/src/operators/common.rs b/prima_undine/src/operators/common.rs
index 4c6ad14..a6ea915 100644
--- a/prima_undine/src/operators/common.rs
+++ b/prima_undine/src/operators/common.rs
@@ -25,6 +25,9 @@ macro_rules! define_operator_struct {
 
 macro_rules! define_operator_ab {
     ($name:ident, $fw:ident, $bwfunc:expr) => {
+        define_operator_ab!($name, $fw, elementwise, $bwfunc);
+    };
+    ($name:ident, $fw:ident, $shape_op:ident, $bwfunc:expr) => {
         define_operator_struct!($name);
         impl<'arg, 'dev> crate::Operator<'arg, 'dev> for $name<'dev> {
             fn name(&self) -> String {
@@ -34,7 +37,7 @@ macro_rules! define_operator_ab {
                 self.device
             }
             fn forward_shape(&self, x: &[crate::Shape]) -> Vec<crate::Shape> {
-                vec![crate::shape_ops::elementwise(x[0], x[1])]
+                vec![crate::shape_ops::$shape_op(x[0], x[1])]
             }
             fn forward(&self, x: &[&crate::Tensor], y: &mut [&mut crate::Tensor<'arg>]) {
                 y[0].replace(self.device.$fw(x[0], x[1]));
diff --git a/prima_undine/src/operators/div.rs b/prima_undine/src/operators/div.rs
index 6e6dc29..34d2493 100644
--- a/prima_undine/src/operators/div.rs
+++ b/prima_undine/src/operators/div.rs
@@ -18,6 +18,7 @@ define_operator_x!(DivConstR, div_const_r_fw, div_const_r_bw, k, f32);
 define_operator_ab!(
     DivScalarL,
     div_scalar_l_fw,
+    scalar_op,
     |_device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         let ref a = gy[0] / x[0];
         *gx[0].borrow_mut() -= &(a * y[0]);
@@ -28,6 +29,7 @@ define_operator_ab!(
 define_operator_ab!(
     DivScalarR,
     div_scalar_r_fw,
+    scalar_op,
     |_device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         let ref a = gy[0] / x[1];
         *gx[0].borrow_mut() += a;
diff --git a/prima_undine/src/operators/mul.rs b/prima_undine/src/operators/mul.rs
index 402c629..eaac986 100644
--- a/prima_undine/src/operators/mul.rs
+++ b/prima_undine/src/operators/mul.rs
@@ -17,6 +17,7 @@ define_operator_x!(MulConst, mul_const_fw, mul_const_bw, k, f32);
 define_operator_ab!(
     MulScalar,
     mul_scalar_fw,
+    scalar_op,
     |_device: &Device, x: &[&Tensor], _y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         *gx[0].borrow_mut() += x[1] * gy[0];
         *gx[1].borrow_mut() += (x[0] * gy[0]).flatten().sum(0);
diff --git a/prima_undine/src/operators/powf.rs b/prima_undine/src/operators/powf.rs
index e826677..0a0d12d 100644
--- a/prima_undine/src/operators/powf.rs
+++ b/prima_undine/src/operators/powf.rs
@@ -18,6 +18,7 @@ define_operator_x!(PowConstR, powf_const_r_fw, powf_const_r_bw, k, f32);
 define_operator_ab!(
     PowScalarL,
     powf_scalar_l_fw,
+    scalar_op,
     |_device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         let a = gy[0] * y[0];
         *gx[0].borrow_mut() += &a * x[1].ln();
@@ -28,6 +29,7 @@ define_operator_ab!(
 define_operator_ab!(
     PowScalarR,
     powf_scalar_r_fw,
+    scalar_op,
     |_device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         let a = gy[0] * y[0];
         *gx[0].borrow_mut() += &a * x[1] / x[0];
diff --git a/prima_undine/src/operators/sub.rs b/prima_undine/src/operators/sub.rs
index ea48903..9299c86 100644
--- a/prima_undine/src/operators/sub.rs
+++ b/prima_undine/src/operators/sub.rs
@@ -18,6 +18,7 @@ define_operator_x!(SubConstR, sub_const_r_fw, sub_const_r_bw, k, f32);
 define_operator_ab!(
     SubScalarL,
     sub_scalar_l_fw,
+    scalar_op,
     |_device: &Device, _x: &[&Tensor], _y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         *gx[0].borrow_mut() -= gy[0];
         *gx[1].borrow_mut() += gy[0].flatten().sum(0);
@@ -27,6 +28,7 @@ define_operator_ab!(
 define_operator_ab!(
     SubScalarR,
     sub_scalar_r_fw,
+    scalar_op,
     |_device: &Device, _x: &[&Tensor], _y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         *gx[0].borrow_mut() += gy[0];
         *gx[1].borrow_mut() -= gy[0].flatten().sum(0);
-- 
2.43.0


From 8e1c0e206a1ca16082ff089a8030ecc1804c8ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:20 +0000
Subject: [PATCH 11/32] fix: reject reshaping a node to another size when the
 node is built

---
 prima_undine/src/operators/reshape.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prima_undine/src/operators/reshape.rs b/prima_undine/src/operators/reshape.rs
index c67c8b0..126b086 100644
--- a/prima_undine/src/operators/reshape.rs
+++ b/prima_undine/src/operators/reshape.rs
@@ -12,7 +12,8 @@ impl<'arg, 'dev> Operator<'arg, 'dev> for Reshape<'dev> {
         self.device
     }
 
-    fn forward_shape(&self, _x: &[Shape]) -> Vec<Shape> {
+    fn forward_shape(&self, x: &[Shape]) -> Vec<Shape> {
+        assert!(x[0].size() == self.shape.size());
         vec![self.shape]
     }
 
-- 
2.43.0


From fdcf4ee811df58a8ed5d34fe72f6ba96d13a62e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:20 +0000
Subject: [PATCH 12/32] fix: reject in-place addition and subtraction of
 tensors of other shapes

---
 prima_undine/src/functions/arithmetic/device.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prima_undine/src/functions/arithmetic/device.rs b/prima_undine/src/functions/arithmetic/device.rs
index 104f83a..5d223c1 100644
--- a/prima_undine/src/functions/arithmetic/device.rs
+++ b/prima_undine/src/functions/arithmetic/device.rs
@@ -47,12 +47,14 @@ impl<'dev> ArithmeticDeviceFunctions for Device<'dev> {
     fn add_assign(&self, x: &Tensor, y: &mut Tensor) {
         assert!(x.device() == self);
         assert!(y.device() == self);
+        assert!(x.shape.has_same_dims(y.shape) && x.shape.has_compatible_batch(y.shape));
         self.call_fw_impl("add_assign_impl", &[x], &[], &[], &mut [y]);
     }
 
     fn sub_assign(&self, x: &Tensor, y: &mut Tensor) {
         assert!(x.device() == self);
         assert!(y.device() == self);
+        assert!(x.shape.has_same_dims(y.shape) && x.shape.has_compatible_batch(y.shape));
         self.call_fw_impl("sub_assign_impl", &[x], &[], &[], &mut [y]);
     }
 
-- 
2.43.0


From 555c7c5ed5ddffa8fc9a47a663552fb116955130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:20 +0000
Subject: [PATCH 13/32] fix: return an error on serialized tensors that are
 inconsistent

---
 prima_undine/src/shape.rs  | 9 +++++++++
 prima_undine/src/tensor.rs | 4 ++++
 2 files changed, 13 insertions(+)

diff --git a/prima_undine/src/shape.rs b/prima_undine/src/shape.rs
index 73ba745..2c0e01f 100644
--- a/prima_undine/src/shape.rs
+++ b/prima_undine/src/shape.rs
@@ -2,6 +2,7 @@ use std::cmp;
 use std::fmt;
 use std::ops::Index;
 
+use serde::de;
 use serde::ser::SerializeStruct;
 use serde::{Deserialize, Deserializer, Serialize, Serializer};
 
@@ -178,6 +179,14 @@ impl<'de> Deserialize<'de> for Shape {
         D: Deserializer<'de>,
     {
         let s: ShapeSerde = Deserialize::deserialize(deserializer)?;
+        let size = s
+            .dims
+            .iter()
+            .try_fold(s.batch, |size, &d| size.checked_mul(d))
+            .unwrap_or(0);
+        if s.dims.len() > MAX_DEPTH as usize || size == 0 {
+            return Err(de::Error::custom("invalid shape"));
+        }
         Ok(Shape::new(&s.dims, s.batch))
     }
 }
diff --git a/prima_undine/src/tensor.rs b/prima_undine/src/tensor.rs
index 939f0fd..f4f684b 100644
--- a/prima_undine/src/tensor.rs
+++ b/prima_undine/src/tensor.rs
@@ -2,6 +2,7 @@ use std::ffi::c_void;
 use std::ptr;
 use std::sync::atomic::{AtomicPtr, Ordering};
 
+use serde::de;
 use serde::ser::SerializeStruct;
 use serde::{Deserialize, Deserializer, Serialize, Serializer};
 
@@ -122,6 +123,9 @@ impl<'de, 'dev> Deserialize<'de> for Tensor<'dev> {
         D: Deserializer<'de>,
     {
         let t: TensorSerde = Deserialize::deserialize(deserializer)?;
+        if t.values.len() != t.shape.size() as usize {
+            return Err(de::Error::custom("wrong number of values for the shape"));
+        }
         Ok(Tensor::new_host_tensor(t.shape, t.values))
     }
 }
-- 
2.43.0


From ed82ca7ddc9834f8343fec267cf2fab695e7f054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:20 +0000
Subject: [PATCH 14/32] fix: serialize tensors that have not been moved to a
 device

---
 prima_undine/src/tensor.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/prima_undine/src/tensor.rs b/prima_undine/src/tensor.rs
index f4f684b..552401b 100644
--- a/prima_undine/src/tensor.rs
+++ b/prima_undine/src/tensor.rs
@@ -137,7 +137,10 @@ impl<'dev> Serialize for Tensor<'dev> {
     {
         let mut s = serializer.serialize_struct("Tensor", 2)?;
         s.serialize_field("shape", &self.shape)?;
-        s.serialize_field("values", &self.device().tensor_to_vector(self))?;
+        match &self.host_values {
+            Some(values) => s.serialize_field("values", values)?,
+            None => s.serialize_field("values", &self.device().tensor_to_vector(self))?,
+        }
         s.end()
     }
 }
-- 
2.43.0


From 4107bbc767577edf462982c2fd13116cfb759a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:20 +0000
Subject: [PATCH 15/32] fix: accept a scalar base or exponent in Tensor::pow

---
 prima_undine/src/functions/basic/tensor.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/prima_undine/src/functions/basic/tensor.rs b/prima_undine/src/functions/basic/tensor.rs
index dc0dc7e..a46a5ae 100644
--- a/prima_undine/src/functions/basic/tensor.rs
+++ b/prima_undine/src/functions/basic/tensor.rs
@@ -35,7 +35,14 @@ impl<'arg, 'dev> BasicFunctions for Tensor<'dev> {
     // basic
 
     fn pow<T: Borrow<Self>>(&self, k: T) -> Self {
-        self.device().powf_fw(self, k.borrow())
+        let k = k.borrow();
+        if self.shape.is_scalar() {
+            self.device().powf_scalar_l_fw(k, self)
+        } else if k.shape.is_scalar() {
+            self.device().powf_scalar_r_fw(self, k)
+        } else {
+            self.device().powf_fw(self, k)
+        }
     }
 
     fn powf(&self, k: f32) -> Self {
-- 
2.43.0


From 0dc8ebf399c93ba3e76c9b864f0b41d2ecba3bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:20 +0000
Subject: [PATCH 16/32] fix: start every backward pass of a graph from cleared
 gradients and its own output

---
 prima_undine/src/graph.rs | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/prima_undine/src/graph.rs b/prima_undine/src/graph.rs
index 1c717d9..af175d0 100644
--- a/prima_undine/src/graph.rs
+++ b/prima_undine/src/graph.rs
@@ -136,18 +136,12 @@ fn forward<'arg, 'dev>(op_info: Rc<OperatorInfo<'arg, 'dev>>) {
     }
 }
 
-fn backward<'arg, 'dev>(op_info: Rc<OperatorInfo<'arg, 'dev>>) {
+fn backward<'arg, 'dev>(op_info: Rc<OperatorInfo<'arg, 'dev>>, vid: usize) {
     let mut reached = HashSet::new();
     let mut queue = VecDeque::new();
     let mut backward_req = BinaryHeap::new();
-    {
-        for ret in &op_info.rets {
-            let mut grad = ret.gradient.borrow_mut();
-            grad.alloc();
-            grad.reset(1.);
-        }
-    }
-    queue.push_back(op_info);
+    queue.push_back(Rc::clone(&op_info));
+    let target = op_info;
     while let Some(op_info) = queue.pop_front() {
         for arg in &op_info.args {
             let ptr = &*arg.op as *const OperatorInfo<'arg, 'dev>;
@@ -156,8 +150,17 @@ fn backward<'arg, 'dev>(op_info: Rc<OperatorInfo<'arg, 'dev>>) {
                 reached.insert(ptr);
             }
         }
+        for ret in &op_info.rets {
+            // Discards what a previous backward pass has left.
+            let mut grad = ret.gradient.borrow_mut();
+            if !grad.valid() {
+                grad.alloc();
+            }
+            grad.reset(0.);
+        }
         backward_req.push(OperatorInfoCmp(op_info));
     }
+    target.rets[vid].gradient.borrow_mut().reset(1.);
     while let Some(OperatorInfoCmp(op_info)) = backward_req.pop() {
         let xs = op_info
             .args
@@ -177,14 +180,7 @@ fn backward<'arg, 'dev>(op_info: Rc<OperatorInfo<'arg, 'dev>>) {
         let gxs = op_info
             .args
             .iter()
-            .map(|data| {
-                let mut gx = data.op.rets[data.vid].gradient.borrow_mut();
-                if !gx.valid() {
-                    gx.alloc();
-                    gx.reset(0.);
-                }
-                &data.op.rets[data.vid].gradient
-            })
+            .map(|data| &data.op.rets[data.vid].gradient)
             .collect::<Vec<&RefCell<Tensor<'arg>>>>();
         let xs_ref = xs.iter().map(|x| &**x).collect::<Vec<&Tensor<'arg>>>();
         let ys_ref = ys.iter().map(|y| &**y).collect::<Vec<&Tensor<'arg>>>();
@@ -226,7 +222,7 @@ impl<'arg, 'dev> Node<'arg, 'dev> {
 
     pub fn backward(&self) {
         self.forward();
-        backward(Rc::clone(&self.data.op));
+        backward(Rc::clone(&self.data.op), self.data.vid);
     }
 }
 
-- 
2.43.0


From a6a656838f727c1cca29557361308367688c7c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:34 +0000
Subject: [PATCH 17/32] fix: evaluate Node::elu with the ELU kernels

---
 prima_undine/src/operators/elu.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prima_undine/src/operators/elu.rs b/prima_undine/src/operators/elu.rs
index 1d95284..13a8626 100644
--- a/prima_undine/src/operators/elu.rs
+++ b/prima_undine/src/operators/elu.rs
@@ -1,3 +1,3 @@
 use crate::functions::BasicDeviceFunctions;
 
-define_operator_x!(ELU, prelu_fw, prelu_bw, a, f32);
+define_operator_x!(ELU, elu_fw, elu_bw, a, f32);
-- 
2.43.0


From 72c7b389d5615b5fa54debf98328d2f085b2a6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:18 +0000
Subject: [PATCH 18/32] fix: keep a host tensor's values until the device has
 taken them over

---
 prima_undine/src/tensor.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/prima_undine/src/tensor.rs b/prima_undine/src/tensor.rs
index 552401b..81d2727 100644
--- a/prima_undine/src/tensor.rs
+++ b/prima_undine/src/tensor.rs
@@ -42,10 +42,8 @@ impl<'dev> Tensor<'dev> {
 
     pub fn move_to_device(&mut self, device: &'dev Device<'dev>) {
         assert!(self.host_values.is_some());
-        self.device = Some(device);
-        self.handle = self.device.unwrap().new_handle(self.shape.size());
-        let values = self.host_values.take().unwrap();
-        device.reset_tensor_by_slice(self, &values);
+        // The values are given up only when the device has taken them over.
+        *self = device.new_tensor_by_slice(self.shape, self.host_values.as_ref().unwrap());
     }
 
     pub fn alloc(&mut self) {
-- 
2.43.0


From c052522df54af2a0dc736c6e427f3707c07f9968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:38 +0000
Subject: [PATCH 19/32] fix: refuse shapes whose element count overflows also
 without overflow checks

---
 prima_undine/src/shape.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/prima_undine/src/shape.rs b/prima_undine/src/shape.rs
index 2c0e01f..4ab7159 100644
--- a/prima_undine/src/shape.rs
+++ b/prima_undine/src/shape.rs
@@ -29,8 +29,9 @@ impl Shape {
             if dims[i] != 1 {
                 depth = i as u32 + 1;
             }
-            volume *= dims[i];
+            volume = Shape::checked_mul(volume, dims[i]);
         }
+        Shape::checked_mul(volume, batch);
         Shape {
             dims: dims_filled,
             batch: batch,
@@ -39,6 +40,11 @@ impl Shape {
         }
     }
 
+    /// Refuses element counts that do not fit, also where overflow is not checked.
+    fn checked_mul(a: u32, b: u32) -> u32 {
+        a.checked_mul(b).expect("shape is too large")
+    }
+
     pub fn depth(&self) -> u32 {
         self.depth
     }
@@ -130,6 +136,8 @@ impl Shape {
     pub fn update_dim(&mut self, dim: u32, m: u32) {
         assert!(dim < MAX_DEPTH);
         assert!(m != 0);
+        let volume = Shape::checked_mul(self.volume / self[dim], m);
+        Shape::checked_mul(volume, self.batch);
         if dim >= self.depth {
             let new_depth = dim + 1;
             for i in self.depth..new_depth {
@@ -137,7 +145,7 @@ impl Shape {
             }
             self.depth = new_depth;
         }
-        self.volume = self.volume / self.dims[dim as usize] * m;
+        self.volume = volume;
         self.dims[dim as usize] = m;
         while self.depth > 0 && self.dims[self.depth as usize - 1] == 1 {
             self.depth -= 1;
@@ -146,6 +154,7 @@ impl Shape {
 
     pub fn update_batch(&mut self, batch: u32) {
         assert!(batch >= 1);
+        Shape::checked_mul(self.volume, batch);
         self.batch = batch;
     }
 }
-- 
2.43.0


From fc7563c24dca00a109d18ef3734578cb8a5d6a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 20/32] fix: release long chains of graph operators without
 recursion

---
 prima_undine/src/graph.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/prima_undine/src/graph.rs b/prima_undine/src/graph.rs
index af175d0..c69315d 100644
--- a/prima_undine/src/graph.rs
+++ b/prima_undine/src/graph.rs
@@ -2,6 +2,7 @@ use std::cell::{Cell, Ref, RefCell, RefMut};
 use std::cmp;
 use std::cmp::{Ordering, Reverse};
 use std::collections::{BinaryHeap, HashSet, VecDeque};
+use std::mem;
 use std::rc::Rc;
 
 use crate::operators as op;
@@ -28,6 +29,19 @@ struct OperatorInfo<'arg, 'dev> {
     depth: usize,
 }
 
+impl<'arg, 'dev> Drop for OperatorInfo<'arg, 'dev> {
+    fn drop(&mut self) {
+        // Releases the arguments one by one: following a long chain of operators recursively
+        // would exhaust the stack.
+        let mut args = mem::take(&mut self.args);
+        while let Some(arg) = args.pop() {
+            if let Ok(mut op_info) = Rc::try_unwrap(arg.op) {
+                args.append(&mut op_info.args);
+            }
+        }
+    }
+}
+
 struct OperatorInfoCmp<'arg, 'dev>(Rc<OperatorInfo<'arg, 'dev>>);
 
 impl<'arg, 'dev> PartialEq for OperatorInfoCmp<'arg, 'dev> {
-- 
2.43.0


From eff4a3fd3d116ebd2458cc5582879b7216466b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:22 +0000
Subject: [PATCH 21/32] fix: refuse the triangle of a non-square node when the
 node is built

---
 prima_undine/src/operators/triangular_l.rs | 1 +
 prima_undine/src/operators/triangular_u.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/prima_undine/src/operators/triangular_l.rs b/prima_undine/src/operators/triangular_l.rs
index 76bcec2..800bff8 100644
--- a/prima_undine/src/operators/triangular_l.rs
+++ b/prima_undine/src/operators/triangular_l.rs
@@ -14,6 +14,7 @@ impl<'arg, 'dev> Operator<'arg, 'dev> for TriangularL<'dev> {
     }
 
     fn forward_shape(&self, x: &[Shape]) -> Vec<Shape> {
+        assert!(x[0].is_matrix() && x[0][0] == x[0][1]);
         vec![x[0]]
     }
 
diff --git a/prima_undine/src/operators/triangular_u.rs b/prima_undine/src/operators/triangular_u.rs
index 1f495a8..e5207ad 100644
--- a/prima_undine/src/operators/triangular_u.rs
+++ b/prima_undine/src/operators/triangular_u.rs
@@ -14,6 +14,7 @@ impl<'arg, 'dev> Operator<'arg, 'dev> for TriangularU<'dev> {
     }
 
     fn forward_shape(&self, x: &[Shape]) -> Vec<Shape> {
+        assert!(x[0].is_matrix() && x[0][0] == x[0][1]);
         vec![x[0]]
     }
 
-- 
2.43.0


From df8cd7e37050c06cb1ff1fac9ab9368ad61faaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:58 +0000
Subject: [PATCH 22/32] fix: releasing an unknown handle poisoned the pool lock
 for everyone

---
 prima_undine/src/memory_pool.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/prima_undine/src/memory_pool.rs b/prima_undine/src/memory_pool.rs
index 9c60c37..d3636b2 100644
--- a/prima_undine/src/memory_pool.rs
+++ b/prima_undine/src/memory_pool.rs
@@ -73,8 +73,9 @@ impl<'dev> MemoryPool<'dev> {
             .mem_shift
             .lock()
             .unwrap()
-            .remove(&(handle.load(Ordering::Acquire) as usize))
-            .unwrap();
+            .remove(&(handle.load(Ordering::Acquire) as usize));
+        // The lock must not be held while an unknown handle is refused: it would be poisoned.
+        let shift = shift.unwrap();
         self.pool.lock().unwrap()[shift].push(AtomicPtr::new(handle.load(Ordering::Acquire)));
     }
 }
-- 
2.43.0


From 93d6016acb1a81169b0cba4a139d84d7b0fb5b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:58 +0000
Subject: [PATCH 23/32] fix: a view of a tensor without contents leaked the
 memory it was given later

---
 prima_undine/src/tensor.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prima_undine/src/tensor.rs b/prima_undine/src/tensor.rs
index 81d2727..7ec2979 100644
--- a/prima_undine/src/tensor.rs
+++ b/prima_undine/src/tensor.rs
@@ -59,6 +59,8 @@ impl<'dev> Tensor<'dev> {
     pub fn refer(&mut self, other: &'dev Tensor<'dev>) {
         assert_eq!(self.device, other.device);
         assert!(!self.valid());
+        // Without contents there is nothing to refer to, and memory allocated later would not be owned.
+        assert!(other.valid());
         assert_eq!(self.shape, other.shape);
         assert!(self.host_values.is_none());
         self.handle
-- 
2.43.0


From 3d01a1ec30941e948f9de2fa8a65007e6b9c6c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:19 +0000
Subject: [PATCH 24/32] fix: parameters accepted a gradient of another shape or
 device

---
 prima_undine/src/parameter.rs | 3 ++-
 prima_undine/src/tensor.rs    | 4 ++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/prima_undine/src/parameter.rs b/prima_undine/src/parameter.rs
index 17adc83..0393f39 100644
--- a/prima_undine/src/parameter.rs
+++ b/prima_undine/src/parameter.rs
@@ -16,7 +16,8 @@ pub struct Parameter<'dev> {
 impl<'dev> Parameter<'dev> {
     pub fn new(value: Tensor<'dev>, gradient: Tensor<'dev>) -> Parameter<'dev> {
         assert_eq!(value.shape.batch(), 1);
-        assert_eq!(gradient.shape.batch(), 1);
+        assert_eq!(gradient.shape, value.shape);
+        assert!(gradient.has_same_device(&value));
         Parameter {
             value: value,
             gradient: gradient,
diff --git a/prima_undine/src/tensor.rs b/prima_undine/src/tensor.rs
index 7ec2979..d5ba5b9 100644
--- a/prima_undine/src/tensor.rs
+++ b/prima_undine/src/tensor.rs
@@ -89,6 +89,10 @@ impl<'dev> Tensor<'dev> {
         self.device.unwrap()
     }
 
+    pub(crate) fn has_same_device(&self, other: &Tensor) -> bool {
+        self.device == other.device
+    }
+
     pub fn handle(&self) -> &AtomicPtr<c_void> {
         &self.handle
     }
-- 
2.43.0


From 38911f370c1a2ef867c608a64f095cc274701417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:19 +0000
Subject: [PATCH 25/32] fix: loading a parameter accepted a gradient of another
 shape

---
 prima_undine/src/parameter.rs | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/prima_undine/src/parameter.rs b/prima_undine/src/parameter.rs
index 0393f39..e8ec03c 100644
--- a/prima_undine/src/parameter.rs
+++ b/prima_undine/src/parameter.rs
@@ -2,11 +2,12 @@ use std::cell::RefCell;
 use std::collections::HashMap;
 use std::ops::Deref;
 
-use serde::{Deserialize, Serialize};
+use serde::de;
+use serde::{Deserialize, Deserializer, Serialize};
 
 use crate::{Device, Shape, Tensor};
 
-#[derive(Serialize, Deserialize)]
+#[derive(Serialize)]
 pub struct Parameter<'dev> {
     pub value: Tensor<'dev>,
     pub gradient: Tensor<'dev>,
@@ -66,3 +67,27 @@ impl<'dev> Deref for Parameter<'dev> {
         &self.value
     }
 }
+
+#[derive(Deserialize)]
+struct ParameterSerde<'dev> {
+    value: Tensor<'dev>,
+    gradient: Tensor<'dev>,
+    stats: HashMap<String, RefCell<Tensor<'dev>>>,
+}
+
+impl<'de, 'dev> Deserialize<'de> for Parameter<'dev> {
+    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+    where
+        D: Deserializer<'de>,
+    {
+        let p: ParameterSerde = Deserialize::deserialize(deserializer)?;
+        if p.value.shape.has_batch() || p.gradient.shape != p.value.shape {
+            return Err(de::Error::custom("wrong shapes for a parameter"));
+        }
+        Ok(Parameter {
+            value: p.value,
+            gradient: p.gradient,
+            stats: p.stats,
+        })
+    }
+}
-- 
2.43.0


From b4ca9af443884f81fc52f980f5114e6824031420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:43 +0000
Subject: [PATCH 26/32] fix: moving a parameter or model to a device could not
 be repeated after a failure

---
 prima_undine/src/parameter.rs | 13 ++++++++++---
 prima_undine/src/tensor.rs    |  4 ++++
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/prima_undine/src/parameter.rs b/prima_undine/src/parameter.rs
index e8ec03c..52e8223 100644
--- a/prima_undine/src/parameter.rs
+++ b/prima_undine/src/parameter.rs
@@ -27,10 +27,17 @@ impl<'dev> Parameter<'dev> {
     }
 
     pub fn move_to_device(&mut self, device: &'dev Device<'dev>) {
-        self.value.move_to_device(device);
-        self.gradient.move_to_device(device);
+        // What an earlier move that failed halfway has already brought to the device stays there.
+        if !self.value.is_on(device) {
+            self.value.move_to_device(device);
+        }
+        if !self.gradient.is_on(device) {
+            self.gradient.move_to_device(device);
+        }
         for (_, stat) in self.stats.iter_mut() {
-            stat.borrow_mut().move_to_device(device);
+            if !stat.borrow().is_on(device) {
+                stat.borrow_mut().move_to_device(device);
+            }
         }
     }
 
diff --git a/prima_undine/src/tensor.rs b/prima_undine/src/tensor.rs
index d5ba5b9..ce3903f 100644
--- a/prima_undine/src/tensor.rs
+++ b/prima_undine/src/tensor.rs
@@ -89,6 +89,10 @@ impl<'dev> Tensor<'dev> {
         self.device.unwrap()
     }
 
+    pub(crate) fn is_on(&self, device: &Device) -> bool {
+        self.valid() && self.device == Some(device)
+    }
+
     pub(crate) fn has_same_device(&self, other: &Tensor) -> bool {
         self.device == other.device
     }
-- 
2.43.0


From 6fd96b93b8386c8bff2a430f05fbedaf5dfde2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:45 +0000
Subject: [PATCH 27/32] fix: an update with a parameter that cannot be updated
 changed the others before it failed

---
 prima_undine/src/optimizer.rs               | 9 +++++++++
 prima_undine/src/optimizers/adam.rs         | 4 ++++
 prima_undine/src/optimizers/momentum_sgd.rs | 4 ++++
 3 files changed, 17 insertions(+)

diff --git a/prima_undine/src/optimizer.rs b/prima_undine/src/optimizer.rs
index 73a644a..110bef2 100644
--- a/prima_undine/src/optimizer.rs
+++ b/prima_undine/src/optimizer.rs
@@ -14,12 +14,21 @@ pub trait OptimizerBase {
 pub trait Optimizer: OptimizerBase {
     fn configure_parameter(&self, parameter: &mut Parameter);
     fn update_parameter(&self, scale: f32, parameter: &mut Parameter);
+    /// Whether the parameter has the statistics that `update_parameter` needs.
+    fn is_configured(&self, _parameter: &Parameter) -> bool {
+        true
+    }
     fn configure_parameters(&self, parameters: &mut [&mut Parameter]) {
         for param in parameters {
             self.configure_parameter(param);
         }
     }
     fn update_parameters(&mut self, parameters: &mut [&mut Parameter]) {
+        // Refuses before anything is changed.
+        for param in parameters.iter() {
+            assert!(param.value.valid() && param.gradient.valid());
+            assert!(self.is_configured(param));
+        }
         let l2_strength = self.get_weight_decay();
         if l2_strength > 0. {
             for param in parameters.iter_mut() {
diff --git a/prima_undine/src/optimizers/adam.rs b/prima_undine/src/optimizers/adam.rs
index 78f4f77..933691b 100644
--- a/prima_undine/src/optimizers/adam.rs
+++ b/prima_undine/src/optimizers/adam.rs
@@ -13,6 +13,10 @@ impl Optimizer for Adam {
         }
     }
 
+    fn is_configured(&self, parameter: &Parameter) -> bool {
+        parameter.has_stat("Adam.m1") && parameter.has_stat("Adam.m2")
+    }
+
     fn update_parameter(&self, scale: f32, parameter: &mut Parameter) {
         let epoch = (self.epoch + 1) as f32;
         let g = &parameter.gradient;
diff --git a/prima_undine/src/optimizers/momentum_sgd.rs b/prima_undine/src/optimizers/momentum_sgd.rs
index bb77720..9a09c8b 100644
--- a/prima_undine/src/optimizers/momentum_sgd.rs
+++ b/prima_undine/src/optimizers/momentum_sgd.rs
@@ -9,6 +9,10 @@ impl Optimizer for MomentumSGD {
         }
     }
 
+    fn is_configured(&self, parameter: &Parameter) -> bool {
+        parameter.has_stat("MomentumSGD.m")
+    }
+
     fn update_parameter(&self, scale: f32, parameter: &mut Parameter) {
         let mdiff = (scale * self.eta) * &parameter.gradient;
         let mut m = parameter.stats["MomentumSGD.m"].borrow_mut();
-- 
2.43.0


From 6fd1d68479aacd34a7a4e4d3501a0f028e03d0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:11 +0000
Subject: [PATCH 28/32] fix: concatenations whose size overflows were accepted
 without overflow checks

---
 prima_undine/src/shape_ops.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prima_undine/src/shape_ops.rs b/prima_undine/src/shape_ops.rs
index a2ffced..840522a 100644
--- a/prima_undine/src/shape_ops.rs
+++ b/prima_undine/src/shape_ops.rs
@@ -53,7 +53,7 @@ pub fn concat(xs: &[Shape], dim: u32) -> Shape {
         if !s0.has_batch() {
             s0.update_batch(s.batch());
         }
-        sum += s[dim];
+        sum = sum.checked_add(s[dim]).expect("shape is too large");
     }
     s0.resize_dim(dim, sum)
 }
@@ -80,7 +80,7 @@ pub fn batch_concat(xs: &[Shape]) -> Shape {
     for i in 1..xs.len() {
         let s = xs[i];
         assert!(s0.has_same_dims(s));
-        sum += s.batch();
+        sum = sum.checked_add(s.batch()).expect("shape is too large");
     }
     s0.resize_batch(sum)
 }
-- 
2.43.0


From 1fc5e361d11466fa7f3950d4cd2bbc29c4e91fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:11 +0000
Subject: [PATCH 29/32] fix: triangles far off the diagonal overflowed the
 index arithmetic

---
 prima_undine/src/devices/naive/triangular_l.rs | 2 +-
 prima_undine/src/devices/naive/triangular_u.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/prima_undine/src/devices/naive/triangular_l.rs b/prima_undine/src/devices/naive/triangular_l.rs
index ad7d0e5..c3cd93d 100644
--- a/prima_undine/src/devices/naive/triangular_l.rs
+++ b/prima_undine/src/devices/naive/triangular_l.rs
@@ -17,7 +17,7 @@ impl FunctionFwImpl for TriangularLFwImpl {
             for _ in 0..bs {
                 for j in 0..size {
                     for i in 0..size {
-                        *py.add(p) = if i >= j + k { *px.add(p) } else { 0. };
+                        *py.add(p) = if i >= j.saturating_add(k) { *px.add(p) } else { 0. };
                         p += 1;
                     }
                 }
diff --git a/prima_undine/src/devices/naive/triangular_u.rs b/prima_undine/src/devices/naive/triangular_u.rs
index ba5ad0f..77e1aba 100644
--- a/prima_undine/src/devices/naive/triangular_u.rs
+++ b/prima_undine/src/devices/naive/triangular_u.rs
@@ -17,7 +17,7 @@ impl FunctionFwImpl for TriangularUFwImpl {
             for _ in 0..bs {
                 for j in 0..size {
                     for i in 0..size {
-                        *py.add(p) = if j >= i + k { *px.add(p) } else { 0. };
+                        *py.add(p) = if j >= i.saturating_add(k) { *px.add(p) } else { 0. };
                         p += 1;
                     }
                 }
-- 
2.43.0


From e92abbe0474b2ddb2271fd5d4fdbc0784315ec16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:29 +0000
Subject: [PATCH 30/32] fix: gradients of powers were not a number where the
 base is zero

---
 prima_undine/src/devices/naive/powf.rs | 23 ++++++++++++++++----
 prima_undine/src/devices/naive/powi.rs |  3 +++
 prima_undine/src/operators/powf.rs     | 30 ++++++++++++++++++--------
 3 files changed, 43 insertions(+), 13 deletions(-)

diff --git a/prima_undine/src/devices/naive/powf.rs b/prima_undine/src/devices/naive/powf.rs
index e6a811e..26f5d50 100644
--- a/prima_undine/src/devices/naive/powf.rs
+++ b/prima_undine/src/devices/naive/powf.rs
@@ -28,7 +28,11 @@ impl FunctionBwImpl for PowfBwAImpl {
             let mut pga = mut_ptr!(ga);
             for _ in 0..gy.shape.batch() {
                 for i in 0..volume {
-                    *pga.add(i) += *pgy.add(i) * *pb.add(i) * (*pa.add(i)).powf(*pb.add(i) - 1.);
+                    // A zero exponent contributes nothing, whatever the base is.
+                    if *pb.add(i) != 0. {
+                        *pga.add(i) +=
+                            *pgy.add(i) * *pb.add(i) * (*pa.add(i)).powf(*pb.add(i) - 1.);
+                    }
                 }
                 pa = pa.add(a_shift);
                 pb = pb.add(b_shift);
@@ -64,7 +68,10 @@ impl FunctionBwImpl for PowfBwBImpl {
             let mut pgb = mut_ptr!(gb);
             for _ in 0..y.shape.batch() {
                 for i in 0..volume {
-                    *pgb.add(i) += *pgy.add(i) * (*pa.add(i)).ln() * *py.add(i);
+                    // A power that is zero stays zero, although the logarithm is infinite.
+                    if *py.add(i) != 0. {
+                        *pgb.add(i) += *pgy.add(i) * (*pa.add(i)).ln() * *py.add(i);
+                    }
                 }
                 pa = pa.add(a_shift);
                 py = py.add(volume);
@@ -77,11 +84,19 @@ impl FunctionBwImpl for PowfBwBImpl {
 
 define_naive_fw_const_impl!(PowfConstLFwImpl, |x: f32, k: f32| { k.powf(x) });
 define_naive_bw_const_impl!(PowfConstLBwImpl, |_x: f32, y: f32, gy: f32, k: f32| {
-    gy * k.ln() * y
+    if y == 0. {
+        0.
+    } else {
+        gy * k.ln() * y
+    }
 });
 define_naive_fw_const_impl!(PowfConstRFwImpl, |x: f32, k: f32| { x.powf(k) });
 define_naive_bw_const_impl!(PowfConstRBwImpl, |x: f32, _y: f32, gy: f32, k: f32| {
-    gy * k * x.powf(k - 1.)
+    if k == 0. {
+        0.
+    } else {
+        gy * k * x.powf(k - 1.)
+    }
 });
 define_naive_fw_scalar_impl!(PowfScalarLFwImpl, |x: f32, k: f32| { k.powf(x) });
 define_naive_fw_scalar_impl!(PowfScalarRFwImpl, |x: f32, k: f32| { x.powf(k) });
diff --git a/prima_undine/src/devices/naive/powi.rs b/prima_undine/src/devices/naive/powi.rs
index 20f801c..5da969f 100644
--- a/prima_undine/src/devices/naive/powi.rs
+++ b/prima_undine/src/devices/naive/powi.rs
@@ -32,6 +32,9 @@ impl FunctionBwImpl for PowiBwImpl {
         let x = xs[0];
         let gy = gys[0];
         let n = u32data[0] as i32;
+        if n == 0 {
+            return;
+        }
         let size = gy.shape.size() as usize;
         unsafe {
             let px = const_ptr!(x);
diff --git a/prima_undine/src/operators/powf.rs b/prima_undine/src/operators/powf.rs
index 0a0d12d..443f58a 100644
--- a/prima_undine/src/operators/powf.rs
+++ b/prima_undine/src/operators/powf.rs
@@ -1,7 +1,7 @@
 use std::cell::RefCell;
 
 use crate::functions::{BasicDeviceFunctions, BasicFunctions};
-use crate::{Device, Tensor};
+use crate::{Device, Shape, Tensor};
 
 define_operator_ab!(
     Pow,
@@ -19,10 +19,12 @@ define_operator_ab!(
     PowScalarL,
     powf_scalar_l_fw,
     scalar_op,
-    |_device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
-        let a = gy[0] * y[0];
-        *gx[0].borrow_mut() += &a * x[1].ln();
-        *gx[1].borrow_mut() += (a * x[0] / x[1]).flatten().sum(0);
+    |device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
+        let k = extend_scalar(x[1], x[0].shape());
+        let mut gk = device.new_tensor_by_constant(k.shape(), 0.);
+        device.powf_bw_a(&k, x[0], y[0], gy[0], &mut gk);
+        device.powf_bw_b(&k, x[0], y[0], gy[0], &mut *gx[0].borrow_mut());
+        *gx[1].borrow_mut() += gk.flatten().sum(0);
     }
 );
 
@@ -30,9 +32,19 @@ define_operator_ab!(
     PowScalarR,
     powf_scalar_r_fw,
     scalar_op,
-    |_device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
-        let a = gy[0] * y[0];
-        *gx[0].borrow_mut() += &a * x[1] / x[0];
-        *gx[1].borrow_mut() += (a * x[0].ln()).flatten().sum(0);
+    |device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
+        let k = extend_scalar(x[1], x[0].shape());
+        let mut gk = device.new_tensor_by_constant(k.shape(), 0.);
+        device.powf_bw_a(x[0], &k, y[0], gy[0], &mut *gx[0].borrow_mut());
+        device.powf_bw_b(x[0], &k, y[0], gy[0], &mut gk);
+        *gx[1].borrow_mut() += gk.flatten().sum(0);
     }
 );
+
+fn extend_scalar<'a>(k: &Tensor<'a>, shape: Shape) -> Tensor<'a> {
+    let mut ret = k.device().copy_tensor(k);
+    for (dim, &size) in shape.dims().iter().enumerate() {
+        ret = ret.broadcast(dim as u32, size);
+    }
+    ret
+}
-- 
2.43.0


From dffa2a17a5d067aab9c44e72e1612d9ef207b585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:08 +0000
Subject: [PATCH 31/32] fix: log-sum-exp of two equal infinite elements was not
 a number

---
 prima_undine/src/devices/naive/logsumexp.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/prima_undine/src/devices/naive/logsumexp.rs b/prima_undine/src/devices/naive/logsumexp.rs
index 8b9580c..d08d08e 100644
--- a/prima_undine/src/devices/naive/logsumexp.rs
+++ b/prima_undine/src/devices/naive/logsumexp.rs
@@ -1,3 +1,5 @@
+use std::f64;
+
 use crate::device_impl::FunctionFwImpl;
 use crate::Tensor;
 
@@ -20,7 +22,10 @@ impl FunctionFwImpl for LogsumexpFwImpl {
                 for _ in 1..n {
                     offset += skip1;
                     let arg = *src.add(offset) as f64;
-                    tmp = if tmp > arg {
+                    tmp = if tmp == arg {
+                        // Also where both are infinite.
+                        tmp + f64::consts::LN_2
+                    } else if tmp > arg {
                         tmp + (1. + (arg - tmp).exp()).ln()
                     } else {
                         arg + (1. + (tmp - arg).exp()).ln()
-- 
2.43.0


From bb8a647e19d90bd4f07297be9b5a23d7bfece528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:08 +0000
Subject: [PATCH 32/32] fix: softplus of negative infinity was not a number

---
 prima_undine/src/devices/naive/softplus.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/prima_undine/src/devices/naive/softplus.rs b/prima_undine/src/devices/naive/softplus.rs
index d962f23..647a357 100644
--- a/prima_undine/src/devices/naive/softplus.rs
+++ b/prima_undine/src/devices/naive/softplus.rs
@@ -1,5 +1,4 @@
-define_naive_fw_x_impl!(SoftplusFwImpl, |x: f32| (1. + (-x.abs()).exp()).ln()
-    + (x > 0.) as u32 as f32 * x);
+define_naive_fw_x_impl!(SoftplusFwImpl, |x: f32| (1. + (-x.abs()).exp()).ln() + x.max(0.));
 
 #[cfg(test)]
 mod tests {
-- 
2.43.0


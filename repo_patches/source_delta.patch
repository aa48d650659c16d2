From 2db166efc1fda706bad31e5517b7f2048f840208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:48 +0000
Subject: [PATCH 01/14] fix: predict works after training and raises TensorErr
 before it

---
 tensorD/factorization/cp.py      | 2 +-
 tensorD/factorization/ncp.py     | 2 +-
 tensorD/factorization/ntucker.py | 2 +-
 tensorD/factorization/tucker.py  | 4 ++++
 4 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/tensorD/factorization/cp.py b/tensorD/factorization/cp.py
index 6d58305..54b2500 100644
--- a/tensorD/factorization/cp.py
+++ b/tensorD/factorization/cp.py
@@ -44,7 +44,7 @@ class CP_ALS(BaseFact):
         self._rel_res_op = None
 
     def predict(self, *key):
-        if not self._full_tensor:
+        if self._full_tensor is None:
             raise TensorErr('improper stage to call predict before the model is trained')
         return self._full_tensor.item(key)
 
diff --git a/tensorD/factorization/ncp.py b/tensorD/factorization/ncp.py
index f67095e..70cc8cc 100644
--- a/tensorD/factorization/ncp.py
+++ b/tensorD/factorization/ncp.py
@@ -41,7 +41,7 @@ class NCP_BCU(BaseFact):
         self._is_train_finish = False
 
     def predict(self, *key):
-        if not self._full_tensor:
+        if self._full_tensor is None:
             raise TensorErr('improper stage to call predict before the model is trained')
         return self._full_tensor.item(key)
 
diff --git a/tensorD/factorization/ntucker.py b/tensorD/factorization/ntucker.py
index 00d3548..09ec454 100644
--- a/tensorD/factorization/ntucker.py
+++ b/tensorD/factorization/ntucker.py
@@ -42,7 +42,7 @@ class NTUCKER_BCU(BaseFact):
         self._is_train_finish = False
 
     def predict(self, *key):
-        if not self._full_tensor:
+        if self._full_tensor is None:
             raise TensorErr('improper stage to call predict before the model is trained')
         return self._full_tensor.item(key)
 
diff --git a/tensorD/factorization/tucker.py b/tensorD/factorization/tucker.py
index 3d2a49a..7a14333 100644
--- a/tensorD/factorization/tucker.py
+++ b/tensorD/factorization/tucker.py
@@ -85,6 +85,8 @@ class HOSVD(BaseFact):
         self._is_train_finish = True
 
     def predict(self, *key):
+        if self._full_tensor is None:
+            raise TensorErr('improper stage to call predict before the model is trained')
         return self._full_tensor.item(key)
 
     @property
@@ -190,6 +192,8 @@ class HOOI(BaseFact):
         return self._full_tensor
 
     def predict(self, *key):
+        if self._full_tensor is None:
+            raise TensorErr('improper stage to call predict before the model is trained')
         return self._full_tensor.item(key)
 
     @property
-- 
2.43.0


From 2911cc8d92ca7dd379f3f341ed38fa49a333adad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:25 +0000
Subject: [PATCH 02/14] fix: DTensor.unfold honours the mode on every call

---
 tensorD/base/type.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tensorD/base/type.py b/tensorD/base/type.py
index 155403d..c7f57c0 100644
--- a/tensorD/base/type.py
+++ b/tensorD/base/type.py
@@ -48,8 +48,7 @@ class DTensor(object):
         return DTensor(ops.mul(self.T, tensor.T, a_axis, b_axis))
 
     def unfold(self, mode=0):
-        if self.unfold_T is None:
-            self.unfold_T = ops.unfold(self.T, mode)
+        self.unfold_T = ops.unfold(self.T, mode)
         return DTensor(self.unfold_T)
 
     def t2mat(self, r_axis, c_axis):
-- 
2.43.0


From 489ba25dc002b69e8ceaa61024a692f709b52418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:25 +0000
Subject: [PATCH 03/14] fix: KTensor lambdas take the dtype of the factors

---
 tensorD/base/type.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensorD/base/type.py b/tensorD/base/type.py
index c7f57c0..0fa3dca 100644
--- a/tensorD/base/type.py
+++ b/tensorD/base/type.py
@@ -139,10 +139,10 @@ class KTensor(object):
         # Note that the shape of lambdas must be (x, 1).
         # The dimension of "1" should not be ignored!!
         if lambdas is None:
-            self.lambdas = tf.ones((self.U[0].get_shape()[1].value, 1), dtype=tf.float32)
+            self.lambdas = tf.ones((self.U[0].get_shape()[1].value, 1), dtype=self.U[0].dtype.base_dtype)
         else:
             if isinstance(lambdas, np.ndarray):
-                self.lambdas = tf.constant(lambdas)
+                self.lambdas = tf.constant(lambdas, dtype=self.U[0].dtype.base_dtype)
             else:
                 self.lambdas = lambdas
             if self.lambdas.get_shape().ndims == 1:
-- 
2.43.0


From c1c126218028fbfaefedcd6f91cf314a055d56c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:25 +0000
Subject: [PATCH 04/14] fix: t2mat accepts tuples and leaves the caller's axis
 list alone

---
 tensorD/base/ops.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tensorD/base/ops.py b/tensorD/base/ops.py
index 1e22183..b76aa62 100644
--- a/tensorD/base/ops.py
+++ b/tensorD/base/ops.py
@@ -151,15 +151,15 @@ def t2mat(tensor, r_axis, c_axis):
             indies = [r_axis]
             row_size = tensor.get_shape()[r_axis].value
         else:
-            indies = r_axis
+            indies = list(r_axis)
             row_size = np.prod([tensor.get_shape()[i].value for i in r_axis])
         if c_axis == -1:
             c_axis = [_ for _ in range(tensor.get_shape().ndims) if _ not in indies]
         if isinstance(c_axis, int):
-            indies.append(c_axis)
+            indies = indies + [c_axis]
             col_size = tensor.get_shape()[c_axis].value
         else:
-            indies = indies + c_axis
+            indies = indies + list(c_axis)
             col_size = np.prod([tensor.get_shape()[i].value for i in c_axis])
         return tf.reshape(tf.transpose(tensor, indies), (int(row_size), int(col_size)))
 
-- 
2.43.0


From 1ffecaf40090060c804db8a748b5503949fbfb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:43 +0000
Subject: [PATCH 05/14] fix: the full tensor stays in step with the factors
 when training stops early

---
 tensorD/factorization/cp.py      | 4 ++--
 tensorD/factorization/ncp.py     | 4 ++--
 tensorD/factorization/ntucker.py | 4 ++--
 tensorD/factorization/tucker.py  | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/tensorD/factorization/cp.py b/tensorD/factorization/cp.py
index 54b2500..84b76f3 100644
--- a/tensorD/factorization/cp.py
+++ b/tensorD/factorization/cp.py
@@ -155,8 +155,8 @@ class CP_ALS(BaseFact):
                 sum_writer.add_summary(sum_msg, step)
                 print('step=%d, RMSE=%.10f, relerr=%.10f' % (step, loss_v, rel_res))
             else:
-                self._factors, self._lambdas, loss_v, obj, rel_res = sess.run([factor_update_op, lambda_op, loss_op, obj_op, rel_res_op],
-                                                                feed_dict=self._feed_dict)
+                self._factors, self._lambdas, self._full_tensor, loss_v, obj, rel_res = sess.run(
+                    [factor_update_op, lambda_op, full_op, loss_op, obj_op, rel_res_op], feed_dict=self._feed_dict)
             hist.append([loss_v, rel_res])
             if step == 1:
                 obj0 = obj + 1
diff --git a/tensorD/factorization/ncp.py b/tensorD/factorization/ncp.py
index 70cc8cc..5140844 100644
--- a/tensorD/factorization/ncp.py
+++ b/tensorD/factorization/ncp.py
@@ -207,8 +207,8 @@ class NCP_BCU(BaseFact):
                 sum_writer.add_summary(sum_msg, step)
                 print('step=%d, RMSE=%.10f, relerr=%.10f' % (step, loss_v, rel_res))
             else:
-                self._factors, loss_v, rel_res, obj, _ = sess.run(
-                    [factor_update_op, loss_op, rel_res_op, obj_op, train_op], feed_dict=self._feed_dict)
+                self._factors, self._full_tensor, loss_v, rel_res, obj, _ = sess.run(
+                    [factor_update_op, full_op, loss_op, rel_res_op, obj_op, train_op], feed_dict=self._feed_dict)
 
             if step == 1:
                 obj0 = obj + 1
diff --git a/tensorD/factorization/ntucker.py b/tensorD/factorization/ntucker.py
index 09ec454..f66aac1 100644
--- a/tensorD/factorization/ntucker.py
+++ b/tensorD/factorization/ntucker.py
@@ -242,8 +242,8 @@ class NTUCKER_BCU(BaseFact):
                 sum_writer.add_summary(sum_msg, step)
                 print('step=%d, RMSE=%.10f, relerr=%.10f' % (step, loss_v, rel_res))
             else:
-                self._factors, loss_v, rel_res, obj, _ = sess.run(
-                    [factor_update_op, loss_op, rel_res_op, obj_op, train_op], feed_dict=self._feed_dict)
+                self._factors, self._full_tensor, loss_v, rel_res, obj, _ = sess.run(
+                    [factor_update_op, full_op, loss_op, rel_res_op, obj_op, train_op], feed_dict=self._feed_dict)
             hist.append([loss_v, rel_res])
             if step == 1:
                 obj0 = obj + 1
diff --git a/tensorD/factorization/tucker.py b/tensorD/factorization/tucker.py
index 7a14333..37d40cd 100644
--- a/tensorD/factorization/tucker.py
+++ b/tensorD/factorization/tucker.py
@@ -238,8 +238,8 @@ class HOOI(BaseFact):
                 sum_writer.add_summary(sum_msg, step)
                 print('step=%d, RMSE=%.10f, relerr=%.10f' % (step, loss_v, rel_res))
             else:
-                self._factors, self._core, loss_v, obj, rel_res = sess.run([factor_update_op, core_op, loss_op, obj_op, rel_res_op],
-                                                             feed_dict=self._feed_dict)
+                self._full_tensor, self._factors, self._core, loss_v, obj, rel_res = sess.run(
+                    [full_op, factor_update_op, core_op, loss_op, obj_op, rel_res_op], feed_dict=self._feed_dict)
             hist.append([loss_v, rel_res])
             if step == 1:
                 obj0 = obj + 1
-- 
2.43.0


From 9e023a11a5d62020e6f0534bc690f75fc5f80563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:43 +0000
Subject: [PATCH 06/14] fix: CP and HOOI compare the objective with the
 previous step

---
 tensorD/factorization/cp.py     | 1 +
 tensorD/factorization/tucker.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/tensorD/factorization/cp.py b/tensorD/factorization/cp.py
index 84b76f3..8b6f030 100644
--- a/tensorD/factorization/cp.py
+++ b/tensorD/factorization/cp.py
@@ -170,6 +170,7 @@ class CP_ALS(BaseFact):
                 nstall = 0
             if nstall >= 3 or relerr2 < args.tol:
                 break
+            obj0 = obj
 
 
         print('CP model train finish, in %d steps, with RMSE = %.10f' % (step, loss_v))
diff --git a/tensorD/factorization/tucker.py b/tensorD/factorization/tucker.py
index 37d40cd..2469f07 100644
--- a/tensorD/factorization/tucker.py
+++ b/tensorD/factorization/tucker.py
@@ -253,6 +253,7 @@ class HOOI(BaseFact):
                 nstall = 0
             if nstall >= 3 or relerr2 < args.tol:
                 break
+            obj0 = obj
 
         print('HOOI model train finish, in %d steps, with RMSE = %.10f' % (step, loss_v))
         self._is_train_finish = True
-- 
2.43.0


From 0fc7ead475402ed420dfc2f91871a28a39273043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:43 +0000
Subject: [PATCH 07/14] fix: HOOI and PITF are not finished while they train
 again

---
 tensorD/factorization/pitf.py   | 2 ++
 tensorD/factorization/tucker.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/tensorD/factorization/pitf.py b/tensorD/factorization/pitf.py
index 1273ce8..d13269b 100644
--- a/tensorD/factorization/pitf.py
+++ b/tensorD/factorization/pitf.py
@@ -113,6 +113,8 @@ class PITF(BaseFact):
         return self._is_train_finish
 
     def train(self, steps):
+        self._is_train_finish = False
+
         sess = self._env.sess
         args = self._args
         init_op = self._init_op
diff --git a/tensorD/factorization/tucker.py b/tensorD/factorization/tucker.py
index 2469f07..530123e 100644
--- a/tensorD/factorization/tucker.py
+++ b/tensorD/factorization/tucker.py
@@ -209,6 +209,8 @@ class HOOI(BaseFact):
         return self._is_train_finish
 
     def train(self, steps):
+        self._is_train_finish = False
+
         sess = self._env.sess
         args = self._args
 
-- 
2.43.0


From 0cf0c11745901322e8b16e65ea9dc58358c8272f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:55 +0000
Subject: [PATCH 08/14] fix: a model reports only its own summaries

---
 tensorD/factorization/cp.py      |  8 +++++---
 tensorD/factorization/ncp.py     |  8 +++++---
 tensorD/factorization/ntucker.py |  8 +++++---
 tensorD/factorization/pitf.py    |  8 +++++---
 tensorD/factorization/tucker.py  | 14 +++++++++-----
 5 files changed, 29 insertions(+), 17 deletions(-)

diff --git a/tensorD/factorization/cp.py b/tensorD/factorization/cp.py
index 8b6f030..b0ad5b7 100644
--- a/tensorD/factorization/cp.py
+++ b/tensorD/factorization/cp.py
@@ -40,6 +40,7 @@ class CP_ALS(BaseFact):
         self._full_op = None
         self._factor_update_op = None
         self._loss_op = None
+        self._sum_op = None
         self._obj_op = None
         self._rel_res_op = None
 
@@ -106,8 +107,8 @@ class CP_ALS(BaseFact):
         with tf.name_scope('objective-value') as scope:
             obj_op = 0.5 * tf.square(tf.norm(full_op - input_data))
 
-        tf.summary.scalar('loss', loss_op)
-        tf.summary.scalar('relative_residual', rel_res_op)
+        sum_op = tf.summary.merge([tf.summary.scalar('loss', loss_op),
+                                   tf.summary.scalar('relative_residual', rel_res_op)])
 
         init_op = tf.global_variables_initializer()
 
@@ -119,6 +120,7 @@ class CP_ALS(BaseFact):
         self._loss_op = loss_op
         self._obj_op = obj_op
         self._rel_res_op = rel_res_op
+        self._sum_op = sum_op
 
 
     def train(self, steps):
@@ -137,7 +139,7 @@ class CP_ALS(BaseFact):
         rel_res_op = self._rel_res_op
         hist = []
 
-        sum_op = tf.summary.merge_all()
+        sum_op = self._sum_op
         sum_writer = tf.summary.FileWriter(self._env.summary_path, sess.graph)
 
         sess.run(init_op, feed_dict=self._feed_dict)
diff --git a/tensorD/factorization/ncp.py b/tensorD/factorization/ncp.py
index 5140844..cbaf590 100644
--- a/tensorD/factorization/ncp.py
+++ b/tensorD/factorization/ncp.py
@@ -38,6 +38,7 @@ class NCP_BCU(BaseFact):
         self._factor_update_op = None
         self._full_op = None
         self._loss_op = None
+        self._sum_op = None
         self._is_train_finish = False
 
     def predict(self, *key):
@@ -152,8 +153,8 @@ class NCP_BCU(BaseFact):
             with tf.control_dependencies([Am_update_op1[order - 1]]):
                 t0_update_op1 = t0.assign(t)
 
-        tf.summary.scalar('loss', loss_op)
-        tf.summary.scalar('relative_residual', rel_res_op)
+        sum_op = tf.summary.merge([tf.summary.scalar('loss', loss_op),
+                                   tf.summary.scalar('relative_residual', rel_res_op)])
 
         init_op = tf.global_variables_initializer()
 
@@ -168,6 +169,7 @@ class NCP_BCU(BaseFact):
         self._loss_op = loss_op
         self._obj_op = obj_op
         self._rel_res_op = rel_res_op
+        self._sum_op = sum_op
 
     def train(self, steps):
         self._is_train_finish = False
@@ -187,7 +189,7 @@ class NCP_BCU(BaseFact):
         rel_res_op = self._rel_res_op
         hist = []
 
-        sum_op = tf.summary.merge_all()
+        sum_op = self._sum_op
         sum_writer = tf.summary.FileWriter(self._env.summary_path, sess.graph)
 
         sess.run(init_op, feed_dict=self._feed_dict)
diff --git a/tensorD/factorization/ntucker.py b/tensorD/factorization/ntucker.py
index f66aac1..85b2c6e 100644
--- a/tensorD/factorization/ntucker.py
+++ b/tensorD/factorization/ntucker.py
@@ -39,6 +39,7 @@ class NTUCKER_BCU(BaseFact):
         self._factor_update_op = None
         self._full_op = None
         self._loss_op = None
+        self._sum_op = None
         self._is_train_finish = False
 
     def predict(self, *key):
@@ -181,8 +182,8 @@ class NTUCKER_BCU(BaseFact):
         with tf.control_dependencies([Am_update_op1[order - 1]]):
             t0_update_op1 = t0.assign(t)
 
-        tf.summary.scalar('loss', loss_op)
-        tf.summary.scalar('relative_residual', rel_res_op)
+        sum_op = tf.summary.merge([tf.summary.scalar('loss', loss_op),
+                                   tf.summary.scalar('relative_residual', rel_res_op)])
 
         init_op = tf.global_variables_initializer()
 
@@ -200,6 +201,7 @@ class NTUCKER_BCU(BaseFact):
         self._loss_op = loss_op
         self._obj_op = obj_op
         self._rel_res_op = rel_res_op
+        self._sum_op = sum_op
 
     def train(self, steps):
         self._is_train_finish = False
@@ -221,7 +223,7 @@ class NTUCKER_BCU(BaseFact):
         rel_res_op = self._rel_res_op
         hist = []
 
-        sum_op = tf.summary.merge_all()
+        sum_op = self._sum_op
         sum_writer = tf.summary.FileWriter(self._env.summary_path, sess.graph)
 
         sess.run(init_op, feed_dict=self._feed_dict)
diff --git a/tensorD/factorization/pitf.py b/tensorD/factorization/pitf.py
index d13269b..93921d2 100644
--- a/tensorD/factorization/pitf.py
+++ b/tensorD/factorization/pitf.py
@@ -28,6 +28,7 @@ class PITF(BaseFact):
         self._sample_vector_update_op = None
         self._erate_op = None
         self._loss_op = None
+        self._sum_op = None
         self._e = None
         self._e1 = None
         self._e2 = None
@@ -92,14 +93,15 @@ class PITF(BaseFact):
             y_new = y + delt*e
             sample_vector_update_op = y.assign(y_new)
 
-        tf.summary.scalar('error rate', erate_op)
-        tf.summary.scalar('loss', loss_op)
+        sum_op = tf.summary.merge([tf.summary.scalar('error rate', erate_op),
+                                   tf.summary.scalar('loss', loss_op)])
 
         init_op = tf.global_variables_initializer()
 
         self._args = args
         self._erate_op = erate_op
         self._loss_op = loss_op
+        self._sum_op = sum_op
         self._sample_vector_update_op = sample_vector_update_op
         self._init_op = init_op
         self._e = e
@@ -125,7 +127,7 @@ class PITF(BaseFact):
         e1 = self._e1
         e2 = self._e2
 
-        sum_op = tf.summary.merge_all()
+        sum_op = self._sum_op
         sum_writer = tf.summary.FileWriter(self._env.summary_path, sess.graph)
         sess.run(init_op)
         print('PITF model initial finish')
diff --git a/tensorD/factorization/tucker.py b/tensorD/factorization/tucker.py
index 530123e..721d448 100644
--- a/tensorD/factorization/tucker.py
+++ b/tensorD/factorization/tucker.py
@@ -24,6 +24,7 @@ class HOSVD(BaseFact):
         self._init_op = None
         self._core_op = None
         self._factor_update_op = None
+        self._sum_op = None
         self._is_train_finish = False
 
     def build_model(self, args):
@@ -44,7 +45,7 @@ class HOSVD(BaseFact):
         with tf.name_scope('loss') as scope:
             loss_op = rmse_ignore_zero(input_data, full_op)
 
-        tf.summary.scalar('loss', loss_op)
+        sum_op = tf.summary.merge([tf.summary.scalar('loss', loss_op)])
 
         self._args = args
         self._init_op = init_op
@@ -52,6 +53,7 @@ class HOSVD(BaseFact):
         self._factor_update_op = A
         self._core_op = g
         self._loss_op = loss_op
+        self._sum_op = sum_op
 
     def train(self, steps=None):
         """
@@ -67,7 +69,7 @@ class HOSVD(BaseFact):
         self._is_train_finish = False
         sess = self._env.sess
 
-        sum_op = tf.summary.merge_all()
+        sum_op = self._sum_op
         sum_writer = tf.summary.FileWriter(self._env.summary_path, sess.graph)
 
         sess.run(self._init_op, feed_dict=self._feed_dict)
@@ -126,6 +128,7 @@ class HOOI(BaseFact):
         self._factor_update_op = None
         self._full_op = None
         self._loss_op = None
+        self._sum_op = None
         self._is_train_finish = False
 
     def build_model(self, args):
@@ -175,8 +178,8 @@ class HOOI(BaseFact):
             obj_op = 0.5 * tf.square(tf.norm(full_op - input_data))
 
 
-        tf.summary.scalar('loss', loss_op)
-        tf.summary.scalar('relative_residual', rel_res_op)
+        sum_op = tf.summary.merge([tf.summary.scalar('loss', loss_op),
+                                   tf.summary.scalar('relative_residual', rel_res_op)])
 
         self._args = args
         self._init_op = init_op
@@ -186,6 +189,7 @@ class HOOI(BaseFact):
         self._loss_op = loss_op
         self._obj_op = obj_op
         self._rel_res_op = rel_res_op
+        self._sum_op = sum_op
 
     @property
     def full(self):
@@ -223,7 +227,7 @@ class HOOI(BaseFact):
         rel_res_op = self._rel_res_op
         hist = []
 
-        sum_op = tf.summary.merge_all()
+        sum_op = self._sum_op
         sum_writer = tf.summary.FileWriter(self._env.summary_path, sess.graph)
 
         sess.run(init_op, feed_dict=self._feed_dict)
-- 
2.43.0


From edd8a2e9ed131e523910903cf1c8d75459186ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:55 +0000
Subject: [PATCH 09/14] fix: training closes its summary writer

---
 tensorD/factorization/cp.py      | 1 +
 tensorD/factorization/ncp.py     | 1 +
 tensorD/factorization/ntucker.py | 1 +
 tensorD/factorization/pitf.py    | 1 +
 tensorD/factorization/tucker.py  | 2 ++
 5 files changed, 6 insertions(+)

diff --git a/tensorD/factorization/cp.py b/tensorD/factorization/cp.py
index b0ad5b7..67dc771 100644
--- a/tensorD/factorization/cp.py
+++ b/tensorD/factorization/cp.py
@@ -175,6 +175,7 @@ class CP_ALS(BaseFact):
             obj0 = obj
 
 
+        sum_writer.close()
         print('CP model train finish, in %d steps, with RMSE = %.10f' % (step, loss_v))
         self._is_train_finish = True
         return hist
diff --git a/tensorD/factorization/ncp.py b/tensorD/factorization/ncp.py
index cbaf590..5cd1b8d 100644
--- a/tensorD/factorization/ncp.py
+++ b/tensorD/factorization/ncp.py
@@ -234,6 +234,7 @@ class NCP_BCU(BaseFact):
 
         self._lambdas = np.ones(shape=(1, args.rank))
 
+        sum_writer.close()
         print('Non-Negative CP model train finish, in %d steps, with RMSE = %.10f' % (step, loss_v))
         self._is_train_finish = True
         return hist
diff --git a/tensorD/factorization/ntucker.py b/tensorD/factorization/ntucker.py
index 85b2c6e..233a323 100644
--- a/tensorD/factorization/ntucker.py
+++ b/tensorD/factorization/ntucker.py
@@ -266,6 +266,7 @@ class NTUCKER_BCU(BaseFact):
             else:
                 sess.run(train_op2)
 
+        sum_writer.close()
         print('Non-Negative Tucker model train finish, in %d steps, with RMSE = %.10f' % (step, loss_v))
         self._is_train_finish = True
         return hist
diff --git a/tensorD/factorization/pitf.py b/tensorD/factorization/pitf.py
index 93921d2..bf42d7d 100644
--- a/tensorD/factorization/pitf.py
+++ b/tensorD/factorization/pitf.py
@@ -151,6 +151,7 @@ class PITF(BaseFact):
                 self._sample_vector = sess.run(sample_vector_update_op)
                 print('???')
 
+        sum_writer.close()
         print('tarin finish,with RMSE=%.15f error rate=%.15f' % (loss_v, erate_v))
         self._is_train_finish = True
         f1.close()
diff --git a/tensorD/factorization/tucker.py b/tensorD/factorization/tucker.py
index 721d448..6264c35 100644
--- a/tensorD/factorization/tucker.py
+++ b/tensorD/factorization/tucker.py
@@ -83,6 +83,7 @@ class HOSVD(BaseFact):
             [self._loss_op, self._full_op, self._factor_update_op, self._core_op, sum_op], feed_dict=self._feed_dict, options=run_options, run_metadata=run_metadata)
         sum_writer.add_run_metadata(run_metadata, 'step1')
         sum_writer.add_summary(sum_msg, 1)
+        sum_writer.close()
         print('HOSVD model train finish, with RMSE = %f' % loss_v)
         self._is_train_finish = True
 
@@ -261,6 +262,7 @@ class HOOI(BaseFact):
                 break
             obj0 = obj
 
+        sum_writer.close()
         print('HOOI model train finish, in %d steps, with RMSE = %.10f' % (step, loss_v))
         self._is_train_finish = True
         return hist
-- 
2.43.0


From 4d2979cf3e39bb2bf32b35a8322bd9732c8c214b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:00 +0000
Subject: [PATCH 10/14] fix: pitf shrink multiplies by the transpose of the
 right singular vectors

---
 tensorD/base/pitf_ops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensorD/base/pitf_ops.py b/tensorD/base/pitf_ops.py
index 6d3e7fa..8711b5e 100644
--- a/tensorD/base/pitf_ops.py
+++ b/tensorD/base/pitf_ops.py
@@ -650,14 +650,14 @@ def shrink(mat, tao, mode='normal'):
     # print('shrink s2d done.')
     if mode == 'normal':
         print('shrink normal')
-        return tf.matmul(tf.matmul(u, sm), v)
+        return tf.matmul(tf.matmul(u, sm), v, transpose_b=True)
 
     if mode == 'complicated':
         vecr1 = tf.ones((shape[0], 1))
         vecr2 = tf.ones((shape[1], 1))
         delta_num = tf.div(tf.matmul(tf.matmul(tf.transpose(vecr1), mat), vecr2), tf.sqrt(tf.cast(shape[0]*shape[1],
                                                                                       dtype=mat.dtype)), name='delta_num')
-        tmp1 = tf.matmul(tf.matmul(u, sm), v)
+        tmp1 = tf.matmul(tf.matmul(u, sm), v, transpose_b=True)
         tmp2 = (tf.maximum(tf.cast(0, dtype=mat.dtype), delta_num-tao)
                 +tf.minimum(tf.cast(0, dtype=mat.dtype), delta_num+tao))*tf.ones(shape)/tf.sqrt(tf.cast(shape[0]*shape[1],
                                                                                                       dtype=mat.dtype))
-- 
2.43.0


From 741ab46f3d13b68ec193cb2ba37630384b78c4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:00 +0000
Subject: [PATCH 11/14] fix: pitf adjoint_operator builds the third matrix

---
 tensorD/base/pitf_ops.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tensorD/base/pitf_ops.py b/tensorD/base/pitf_ops.py
index 8711b5e..01459a1 100644
--- a/tensorD/base/pitf_ops.py
+++ b/tensorD/base/pitf_ops.py
@@ -414,8 +414,7 @@ def adjoint_operator(spl, sample_vec, shape, sp_num, dim=None):
         indices = tf.cast(indices, dtype=tf.int64)
         values = tf.cast(values, dtype=sample_vec.dtype)
         shape_t = tf.cast(shape, dtype=tf.int64)
-        shape_t_re = shape_t[::-1]
-        mat_shape = shape_t_re[0:3:2]
+        mat_shape = tf.stack([shape_t[2], shape_t[0]])
         # tensor = tf.sparse_to_dense(indices, mat_shape, value)
         delta = tf.SparseTensor(indices, values, mat_shape)
         dense_mat = tf.sparse_tensor_to_dense(delta, validate_indices=False,  name='adjoint_s2d_3')
-- 
2.43.0


From f8086c9e22535673cbc017b46ebc1391df3782a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:00 +0000
Subject: [PATCH 12/14] fix: pitf adjoint_operator adds up samples that share
 an entry

---
 tensorD/base/pitf_ops.py       | 9 +++------
 tensorD/base/pitf_ops_numpy.py | 6 +++---
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/tensorD/base/pitf_ops.py b/tensorD/base/pitf_ops.py
index 01459a1..533baa6 100644
--- a/tensorD/base/pitf_ops.py
+++ b/tensorD/base/pitf_ops.py
@@ -391,8 +391,7 @@ def adjoint_operator(spl, sample_vec, shape, sp_num, dim=None):
         mat_shape = shape_t[0:2]
         # tensor = tf.sparse_to_dense(indices, mat_shape, value)
         # print('ready to convert')
-        delta = tf.SparseTensor(indices, values, mat_shape)
-        dense_mat = tf.sparse_tensor_to_dense(delta, validate_indices=False, name='adjoint_s2d_1')
+        dense_mat = tf.scatter_nd(indices, values, mat_shape, name='adjoint_s2d_1')
         # print('convert done.')
         # print('adjoint_operator 1')
         return mat_zero+dense_mat
@@ -404,8 +403,7 @@ def adjoint_operator(spl, sample_vec, shape, sp_num, dim=None):
         shape_t = tf.cast(shape, dtype=tf.int64)
         mat_shape = shape_t[1:3]
         # tensor = tf.sparse_to_dense(indices, mat_shape, value)
-        delta = tf.SparseTensor(indices, values, mat_shape)
-        dense_mat = tf.sparse_tensor_to_dense(delta, validate_indices=False,  name='adjoint_s2d_2')
+        dense_mat = tf.scatter_nd(indices, values, mat_shape, name='adjoint_s2d_2')
         print('adjoint_operator 2')
         return mat_zero+dense_mat
     elif dim == 2:
@@ -416,8 +414,7 @@ def adjoint_operator(spl, sample_vec, shape, sp_num, dim=None):
         shape_t = tf.cast(shape, dtype=tf.int64)
         mat_shape = tf.stack([shape_t[2], shape_t[0]])
         # tensor = tf.sparse_to_dense(indices, mat_shape, value)
-        delta = tf.SparseTensor(indices, values, mat_shape)
-        dense_mat = tf.sparse_tensor_to_dense(delta, validate_indices=False,  name='adjoint_s2d_3')
+        dense_mat = tf.scatter_nd(indices, values, mat_shape, name='adjoint_s2d_3')
         print('adjoint_operator 3')
         return mat_zero+dense_mat
     else:
diff --git a/tensorD/base/pitf_ops_numpy.py b/tensorD/base/pitf_ops_numpy.py
index 06ec8e5..ce789d9 100644
--- a/tensorD/base/pitf_ops_numpy.py
+++ b/tensorD/base/pitf_ops_numpy.py
@@ -101,19 +101,19 @@ def adjoint_operator(spl, sample_vec, tensor_shape,m ,dim=None):# sample_vec[i]?
         # sample_vec = Pomega_mat(a, b, c, mat, tensor_shape, m, 0)
         X = np.zeros((tensor_shape[0], tensor_shape[1]))
         for i in range(m):
-            X[spl[0][i]][spl[1][i]] = sample_vec[i]
+            X[spl[0][i]][spl[1][i]] += sample_vec[i]
         return X
     elif dim == 1:
         # sample_vec = Pomega_mat(a, b, c, mat, tensor_shape, m, 1)
         Y = np.zeros((tensor_shape[1], tensor_shape[2]))
         for i in range(m):
-            Y[spl[1][i]][spl[2][i]] = sample_vec[i]
+            Y[spl[1][i]][spl[2][i]] += sample_vec[i]
         return Y
     elif dim == 2:
         # sample_vec = Pomega_mat(a, b, c, mat, tensor_shape, m, 2)
         Z = np.zeros((tensor_shape[2], tensor_shape[0]))
         for i in range(m):
-            Z[spl[2][i]][spl[0][i]] = sample_vec[i]
+            Z[spl[2][i]][spl[0][i]] += sample_vec[i]
         return Z
     else:
         print('error')
-- 
2.43.0


From 6d50e8397bfd1023d090d376c6477633beb56a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:00 +0000
Subject: [PATCH 13/14] fix: PITF keeps one sample set for the whole training

---
 tensorD/factorization/pitf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensorD/factorization/pitf.py b/tensorD/factorization/pitf.py
index bf42d7d..475f351 100644
--- a/tensorD/factorization/pitf.py
+++ b/tensorD/factorization/pitf.py
@@ -46,7 +46,7 @@ class PITF(BaseFact):
                           name='tao')
         y = tf.Variable(np.zeros(spn), dtype=tensor.dtype, name='y_sample_vector')
         a, b, c = pitf_ops.sample3D_rule(shape, spn)  # sample list
-        spl = [a, b, c]
+        spl = [tf.Variable(idx, trainable=False) for idx in (a, b, c)]  # drawn once, by init_op
         # # degree pf freedom
         # fd = r*(shape[0]+shape[1]-r)+r*(shape[1]+shape[2]-r) + \
         #      r*(shape[2]+shape[0]-r)
-- 
2.43.0


From e36e8d524281a73e73023d53e94faa889e3cd352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:00 +0000
Subject: [PATCH 14/14] fix: TensorReader closes its file when reading fails

---
 tensorD/dataproc/reader.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/tensorD/dataproc/reader.py b/tensorD/dataproc/reader.py
index 43afc39..37965bb 100644
--- a/tensorD/dataproc/reader.py
+++ b/tensorD/dataproc/reader.py
@@ -30,15 +30,14 @@ class TensorReader(object):
         self._type = self._file_path.split('.')[-1]
 
     def read(self, full_shape=None):
-        file = open(self._file_path, 'r')
         str_in = []
         if self._type == 'csv' or self._type == 'txt':
-            for row in csv.reader(file):
-                if len(row) != 0:
-                    str_in.append(row)
+            with open(self._file_path, 'r') as file:
+                for row in csv.reader(file):
+                    if len(row) != 0:
+                        str_in.append(row)
         else:
             raise ArgumentError(self._type + ' file is not supported by TensorReader.')
-        file.close()
 
         order = len(str_in[0]) - 1
         entry_count = len(str_in)
-- 
2.43.0


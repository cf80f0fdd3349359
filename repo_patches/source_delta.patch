From d19f3360ed71ab71ee66767bef34bfbb58588b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:14 +0000
Subject: [PATCH 01/35] fix: IntegrateSys.state returns the current state

The property evaluated y_hist[0] but had no return statement, so it was
always None.
---
 ormatex_py/ode_sys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ormatex_py/ode_sys.py b/ormatex_py/ode_sys.py
index 7621263..7ebc3b2 100644
--- a/ormatex_py/ode_sys.py
+++ b/ormatex_py/ode_sys.py
@@ -588,4 +588,4 @@ class IntegrateSys(metaclass=ABCMeta):
         """
         current state
         """
-        self.y_hist[0]
+        return self.y_hist[0]
-- 
2.43.0


From a7eba0b8ca032ef8b010b0df0a4df9f52e550a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:14 +0000
Subject: [PATCH 02/35] fix: integrate_diffrax takes nsteps steps from t0

The final time was dt*nsteps regardless of t0, so a nonzero initial time
either failed or integrated over the wrong interval.
---
 ormatex_py/integrate_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ormatex_py/integrate_wrapper.py b/ormatex_py/integrate_wrapper.py
index 84e75d4..6eaf5af 100644
--- a/ormatex_py/integrate_wrapper.py
+++ b/ormatex_py/integrate_wrapper.py
@@ -150,7 +150,7 @@ def integrate_diffrax(ode_sys, y0, t0, dt, nsteps, method="implicit_euler", **kw
         solver = method_dict[method](root_finder=root_finder)
     except:
         solver = method_dict[method]()
-    tf = dt * nsteps
+    tf = t0 + dt * nsteps
     step_ctrl = diffrax.ConstantStepSize()
     res = diffrax.diffeqsolve(
             diffrax_ode_sys,
-- 
2.43.0


From 8fa2ccbbf93d06f29a7f647dc80d0683f4404552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:14 +0000
Subject: [PATCH 03/35] fix: FdJacLinOp matvec at the zero state

The perturbation size was scaled by the norm of the state, so at u=0 the
finite difference was 0/0 and the product was NaN.
---
 ormatex_py/ode_sys.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ormatex_py/ode_sys.py b/ormatex_py/ode_sys.py
index 7ebc3b2..7c56508 100644
--- a/ormatex_py/ode_sys.py
+++ b/ormatex_py/ode_sys.py
@@ -326,6 +326,8 @@ class FdJacLinOp(SysJacLinOp):
             v: target vector to apply linop to
         """
         u_norm_1 = jnp.linalg.norm(self._u, 1)
+        # the zero state has no magnitude to scale the perturbation with
+        u_norm_1 = jnp.where(u_norm_1 > 0., u_norm_1, 1.)
         scaled_eps = self._eps * u_norm_1
         ieps = self._scale / scaled_eps
         u_pert = self._u + scaled_eps*v
-- 
2.43.0


From 989d1ff36d0cc61f1649352dfcc21b224d27ef30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:14 +0000
Subject: [PATCH 04/35] fix: pass the before-step callback's result to every
 rhs evaluation

integrate() hands the result of callback_before_step to step() as
frhs_kwargs, but only the rhs evaluation at the start of the step received
it: the remainder stages of exprb3, epi3, pexprb4 and epi3_leja_im mixed
two different right hand sides, exprb2_dense and the split integrators
ignored it, and rk4 raised a TypeError.
---
 ormatex_py/ode_exp.py      | 84 +++++++++++++++++++-------------------
 ormatex_py/ode_explicit.py | 18 ++++----
 ormatex_py/ode_sys.py      |  4 +-
 3 files changed, 53 insertions(+), 53 deletions(-)

diff --git a/ormatex_py/ode_exp.py b/ormatex_py/ode_exp.py
index 9689a4e..0e98682 100644
--- a/ormatex_py/ode_exp.py
+++ b/ormatex_py/ode_exp.py
@@ -159,7 +159,7 @@ class ExpRBIntegrator(IntegrateSys):
         fytt = sys_jac_lop._fdt()
 
         # residual
-        rn = self._remf(tp, yp, fyt, sys_jac_lop, fytt)
+        rn = self._remf(tp, yp, fyt, sys_jac_lop, fytt, frhs_kwargs)
 
         # use kiops to save 1 calls to arnoldi
         vb0 = jnp.zeros(yt.shape)
@@ -197,7 +197,7 @@ class ExpRBIntegrator(IntegrateSys):
         y_2 = yt \
             + dt*phi_linop(sys_jac_lop, dt, fyt, 1, self.max_krylov_dim, self.iom) \
             + phi2_v
-        r_2 = self._remf(t_2, y_2, fyt, sys_jac_lop, v=v)
+        r_2 = self._remf(t_2, y_2, fyt, sys_jac_lop, v=v, frhs_kwargs=frhs_kwargs)
 
         # compute final update
         y_new = y_2 + 2.*dt*phi_linop(sys_jac_lop, dt, r_2, 3,
@@ -246,7 +246,7 @@ class ExpRBIntegrator(IntegrateSys):
             y_2 = yt \
                 + c_2*dt*phi_linop(sys_jac_lop, c_2*dt, fyt, 1, self.max_krylov_dim, self.iom) \
                 + phi2_v_2
-            r_2 = self._remf(t_2, y_2, fyt, sys_jac_lop, v=v_2)
+            r_2 = self._remf(t_2, y_2, fyt, sys_jac_lop, v=v_2, frhs_kwargs=frhs_kwargs)
             return r_2
 
         # compute U_{n3}
@@ -256,7 +256,7 @@ class ExpRBIntegrator(IntegrateSys):
             y_3 = yt \
                 + c_3*dt*phi_linop(sys_jac_lop, c_3*dt, fyt, 1, self.max_krylov_dim, self.iom) \
                 + phi2_v
-            r_3 = self._remf(t_3, y_3, fyt, sys_jac_lop, v=v)
+            r_3 = self._remf(t_3, y_3, fyt, sys_jac_lop, v=v, frhs_kwargs=frhs_kwargs)
             return y_3, r_3
 
         # with ThreadPoolExecutor(max_workers=2) as executor:
@@ -276,10 +276,10 @@ class ExpRBIntegrator(IntegrateSys):
         return StepResult(t+dt, dt, y_new, y_err)
 
     @jax.jit
-    def _step_exprb2_jit(t, yt, dt, sys):
+    def _step_exprb2_jit(t, yt, dt, sys, frhs_kwargs):
         print("jit-compiling exprb2_dense kernel")
 
-        sys_jac_lop = sys.fjac(t, yt)
+        sys_jac_lop = sys.fjac(t, yt, frhs_kwargs=frhs_kwargs)
         fyt = sys_jac_lop._frhs_cached()
         fytt = sys_jac_lop._fdt()
         J = sys_jac_lop.dense()
@@ -291,7 +291,7 @@ class ExpRBIntegrator(IntegrateSys):
         y_err = -1.
         return y_new, y_err
 
-    def _step_exprb2_dense(self, dt: float) -> StepResult:
+    def _step_exprb2_dense(self, dt: float, frhs_kwargs: dict) -> StepResult:
         r"""
         Exponential Euler,
         computes the solution update by:
@@ -300,7 +300,7 @@ class ExpRBIntegrator(IntegrateSys):
         t = self.t
         yt = self.y_hist[0]
 
-        y_new, y_err = ExpRBIntegrator._step_exprb2_jit(t, yt, dt, self.sys)
+        y_new, y_err = ExpRBIntegrator._step_exprb2_jit(t, yt, dt, self.sys, frhs_kwargs)
 
         return StepResult(t+dt, dt, y_new, y_err)
 
@@ -414,7 +414,7 @@ class ExpRBIntegrator(IntegrateSys):
             else:
                 return self._step_exprb3(dt, frhs_kwargs)
         elif self.method == "exprb2_dense":
-            return self._step_exprb2_dense(dt)
+            return self._step_exprb2_dense(dt, frhs_kwargs)
         elif self.method == "exprb2_pfd":
             return self._step_exprb2_pfd(dt, frhs_kwargs)
         elif self.method == "exp_pfd":
@@ -558,7 +558,7 @@ class ExpLejaIntegrator(IntegrateSys):
         elif order == 3:
             yp = self.y_hist[1] # y_{t-1}
             tp = self.t_hist[1]
-            rn = self._remf(tp, yp, fyt, sys_jac_lop, fytt)
+            rn = self._remf(tp, yp, fyt, sys_jac_lop, fytt, frhs_kwargs)
             a_tilde_lo, v, n = build_a_tilde(sys_jac_lop, dt, [vb0, dt*fyt, dt*(2./3.)*rn + dt**2*fytt])
         else:
             raise NotImplementedError
@@ -647,18 +647,18 @@ class ExpSplitIntegrator(IntegrateSys):
         self._cached_dt = None
 
     def _remf(self, tr: float, yr: jax.Array,
-              frhs_yt: jax.Array, sys_lop: LinOp):
+              frhs_yt: jax.Array, sys_lop: LinOp, frhs_kwargs: dict={}):
         """
         Computes remainder R(yr) = frhs(yr) - frhs(yt) - L*(yr-yt)
         """
         t = self.t_hist[0]
         yt = self.y_hist[0]
         dt = tr - t
-        frhs_yr = self.sys.frhs(tr, yr)
+        frhs_yr = self.sys.frhs(tr, yr, frhs_kwargs=frhs_kwargs)
         L_yd = sys_lop(yr - yt)
         return frhs_yr - frhs_yt - L_yd
 
-    def _step_exp1(self, dt: float) -> StepResult:
+    def _step_exp1(self, dt: float, frhs_kwargs: dict) -> StepResult:
         """
         Exponential Euler,
         computes the solution update by:
@@ -667,7 +667,7 @@ class ExpSplitIntegrator(IntegrateSys):
         t = self.t
         yt = self.y_hist[0]
         sys_lop = self.sys.fl(t, yt)
-        fyt = self.sys.frhs(t, yt)
+        fyt = self.sys.frhs(t, yt, frhs_kwargs=frhs_kwargs)
         fyt_dt = fyt * dt
         y_new = yt + phi_linop(
                 sys_lop, dt, fyt_dt, 1, self.max_krylov_dim, self.iom)
@@ -675,7 +675,7 @@ class ExpSplitIntegrator(IntegrateSys):
         y_err = -1.
         return StepResult(t+dt, dt, y_new, y_err)
 
-    def _step_exp2(self, dt: float) -> StepResult:
+    def _step_exp2(self, dt: float, frhs_kwargs: dict) -> StepResult:
         """
         Computes the solution update by:
         y_2 = y_t + c2*dt*\varphi_1(c2*dt*L_t)F(t, y_t)
@@ -686,7 +686,7 @@ class ExpSplitIntegrator(IntegrateSys):
         yt = self.y_hist[0]
 
         sys_lop = self.sys.fl(t, yt)
-        fyt = self.sys.frhs(t, yt)
+        fyt = self.sys.frhs(t, yt, frhs_kwargs=frhs_kwargs)
 
         c2 = 1. #constant between 0 and 1
 
@@ -694,7 +694,7 @@ class ExpSplitIntegrator(IntegrateSys):
         t_2 = t + c2*dt
         y_2 = yt + phi_linop(sys_lop, c2*dt, c2*dt*fyt, 1,
                              self.max_krylov_dim, self.iom)
-        r_2 = self._remf(t_2, y_2, fyt, sys_lop)
+        r_2 = self._remf(t_2, y_2, fyt, sys_lop, frhs_kwargs)
 
         # compute final update
         ## TODO: only valid for c2=1., otherwise reuse Krylov, or use KIOPS
@@ -706,7 +706,7 @@ class ExpSplitIntegrator(IntegrateSys):
 
         return StepResult(t+dt, dt, y_new, y_err)
 
-    def _step_exp3(self, dt: float) -> StepResult:
+    def _step_exp3(self, dt: float, frhs_kwargs: dict) -> StepResult:
         """
         Computes the solution update by:
         y_2 = y_t + c2*dt*\varphi_1(c2*dt*L_t)F(t, y_t)
@@ -717,7 +717,7 @@ class ExpSplitIntegrator(IntegrateSys):
         yt = self.y_hist[0]
 
         sys_lop = self.sys.fl(t, yt)
-        fyt = self.sys.frhs(t, yt)
+        fyt = self.sys.frhs(t, yt, frhs_kwargs=frhs_kwargs)
 
         c2 = 2./3. #constant between 0 and 1
 
@@ -725,14 +725,14 @@ class ExpSplitIntegrator(IntegrateSys):
         t_2 = t + c2*dt
         y_2 = yt + phi_linop(sys_lop, dt*c2, fyt*dt*c2, 1,
                              self.max_krylov_dim, self.iom)
-        r_2 = self._remf(t_2, y_2, fyt, sys_lop)
+        r_2 = self._remf(t_2, y_2, fyt, sys_lop, frhs_kwargs)
 
         # 3rd stage
         ## TODO: only valid for c2=2/3, otherwise reuse Krylov, or use KIOPS
         t_3 = t + (2./3.)*dt
         y_3 = y_2 + phi_linop(sys_lop, dt*(2./3.), r_2 * dt*(4./9./c2), 2,
                               self.max_krylov_dim, self.iom)
-        r_3 = self._remf(t_3, y_3, fyt, sys_lop)
+        r_3 = self._remf(t_3, y_3, fyt, sys_lop, frhs_kwargs)
 
         # compute final update
         y_new = yt \
@@ -764,15 +764,15 @@ class ExpSplitIntegrator(IntegrateSys):
         return self._cached_phiLs
 
     @jax.jit
-    def _step_exp1_jit(t, yt, dt, sys, phiLs):
+    def _step_exp1_jit(t, yt, dt, sys, phiLs, frhs_kwargs):
         print("jit-compiling exp1_dense kernel")
-        fyt = sys.frhs(t, yt)
+        fyt = sys.frhs(t, yt, frhs_kwargs=frhs_kwargs)
         y_new = yt + dt * phiLs[(1.,1)] @ fyt
         # no error est. avail
         y_err = -1.
         return y_new, y_err
 
-    def _step_exp1_dense(self, dt: float) -> StepResult:
+    def _step_exp1_dense(self, dt: float, frhs_kwargs: dict) -> StepResult:
         """
         Exponential Euler,
         computes the solution update by:
@@ -784,18 +784,18 @@ class ExpSplitIntegrator(IntegrateSys):
         cks = [(1.,[1])]
         phiLs = self._update_dense_phiLs(dt, cks)
 
-        y_new, y_err = ExpSplitIntegrator._step_exp1_jit(t, yt, dt, self.sys, phiLs)
+        y_new, y_err = ExpSplitIntegrator._step_exp1_jit(t, yt, dt, self.sys, phiLs, frhs_kwargs)
 
         return StepResult(t+dt, dt, y_new, y_err)
 
     @partial(jax.jit, static_argnames=('c2', ))
-    def _step_exp2_jit(t, yt, dt, sys, sys_lop, phiLs, c2):
+    def _step_exp2_jit(t, yt, dt, sys, sys_lop, phiLs, frhs_kwargs, c2):
         print("jit-compiling exp2_dense kernel")
-        fyt = sys.frhs(t, yt)
+        fyt = sys.frhs(t, yt, frhs_kwargs=frhs_kwargs)
         # 2nd stage
         t_2 = t + c2*dt
         y_2 = yt + c2*dt*phiLs[(c2,1)] @ fyt
-        r_2 = sys.frhs(t_2, y_2) - fyt - sys_lop(y_2 - yt)
+        r_2 = sys.frhs(t_2, y_2, frhs_kwargs=frhs_kwargs) - fyt - sys_lop(y_2 - yt)
 
         # compute final update
         y_new = yt + dt * (phiLs[(1.,1)] @ fyt + (1/c2) * phiLs[(1.,2)] @ r_2)
@@ -804,7 +804,7 @@ class ExpSplitIntegrator(IntegrateSys):
         y_err = -1.0
         return y_new, y_err
 
-    def _step_exp2_dense(self, dt: float) -> StepResult:
+    def _step_exp2_dense(self, dt: float, frhs_kwargs: dict) -> StepResult:
         """
         Computes the solution update by:
         y_2 = y_t + c2*dt*\varphi_1(c2*dt*L)F(t, y_t)
@@ -819,25 +819,25 @@ class ExpSplitIntegrator(IntegrateSys):
                (1., [1, 2])]
         phiLs = self._update_dense_phiLs(dt, cks)
 
-        y_new, y_err = ExpSplitIntegrator._step_exp2_jit(t, yt, dt, self.sys, self._cached_sys_lop, phiLs, c2)
+        y_new, y_err = ExpSplitIntegrator._step_exp2_jit(t, yt, dt, self.sys, self._cached_sys_lop, phiLs, frhs_kwargs, c2)
 
         return StepResult(t+dt, dt, y_new, y_err)
 
     @partial(jax.jit, static_argnames=('c2', 'c3'))
-    def _step_exp3_jit(t, yt, dt, sys, sys_lop, phiLs, c2, c3):
+    def _step_exp3_jit(t, yt, dt, sys, sys_lop, phiLs, frhs_kwargs, c2, c3):
         print("jit-compiling exp3_dense kernel")
 
-        fyt = sys.frhs(t, yt)
+        fyt = sys.frhs(t, yt, frhs_kwargs=frhs_kwargs)
 
         # 2nd stage
         t_2 = t + c2*dt
         y_2 = yt + c2*dt * phiLs[(c2,1)] @ fyt
-        r_2 = sys.frhs(t_2, y_2) - fyt - sys_lop(y_2 - yt)
+        r_2 = sys.frhs(t_2, y_2, frhs_kwargs=frhs_kwargs) - fyt - sys_lop(y_2 - yt)
 
         # 3rd stage
         t_3 = t + c3*dt
         y_3 = yt + c3*dt * (phiLs[(c3,1)] @ fyt + (2./3./c2) * phiLs[(c3,2)] @ r_2)
-        r_3 = sys.frhs(t_3, y_3) - fyt - sys_lop(y_3 - yt)
+        r_3 = sys.frhs(t_3, y_3, frhs_kwargs=frhs_kwargs) - fyt - sys_lop(y_3 - yt)
 
         # compute final update
         y_new = yt + dt * (phiLs[(1.,1)] @ fyt + (3./2.) * phiLs[(1.,2)] @ r_3)
@@ -847,7 +847,7 @@ class ExpSplitIntegrator(IntegrateSys):
 
         return y_new, y_err
 
-    def _step_exp3_dense(self, dt: float) -> StepResult:
+    def _step_exp3_dense(self, dt: float, frhs_kwargs: dict) -> StepResult:
         """
         Computes the solution update by:
         y_2 = y_t + c2*dt*\varphi_1(c2*dt*L)F(t, y_t)
@@ -864,23 +864,23 @@ class ExpSplitIntegrator(IntegrateSys):
                (1., [1, 2])]
         phiLs = self._update_dense_phiLs(dt, cks)
 
-        y_new, y_err = ExpSplitIntegrator._step_exp3_jit(t, yt, dt, self.sys, self._cached_sys_lop, phiLs, c2, c3)
+        y_new, y_err = ExpSplitIntegrator._step_exp3_jit(t, yt, dt, self.sys, self._cached_sys_lop, phiLs, frhs_kwargs, c2, c3)
 
         return StepResult(t+dt, dt, y_new, y_err)
 
     def step(self, dt: float, frhs_kwargs: dict={}) -> StepResult:
         if self.method == "exp1":
-            return self._step_exp1(dt)
+            return self._step_exp1(dt, frhs_kwargs)
         elif self.method == "exp2":
-            return self._step_exp2(dt)
+            return self._step_exp2(dt, frhs_kwargs)
         elif self.method == "exp3":
-            return self._step_exp3(dt)
+            return self._step_exp3(dt, frhs_kwargs)
         elif self.method == "exp1_dense":
-            return self._step_exp1_dense(dt)
+            return self._step_exp1_dense(dt, frhs_kwargs)
         elif self.method == "exp2_dense":
-            return self._step_exp2_dense(dt)
+            return self._step_exp2_dense(dt, frhs_kwargs)
         elif self.method == "exp3_dense":
-            return self._step_exp3_dense(dt)
+            return self._step_exp3_dense(dt, frhs_kwargs)
         else:
             raise NotImplementedError
 
diff --git a/ormatex_py/ode_explicit.py b/ormatex_py/ode_explicit.py
index 55e345d..46c359d 100644
--- a/ormatex_py/ode_explicit.py
+++ b/ormatex_py/ode_explicit.py
@@ -31,13 +31,13 @@ class RKIntegrator(IntegrateSys):
         super().__init__(sys, t0, y0, order, method, **kwargs)
 
     @jax.jit
-    def _step_rk4_jit(t, yt, dt, sys):
+    def _step_rk4_jit(t, yt, dt, sys, frhs_kwargs):
         print("jit-compiling rk4 kernel")
 
-        f1 = sys.frhs(t,      yt)
-        f2 = sys.frhs(t+dt/2, yt + f1*dt/2);
-        f3 = sys.frhs(t+dt/2, yt + f2*dt/2);
-        f4 = sys.frhs(t+dt,   yt + f3*dt);
+        f1 = sys.frhs(t,      yt, frhs_kwargs=frhs_kwargs)
+        f2 = sys.frhs(t+dt/2, yt + f1*dt/2, frhs_kwargs=frhs_kwargs);
+        f3 = sys.frhs(t+dt/2, yt + f2*dt/2, frhs_kwargs=frhs_kwargs);
+        f4 = sys.frhs(t+dt,   yt + f3*dt, frhs_kwargs=frhs_kwargs);
 
         y_new = yt + dt * (f1 + 2*f2 + 2*f3 + f4) / 6;
 
@@ -46,20 +46,20 @@ class RKIntegrator(IntegrateSys):
 
         return y_new, y_err
 
-    def _step_rk4(self, dt: float) -> StepResult:
+    def _step_rk4(self, dt: float, frhs_kwargs: dict) -> StepResult:
         """
         Computes the solution update by RK4
         """
         t = self.t
         yt = self.y_hist[0]
 
-        y_new, y_err = RKIntegrator._step_rk4_jit(t, yt, dt, self.sys)
+        y_new, y_err = RKIntegrator._step_rk4_jit(t, yt, dt, self.sys, frhs_kwargs)
 
         return StepResult(t+dt, dt, y_new, y_err)
 
-    def step(self, dt: float) -> StepResult:
+    def step(self, dt: float, frhs_kwargs: dict={}) -> StepResult:
         if self.method == "rk4":
-            return self._step_rk4(dt)
+            return self._step_rk4(dt, frhs_kwargs)
         else:
             raise NotImplementedError
 
diff --git a/ormatex_py/ode_sys.py b/ormatex_py/ode_sys.py
index 7c56508..b260430 100644
--- a/ormatex_py/ode_sys.py
+++ b/ormatex_py/ode_sys.py
@@ -566,7 +566,7 @@ class IntegrateSys(metaclass=ABCMeta):
         self.y_hist.appendleft(s.y)
 
     def _remf(self, tr: float, yr: jax.Array,
-              frhs_yt: jax.Array, sys_jac_lop_yt: LinOp, v=0.0):
+              frhs_yt: jax.Array, sys_jac_lop_yt: LinOp, v=0.0, frhs_kwargs: dict={}):
         """
         Computes remainder R(yr) = frhs(yr) - frhs(yt) - J_yt*(yr-yt) - v*(tr-t0)
         where v = d(frhs)/dt
@@ -574,7 +574,7 @@ class IntegrateSys(metaclass=ABCMeta):
         t = self.t_hist[0]
         yt = self.y_hist[0]
         dt = tr - t
-        frhs_yr = self.sys.frhs(tr, yr)
+        frhs_yr = self.sys.frhs(tr, yr, frhs_kwargs=frhs_kwargs)
         jac_yd = sys_jac_lop_yt(yr - yt)
         return frhs_yr - frhs_yt - jac_yd - v*dt
 
-- 
2.43.0


From 7f6d543ebc4d91398f95ff0588e3bb2eba98f1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:40 +0000
Subject: [PATCH 05/35] fix: SUPG stabilization parameter for zero and negative
 velocity

tau*h/(2*vel) is 0/0 without advection, even with tau=0, and is negative
for a negative velocity, where it removes instead of adds diffusion.
---
 ormatex_py/progression/advection_diffusion_1d.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ormatex_py/progression/advection_diffusion_1d.py b/ormatex_py/progression/advection_diffusion_1d.py
index ba8ac74..dd069b5 100644
--- a/ormatex_py/progression/advection_diffusion_1d.py
+++ b/ormatex_py/progression/advection_diffusion_1d.py
@@ -49,7 +49,9 @@ def tau_upwind_f(w):
     Computes the SUPG stabilization parameter using the standard
     upwind formulation.
     """
-    return w['tau'] * w.h[:] / (2 * vel_f(**w))
+    vel = np.abs(vel_f(**w))
+    # no advection, no upwinding
+    return w['tau'] * w.h[:] * np.where(vel > 0., 1., 0.) / (2 * np.where(vel > 0., vel, 1.))
 
 @fem.BilinearForm
 def adv_diff(u, v, w):
-- 
2.43.0


From 27fcabb57b4be8ae6a8a01287efdc1c4f6c82273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:19 +0000
Subject: [PATCH 06/35] fix: poles and residues of the higher order Pade
 fraction tables

The entries were only correct to between 13 (pade_8_8) and 8 (pade_16_16)
digits, which the residues, growing up to 1e9, amplify to an error of up
to 20 in exp(0). Recomputed in extended precision.
---
 ormatex_py/matexp_phi_pfd_dict.py | 384 +++++++++++++++---------------
 1 file changed, 192 insertions(+), 192 deletions(-)

diff --git a/ormatex_py/matexp_phi_pfd_dict.py b/ormatex_py/matexp_phi_pfd_dict.py
index 2469209..f5b8ff7 100644
--- a/ormatex_py/matexp_phi_pfd_dict.py
+++ b/ormatex_py/matexp_phi_pfd_dict.py
@@ -238,83 +238,83 @@ pfd_dict = {
    ],
   1.00000000000000e+00),
 'pade_8_8':
-([  5.67796789779517e+00-1.27078225972097e+01j,
-    8.73657843440534e+00-8.82888500094338e+00j,
-    1.04096815812732e+01-5.23235030528453e+00j,
-    1.11757720865264e+01-1.73522889070665e+00j,
+([  5.6779678977952610e+00-1.2707822597209754e+01j,
+    8.7365784344048052e+00-8.8288850009430782e+00j,
+    1.0409681581273764e+01-5.2323503052850553e+00j,
+    1.1175772086526170e+01-1.7352288907055728e+00j,
    ],
- [ -1.65193072545010e+02+2.19157995335285e+02j,
-    4.26599883763478e+03+2.19879464117052e+02j,
-   -1.46726502179705e+04-1.30835546536543e+04j,
-    1.06438444528869e+04+3.82471699398577e+04j,
+ [ -1.6519307254497079e+02+2.1915799533531236e+02j,
+    4.2659988376343790e+03+2.1987946411946459e+02j,
+   -1.4672650217972672e+04-1.3083554653648593e+04j,
+    1.0643844452883264e+04+3.8247169939871259e+04j,
    ],
   1.00000000000000e+00),
 'pade_10_10':
-([  6.21783246729821e+00-1.64653989181475e+01j,
-    9.77243913371641e+00-1.24499709649411e+01j,
-    1.19350566571826e+01-8.76989437788469e+00j,
-    1.32305819309422e+01-5.22313584161276e+00j,
-    1.38440898108606e+01-1.73533039087163e+00j,
-   ],
- [ -4.28439839038208e+00-5.11065755249477e+02j,
-   -1.13960793160596e+04+6.30112461260688e+03j,
-    9.41190589167495e+04+2.07599514175865e+04j,
-   -2.24510671286932e+05-2.30850608866744e+05j,
-    1.41901976088637e+05+5.53063875406852e+05j,
+([  6.2178324672981962e+00-1.6465398918147176e+01j,
+    9.7724391337179988e+00-1.2449970964943134e+01j,
+    1.1935056657175572e+01-8.7698943778838636e+00j,
+    1.3230581930953740e+01-5.2231358416001799e+00j,
+    1.3844089810854491e+01-1.7353303909024429e+00j,
+   ],
+ [ -4.2843983902640694e+00-5.1106575524959158e+02j,
+   -1.1396079316040399e+04+6.3011246126294564e+03j,
+    9.4119058916586931e+04+2.0759951417875505e+04j,
+   -2.2451067128964860e+05-2.3085060886644907e+05j,
+    1.4190197608749234e+05+5.5306387540452194e+05j,
    ],
   1.00000000000000e+00),
 'pade_12_12':
-([  6.68604661560532e+00-2.02485936144845e+01j,
-    1.06594171817355e+01-1.61058137284905e+01j,
-    1.32220085000048e+01-1.23430699861422e+01j,
-    1.49311424804760e+01-8.74033918662028e+00j,
-    1.59945411994928e+01-5.21813307392645e+00j,
-    1.65068440226856e+01-1.73538714406579e+00j,
-   ],
- [  5.46911825752485e+02+6.80360699243456e+02j,
-    1.61337734195801e+04-2.97018812916309e+04j,
-   -3.54728405043439e+05+1.07516699938843e+05j,
-    1.75603924662652e+06+5.77890603673691e+05j,
-   -3.34000394047559e+06-3.77334398690651e+06j,
-    1.92216841199923e+06+7.94549540651937e+06j,
+([  6.6860466156050666e+00-2.0248593614481639e+01j,
+    1.0659417181751659e+01-1.6105813728514065e+01j,
+    1.3222008499912704e+01-1.2343069986074459e+01j,
+    1.4931142480703540e+01-8.7403391867091305e+00j,
+    1.5994541199202869e+01-5.2181330738915968e+00j,
+    1.6506844022824161e+01-1.7353871440195376e+00j,
+   ],
+ [  5.4691182575163600e+02+6.8036069924681442e+02j,
+    1.6133773418468209e+04-2.9701881291782345e+04j,
+   -3.5472840506535175e+05+1.0751669990568272e+05j,
+    1.7560392466474785e+06+5.7789060329273518e+05j,
+   -3.3400039398810156e+06-3.7733439877526090e+06j,
+    1.9221684130546690e+06+7.9454954061207008e+06j,
    ],
   1.00000000000000e+00),
 'pade_14_14':
-([  7.10217376676230e+00-2.40514760645021e+01j,
-    1.14407047677263e+01-1.97894151950504e+01j,
-    1.43447919238103e+01-1.59464347083066e+01j,
-    1.63976939410561e+01-1.22860821422987e+01j,
-    1.78220011108849e+01-8.72320835790319e+00j,
-    1.87262917005815e+01-5.21510664988429e+00j,
-    1.91663427891784e+01-1.73542205224497e+00j,
-   ],
- [ -1.36924413898026e+03-2.94842073103237e+02j,
-    6.59319538601401e+03+7.79273680273329e+04j,
-    8.24845869117295e+05-8.75088260655082e+05j,
-   -8.28511843071903e+06+1.36992091801833e+06j,
-    3.00847033195425e+07+1.22338494631399e+07j,
-   -4.89377678468590e+07-5.91446531945041e+07j,
-    2.63083230322416e+07+1.13711667927895e+08j,
+([  7.1021737667612523e+00-2.4051476064509050e+01j,
+    1.1440704767655038e+01-1.9789415194978318e+01j,
+    1.4344791924343635e+01-1.5946434708369937e+01j,
+    1.6397693939976950e+01-1.2286082142941593e+01j,
+    1.7822001110750090e+01-8.7232083566048946e+00j,
+    1.8726291703219104e+01-5.2151066487633333e+00j,
+    1.9166342787293932e+01-1.7354220577285064e+00j,
+   ],
+ [ -1.3692441389723160e+03-2.9484207309257869e+02j,
+    6.5931953768994845e+03+7.7927368030201178e+04j,
+    8.2484586874635576e+05-8.7508826119423739e+05j,
+   -8.2851184283792526e+06+1.3699209099504172e+06j,
+    3.0084703342613041e+07+1.2233849446415409e+07j,
+   -4.8937767864689641e+07-5.9144653292303704e+07j,
+    2.6308323130471569e+07+1.1371166784887165e+08j,
    ],
   1.00000000000000e+00),
 'pade_16_16':
-([  7.47846359434389e+00-2.78700569516453e+01j,
-    1.21424827653080e+01-2.34957498768370e+01j,
-    1.53464815846813e+01-1.95753948759233e+01j,
-    1.76959363887348e+01-1.58575457183105e+01j,
-    1.94246526513030e+01-1.22515217728443e+01j,
-    2.06502392671595e+01-8.71232672952572e+00j,
-    2.14379715420598e+01-5.21313415919739e+00j,
-    2.18237722064098e+01-1.73544479521009e+00j,
-   ],
- [  1.90008725832969e+03-9.91098564053790e+02j,
-   -1.04343142558914e+05-1.28989202208025e+05j,
-   -7.60446708082224e+05+3.35225211392260e+06j,
-    2.55308244171525e+07-1.95447305410687e+07j,
-   -1.66999371998587e+08+1.24432648004869e+07j,
-    4.90194019013028e+08+2.28187105482266e+08j,
-   -7.10515108893301e+08-9.03571038487383e+08j,
-    3.62652953333272e+08+1.62341769071525e+09j,
+([  7.4784635943217452e+00-2.7870056951626765e+01j,
+    1.2142482765817400e+01-2.3495749876961778e+01j,
+    1.5346481581734320e+01-1.9575394876738137e+01j,
+    1.7695936393005571e+01-1.5857545711778743e+01j,
+    1.9424652665127006e+01-1.2251521782043534e+01j,
+    2.0650239204682926e+01-8.7123267612192166e+00j,
+    2.1437971637956029e+01-5.2131340145165792e+00j,
+    2.1823772157355005e+01-1.7354450548714409e+00j,
+   ],
+ [  1.9000872583470859e+03-9.9109856396971907e+02j,
+   -1.0434314265370999e+05-1.2898920219528225e+05j,
+   -7.6044671263805113e+05+3.3522521039718315e+06j,
+    2.5530824591479816e+07-1.9544730694394413e+07j,
+   -1.6699937069271564e+08+1.2443267177061960e+07j,
+    4.9019400340172857e+08+2.2818712025977644e+08j,
+   -7.1051516994616878e+08-9.0357104919201875e+08j,
+    3.6265287441370940e+08+1.6234176740168822e+09j,
    ],
   1.00000000000000e+00),
 
@@ -343,83 +343,83 @@ pfd_dict = {
    ],
   0.00000000000000e+00),
 'pade_7_8':
-([  4.68549463282126e+00-1.20105785998140e+01j,
-    7.73868814683028e+00-8.37087930623761e+00j,
-    9.40637121369067e+00-4.96921728762378e+00j,
-    1.01694460066578e+01-1.64920179682108e+00j,
+([  4.6854946328211966e+00-1.2010578599813790e+01j,
+    7.7386881468305484e+00-8.3708793062379829e+00j,
+    9.4063712136907398e+00-4.9692172876232936e+00j,
+    1.0169446006657514e+01-1.6492017968222277e+00j,
    ],
- [ -9.49411688907749e+01+2.54766624817857e+01j,
-    1.33486473746002e+03+7.02431010498788e+02j,
-   -3.84854441543743e+03-5.69031543380038e+03j,
-    2.61262084686885e+03+1.35490601474420e+04j,
+ [ -9.4941168890791303e+01+2.5476662481767772e+01j,
+    1.3348647374600173e+03+7.0243101049801373e+02j,
+   -3.8485444154374368e+03-5.6903154338043132e+03j,
+    2.6126208468682107e+03+1.3549060147438920e+04j,
    ],
   0.00000000000000e+00),
 'pade_9_10':
-([  5.22545336734417e+00-1.57295290456389e+01j,
-    8.77643464008579e+00-1.19218538983026e+01j,
-    1.09343034305864e+01-8.40967299600432e+00j,
-    1.22261314841869e+01-5.01271926366086e+00j,
-    1.28376770777968e+01-1.66606258419856e+00j,
-   ],
- [  1.18741401899989e+02-1.41303692321679e+02j,
-   -4.65536084639950e+03-1.90177301373340e+00j,
-    2.89165722700281e+04+1.81691851003442e+04j,
-   -6.12769997076806e+04-9.54085989073073e+04j,
-    3.69020468769566e+04+1.96990463528937e+05j,
+([  5.2254533673443611e+00-1.5729529045639259e+01j,
+    8.7764346400826092e+00-1.1921853898301213e+01j,
+    1.0934303430600009e+01-8.4096729960030920e+00j,
+    1.2226131484162151e+01-5.0127192636768640e+00j,
+    1.2837677077810870e+01-1.6660625841623014e+00j,
+   ],
+ [  1.1874140189989652e+02-1.4130369232172347e+02j,
+   -4.6553608463981736e+03-1.9017730305830138e+00j,
+    2.8916572270324232e+04+1.8169185100096442e+04j,
+   -6.1276999705851507e+04-9.5408598907324020e+04j,
+    3.6902046880025548e+04+1.9699046352900364e+05j,
    ],
   0.00000000000000e+00),
 'pade_11_12':
-([  5.69357760582991e+00-1.94846293682976e+01j,
-    9.66460291604750e+00-1.55269887259726e+01j,
-    1.22232279800981e+01-1.19133708538269e+01j,
-    1.39287203046700e+01-8.44249696597909e+00j,
-    1.49894720849745e+01-5.04267301327654e+00j,
-    1.55003991083799e+01-1.67740907543385e+00j,
-   ],
- [ -1.97704170847133e+01+3.16226175536364e+02j,
-    1.06011986654780e+04-5.99471349030070e+03j,
-   -1.31630215734835e+05-1.58024463608002e+04j,
-    5.40875915627455e+05+3.73470946067090e+05j,
-   -9.41733184605207e+05-1.51555073365930e+06j,
-    5.21912056860810e+05+2.84094757356084e+06j,
+([  5.6935776058304848e+00-1.9484629368297686e+01j,
+    9.6646029160387776e+00-1.5526988725976901e+01j,
+    1.2223227980126936e+01-1.1913370853790163e+01j,
+    1.3928720304651380e+01-8.4424969660733105e+00j,
+    1.4989472084936066e+01-5.0426730131941984e+00j,
+    1.5500399108416358e+01-1.6774090754267155e+00j,
+   ],
+ [ -1.9770417084490745e+01+3.1622617553652327e+02j,
+    1.0601198665406648e+04-5.9947134901648496e+03j,
+   -1.3163021574016684e+05-1.5802446359524667e+04j,
+    5.4087591559267475e+05+3.7347094605115167e+05j,
+   -9.4173318462160951e+05-1.5155507337393535e+06j,
+    5.2191205652077950e+05+2.8409475736952336e+06j,
    ],
   0.00000000000000e+00),
 'pade_13_14':
-([  6.10953706591465e+00-2.32659732506401e+01j,
-    1.04466532469207e+01-1.91718385658776e+01j,
-    1.33474860188306e+01-1.54639361326311e+01j,
-    1.53970406477107e+01-1.19224339985898e+01j,
-    1.68185419182397e+01-8.46894658249756e+00j,
-    1.77208535276966e+01-5.06457474988492e+00j,
-    1.81598875746869e+01-1.68556744377056e+00j,
-   ],
- [ -2.85701447048604e+02-4.22573770325228e+02j,
-   -1.39506796509646e+04+2.46549472535032e+04j,
-    4.07088889460134e+05-1.47454862119014e+05j,
-   -2.95428486119008e+06-5.61988919680626e+05j,
-    9.34405927211906e+06+6.84178627383522e+06j,
-   -1.41689554474545e+07-2.33291738715078e+07j,
-    7.38633554605862e+06+4.07747800108961e+07j,
+([  6.1095370659108257e+00-2.3265973250646894e+01j,
+    1.0446653246918093e+01-1.9171838565801362e+01j,
+    1.3347486018949645e+01-1.5463936132864211e+01j,
+    1.5397040647550467e+01-1.1922433998380844e+01j,
+    1.6818541917529050e+01-8.4689465826821113e+00j,
+    1.7720853529720298e+01-5.0645747484236088e+00j,
+    1.8159887573421621e+01-1.6855674473441327e+00j,
+   ],
+ [ -2.8570144704750516e+02-4.2257377031971964e+02j,
+   -1.3950679653727644e+04+2.4654947254365048e+04j,
+    4.0708888935434329e+05-1.4745486220113057e+05j,
+   -2.9542848615167881e+06-5.6198892083615554e+05j,
+    9.3440592733118702e+06+6.8417862739121541e+06j,
+   -1.4168955460488973e+07-2.3329173881152872e+07j,
+    7.3863355404403238e+06+4.0774780001204327e+07j,
    ],
   0.00000000000000e+00),
 'pade_15_16':
-([  6.48562832446504e+00-2.70674101802466e+01j,
-    1.11489235555244e+01-2.28473895034394e+01j,
-    1.43502762939532e+01-1.90510873637885e+01j,
-    1.66967416249338e+01-1.54420808743659e+01j,
-    1.84227189032095e+01-1.19357250047256e+01j,
-    1.96460972994385e+01-8.49034450829802e+00j,
-    2.04322978545394e+01-5.08129521532765e+00j,
-    2.08173161439358e+01-1.69171657421277e+00j,
-   ],
- [  7.46675121903952e+02+2.33418714884332e+02j,
-   -2.91507593718632e+03-6.02533142595452e+04j,
-   -8.32343305819814e+05+9.23999524382099e+05j,
-    1.12187257385282e+07-2.85904191440928e+06j,
-   -5.84396390181135e+07-1.38271664342395e+07j,
-    1.53739961173302e+08+1.17150191552697e+08j,
-   -2.10257270578443e+08-3.52009232070284e+08j,
-    1.04572686874704e+08+5.83415456608851e+08j,
+([  6.4856283244947779e+00-2.7067410180245165e+01j,
+    1.1148923555154433e+01-2.2847389503912357e+01j,
+    1.4350276293898503e+01-1.9051087358917957e+01j,
+    1.6696741637279381e+01-1.5442080892659442e+01j,
+    1.8422718844967523e+01-1.1935724977767443e+01j,
+    1.9646097429403270e+01-8.4903444941219188e+00j,
+    2.0432297698379777e+01-5.0812953398998237e+00j,
+    2.0817316216422338e+01-1.6917163428815605e+00j,
+   ],
+ [  7.4667512193457594e+02+2.3341871487568253e+02j,
+   -2.9150759384654289e+03-6.0253314214970334e+04j,
+   -8.3234331208368705e+05+9.2399952597057924e+05j,
+    1.1218725580461837e+07-2.8590420761325522e+06j,
+   -5.8439638920010783e+07-1.3827169228737902e+07j,
+    1.5373997073019460e+08+1.1715018184900032e+08j,
+   -2.1025724343844497e+08-3.5200923255880773e+08j,
+    1.0457270576069954e+08+5.8341546534508431e+08j,
    ],
   0.00000000000000e+00),
 
@@ -448,83 +448,83 @@ pfd_dict = {
    ],
   0.00000000000000e+00),
 'pade_6_8':
-([  3.69485632938675e+00-1.12696993000969e+01j,
-    6.74126181787975e+00-7.88594968948569e+00j,
-    8.40225298514781e+00-4.69116275605494e+00j,
-    9.16162886758569e+00-1.55837739405967e+00j,
+([  3.6948563293868468e+00-1.1269699300097058e+01j,
+    6.7412618178789652e+00-7.8859496894854111e+00j,
+    8.4022529851495200e+00-4.6911627560543323e+00j,
+    9.1616288675846675e+00-1.5583773940619035e+00j,
    ],
- [ -3.18487263065919e+01-1.49528186623762e+01j,
-    3.12817976033756e+02+4.28594613374877e+02j,
-   -7.82684808481826e+02-2.25394054615805e+03j,
-    5.01715558761609e+02+4.73499730980113e+03j,
+ [ -3.1848726306593758e+01-1.4952818662368040e+01j,
+    3.1281797603338504e+02+4.2859461337512329e+02j,
+   -7.8268480848475042e+02-2.2539405461580932e+03j,
+    5.0171555875795917e+02+4.7349973098000837e+03j,
    ],
   0.00000000000000e+00),
 'pade_8_10':
-([  4.23452249479674e+00-1.49570437812812e+01j,
-    7.78114626446633e+00-1.13688916490507e+01j,
-    9.93338372217297e+00-8.03310633426764e+00j,
-    1.12208537793930e+01-4.79296416756328e+00j,
-    1.18300937391710e+01-1.59375300588419e+00j,
-   ],
- [  6.60829706237551e+01-8.73837399434558e+00j,
-   -1.43520908051772e+03-8.37054742039505e+02j,
-    7.31487012615475e+03+9.59090409250811e+03j,
-   -1.40890558564557e+04-3.71787911863322e+04j,
-    8.14331184019458e+03+6.95373557758765e+04j,
+([  4.2345224947970008e+00-1.4957043781281561e+01j,
+    7.7811462644646161e+00-1.1368891649049933e+01j,
+    9.9333837221750017e+00-8.0331063342662965e+00j,
+    1.1220853779395195e+01-4.7929641675656685e+00j,
+    1.1830093739168188e+01-1.5937530058858136e+00j,
+   ],
+ [  6.6082970623743790e+01-8.7383739943858210e+00j,
+   -1.4352090805160392e+03-8.3705474204215193e+02j,
+    7.3148701261657097e+03+9.5909040925091831e+03j,
+   -1.4089055856525809e+04-3.7178791186370880e+04j,
+    8.1433118402523960e+03+6.9537355775802542e+04j,
    ],
   0.00000000000000e+00),
 'pade_10_12':
-([  4.70228142811029e+00-1.86890942420089e+01j,
-    8.67056097339053e+00-1.49254273078317e+01j,
-    1.12246068339195e+01-1.14673703426701e+01j,
-    1.29259172791502e+01-8.13362237863904e+00j,
-    1.39836392311261e+01-4.86081102719189e+00j,
-    1.44929942543034e+01-1.61733100604584e+00j,
-   ],
- [ -8.49832831880236e+01+7.75367860453999e+01j,
-    4.37578428468484e+03+2.83201434389032e+02j,
-   -4.04045377690810e+04-2.46586957214072e+04j,
-    1.44784834972791e+05+1.82669966461450e+05j,
-   -2.34618958097715e+05-5.84473205187368e+05j,
-    1.25947859854496e+05+1.00930377761925e+06j,
+([  4.7022814281112533e+00-1.8689094242008188e+01j,
+    8.6705609733885627e+00-1.4925427307846883e+01j,
+    1.1224606833892731e+01-1.1467370342599001e+01j,
+    1.2925917279278435e+01-8.1336223787764119e+00j,
+    1.3983639230908835e+01-4.8608110270819562e+00j,
+    1.4492994254420182e+01-1.6173310060590254e+00j,
+   ],
+ [ -8.4983283188157031e+01+7.7536786045525304e+01j,
+    4.3757842846206859e+03+2.8320143434613755e+02j,
+   -4.0404537770168077e+04-2.4658695724549303e+04j,
+    1.4478483497752697e+05+1.8266996643088225e+05j,
+   -2.3461895806633282e+05-5.8447320525110373e+05j,
+    1.2594785985754138e+05+1.0093037775911577e+06j,
    ],
   0.00000000000000e+00),
 'pade_12_14':
-([  5.11787189461895e+00-2.24527018231594e+01j,
-    9.45335791648157e+00-1.85334197602768e+01j,
-    1.23505043635501e+01-1.49656842626999e+01j,
-    1.43962858429022e+01-1.15471965661277e+01j,
-    1.58146338365384e+01-8.20671881319247e+00j,
-    1.67147257883642e+01-4.90937805514902e+00j,
-    1.71526203575448e+01-1.63417615340624e+00j,
-   ],
- [  3.61443014831873e+01-1.82295255726243e+02j,
-   -9.29367610371230e+03+4.34390374321708e+03j,
-    1.54332004514095e+05+2.08655132031941e+04j,
-   -9.16398034468283e+05-5.62363547717655e+05j,
-    2.60965182162727e+06+3.18944066032174e+06j,
-   -3.73564354639738e+06-8.93145939977566e+06j,
-    1.89731526905100e+06+1.45505505433651e+07j,
+([  5.1178718946197534e+00-2.2452701823158250e+01j,
+    9.4533579164709032e+00-1.8533419760279187e+01j,
+    1.2350504363625246e+01-1.4965684262793458e+01j,
+    1.4396285842467995e+01-1.1547196565555256e+01j,
+    1.5814633837908431e+01-8.2067188145208068e+00j,
+    1.6714725786257606e+01-4.9093780536549509e+00j,
+    1.7152620358650065e+01-1.6341761544026026e+00j,
+   ],
+ [  3.6144301483368992e+01-1.8229525572651588e+02j,
+   -9.2936761037053693e+03+4.3439037431442775e+03j,
+    1.5433200450442889e+05+2.0865513181860886e+04j,
+   -9.1639803452655289e+05-5.6236354848752753e+05j,
+    2.6096518237317661e+06+3.1894406540421648e+06j,
+   -3.7356435361698372e+06-8.9314594151886553e+06j,
+    1.8973152742624171e+06+1.4550550539597422e+07j,
    ],
   0.00000000000000e+00),
 'pade_14_16':
-([  5.49361318603890e+00-2.62399655049460e+01j,
-    1.01560781516715e+01-2.21798376257454e+01j,
-    1.33544760010611e+01-1.85117397684658e+01j,
-    1.56976183436254e+01-1.50149789135570e+01j,
-    1.74205593555198e+01-1.16112396752170e+01j,
-    1.86414951180119e+01-8.26233278072527e+00j,
-    1.94260023927384e+01-4.94590541832561e+00j,
-    1.98101574513328e+01-1.64681446196597e+00j,
-   ],
- [  1.26981292664858e+02+2.55930094697910e+02j,
-    1.24113743672713e+04-1.80844288017939e+04j,
-   -4.27793284860080e+05+1.38613103424770e+05j,
-    4.10778976637045e+06+6.84330756086048e+05j,
-   -1.83663341106143e+07-1.11861218996792e+07j,
-    4.43633025775970e+07+5.28146014031224e+07j,
-   -5.78177959583672e+07-1.34031344688548e+08j,
-    2.81283017741330e+07+2.08871467218483e+08j,
+([  5.4936131860386359e+00-2.6239965504947193e+01j,
+    1.0156078151693409e+01-2.2179837625772549e+01j,
+    1.3354476000892422e+01-1.8511739768081551e+01j,
+    1.5697618343948905e+01-1.5014978916141414e+01j,
+    1.7420559355425990e+01-1.1611239664288957e+01j,
+    1.8641495118467965e+01-8.2623328101026363e+00j,
+    1.9426002390748188e+01-4.9459053656627647e+00j,
+    1.9810157452784484e+01-1.6468145301525536e+00j,
+   ],
+ [  1.2698129266475361e+02+2.5593009469756510e+02j,
+    1.2411374366306938e+04-1.8084428802305614e+04j,
+   -4.2779328498406213e+05+1.3861310325572061e+05j,
+    4.1077897601127857e+06+6.8433074982215685e+05j,
+   -1.8366334182227235e+07-1.1186121985333912e+07j,
+    4.4363301752616599e+07+5.2814600917658925e+07j,
+   -5.7817798734076127e+07-1.3403134545797966e+08j,
+    2.8128296332899068e+07+2.0887146667673543e+08j,
    ],
   0.00000000000000e+00),
 
-- 
2.43.0


From d8321b65426438a17a9e453a2132c3d75e26e42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:52 +0000
Subject: [PATCH 07/35] fix: Leja interval for operators without a nonzero
 eigenvalue

The power iteration divided by zero on nilpotent operators and a vanishing
eigenvalue estimate made the interpolation interval collapse: the Leja
integrators failed with "Max substeps reached", and with the recursive
divided differences returned a wrong state for pure rotations.
---
 ormatex_py/matexp_leja.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ormatex_py/matexp_leja.py b/ormatex_py/matexp_leja.py
index cae41ad..05cc94f 100644
--- a/ormatex_py/matexp_leja.py
+++ b/ormatex_py/matexp_leja.py
@@ -218,7 +218,8 @@ def power_iter(a_lop: LinOp, b0: jax.Array, iter: int, tol: float=5.0e-2):
                 (b_k.transpose() @ b_k)
         b_k1_norm = jnp.linalg.norm(b_k1)
         # eig_new = b_k1_norm / jnp.linalg.norm(b_k)
-        b_k = b_k1 / b_k1_norm
+        # keep the last vector if it is mapped to zero (nilpotent operators)
+        b_k = jnp.where(b_k1_norm > 0., b_k1 / b_k1_norm, b_k)
         i += 1
         return i, b_k, eig_new, eig_old
     def cond_power_iter(args):
@@ -478,6 +479,8 @@ def leja_shift_scale(a_tilde_lo: LinOp, dim: int, max_power_iter: int=20, b0=Non
         b0 = jax.random.uniform(jax.random.key(42), (dim,))
     max_eig, b, iters = power_iter(a_tilde_lo, b0, max_power_iter)
     max_eig *= scale_factor
+    # a vanishing spectrum does not set a length scale, use the unit interval
+    max_eig = jnp.where(jnp.abs(max_eig) > 1e-8, max_eig, -1.0)
     alpha = max_eig
     beta = 0.  # assume min |eig(A)| is 0
     shift = (alpha - beta) / 2.
-- 
2.43.0


From 34e1a252a6061dea1d8a00be0544bd3349054e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:57 +0000
Subject: [PATCH 08/35] fix: integrate_diffrax takes exactly nsteps steps

The accumulated time can miss the end time by rounding, diffrax then inserts
an extra step and fails with "maximum number of solver steps" (t0=0.7,
dt=0.2, nsteps=2).
---
 ormatex_py/integrate_wrapper.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ormatex_py/integrate_wrapper.py b/ormatex_py/integrate_wrapper.py
index 6eaf5af..c05feff 100644
--- a/ormatex_py/integrate_wrapper.py
+++ b/ormatex_py/integrate_wrapper.py
@@ -150,12 +150,13 @@ def integrate_diffrax(ode_sys, y0, t0, dt, nsteps, method="implicit_euler", **kw
         solver = method_dict[method](root_finder=root_finder)
     except:
         solver = method_dict[method]()
-    tf = t0 + dt * nsteps
-    step_ctrl = diffrax.ConstantStepSize()
+    # exactly nsteps steps, independent of rounding in the accumulated time
+    ts = t0 + dt * jnp.arange(nsteps + 1)
+    step_ctrl = diffrax.StepTo(ts=ts)
     res = diffrax.diffeqsolve(
             diffrax_ode_sys,
             solver,
-            t0, tf, dt, y0,
+            ts[0], ts[-1], None, y0,
             saveat=diffrax.SaveAt(steps=True),
             stepsize_controller=step_ctrl,
             max_steps=nsteps,
-- 
2.43.0


From 3ca461a4671b5024ba43524761eb16db1db6eb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:45 +0000
Subject: [PATCH 09/35] fix: first candidate products of the fast Leja points

The products of the first two candidates ran over the whole preallocated
array, unset zeros included, so on intervals other than [-2, 2] one of the
candidates was picked far too early or never.
---
 ormatex_py/matexp_leja.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ormatex_py/matexp_leja.py b/ormatex_py/matexp_leja.py
index 05cc94f..f3d9290 100644
--- a/ormatex_py/matexp_leja.py
+++ b/ormatex_py/matexp_leja.py
@@ -145,8 +145,8 @@ def gen_leja_fast(a: float=-2., b: float=2., n: int=100):
     zs[0] = (zt[1]+zt[2])/2.
     zs[1] = (zt[2]+zt[0])/2.
     zprod = np.zeros(n)
-    zprod[0] = np.prod(zs[0]- np.asarray(zt))
-    zprod[1] = np.prod(zs[1]-np.asarray(zt))
+    zprod[0] = np.prod(zs[0]-zt[0:3])
+    zprod[1] = np.prod(zs[1]-zt[0:3])
     index = np.zeros((n,2), dtype=int)
     index[0,0] = 1
     index[0,1] = 2
-- 
2.43.0


From 079edf02a6cc8dce737918428de090b17b265228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:05 +0000
Subject: [PATCH 10/35] fix: repeated points in the imaginary fast Leja
 sequence

Taking every other point of the real sequence picks some mirror pairs twice
(38 of 280 points repeated) and returned one point less than requested.
---
 ormatex_py/matexp_leja.py | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/ormatex_py/matexp_leja.py b/ormatex_py/matexp_leja.py
index f3d9290..232176d 100644
--- a/ormatex_py/matexp_leja.py
+++ b/ormatex_py/matexp_leja.py
@@ -180,21 +180,14 @@ def gen_complex_conj_leja_fast(beta: float, n: int=100):
         n: number of fast leja points to generate
     """
     leja_x = gen_leja_fast(-beta, beta, n*2)
-    # take only every other real leja point
-    imag_even_leja_x = leja_x[0::2] * 1j
-    # take complex conjugate of odd m points
-    imag_odd_leja_x = leja_x[0::2] * -1j
-    # rejoin full conj complex leja fast sequence
-    leja_x = np.ones(len(leja_x), dtype=np.complex64) # can use np.complex128?
-    leja_x[0::2] = imag_even_leja_x
-    leja_x[1::2] = imag_odd_leja_x
-    #leja_x[1::2] = imag_even_leja_x
-    #leja_x[0::2] = imag_odd_leja_x
-    leja_tmp = jnp.asarray(leja_x[0:n])
-    # eliminate duplicate 0
-    # TODO: Fix this. only works if interval is sym around 0
-    # z0 should be 0
-    return jnp.concat((leja_tmp[2:3], leja_tmp[0:2], leja_tmp[4:]))
+    # the sequence contains the mirror image of each of its points, but not
+    # right next to it: take one point of each pair, in order
+    leja_x = leja_x[leja_x > 0.]
+    # z0 is 0, followed by the conjugate pairs
+    leja_tmp = np.zeros(2*len(leja_x) + 1, dtype=np.complex128)
+    leja_tmp[1::2] = leja_x * 1j
+    leja_tmp[2::2] = leja_x * -1j
+    return jnp.asarray(leja_tmp[0:n])
 
 
 @partial(jax.jit, static_argnums=(2,3))
-- 
2.43.0


From 5802bedc3cd5024165da0a8ad42dedad6b727516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:52 +0000
Subject: [PATCH 11/35] fix: Leja interpolation stopped at the padded zeros of
 stiff problems

With leading zeros in a real sequence the first terms are of size exp(shift),
so the error estimate fell below the tolerance before the right end of the
interval was interpolated: epi2_leja_im and epi3_leja_im with default options
returned the old state as converged once dt*|lambda| exceeded about 120.
---
 ormatex_py/matexp_leja.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/ormatex_py/matexp_leja.py b/ormatex_py/matexp_leja.py
index 232176d..e7620ac 100644
--- a/ormatex_py/matexp_leja.py
+++ b/ormatex_py/matexp_leja.py
@@ -335,6 +335,10 @@ def complex_conj_leja_expmv(a_lo: LinOp, dt: float, u: jax.Array, shift: float,
     # decay coeff. for running average of err_est
     gamma = .5
 
+    # the exponential is largest at the right most point, terms added before
+    # it is interpolated (padded zeros) can be tiny without being converged
+    i_right = jnp.argmax(jnp.real(leja_x_sc))
+
     converged = (norm_u == 0.)
 
     # leading constant term in polynomial (real part for n_leja_real==0)
@@ -349,7 +353,8 @@ def complex_conj_leja_expmv(a_lo: LinOp, dt: float, u: jax.Array, shift: float,
         vm = (dt*a_lo.matvec(vm) - jnp.real(leja_x_sc[i-1])*vm) / scale
         # apply update (for i==n_leja_real, coeff[i] is complex, we just compute the real part)
         pm += jnp.real(coeffs[i]) * vm
-        err_est = decay_fun(jnp.abs(jnp.real(coeffs[i])) * jnp.linalg.norm(vm), err_est, gamma)
+        err_new = decay_fun(jnp.abs(jnp.real(coeffs[i])) * jnp.linalg.norm(vm), err_est, gamma)
+        err_est = jnp.where(i < i_right, err_est, err_new)
         i += 1
 
     # jax version of the update for a conjugate part
@@ -420,6 +425,10 @@ def real_leja_expmv(a_lo: LinOp, dt: float, u: jax.Array, shift: float, scale: f
     gamma = .5
     # decay_fun = lambda e_new, e_old: jnp.exp(gamma * jnp.log(e_new) + (1.-gamma) * jnp.log(e_old))
 
+    # the exponential is largest at the right most point, terms added before
+    # it is interpolated (padded zeros) can be tiny without being converged
+    i_right = jnp.argmax(leja_x_sc)
+
     converged = (norm_u == 0.)
 
     # leading constant term in polynomia
@@ -434,10 +443,11 @@ def real_leja_expmv(a_lo: LinOp, dt: float, u: jax.Array, shift: float, scale: f
         vm = (dt*a_lo.matvec(vm) - leja_x_sc[i-1]*vm) / scale
         # polynomial update
         pm += coeffs[i] * vm
-        err_est = decay_fun(jnp.abs(coeffs[i]) * jnp.linalg.norm(vm), err_est, gamma)
+        err_new = decay_fun(jnp.abs(coeffs[i]) * jnp.linalg.norm(vm), err_est, gamma)
+        err_est = jnp.where(i < i_right, err_est, err_new)
+        converged = (err_est < tol*norm_u) & (i >= i_right)
 
         i += 1
-        converged = err_est < tol*norm_u
 
         return i, vm, pm, err_est, converged
     def cond_leja_poly(args):
-- 
2.43.0


From 04176e8474de0aa258810678a0b7a4b8faa4b1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:27 +0000
Subject: [PATCH 12/35] fix: error estimate of complex_conj_imag_leja_expmv

The signed real part of the coefficients could make the estimate negative and
the initial value was absolute, so the result was reported as converged after
one or two terms for norms of A above 5 or large vectors, and never for small
ones.
---
 ormatex_py/matexp_leja.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ormatex_py/matexp_leja.py b/ormatex_py/matexp_leja.py
index e7620ac..b6ddab9 100644
--- a/ormatex_py/matexp_leja.py
+++ b/ormatex_py/matexp_leja.py
@@ -268,7 +268,7 @@ def complex_conj_imag_leja_expmv(a_lo: LinOp, dt: float, u: jax.Array, shift: fl
         # unpack args
         i, rm, pm, qm, _ = args
         # compute error estimate
-        err_r = jnp.real(coeffs[i-1])*jnp.linalg.norm(rm)
+        err_r = jnp.abs(jnp.real(coeffs[i-1]))*jnp.linalg.norm(rm)
         # compute new term in the polynomial approx
         qm = (dt*a_lo.matvec(rm) - shift*rm)/scale
         # div diff coeffs[i] even is real
@@ -286,7 +286,7 @@ def complex_conj_imag_leja_expmv(a_lo: LinOp, dt: float, u: jax.Array, shift: fl
         iter_check = (i < n_leja)
         return (tol_check) & (iter_check) # | (i < 3)
     i, rm, pm, _qm, err = lax.while_loop(
-            cond_leja_poly, body_leja_poly, (2, rm, pm, qm, 1.0e2))
+            cond_leja_poly, body_leja_poly, (2, rm, pm, qm, 1.0e2*beta))
     converged = (i < n_leja) & (err < beta*1.0e3)
     # expmv, n_iters, converged
     return pm, i, converged
-- 
2.43.0


From 878397f65134a0bc2e805aa5b12a0800ebe441ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:58 +0000
Subject: [PATCH 13/35] fix: nodal element returned basis functions of earlier
 evaluation points lbasis only re-evaluated the basis when the number of
 points changed

---
 ormatex_py/progression/element_line_pp_nodal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ormatex_py/progression/element_line_pp_nodal.py b/ormatex_py/progression/element_line_pp_nodal.py
index 543099c..95ac22e 100644
--- a/ormatex_py/progression/element_line_pp_nodal.py
+++ b/ormatex_py/progression/element_line_pp_nodal.py
@@ -51,6 +51,8 @@ class ElementLinePp_nodal(ElementH1):
         self.doflocs = self.quad[0].T
         self.P = np.zeros((0, 0))
         self.dP = np.zeros((0, 0, 1))
+        # points at which P and dP were evaluated
+        self.X = None
         self.p = p
 
         # get a barycentric interpolator for each Lagrange basis function y_ik = delta_ik
@@ -68,7 +70,8 @@ class ElementLinePp_nodal(ElementH1):
 
     def lbasis(self, X, i):
 
-        if self.P.shape[1] != X.shape[1]:
+        if self.X is None or not np.array_equal(self.X, X):
+            self.X = np.array(X)
             self.P, self.dP = self._reval_legendre(X[0, :], self.p)
 
         return self.P[i], self.dP[i]
-- 
2.43.0


From 850cbc47ea366011b7f5eb09592b6bbeb434abb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:58 +0000
Subject: [PATCH 14/35] fix: sign of the SUPG stabilization of the source term
 the source has to be weighted by the same test function as the other terms

---
 ormatex_py/progression/advection_diffusion_1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ormatex_py/progression/advection_diffusion_1d.py b/ormatex_py/progression/advection_diffusion_1d.py
index dd069b5..c39e1d1 100644
--- a/ormatex_py/progression/advection_diffusion_1d.py
+++ b/ormatex_py/progression/advection_diffusion_1d.py
@@ -121,7 +121,7 @@ def rhs_supg(v, w):
     r = src_f(**w) * v
     tau = tau_upwind_f(w)
     stab_f =  dot(tau * vel_f(**w), grad(v)) * src_f(**w)
-    return r - stab_f
+    return r + stab_f
 
 @fem.BilinearForm
 def mass(u, v, _):
-- 
2.43.0


From 1a6f627e842fb5bfb15bf4981034f7b9e61295db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:29 +0000
Subject: [PATCH 15/35] fix: NonlinearBateman ignored its tank_vol parameter

---
 ormatex_py/progression/bateman_nonlin_sys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ormatex_py/progression/bateman_nonlin_sys.py b/ormatex_py/progression/bateman_nonlin_sys.py
index f0628f1..261912e 100644
--- a/ormatex_py/progression/bateman_nonlin_sys.py
+++ b/ormatex_py/progression/bateman_nonlin_sys.py
@@ -123,7 +123,7 @@ class NonlinearBateman(OdeSplitSys):
         self.fis_vec = fission_vec
 
     def _frhs(self, t, u, **kwargs):
-        nonlin = srcf_xe_av(u, self.i_xe_a, self.i_xe_g)
+        nonlin = srcf_xe_av(u, self.i_xe_a, self.i_xe_g, tank_vol=self.tank_vol)
         bat = self.bat_mat @ u
         trans = self.n_phi * (self.trans_mat @ u)
         fis = self.n_phi * self.fis_vec
-- 
2.43.0


From e084cd300a7572502d8f04445168c92144d73b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:00 +0000
Subject: [PATCH 16/35] fix: linear operator of the 3 species system could not
 be built a BCSR matrix has no unary minus nor broadcasting division

---
 ormatex_py/progression/rad_1d_3s.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ormatex_py/progression/rad_1d_3s.py b/ormatex_py/progression/rad_1d_3s.py
index 10791c0..ef4db27 100644
--- a/ormatex_py/progression/rad_1d_3s.py
+++ b/ormatex_py/progression/rad_1d_3s.py
@@ -98,7 +98,7 @@ class RAD_SEM(OdeSplitSys):
         # only use Bateman terms for L
         #L = jnp.kron(self.bat_mat, jnp.eye(Ndof))
         # only use adv-diff terms for L
-        L = jnp.kron(jnp.eye(n), (- self.A / self.Ml.reshape((-1, 1))).todense())
+        L = jnp.kron(jnp.eye(n), - self.A.todense() / self.Ml.reshape((-1, 1)))
         #print(L)
         return MatrixLinOp(L)
 
-- 
2.43.0


From 688a2e6e5cf8c2b21904e61ed35326c9f4168be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:43 +0000
Subject: [PATCH 17/35] fix: phi functions of matrices of large norm were NaN
 the exponential of the linear algebra library gives up after 16 squarings by
 default

---
 ormatex_py/matexp_phi.py  | 6 +++---
 ormatex_py/matexp_poly.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ormatex_py/matexp_phi.py b/ormatex_py/matexp_phi.py
index d5a7e55..da61e5a 100644
--- a/ormatex_py/matexp_phi.py
+++ b/ormatex_py/matexp_phi.py
@@ -54,7 +54,7 @@ def f_phi_k_inv(z: jax.Array, k: int, eps: float) -> (jax.Array, float):
     N = _validate_args(z, k)
 
     # phi_0 = exp
-    phi_k = jax.scipy.linalg.expm(z)
+    phi_k = jax.scipy.linalg.expm(z, max_squarings=64)
     err_est = eps
     if k == 0:
         return phi_k, err_est
@@ -88,7 +88,7 @@ def f_phi_k_ext(z: jax.Array, k: int, return_all: bool=False) -> jax.Array:
     else:
         z_ext = z
 
-    phi_ks = jax.scipy.linalg.expm(z_ext)
+    phi_ks = jax.scipy.linalg.expm(z_ext, max_squarings=64)
 
     if return_all:
         phi_k = phi_ks[:N,:].reshape((N,k+1,N))
@@ -209,7 +209,7 @@ def f_phi_k_appl(z: jax.Array, b: jax.Array, k: int) -> jax.Array:
         phi_k_ext = f_phi_k_sq(z_ext, k=0)
         phi_kb = phi_k_ext[:N,-M:].reshape(b.shape)
     else:
-        phi_kb = jax.scipy.linalg.expm(z) @ b
+        phi_kb = jax.scipy.linalg.expm(z, max_squarings=64) @ b
 
     return phi_kb
 
diff --git a/ormatex_py/matexp_poly.py b/ormatex_py/matexp_poly.py
index fe10abe..17efe8f 100644
--- a/ormatex_py/matexp_poly.py
+++ b/ormatex_py/matexp_poly.py
@@ -82,7 +82,7 @@ def leja_coeffs_exp(leja_x: jax.Array, shift: float, scale: float, h: float=1.0)
     Xi = jnp.diag(leja_x, 0) + jnp.diag(jnp.ones(n_leja-1), -1)
     Xi_shift = jnp.identity(n_leja)*shift + scale*Xi
     # extract the first column
-    coeffs = jax.scipy.linalg.expm(h*Xi_shift)[:, 0]
+    coeffs = jax.scipy.linalg.expm(h*Xi_shift, max_squarings=64)[:, 0]
     return coeffs
 
 
-- 
2.43.0


From 37cd11a8e8737c37d97732d823ce044eb9901498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:58 +0000
Subject: [PATCH 18/35] fix: divided differences by Taylor expansion were NaN
 for large scales the inverse of the factor shifted back with overflows in the
 squaring

---
 ormatex_py/matexp_poly.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ormatex_py/matexp_poly.py b/ormatex_py/matexp_poly.py
index 17efe8f..2f03c0b 100644
--- a/ormatex_py/matexp_poly.py
+++ b/ormatex_py/matexp_poly.py
@@ -148,7 +148,8 @@ def dd_exp_taylor(leja_x, shift, scale, h=1.0, p=20, mu_scale=1.0):
 
     # compute divided differnces by taylor series approx to expm
     # of the shifted and scaled matrix
-    F = expm_taylor(hs*h*z, 0.0, 1.0, p=p)
+    # shift back before squaring, exp(-h*mu) alone can overflow
+    F = jnp.exp(hs*h*mu) * expm_taylor(hs*h*z, 0.0, 1.0, p=p)
 
     def body_f(i, F):
         return F @ F
@@ -158,8 +159,8 @@ def dd_exp_taylor(leja_x, shift, scale, h=1.0, p=20, mu_scale=1.0):
     #    F = F @ F
     F = lax.fori_loop(0, s, body_fun=body_f, init_val=F)
 
-    # shift back and extract the first column
-    return jnp.exp(h*mu) * F[:, 0]
+    # extract the first column
+    return F[:, 0]
 
 
 @partial(jax.jit, static_argnums=(1,))
-- 
2.43.0


From c6b9e6abe62aa5e027bf8fd73db9078a408183c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:40 +0000
Subject: [PATCH 19/35] fix: implicit integrators evaluated the system one step
 too late

jac_newton was given t+dt and the residual added dt again, so bdf1, bdf2 and
cn were wrong for systems that depend on time
---
 src/ode_bdf.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ode_bdf.rs b/src/ode_bdf.rs
index 653ddbf..75c0803 100644
--- a/src/ode_bdf.rs
+++ b/src/ode_bdf.rs
@@ -113,7 +113,7 @@ where
 
         // solve nonlinear system for new y
         let y_new = jac_newton(
-            t+dt, y0, &gfn, &gfn_jac,
+            t, y0, &gfn, &gfn_jac,
             1e-6, 1e-8, 100, 1000)?;
 
         // return result
@@ -134,7 +134,7 @@ where
         };
 
         let y_new = jac_newton(
-            t+dt, y0, &gfn, &gfn_jac,
+            t, y0, &gfn, &gfn_jac,
             1e-6, 1e-8, 100, 1000)?;
 
         // return result
@@ -163,7 +163,7 @@ where
 
         // solve nonlinear system for new y, might fail
         let y_new = jac_newton(
-            t+dt, y0, &gfn, &gfn_jac,
+            t, y0, &gfn, &gfn_jac,
             1e-6, 1e-8, 100, 1000)?;
 
         // return result
-- 
2.43.0


From ad172d03c94152769202b2503600cf6ed4cab340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:40 +0000
Subject: [PATCH 20/35] fix: bdf2 fell back to bdf1 from the third step on

the history keeps growing, it has exactly two entries only once
---
 src/ode_bdf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ode_bdf.rs b/src/ode_bdf.rs
index 75c0803..2a6aed0 100644
--- a/src/ode_bdf.rs
+++ b/src/ode_bdf.rs
@@ -182,7 +182,7 @@ where
         match self.order {
             1 => self.step_order_1(dt),
             2 => {
-                if self.y_hist.len() == 2 {
+                if self.y_hist.len() >= 2 {
                     self.step_order_2(dt)
                 } else {
                     self.step_order_1(dt)
-- 
2.43.0


From 13a0c9726b3c2aac64523548a96654ffada163a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:40 +0000
Subject: [PATCH 21/35] fix: stage times of the Runge-Kutta integrator

stage i+1 was evaluated at the time of stage i
---
 src/ode_rk.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ode_rk.rs b/src/ode_rk.rs
index ec96b5e..6ed72b3 100644
--- a/src/ode_rk.rs
+++ b/src/ode_rk.rs
@@ -124,7 +124,7 @@ where
             for j in 0..i+1 {
                 y_delta = y_delta.as_ref() + faer::Scale(dt * self.bt.a[i][j]) * k[j].as_ref();
             }
-            let k_i = self.sys.frhs(t + (dt * self.bt.c[i]), y_delta.as_ref());
+            let k_i = self.sys.frhs(t + (dt * self.bt.c[i+1]), y_delta.as_ref());
             k.push(k_i);
         }
         let mut acc = y0.to_owned();
-- 
2.43.0


From 03bb1ff0233c5bd0bedd08ee23594b3d7a199aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:06 +0000
Subject: [PATCH 22/35] fix: Newton iteration stopped after one iteration

the convergence test was on the signed decrease of the norm of the iterate,
which is met whenever the norm grows
---
 src/newton.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/newton.rs b/src/newton.rs
index 8514891..8e07de9 100644
--- a/src/newton.rs
+++ b/src/newton.rs
@@ -42,13 +42,12 @@ pub fn jac_newton_sys <'a> (
         // let jac_gfn_x = sys.fjac_shifted(t, x.as_ref(), 1.0, None);
         // let lin_x = x.clone();
         let jac_gfn_x = sys.fjac_shifted(t, x.as_ref(), scale, Some(gamma));
-        let x_old_norm = x.norm_l2();
         // solve J * a = G(x_k) for a
         let (_err, _iters) = gmres(&jac_gfn_x, gfn_x.as_ref(), a.as_mut(), iters_lin, tol_lin, None).unwrap();
         // apply a:  x_k+1 = x_k - a
         x = x.as_ref() - a.as_ref();
-        let x_new_norm = x.norm_l2();
-        if (x_old_norm - x_new_norm) < tol {
+        // converged when the update is small
+        if a.norm_l2() < tol * (1.0 + x.norm_l2()) {
             return Ok(x);
         }
     }
@@ -83,13 +82,12 @@ pub fn jac_newton <'a> (
         let gfn_x = frhs(t, x.as_ref());
         // let jac_gfn_x = jac_gfn(t, x.as_ref());
         let jac_gfn_x = frhs_jac(t, x.as_ref());
-        let x_old_norm = x.norm_l2();
         // solve J * a = G(x_k) for a
         let (_err, _iters) = gmres(jac_gfn_x, gfn_x.as_ref(), a.as_mut(), iters_lin, tol_lin, None).unwrap();
         // apply a:  x_k+1 = x_k - a
         x = x - a.as_ref();
-        let x_new_norm = x.norm_l2();
-        if (x_old_norm - x_new_norm) < tol {
+        // converged when the update is small
+        if a.norm_l2() < tol * (1.0 + x.norm_l2()) {
             return Ok(x);
         }
     }
-- 
2.43.0


From a5423399441f13ad63f46697d8ad2d2178b2e5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:06 +0000
Subject: [PATCH 23/35] fix: Krylov methods returned NaN for the zero vector

exponential integrators hit this at every equilibrium
---
 src/arnoldi.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/arnoldi.rs b/src/arnoldi.rs
index ebb0ddc..c3bf553 100644
--- a/src/arnoldi.rs
+++ b/src/arnoldi.rs
@@ -120,7 +120,13 @@ pub fn arnoldi_lop<T>(
     let mut hs = faer::Mat::zeros(m, m);
     let mut qs = faer::Mat::zeros(b.nrows(), m);
     let norm_b = b.norm_l2();
-    let q0 = b * faer::Scale(T::from(1.0).unwrap() / norm_b);
+    // the zero vector has no direction, the iteration breaks down at once
+    let scale_b = if norm_b > T::from(0.0).unwrap() {
+        T::from(1.0).unwrap() / norm_b
+    } else {
+        T::from(1.0).unwrap()
+    };
+    let q0 = b * faer::Scale(scale_b);
     qs.col_mut(0).copy_from(q0.col(0));
 
     let mut breakdown_n = 0;
-- 
2.43.0


From 4604c41fa717437350c3dceade4f8a20732160b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:06 +0000
Subject: [PATCH 24/35] fix: finite difference Jacobian operator was NaN at the
 zero state

---
 src/ode_sys.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ode_sys.rs b/src/ode_sys.rs
index ae7d7f6..20525c4 100644
--- a/src/ode_sys.rs
+++ b/src/ode_sys.rs
@@ -437,8 +437,9 @@ impl <'a> LinOp<f64> for FdJacLinOp <'a> {
         _ = parallelism;
         _ = stack;
 
-        let x_norm_l1 = self.x.norm_max().abs();
-        let eps = 0.5e-8 * x_norm_l1;
+        // the zero state has no magnitude to scale the perturbation with
+        let x_norm = self.x.norm_max();
+        let eps = if x_norm > 0.0 { 0.5e-8 * x_norm } else { 0.5e-8 };
         let ieps = self.scale * 1.0 / eps;
         let x_pert = self.x.as_ref() + faer::Scale(eps) * rhs.as_ref();
 
-- 
2.43.0


From a47460cb69dea380379220daa8c8a5691bfd0512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:06 +0000
Subject: [PATCH 25/35] fix: phik_dense_cauchy returned dt*phi_1(A*dt) instead
 of phi_1(A*dt)

---
 src/matexp_cauchy.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/matexp_cauchy.rs b/src/matexp_cauchy.rs
index fea574d..53703aa 100644
--- a/src/matexp_cauchy.rs
+++ b/src/matexp_cauchy.rs
@@ -113,7 +113,9 @@ impl CauchyExpm {
             1 => {
                 let tmp_zn = mat_pow(a, k);
                 let tmp_znp = mat_pow(a, k-1);
-                let phi_k = self._phi_ext(tmp_zn.as_ref(), tmp_znp.as_ref(), dt);
+                // the upper right block of exp(B*dt) is dt*phi_1(A*dt)
+                let bu = Scale(1. / dt) * tmp_znp;
+                let phi_k = self._phi_ext(tmp_zn.as_ref(), bu.as_ref(), dt);
                 phi_k
             },
             _ => panic!("Only supports phi_k for k<=1 currently"),
-- 
2.43.0


From d0bfed39b7f9b9564d7dcdbff57e7d2dde467470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:06 +0000
Subject: [PATCH 26/35] fix: Rust bindings ignored tol_fdt and took tol in its
 place

---
 src/ormatex_rspy.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ormatex_rspy.rs b/src/ormatex_rspy.rs
index 7a45c62..de0cbd4 100644
--- a/src/ormatex_rspy.rs
+++ b/src/ormatex_rspy.rs
@@ -272,7 +272,7 @@ fn integrate_wrapper_rs<'py>(
     let krylov_dim: usize = get_val_or_default(py, &kd_hash, String::from("max_krylov_dim"), 100);
     let iom: usize = get_val_or_default(py, &kd_hash, String::from("iom"), 2);
     let tol: f64 = get_val_or_default(py, &kd_hash, String::from("tol"), 1e-8);
-    let tol_fdt: f64 = get_val_or_default(py, &kd_hash, String::from("tol"), 1e-8);
+    let tol_fdt: f64 = get_val_or_default(py, &kd_hash, String::from("tol_fdt"), 1e-8);
     let osteps: usize = get_val_or_default(py, &kd_hash, String::from("osteps"), 1);
 
     let y = y0.as_array();
-- 
2.43.0


From 69b604708f8435c16d7e88a2d9de41508dbe3c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:41 +0000
Subject: [PATCH 27/35] fix: apply_phi_linop_3 returned wrong second and third
 results for k other than 1

---
 src/matexp_krylov.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/matexp_krylov.rs b/src/matexp_krylov.rs
index dfd0717..ea17d97 100644
--- a/src/matexp_krylov.rs
+++ b/src/matexp_krylov.rs
@@ -88,6 +88,14 @@ impl KrylovExpm {
         let beta = v0.norm_l2();
         let mut unit_vec = faer::Mat::zeros(phi_k.nrows(), 1);
         unit_vec[(0, 0)] = 1.0;
+        if k != 1 {
+            // the doubling formulas below hold for phi_1 only
+            let phi_at = |s: f64| -> Mat<f64> {
+                let phi_s = matexp_pade::phi_ext((faer::Scale(s * dt) * h.as_ref()).as_ref(), k);
+                faer::Scale(beta) * (q.as_ref() * phi_s.as_ref() * unit_vec.as_ref())
+            };
+            return (phi_at(1.), phi_at(2.), phi_at(3.))
+        }
         // compute unscaled phi_k_1 = phi_k(A*dt)*v0
         let phi_k_1 = faer::Scale(beta) * (q.as_ref() * phi_k.as_ref() * unit_vec.as_ref());
         // compute scaled phi_k_2 = phi_k(A*dt*2)*v0
-- 
2.43.0


From 67689cbf3e32d58a06abf98e4413d6613f460061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:41 +0000
Subject: [PATCH 28/35] fix: finite difference operator reused the RHS of
 another state or time

the cached value was keyed by the norm of the state only; the product at the
zero state was NaN
---
 src/mat_utils.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/mat_utils.rs b/src/mat_utils.rs
index e5afbd7..9d8da79 100644
--- a/src/mat_utils.rs
+++ b/src/mat_utils.rs
@@ -142,6 +142,9 @@ pub struct JacobianRhsLinOp<'a, T>
     /// Function ref to RHS of the system
     frhs: &'a dyn Fn(T, MatRef<T>) -> Mat<T>,
 
+    /// Time of the cached RHS eval
+    t_tmp: RefCell<Option<T>>,
+
     /// Pointer to storage for x vector cache
     x_tmp: RefCell<Mat<T>>,
 
@@ -155,18 +158,21 @@ impl <'a, T> LinOp<T> for JacobianRhsLinOp<'a, T>
 {
     fn apply_linop_to_vec(&self, t: T, x: MatRef<T>, w: MatRef<T>, s: Option<T>) -> Mat<T> {
         let x_norm_l1 = x.norm_l1();
-        if x_norm_l1 == self.x_tmp.borrow().as_ref().norm_l1() {
+        if *self.t_tmp.borrow() == Some(t) && x == self.x_tmp.borrow().as_ref() {
             // we can reuse prior frhs eval
         }
         else {
             // must re-eval frhs (expensive)
+            *self.t_tmp.borrow_mut() = Some(t);
             *self.x_tmp.borrow_mut() = x.to_owned();
             *self.fx_tmp.borrow_mut() = (self.frhs)(t, x);
         }
         // If A is a Jacobian, a Jacobian-vector product can be
         // given as $`J w \approx (F(x + \eps w) - F(x)) / \eps `$
         // let mut jw: Mat<T> = a * w_col;
-        let eps = T::from(0.5e-8).unwrap() * x_norm_l1;
+        // the zero state has no magnitude to scale the perturbation with
+        let x_scale = if x_norm_l1 > T::from(0.0).unwrap() { x_norm_l1 } else { T::from(1.0).unwrap() };
+        let eps = T::from(0.5e-8).unwrap() * x_scale;
         let ieps = T::from(1.0).unwrap() / eps;
         let x_pert = x + faer::Scale(eps) * w.as_ref();
         let scaler = s.unwrap_or(T::from(1.0).unwrap());
@@ -182,6 +188,7 @@ impl <'a, T> JacobianRhsLinOp <'a, T>
     pub fn new(frhs: &'a dyn Fn(T, MatRef<T>) -> Mat<T>, dim: usize) -> Self {
         Self {
             frhs,
+            t_tmp: RefCell::new(None),
             x_tmp: RefCell::new(faer::Mat::zeros(dim, dim)),
             fx_tmp: RefCell::new(faer::Mat::zeros(dim, dim)),
         }
-- 
2.43.0


From b4c4e2becc5cfd372447bcafa633137b67be1d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:44 +0000
Subject: [PATCH 29/35] fix: exprb2_pfd_rs and exp_pfd_rs ignored the arguments
 returned by the before-step callback

---
 ormatex_py/ode_exp.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ormatex_py/ode_exp.py b/ormatex_py/ode_exp.py
index 0e98682..bb1cc8c 100644
--- a/ormatex_py/ode_exp.py
+++ b/ormatex_py/ode_exp.py
@@ -335,7 +335,7 @@ class ExpRBIntegrator(IntegrateSys):
         y_err = -1.
         return StepResult(t+dt, dt, y_new, y_err)
 
-    def _step_exprb2_pfd_rs(self, dt: float) -> StepResult:
+    def _step_exprb2_pfd_rs(self, dt: float, frhs_kwargs: dict) -> StepResult:
         r"""
         Computes the solution update by:
         y_{t+1} = y_t + dt*\varphi_1(dt*J)F(t, y_t) + dt**2*\varphi_2(dt*J)F'(t, y_t)
@@ -344,7 +344,7 @@ class ExpRBIntegrator(IntegrateSys):
         """
         t = self.t
         yt = self.y_hist[0]
-        sys_jac_lop = self.sys.fjac(t, yt)
+        sys_jac_lop = self.sys.fjac(t, yt, frhs_kwargs=frhs_kwargs)
         fyt = sys_jac_lop._frhs_cached()
 
         J = np.asarray(sys_jac_lop.dense())
@@ -366,7 +366,7 @@ class ExpRBIntegrator(IntegrateSys):
         y_err = -1.
         return StepResult(t+dt, dt, y_new, y_err)
 
-    def _step_exp_pfd_rs(self, dt: float) -> StepResult:
+    def _step_exp_pfd_rs(self, dt: float, frhs_kwargs: dict) -> StepResult:
         r"""
         Computes the solution update by:
         y_{t+1} = \varphi_0(dt*L)*y0
@@ -376,7 +376,7 @@ class ExpRBIntegrator(IntegrateSys):
         """
         t = self.t
         yt = self.y_hist[0]
-        J = np.asarray(self.sys.fjac(t, yt).dense())
+        J = np.asarray(self.sys.fjac(t, yt, frhs_kwargs=frhs_kwargs).dense())
         phi0J_yt = self.phikv_dense_rs.eval(J, dt, np.asarray(yt).reshape(-1,1), 0)
         y_new = jnp.asarray(phi0J_yt.flatten())
         y_err = -1.
@@ -420,9 +420,9 @@ class ExpRBIntegrator(IntegrateSys):
         elif self.method == "exp_pfd":
             return self._step_exp_pfd(dt, frhs_kwargs)
         elif self.method == "exprb2_pfd_rs" and HAS_ORMATEX_RUST:
-            return self._step_exprb2_pfd_rs(dt)
+            return self._step_exprb2_pfd_rs(dt, frhs_kwargs)
         elif self.method == "exp_pfd_rs" and HAS_ORMATEX_RUST:
-            return self._step_exp_pfd_rs(dt)
+            return self._step_exp_pfd_rs(dt, frhs_kwargs)
         else:
             raise NotImplementedError
 
-- 
2.43.0


From e17e32d1272d63f4cde4037fd4012005d8ac7772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:44 +0000
Subject: [PATCH 30/35] fix: results of the Rust methods lost the state axis of
 one-dimensional systems

---
 ormatex_py/integrate_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ormatex_py/integrate_wrapper.py b/ormatex_py/integrate_wrapper.py
index c05feff..9896834 100644
--- a/ormatex_py/integrate_wrapper.py
+++ b/ormatex_py/integrate_wrapper.py
@@ -89,7 +89,7 @@ def integrate(ode_sys, y0, t0, dt, nsteps, method, **kwargs):
         if not isinstance(ode_sys, PySysWrapped):
             ode_sys = PySysWrapped(OdeSysNp(ode_sys))
         y_res, t_res = integrate_wrapper_rs(ode_sys, np.asarray(y0).reshape((-1, 1)), t0, dt, nsteps, method=str(method[0:-3]), **kwargs)
-        y_res, t_res = np.asarray(y_res).squeeze(), np.asarray(t_res)
+        y_res, t_res = np.asarray(y_res)[:, :, 0], np.asarray(t_res)
     else:
         try:
             # try integrate the system with diffrax
-- 
2.43.0


From 25715b215cd98dcb2ad32ffb351d673a1caa2476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:44 +0000
Subject: [PATCH 31/35] fix: time derivative below tol_fdt was dropped from the
 update but kept in the remainder

---
 src/ode_epirk.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ode_epirk.rs b/src/ode_epirk.rs
index 83788db..1af3fb0 100644
--- a/src/ode_epirk.rs
+++ b/src/ode_epirk.rs
@@ -134,8 +134,9 @@ where
         let v = self.frhs_fdt(fy0.as_ref(), 1e-8);
         if v.norm_max() > self.tol_fdt {
             phi2_v = Scale(dt.powi(2)) * self.expm.apply_phi_linop(sys_jac_lop, dt, v.as_ref(), 2);
+            return (phi2_v, v)
         }
-        (phi2_v, v)
+        (phi2_v, Mat::zeros(fy0.nrows(), fy0.ncols()))
     }
 
     /// EPI2
-- 
2.43.0


From 0a243fb584d6bdc4c8abd1ce4e39132f79eeff46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:30 +0000
Subject: [PATCH 32/35] fix: the finite difference time derivative vanished at
 large times (t + eps == t)

---
 ormatex_py/ode_sys.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ormatex_py/ode_sys.py b/ormatex_py/ode_sys.py
index b260430..1e0485e 100644
--- a/ormatex_py/ode_sys.py
+++ b/ormatex_py/ode_sys.py
@@ -224,7 +224,8 @@ class CustomJacLinOp(SysJacLinOp):
     def _fdt(self) -> jax.Array:
         if self._f_dt is None:
             # if f_dt is not supplied, use finite difference fallback
-            eps = self._eps
+            # with an increment that is not lost in the rounding of large times
+            eps = self._eps * jnp.maximum(1., jnp.abs(self._t))
             f_dt = (self._frhs(self._t + eps, self._u, **self._frhs_kwargs) - self._frhs_u) / eps
             return f_dt
         else:
@@ -346,7 +347,9 @@ class FdJacLinOp(SysJacLinOp):
         Computes time derivative of the rhs by finite difference
         """
         print("jit-compiling FdJacLinOp._fdt")
-        return (self._frhs(self._t+self._eps, self._u, **self._frhs_kwargs) - self._frhs_u) / self._eps
+        # with an increment that is not lost in the rounding of large times
+        eps = self._eps * jnp.maximum(1., jnp.abs(self._t))
+        return (self._frhs(self._t+eps, self._u, **self._frhs_kwargs) - self._frhs_u) / eps
 
     @jax.jit
     def _frhs_cached(self) -> jax.Array:
-- 
2.43.0


From eb61726f79b68690bce1f49669c85a62370d603c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:30 +0000
Subject: [PATCH 33/35] fix: Rust integrators lost the time derivative of the
 right-hand side at large times

---
 src/ode_epirk.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ode_epirk.rs b/src/ode_epirk.rs
index 1af3fb0..5775c84 100644
--- a/src/ode_epirk.rs
+++ b/src/ode_epirk.rs
@@ -131,7 +131,8 @@ where
         if self.tol_fdt < 0. {
             return (phi2_v,  Mat::zeros(fy0.nrows(), fy0.ncols()))
         }
-        let v = self.frhs_fdt(fy0.as_ref(), 1e-8);
+        // with an increment that is not lost in the rounding of large times
+        let v = self.frhs_fdt(fy0.as_ref(), 1e-8 * self.t.abs().max(1.0));
         if v.norm_max() > self.tol_fdt {
             phi2_v = Scale(dt.powi(2)) * self.expm.apply_phi_linop(sys_jac_lop, dt, v.as_ref(), 2);
             return (phi2_v, v)
-- 
2.43.0


From 22ae69220bab8b227c6f2838a34daf2f539c0287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:46 +0000
Subject: [PATCH 34/35] fix: linear combinations of phi functions of large or
 small vectors were wrong in Rust

kiops_fixedsteps lacked the normalization by the largest vector, the augmented
operator had a norm of the size of the state (epi3)
---
 src/matexp_krylov.rs |  2 +-
 src/ode_sys.rs       | 24 ++++++++++++++++++++----
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/matexp_krylov.rs b/src/matexp_krylov.rs
index ea17d97..69345cf 100644
--- a/src/matexp_krylov.rs
+++ b/src/matexp_krylov.rs
@@ -140,7 +140,7 @@ impl KrylovExpm {
         let w = self.apply_linop(&ext_a_lo, dt, ext_v.as_ref());
 
         // extract first n rows
-        w.get(0..n, 0..1).to_owned()
+        faer::Scale(ext_a_lo.norm_vb()) * w.get(0..n, 0..1)
     }
 }
 
diff --git a/src/ode_sys.rs b/src/ode_sys.rs
index 20525c4..faca7a3 100644
--- a/src/ode_sys.rs
+++ b/src/ode_sys.rs
@@ -129,7 +129,7 @@ pub fn apply_linop(lop: &impl LinOp<f64>, q: MatRef<f64>) -> Mat<f64> {
 /// and applies
 /// [[ A,  B],
 ///  [ 0,  K]]
-/// to a vector.
+/// to a vector, with B (and the vector of get_v) divided by norm_vb.
 ///
 /// example use:
 /// let elop = ExtendedLinOp::new(lop, &vb);
@@ -141,18 +141,28 @@ pub struct ExtendedLinOp<'a> {
     inner_lop: Box<dyn LinOp<f64> + 'a>,
     bmat: faer::Mat<f64>,
     kmat: faer::Mat<f64>,
+    // largest norm of the vectors vb
+    norm_vb: f64,
 }
 
 impl <'a> ExtendedLinOp<'a> {
     pub fn new(t: f64, inner_lop: Box<dyn LinOp<f64> + 'a>, vb: &Vec<MatRef<f64>>) -> Self {
         let n = vb[0].nrows();
         let p = vb.len() - 1;
+        // normalize by the largest vector in vb
+        let mut norm_vb: f64 = 0.;
+        for v in vb.iter() {
+            norm_vb = norm_vb.max(v.norm_l2());
+        }
+        if norm_vb == 0. {
+            norm_vb = 1.;
+        }
         let mut bmat = faer::Mat::zeros(n, p);
         let mut i = 1;
         // build extended linear operator blocks
         for k in (0..p).rev() {
             bmat.as_mut().get_mut(.., k..k+1).copy_from(
-                vb[i].as_ref());
+                faer::Scale(1. / norm_vb) * vb[i].as_ref());
             i += 1;
         }
         let mut kmat = faer::Mat::zeros(p, p);
@@ -162,10 +172,16 @@ impl <'a> ExtendedLinOp<'a> {
             t,
             inner_lop,
             bmat,
-            kmat
+            kmat,
+            norm_vb
         }
     }
 
+    /// largest norm of the vectors in vb, by which they are divided
+    pub fn norm_vb(&self) -> f64 {
+        self.norm_vb
+    }
+
     /// helper method to create rhs vector for this extended linop
     pub fn get_v(&self, vb: &Vec<MatRef<f64>>) -> (Mat<f64>, usize) {
         let n = vb[0].nrows();
@@ -174,7 +190,7 @@ impl <'a> ExtendedLinOp<'a> {
         // unit_vec[(n, 0)] = 1.0;
         let mut out: Mat<f64> = faer::Mat::zeros(n+p, 1);
         out[(n+p-1, 0)] = 1.0;
-        out.as_mut().get_mut(0..n, 0..1).copy_from(vb[0].as_ref());
+        out.as_mut().get_mut(0..n, 0..1).copy_from(faer::Scale(1. / self.norm_vb) * vb[0].as_ref());
         (out, n)
     }
 }
-- 
2.43.0


From 9e8823bc5e0332cbcd86c8ea555dad01b01ba515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:52 +0000
Subject: [PATCH 35/35] fix: Rust Krylov methods stopped at the first vector
 for operators with rates below 1e-12

the breakdown test of the Arnoldi iteration is absolute and has to see the
operator scaled with the step, as in the exponential and in Python
---
 src/matexp_krylov.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/matexp_krylov.rs b/src/matexp_krylov.rs
index 69345cf..fb9a89d 100644
--- a/src/matexp_krylov.rs
+++ b/src/matexp_krylov.rs
@@ -62,13 +62,13 @@ impl KrylovExpm {
         &self, a_lo: &dyn LinOp<f64>, dt: f64, v0: MatRef<f64>, k: usize)
         -> Mat<f64>
     {
-        let (q, h, _b) = arnoldi_lop(a_lo, 1.0, v0.as_ref(), self.krylov_dim, self.iom);
+        let (q, h, _b) = arnoldi_lop(a_lo, dt, v0.as_ref(), self.krylov_dim, self.iom);
         let beta = v0.norm_l2();
         let mut unit_vec = faer::Mat::zeros(h.nrows(), 1);
         unit_vec[(0, 0)] = 1.0;
         // let phi_k = matexp_pade::phi_ext((faer::Scale(dt) * h.as_ref()).as_ref(), k);
         // return faer::Scale(beta) * (q.as_ref() * phi_k.as_ref() * unit_vec)
-        return faer::Scale(beta) * (q.as_ref() * self.expmv.phik_apply(h.as_ref(), dt, unit_vec.as_ref(), k))
+        return faer::Scale(beta) * (q.as_ref() * self.expmv.phik_apply(h.as_ref(), 1.0, unit_vec.as_ref(), k))
     }
 
     /// Computes tripplet (phi_k(A*dt)*v0, phi_k(A*dt*2)*v0, phi_k(A*dt*3)*v0)
@@ -82,8 +82,8 @@ impl KrylovExpm {
         &self, a_lo: &dyn LinOp<f64>, dt: f64, v0: MatRef<f64>, k: usize)
         -> (Mat<f64>, Mat<f64>, Mat<f64>)
     {
-        let (q, h, _b) = arnoldi_lop(a_lo, 1.0, v0.as_ref(), self.krylov_dim, self.iom);
-        let phi_k = matexp_pade::phi_ext((faer::Scale(dt) * h.as_ref()).as_ref(), k);
+        let (q, h, _b) = arnoldi_lop(a_lo, dt, v0.as_ref(), self.krylov_dim, self.iom);
+        let phi_k = matexp_pade::phi_ext(h.as_ref(), k);
         let id = faer::Mat::<f64>::identity(phi_k.nrows(), phi_k.ncols());
         let beta = v0.norm_l2();
         let mut unit_vec = faer::Mat::zeros(phi_k.nrows(), 1);
@@ -91,7 +91,7 @@ impl KrylovExpm {
         if k != 1 {
             // the doubling formulas below hold for phi_1 only
             let phi_at = |s: f64| -> Mat<f64> {
-                let phi_s = matexp_pade::phi_ext((faer::Scale(s * dt) * h.as_ref()).as_ref(), k);
+                let phi_s = matexp_pade::phi_ext((faer::Scale(s) * h.as_ref()).as_ref(), k);
                 faer::Scale(beta) * (q.as_ref() * phi_s.as_ref() * unit_vec.as_ref())
             };
             return (phi_at(1.), phi_at(2.), phi_at(3.))
@@ -99,13 +99,13 @@ impl KrylovExpm {
         // compute unscaled phi_k_1 = phi_k(A*dt)*v0
         let phi_k_1 = faer::Scale(beta) * (q.as_ref() * phi_k.as_ref() * unit_vec.as_ref());
         // compute scaled phi_k_2 = phi_k(A*dt*2)*v0
-        let phi_2tau_h = (faer::Scale(dt * 1./2.) * h.as_ref() * phi_k.as_ref() + id.as_ref()) * phi_k.as_ref();
+        let phi_2tau_h = (faer::Scale(1./2.) * h.as_ref() * phi_k.as_ref() + id.as_ref()) * phi_k.as_ref();
         let phi_k_2 = q.as_ref()
             * phi_2tau_h.as_ref()
             * unit_vec.as_ref() * faer::Scale(beta);
         // compute scaled phi_k_3 = phi_k(A*dt*3)*v0
         let phi_k_3 = q.as_ref()
-            * (faer::Scale(2./3.) * (faer::Scale(dt) * h.as_ref() * phi_k.as_ref() + id.as_ref())
+            * (faer::Scale(2./3.) * (h.as_ref() * phi_k.as_ref() + id.as_ref())
             * phi_2tau_h.as_ref() + faer::Scale(1./3.) * phi_k.as_ref())
             * unit_vec.as_ref() * faer::Scale(beta);
         (phi_k_1, phi_k_2, phi_k_3)
-- 
2.43.0


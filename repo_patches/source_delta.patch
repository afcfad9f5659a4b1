From ad2ebda2987dc8354d812e288e1194c658f9ac91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:14 +0000
Subject: [PATCH 01/51] fix: derivative of the Matern 5/2 kernel matrix wrt
 theta without gradients

---
 gpgradpy/src/kernel/KernelMatern5f2.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/gpgradpy/src/kernel/KernelMatern5f2.py b/gpgradpy/src/kernel/KernelMatern5f2.py
index 33914d6..7b3bd90 100644
--- a/gpgradpy/src/kernel/KernelMatern5f2.py
+++ b/gpgradpy/src/kernel/KernelMatern5f2.py
@@ -117,20 +117,14 @@ class KernelMatern5f2Base:
         
         nu_mat = np.sqrt(nu_mat)
         
-        # Take the inverse of nu_mat without causing error for values of zero
-        # Use 1e-16 as min value, does not change final calculations since
-        # nu_mat[i,j] is zero iff Rtensor[k,i,j] is zero for all 0<=k<=(dim-1) 
-        inv_nu_mat = 1 / (2*np.maximum(nu_mat, 1e-16))
-        # inv_nu_mat = np.divide(0.5, nu_mat, out=np.zeros_like(nu_mat[0,0]), where=nu_mat!=0)
-
         sqrt5      = np.sqrt(5)
         Rtensor_sq = Rtensor**2
-        KernBase   = (1 + sqrt5 * nu_mat + (5.0/3.0) * nu_mat**2) * np.exp(-sqrt5 * nu_mat)
+        mat1       = (5.0/3.0) * (1 + sqrt5 * nu_mat) * np.exp(-sqrt5 * nu_mat)
 
         KernBase_grad_th = np.zeros((dim, n1, n1))
 
         for d in range(dim):
-            KernBase_grad_th[d,:,:] = -sqrt5 * Rtensor_sq[d,:,:] * inv_nu_mat * KernBase
+            KernBase_grad_th[d,:,:] = -0.5 * Rtensor_sq[d,:,:] * mat1
 
         return KernBase_grad_th
     
-- 
2.43.0


From ed0eb1ab451d6a0c8ad66ac606bfa3eb16d12fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:14 +0000
Subject: [PATCH 02/51] fix: derivative of the SqExp kernel matrix wrt theta
 when only some gradients are used

---
 gpgradpy/src/kernel/KernelSqExp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gpgradpy/src/kernel/KernelSqExp.py b/gpgradpy/src/kernel/KernelSqExp.py
index da085a3..88f1b23 100644
--- a/gpgradpy/src/kernel/KernelSqExp.py
+++ b/gpgradpy/src/kernel/KernelSqExp.py
@@ -506,12 +506,14 @@ class KernelSqExpGradMod:
         if bvec_use_grad is None:
             n_grad        = n1
             Rtensor_g1    = Rtensor
+            Rtensor_gg    = Rtensor
             Rtensor_sq_g1 = Rtensor_sq_gg = Rtensor_sq
             KernBase_g1   = KernBase_gg   = KernBase
         else:
             n_grad        = np.sum(bvec_use_grad)
             
             Rtensor_g1    = Rtensor[:, bvec_use_grad,:]
+            Rtensor_gg    = Rtensor_g1[:,:, bvec_use_grad]
             
             Rtensor_sq_g1 = Rtensor_sq[:,bvec_use_grad,:]
             Rtensor_sq_gg = Rtensor_sq_g1[:,:,bvec_use_grad]
@@ -549,7 +551,7 @@ class KernelSqExpGradMod:
                 KernGrad_grad_th[d, :n1, ri1:ri2] += term.T
                 
                 # Covariance grad with grad when i == d and j == d
-                term = -4 * theta[i] * Rtensor[d,:,:] * Rtensor[i,:,:] * KernBase
+                term = -4 * theta[i] * Rtensor_gg[d,:,:] * Rtensor_gg[i,:,:] * KernBase_gg
                 KernGrad_grad_th[d, rd1:rd2, ri1:ri2] += term
                 KernGrad_grad_th[d, ri1:ri2, rd1:rd2] += term
                 
-- 
2.43.0


From fd6afba820bf2fe47c9f29165bcca26b5b9c9859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:14 +0000
Subject: [PATCH 03/51] fix: derivative of the Matern 5/2 kernel matrix wrt
 theta when only some gradients are used

---
 gpgradpy/src/kernel/KernelMatern5f2.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gpgradpy/src/kernel/KernelMatern5f2.py b/gpgradpy/src/kernel/KernelMatern5f2.py
index 7b3bd90..ab4561b 100644
--- a/gpgradpy/src/kernel/KernelMatern5f2.py
+++ b/gpgradpy/src/kernel/KernelMatern5f2.py
@@ -562,7 +562,7 @@ class KernelMatern5f2GradMod:
             Rtensor_g1    = Rtensor_gg    = Rtensor
             Rtensor_sq_g1 = Rtensor_sq_gg = Rtensor_sq
             Abase_g1      = Abase_gg      = Abase
-            mat1_g1       = mat1 
+            mat1_g1       = mat1_gg       = mat1 
             nu_mat_gg     = nu_mat
         else:
             n_grad        = np.sum(bvec_use_grad)
@@ -577,6 +577,7 @@ class KernelMatern5f2GradMod:
             Abase_gg      = Abase_g1[:, bvec_use_grad]
             
             mat1_g1       = mat1[bvec_use_grad, :]
+            mat1_gg       = mat1_g1[:, bvec_use_grad]
             
             nu_mat_g1     = nu_mat[bvec_use_grad,:]
             nu_mat_gg     = nu_mat_g1[:,bvec_use_grad]
@@ -605,7 +606,7 @@ class KernelMatern5f2GradMod:
             KernGrad_grad_th[d, :n1, rd1:rd2] += term.T
             
             # Covariance grad with grad for case of d == i == j
-            KernGrad_grad_th[d, rd1:rd2, rd1:rd2] += mat1
+            KernGrad_grad_th[d, rd1:rd2, rd1:rd2] += mat1_gg
             
             for i in range(dim):
                 ri1 = n1 + i * n_grad
@@ -617,7 +618,7 @@ class KernelMatern5f2GradMod:
                 KernGrad_grad_th[d, :n1, ri1:ri2] += term.T
                 
                 # Covariance grad with grad when i == d and j == d
-                term = -((25./3.) * theta[i]) * Rtensor_g1[i] * Rtensor_g1[d] * Abase_g1
+                term = -((25./3.) * theta[i]) * Rtensor_gg[i] * Rtensor_gg[d] * Abase_gg
                 KernGrad_grad_th[d, rd1:rd2, ri1:ri2] += term
                 KernGrad_grad_th[d, ri1:ri2, rd1:rd2] += term.T
                 
-- 
2.43.0


From 53d3e79d8aedf216bd201f0612ffc19ed3ac9668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 04/51] fix: RatQu kernel matrix when only some gradients are
 used for its first argument

---
 gpgradpy/src/kernel/KernelRatQuad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/src/kernel/KernelRatQuad.py b/gpgradpy/src/kernel/KernelRatQuad.py
index 2cdf6d0..f659f97 100644
--- a/gpgradpy/src/kernel/KernelRatQuad.py
+++ b/gpgradpy/src/kernel/KernelRatQuad.py
@@ -499,7 +499,7 @@ class KernelRatQuadGradMod:
                 
                 Rtensor_sq_gg   = Rtensor_sq_g1
                 
-                B_m_alpha_m1_g2 = B_m_alpha_m1_g1
+                B_m_alpha_m1_g2 = B_m_alpha_m1
                 B_m_alpha_m1_gg = B_m_alpha_m1_g1
                 
                 B_m_alpha_m2_gg = B_m_alpha_m2_g1
-- 
2.43.0


From 6d449a0b42c4176357770ffe83111dfb28d18cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 05/51] fix: Hessian of the surrogate when only some gradients
 are used

---
 gpgradpy/src/eval/GpEvalModel.py       | 16 ++++++++++------
 gpgradpy/src/kernel/KernelMatern5f2.py |  2 +-
 gpgradpy/src/kernel/KernelRatQuad.py   |  6 +++---
 gpgradpy/src/kernel/KernelSqExp.py     |  2 +-
 4 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/gpgradpy/src/eval/GpEvalModel.py b/gpgradpy/src/eval/GpEvalModel.py
index c6bd211..4baf371 100644
--- a/gpgradpy/src/eval/GpEvalModel.py
+++ b/gpgradpy/src/eval/GpEvalModel.py
@@ -149,7 +149,10 @@ class GpEvalModel(GpMeanFun):
         
         if calc_hess:
             Rtensor   = self.calc_Rtensor(x2model, x_eval_scl, 1)
-            d2Kxy_dx2 = self.calc_Kern_hess_x(Rtensor, theta, hp_kernel) # * sigK
+            if self.use_grad:
+                d2Kxy_dx2 = self.calc_Kern_hess_x(Rtensor, theta, hp_kernel, self.bvec_use_grad) # * sigK
+            else:
+                d2Kxy_dx2 = self.calc_Kern_hess_x(Rtensor, theta, hp_kernel) # * sigK
             
         Kxy_invKernEta = linalg.cho_solve(self.KernEta_chofac, Kyx).T
 
@@ -283,7 +286,10 @@ class GpEvalModel(GpMeanFun):
         
         if calc_hess:
             Rtensor   = self.calc_Rtensor(x2model, x_eval_scl, 1)
-            d2Kxy_dx2 = self.calc_Kern_hess_x(Rtensor, theta, hp_kernel) # * sigK
+            if self.use_grad:
+                d2Kxy_dx2 = self.calc_Kern_hess_x(Rtensor, theta, hp_kernel, self.bvec_use_grad) # * sigK
+            else:
+                d2Kxy_dx2 = self.calc_Kern_hess_x(Rtensor, theta, hp_kernel) # * sigK
             
         Kxy_invKernEta = linalg.cho_solve(self.KernEta_chofac, Kyx).T
 
@@ -355,8 +361,7 @@ class GpEvalModel(GpMeanFun):
 
     def calc_d2mudx2(self, d2Kxy_dx2):
         
-        n_data = self.n_eval * (1 + self.dim) if self.use_grad else self.n_eval
-        assert d2Kxy_dx2.shape == (self.dim, self.dim, n_data), 'calc_d2mudx2 can only be used on one point per call'
+        assert d2Kxy_dx2.shape == (self.dim, self.dim, self.n_data), 'calc_d2mudx2 can only be used on one point per call'
         
         d2mudx2 = np.matmul(d2Kxy_dx2, self.invKernEta_fdiff[None,:,None])[:,:,0]
         
@@ -365,8 +370,7 @@ class GpEvalModel(GpMeanFun):
     def calc_d2sigdx2(self, sig, dsigdx, Kxy_invKernEta, dKxy_dx, d2Kxy_dx2, sigK):
         
         # Preliminaries
-        n_data = self.n_eval * (1 + self.dim) if self.use_grad else self.n_eval
-        assert d2Kxy_dx2.shape == (self.dim, self.dim, n_data), 'calc_d2sigdx2 can only be used on one point per call'
+        assert d2Kxy_dx2.shape == (self.dim, self.dim, self.n_data), 'calc_d2sigdx2 can only be used on one point per call'
         
         # Calculate d2sig2_dx2
         term1       = np.matmul(d2Kxy_dx2, Kxy_invKernEta.T[None,:,:]) 
diff --git a/gpgradpy/src/kernel/KernelMatern5f2.py b/gpgradpy/src/kernel/KernelMatern5f2.py
index ab4561b..9d3ba74 100644
--- a/gpgradpy/src/kernel/KernelMatern5f2.py
+++ b/gpgradpy/src/kernel/KernelMatern5f2.py
@@ -513,7 +513,7 @@ class KernelMatern5f2GradMod:
                     Rj_til   = Rtensor_g2[j] * theta[j]
                     
                     cj1 = n2 + j * n2_grad
-                    cj2 = cj1 + n2 
+                    cj2 = cj1 + n2_grad 
                     
                     KernGrad_grad_x[k, ri1:ri2, cj1:cj2] \
                         = -(25/3) * (theta[i]   * delta_ik * Rj_til 
diff --git a/gpgradpy/src/kernel/KernelRatQuad.py b/gpgradpy/src/kernel/KernelRatQuad.py
index f659f97..f18c6ed 100644
--- a/gpgradpy/src/kernel/KernelRatQuad.py
+++ b/gpgradpy/src/kernel/KernelRatQuad.py
@@ -601,7 +601,7 @@ class KernelRatQuadGradMod:
             rk2 = rk1 + n1
             
             ck1 = n2 + k * n2_grad
-            ck2 = ck1 + n2 
+            ck2 = ck1 + n2_grad 
             
             KernGrad_grad_x[k, rk1:rk2, :n2] -= 2 * theta[k] * B_m_alpha_m1
             
@@ -610,7 +610,7 @@ class KernelRatQuadGradMod:
                 ri2 = ri1 + n1
                 
                 ci1 = n2 + i * n2_grad
-                ci2 = ci1 + n2 
+                ci2 = ci1 + n2_grad 
                 
                 # Covariance obj with grad
                 KernGrad_grad_x[k, ri1:ri2, :n2] += (scalar1 * theta[i] * theta[k]) * Rtensor[i,:,:] * Rtensor[k,:,:] * B_m_alpha_m2
@@ -624,7 +624,7 @@ class KernelRatQuadGradMod:
                 
                 for j in range(dim):
                     cj1 = n2 + j * n2_grad
-                    cj2 = cj1 + n2 
+                    cj2 = cj1 + n2_grad 
                     
                     KernGrad_grad_x[k, ri1:ri2, cj1:cj2] \
                         += (scalar2 * theta[i] * theta[j] * theta[k]) * Rtensor_g2[i] * Rtensor_g2[j] * Rtensor_g2[k] * B_m_alpha_m3_g2
diff --git a/gpgradpy/src/kernel/KernelSqExp.py b/gpgradpy/src/kernel/KernelSqExp.py
index 88f1b23..5503a39 100644
--- a/gpgradpy/src/kernel/KernelSqExp.py
+++ b/gpgradpy/src/kernel/KernelSqExp.py
@@ -458,7 +458,7 @@ class KernelSqExpGradMod:
                     delta_ij = int(i == j)
                     
                     cj1 = n2 + j * n2_grad
-                    cj2 = cj1 + n2 
+                    cj2 = cj1 + n2_grad 
                     
                     KernGrad_grad_x[k, ri1:ri2, cj1:cj2] \
                         = (-4* theta[i] * theta[j] * (delta_ik * Rtensor_g2[j] + delta_jk * Rtensor_g2[i])
-- 
2.43.0


From 0be9cab1e4feb9a532691c1ead16a473e38729ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 06/51] fix: Latin hypercube sampling option so that the
 hyperparameters can be optimized for dim > 1

---
 gpgradpy/src/optz/GpHparaX0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/src/optz/GpHparaX0.py b/gpgradpy/src/optz/GpHparaX0.py
index 5d52a9c..7abd99b 100644
--- a/gpgradpy/src/optz/GpHparaX0.py
+++ b/gpgradpy/src/optz/GpHparaX0.py
@@ -177,7 +177,7 @@ class GpHparaX0:
             hp_x0       = np.linspace(lhs_lb[0], lhs_ub[0], n_x0+2)[1:-1,None]
         else:
             para_limit  = np.array([lhs_lb, lhs_ub]).T
-            sampling    = LHS(xlimits=para_limit, random_state = 1)
+            sampling    = LHS(xlimits=para_limit, seed = 1)
             hp_x0       = sampling(n_x0) 
         
         return hp_x0, hp_optz_bounds
-- 
2.43.0


From b66471174e6e835fe91844f6d5c3abb4b70e7553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 07/51] fix: noise variance is relative to varK when the
 surrogate is evaluated

---
 gpgradpy/src/kernel/Kernel.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gpgradpy/src/kernel/Kernel.py b/gpgradpy/src/kernel/Kernel.py
index 40b6d6d..10ea1f7 100755
--- a/gpgradpy/src/kernel/Kernel.py
+++ b/gpgradpy/src/kernel/Kernel.py
@@ -193,6 +193,9 @@ class Kernel(KernelSqExp, KernelRatQuad, KernelMatern5f2):
             assert hp_vals.varK  is not None, f'varK is not provided and hp_vals.varK is None, hp_vals = {hp_vals}'
             varK = hp_vals.varK 
             
+        # The noise is always relative to the variance of the kernel
+        noise_scale = varK
+            
         if b_normlz_w_varK:
             varK = 1.0
         else:
@@ -215,7 +218,7 @@ class Kernel(KernelSqExp, KernelRatQuad, KernelMatern5f2):
         else:
             Kern = self.calc_Kern(Rtensor, theta, hp_kernel)
             
-        Kern_w_noise = Kern + np.diag(noise_vec / varK) 
+        Kern_w_noise = Kern + np.diag(noise_vec / noise_scale) 
         
         if self.wellcond_mtd == 'precon':
             
-- 
2.43.0


From 450f517b95fed11566d6e332808a9723fd568822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 08/51] fix: noise vector for gradient-free surrogate with
 unknown noise

---
 gpgradpy/src/kernel/Kernel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/src/kernel/Kernel.py b/gpgradpy/src/kernel/Kernel.py
index 10ea1f7..e57b266 100755
--- a/gpgradpy/src/kernel/Kernel.py
+++ b/gpgradpy/src/kernel/Kernel.py
@@ -336,7 +336,7 @@ class Kernel(KernelSqExp, KernelRatQuad, KernelMatern5f2):
                 assert not np.any(np.isnan(std_fval)), f'There are nan values: std_fval = {std_fval}'
                 var_noise = std_fval**2
             else:
-                var_noise = np.full(std_fval.size, hp_vals.var_fval)
+                var_noise = np.full(self.n_eval, hp_vals.var_fval)
             
         else:
             var_noise = np.zeros(self.n_data)
-- 
2.43.0


From 03a67eb0823a80936144ab2c02192f2c2d13a958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 09/51] fix: accept wellcond_mtd = None as the base method

---
 gpgradpy/src/GaussianProcess.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gpgradpy/src/GaussianProcess.py b/gpgradpy/src/GaussianProcess.py
index 1a41609..21c529a 100755
--- a/gpgradpy/src/GaussianProcess.py
+++ b/gpgradpy/src/GaussianProcess.py
@@ -191,12 +191,13 @@ class GaussianProcess(CommonFun, GpInfo, GpHpara, GpParaDef, GpWellCond,
         
     def set_wellcond_mtd(self, wellcond_mtd):
         
+        if wellcond_mtd is None:
+            wellcond_mtd = 'base'
+        
         assert wellcond_mtd in self.wellcond_mtd_avail, \
             f'Requested method not available, wellcond_mtd : {wellcond_mtd}'
             
-        if wellcond_mtd is None:
-            wellcond_mtd = 'base'
-        elif wellcond_mtd == 'rescale_eta_vary':
+        if wellcond_mtd == 'rescale_eta_vary':
             self.cond_eta_is_const = False
             
         if not self.use_grad:
-- 
2.43.0


From 941af3f590c83c6fb1f525fe98d2f34960f79ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 10/51] fix: clip variances that are negative only due to
 round-off error

---
 gpgradpy/src/eval/GpEvalModel.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gpgradpy/src/eval/GpEvalModel.py b/gpgradpy/src/eval/GpEvalModel.py
index 4baf371..af16e4a 100644
--- a/gpgradpy/src/eval/GpEvalModel.py
+++ b/gpgradpy/src/eval/GpEvalModel.py
@@ -163,7 +163,7 @@ class GpEvalModel(GpMeanFun):
                                  calc_grad = calc_grad, calc_hess = calc_hess)
         
         sig2_wo_sigK = one_nx - np.diag(Kxy @ Kxy_invKernEta.T)
-        assert np.min(sig2_wo_sigK) >= 0, f'The variance of the surr should be non-negative but min(sig2_wo_sigK) = {np.min(sig2_wo_sigK)}'
+        assert np.min(sig2_wo_sigK) >= -1e-8, f'The variance of the surr should be non-negative but min(sig2_wo_sigK) = {np.min(sig2_wo_sigK)}'
         
         sig2_wo_sigK[sig2_wo_sigK<0] = 0 # Clip very small negative values 
         sig = np.sqrt(sig2_wo_sigK) * sigK
@@ -299,8 +299,11 @@ class GpEvalModel(GpMeanFun):
             = self.eval_mean_fun(x2model, hp_beta, 
                                  calc_grad = calc_grad, calc_hess = calc_hess)
         
-        sig2 = varK * (one_nx - np.diag(Kxy @ Kxy_invKernEta.T))
-        assert np.min(sig2) >= 0, f'The variance of the surr should be non-negative but min(sig2) = {np.min(sig2)}'
+        sig2_wo_varK = one_nx - np.diag(Kxy @ Kxy_invKernEta.T)
+        assert np.min(sig2_wo_varK) >= -1e-8, f'The variance of the surr should be non-negative but min(sig2_wo_varK) = {np.min(sig2_wo_varK)}'
+        
+        sig2_wo_varK[sig2_wo_varK<0] = 0 # Clip very small negative values 
+        sig2 = varK * sig2_wo_varK
 
         if calc_grad:
             dsig2dx = self.calc_dsig2dx(sig2, Kxy_invKernEta, dKxy_dx, varK)
-- 
2.43.0


From e8d22f5ed005f4aba179dce9cb1ebfeeb0e28f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 11/51] fix: detect hyperparameters that were modified since
 the surrogate was set up

---
 gpgradpy/src/eval/GpEvalModel.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/gpgradpy/src/eval/GpEvalModel.py b/gpgradpy/src/eval/GpEvalModel.py
index af16e4a..f1a80d9 100644
--- a/gpgradpy/src/eval/GpEvalModel.py
+++ b/gpgradpy/src/eval/GpEvalModel.py
@@ -22,7 +22,7 @@ class GpEvalModel(GpMeanFun):
         can be evaluated with eval_model()
         '''
         
-        self._hp_vals_model_setup = copy.copy(self.hp_vals)
+        self._hp_vals_model_setup = copy.deepcopy(self.hp_vals)
         
         x_scl, Rtensor        = self.get_scl_x_w_dist()
         fval_scl, _, grad_scl = self.get_scl_eval_data()[:3]
@@ -56,6 +56,19 @@ class GpEvalModel(GpMeanFun):
         else:
             self.invKernEta_fdiff = linalg.cho_solve(KernEta_chofac, f_diff)
         
+    def check_hp_vals_unchanged(self):
+        
+        # True if hp_vals has the same values as when setup_eval_model() was called
+        for name, val_setup in vars(self._hp_vals_model_setup).items():
+            val = getattr(self.hp_vals, name)
+            
+            if (val is None) or (val_setup is None):
+                if val is not val_setup: return False
+            elif not np.array_equal(val, val_setup, equal_nan = True):
+                return False
+            
+        return True
+        
     def eval_model(self, x2model_in, calc_grad = False, calc_hess = False, squeeze_nx = False):
         '''
         Parameters
@@ -102,7 +115,7 @@ class GpEvalModel(GpMeanFun):
         if squeeze_nx:
             assert nx == 1, 'If squeeze_nx is True, then x_acq must only have one point'
         
-        check_hp_vals = self.hp_vals == self._hp_vals_model_setup
+        check_hp_vals = self.check_hp_vals_unchanged()
         
         if check_hp_vals is False:
             print('hp_vals has changed since setup_eval_model() was called')
@@ -238,7 +251,7 @@ class GpEvalModel(GpMeanFun):
         if squeeze_nx:
             assert nx == 1, 'If squeeze_nx is True, then x_acq must only have one point'
         
-        check_hp_vals = self.hp_vals == self._hp_vals_model_setup
+        check_hp_vals = self.check_hp_vals_unchanged()
         
         if check_hp_vals is False:
             print('hp_vals has changed since setup_eval_model() was called')
-- 
2.43.0


From f806aef84dce3ef1f9877eb26f3464977f0f64b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 12/51] fix: saving and loading the data of the surrogate to
 and from files

---
 gpgradpy/src/base/GpInfo.py    | 12 +++++++++++-
 gpgradpy/src/base/GpParaDef.py | 14 +++++++++++---
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/gpgradpy/src/base/GpInfo.py b/gpgradpy/src/base/GpInfo.py
index b5000fe..3a9163e 100644
--- a/gpgradpy/src/base/GpInfo.py
+++ b/gpgradpy/src/base/GpInfo.py
@@ -6,6 +6,7 @@ Created on Sun Jun  6 09:48:36 2021
 @author: andremarchildon
 """
 
+import os
 import numpy as np
 from tabulate import tabulate
 
@@ -31,10 +32,19 @@ class GpInfo:
             print(data2print)
 
         if save2file:
-            self.save_txt_data(data2print, self.path_data_surr_txt, self.path_data_surr_old_txt)
+            self.save_txt_data(data2print, self.path_surr_txt, self.path_surr_old_txt)
 
         return data2print
 
+    @staticmethod
+    def save_txt_data(data2print, file2save, file2save_old):
+        
+        # Keep a copy of the previous file
+        if os.path.isfile(file2save): os.replace(file2save, file2save_old)
+        
+        with open(file2save, 'w') as file:
+            file.write(data2print)
+
     def info_surr_all_data(self, print2screen=True):
         
         data2print  = self.info_surr_summary(False)
diff --git a/gpgradpy/src/base/GpParaDef.py b/gpgradpy/src/base/GpParaDef.py
index 9e09b6e..61a0c87 100644
--- a/gpgradpy/src/base/GpParaDef.py
+++ b/gpgradpy/src/base/GpParaDef.py
@@ -117,7 +117,7 @@ class GpParaDef:
         assert self._save_data, 'If the method init_optz_surr has not been called, then load_data_surr cannot be used'
         
         if all_data is None: 
-            file2load = self.path_data_acq_npz
+            file2load = self.path_surr_npz
             
             if not os.path.isfile(file2load): return 
             
@@ -209,13 +209,21 @@ class GpParaDef:
                      }
 
         if save2file:
-            if file2save     is None: file2save     = self.path_data_surr_npz
-            if file2save_old is None: file2save_old = self.path_data_surr_old_npz
+            if file2save     is None: file2save     = self.path_surr_npz
+            if file2save_old is None: file2save_old = self.path_surr_old_npz
             
             self.save_npz_data(data2save, file2save, file2save_old)
                 
         return data2save
 
+    @staticmethod
+    def save_npz_data(data2save, file2save, file2save_old):
+        
+        # Keep a copy of the previous file
+        if os.path.isfile(file2save): os.replace(file2save, file2save_old)
+        
+        np.savez(file2save, **data2save)
+
     def store_new_para_surr(self, i_optz, hp_vals, 
                             surr_optz_info = None,   cond_val    = np.nan, 
                             time_hp_optz   = np.nan, time_chofac = np.nan, time_pick_hp0 = np.nan):
-- 
2.43.0


From 3855e5c8eaaeb14315e29234cefcc04950b0f0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 13/51] fix: Rescaling with a user provided shift

---
 gpgradpy/src/base/Rescaling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpgradpy/src/base/Rescaling.py b/gpgradpy/src/base/Rescaling.py
index bb2d613..637fb50 100644
--- a/gpgradpy/src/base/Rescaling.py
+++ b/gpgradpy/src/base/Rescaling.py
@@ -84,8 +84,8 @@ class RescalingXdata:
                 x_shift = np.zeros(self.dim)
         else:
             assert x_shift_in.size == self.dim, f'Wrong size for x_shift_in: {x_shift_in.shape}'
-            assert x_shift_in.dim <= 1, f'Wrong shape for x_shift_in: {x_shift_in.shape}'
-            x_shift = 1 * np.atlest_1d(x_shift_in)
+            assert x_shift_in.ndim <= 1, f'Wrong shape for x_shift_in: {x_shift_in.shape}'
+            x_shift = 1 * np.atleast_1d(x_shift_in)
         
         if xvec_scale_in is None:
             xvec_scale_in = np.ones(self.dim)
-- 
2.43.0


From c198898a0b0bd3f10b8cbaff803c0ad01ebd30e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 14/51] fix: Rescaling of x once the data for nonlinear
 constraints is set

---
 gpgradpy/src/base/Rescaling.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/gpgradpy/src/base/Rescaling.py b/gpgradpy/src/base/Rescaling.py
index 637fb50..88441d5 100644
--- a/gpgradpy/src/base/Rescaling.py
+++ b/gpgradpy/src/base/Rescaling.py
@@ -58,16 +58,13 @@ class RescalingXdata:
             self._calc_n_set_scl_obj()
             
         if self._nlc_data_set:
-            self._calc_n_set_scl_nlc_data()
+            self._calc_n_set_scl_nlc()
             
         if self._boxcon_set:
             self._calc_n_set_scl_boxcon()
             
         if self._lincon_set:
             self._calc_n_set_scl_lincon()
-        
-        if self._nlc_data_set:
-            self._calc_n_set_scl_nonlincon()
     
     def _calc_x_shift_n_scale(self, x_shift_in = None, xvec_scale_in = None):
         
-- 
2.43.0


From 7b85b4d41d049d4904d9223be41d53ec4a70dee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 15/51] fix: Rescaling of nonlinear constraints with default
 method and missing entries

---
 gpgradpy/src/base/Rescaling.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gpgradpy/src/base/Rescaling.py b/gpgradpy/src/base/Rescaling.py
index 88441d5..25a88d1 100644
--- a/gpgradpy/src/base/Rescaling.py
+++ b/gpgradpy/src/base/Rescaling.py
@@ -264,7 +264,7 @@ class RescalingNonlincon:
         
         # Unscale the mean and standard deviation of the data
         mu_scl       = (mu_in - self.nlc_shift[None,:]) * self.nlc_scale
-        sig_scl      = sig_in * self.nlc_scale 
+        sig_scl      = None if sig_in is None else sig_in * self.nlc_scale 
         
         # Scale the gradients
         scl_vec      = normz_xvec_scale_inv * self.nlc_scale
@@ -287,7 +287,7 @@ class RescalingNonlincon:
         # uncertainty of the gradient. The same applies to the Hessian
         
         assert self._nlc_data_set, 'Must call set_nlc_data prior to this method'
-        assert mu_scl.ndim == 2,  f'Unexpected shape for mu_scl of {mu_scl.shape}'
+        assert (mu_scl is None) or (mu_scl.ndim == 2), f'Unexpected shape for mu_scl of {mu_scl.shape}'
         
         scl_grad_vec  = self.xvec_scale[None,None,:]    / self.nlc_scale
         scl_hess_vec  = self.xvec_scale[None,None,:]**2 / self.nlc_scale
@@ -482,7 +482,7 @@ class Rescaling(RescalingXdata, RescalingLincon, RescalingObjData, RescalingNonl
         assert self._obj_data_set, 'Must call the method set_obj_data prior to this method'
         return self.obj_scl, self.std_obj_scl, self.grad_scl, self.std_grad_scl
         
-    def set_nlc_data(self, nlc_val_init, nlc_std_val_init, nlc_grad_init, nlc_std_grad_init, use_nlc_shift = False, nlc_scl_method = 'dflt_max'):
+    def set_nlc_data(self, nlc_val_init, nlc_std_val_init, nlc_grad_init, nlc_std_grad_init, use_nlc_shift = False, nlc_scl_method = None):
         
         n_eval, self.nlc_n = nlc_val_init.shape
         assert self._xdata_set, 'Must call the method set_xdata prior to set_obj_data'
-- 
2.43.0


From 72757cb5670aa70838fdd435f73e3705e0248d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 16/51] fix: Rescaling of Hessians when the coordinates have
 different scales

---
 gpgradpy/src/base/Rescaling.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gpgradpy/src/base/Rescaling.py b/gpgradpy/src/base/Rescaling.py
index 25a88d1..97b6468 100644
--- a/gpgradpy/src/base/Rescaling.py
+++ b/gpgradpy/src/base/Rescaling.py
@@ -140,7 +140,7 @@ class RescalingObjData:
         
         scale_inv    = 1 / self.xvec_scale[None,:]
         scl_grad_vec = scale_inv    * self.obj_scale
-        scl_hess_vec = scale_inv**2 * self.obj_scale
+        scl_hess_vec = (scale_inv.T * scale_inv) * self.obj_scale
         
         # Unscale the mean and standard deviation of the data
         mu_scl       = None if mu_in       is None else (mu_in - self.obj_shift) * self.obj_scale
@@ -165,7 +165,7 @@ class RescalingObjData:
         assert self._obj_data_set, 'Must call set_obj_data prior to this method'
         
         scl_grad_vec = self.xvec_scale[None,:]    / self.obj_scale
-        scl_hess_vec = self.xvec_scale[None,:]**2 / self.obj_scale
+        scl_hess_vec = np.outer(self.xvec_scale, self.xvec_scale) / self.obj_scale
         
         # Unscale the mean and standard deviation of the data
         mu       = None if mu_scl       is None else mu_scl  / self.obj_scale + self.obj_shift
@@ -272,7 +272,7 @@ class RescalingNonlincon:
         dsigdx_scl   = None if dsigdx_in is None else dsigdx_in * scl_vec
         
         # Scale the Hessians
-        scl_vec      = normz_xvec_scale_inv**2 * self.nlc_scale
+        scl_vec      = np.outer(normz_xvec_scale_inv, normz_xvec_scale_inv) * self.nlc_scale
         d2mudx2_scl  = None if d2mudx2_in  is None else d2mudx2_in  * scl_vec
         d2sigdx2_scl = None if d2sigdx2_in is None else d2sigdx2_in * scl_vec
         
@@ -290,7 +290,7 @@ class RescalingNonlincon:
         assert (mu_scl is None) or (mu_scl.ndim == 2), f'Unexpected shape for mu_scl of {mu_scl.shape}'
         
         scl_grad_vec  = self.xvec_scale[None,None,:]    / self.nlc_scale
-        scl_hess_vec  = self.xvec_scale[None,None,:]**2 / self.nlc_scale
+        scl_hess_vec  = np.outer(self.xvec_scale, self.xvec_scale) / self.nlc_scale
         
         mu       = None if mu_scl  is None else mu_scl  / self.nlc_scale + self.nlc_shift[None,:]
         sig      = None if sig_scl is None else sig_scl / self.nlc_scale
-- 
2.43.0


From a300dcd02a976067b550ae5bd1b7a0e5074aeaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 17/51] fix: shape of the feasibility data returned by
 load_npz_data

---
 gpgradpy/results/PltOptzResults.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gpgradpy/results/PltOptzResults.py b/gpgradpy/results/PltOptzResults.py
index 20276f6..d37220a 100644
--- a/gpgradpy/results/PltOptzResults.py
+++ b/gpgradpy/results/PltOptzResults.py
@@ -66,6 +66,7 @@ class PltOptzResults:
         else:
             merit_all = merit_all[:, :n_x0_max, :]
             opt_all   = opt_all[:, :n_x0_max, :]
+            fsb_all   = fsb_all[:, :n_x0_max, :]
             
         return merit_all, opt_all, fsb_all
     
-- 
2.43.0


From 6538b1d7b343ddfb44ff5d37d8402533a16478b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:20 +0000
Subject: [PATCH 18/51] fix: kernel hyperparameter is a scalar so that the
 RatQu hyperparameters can be stored

---
 gpgradpy/src/base/GpHpara.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/src/base/GpHpara.py b/gpgradpy/src/base/GpHpara.py
index 9694678..aa61697 100755
--- a/gpgradpy/src/base/GpHpara.py
+++ b/gpgradpy/src/base/GpHpara.py
@@ -78,7 +78,7 @@ class GpHpara:
             theta = None
         
         if hp_optz_info.has_kernel:
-            hp_kernel = hp_vec_mod[hp_optz_info.idx_kernel]
+            hp_kernel = hp_vec_mod[hp_optz_info.idx_kernel][0]
         else:
             hp_kernel = None
         
-- 
2.43.0


From 49dae75aafb43a1136cdb63225c61c906f95fb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:20 +0000
Subject: [PATCH 19/51] fix: default kernel hyperparameter is used when it is
 not optimized

---
 gpgradpy/src/base/GpHpara.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/src/base/GpHpara.py b/gpgradpy/src/base/GpHpara.py
index aa61697..6d9b4e4 100755
--- a/gpgradpy/src/base/GpHpara.py
+++ b/gpgradpy/src/base/GpHpara.py
@@ -80,7 +80,7 @@ class GpHpara:
         if hp_optz_info.has_kernel:
             hp_kernel = hp_vec_mod[hp_optz_info.idx_kernel][0]
         else:
-            hp_kernel = None
+            hp_kernel = self.hp_kernel_default
         
         if hp_optz_info.has_varK:
             assert self.b_has_noisy_data
-- 
2.43.0


From 38f1e706ecf4b7a62ac1eeed36f51f79f2dfdaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:37 +0000
Subject: [PATCH 20/51] fix: derivative of the nugget when it depends on the
 hyperparameters

---
 gpgradpy/src/optz/CalcLkd.py     | 12 +++-
 gpgradpy/src/optz/GpHparaGrad.py | 97 ++++++++++++++++++++++++++------
 2 files changed, 91 insertions(+), 18 deletions(-)

diff --git a/gpgradpy/src/optz/CalcLkd.py b/gpgradpy/src/optz/CalcLkd.py
index 8887f73..1f2ddbb 100644
--- a/gpgradpy/src/optz/CalcLkd.py
+++ b/gpgradpy/src/optz/CalcLkd.py
@@ -301,7 +301,11 @@ class CalcLkd(calcLkdWNoise, calcLkdWoNoise):
                 = self.calc_all_K_w_chofac(Rtensor, hp_vals, calc_cond = calc_cond)
             
             if calc_grad:
-                Kcov_grad_hp = self.calc_Kcov_grad_hp(self.hp_info_optz_lkd, hp_vals, Kern, Rtensor)
+                Kcov_grad_hp = self.calc_Kcov_grad_hp(self.hp_info_optz_lkd, hp_vals, Kern, Rtensor, etaK)
+                
+                if idx_etaK_argmax is not None:
+                    Kcov_grad_hp += self.calc_etaK_term_grad_hp(self.hp_info_optz_lkd, hp_vals, Kern, Kcov, Rtensor, 
+                                                                etaK, idx_etaK_argmax, hp_vals.varK)
             else:
                 Kcov_grad_hp = None
             
@@ -323,7 +327,11 @@ class CalcLkd(calcLkdWNoise, calcLkdWoNoise):
                 = self.calc_Kern_w_chofac(Rtensor, hp_vals, calc_cond = calc_cond)
             
             if calc_grad:
-                KernGrad_hp = self.calc_KernGrad_hp(self.hp_info_optz_lkd, hp_vals, Rtensor)
+                KernGrad_hp = self.calc_KernGrad_hp(self.hp_info_optz_lkd, hp_vals, Rtensor, etaK)
+                
+                if idx_etaK_argmax is not None:
+                    KernGrad_hp += self.calc_etaK_term_grad_hp(self.hp_info_optz_lkd, hp_vals, Kern, Kern_w_eta, Rtensor, 
+                                                               etaK, idx_etaK_argmax)
             else:
                 KernGrad_hp = None
             
diff --git a/gpgradpy/src/optz/GpHparaGrad.py b/gpgradpy/src/optz/GpHparaGrad.py
index 623572d..74e27b0 100644
--- a/gpgradpy/src/optz/GpHparaGrad.py
+++ b/gpgradpy/src/optz/GpHparaGrad.py
@@ -55,7 +55,72 @@ class GpHparaGrad:
 
         return KernGrad_hp
 
-    def calc_Kcov_grad_hp(self, hp_optz_info, hp_vals, Kern, Rtensor):
+    def calc_etaK_term_grad_hp(self, hp_optz_info, hp_vals, Kern, Kmat_w_eta, Rtensor, etaK, idx_etaK_argmax, varK = 1):
+        '''
+        Contribution of the derivative of the nugget to the derivative of the 
+        regularized matrix, which is only needed if cond_eta_is_const is False.
+        
+        Parameters
+        ----------
+        Kern : 2D numpy array
+            Kernel matrix.
+        Kmat_w_eta : 2D numpy array
+            Regularized kernel or covariance matrix.
+        etaK : float
+            Nugget that was used for Kmat_w_eta.
+        idx_etaK_argmax : int
+            Index of the row with the largest sum of absolute values, which 
+            sets the nugget.
+        varK : float, optional
+            Hyperparameter varK, must be 1 if Kmat_w_eta is a kernel matrix.
+        '''
+        
+        idx       = idx_etaK_argmax
+        row_grad  = np.zeros((hp_optz_info.n_hp, self.n_data))
+        diag_grad = np.zeros((hp_optz_info.n_hp, self.n_data))
+        
+        def add_grad(idx_hp, Kern_grad):
+            row_grad[idx_hp,:]  = Kern_grad[:,idx,:]
+            diag_grad[idx_hp,:] = np.einsum('kii->ki', Kern_grad)
+        
+        if hp_optz_info.has_theta:
+            add_grad(hp_optz_info.idx_theta, 
+                     self.calc_Kern_grad_theta(Rtensor, hp_vals.theta, hp_vals.kernel, self.bvec_use_grad))
+            
+        if hp_optz_info.has_kernel:
+            add_grad(hp_optz_info.idx_kernel, 
+                     self.calc_Kern_grad_alpha(Rtensor, hp_vals.theta, hp_vals.kernel, self.bvec_use_grad))
+        
+        if self.wellcond_mtd == 'precon':
+            # The nugget depends on the correlation matrix, which includes the noise
+            diag_noise = np.diag(Kmat_w_eta) / (varK * (1 + etaK)) - np.diag(Kern)
+            
+            if hp_optz_info.has_varK:
+                diag_grad[hp_optz_info.idx_varK,:] = -diag_noise / varK
+            
+            if hp_optz_info.has_var_fval:
+                diag_grad[hp_optz_info.idx_var_fval, :self.n_eval]  = 1 / varK
+                
+            if hp_optz_info.has_var_fgrad:
+                diag_grad[hp_optz_info.idx_var_fgrad, self.n_eval:] = 1 / varK
+            
+            diag_K   = np.diag(Kern) + diag_noise
+            inv_p    = 1 / np.sqrt(diag_K[idx] * diag_K)
+            frac     = diag_grad / diag_K[None,:]
+            row_Kcor = Kern[idx,:] * inv_p
+            
+            row_grad = row_grad * inv_p[None,:] - 0.5 * row_Kcor[None,:] * (frac + frac[:,[idx]])
+            row_grad[:,idx] = 0 # Diagonal entries of the correlation matrix are unity
+            
+            eta_diag = varK * diag_K
+        else:
+            eta_diag = np.full(self.n_data, varK)
+            
+        etaK_grad = row_grad @ np.sign(Kern[idx,:]) / (self.cond_max_target - 1)
+        
+        return etaK_grad[:,None,None] * np.diag(eta_diag)[None,:,:]
+
+    def calc_Kcov_grad_hp(self, hp_optz_info, hp_vals, Kern, Rtensor, etaK = None):
         '''
         Parameters
         ----------
@@ -78,45 +143,45 @@ class GpHparaGrad:
 
         if hp_optz_info.has_theta:
             Kcov_grad_hp[hp_optz_info.idx_theta,:,:] \
-                = self.calc_Kcov_grad_theta(hp_vals, Rtensor)
+                = self.calc_Kcov_grad_theta(hp_vals, Rtensor, etaK)
 
         if hp_optz_info.has_kernel:
-            Kcov_grad_hp[hp_optz_info.idx_kernel,:,:] = self.calc_Kcov_grad_alpha(hp_vals, Rtensor)
+            Kcov_grad_hp[hp_optz_info.idx_kernel,:,:] = self.calc_Kcov_grad_alpha(hp_vals, Rtensor, etaK)
             
         if hp_optz_info.has_varK:
             Kcov_grad_hp[hp_optz_info.idx_varK,:,:] \
-                = self.calc_Kcov_grad_varK(hp_vals, Kern)
+                = self.calc_Kcov_grad_varK(hp_vals, Kern, etaK)
 
         if hp_optz_info.has_var_fval:
             Kcov_grad_hp[hp_optz_info.idx_var_fval,:,:] \
-                = self.calc_Kcov_grad_var_fval(hp_vals)
+                = self.calc_Kcov_grad_var_fval(hp_vals, etaK)
 
         if hp_optz_info.has_var_fgrad:
             Kcov_grad_hp[hp_optz_info.idx_var_fgrad,:,:] \
-                = self.calc_Kcov_grad_var_fgrad(hp_vals)
+                = self.calc_Kcov_grad_var_fgrad(hp_vals, etaK)
 
         return Kcov_grad_hp
 
-    def calc_Kcov_grad_theta(self, hp_vals, Rtensor):
+    def calc_Kcov_grad_theta(self, hp_vals, Rtensor, etaK = None):
         
         varK         = self.hp_varK if hp_vals.varK is None else hp_vals.varK
         Kcov_grad_th = varK * self.calc_Kern_grad_theta(Rtensor, hp_vals.theta, hp_vals.kernel, self.bvec_use_grad) 
         
         if self.wellcond_mtd == 'precon':
-            eta = self._etaK
+            eta = self._etaK if etaK is None else etaK
             for i in range(self.dim):
                 diag_Kcov_grad_th_i = np.diag(Kcov_grad_th[i])
                 Kcov_grad_th[i]    += np.diag(diag_Kcov_grad_th_i) * eta
             
         return Kcov_grad_th
 
-    def calc_Kcov_grad_alpha(self, hp_vals, Rtensor):
+    def calc_Kcov_grad_alpha(self, hp_vals, Rtensor, etaK = None):
         
         varK            = self.hp_varK if hp_vals.varK is None else hp_vals.varK
         Kcov_grad_alpha = varK * self.calc_Kern_grad_alpha(Rtensor, hp_vals.theta, hp_vals.kernel, self.bvec_use_grad)
         
         if self.wellcond_mtd == 'precon':
-            eta = self._etaK
+            eta = self._etaK if etaK is None else etaK
             n_alpha = Kcov_grad_alpha.shape[0]
             
             for i in range(n_alpha):
@@ -125,9 +190,9 @@ class GpHparaGrad:
         
         return Kcov_grad_alpha
 
-    def calc_Kcov_grad_varK(self, hp_vals, Kern):
+    def calc_Kcov_grad_varK(self, hp_vals, Kern, etaK = None):
         
-        eta = self._etaK
+        eta = self._etaK if etaK is None else etaK
         
         if self.wellcond_mtd == 'precon':
             Kcov_der_varK = Kern + eta * np.diag(np.diag(Kern))
@@ -136,19 +201,19 @@ class GpHparaGrad:
 
         return Kcov_der_varK
 
-    def calc_Kcov_grad_var_fval(self, hp_vals):
+    def calc_Kcov_grad_var_fval(self, hp_vals, etaK = None):
         
         if self.wellcond_mtd == 'precon':
-            scalar = 1 + self._etaK
+            scalar = 1 + (self._etaK if etaK is None else etaK)
         else:
             scalar = 1
         
         return scalar * np.diag(np.hstack((np.ones(self.n_eval), np.zeros(self.n_grad * self.dim))))
         
-    def calc_Kcov_grad_var_fgrad(self, hp_vals):
+    def calc_Kcov_grad_var_fgrad(self, hp_vals, etaK = None):
         
         if self.wellcond_mtd == 'precon':
-            scalar = 1 + self._etaK
+            scalar = 1 + (self._etaK if etaK is None else etaK)
         else:
             scalar = 1
             
-- 
2.43.0


From e71eb0ee7e5394c0d855706725311d58607a033e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:37 +0000
Subject: [PATCH 21/51] fix: condition number with the Frobenius norm when varK
 is smaller than one

---
 gpgradpy/src/optz/GpHparaCon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/src/optz/GpHparaCon.py b/gpgradpy/src/optz/GpHparaCon.py
index 9457df9..a562b07 100644
--- a/gpgradpy/src/optz/GpHparaCon.py
+++ b/gpgradpy/src/optz/GpHparaCon.py
@@ -235,7 +235,7 @@ class GpHparaCon:
         return cond, cond_grad
     
     def calc_cond_fronorm_w_grad(self, Kmat_w_eta, Kmat_chofac, Kmat_grad_hp = None):
-        assert Kmat_w_eta[0,0] > 1, 'Kmat_w_eta should have diagonal entries greater than 1 since it contains the nugget and noise'
+        assert Kmat_w_eta[0,0] > 0, 'Kmat_w_eta should have positive diagonal entries'
         
         n     = Kmat_w_eta.shape[0]
         K_inv = cho_solve(Kmat_chofac, np.eye(n))
-- 
2.43.0


From 7e5d59e781a42e19f7235a6661ce8d016d5116d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:37 +0000
Subject: [PATCH 22/51] fix: largest initial condition number of the
 hyperparameter optimization is recorded

---
 gpgradpy/src/optz/OptzLkd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/src/optz/OptzLkd.py b/gpgradpy/src/optz/OptzLkd.py
index 56c5406..ac5610b 100644
--- a/gpgradpy/src/optz/OptzLkd.py
+++ b/gpgradpy/src/optz/OptzLkd.py
@@ -254,7 +254,7 @@ class OptzLkd(CalcLkd):
             
             if self.b_use_cond_cstr:
                 lkd_val, _, cond_val, = self.calc_store_likelihood(x0_i)[:3]
-                optz_max_init_cond    = np.max((optz_max_init_cond, cond_val))
+                optz_max_init_cond    = np.fmax(optz_max_init_cond, cond_val)
                 if np.isnan(lkd_val):        optz_n_cho_fail += 1
                 if cond_val > self.cond_max: optz_n_cond2big += 1
             
-- 
2.43.0


From 1da8c07ac6d5d9db4d38ee6e0997659c053118cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:37 +0000
Subject: [PATCH 23/51] fix: condition number constraint uses the current value
 of cond_max

---
 gpgradpy/src/optz/OptzLkd.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gpgradpy/src/optz/OptzLkd.py b/gpgradpy/src/optz/OptzLkd.py
index ac5610b..21ed5c4 100644
--- a/gpgradpy/src/optz/OptzLkd.py
+++ b/gpgradpy/src/optz/OptzLkd.py
@@ -242,7 +242,11 @@ class OptzLkd(CalcLkd):
         optz_max_init_cond = np.nan
         
         # Set the nonlinear constraints, if any
-        nlc_method = self.condnum_nlc if self.b_use_cond_cstr else []
+        if self.b_use_cond_cstr:
+            self.condnum_nlc.ub = self.cond_max # cond_max may have been modified
+            nlc_method = self.condnum_nlc
+        else:
+            nlc_method = []
 
         ''' Run optimizer '''
         
-- 
2.43.0


From fa2c6a6e970954d434f2877027eac5c778503bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:37 +0000
Subject: [PATCH 24/51] fix: stored hyperparameters are a copy of the history

---
 gpgradpy/src/base/GpHpara.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/src/base/GpHpara.py b/gpgradpy/src/base/GpHpara.py
index 6d9b4e4..18dd8b0 100755
--- a/gpgradpy/src/base/GpHpara.py
+++ b/gpgradpy/src/base/GpHpara.py
@@ -47,7 +47,7 @@ class GpHpara:
             hp_var_fgrad = self.hp_var_fgrad_all[i_optz]
         
         hp_vals = self.make_hp_class(
-            self.hp_beta_all[i_optz,:], self.hp_theta_all[i_optz,:], 
+            np.copy(self.hp_beta_all[i_optz,:]), np.copy(self.hp_theta_all[i_optz,:]), 
             self.hp_kernel_all[i_optz], self.hp_varK_all[i_optz], 
             hp_var_fval,                hp_var_fgrad)
         
-- 
2.43.0


From 3a799782bd28acfc71fb4de43ad9466ceb08310b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:38 +0000
Subject: [PATCH 25/51] fix: scaling of the coordinates is restored with the
 stored hyperparameters

---
 gpgradpy/src/base/GpHpara.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gpgradpy/src/base/GpHpara.py b/gpgradpy/src/base/GpHpara.py
index 18dd8b0..75fd0d7 100755
--- a/gpgradpy/src/base/GpHpara.py
+++ b/gpgradpy/src/base/GpHpara.py
@@ -53,6 +53,10 @@ class GpHpara:
         
         self.hp_vals = hp_vals
         
+        # The hyperparameters are for the scaled data
+        if self.b_use_data_scl and not np.any(np.isnan(self.xvec_rescaling_all[i_optz,:])):
+            self.DataScl.set_xscale_data(xvec_scale_in = self.xvec_rescaling_all[i_optz,:])
+        
     def hp_vec2dataclass(self, hp_optz_info, hp_vec):
         '''
         Parameters
-- 
2.43.0


From 67751ef6a91439292c6aa3ec934428f8d023e019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:56 +0000
Subject: [PATCH 26/51] fix: mean of the surrogate with other data

---
 gpgradpy/src/eval/GpEvalModel.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gpgradpy/src/eval/GpEvalModel.py b/gpgradpy/src/eval/GpEvalModel.py
index f1a80d9..d9abe5a 100644
--- a/gpgradpy/src/eval/GpEvalModel.py
+++ b/gpgradpy/src/eval/GpEvalModel.py
@@ -416,16 +416,19 @@ class GpEvalModel(GpMeanFun):
                                    xeval_scl, fval_scl, grad_scl = None, 
                                    theta = None, calc_grad = True): 
         
-        Kgrad_xy = self.calc_KernGrad(x2model_scl, xeval_scl, theta)
+        if theta is None: theta = self.hp_vals.theta
+        
+        Rtensor  = self.calc_Rtensor(x2model_scl, xeval_scl, 1)
+        Kgrad_xy = self.calc_KernGrad(Rtensor, theta, self.hp_vals.kernel)
         
         ny = fval_scl.size
         nx = int(Kgrad_xy.shape[0] / (self.dim + 1))
 
-        mean_fval, mean_fgrad = self.eval_mean_fun(xeval_scl, hp_beta, self.use_grad)[:2]
+        mean_fval, mean_fgrad = self.eval_mean_fun(xeval_scl, hp_beta, calc_grad = self.use_grad)[:2]
         mean_fun_vec          = self.make_data_vec(mean_fval, mean_fgrad)
         
         x2model_base_mu_val, x2model_base_mu_grad \
-            = self.eval_mean_fun(x2model_scl, hp_beta, calc_grad)[:2]
+            = self.eval_mean_fun(x2model_scl, hp_beta, calc_grad = calc_grad)[:2]
         
         if self.use_grad:
             assert grad_scl is not None, 'grad_scl should not be None when use_grad is True'
-- 
2.43.0


From 84149235969f9a11a954af093530c2c7cf44ff21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:03 +0000
Subject: [PATCH 27/51] fix: known gradient noise when no point has a gradient

---
 gpgradpy/src/GaussianProcess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/src/GaussianProcess.py b/gpgradpy/src/GaussianProcess.py
index 21c529a..cc06b8c 100755
--- a/gpgradpy/src/GaussianProcess.py
+++ b/gpgradpy/src/GaussianProcess.py
@@ -316,7 +316,7 @@ class GaussianProcess(CommonFun, GpInfo, GpHpara, GpParaDef, GpWellCond,
             self.b_fgrad_zero       = True
         elif self.known_eps_fgrad:
             self.b_optz_var_fgrad   = False 
-            self.b_fgrad_zero       = True if (np.max(std_grad) < 1e-10) else False
+            self.b_fgrad_zero       = True if (np.max(std_grad, initial = 0) < 1e-10) else False
         else:
             self.b_optz_var_fgrad   = True 
             self.b_fgrad_zero       = False
-- 
2.43.0


From a5d872e43e9f62eb73f029f086d83a953536159e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:28 +0000
Subject: [PATCH 28/51] fix: condition number reported with gradients for the
 preconditioned method

---
 gpgradpy/src/optz/CalcLkd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpgradpy/src/optz/CalcLkd.py b/gpgradpy/src/optz/CalcLkd.py
index 1f2ddbb..7a13350 100644
--- a/gpgradpy/src/optz/CalcLkd.py
+++ b/gpgradpy/src/optz/CalcLkd.py
@@ -318,7 +318,7 @@ class CalcLkd(calcLkdWNoise, calcLkdWoNoise):
                 lkd_info        = self.calc_lkd_all_w_noise(hp_vals.theta, Kcov_chofac, 
                                                             Kcov_grad_hp, lkd_use_adj_mtd = lkd_use_adj_mtd)
             
-            if calc_cond and calc_grad:
+            if calc_cond and calc_grad and (self.wellcond_mtd != 'precon'):
                 lkd_info.cond, lkd_info.cond_grad = self.calc_cond_w_grad(Kcov, Kcov_chofac, Kcov_grad_hp)
             else:
                 lkd_info.cond = cond_K
@@ -346,7 +346,7 @@ class CalcLkd(calcLkdWNoise, calcLkdWoNoise):
                                                       KernGrad_hp, 
                                                       lkd_use_adj_mtd = lkd_use_adj_mtd)
                 
-                if calc_cond and calc_grad:
+                if calc_cond and calc_grad and (self.wellcond_mtd != 'precon'):
                     lkd_info.cond, lkd_info.cond_grad = self.calc_cond_w_grad(Kern_w_eta, Kern_chofac, KernGrad_hp)
                 else:
                     lkd_info.cond = cond_K
-- 
2.43.0


From 3d9c8ad37334c13916a8e879b1c25ef6b62197d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:15 +0000
Subject: [PATCH 29/51] fix: gradient of the condition number when the smallest
 eigenvalue is small

---
 gpgradpy/src/optz/GpHparaCon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpgradpy/src/optz/GpHparaCon.py b/gpgradpy/src/optz/GpHparaCon.py
index a562b07..c5a8b3e 100644
--- a/gpgradpy/src/optz/GpHparaCon.py
+++ b/gpgradpy/src/optz/GpHparaCon.py
@@ -185,7 +185,8 @@ class GpHparaCon:
                 eig_min  = eigval_all[idx_mmin]
                 v_min    = eigvec_all[:,idx_mmin]
                 
-                eig_min_mod  = np.max((eig_min, 1e-16))
+                # The lower bound is relative since Kmat_w_eta may have small entries
+                eig_min_mod  = np.max((eig_min, 1e-16 * eigval_all[idx_max]))
                 
                 v_outer_diff = np.outer(v_max, v_max) - cond * np.outer(v_min, v_min)
                 cond_grad    = np.zeros(nder)
-- 
2.43.0


From 7bb0a00789277fc9371eb49a4a06a73758dfdebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:28 +0000
Subject: [PATCH 30/51] fix: hyperparameters and scaling of the rescaling
 methods are consistent after their optimization

---
 gpgradpy/src/base/GpWellCond.py |  3 ++-
 gpgradpy/src/optz/OptzLkd.py    | 35 ++++++++++++++++++++++-----------
 2 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/gpgradpy/src/base/GpWellCond.py b/gpgradpy/src/base/GpWellCond.py
index 1d57e25..5b1cd29 100644
--- a/gpgradpy/src/base/GpWellCond.py
+++ b/gpgradpy/src/base/GpWellCond.py
@@ -54,7 +54,8 @@ class GpWellCondVreq:
             theta_sol     = hp_theta
             log_theta_sol = np.log10(hp_theta)
             
-        vreq = self.calc_mtd_rescale_origin_vreq(n_eval, self.dim)
+        # Minimum distance that is enforced when the data is rescaled
+        vreq = self.DataScl.dist_set
         
         theta_star_v1   = 10**np.mean(log_theta_sol)
         
diff --git a/gpgradpy/src/optz/OptzLkd.py b/gpgradpy/src/optz/OptzLkd.py
index 21ed5c4..70d53c0 100644
--- a/gpgradpy/src/optz/OptzLkd.py
+++ b/gpgradpy/src/optz/OptzLkd.py
@@ -139,7 +139,7 @@ class OptzLkd(CalcLkd):
         best_hp, cond_val, surr_optz_info = self.optz_hp_max_lkd(hp_x0, optz_bound)
         
         max_iter      = self.cond_vreq_max_iter
-        theta_all     = np.full((max_iter, self.dim), np.nan)
+        best_hp_all   = np.full((max_iter, best_hp.size), np.nan)
         dist2line_all = np.full(max_iter, np.nan)
         scale_vec_all = np.full((max_iter, self.dim), np.nan)
         
@@ -147,36 +147,47 @@ class OptzLkd(CalcLkd):
             cnt      = 0
             not_done = True
             
-            theta_new_xo = best_hp[self.hp_info_optz_lkd.idx_theta]
-            
             while not_done:
                 x_scl      = self.DataScl.x_scl
                 xvec_scale = self.DataScl.xvec_scale
                 
-                theta_new_xo, est_dist2sol, xvec_scale_new = self.rescaling_data_w_theta_sol(x_scl, xvec_scale, theta_new_xo)
+                theta_sol  = best_hp[self.hp_info_optz_lkd.idx_theta]
+                theta_new_xo, est_dist2sol, xvec_scale_new = self.rescaling_data_w_theta_sol(x_scl, xvec_scale, theta_sol)
+                
+                # Hyperparameters for the data scaled with xvec_scale_new
+                x0_hp_vec = np.copy(best_hp)
+                x0_hp_vec[self.hp_info_optz_lkd.idx_theta] = theta_new_xo
                 
-                theta_all[cnt,:]     = theta_new_xo
+                if self.hp_info_optz_lkd.has_var_fgrad:
+                    idx_var   = self.hp_info_optz_lkd.idx_var_fgrad
+                    var_fgrad = self.hp_vec2dataclass(self.hp_info_optz_lkd, best_hp).var_fgrad
+                    var_fgrad = np.clip(var_fgrad * np.exp(2 * np.mean(np.log(xvec_scale / xvec_scale_new))), 
+                                        self.hp_var_fgrad_range[0], self.hp_var_fgrad_range[1])
+                    x0_hp_vec[idx_var] = np.log10(var_fgrad) if self.optz_log_hp_var else var_fgrad
+                
+                best_hp_all[cnt,:]   = x0_hp_vec
                 dist2line_all[cnt]   = est_dist2sol
                 scale_vec_all[cnt,:] = xvec_scale_new
                 
                 if (cnt == (max_iter - 1)) or (est_dist2sol < self.cond_vreq_iter_tol):
                     not_done = False
                 else:
-                    x0_hp_vec = np.copy(best_hp)
-                    x0_hp_vec[self.hp_info_optz_lkd.idx_theta] = theta_new_xo
-                    
-                    best_hp,cond_val = self.optz_hp_max_lkd(x0_hp_vec, optz_bound)[:2]
+                    self.DataScl.set_xscale_data(xvec_scale_in = xvec_scale_new)
+                    best_hp = self.optz_hp_max_lkd(x0_hp_vec, optz_bound)[0]
                 
                 cnt += 1
                 
             idx_min_dist    = np.nanargmin(dist2line_all)
-            theta_final     = theta_all[idx_min_dist, :]
+            best_hp_final   = best_hp_all[idx_min_dist, :]
             scale_vec_final = scale_vec_all[idx_min_dist, :]
             
             self.DataScl.set_xscale_data(xvec_scale_in = scale_vec_final)
             
-            best_hp_final = np.copy(best_hp)
-            best_hp_final[self.hp_info_optz_lkd.idx_theta] = theta_final
+            # Condition number for the final scaling and hyperparameters
+            Rtensor  = self.get_scl_x_w_dist()[1]
+            hp_vals  = self.hp_vec2dataclass(self.hp_info_optz_lkd, best_hp_final)
+            varK     = None if self.b_has_noisy_data else 1
+            cond_val = self.calc_all_K_w_chofac(Rtensor, hp_vals, calc_chofac = False, calc_cond = True, varK = varK)[4]
         else:
             best_hp_final = best_hp
         
-- 
2.43.0


From 2182ca47822e7d7030506eb68b5b3abacb76cd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:12 +0000
Subject: [PATCH 31/51] fix: exported data of the surrogate is not modified by
 later iterations

---
 gpgradpy/src/base/GpParaDef.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gpgradpy/src/base/GpParaDef.py b/gpgradpy/src/base/GpParaDef.py
index 61a0c87..19bbca6 100644
--- a/gpgradpy/src/base/GpParaDef.py
+++ b/gpgradpy/src/base/GpParaDef.py
@@ -207,6 +207,9 @@ class GpParaDef:
                      name + 'var_fval'               : self.var_fval, 
                      name + 'varK_var_fval'          : self.varK_var_fval
                      }
+        
+        # Copy the data so that it is not modified at later iterations
+        data2save = {key : np.copy(val) for key, val in data2save.items()}
 
         if save2file:
             if file2save     is None: file2save     = self.path_surr_npz
-- 
2.43.0


From 4a36b77630d23c9e7d19e064aaa8201e82285595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:18 +0000
Subject: [PATCH 32/51] fix: surrogate is not evaluated with the factorization
 of previous data

---
 gpgradpy/src/GaussianProcess.py  | 3 +++
 gpgradpy/src/eval/GpEvalModel.py | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/gpgradpy/src/GaussianProcess.py b/gpgradpy/src/GaussianProcess.py
index cc06b8c..7aedc94 100755
--- a/gpgradpy/src/GaussianProcess.py
+++ b/gpgradpy/src/GaussianProcess.py
@@ -239,6 +239,9 @@ class GaussianProcess(CommonFun, GpInfo, GpHpara, GpParaDef, GpWellCond,
             The default is None.
         '''
         
+        # The surrogate cannot be evaluated until it is set up with the new data
+        self.KernEta_chofac = None
+        
         ''' Check inputs '''
         
         # Calculate the no. of function evaluations and gradients to use
diff --git a/gpgradpy/src/eval/GpEvalModel.py b/gpgradpy/src/eval/GpEvalModel.py
index d9abe5a..971aac0 100644
--- a/gpgradpy/src/eval/GpEvalModel.py
+++ b/gpgradpy/src/eval/GpEvalModel.py
@@ -239,6 +239,8 @@ class GpEvalModel(GpMeanFun):
         
         ''' Check inputs '''
         
+        assert self.KernEta_chofac is not None, 'To evaluate the surr the Cholesky decomposition is required'
+        
         if x2model_in.ndim == 1:
             x2model = x2model_in[None,:]
         elif x2model_in.ndim == 2:
-- 
2.43.0


From f67f9668d35079991a8ac6128ae324dfacc63272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:26 +0000
Subject: [PATCH 33/51] fix: report of the surrogate before its data is set

---
 gpgradpy/src/base/GpInfo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/src/base/GpInfo.py b/gpgradpy/src/base/GpInfo.py
index 3a9163e..fcf56c5 100644
--- a/gpgradpy/src/base/GpInfo.py
+++ b/gpgradpy/src/base/GpInfo.py
@@ -138,7 +138,7 @@ class GpInfo:
         ''' Get the required data '''
 
         n_iter  = self.hp_varK_all.size
-        n_data  = 5 + self.b_optz_var_fval + self.b_optz_var_fgrad \
+        n_data  = 5 + bool(self.b_optz_var_fval) + bool(self.b_optz_var_fgrad) \
             + np.min((max_n_theta_print, self.dim)) \
             
         idx_vec = np.arange(n_iter)
-- 
2.43.0


From e1b5051c2a303f8b4e46085d729deeadd551303f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:18 +0000
Subject: [PATCH 34/51] fix: number of points and their dimension are checked
 when the data is set

---
 gpgradpy/src/GaussianProcess.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpgradpy/src/GaussianProcess.py b/gpgradpy/src/GaussianProcess.py
index 7aedc94..244cf11 100755
--- a/gpgradpy/src/GaussianProcess.py
+++ b/gpgradpy/src/GaussianProcess.py
@@ -268,7 +268,8 @@ class GaussianProcess(CommonFun, GpInfo, GpHpara, GpParaDef, GpWellCond,
         fval = np.atleast_1d(fval).ravel()
         
         assert x_eval.ndim == 2, f'x_eval must be a 2 array but x_eval.ndim = {x_eval.ndim}'
-        assert n_eval == fval.size, 'No. of points do not match with x_eval and fval'
+        assert x_eval.shape == (n_eval, self.dim), \
+            f'Shape of x_eval is {x_eval.shape} but it should be {(n_eval, self.dim)} to match with fval and dim'
         
         if (std_fval is None) or np.any(np.isnan(std_fval)):
             self.known_eps_fval = False
-- 
2.43.0


From e0d62db1e37e5e7048df07c8391e8ca206557895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:18 +0000
Subject: [PATCH 35/51] fix: number of length-scale hyperparameters is checked

---
 gpgradpy/src/kernel/Kernel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gpgradpy/src/kernel/Kernel.py b/gpgradpy/src/kernel/Kernel.py
index e57b266..6fe8104 100755
--- a/gpgradpy/src/kernel/Kernel.py
+++ b/gpgradpy/src/kernel/Kernel.py
@@ -202,6 +202,7 @@ class Kernel(KernelSqExp, KernelRatQuad, KernelMatern5f2):
             assert varK > 0, f'varK must be positive but varK = {varK}'
             
         assert np.sum(np.isnan(theta)) == 0, f'There are nan values theta = {theta}'
+        assert np.size(theta) == dim, f'Size of theta is {np.size(theta)} but it should be dim = {dim}'
         
         ''' Calculations '''
         
-- 
2.43.0


From 43832e6a8d19a7cbec451c7ce153c4981552a592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:35 +0000
Subject: [PATCH 36/51] fix: surrogate is not evaluated if its set up failed

---
 gpgradpy/src/eval/GpEvalModel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gpgradpy/src/eval/GpEvalModel.py b/gpgradpy/src/eval/GpEvalModel.py
index 971aac0..0e0810a 100644
--- a/gpgradpy/src/eval/GpEvalModel.py
+++ b/gpgradpy/src/eval/GpEvalModel.py
@@ -22,6 +22,8 @@ class GpEvalModel(GpMeanFun):
         can be evaluated with eval_model()
         '''
         
+        # The surrogate cannot be evaluated if its set up fails
+        self.KernEta_chofac       = None
         self._hp_vals_model_setup = copy.deepcopy(self.hp_vals)
         
         x_scl, Rtensor        = self.get_scl_x_w_dist()
-- 
2.43.0


From 42e370ab76aa89abaa1ae393c4c140c34c7d9c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:44 +0000
Subject: [PATCH 37/51] fix: data of the surrogate is not partially modified
 when it is refused

---
 gpgradpy/src/GaussianProcess.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/gpgradpy/src/GaussianProcess.py b/gpgradpy/src/GaussianProcess.py
index 244cf11..a343c6f 100755
--- a/gpgradpy/src/GaussianProcess.py
+++ b/gpgradpy/src/GaussianProcess.py
@@ -261,10 +261,6 @@ class GaussianProcess(CommonFun, GpInfo, GpHpara, GpParaDef, GpWellCond,
             assert bvec_use_grad is None, 'bvec_use_grad must be None if grads are not used for the GP'
             n_grad = 0
         
-        self.n_eval = n_eval
-        self.n_grad = n_grad
-        self.n_data = n_eval + n_grad * self.dim
-        
         fval = np.atleast_1d(fval).ravel()
         
         assert x_eval.ndim == 2, f'x_eval must be a 2 array but x_eval.ndim = {x_eval.ndim}'
@@ -272,32 +268,41 @@ class GaussianProcess(CommonFun, GpInfo, GpHpara, GpParaDef, GpWellCond,
             f'Shape of x_eval is {x_eval.shape} but it should be {(n_eval, self.dim)} to match with fval and dim'
         
         if (std_fval is None) or np.any(np.isnan(std_fval)):
-            self.known_eps_fval = False
+            known_eps_fval = False
         else:
-            self.known_eps_fval = True
+            known_eps_fval = True
             std_fval = np.atleast_1d(std_fval).ravel()
             assert n_eval == std_fval.size, f'Size of std_fval is {std_fval.size} while it should be {n_eval}'
         
         if grad is None:
             assert self.use_grad is False, 'No grad info provided but use_grad was set to True'
-            self.has_grad_info   = False
-            self.known_eps_fgrad = False
+            has_grad_info   = False
+            known_eps_fgrad = False
         else:
             assert self.use_grad, 'Grad info provided but use_grad was set to False'
-            self.has_grad_info = True
+            has_grad_info = True
             assert grad.ndim == 2, f'grad must be a 2 array but grad.ndim = {grad.ndim}'
             
             assert grad.shape == (n_grad, self.dim), 'Shape of grad does not match x_eval'
             
             if (std_grad is None) or np.any(np.isnan(std_grad)):
-                self.known_eps_fgrad = False
+                known_eps_fgrad = False
             else:
-                self.known_eps_fgrad = True
+                known_eps_fgrad = True
                 assert std_grad.ndim == 2, f'std_grad must be a 2 array but std_grad.ndim = {std_grad.ndim}'
                 assert grad.shape == std_grad.shape, 'Shape of grad does not match std_grad'
         
         ''' Store input data '''
         
+        # Nothing is modified until all of the inputs have been checked
+        self.n_eval = n_eval
+        self.n_grad = n_grad
+        self.n_data = n_eval + n_grad * self.dim
+        
+        self.has_grad_info   = has_grad_info
+        self.known_eps_fval  = known_eps_fval
+        self.known_eps_fgrad = known_eps_fgrad
+        
         self._x_eval_in    = x_eval
         self._fval_in      = fval
         self._std_fval_in  = std_fval if self.known_eps_fval  else None
-- 
2.43.0


From 960c8c83bf26657af86a77ae32697fc2385b5197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:44 +0000
Subject: [PATCH 38/51] fix: number of coordinates is checked when the
 surrogate is evaluated

---
 gpgradpy/src/eval/GpEvalModel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gpgradpy/src/eval/GpEvalModel.py b/gpgradpy/src/eval/GpEvalModel.py
index 0e0810a..18f140d 100644
--- a/gpgradpy/src/eval/GpEvalModel.py
+++ b/gpgradpy/src/eval/GpEvalModel.py
@@ -112,6 +112,8 @@ class GpEvalModel(GpMeanFun):
         else:
             raise Exception(f'x2model_in should be a 2d array but it has shape {x2model_in.shape}')
         
+        assert x2model.shape[1] == self.dim, f'Points have {x2model.shape[1]} coordinates but dim = {self.dim}'
+        
         nx = x2model.shape[0]
         
         if squeeze_nx:
@@ -250,6 +252,8 @@ class GpEvalModel(GpMeanFun):
         else:
             raise Exception(f'x2model_in should be a 2d array but it has shape {x2model_in.shape}')
         
+        assert x2model.shape[1] == self.dim, f'Points have {x2model.shape[1]} coordinates but dim = {self.dim}'
+        
         nx = x2model.shape[0]
         
         if squeeze_nx:
-- 
2.43.0


From 0dac506778414ed3b0e19d280a1cd415f180dbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:10 +0000
Subject: [PATCH 39/51] fix: mask for the gradients must be an array of bool

---
 gpgradpy/src/GaussianProcess.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gpgradpy/src/GaussianProcess.py b/gpgradpy/src/GaussianProcess.py
index a343c6f..68a2445 100755
--- a/gpgradpy/src/GaussianProcess.py
+++ b/gpgradpy/src/GaussianProcess.py
@@ -253,6 +253,7 @@ class GaussianProcess(CommonFun, GpInfo, GpHpara, GpParaDef, GpWellCond,
             else:
                 n_grad = np.sum(bvec_use_grad)
                 # assert self.b_use_data_scl == False, 'The class Rescaling is not setup for the case when not all gradients are used'
+                assert bvec_use_grad.dtype == bool, f'bvec_use_grad must be an array of bool but its type is {bvec_use_grad.dtype}'
                 assert bvec_use_grad.size == n_eval, \
                     f'Length of bvec_use_grad is {bvec_use_grad.size} but it should be n_eval = {n_eval}'
                 assert grad.shape[0] == n_grad, \
-- 
2.43.0


From 20392adbcc7278ae70763ac49aeef49f6999ba3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:13 +0000
Subject: [PATCH 40/51] fix: surrogate keeps its own copy of the data

---
 gpgradpy/src/GaussianProcess.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gpgradpy/src/GaussianProcess.py b/gpgradpy/src/GaussianProcess.py
index 68a2445..ac7ef32 100755
--- a/gpgradpy/src/GaussianProcess.py
+++ b/gpgradpy/src/GaussianProcess.py
@@ -304,13 +304,20 @@ class GaussianProcess(CommonFun, GpInfo, GpHpara, GpParaDef, GpWellCond,
         self.known_eps_fval  = known_eps_fval
         self.known_eps_fgrad = known_eps_fgrad
         
+        # Copies are used since the inputs may be modified afterwards by the user
+        x_eval   = np.copy(x_eval)
+        fval     = np.copy(fval)
+        std_fval = None if (std_fval is None) else np.copy(std_fval)
+        grad     = None if (grad     is None) else np.copy(grad)
+        std_grad = None if (std_grad is None) else np.copy(std_grad)
+        
         self._x_eval_in    = x_eval
         self._fval_in      = fval
         self._std_fval_in  = std_fval if self.known_eps_fval  else None
         self._grad_in      = grad 
         self._std_grad_in  = std_grad if self.known_eps_fgrad else None
         
-        self.bvec_use_grad = bvec_use_grad
+        self.bvec_use_grad = None if (bvec_use_grad is None) else np.copy(bvec_use_grad)
         
         ''' Check if the data is noisy and if its variance is known '''
         
-- 
2.43.0


From aa4077785a3e197df376b2579b935427b1628740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:29 +0000
Subject: [PATCH 41/51] fix: data vector without gradients shared its memory
 with the data of the surrogate

---
 gpgradpy/src/base/CommonFun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/src/base/CommonFun.py b/gpgradpy/src/base/CommonFun.py
index c61fe5b..cd59b88 100644
--- a/gpgradpy/src/base/CommonFun.py
+++ b/gpgradpy/src/base/CommonFun.py
@@ -165,7 +165,7 @@ class CommonFun:
         '''
         
         if fgrad is None:
-            data_vec = np.atleast_1d(fval)
+            data_vec = np.array(fval, ndmin = 1) # Copy, to not share memory with fval
         else:
             vec_fgrad = fgrad.reshape(fgrad.size, order='f')
             data_vec  = np.hstack((fval, vec_fgrad))
-- 
2.43.0


From dc31a3952e1d384d26f2dba9ee63c9beda486ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:45 +0000
Subject: [PATCH 42/51] fix: gradient of the condition number wrt the log
 hyperparameters when the Cholesky factorization fails

---
 gpgradpy/src/optz/OptzLkd.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gpgradpy/src/optz/OptzLkd.py b/gpgradpy/src/optz/OptzLkd.py
index 70d53c0..776a729 100644
--- a/gpgradpy/src/optz/OptzLkd.py
+++ b/gpgradpy/src/optz/OptzLkd.py
@@ -73,6 +73,10 @@ class OptzLkd(CalcLkd):
                         cond_grad[bvec] *= transformation
             else:
                 # If the Cholesky decomposition fails use the condition number as the obj
+                if calc_grad and self.b_use_cond_cstr:
+                    bvec             = self.hp_info_optz_lkd.bvec_log_optz
+                    cond_grad[bvec] *= 10**hp_vec[bvec] * np.log(10)
+                
                 ln_lkd_val  = -cond_val
                 ln_lkd_grad = -cond_grad
                 
-- 
2.43.0


From 498542eec5e583e36270c95e3422e2cd90e19849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:45 +0000
Subject: [PATCH 43/51] fix: number of failed Cholesky factorizations of the
 hyperparameter optimization

---
 gpgradpy/src/optz/OptzLkd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpgradpy/src/optz/OptzLkd.py b/gpgradpy/src/optz/OptzLkd.py
index 776a729..acaa20c 100644
--- a/gpgradpy/src/optz/OptzLkd.py
+++ b/gpgradpy/src/optz/OptzLkd.py
@@ -274,7 +274,8 @@ class OptzLkd(CalcLkd):
             if self.b_use_cond_cstr:
                 lkd_val, _, cond_val, = self.calc_store_likelihood(x0_i)[:3]
                 optz_max_init_cond    = np.fmax(optz_max_init_cond, cond_val)
-                if np.isnan(lkd_val):        optz_n_cho_fail += 1
+                # calc_store_likelihood() returns -cond_val if the Cholesky factorization fails
+                if np.isnan(lkd_val) or (lkd_val == -cond_val): optz_n_cho_fail += 1
                 if cond_val > self.cond_max: optz_n_cond2big += 1
             
             ''' Optimization '''
-- 
2.43.0


From 8cf472c82f46ce5fe8d3e3d748d5a0a1f026deff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:59 +0000
Subject: [PATCH 44/51] fix: Frobenius condition number with noisy data when
 the Cholesky factorization fails

---
 gpgradpy/src/optz/CalcLkd.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gpgradpy/src/optz/CalcLkd.py b/gpgradpy/src/optz/CalcLkd.py
index 7a13350..649baa8 100644
--- a/gpgradpy/src/optz/CalcLkd.py
+++ b/gpgradpy/src/optz/CalcLkd.py
@@ -317,11 +317,11 @@ class CalcLkd(calcLkdWNoise, calcLkdWoNoise):
                 b_chofac_good   = True
                 lkd_info        = self.calc_lkd_all_w_noise(hp_vals.theta, Kcov_chofac, 
                                                             Kcov_grad_hp, lkd_use_adj_mtd = lkd_use_adj_mtd)
-            
-            if calc_cond and calc_grad and (self.wellcond_mtd != 'precon'):
-                lkd_info.cond, lkd_info.cond_grad = self.calc_cond_w_grad(Kcov, Kcov_chofac, Kcov_grad_hp)
-            else:
-                lkd_info.cond = cond_K
+                
+                if calc_cond and calc_grad and (self.wellcond_mtd != 'precon'):
+                    lkd_info.cond, lkd_info.cond_grad = self.calc_cond_w_grad(Kcov, Kcov_chofac, Kcov_grad_hp)
+                else:
+                    lkd_info.cond = cond_K
         else:
             Kern, _, Kern_w_eta, Kern_chofac, cond_K, etaK, idx_etaK_argmax \
                 = self.calc_Kern_w_chofac(Rtensor, hp_vals, calc_cond = calc_cond)
-- 
2.43.0


From 88c39cb09ce803f385eafb8deb0eb008052c3782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:10 +0000
Subject: [PATCH 45/51] fix: start the reoptimisation after a rescaling within
 the bounds

---
 gpgradpy/src/optz/OptzLkd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpgradpy/src/optz/OptzLkd.py b/gpgradpy/src/optz/OptzLkd.py
index acaa20c..4846773 100644
--- a/gpgradpy/src/optz/OptzLkd.py
+++ b/gpgradpy/src/optz/OptzLkd.py
@@ -177,7 +177,8 @@ class OptzLkd(CalcLkd):
                     not_done = False
                 else:
                     self.DataScl.set_xscale_data(xvec_scale_in = xvec_scale_new)
-                    best_hp = self.optz_hp_max_lkd(x0_hp_vec, optz_bound)[0]
+                    x0_in_box = np.clip(x0_hp_vec, optz_bound.lb, optz_bound.ub)
+                    best_hp   = self.optz_hp_max_lkd(x0_in_box, optz_bound)[0]
                 
                 cnt += 1
                 
-- 
2.43.0


From 1bba91fdcdbd219433bd71051ab18c50231b1a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:55 +0000
Subject: [PATCH 46/51] fix: hp_best start when some factorisations fail and
 the others exceed the condition limit

---
 gpgradpy/src/optz/GpHparaX0.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpgradpy/src/optz/GpHparaX0.py b/gpgradpy/src/optz/GpHparaX0.py
index 7abd99b..8221946 100644
--- a/gpgradpy/src/optz/GpHparaX0.py
+++ b/gpgradpy/src/optz/GpHparaX0.py
@@ -45,7 +45,8 @@ class GpHparaX0:
                     cond_all[i]   = lkd_info.cond
             
             if calc_cond:
-                bvec_cond_no_good = cond_all > (1.2*self.cond_max)
+                # cond_all is nan if the Cholesky factorization failed
+                bvec_cond_no_good = np.isnan(cond_all) | (cond_all > (1.2*self.cond_max))
                 
                 # Esure theere is at least one valid initial solution
                 if np.sum(bvec_cond_no_good) == bvec_cond_no_good.size:
-- 
2.43.0


From 74bd4c2d2fe34790d7614841673551981e34fc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:32 +0000
Subject: [PATCH 47/51] fix: info_surr_all_data printed nothing

---
 gpgradpy/src/base/GpInfo.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gpgradpy/src/base/GpInfo.py b/gpgradpy/src/base/GpInfo.py
index fcf56c5..77b0438 100644
--- a/gpgradpy/src/base/GpInfo.py
+++ b/gpgradpy/src/base/GpInfo.py
@@ -51,6 +51,9 @@ class GpInfo:
         data2print += self.info_surr_theta(False)
         data2print += self.info_surr_optz(False)
         
+        if print2screen:
+            print(data2print)
+        
         return data2print
 
     def info_surr_options(self, print2screen=True):
-- 
2.43.0


From cc36ce6183acd302fe328feaa848b44d5f59af06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:19 +0000
Subject: [PATCH 48/51] fix: optimised hyperparameters are not worse than a
 feasible starting point

---
 gpgradpy/src/optz/OptzLkd.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/gpgradpy/src/optz/OptzLkd.py b/gpgradpy/src/optz/OptzLkd.py
index 4846773..4e2bea2 100644
--- a/gpgradpy/src/optz/OptzLkd.py
+++ b/gpgradpy/src/optz/OptzLkd.py
@@ -311,6 +311,17 @@ class OptzLkd(CalcLkd):
                     print(f'Surr hpara optz: Con GOOD, Optimizer: {res.message}')
                 else:
                     print(f'Surr hpara optz: Con FAIL, Optimizer: {res.message}')
+            
+            # Use the starting point if it is feasible and the optimizer stopped at a worse point
+            obj_x0_i  = self.return_optz_val(x0_i)
+            cond_x0_i = self.return_cond_val(x0_i) if self.b_use_cond_cstr else np.nan
+            
+            if (not self.b_use_cond_cstr) or (cond_x0_i < 1.01 * self.cond_max):
+                if (not all_con_good[i]) or (obj_x0_i < optz_obj_all[i]):
+                    optz_sol_all[i,:] = x0_i
+                    optz_obj_all[i]   = obj_x0_i
+                    optz_cond_all[i]  = cond_x0_i
+                    all_con_good[i]   = True
                 
         ''' Identify the best solution '''
             
-- 
2.43.0


From 85c11c063f315b30918ce390c0effe0e8019b1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:02 +0000
Subject: [PATCH 49/51] fix: selecting stored hyperparameters changed whether
 the noise of the data is known

---
 gpgradpy/src/base/GpHpara.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/gpgradpy/src/base/GpHpara.py b/gpgradpy/src/base/GpHpara.py
index 75fd0d7..b889fbd 100755
--- a/gpgradpy/src/base/GpHpara.py
+++ b/gpgradpy/src/base/GpHpara.py
@@ -32,18 +32,15 @@ class GpHpara:
     
     def set_hp_from_idx(self, i_optz):
         
+        # If the noise is known is determined by the data, not by the stored hyperparameters
         if np.isnan(self.hp_var_fval_all[i_optz]):
-            self.known_eps_fval = True
             hp_var_fval = None
         else:
-            self.known_eps_fval = False
             hp_var_fval = self.hp_var_fval_all[i_optz]
             
         if np.isnan(self.hp_var_fgrad_all[i_optz]):
-            self.known_eps_fgrad = True
             hp_var_fgrad = None
         else:
-            self.known_eps_fgrad = False
             hp_var_fgrad = self.hp_var_fgrad_all[i_optz]
         
         hp_vals = self.make_hp_class(
-- 
2.43.0


From 460ccfdcc6181ba66af5df16478624654f41e435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:02 +0000
Subject: [PATCH 50/51] fix: two interrupted saves in a row lost the saved
 history

---
 gpgradpy/src/base/GpParaDef.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gpgradpy/src/base/GpParaDef.py b/gpgradpy/src/base/GpParaDef.py
index 19bbca6..6575168 100644
--- a/gpgradpy/src/base/GpParaDef.py
+++ b/gpgradpy/src/base/GpParaDef.py
@@ -222,10 +222,16 @@ class GpParaDef:
     @staticmethod
     def save_npz_data(data2save, file2save, file2save_old):
         
+        # Save the data before the previous files are touched in case the save is interrupted
+        if not file2save.endswith('.npz'): file2save += '.npz'
+        file2save_new = file2save[:-4] + '_new.npz'
+        
+        np.savez(file2save_new, **data2save)
+        
         # Keep a copy of the previous file
         if os.path.isfile(file2save): os.replace(file2save, file2save_old)
         
-        np.savez(file2save, **data2save)
+        os.replace(file2save_new, file2save)
 
     def store_new_para_surr(self, i_optz, hp_vals, 
                             surr_optz_info = None,   cond_val    = np.nan, 
-- 
2.43.0


From 38c38bf00f4d3d44192608b8d141dba4624d53da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:13 +0000
Subject: [PATCH 51/51] fix: decide whether noise is negligible relative to the
 data, not by an absolute 1e-10

---
 gpgradpy/src/GaussianProcess.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpgradpy/src/GaussianProcess.py b/gpgradpy/src/GaussianProcess.py
index ac7ef32..4e30578 100755
--- a/gpgradpy/src/GaussianProcess.py
+++ b/gpgradpy/src/GaussianProcess.py
@@ -323,7 +323,7 @@ class GaussianProcess(CommonFun, GpInfo, GpHpara, GpParaDef, GpWellCond,
         
         if self.known_eps_fval:
             self.b_optz_var_fval    = False 
-            self.b_fval_zero        = True if (np.max(std_fval) < 1e-10) else False
+            self.b_fval_zero        = True if (np.max(std_fval) <= 1e-10 * np.ptp(fval)) else False
         else:
             self.b_optz_var_fval    = True 
             self.b_fval_zero        = False
@@ -333,7 +333,7 @@ class GaussianProcess(CommonFun, GpInfo, GpHpara, GpParaDef, GpWellCond,
             self.b_fgrad_zero       = True
         elif self.known_eps_fgrad:
             self.b_optz_var_fgrad   = False 
-            self.b_fgrad_zero       = True if (np.max(std_grad, initial = 0) < 1e-10) else False
+            self.b_fgrad_zero       = True if (np.max(std_grad, initial = 0) <= 1e-10 * np.max(np.abs(grad), initial = 0)) else False
         else:
             self.b_optz_var_fgrad   = True 
             self.b_fgrad_zero       = False
-- 
2.43.0


From 7fcbad10adce32eaa7328f8ca1ad55162be371b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:19 +0000
Subject: [PATCH 01/23] fix: derivatives of the Hayhurst-Leckie damage rate

The derivative with respect to damage lacked the factor xi - phi and the
derivative with respect to stress the factor xi / A.
---
 pyoptmat/damage.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyoptmat/damage.py b/pyoptmat/damage.py
index 32cce5c..e46aaa8 100644
--- a/pyoptmat/damage.py
+++ b/pyoptmat/damage.py
@@ -111,7 +111,9 @@ class HayhurstLeckie(DamageModel):
         """
         return (torch.abs(s) / self.A(T)) ** self.xi(T) * (1 - d) ** (
             self.xi(T) - self.phi(T)
-        ), -((torch.abs(s) / self.A(T)) ** self.xi(T)) * (1 - d) ** (
+        ), -(self.xi(T) - self.phi(T)) * (torch.abs(s) / self.A(T)) ** self.xi(T) * (
+            1 - d
+        ) ** (
             self.xi(T) - self.phi(T) - 1
         )
 
@@ -126,7 +128,9 @@ class HayhurstLeckie(DamageModel):
           T (torch.tensor):      temperature
         """
         return (
-            (torch.abs(s) / self.A(T)) ** (self.xi(T) - 1)
+            self.xi(T)
+            / self.A(T)
+            * (torch.abs(s) / self.A(T)) ** (self.xi(T) - 1)
             * (1 - d) ** (self.xi(T) - self.phi(T))
             * torch.sign(s)
         )
-- 
2.43.0


From 2aa0c78c13c713f6ca28e93e3174e4ed4252fb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:19 +0000
Subject: [PATCH 02/23] fix: effective stress term in the damaged model
 Jacobian

The damage rate is evaluated at the effective stress s / (1 - d), so its
derivative with respect to damage has a chain rule contribution.
---
 pyoptmat/models.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyoptmat/models.py b/pyoptmat/models.py
index 19d4d1d..2dc3cdf 100644
--- a/pyoptmat/models.py
+++ b/pyoptmat/models.py
@@ -237,7 +237,12 @@ class DamagedInelasticModel(nn.Module):
                     / (1 - d)
                 )[..., None, None],
                 torch.zeros_like(h).unsqueeze(-2),
-                ddrate[..., None, None],
+                (
+                    ddrate
+                    + self.dmodel.d_damage_rate_d_s(stress / (1 - d), d, t, T, erate)
+                    * stress
+                    / (1 - d) ** 2
+                )[..., None, None],
             ],
             dim=-1,
         )
-- 
2.43.0


From df92b9ed336a0a5d1bd524ac2da62b0c65c04250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:19 +0000
Subject: [PATCH 03/23] fix: strain rate dependence of the history in stress
 control

Under stress control the strain rate is a function of the history
variables, which contributes to the Jacobian whenever the history rates
depend on the total strain rate.
---
 pyoptmat/models.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyoptmat/models.py b/pyoptmat/models.py
index 2dc3cdf..24da061 100644
--- a/pyoptmat/models.py
+++ b/pyoptmat/models.py
@@ -556,7 +556,10 @@ class StressBasedModel(nn.Module):
         ydot, J, Je, _ = self.model(t, yp, erate[..., 0], cT)
 
         # Rescale the jacobian
-        J[..., 0, :] = -J[..., 0, :] / Je[..., 0][..., None]
+        dedot = -J[..., 0, :] / Je[..., 0][..., None]
+        J[..., 0, :] = dedot
+        # The rates of the other variables also depend on the strain rate
+        J[..., 1:, :] += Je[..., 1:, None] * dedot[..., None, :]
         J[..., :, 0] = 0
 
         # Insert the strain rate
-- 
2.43.0


From dee8a79f63bf335c5f9152734c2b20ed1215608a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:45 +0000
Subject: [PATCH 04/23] fix: keep the off diagonal blocks of PCR factorizations
 between solves

The cyclic reduction overwrote the stored blocks, so a second solve with
the same factorization gave a wrong answer.
---
 pyoptmat/chunktime.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/pyoptmat/chunktime.py b/pyoptmat/chunktime.py
index a84e0c1..318341b 100644
--- a/pyoptmat/chunktime.py
+++ b/pyoptmat/chunktime.py
@@ -229,17 +229,14 @@ class BidiagonalPCRFactorization(LUFactorization):
             v (torch.tensor): tensor of shape (nblk, sbat, sblk, 1)
         """
         # We could do this in place if it wasn't for the pad
-        self.B = pad(self.B, (0, 0, 0, 0, 0, 0, 1, 0))
+        B = pad(self.B, (0, 0, 0, 0, 0, 0, 1, 0))
 
         # Now figure out how many powers of 2 we need to complete our matrix
         for s, e in zip(*self._pow2(self.nblk)):
-            self.B[s + 1 : e], v[s + 1 : e] = self._solve_block(
-                self.lu[s:e], self.pivots[s:e], self.B[s:e], v[s:e]
+            B[s + 1 : e], v[s + 1 : e] = self._solve_block(
+                self.lu[s:e], self.pivots[s:e], B[s:e], v[s:e]
             )
 
-        # To retain consistent sizes
-        self.B = self.B[1:]
-
         return torch.linalg.lu_solve(self.lu, self.pivots, v)
 
     def _solve_block(self, lu, pivots, B, v):
@@ -355,19 +352,19 @@ class BidiagonalHybridFactorization(BidiagonalPCRFactorization):
             v (torch.tensor): tensor of shape (nblk, sbat, sblk, 1)
         """
         # We could do this in place if it wasn't for the pad
-        self.B = pad(self.B, (0, 0, 0, 0, 0, 0, 1, 0))
+        B = pad(self.B, (0, 0, 0, 0, 0, 0, 1, 0))
 
         # Get the PCR blocks to actually use
         start, end, last = self._pcr_blocks()
 
         # Do PCR
         for s, e in zip(start, end):
-            self.B[s + 1 : e], v[s + 1 : e] = self._solve_block(
-                self.lu[s:e], self.pivots[s:e], self.B[s:e], v[s:e]
+            B[s + 1 : e], v[s + 1 : e] = self._solve_block(
+                self.lu[s:e], self.pivots[s:e], B[s:e], v[s:e]
             )
 
         # To retain consistent sizes
-        self.B = self.B[1:]
+        B = B[1:]
 
         # We still need to solve the first block even if last is 0
 
@@ -382,7 +379,7 @@ class BidiagonalHybridFactorization(BidiagonalPCRFactorization):
             v[i] = torch.linalg.lu_solve(
                 self.lu[i],
                 self.pivots[i],
-                v[i] - torch.bmm(self.B[i - 1], v[i - 1].clone()),
+                v[i] - torch.bmm(B[i - 1], v[i - 1].clone()),
             )
 
         return v
-- 
2.43.0


From 0b7253ead858846de49df19e6c2c22c8a56a1fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:45 +0000
Subject: [PATCH 05/23] fix: do not overwrite the right hand side of a
 bidiagonal solve

With a batch size of one the reshaped right hand side aliases the input
and the in place solve modified it.
---
 pyoptmat/chunktime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyoptmat/chunktime.py b/pyoptmat/chunktime.py
index 318341b..4cdd39e 100644
--- a/pyoptmat/chunktime.py
+++ b/pyoptmat/chunktime.py
@@ -163,7 +163,7 @@ class LUFactorization(BidiagonalOperator):
                 v.reshape((self.sbat, self.nblk, self.sblk))
                 .transpose(0, 1)
                 .unsqueeze(-1)
-                .contiguous()
+                .clone(memory_format=torch.contiguous_format)
             )
             .squeeze(-1)
             .transpose(0, 1)
-- 
2.43.0


From b812f832edd77942945518e0e401a48b265c5837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:45 +0000
Subject: [PATCH 06/23] fix: size of the unrolled CSR matrices

The size was inferred from the largest index, which is too small when no
stored diagonal reaches the last block row or column.
---
 pyoptmat/chunktime.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyoptmat/chunktime.py b/pyoptmat/chunktime.py
index 4cdd39e..2e97544 100644
--- a/pyoptmat/chunktime.py
+++ b/pyoptmat/chunktime.py
@@ -708,6 +708,8 @@ class SquareBatchedBlockDiagonalMatrix:
         """
         coo = self.to_batched_coo()
         return [
-            torch.sparse_coo_tensor(coo.indices(), coo.values()[:, i]).to_sparse_csr()
+            torch.sparse_coo_tensor(
+                coo.indices(), coo.values()[:, i], size=(self.n, self.n)
+            ).to_sparse_csr()
             for i in range(self.sbat)
         ]
-- 
2.43.0


From e03b65fdce5d1d1c9422117d56bfa9bbb3b3c8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:45 +0000
Subject: [PATCH 07/23] fix: numerical derivative with respect to a scalar at
 zero

The increment was zero where the argument is zero.
---
 pyoptmat/utility.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyoptmat/utility.py b/pyoptmat/utility.py
index 2e57e0c..69e61ca 100644
--- a/pyoptmat/utility.py
+++ b/pyoptmat/utility.py
@@ -258,6 +258,7 @@ def differentiate(fn, x0, eps=1.0e-6):
         dx = torch.zeros_like(x0)
         if len(s2) == 0:
             dx = torch.abs(x0) * eps
+            dx[dx < eps] = eps
         else:
             inc = torch.abs(x0[..., i2]) * eps
             inc[inc < eps] = eps
-- 
2.43.0


From 12755ab454b863791264eb150a2d340c53fc81fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:45 +0000
Subject: [PATCH 08/23] fix: honour the scaling of the Kocks-Mecking shear
 modulus

The other temperature dependent parameters are evaluated through the
parameter scaling function, the shear modulus bypassed it.
---
 pyoptmat/flowrules.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyoptmat/flowrules.py b/pyoptmat/flowrules.py
index 249ba36..9af4224 100644
--- a/pyoptmat/flowrules.py
+++ b/pyoptmat/flowrules.py
@@ -208,7 +208,7 @@ class KocksMeckingRegimeFlowRule(FlowRule):
         return (
             self.k
             * T
-            / (self.mu.value(T) * self.b**3.0)
+            / (self.mu(T) * self.b**3.0)
             * torch.log(self.eps0 / (torch.abs(e) + self.eps))
         )
 
@@ -473,7 +473,7 @@ class SoftKocksMeckingRegimeFlowRule(FlowRule):
         return (
             self.k
             * T
-            / (self.mu.value(T) * self.b**3.0)
+            / (self.mu(T) * self.b**3.0)
             * torch.log(self.eps0 / (torch.abs(e) + self.eps))
         )
 
@@ -490,7 +490,7 @@ class SoftKocksMeckingRegimeFlowRule(FlowRule):
             torch.tensor:       derivative of the activation energy
         """
         return -(
-            self.k * T / (self.mu.value(T) * self.b**3.0) / (torch.abs(e) + self.eps)
+            self.k * T / (self.mu(T) * self.b**3.0) / (torch.abs(e) + self.eps)
         ) * torch.sign(e)
 
     def f(self, T, e):
-- 
2.43.0


From a0d973456a065f20a4c4bee19b0c171a6d3cb881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:15 +0000
Subject: [PATCH 09/23] fix: previous step guess when the only block is a
 partial block

---
 pyoptmat/ode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyoptmat/ode.py b/pyoptmat/ode.py
index cb7989f..83ecca4 100644
--- a/pyoptmat/ode.py
+++ b/pyoptmat/ode.py
@@ -402,8 +402,8 @@ class FixedGridBlockSolver:
                 guess = torch.zeros_like(result[k : k + self.n])
             else:
                 guess = result[(k - self.n) : k] - result[k - self.n - 1].unsqueeze(0)
-            blk = self.n - result[k : k + self.n].shape[0]
-            guess = guess[blk:]
+                blk = self.n - result[k : k + self.n].shape[0]
+                guess = guess[blk:]
         else:
             raise ValueError(f"Unknown initial guess strategy {self.guess_type}!")
 
-- 
2.43.0


From 37f76edb655ceafbcdce27ce4ea94919e4aedf73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:28 +0000
Subject: [PATCH 10/23] fix: backpropagation through the PCR and hybrid
 factorizations

---
 pyoptmat/chunktime.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyoptmat/chunktime.py b/pyoptmat/chunktime.py
index 2e97544..89bd682 100644
--- a/pyoptmat/chunktime.py
+++ b/pyoptmat/chunktime.py
@@ -260,13 +260,16 @@ class BidiagonalPCRFactorization(LUFactorization):
         # Actually start reduction!
         for i in range(niter):
             # Reduce RHS
+            # The clones of B keep the values autograd needs for the
+            # backward pass as B itself is updated in place
             v[:, 1:] -= mbmm(
-                B[:, 1:], torch.linalg.lu_solve(lu[:, :-1], pivots[:, :-1], v[:, :-1])
+                B[:, 1:].clone(),
+                torch.linalg.lu_solve(lu[:, :-1], pivots[:, :-1], v[:, :-1]),
             )
 
             # Reduce off diagonal coefficients
             B[:, 2:] = -mbmm(
-                B[:, 2:],
+                B[:, 2:].clone(),
                 torch.linalg.lu_solve(lu[:, 1:-1], pivots[:, 1:-1], B[:, 1:-1]),
             )
 
-- 
2.43.0


From bc4275d8932c3c5da9e4681ff0cefc7f4932c88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:21 +0000
Subject: [PATCH 11/23] fix: report nonlinear solves which end with a
 non-finite residual

---
 pyoptmat/chunktime.py | 2 +-
 pyoptmat/solvers.py   | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyoptmat/chunktime.py b/pyoptmat/chunktime.py
index 89bd682..2548a2c 100644
--- a/pyoptmat/chunktime.py
+++ b/pyoptmat/chunktime.py
@@ -53,7 +53,7 @@ def newton_raphson_chunk(
         nR = torch.norm(R, dim=-1)
         i += 1
 
-    if i == miter:
+    if i == miter or not torch.all(torch.isfinite(nR)):
         if throw_on_fail:
             raise RuntimeError("Implicit solve did not succeed.")
         warnings.warn("Implicit solve did not succeed.  Results may be inaccurate...")
diff --git a/pyoptmat/solvers.py b/pyoptmat/solvers.py
index 5044715..de66e2b 100644
--- a/pyoptmat/solvers.py
+++ b/pyoptmat/solvers.py
@@ -69,7 +69,7 @@ def newton_raphson_bt(
         x = xp
         i += 1
 
-    if i == miter:
+    if i == miter or not torch.all(torch.isfinite(nR)):
         warnings.warn("Implicit solve did not succeed.  Results may be inaccurate...")
 
     return x, J
@@ -119,7 +119,7 @@ def newton_raphson(fn, x0, linsolver="lu", rtol=1e-6, atol=1e-10, miter=100):
         nR = torch.norm(R, dim=-1)
         i += 1
 
-    if i == miter:
+    if i == miter or not torch.all(torch.isfinite(nR)):
         warnings.warn("Implicit solve did not succeed.  Results may be inaccurate...")
 
     return x, J
@@ -425,7 +425,7 @@ class PreconditionerReuseNonlinearSolver:
             nR = torch.norm(R, dim=-1)
             i += 1
 
-        if i == miter:
+        if i == miter or not torch.all(torch.isfinite(nR)):
             warnings.warn(
                 "Implicit solve did not succeed.  Results may be inaccurate..."
             )
-- 
2.43.0


From 970d1ba1792b0eb363682c29a96d74d9fb24ce26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:39 +0000
Subject: [PATCH 12/23] fix: gmres with a zero residual in some batch entries

---
 pyoptmat/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyoptmat/solvers.py b/pyoptmat/solvers.py
index de66e2b..4e1ae57 100644
--- a/pyoptmat/solvers.py
+++ b/pyoptmat/solvers.py
@@ -315,7 +315,7 @@ def gmres(
 
     # Basis
     V = torch.zeros((nbatch, b.shape[-1], maxiter + 1), device=A.device)
-    V[..., :, 0] = r / torch.linalg.norm(r, dim=-1)[:, None]
+    V[..., :, 0] = r / torch.clamp(torch.linalg.norm(r, dim=-1), min=eps)[:, None]
 
     # Preconditioned basis
     Z = torch.zeros((nbatch, b.shape[-1], maxiter + 1), device=A.device)
-- 
2.43.0


From 7b3ce7898b0955dd118832936e45533ee6eedea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:51 +0000
Subject: [PATCH 13/23] fix: numerical derivatives of or with respect to
 vectors

---
 pyoptmat/utility.py | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/pyoptmat/utility.py b/pyoptmat/utility.py
index 69e61ca..0d00f28 100644
--- a/pyoptmat/utility.py
+++ b/pyoptmat/utility.py
@@ -255,24 +255,14 @@ def differentiate(fn, x0, eps=1.0e-6):
         d = torch.empty((nbatch,) + s1 + s2)
 
     for i2 in np.ndindex(s2):
+        i2 = (...,) + i2
+        inc = torch.abs(x0[i2]) * eps
+        inc[inc < eps] = eps
         dx = torch.zeros_like(x0)
-        if len(s2) == 0:
-            dx = torch.abs(x0) * eps
-            dx[dx < eps] = eps
-        else:
-            inc = torch.abs(x0[..., i2]) * eps
-            inc[inc < eps] = eps
-            dx[..., i2] = inc
+        dx[i2] = inc
         v1 = fn(x0 + dx)
 
-        if len(s1) == 0 and len(s2) == 0:
-            d = (v1 - v0) / dx
-        elif len(s2) == 0:
-            d[...] = (v1 - v0) / dx.reshape(v1.shape)
-        elif len(s1) == 0:
-            d[..., i2] = ((v1 - v0) / dx.reshape(v1.shape))[:, None]
-        else:
-            d[..., i2] = ((v1 - v0) / dx)[..., None]
+        d[i2] = (v1 - v0) / inc.reshape((nbatch,) + (1,) * len(s1))
 
     return d
 
-- 
2.43.0


From ee4a2faf3f95ad699ab6f41060862b928abe2039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:54 +0000
Subject: [PATCH 14/23] fix: arbitrary batch interpolation for single entry and
 more than two dimensional batches

---
 pyoptmat/utility.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/pyoptmat/utility.py b/pyoptmat/utility.py
index 0d00f28..462f41c 100644
--- a/pyoptmat/utility.py
+++ b/pyoptmat/utility.py
@@ -301,11 +301,10 @@ class ArbitraryBatchTimeSeriesInterpolator(nn.Module):
         Returns:
           torch.tensor:       batched values at :code:`t`
         """
-        squeeze = t.dim() == 1
+        shape = t.shape
 
-        t = t.t()  # Transpose so the common dimension is first
-        if squeeze:
-            t = t.unsqueeze(-1)
+        # Flatten to (nt, nbatch) and transpose so the common dimension is first
+        t = t.reshape(-1, shape[-1]).t()
 
         # Which dimensions to offset -- likely there is some efficiency
         # to be gained by flipping these, but probably depends on the
@@ -327,10 +326,7 @@ class ArbitraryBatchTimeSeriesInterpolator(nn.Module):
             locs[..., 0], t == self.times[..., 0].unsqueeze(-1)
         )
 
-        if squeeze:
-            return poss[locs].squeeze(-1).t()
-
-        return poss[locs].reshape(t.shape).t()
+        return poss[locs].reshape(t.shape).t().reshape(shape)
 
 
 class BatchTimeSeriesInterpolator(nn.Module):
-- 
2.43.0


From 1375a4aed40c3a7d013ec2d77c4e58667a2c82f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:30 +0000
Subject: [PATCH 15/23] fix: use the cycle counts of each experiment when
 converting results

Relaxation, creep and cyclic results were split into loading, hold and
cycles with the counts of the first experiment of that type.
---
 pyoptmat/experiments.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/pyoptmat/experiments.py b/pyoptmat/experiments.py
index 4a9afd0..9a492ed 100644
--- a/pyoptmat/experiments.py
+++ b/pyoptmat/experiments.py
@@ -252,15 +252,12 @@ def format_relaxation(cycles, predictions):
     Returns:
       torch.tensor:                 processed results
     """
-    result = torch.zeros_like(predictions)
-    rcurve = cycles[:, 0] == 1  # This is right, but dangerous in the future
-
-    curve = predictions[rcurve]
-    curve = curve - curve[0]
+    # Each experiment can have its own split between loading and hold
+    hold = cycles == 1
+    _, index = torch.max(hold, 0)
+    start = predictions.gather(0, index.view(1, -1))[0]
 
-    result[rcurve] = curve
-
-    return result
+    return torch.where(hold, predictions - start, 0.0)
 
 
 def format_cyclic(cycles, predictions):
@@ -281,11 +278,11 @@ def format_cyclic(cycles, predictions):
     """
     # If this is slow we can probably remove the for loop
     result = torch.zeros_like(predictions)
-    uc = cycles[:, 0]  # Correct but dangerous for future expansion
-    for i in range(uc[-1] + 1):
-        curr = uc == i
-        vals, _ = torch.max(predictions[curr], axis=0)
-        result[curr] = vals
+    # Each experiment can have its own division into cycles
+    for i in range(torch.max(cycles) + 1):
+        curr = cycles == i
+        vals, _ = torch.max(torch.where(curr, predictions, -torch.inf), axis=0)
+        result = torch.where(curr, vals, result)
 
     return result
 
-- 
2.43.0


From 73412be56f1df63d06031a71e70464c64c1d8443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:09 +0000
Subject: [PATCH 16/23] fix: shape of batched piecewise linear parameters

---
 pyoptmat/temperature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyoptmat/temperature.py b/pyoptmat/temperature.py
index 52ddc3f..1f64f57 100644
--- a/pyoptmat/temperature.py
+++ b/pyoptmat/temperature.py
@@ -576,7 +576,7 @@ class PiecewiseScaling(TemperatureParameter):
         """
         Shape of the underlying parameter
         """
-        return self.values.shape[1:]
+        return self.values.shape[:-1]
 
 
 class ArrheniusScaling(TemperatureParameter):
-- 
2.43.0


From de4929532d207cf3d0c4626988e634e54f18a087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:44 +0000
Subject: [PATCH 17/23] fix: adjoint integration with frozen parameters or
 parameters without influence on the rate

---
 pyoptmat/ode.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pyoptmat/ode.py b/pyoptmat/ode.py
index 83ecca4..2240961 100644
--- a/pyoptmat/ode.py
+++ b/pyoptmat/ode.py
@@ -420,7 +420,15 @@ class FixedGridBlockSolver:
         """
         with torch.enable_grad():
             ydot = self.func(t, y)[0]
-            return torch.autograd.grad(ydot, self.adjoint_params, a)
+            if not ydot.requires_grad:
+                return tuple(torch.zeros_like(p) for p in self.adjoint_params)
+            grads = torch.autograd.grad(
+                ydot, self.adjoint_params, a, allow_unused=True
+            )
+            return tuple(
+                torch.zeros_like(p) if g is None else g
+                for p, g in zip(self.adjoint_params, grads)
+            )
 
     def rewind(self, output_grad):
         """
@@ -659,7 +667,9 @@ def odeint_adjoint(
     # Grab parameters for backward
     if extra_params is None:
         extra_params = []
-    adjoint_params = tuple(p for p in func.parameters()) + tuple(extra_params)
+    adjoint_params = tuple(
+        p for p in (*func.parameters(), *extra_params) if p.requires_grad
+    )
 
     solver = FixedGridBlockSolver(
         func, y0, scheme=int_methods[method], adjoint_params=adjoint_params, **kwargs
-- 
2.43.0


From 564b39d564297f6bb90ee1603d0b03d8a526b319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:38 +0000
Subject: [PATCH 18/23] fix: gradients of the plain integrator where the
 initial guess already solves a block

---
 pyoptmat/chunktime.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyoptmat/chunktime.py b/pyoptmat/chunktime.py
index 2548a2c..ec86c32 100644
--- a/pyoptmat/chunktime.py
+++ b/pyoptmat/chunktime.py
@@ -53,6 +53,12 @@ def newton_raphson_chunk(
         nR = torch.norm(R, dim=-1)
         i += 1
 
+    if i == 0 and torch.is_grad_enabled() and R.requires_grad:
+        # The guess already solves the system: keep its value, but let the
+        # gradients of the step connect it to the inputs
+        dx = solver.solve(J, R)
+        x = x - (dx - dx.detach())
+
     if i == miter or not torch.all(torch.isfinite(nR)):
         if throw_on_fail:
             raise RuntimeError("Implicit solve did not succeed.")
-- 
2.43.0


From 4db11e04a9f5145f0f1c8902f19283df1f128949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:52 +0000
Subject: [PATCH 19/23] fix: derivatives of the isotropic-kinematic flow rate
 inside the yield surface for a unit exponent

The reported derivatives were those of the flow outside of the yield surface
(0^0 = 1), and for exponents below two back-propagating through them gave NaN.
---
 pyoptmat/flowrules.py | 12 +++++++-----
 pyoptmat/utility.py   | 22 ++++++++++++++++++++++
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/pyoptmat/flowrules.py b/pyoptmat/flowrules.py
index 9af4224..d251d35 100644
--- a/pyoptmat/flowrules.py
+++ b/pyoptmat/flowrules.py
@@ -1187,8 +1187,9 @@ class IsoKinViscoplasticity(FlowRule):
             ** self.n(T)
             * torch.sign(s - kh),
             self.n(T)
-            * utility.macaulay((torch.abs(s - kh) - self.s0(T) - ih) / self.eta(T))
-            ** (self.n(T) - 1)
+            * utility.macaulay_power(
+                (torch.abs(s - kh) - self.s0(T) - ih) / self.eta(T), self.n(T) - 1
+            )
             / self.eta(T),
         )
 
@@ -1215,7 +1216,7 @@ class IsoKinViscoplasticity(FlowRule):
 
         return (
             -self.n(T)
-            * utility.macaulay(iv) ** (self.n(T) - 1)
+            * utility.macaulay_power(iv, self.n(T) - 1)
             / self.eta(T)
             * torch.sign(s - kh)
         )
@@ -1241,8 +1242,9 @@ class IsoKinViscoplasticity(FlowRule):
 
         return (
             -self.n(T)
-            * utility.macaulay((torch.abs(s - kh) - self.s0(T) - ih) / self.eta(T))
-            ** (self.n(T) - 1)
+            * utility.macaulay_power(
+                (torch.abs(s - kh) - self.s0(T) - ih) / self.eta(T), self.n(T) - 1
+            )
             / self.eta(T)
         )
 
diff --git a/pyoptmat/utility.py b/pyoptmat/utility.py
index 462f41c..9171096 100644
--- a/pyoptmat/utility.py
+++ b/pyoptmat/utility.py
@@ -462,6 +462,28 @@ def timeseries_interpolate_single_times(times, values, t):
     return values[gi - 1] + slopes * (t - times[gi - 1])
 
 
+def macaulay_power(X, p):
+    """
+    A power of the positive part, zero where the argument is not positive
+
+    .. math::
+
+      \\left\\langle X\\right\\rangle^p
+
+    for :math:`p \\ge 0`, with a finite derivative everywhere.  This is also
+    zero for a vanishing exponent if the argument is not positive.
+
+    Args:
+      X (torch.tensor): tensor input
+      p (torch.tensor): exponent
+
+    Returns:
+      torch.tensor:     the power, element by element
+    """
+    active = X > 0
+    return torch.where(active, torch.where(active, X, 1.0) ** p, 0.0)
+
+
 def heaviside(X):
     """
     A pytorch-differentiable version of the Heaviside function
-- 
2.43.0


From cf992fe12a3035226935471ebc2d35949f1c6a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:52 +0000
Subject: [PATCH 20/23] fix: undefined gradients at zero stress and zero
 internal variables

The chain rule for |x|^p with p < 1 multiplies an infinite and a zero
derivative at x = 0, where every simulation starts.
---
 pyoptmat/damage.py    |  6 ++++--
 pyoptmat/flowrules.py |  6 ++++--
 pyoptmat/hardening.py | 16 +++++++++-------
 pyoptmat/utility.py   | 24 ++++++++++++++++++++++++
 4 files changed, 41 insertions(+), 11 deletions(-)

diff --git a/pyoptmat/damage.py b/pyoptmat/damage.py
index e46aaa8..c002271 100644
--- a/pyoptmat/damage.py
+++ b/pyoptmat/damage.py
@@ -9,6 +9,8 @@
 import torch
 from torch import nn
 
+from pyoptmat import utility
+
 
 class DamageModel(nn.Module):
     """
@@ -130,7 +132,7 @@ class HayhurstLeckie(DamageModel):
         return (
             self.xi(T)
             / self.A(T)
-            * (torch.abs(s) / self.A(T)) ** (self.xi(T) - 1)
+            * utility.abs_power(s / self.A(T), self.xi(T) - 1)
             * (1 - d) ** (self.xi(T) - self.phi(T))
             * torch.sign(s)
         )
@@ -251,7 +253,7 @@ class LarsonMillerDamage(DamageModel):
             10.0 ** (self.C(T) - self.B(T) / T)
             * self.A(T)
             * torch.abs(s)
-            * (torch.abs(s) * (1 - d)) ** (-(self.A(T) + T) / T)
+            * utility.abs_power(s * (1 - d), -(self.A(T) + T) / T)
             / T,
         )
 
diff --git a/pyoptmat/flowrules.py b/pyoptmat/flowrules.py
index d251d35..94019a3 100644
--- a/pyoptmat/flowrules.py
+++ b/pyoptmat/flowrules.py
@@ -1094,8 +1094,10 @@ class PerfectViscoplasticity(FlowRule):
                                                 respect to stress
         """
         return (
-            (torch.abs(s) / self.eta(T)) ** self.n(T) * torch.sign(s),
-            self.n(T) * (torch.abs(s) / self.eta(T)) ** (self.n(T) - 1) / self.eta(T),
+            utility.abs_power(s / self.eta(T), self.n(T) - 1) * s / self.eta(T),
+            self.n(T)
+            * utility.abs_power(s / self.eta(T), self.n(T) - 1)
+            / self.eta(T),
         )
 
     @property
diff --git a/pyoptmat/hardening.py b/pyoptmat/hardening.py
index 6492e2e..57233dd 100644
--- a/pyoptmat/hardening.py
+++ b/pyoptmat/hardening.py
@@ -18,7 +18,7 @@ import numpy as np
 import torch
 from torch import nn
 
-from pyoptmat import temperature
+from pyoptmat import temperature, utility
 
 
 class HardeningModel(nn.Module):
@@ -387,7 +387,7 @@ class Theta0RecoveryVoceIsotropicHardeningModel(IsotropicHardeningModel):
             self.theta(T) * (1.0 - h[..., 0] / self.tau(T)) * torch.abs(ep)
             + self.r1(T)
             * (self.R0(T) - h[..., 0])
-            * torch.abs(self.R0(T) - h[..., 0]) ** (self.r2(T) - 1.0),
+            * utility.abs_power(self.R0(T) - h[..., 0], self.r2(T) - 1.0),
             -1,
         )
 
@@ -420,7 +420,7 @@ class Theta0RecoveryVoceIsotropicHardeningModel(IsotropicHardeningModel):
         recovery = (
             self.r2(T)
             * self.r1(T)
-            * torch.abs(self.R0(T) - h[..., 0]) ** (self.r2(T) - 1.0)
+            * utility.abs_power(self.R0(T) - h[..., 0], self.r2(T) - 1.0)
         )[..., None, None]
         return (
             -self.theta(T) / self.tau(T) * torch.ones_like(h[..., 0]) * torch.abs(ep)
@@ -642,7 +642,7 @@ class FAKinematicHardeningModel(KinematicHardeningModel):
         return torch.unsqueeze(
             self.C(T) * torch.ones_like(h[..., 0]) * ep
             - self.g(T) * h[..., 0] * torch.abs(ep)
-            - self.b(T) * torch.abs(h[..., 0]) ** (self.r(T) - 1.0) * h[..., 0],
+            - self.b(T) * utility.abs_power(h[..., 0], self.r(T) - 1.0) * h[..., 0],
             -1,
         )
 
@@ -680,7 +680,7 @@ class FAKinematicHardeningModel(KinematicHardeningModel):
         """
         return (
             -self.g(T) * torch.ones_like(h[..., 0]) * torch.abs(ep)
-            - (self.b(T) * self.r(T) * torch.abs(h[..., 0]) ** (self.r(T) - 1.0))
+            - (self.b(T) * self.r(T) * utility.abs_power(h[..., 0], self.r(T) - 1.0))
         )[..., None, None]
 
     def dhistory_rate_derate(self, s, h, t, ep, T, e):
@@ -1069,7 +1069,9 @@ class ChabocheHardeningModelRecovery(KinematicHardeningModel):
         return (
             self.C(T)[None, ...] * ep[..., None]
             - self.g(T)[None, ...] * h * torch.abs(ep)[..., None]
-            - self.b(T)[None, ...] * torch.abs(h) ** (self.r(T)[None, ...] - 1.0) * h
+            - self.b(T)[None, ...]
+            * utility.abs_power(h, self.r(T)[None, ...] - 1.0)
+            * h
         ).reshape(h.shape)
 
     def dhistory_rate_dstress(self, s, h, t, ep, T, e):
@@ -1109,7 +1111,7 @@ class ChabocheHardeningModelRecovery(KinematicHardeningModel):
         ).reshape(h.shape + (self.nback,)) + torch.diag_embed(
             -self.b(T)[None, ...]
             * self.r(T)[None, ...]
-            * torch.abs(h) ** (self.r(T)[None, ...] - 1.0)
+            * utility.abs_power(h, self.r(T)[None, ...] - 1.0)
         ).reshape(
             h.shape + (self.nback,)
         )
diff --git a/pyoptmat/utility.py b/pyoptmat/utility.py
index 9171096..3acd302 100644
--- a/pyoptmat/utility.py
+++ b/pyoptmat/utility.py
@@ -462,6 +462,30 @@ def timeseries_interpolate_single_times(times, values, t):
     return values[gi - 1] + slopes * (t - times[gi - 1])
 
 
+def abs_power(X, p):
+    """
+    The power of the absolute value
+
+    .. math::
+
+      \\left|x\\right|^p
+
+    for :math:`p \\ge 0`, with a finite derivative at zero.  PyTorch's own
+    chain rule multiplies an infinite and a zero derivative there if
+    :math:`p < 1`.
+
+    Args:
+      X (torch.tensor): tensor input
+      p (torch.tensor): exponent
+
+    Returns:
+      torch.tensor:     the power, element by element
+    """
+    zero = X == 0
+    Y = torch.abs(X)
+    return torch.where(zero, Y.detach() ** p, torch.where(zero, 1.0, Y) ** p)
+
+
 def macaulay_power(X, p):
     """
     A power of the positive part, zero where the argument is not positive
-- 
2.43.0


From c85f2f4b658be39397bd1dee9ffd280c6a6a4abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:13:54 +0000
Subject: [PATCH 21/23] fix: count the gradient of a parameter listed twice
 only once in the adjoint pass

---
 pyoptmat/ode.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyoptmat/ode.py b/pyoptmat/ode.py
index 2240961..ad5e7dd 100644
--- a/pyoptmat/ode.py
+++ b/pyoptmat/ode.py
@@ -667,8 +667,11 @@ def odeint_adjoint(
     # Grab parameters for backward
     if extra_params is None:
         extra_params = []
+    # A tensor listed more than once must only contribute its gradient once
     adjoint_params = tuple(
-        p for p in (*func.parameters(), *extra_params) if p.requires_grad
+        p
+        for p in dict.fromkeys((*func.parameters(), *extra_params))
+        if p.requires_grad
     )
 
     solver = FixedGridBlockSolver(
-- 
2.43.0


From 8fb626a18845a4ffb8cd6720ed0d142ec305ac61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:22:57 +0000
Subject: [PATCH 22/23] fix: parallel cyclic reduction of right hand sides
 which are not contiguous in memory

---
 pyoptmat/chunktime.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyoptmat/chunktime.py b/pyoptmat/chunktime.py
index ec86c32..c8f259c 100644
--- a/pyoptmat/chunktime.py
+++ b/pyoptmat/chunktime.py
@@ -261,7 +261,8 @@ class BidiagonalPCRFactorization(LUFactorization):
         lu = lu.unsqueeze(0)
         pivots = pivots.unsqueeze(0)
         B = B.unsqueeze(0)
-        v = v.unsqueeze(0)
+        # The cyclic shift relies on the memory layout
+        v = v.contiguous().unsqueeze(0)
 
         # Actually start reduction!
         for i in range(niter):
-- 
2.43.0


From 013aa0c06edc06bd121da3177710a12acf9d9e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:58:33 +0000
Subject: [PATCH 23/23] fix: product with a bidiagonal operator failed for
 blocks or vectors stored in another order

---
 pyoptmat/chunktime.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyoptmat/chunktime.py b/pyoptmat/chunktime.py
index c8f259c..b695fd8 100644
--- a/pyoptmat/chunktime.py
+++ b/pyoptmat/chunktime.py
@@ -465,16 +465,16 @@ class BidiagonalForwardOperator(BidiagonalOperator):
         """
         # Reshaped v
         vp = (
-            v.view(self.sbat, self.nblk, self.sblk)
+            v.reshape(self.sbat, self.nblk, self.sblk)
             .transpose(0, 1)
             .reshape(self.sbat * self.nblk, self.sblk)
             .unsqueeze(-1)
         )
 
         # Actual calculation
-        b = torch.bmm(self.A.view(-1, self.sblk, self.sblk), vp)
+        b = torch.bmm(self.A.reshape(-1, self.sblk, self.sblk), vp)
         b[self.sbat :] += torch.bmm(
-            self.B.view(-1, self.sblk, self.sblk), vp[: -self.sbat]
+            self.B.reshape(-1, self.sblk, self.sblk), vp[: -self.sbat]
         )
 
         return (
-- 
2.43.0


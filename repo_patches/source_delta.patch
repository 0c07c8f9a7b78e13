From 9c3de3c04d34f2527c7e83ba64f03b9b5541285e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:29 +0000
Subject: [PATCH 01/43] fix: multi-precision DOS of sc, fcc and triangular
 lattice lost precision

sc.dos_mp applied the expansion around eps=0 to the unscaled energy, which is
wrong for half_bandwidth != 3; fcc.dos_mp and triangular.dos_mp evaluated a
factor in double precision.
---
 gftool/lattice/fcc.py        |  2 +-
 gftool/lattice/sc.py         | 10 +++++-----
 gftool/lattice/triangular.py |  2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/gftool/lattice/fcc.py b/gftool/lattice/fcc.py
index c0af611..f01b751 100644
--- a/gftool/lattice/fcc.py
+++ b/gftool/lattice/fcc.py
@@ -328,4 +328,4 @@ def dos_mp(eps, half_bandwidth=1):
     kii = mp.ellipk(m_p)
     if m_p.imag < 0:
         kii += 2j * mp.ellipk(1 - m_p)  # eq (2.17)
-    return abs(4 / (mp.pi**3 * D * epsp1) * (_u_ellipk(m_m) * kii).imag)  # eq (2.16)
+    return abs(4 / (mp.pi**3 * D * epsp1) * (mp.ellipk(m_m) * kii).imag)  # eq (2.16)
diff --git a/gftool/lattice/sc.py b/gftool/lattice/sc.py
index 9e12461..7932151 100644
--- a/gftool/lattice/sc.py
+++ b/gftool/lattice/sc.py
@@ -304,7 +304,7 @@ def gf_z_mp(z, half_bandwidth=1):
     >>> _ = plt.legend()
     >>> plt.show()
     """
-    D_inv = 3 / half_bandwidth
+    D_inv = 3 / mp.mpf(half_bandwidth)
     z = D_inv * mp.mpc(z)
     z_sqr = 1 / z**2
     xi = mp.sqrt(1 - mp.sqrt(1 - z_sqr)) / mp.sqrt(1 + mp.sqrt(1 - 9*z_sqr))
@@ -364,11 +364,11 @@ def dos_mp(eps, half_bandwidth=1):
     >>> _ = plt.xlim(left=eps.min(), right=eps.max())
     >>> plt.show()
     """
-    D_inv = 3 / half_bandwidth
+    D_inv = 3 / mp.mpf(half_bandwidth)
     eps = mp.fabs(eps)
-    if eps < 10**(-mp.dps/4):
+    if D_inv*eps < 10**(-mp.dps/4):
         km2 = 0.25 * (2 - mp.sqrt(3))
-        dos0 = D_inv * (2 / mp.pi**2) * mp.ellipk(km2) * mp.ellipk(1 - km2) / mp.pi
+        dos0 = (2 / mp.pi**2) * mp.ellipk(km2) * mp.ellipk(1 - km2) / mp.pi
         dos1 = 1 / (3 * mp.pi**4 * dos0)
         even_coeffs = [dos0*d0 - dos1*d1 for d0, d1 in zip(
             [1, mp.mpf("1/18"), mp.mpf("11/648"), mp.mpf("19/2160")],
@@ -376,6 +376,6 @@ def dos_mp(eps, half_bandwidth=1):
         )]
         coeffs = [0] * (2*len(even_coeffs) - 1)
         coeffs[::2] = even_coeffs
-        return mp.polyval(coeffs[::-1], eps)
+        return D_inv * mp.polyval(coeffs[::-1], D_inv*eps)
 
     return -mp.im(gf_z_mp(eps, half_bandwidth)) / mp.pi
diff --git a/gftool/lattice/triangular.py b/gftool/lattice/triangular.py
index c410cf9..980c0a6 100644
--- a/gftool/lattice/triangular.py
+++ b/gftool/lattice/triangular.py
@@ -334,4 +334,4 @@ def dos_mp(eps, half_bandwidth=1):
         else:
             msg = "Should be impossible. Please report this!"
             raise RuntimeError(msg)
-        return 2 / np.pi**2 / D * dos_
+        return 2 / mp.pi**2 / D * dos_
-- 
2.43.0


From 786167ad8946b72e3d05ecbed6da8cedcc891cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:29 +0000
Subject: [PATCH 02/43] fix: triangular gf_z compared rescaled frequency with
 wrong singularity

---
 gftool/lattice/triangular.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/lattice/triangular.py b/gftool/lattice/triangular.py
index 980c0a6..394051d 100644
--- a/gftool/lattice/triangular.py
+++ b/gftool/lattice/triangular.py
@@ -76,7 +76,7 @@ def gf_z(z, half_bandwidth):
     z = z.reshape(-1)
     advanced = z.imag < 0
     z = np.where(advanced, np.conj(z), z)  # calculate retarded only, and use symmetry
-    singular = D * z == -1  # try singularity which needs to be avoided
+    singular = z == -1  # try singularity which needs to be avoided
     z[singular] = 0  # mock value to avoid errors
     rr = _signed_sqrt(2*z + 3)
     gg = 4.0 / (_signed_sqrt(rr - 1)**3 * _signed_sqrt(rr + 3))  # eq (2.9)
-- 
2.43.0


From 8792b92be0858e0facaef6b581df256688556972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:29 +0000
Subject: [PATCH 03/43] fix: bcc/fcc dos failed for integer energies

---
 gftool/lattice/bcc.py | 2 +-
 gftool/lattice/fcc.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gftool/lattice/bcc.py b/gftool/lattice/bcc.py
index e44cc85..f685328 100644
--- a/gftool/lattice/bcc.py
+++ b/gftool/lattice/bcc.py
@@ -147,7 +147,7 @@ def dos(eps, half_bandwidth):
     """
     eps = np.asarray(eps)
     eps_rel = eps / half_bandwidth
-    dos_ = np.zeros_like(eps)
+    dos_ = np.zeros_like(eps, dtype=np.result_type(eps, float))
     singular = eps_rel == 0
     finite = (abs(eps_rel) <= 1) & ~singular
     # identity `K(m) = (1/m) [K(m) + iK'(1/m)]` could be used to avoid 1/0
diff --git a/gftool/lattice/fcc.py b/gftool/lattice/fcc.py
index f01b751..713d082 100644
--- a/gftool/lattice/fcc.py
+++ b/gftool/lattice/fcc.py
@@ -176,7 +176,7 @@ def dos(eps, half_bandwidth):
     eps = np.asarray(eps)
     singular = eps == -0.5*half_bandwidth
     finite = (-0.5*half_bandwidth < eps) & (eps < 1.5*half_bandwidth) & ~singular
-    dos_ = np.zeros_like(eps)
+    dos_ = np.zeros_like(eps, dtype=np.result_type(eps, float))
     dos_[finite] = 1 / np.pi * gf_z(eps[finite], half_bandwidth=half_bandwidth).imag
     dos_[singular] = np.inf
     return abs(dos_)  # at 0.5D wrong sign
-- 
2.43.0


From 268eb72d714262ddff8e3aea4ce0e0ef3e6c077a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:08 +0000
Subject: [PATCH 04/43] fix: bose_fct truncated results for integer input and
 repeated lists

---
 gftool/statistics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gftool/statistics.py b/gftool/statistics.py
index 41d4654..27c1ae6 100644
--- a/gftool/statistics.py
+++ b/gftool/statistics.py
@@ -46,8 +46,8 @@ def bose_fct(eps, beta):
     >>> _ = plt.xlim(left=eps.min(), right=eps.max())
     >>> plt.show()
     """
-    betaeps = np.asanyarray(beta*eps)
-    res = np.empty_like(betaeps)
+    betaeps = beta*np.asanyarray(eps)
+    res = np.empty_like(betaeps, dtype=np.result_type(betaeps, 1.0))
     small = betaeps < 700
 
     with catch_warnings():
-- 
2.43.0


From 3bdb14e9a05241164d19fd14348783df0566bfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:08 +0000
Subject: [PATCH 05/43] fix: pole_gf_tau_b accepted a pole at zero, giving
 infinities

---
 gftool/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/__init__.py b/gftool/__init__.py
index b4d24dc..5269e1a 100644
--- a/gftool/__init__.py
+++ b/gftool/__init__.py
@@ -338,7 +338,7 @@ def pole_gf_tau_b(tau, poles, weights, beta):
     poles = np.atleast_1d(poles)
     tau = np.asanyarray(tau)[..., newaxis]
     beta = np.asanyarray(beta)[..., newaxis]
-    if np.any(poles.real < 0):
+    if np.any(poles.real <= 0):
         msg = "Bosonic Green's function only well-defined for positive `poles`."
         raise ValueError(msg)
     # eps((beta-tau)*pole)*g(pole, beta) = -exp(-tau*pole)*g(pole, -beta)
-- 
2.43.0


From 2bea9f38df629d42c4a79f175354d6738714591f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:08 +0000
Subject: [PATCH 06/43] fix: check_convergence(matrix=True) mixed frequency and
 orbital axes

---
 gftool/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gftool/__init__.py b/gftool/__init__.py
index 5269e1a..8eaf9bf 100644
--- a/gftool/__init__.py
+++ b/gftool/__init__.py
@@ -579,7 +579,8 @@ def check_convergence(gf_iw, potential, beta, order=2, matrix=False, total=False
 
     if matrix:
         dec = gtmatrix.decompose_her(potential)
-        tail = dec.reconstruct(1./np.add.outer(dec.eig, iw), kind="diag")
+        tail = dec.reconstruct(1./np.add.outer(iw, dec.eig), kind="diag")
+        tail = np.moveaxis(tail, source=0, destination=-1)
     else:
         tail = 1/np.add.outer(potential, iw)
 
-- 
2.43.0


From 84b07fb8bc26af57bc84a280c6bec826172885be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:08 +0000
Subject: [PATCH 07/43] fix: UDecomposition.s was not sorted in descending
 order for stacked matrices

---
 gftool/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/matrix.py b/gftool/matrix.py
index 53ad61e..3ef5030 100644
--- a/gftool/matrix.py
+++ b/gftool/matrix.py
@@ -257,7 +257,7 @@ class UDecomposition(Decomposition):
     @property
     def s(self):
         """Singular values in descending order, different from order of `eig`."""
-        return np.sort(abs(self.eig))[::-1]
+        return np.sort(abs(self.eig))[..., ::-1]
 
 
 def decompose_mat(mat) -> Decomposition:
-- 
2.43.0


From b3032186379bb8034c3026c810d32fed7e602a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:08 +0000
Subject: [PATCH 08/43] fix: FilterNegImagNum(rel_num=...) raised for
 fractional numbers

---
 gftool/pade.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/pade.py b/gftool/pade.py
index 01f991f..5d491ad 100644
--- a/gftool/pade.py
+++ b/gftool/pade.py
@@ -171,7 +171,7 @@ def FilterNegImagNum(abs_num=None, rel_num=None):
 
     def filter_neg_imag_num(pade_iter):
         badness = np.array([np.max(pade.imag, axis=-1) for pade in pade_iter])
-        abs_num_ = rel_num * badness.shape[0] if abs_num is None else abs_num
+        abs_num_ = int(rel_num*badness.shape[0]) if abs_num is None else abs_num
         if abs_num_ >= badness.shape[0]:
             LOGGER.warning("Skipping filter, not enough Padés (#Padés = %s)",
                            badness.shape[0])
-- 
2.43.0


From dac1f6e04ea046467c9e973984b8cde9a4488d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:08 +0000
Subject: [PATCH 09/43] fix: pade.averaged dropped the approximant using n_max
 points

---
 gftool/pade.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gftool/pade.py b/gftool/pade.py
index 5d491ad..0fb0c69 100644
--- a/gftool/pade.py
+++ b/gftool/pade.py
@@ -713,9 +713,10 @@ def averaged(z_out, z_in, *, valid_z=None, fct_z=None, coeff=None,
         Variance associated with the function values `pade.x` at points `z`.
     """
     assert fct_z is None or coeff is None
-    z_in = z_in[:kind.stop]
-    coeff = (coefficients(z_in, fct_z=fct_z[..., :kind.stop]) if coeff is None
-             else coeff[..., :kind.stop])
+    n_in = kind.stop + 1  # approximant with index `kind.stop - 1` needs one more point
+    z_in = z_in[:n_in]
+    coeff = (coefficients(z_in, fct_z=fct_z[..., :n_in]) if coeff is None
+             else coeff[..., :n_in])
     if valid_z is None:
         valid_z = z_out
     valid_z = valid_z.reshape(-1)
-- 
2.43.0


From 70c4c7f7a7d3fa711b7699bacce3ffbeaa79b5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:52 +0000
Subject: [PATCH 10/43] fix: gf_from_tau ignored occ=0, and failed to fix occ
 without moments

---
 gftool/basis/pole.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/gftool/basis/pole.py b/gftool/basis/pole.py
index 1ee5c64..d29fffe 100644
--- a/gftool/basis/pole.py
+++ b/gftool/basis/pole.py
@@ -643,19 +643,21 @@ def gf_from_tau(gf_tau, n_pole, beta, moments=(), occ=False, width=1., weight=No
     if weight is not None:
         gf_sp_mat *= weight[..., np.newaxis]
         gf_tau = gf_tau * weight
-    if moments.shape[-1] > 0 or occ:  # constrained
-        if moments.shape[-1] + int(occ) > n_pole:
+    fix_occ = occ is not False
+    if moments.shape[-1] > 0 or fix_occ:  # constrained
+        if moments.shape[-1] + int(fix_occ) > n_pole:
             msg = (
                 "Too many poles given, system is over constrained. "
                 f"poles: {n_pole}, moments: {moments.shape[-1]}"
             )
             raise ValueError(msg)
-        constrain_mat = np.polynomial.polynomial.polyvander(poles, deg=moments.shape[-1]-1).T
-        if occ:
+        constrain_mat = polyvander(poles, deg=n_pole-1).T[:moments.shape[-1]]
+        if fix_occ:
             constrain_mat = np.concatenate(
-                np.broadcast_arrays(constrain_mat, fermi_fct(poles, beta=beta)), axis=-2
+                [constrain_mat, fermi_fct(poles, beta=beta)[newaxis, :]], axis=-2
             )
-            moments = np.concatenate(np.broadcast_arrays(moments, occ), axis=-1)
+            occ = np.broadcast_to(np.asarray(occ)[..., newaxis], (*moments.shape[:-1], 1))
+            moments = np.concatenate([moments, occ], axis=-1)
         _lstsq_ec = np.vectorize(linalg.lstsq_ec, signature="(m,n),(m),(l,n),(l)->(n)",
                                  otypes=[otype], excluded={"rcond"})
         resid = _lstsq_ec(gf_sp_mat, gf_tau, constrain_mat, moments)
-- 
2.43.0


From dabbe5a945da221c62a4599dae1c0eaf13ab57d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:52 +0000
Subject: [PATCH 11/43] fix: pole fits failed for weights with leading axes

---
 gftool/basis/pole.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gftool/basis/pole.py b/gftool/basis/pole.py
index d29fffe..9a1f77e 100644
--- a/gftool/basis/pole.py
+++ b/gftool/basis/pole.py
@@ -568,7 +568,7 @@ def gf_from_z(z, gf_z, n_pole, moments=(), width=1., weight=None) -> PoleFct:
     otype = np.result_type(gf_z, moments, poles)
     if weight is not None:
         weight = np.concatenate([weight, weight], axis=-1)
-        gf_sp_mat *= weight[..., np.newaxis]
+        gf_sp_mat = gf_sp_mat * weight[..., np.newaxis]
         gf_z = gf_z * weight
     if moments.shape[-1] > 0:
         if moments.shape[-1] > n_pole:
@@ -641,7 +641,7 @@ def gf_from_tau(gf_tau, n_pole, beta, moments=(), occ=False, width=1., weight=No
     moments = np.asarray(moments)
     otype = np.result_type(gf_tau, moments, poles)
     if weight is not None:
-        gf_sp_mat *= weight[..., np.newaxis]
+        gf_sp_mat = gf_sp_mat * weight[..., np.newaxis]
         gf_tau = gf_tau * weight
     fix_occ = occ is not False
     if moments.shape[-1] > 0 or fix_occ:  # constrained
-- 
2.43.0


From 0c2d94da6d0e8a1e1854c6a3371d11285ea72f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:22 +0000
Subject: [PATCH 12/43] fix: pader failed or returned 0 for low degrees and
 reduction to polynomials

---
 gftool/hermpade.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gftool/hermpade.py b/gftool/hermpade.py
index 089f668..4f57164 100644
--- a/gftool/hermpade.py
+++ b/gftool/hermpade.py
@@ -535,13 +535,13 @@ def pader(an, num_deg: int, den_deg: int, rcond: float = 1e-14) -> RatPol:
     an = an[:l_max]
     # TODO: do rescaling, haven't found it in the reference
     tol = rcond * np.linalg.norm(an)
-    if np.all(abs(an[:num_deg]) <= tol):  # up to tolerance function is 0
+    if np.all(abs(an[:num_deg+1]) <= tol):  # up to tolerance function is 0
         return RatPol(Polynom([0]), Polynom([1]))
     row = np.r_[an[0], np.zeros(den_deg)]
     col = an
     while True:
         if den_deg == 0:
-            pcoeff, qcoeff = an[:den_deg], np.array([1])
+            pcoeff, qcoeff = an[:num_deg+1], np.array([1])
             break
         # top = np.r_[an[num_deg+1:num_deg+1-den_deg:-1], [0]*(den_deg-num_deg)]
         # amat = toeplitz(an[num_deg+1:], top)
-- 
2.43.0


From 723818d4684eedd10ef26bec6c35d010426f8e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:22 +0000
Subject: [PATCH 13/43] fix: pade_lstsq ignored num_deg for den_deg=0

---
 gftool/hermpade.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/hermpade.py b/gftool/hermpade.py
index 4f57164..c00615a 100644
--- a/gftool/hermpade.py
+++ b/gftool/hermpade.py
@@ -452,7 +452,7 @@ def pade_lstsq(an, num_deg: int, den_deg: int, rcond=None, fix_q=None) -> RatPol
         msg = "Order of q+p (den_deg+num_deg) must be smaller than len(an)."
         raise ValueError(msg)
     if den_deg == 0:  # trivial case: no rational polynomial
-        return RatPol(Polynom(an), Polynom(np.array([1])))
+        return RatPol(Polynom(an[:num_deg+1]), Polynom(np.array([1])))
     # first solve the Toeplitz system for q, first row contains tailing zeros
     top = np.r_[an[num_deg+1::-1][:den_deg+1], [0]*(den_deg-num_deg-1)]
     amat = toeplitz(an[num_deg+1:], top)
-- 
2.43.0


From 2c8a73cbcfb5a82bab813c97dcecdd0d591452c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:22 +0000
Subject: [PATCH 14/43] fix: Hermite2 could not be evaluated for scalars

---
 gftool/hermpade.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gftool/hermpade.py b/gftool/hermpade.py
index c00615a..fc382a5 100644
--- a/gftool/hermpade.py
+++ b/gftool/hermpade.py
@@ -723,8 +723,8 @@ class _Hermite2Base:
         """Evaluate the two branches."""
         pz, qz, rz = self.p(z), self.q(z), self.r(z)
         discriminant = np.emath.sqrt(qz**2 - 4*pz*rz)
-        p_branch = 0.5*(-qz + discriminant) / rz
-        m_branch = 0.5*(-qz - discriminant) / rz
+        p_branch = np.asarray(0.5*(-qz + discriminant) / rz)  # scalars cannot be `out`
+        m_branch = np.asarray(0.5*(-qz - discriminant) / rz)
         # more stable calculation of branches, using `out` for lazy evaluation
         # see [fasondini2019]_, 5.2 Evaluating the quadratic formula
         np.divide(pz, rz*m_branch, out=p_branch, where=abs(p_branch) < abs(m_branch))
-- 
2.43.0


From c9ce6077b5bf73931dfaf8e834606603e20f0f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:46 +0000
Subject: [PATCH 15/43] fix: polepade failed for numbers of points just
 determining the maximal number of poles

---
 gftool/polepade.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/polepade.py b/gftool/polepade.py
index c02656c..c660109 100644
--- a/gftool/polepade.py
+++ b/gftool/polepade.py
@@ -202,7 +202,7 @@ def number_poles(z, fct_z, *, degree=-1, weight=None, n_poles0: Opt[int] = None,
        https://doi.org/10.1007/s00211-018-0948-4
     """
     tol = np.finfo(fct_z.dtype).eps
-    max_n_poles = abs_max_n_poles = (z.size - degree)//2
+    max_n_poles = abs_max_n_poles = (z.size - degree - 1)//2
     if n_poles0 is None:
         n_poles = min(max_n_poles, 50)
     else:
-- 
2.43.0


From 8ec8791b3e4634f4d0cd908a75c25bbda920ea31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:46 +0000
Subject: [PATCH 16/43] fix: polepade.asymptotic returned the variance as
 standard deviation for weights

---
 gftool/polepade.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/polepade.py b/gftool/polepade.py
index c660109..d2898d3 100644
--- a/gftool/polepade.py
+++ b/gftool/polepade.py
@@ -385,7 +385,7 @@ def asymptotic(z, fct_z, zeros, poles, weight=None):
         std = np.std(ratios, ddof=1, axis=-1)
     else:
         asym = np.average(ratios, weights=weight, axis=-1)
-        std = np.average(abs(ratios - asym)**2, weights=weight, axis=-1)
+        std = np.average(abs(ratios - asym)**2, weights=weight, axis=-1)**0.5
     return asym, std
 
 
-- 
2.43.0


From 70e30809626f0d14dc3e30b44d3c4d56ab0476b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:11 +0000
Subject: [PATCH 17/43] fix: density(matrix=True) failed for complex Hermitian
 potentials

---
 gftool/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/__init__.py b/gftool/__init__.py
index 8eaf9bf..8f1d926 100644
--- a/gftool/__init__.py
+++ b/gftool/__init__.py
@@ -454,7 +454,7 @@ def density(gf_iw, potential, beta, return_err=True, matrix=False, total=False):
         eig = dec.eig
         tail = dec.reconstruct(1./np.add.outer(iw, eig), kind="diag")
         tail = np.moveaxis(tail, source=0, destination=-1)
-        analytic = dec.reconstruct(fermi_fct(-eig, beta=beta), kind="diag")
+        analytic = dec.reconstruct(fermi_fct(-eig, beta=beta), kind="diag").real
     else:
         tail = 1/np.add.outer(potential, iw)
         analytic = fermi_fct(-potential, beta=beta)
-- 
2.43.0


From fc347bf1028830f2338f0d65334cca97dc1f007e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:51 +0000
Subject: [PATCH 18/43] fix: tt2z_lin failed at z=0 for frequencies with
 leading axes

---
 gftool/fourier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/fourier.py b/gftool/fourier.py
index 839d472..2a61c53 100644
--- a/gftool/fourier.py
+++ b/gftool/fourier.py
@@ -1332,7 +1332,7 @@ def tt2z_lin(tt, gf_t, z):
     weight2 = (np.exp(izdt) - weight1)/izdt
     gf_z = delta_tt * (weight1*g_dft + weight2*dg_dft)
     if np.any(zero):
-        gf_z[..., zero] = _trapezoid(gf_t, x=tt)[..., np.newaxis]
+        gf_z = np.where(zero, _trapezoid(gf_t, x=tt)[..., newaxis], gf_z)
     return gf_z
 
 
-- 
2.43.0


From 975205fea05b5f80f79014058ec336d866cfa655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:51 +0000
Subject: [PATCH 19/43] fix: tt2z_lin lost accuracy for small non-zero
 frequencies

---
 gftool/fourier.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gftool/fourier.py b/gftool/fourier.py
index 2a61c53..29a4152 100644
--- a/gftool/fourier.py
+++ b/gftool/fourier.py
@@ -1329,7 +1329,9 @@ def tt2z_lin(tt, gf_t, z):
     g_dft = _gu_matvec(phase, gf_t[..., :-1])
     dg_dft = _gu_matvec(phase, gf_t[..., 1:] - gf_t[..., :-1])
     weight1 = np.expm1(izdt)/izdt
-    weight2 = (np.exp(izdt) - weight1)/izdt
+    # avoid cancellation for small frequencies using the Taylor series
+    weight2 = np.where(abs(izdt) < 1e-4, 1/2 + izdt*(1/3 + izdt*(1/8 + izdt/30)),
+                       (np.exp(izdt) - weight1)/izdt)
     gf_z = delta_tt * (weight1*g_dft + weight2*dg_dft)
     if np.any(zero):
         gf_z = np.where(zero, _trapezoid(gf_t, x=tt)[..., newaxis], gf_z)
-- 
2.43.0


From ca61f1f75309c87837bd7b4bede00beb112818d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:47 +0000
Subject: [PATCH 20/43] fix: beb functions failed for array_like hopping and
 on-site energies

---
 gftool/beb.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gftool/beb.py b/gftool/beb.py
index 94e556e..541b137 100644
--- a/gftool/beb.py
+++ b/gftool/beb.py
@@ -188,6 +188,7 @@ def gf_loc_z(z, self_beb_z, hopping, hilbert_trafo: Callable[[complex], complex]
     --------
     solve_root
     """
+    hopping = np.asarray(hopping)
     hopping_dec = SpecDec(*decompose_her(hopping))
     LOGGER.info('hopping singular values %s', hopping_dec.s)
     hopping_dec = hopping_dec.truncate(rcond)
@@ -245,6 +246,7 @@ def self_root_eq(self_beb_z, z, e_onsite, concentration, hopping_dec: SpecDec,
     --------
     solve_root
     """
+    e_onsite, concentration = np.asarray(e_onsite), np.asarray(concentration)
     eye = np.eye(e_onsite.shape[-1])  # [..., newaxis]*eye adds matrix axis
     z_m_self = z[..., newaxis, newaxis]*eye - self_beb_z
     # split symmetrically
@@ -370,6 +372,7 @@ def solve_root(z, e_onsite, concentration, hopping, hilbert_trafo: Callable[[com
     >>> __ = plt.legend()
     >>> plt.show()
     """
+    hopping = np.asarray(hopping)
     hopping_dec = SpecDec(*decompose_her(hopping))
     LOGGER.info('hopping singular values %s', hopping_dec.s)
     hopping_dec = hopping_dec.truncate(rcond)
-- 
2.43.0


From 7685b8a658f445c735d2d2cb94bb8f29a2252261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:43 +0000
Subject: [PATCH 21/43] fix: FilterHighVariance dropped all approximants for
 stacked functions

The removed approximants where not the ones determined by the iterative
procedure, but taken from the order of the last iteration. For functions with
additional axes, these indices were applied to the wrong axes.
---
 gftool/pade.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/gftool/pade.py b/gftool/pade.py
index 0fb0c69..d4976ae 100644
--- a/gftool/pade.py
+++ b/gftool/pade.py
@@ -232,21 +232,17 @@ def FilterHighVariance(rel_num: Opt[float] = None, abs_num: Opt[int] = None):
         # why iterative?
         # Awful Padés might give wrong features in average, so it should be corrected
         abs_num_ = int(rel_num*N_pades) if abs_num is None else abs_num
-        bad = []  # isin needs list not set
+        is_valid = np.ones(pade.shape[:-1], dtype=bool)
+        if N_pades <= abs_num_:
+            LOGGER.warning("Not enough Padés to filter (#Padés = %s)", N_pades)
+            return is_valid
         for nn in range(N_pades, abs_num_, -1):
             diff = nn*pade - pade_sum  # 50% of time
             distance = _gu_sum(diff.real**2 + diff.imag**2)  # 40% of time
-            badness = np.argsort(distance, axis=0)[::-1]  # truncate what is not needed
-            newbad = badness[np.isin(badness, bad, invert=True)][0]
-            bad.append(newbad)
-            pade_sum -= pade[newbad]
-        try:
-            is_valid = np.ones_like(distance, dtype=bool)
-        except UnboundLocalError:
-            LOGGER.warning("Not enough Padés to filter (#Padés = %s)", N_pades)
-            return np.ones_like(pade[..., 0], dtype=bool)
-        is_valid[badness[:-abs_num_]] = False
-        # assert set(badness[:-abs_num_]) == set(bad)  # FIXME
+            distance[~is_valid] = -1  # already removed
+            newbad = np.argmax(distance, axis=0)[np.newaxis]
+            np.put_along_axis(is_valid, newbad, False, axis=0)
+            pade_sum -= np.take_along_axis(pade, newbad[..., np.newaxis], axis=0)[0]
         return is_valid
     return filter_high_variance
 
-- 
2.43.0


From e6525fdf414c492a48feada0a6b514d9faa5a2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:22 +0000
Subject: [PATCH 22/43] fix: Mod_Averager failed for callables without name,
 e.g. functools.partial

---
 gftool/pade.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gftool/pade.py b/gftool/pade.py
index d4976ae..4b9fa80 100644
--- a/gftool/pade.py
+++ b/gftool/pade.py
@@ -576,7 +576,7 @@ def Mod_Averager(z_in, coeff, mod_fct, *, valid_pades, kind: KindSelector, vecto
         z : complex ndarray
             Points at with the functions will be evaluated.
         *args, **kwds
-            Passed to the `mod_fct` {mod_fct.__name__}.
+            Passed to the `mod_fct` {mod_fct}.
 
         Returns
         -------
@@ -621,7 +621,9 @@ def Mod_Averager(z_in, coeff, mod_fct, *, valid_pades, kind: KindSelector, vecto
             std = _nan_std(mod_pade)
 
         return Result(x=pade_avg, err=std)
-    mod_average.__doc__ = mod_average.__doc__.format(mod_fct=mod_fct)
+    mod_average.__doc__ = mod_average.__doc__.format(
+        mod_fct=getattr(mod_fct, "__name__", mod_fct)
+    )
     return mod_average
 
 
-- 
2.43.0


From 8f1fb8e6d5b6e387da7e36241b35a069b9c9e148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:59 +0000
Subject: [PATCH 23/43] fix: pade.coefficients calculated differences of points
 in double precision

The calculation is documented to be done in quad precision.
---
 gftool/pade.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gftool/pade.py b/gftool/pade.py
index 4b9fa80..6dd6440 100644
--- a/gftool/pade.py
+++ b/gftool/pade.py
@@ -288,6 +288,7 @@ def coefficients(z, fct_z) -> np.ndarray:
         msg = f"Dimensions of `z` ({z.shape}) and `fct_z` ({fct_z.shape}) mismatch."
         raise ValueError(msg)
     res = fct_z.astype(dtype=_complex256, copy=True)
+    z = z.astype(dtype=_complex256)
     for ii in range(z.size - 1):
         res[..., ii+1:] = (res[..., ii:ii+1]/res[..., ii+1:] - 1.)/(z[ii+1:] - z[ii])
     complex_pres = _complex256 if fct_z.dtype in _precision.PRECISE_TYPES else complex
-- 
2.43.0


From a080b2138f8e4e46d62d0a956c874663e9a8938d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:28 +0000
Subject: [PATCH 24/43] fix: polepade failed for functions with vanishing
 median

Functions odd in the given points, e.g. particle-hole symmetric ones for
positive and negative Matsubara frequencies, were divided by 0.
---
 gftool/polepade.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gftool/polepade.py b/gftool/polepade.py
index d2898d3..69c3962 100644
--- a/gftool/polepade.py
+++ b/gftool/polepade.py
@@ -289,7 +289,7 @@ def poles(z, fct_z, *, n: Opt[int] = None, m: int, vandermond=polynomial.polyvan
     """
     if n is None:
         n = m - 1
-    fct_z = fct_z/np.median(fct_z)
+    fct_z = fct_z/np.median(abs(fct_z))
     vander = vandermond(z, deg=max(n+1, m))
     numer = -vander[..., :n+1]
     denom = vander[..., :m]
@@ -343,7 +343,7 @@ def zeros(z, fct_z, poles, *, n: Opt[int] = None, vandermond=polynomial.polyvand
     """
     if n is None:
         n = poles.size - 1
-    fct_z = fct_z/np.median(fct_z)
+    fct_z = fct_z/np.median(abs(fct_z))
     denom = np.prod(np.subtract.outer(z, poles), axis=-1)
     numer = vandermond(z, deg=n-1)
     scaling = 1./np.linalg.norm(numer, axis=-1, keepdims=True)
-- 
2.43.0


From cb71b672e36abe3858da194af6f83ee5a3ad9fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:11 +0000
Subject: [PATCH 25/43] fix: polepade failed for functions without zeros, e.g.
 a single pole

---
 gftool/polepade.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gftool/polepade.py b/gftool/polepade.py
index 69c3962..c3129d2 100644
--- a/gftool/polepade.py
+++ b/gftool/polepade.py
@@ -343,6 +343,8 @@ def zeros(z, fct_z, poles, *, n: Opt[int] = None, vandermond=polynomial.polyvand
     """
     if n is None:
         n = poles.size - 1
+    if n == 0:  # function without zeros, e.g. a single pole
+        return np.zeros(0, dtype=complex)
     fct_z = fct_z/np.median(abs(fct_z))
     denom = np.prod(np.subtract.outer(z, poles), axis=-1)
     numer = vandermond(z, deg=n-1)
-- 
2.43.0


From 8261b9fedf5d1a0cdd50e233111bf8b57d1b404b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:11 +0000
Subject: [PATCH 26/43] fix: residues_ols returned the squared norm (or
 nothing) as residual without moments

---
 gftool/polepade.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gftool/polepade.py b/gftool/polepade.py
index c3129d2..ec1c359 100644
--- a/gftool/polepade.py
+++ b/gftool/polepade.py
@@ -421,7 +421,8 @@ def residues_ols(z, fct_z, poles, weight=None, moments=()):
         fct_z = fct_z*weight
     moments = np.asarray(moments)
     if moments.shape[-1] == 0:
-        return np.linalg.lstsq(polematrix, fct_z, rcond=None)[:2]
+        resid = np.linalg.lstsq(polematrix, fct_z, rcond=None)[0]
+        return resid, [np.linalg.norm(np.sum(polematrix*resid, axis=-1) - fct_z, ord=2)]
     if moments.shape[-1] > poles.size:
         msg = (
             "Too many poles given, system is over constrained. "
-- 
2.43.0


From 184b1cc044a053cf52da8fccf70a86e42f52fa52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:43 +0000
Subject: [PATCH 27/43] fix: ZeroPole.to_ratpol failed for functions without
 zeros or poles

---
 gftool/basis/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gftool/basis/__init__.py b/gftool/basis/__init__.py
index ab373d0..973e08c 100644
--- a/gftool/basis/__init__.py
+++ b/gftool/basis/__init__.py
@@ -80,8 +80,10 @@ class ZeroPole(NamedTuple):
 
     def to_ratpol(self) -> "RatPol":
         """Represent the rational polynomial as fraction of two polynomial."""
-        numerator = np.polynomial.Polynomial.fromroots(self.zeros)*self.amplitude
-        denominator = np.polynomial.Polynomial.fromroots(self.poles)
+        # unlike `Polynomial.fromroots`, `polyfromroots` allows for empty roots
+        polyfromroots = np.polynomial.polynomial.polyfromroots
+        numerator = np.polynomial.Polynomial(polyfromroots(self.zeros))*self.amplitude
+        denominator = np.polynomial.Polynomial(polyfromroots(self.poles))
         return RatPol(numer=numerator, denom=denominator)
 
 
-- 
2.43.0


From 7a3c7d2f03a03045f8e4034ad0f0f4d1c8cf61d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:23 +0000
Subject: [PATCH 28/43] fix: gf_2x2_z failed for on-site energies of different
 shape

---
 gftool/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/matrix.py b/gftool/matrix.py
index 3ef5030..5ed290d 100644
--- a/gftool/matrix.py
+++ b/gftool/matrix.py
@@ -562,7 +562,7 @@ def gf_2x2_z(z, eps0, eps1, hopping, hilbert_trafo=None):
     -----
     For the trivial case `eps0==eps1 and hopping==0`, this implementation fails.
     """
-    mean_eps = np.mean([eps0, eps1], axis=0)
+    mean_eps = 0.5*(eps0 + eps1)
     sqrt_ = np.lib.scimath.sqrt(0.25*(eps0 - eps1)**2 + hopping*np.conj(hopping))
     if hilbert_trafo is None:
         gf_p, gf_m = 1./(z - mean_eps - sqrt_), 1./(z - mean_eps + sqrt_)
-- 
2.43.0


From 10653bf756942a76a41e1701c57b4bd40066744e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:23 +0000
Subject: [PATCH 29/43] fix: stable linear prediction failed for stacked data
 with common coefficients

---
 gftool/linearprediction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/linearprediction.py b/gftool/linearprediction.py
index 6e22b37..8e63b21 100644
--- a/gftool/linearprediction.py
+++ b/gftool/linearprediction.py
@@ -364,7 +364,7 @@ def _predict_stable(x, pcoeff, num: int):
     # drop exponential growing terms
     bad = abs(dec.eig) > 1
     # print(f'Bad {np.count_nonzero(bad)}/{bad.size}')
-    residues[bad] = 0
+    residues = np.where(bad, 0, residues)
 
     # predict
     start = x.shape[-1]
-- 
2.43.0


From 19cf39fbe7bc3a40e8afc325b4daaf5a4657735a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:07 +0000
Subject: [PATCH 30/43] fix: tt2z_simps returned wrong numbers for
 non-equidistant times

---
 gftool/fourier.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gftool/fourier.py b/gftool/fourier.py
index 29a4152..7e54445 100644
--- a/gftool/fourier.py
+++ b/gftool/fourier.py
@@ -1258,6 +1258,9 @@ def tt2z_simps(tt, gf_t, z):
     as a matrix product to leverage the speed-up of BLAS.
     """
     delta_tt = tt[1] - tt[0]
+    if not np.allclose(tt[1:] - tt[:-1], delta_tt):
+        msg = "Equidistant `tt` required for current implementation."
+        raise ValueError(msg)
     coeffs = _simps_weight(delta_tt, gf_t)
     phase = _phase(z[..., newaxis], tt[newaxis, :])
     return _gu_matvec(phase, coeffs)
-- 
2.43.0


From 6c5e675e49b2c90e975c364fd88102d39ea49201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:47 +0000
Subject: [PATCH 31/43] fix: lstsq_ec ignored free parameters and incompatible
 values of singular constraints

For exactly singular constraints, the fallback fixed parameters that the
constraints leave free (so the result is no least-squares solution), and
incompatible constraints were not noticed, as numpy.linalg.lstsq gives no
residuals for rank deficient matrices.
---
 gftool/linalg.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/gftool/linalg.py b/gftool/linalg.py
index e6c943d..9c39a34 100644
--- a/gftool/linalg.py
+++ b/gftool/linalg.py
@@ -100,9 +100,13 @@ def lstsq_ec(a, b, c, d, rcond=None):
     try:
         y = spla.solve_triangular(r_ct, d, trans='C')
     except np.linalg.LinAlgError as lin_err:  # try fall back to pseudo-inverse for singular values
-        y, err, *__ = np.linalg.lstsq(transpose(r_ct).conj(), d, rcond=None)
-        if not np.allclose(err, 0):
-            raise np.linalg.LinAlgError from lin_err
+        u_c, s_c, vh_c = np.linalg.svd(c)
+        constrains = np.count_nonzero(s_c > np.finfo(s_c.dtype).eps*max(c.shape)*s_c.max())
+        q_ct = transpose(vh_c).conj()
+        y = (transpose(u_c).conj() @ d)[:constrains] / s_c[:constrains]
+        if not np.allclose(c @ (q_ct[:, :constrains] @ y), d):
+            msg = "Singular constrains `c` which are incompatible with `d`."
+            raise np.linalg.LinAlgError(msg) from lin_err
     aq = a @ q_ct
     z = np.linalg.lstsq(aq[:, constrains:], b - _gu_sum(aq[:, :constrains]*y),
                         rcond=rcond)[0]
-- 
2.43.0


From d3a3c69d011f0430c1e8412eca67eb0c2dd1a621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:06 +0000
Subject: [PATCH 32/43] fix: fermi_fct_d1 lost accuracy for occupied states

---
 gftool/statistics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gftool/statistics.py b/gftool/statistics.py
index 27c1ae6..c2db818 100644
--- a/gftool/statistics.py
+++ b/gftool/statistics.py
@@ -142,8 +142,8 @@ def fermi_fct_d1(eps, beta):
     >>> _ = plt.ylim(top=0)
     >>> plt.show()
     """
-    fermi = fermi_fct(eps, beta=beta)
-    return -beta*fermi*(1-fermi)
+    # f(-ϵ) = 1 - f(ϵ) avoids cancellation for ϵ < 0
+    return -beta*fermi_fct(eps, beta=beta)*fermi_fct(-eps, beta=beta)
 
 
 def fermi_fct_inv(fermi, beta):
-- 
2.43.0


From 356d963a8fc7042f0ad42311706c0293aced4c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:23 +0000
Subject: [PATCH 33/43] fix: fcc.dos raised ValueError for energies rounding to
 the lower band edge

---
 gftool/lattice/fcc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gftool/lattice/fcc.py b/gftool/lattice/fcc.py
index 713d082..abb0961 100644
--- a/gftool/lattice/fcc.py
+++ b/gftool/lattice/fcc.py
@@ -174,8 +174,9 @@ def dos(eps, half_bandwidth):
     >>> plt.show()
     """
     eps = np.asarray(eps)
-    singular = eps == -0.5*half_bandwidth
-    finite = (-0.5*half_bandwidth < eps) & (eps < 1.5*half_bandwidth) & ~singular
+    eps_rel = 1 / (half_bandwidth / 2) * eps  # same rounding as in `gf_z`, which fails at `eps_rel == -1`
+    singular = eps_rel == -1
+    finite = (-1 < eps_rel) & (eps_rel < 3)
     dos_ = np.zeros_like(eps, dtype=np.result_type(eps, float))
     dos_[finite] = 1 / np.pi * gf_z(eps[finite], half_bandwidth=half_bandwidth).imag
     dos_[singular] = np.inf
-- 
2.43.0


From a43d436f59ac01a8e021e125e9097b8c88da7d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:41 +0000
Subject: [PATCH 34/43] fix: onedim.dos_mp divided by zero at the band edges

---
 gftool/lattice/onedim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gftool/lattice/onedim.py b/gftool/lattice/onedim.py
index 5fbcb92..5dfa0ba 100644
--- a/gftool/lattice/onedim.py
+++ b/gftool/lattice/onedim.py
@@ -267,4 +267,6 @@ def dos_mp(eps, half_bandwidth=1):
     if mp.fabs(eps) > half_bandwidth:
         return mp.mpf('0')
     eps_rel = eps / half_bandwidth
+    if mp.fabs(eps_rel) == mp.mpf('1'):  # inverse square-root singularity
+        return mp.inf
     return mp.mpf('1') / (mp.pi * half_bandwidth * mp.sqrt(-mp.powm1(eps_rel, mp.mpf('2'))))
-- 
2.43.0


From 43e193b384b1a63f9d0ab9a27c2c23fc8f10c0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:52 +0000
Subject: [PATCH 35/43] fix: cpa.solve_fxdocc_root failed for the root finders
 hybr and lm

---
 gftool/cpa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/cpa.py b/gftool/cpa.py
index 707997c..6ac0e58 100644
--- a/gftool/cpa.py
+++ b/gftool/cpa.py
@@ -408,7 +408,7 @@ def solve_fxdocc_root(iws, e_onsite, concentration, hilbert_trafo: Callable[[com
         )
 
     sol = optimize.root(root_eq, x0=x0, **root_kwds)
-    LOGGER.debug("CPA self-energy root found after %s iterations.", sol.nit)
+    LOGGER.debug("CPA self-energy root found after %s iterations.", sol.get("nit"))
     if not sol.success:
         raise RuntimeError(sol.message)
     mu, self_cpa_re, self_cpa_im = _split(sol.x, shapes)
-- 
2.43.0


From e7cc5192a0004828c5f6b1bf804398c47096ec81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:28 +0000
Subject: [PATCH 36/43] fix: tau2izp with given occ failed for vanishing pole
 spread

---
 gftool/fourier.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gftool/fourier.py b/gftool/fourier.py
index 7e54445..3b71663 100644
--- a/gftool/fourier.py
+++ b/gftool/fourier.py
@@ -1660,9 +1660,9 @@ def _tau2polegf(gf_tau, beta, n_pole, moments=None, occ=False, weight=None) -> P
 
     def error_(width):
         pole_gf = PoleGf.from_tau(gf_tau, n_pole=n_pole, beta=beta,
-                                  # if width is 0, no higher moments exist
+                                  # if width is 0, no higher moments exist and `occ` is no free parameter
                                   moments=moments if width else m1[..., newaxis],
-                                  occ=occ, width=width, weight=weight)
+                                  occ=occ if width else False, width=width, weight=weight)
         gf_fit = pole_gf.eval_tau(tau, beta=beta)
         return np.linalg.norm(gf_tau - gf_fit)
 
-- 
2.43.0


From f9cabf08ca99014914bae8deded097ebe83a7bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:39 +0000
Subject: [PATCH 37/43] fix: tau2iv_dft lost accuracy for large inverse
 temperatures

The integral instead of the mean was subtracted from the data.
---
 gftool/fourier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/fourier.py b/gftool/fourier.py
index 3b71663..b58c32f 100644
--- a/gftool/fourier.py
+++ b/gftool/fourier.py
@@ -462,7 +462,7 @@ def tau2iv_dft(gf_tau, beta):
     >>> plt.show()
     """
     gf_mean = _trapezoid(gf_tau, dx=beta/(gf_tau.shape[-1]-1), axis=-1)
-    gf_iv = beta * np.fft.ihfft(gf_tau[..., :-1] - gf_mean[..., newaxis])
+    gf_iv = beta * np.fft.ihfft(gf_tau[..., :-1] - gf_mean[..., newaxis]/beta)
     gf_iv[..., 0] = gf_mean
     # gives better results in practice but is wrong...
     # gf_iv = beta * np.fft.ihfft(.5*(gf_tau[..., 1:] + gf_tau[..., :-1]))
-- 
2.43.0


From 767d0f55b3b31d06314355c2458492ecf90722d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:11 +0000
Subject: [PATCH 38/43] fix: SIAM Hamiltonian matrix truncated on-site and bath
 energies for integer hopping

---
 gftool/siam.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gftool/siam.py b/gftool/siam.py
index 5eec126..a95595e 100644
--- a/gftool/siam.py
+++ b/gftool/siam.py
@@ -176,7 +176,8 @@ def hamiltonian_matrix(e_onsite, e_bath, hopping):
     """
     broadcast = np.broadcast(e_onsite[..., np.newaxis], e_bath, hopping)
     n_bath = broadcast.shape[-1]
-    ham = np.zeros([*broadcast.shape[:-1], n_bath+1, n_bath+1], dtype=hopping.dtype)
+    ham = np.zeros([*broadcast.shape[:-1], n_bath+1, n_bath+1],
+                   dtype=np.result_type(e_onsite, e_bath, hopping))
     ham[..., 0, 0] = e_onsite
     ham[..., 0, 1:] = hopping
     ham[..., 1:, 0] = np.conj(hopping)
-- 
2.43.0


From 5ba55b1fc4f298dad58245450409ac49104cb352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:11 +0000
Subject: [PATCH 39/43] fix: linear prediction truncated coefficients and
 predictions for integer data

---
 gftool/linearprediction.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gftool/linearprediction.py b/gftool/linearprediction.py
index 8e63b21..e6e7d9b 100644
--- a/gftool/linearprediction.py
+++ b/gftool/linearprediction.py
@@ -275,7 +275,7 @@ def pcoeff_burg(x, order: int):
     rho[..., 0] = _gu_sum(abs(x)**2) / N
     eforw = np.ascontiguousarray(x[..., 1:])
     eback = np.ascontiguousarray(x[..., :-1])
-    a = np.full([*x.shape[:-1], order, order], np.nan, dtype=x.dtype)
+    a = np.full([*x.shape[:-1], order, order], np.nan, dtype=np.result_type(x, 1.0))
     for k in range(1, order+1):
         # eq (7.38)
         numer = -2*_gu_sum(eforw*np.conj(eback))
@@ -338,7 +338,8 @@ def predict(x, pcoeff, num: int, stable=False):
     # Naive implementation of the sum
     start = x.shape[-1]
     order = pcoeff.shape[-1]
-    xtended = np.concatenate([x, np.full([*x.shape[:-1], num], np.nan, dtype=x.dtype)], axis=-1)
+    dtype = np.result_type(x, pcoeff, 1.0)  # predicted values are in general no integers
+    xtended = np.concatenate([x, np.full([*x.shape[:-1], num], np.nan, dtype=dtype)], axis=-1)
     for ii in range(start, start+num):
         xtended[..., ii] = -_gu_sum(pcoeff[..., ::-1] * xtended[..., ii-order:ii])
     return xtended
@@ -368,7 +369,8 @@ def _predict_stable(x, pcoeff, num: int):
 
     # predict
     start = x.shape[-1]
-    xtended = np.concatenate([x, np.full([*x.shape[:-1], num], np.nan, dtype=x.dtype)], axis=-1)
+    dtype = np.result_type(x, pcoeff, 1.0)  # predicted values are in general no integers
+    xtended = np.concatenate([x, np.full([*x.shape[:-1], num], np.nan, dtype=dtype)], axis=-1)
     for ii in range(start, start+num):
         residues *= dec.eig
         xtended[..., ii] = _gu_sum(residues)
-- 
2.43.0


From 508e61ce41f933f3f6c0098218b69f75cadfeb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:20 +0000
Subject: [PATCH 40/43] fix: pole_gf_d1_z failed for integer frequencies and
 poles

---
 gftool/basis/pole.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/basis/pole.py b/gftool/basis/pole.py
index 9a1f77e..0cbe352 100644
--- a/gftool/basis/pole.py
+++ b/gftool/basis/pole.py
@@ -337,7 +337,7 @@ def gf_d1_z(z, poles, weights):
     """
     poles = np.atleast_1d(poles)
     z = np.asanyarray(z)[..., newaxis]
-    return -_gu_sum(weights * (z - poles)**-2)
+    return -_gu_sum(weights / (z - poles)**2)
 
 
 def _single_pole_gf_tau(tau, pole, beta):
-- 
2.43.0


From 039ff0563b4b7bf9e85d5cd356f9d26afaf553d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:48 +0000
Subject: [PATCH 41/43] fix: tt2z_lpz lost the phase of times not starting at
 zero

---
 gftool/fourier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/fourier.py b/gftool/fourier.py
index b58c32f..2a36813 100644
--- a/gftool/fourier.py
+++ b/gftool/fourier.py
@@ -1492,7 +1492,7 @@ def tt2z_lpz(tt, gf_t, z, order=None, quad='trapz', **kwds):
     phase = _phase(z[..., newaxis], tt[newaxis, :order+1])
     numer = _gu_matvec(phase[..., :order], convo)
     denom = _gu_matvec(phase, aa)
-    return numer / denom
+    return numer / denom * phase[..., 0]  # phase for `tt[0] != 0`
 
 
 def tt2z(tt, gf_t, z, laplace=tt2z_lin, **kwds):
-- 
2.43.0


From c4f9f273c1172ce7eb26d57ecdf901e92d8fdac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:36 +0000
Subject: [PATCH 42/43] fix: bethe Green's function lost all digits for large
 frequencies

The expressions `1 - sqrt(1 - z**-2)` and `1 - 1/sqrt(1 - z**-2)` cancel for
large `z`: `bethe.gf_z(1e9j, 1)` was off by 13 %, `bethe.gf_z(1e12j, 1)` gave 0.
Use the equivalent expressions without cancellation.
---
 gftool/lattice/bethe.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gftool/lattice/bethe.py b/gftool/lattice/bethe.py
index 8dc3809..35f0e49 100644
--- a/gftool/lattice/bethe.py
+++ b/gftool/lattice/bethe.py
@@ -65,7 +65,8 @@ def gf_z(z, half_bandwidth):
         complex_pres = _complex256 if z.dtype in _precision.PRECISE_TYPES else complex
     except AttributeError:
         complex_pres = complex
-    gf_z = 2./half_bandwidth*z_rel*(1 - np.sqrt(1 - z_rel**-2))
+    # equals `z_rel*(1 - sqrt(1 - z_rel**-2))`, but avoids cancellation for large `z_rel`
+    gf_z = 2./half_bandwidth/(z_rel*(1 + np.sqrt(1 - z_rel**-2)))
     return gf_z.astype(dtype=complex_pres, copy=False)
 
 
@@ -96,7 +97,8 @@ def gf_d1_z(z, half_bandwidth):
     except AttributeError:
         complex_pres = complex
     sqrt = np.sqrt(1 - z_rel_inv**2)
-    gf_d1 = 2. / half_bandwidth**2 * (1 - 1/sqrt)
+    # equals `1 - 1/sqrt`, but avoids cancellation for large `z`
+    gf_d1 = -2. / half_bandwidth**2 * z_rel_inv**2 / (sqrt*(1 + sqrt))
     return gf_d1.astype(dtype=complex_pres, copy=False)
 
 
-- 
2.43.0


From cd4e19283eee07b8315fb3640ecc8b19ef1c4a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:03 +0000
Subject: [PATCH 43/43] fix: square dos_mp lost precision close to the band
 centre

With twice the digits, `1 - x**2` doesn't resolve small energies: half of the digits were
lost for x=1e-14 using 15 digits, and infinity was returned for x=1e-16.
---
 gftool/lattice/square.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gftool/lattice/square.py b/gftool/lattice/square.py
index 8b18f84..cb55430 100644
--- a/gftool/lattice/square.py
+++ b/gftool/lattice/square.py
@@ -264,10 +264,10 @@ def dos_mp(eps, half_bandwidth=1):
     eps, half_bandwidth = mp.mpf(eps), mp.mpf(half_bandwidth)
     if mp.fabs(eps) > half_bandwidth:
         return mp.mpf('0')
-    # around 0 we have to double precision for `1 - eps**2` to resolve around singularity
-    with mp.workdps(mp.dps*2, normalize_output=True):
-        mm = -mp.powm1(eps / half_bandwidth, mp.mpf('2'))
-        return 2 / (mp.pi**2 * half_bandwidth) * mp.ellipk(mm)
+    if eps == mp.mpf('0'):
+        return mp.inf
+    # use the arithmetic-geometric mean, K(1 - x**2) = pi/2/agm(1, x), as `1 - x**2` doesn't resolve small x
+    return 1 / (mp.pi * half_bandwidth * mp.agm(1, mp.fabs(eps) / half_bandwidth))
 
 
 def stress_trafo(xi, half_bandwidth):
-- 
2.43.0


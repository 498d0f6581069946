From 3974712958d17efed17090b620e9352c646f1024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:22 +0000
Subject: [PATCH 01/18] fix: make the crystal-field Hamiltonian exactly
 Hermitian

Rounding errors in the rotation from cubic to spherical harmonics could make
assert_hermitian reject the Hamiltonian, e.g. for the shipped h0_NiO_CF.json.
---
 impurityModel/ed/get_spectra_using_CF.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/impurityModel/ed/get_spectra_using_CF.py b/impurityModel/ed/get_spectra_using_CF.py
index df7fda7..460d66b 100644
--- a/impurityModel/ed/get_spectra_using_CF.py
+++ b/impurityModel/ed/get_spectra_using_CF.py
@@ -482,6 +482,8 @@ def get_CF_hamiltonian(nBaths, nValBaths, h0_CF_filename, bath_state_basis="sphe
     # Convert to spherical harmonics basis
     u = finite.get_spherical_2_cubic_matrix(spinpol=False, l=l)
     h_imp_3d = np.dot(u, np.dot(h_imp_3d, np.conj(u.T)))
+    # Rounding errors in the rotation can break the hermiticity. Restore it exactly.
+    h_imp_3d = (h_imp_3d + np.conj(h_imp_3d.T)) / 2
     # Convert from matrix to operator form.
     # Also add spin.
     h_imp_3d_operator = {}
@@ -520,6 +522,9 @@ def get_CF_hamiltonian(nBaths, nValBaths, h0_CF_filename, bath_state_basis="sphe
     vCon3d = np.dot(u_bath, np.dot(vCon3d, np.conj(u.T)))
     eBathVal3d = np.dot(u_bath, np.dot(eBathVal3d, np.conj(u_bath.T)))
     eBathCon3d = np.dot(u_bath, np.dot(eBathCon3d, np.conj(u_bath.T)))
+    # Rounding errors in the rotation can break the hermiticity. Restore it exactly.
+    eBathVal3d = (eBathVal3d + np.conj(eBathVal3d.T)) / 2
+    eBathCon3d = (eBathCon3d + np.conj(eBathCon3d.T)) / 2
     # Convert from matrix to operator form.
     # Also introduce spin.
     h_hopp_operator = {}
-- 
2.43.0


From eed419900a261a5308725c239ef877628847895e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:26 +0000
Subject: [PATCH 02/18] fix: do not share the operator cache between out-going
 RIXS operators

All out-going operators used the very same dictionary, so the results of the
first operator were re-used for the other out-going polarizations.
---
 impurityModel/ed/spectra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impurityModel/ed/spectra.py b/impurityModel/ed/spectra.py
index 87f163f..a290481 100644
--- a/impurityModel/ed/spectra.py
+++ b/impurityModel/ed/spectra.py
@@ -907,7 +907,7 @@ def getRIXSmap(
     # Hamiltonian dict of the form  |PS> : {H|PS>}
     # For product states with a core hole.
     h_dict_excited = {}
-    tOut_big = [{}] * len(tOpsOut)
+    tOut_big = [{} for _ in tOpsOut]
     if parallelization_mode in ("serial", "H_build"):
         # Loop over in-coming transition operators
         for tIn, tOpIn in enumerate(tOpsIn):
-- 
2.43.0


From bc74417d58d28f283e30ded1573bcfcfeef36837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:29 +0000
Subject: [PATCH 03/18] fix: azimuthal angle of the NIXS scattering vector

arccos gave the wrong sign for vectors with negative y-component, and nan for
vectors parallel to the z-axis (and, due to rounding, for some with zero y-component).
---
 impurityModel/ed/spectra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impurityModel/ed/spectra.py b/impurityModel/ed/spectra.py
index a290481..eed0220 100644
--- a/impurityModel/ed/spectra.py
+++ b/impurityModel/ed/spectra.py
@@ -481,7 +481,7 @@ def getNIXSOperator(nBaths, q, li, lj, Ri, Rj, r, kmin=1):
     # Polar (colatitudinal) coordinate
     theta = np.arccos(q[2] / qNorm)
     # Azimuthal (longitudinal) coordinate
-    phi = np.arccos(q[0] / (qNorm * np.sin(theta)))
+    phi = np.arctan2(q[1], q[0])
     tOp = {}
     for k in range(kmin, abs(li + lj) + 1):
         if (li + lj + k) % 2 == 0:
-- 
2.43.0


From 731119a55d4cc244a1815ac4824533545989ab87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:33 +0000
Subject: [PATCH 04/18] fix: print thermal expectation values for the requested
 temperature

The default temperature of 300 Kelvin was always used.
---
 impurityModel/ed/get_spectra.py          | 2 +-
 impurityModel/ed/get_spectra_using_CF.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/impurityModel/ed/get_spectra.py b/impurityModel/ed/get_spectra.py
index ba538fc..a8f0a00 100644
--- a/impurityModel/ed/get_spectra.py
+++ b/impurityModel/ed/get_spectra.py
@@ -206,7 +206,7 @@ def main(
         t0 = time.time()
 
     # Calculate static expectation values
-    finite.printThermalExpValues(nBaths, es, psis)
+    finite.printThermalExpValues(nBaths, es, psis, T=T)
     finite.printExpValues(nBaths, es, psis)
 
     # Print Slater determinants and weights
diff --git a/impurityModel/ed/get_spectra_using_CF.py b/impurityModel/ed/get_spectra_using_CF.py
index 460d66b..a811307 100644
--- a/impurityModel/ed/get_spectra_using_CF.py
+++ b/impurityModel/ed/get_spectra_using_CF.py
@@ -206,7 +206,7 @@ def main(
         t0 = time.time()
 
     # Calculate static expectation values
-    finite.printThermalExpValues(nBaths, es, psis)
+    finite.printThermalExpValues(nBaths, es, psis, T=T)
     finite.printExpValues(nBaths, es, psis)
 
     # Print Slater determinants and weights
-- 
2.43.0


From d4e132cf0500f26fdfd08d70abe39346b936eb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:36 +0000
Subject: [PATCH 05/18] fix: use int instead of np.int, which is removed in
 NumPy

allgather_dict always raised AttributeError.
---
 impurityModel/ed/mpi_comm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impurityModel/ed/mpi_comm.py b/impurityModel/ed/mpi_comm.py
index a7f88fd..e2754ea 100644
--- a/impurityModel/ed/mpi_comm.py
+++ b/impurityModel/ed/mpi_comm.py
@@ -70,7 +70,7 @@ def allgather_dict(data, total, chunk_maxsize=1 * 10**6):
     # Measure time for constructing H in matrix form
     t0 = time.time()
     # Number of elements for each rank.
-    n_ps_new = np.zeros(ranks, dtype=np.int)
+    n_ps_new = np.zeros(ranks, dtype=int)
     for r in range(ranks):
         n_ps_new[r] = comm.bcast(len(data), root=r)
     # Determine here if we can use a simple Allgather or need
-- 
2.43.0


From 65042e2bb981c1df725c5e73e3f7b3c8853576ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:40 +0000
Subject: [PATCH 06/18] fix: make the filename argument of plotSpectra optional

The README runs the script without argument, which should use the default spectra.h5.
---
 impurityModel/plotScripts/plotSpectra.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/impurityModel/plotScripts/plotSpectra.py b/impurityModel/plotScripts/plotSpectra.py
index 2163d19..5096447 100644
--- a/impurityModel/plotScripts/plotSpectra.py
+++ b/impurityModel/plotScripts/plotSpectra.py
@@ -221,6 +221,7 @@ if __name__ == "__main__":
     parser.add_argument(
         "filename",
         type=str,
+        nargs="?",
         default="spectra.h5",
         help="Filename containing spectra.",
     )
-- 
2.43.0


From ec462abe8a15bc95e13cefb28d0387a37013c87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:33 +0000
Subject: [PATCH 07/18] fix: stop the Lanczos recursion when the Krylov space
 is exhausted

An exactly vanishing beta raised an exception, although the Green's function
is then exactly given by the Krylov vectors found so far.
---
 impurityModel/ed/finite.py  | 26 ++++++++++++++------------
 impurityModel/ed/spectra.py | 12 ++++++------
 2 files changed, 20 insertions(+), 18 deletions(-)

diff --git a/impurityModel/ed/finite.py b/impurityModel/ed/finite.py
index 1747d70..8cb3a59 100644
--- a/impurityModel/ed/finite.py
+++ b/impurityModel/ed/finite.py
@@ -1898,6 +1898,8 @@ def get_tridiagonal_krylov_vectors(h, psi0, krylovSize, h_local=False, mode="spa
     r"""
     return tridiagonal elements of the Krylov Hamiltonian matrix.
 
+    Fewer elements than krylovSize are returned if the Krylov space is exhausted.
+
     Parameters
     ----------
     h : sparse matrix (N,N)
@@ -1955,12 +1957,13 @@ def get_tridiagonal_krylov_vectors(h, psi0, krylovSize, h_local=False, mode="spa
         for j in range(1, krylovSize):
             if rank == 0:
                 beta[j - 1] = sqrt(np.sum(np.abs(w) ** 2))
-                if beta[j - 1] != 0:
-                    v[1, :] = w / beta[j - 1]
-                else:
-                    # Pick normalized state v[j],
-                    # orthogonal to v[0],v[1],v[2],...,v[j-1]
-                    raise ValueError(("Warning: beta==0, " + "implementation absent!"))
+            # All ranks have to know if the Krylov space is exhausted.
+            if comm.bcast(beta[j - 1] == 0, root=0):
+                # The first j Krylov vectors span an invariant subspace.
+                alpha, beta = alpha[:j], beta[: j - 1]
+                break
+            if rank == 0:
+                v[1, :] = w / beta[j - 1]
             # Broadcast vector v[1,:] from rank 0 to all ranks.
             comm.Bcast(v[1, :], root=0)
             wp_local = h.dot(v[1, :])
@@ -1980,12 +1983,11 @@ def get_tridiagonal_krylov_vectors(h, psi0, krylovSize, h_local=False, mode="spa
         # and more importantly the vectors alpha and beta
         for j in range(1, krylovSize):
             beta[j - 1] = sqrt(np.sum(np.abs(w) ** 2))
-            if beta[j - 1] != 0:
-                v[1, :] = w / beta[j - 1]
-            else:
-                # Pick normalized state v[j],
-                # orthogonal to v[0],v[1],v[2],...,v[j-1]
-                raise ValueError("Warning: beta==0, implementation absent!")
+            if beta[j - 1] == 0:
+                # The first j Krylov vectors span an invariant subspace.
+                alpha, beta = alpha[:j], beta[: j - 1]
+                break
+            v[1, :] = w / beta[j - 1]
             wp = h.dot(v[1, :])
             alpha[j] = np.dot(np.conj(wp), v[1, :]).real
             w = wp - alpha[j] * v[1, :] - beta[j - 1] * v[0, :]
diff --git a/impurityModel/ed/spectra.py b/impurityModel/ed/spectra.py
index eed0220..abed726 100644
--- a/impurityModel/ed/spectra.py
+++ b/impurityModel/ed/spectra.py
@@ -633,12 +633,11 @@ def getGreen(
         for j in range(1, krylovSize):
             beta[j - 1] = sqrt(norm2(w[j - 1]))
             # print('beta[',j-1,'] = ',beta[j-1])
-            if beta[j - 1] != 0:
-                v[j] = {s: 1.0 / beta[j - 1] * a for s, a in w[j - 1].items()}
-            else:
-                # Pick normalized state v[j],
-                # orthogonal to v[0],v[1],v[2],...,v[j-1]
-                print("Warning: beta==0, implementation missing!")
+            if beta[j - 1] == 0:
+                # The first j Krylov vectors span an invariant subspace.
+                krylovSize = j
+                break
+            v[j] = {s: 1.0 / beta[j - 1] * a for s, a in w[j - 1].items()}
             # print('len(v[',j,'] =',len(v[j]))
             wp[j] = applyOp(n_spin_orbitals, hOp, v[j], slaterWeightMin, restrictions, h_dict)
             alpha[j] = inner(wp[j], v[j]).real
@@ -672,6 +671,7 @@ def getGreen(
         krylovSize = min(krylovSize, n)
         # Get tridiagonal elements of the Krylov Hamiltonian matrix.
         alpha, beta = get_tridiagonal_krylov_vectors(h, psi0, krylovSize, h_local, mode)
+        krylovSize = len(alpha)
     else:
         raise Exception("Value of variable 'mode' is incorrect.")
     # Construct Green's function from continued fraction.
-- 
2.43.0


From 7112674bc03704a35afa6c9813424625f234a662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:38 +0000
Subject: [PATCH 08/18] fix: find all eigenstates of a small basis

The Lanczos solver raised TypeError when nPsiMax was not smaller than the basis size.
---
 impurityModel/ed/finite.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/impurityModel/ed/finite.py b/impurityModel/ed/finite.py
index 8cb3a59..cb93903 100644
--- a/impurityModel/ed/finite.py
+++ b/impurityModel/ed/finite.py
@@ -97,8 +97,9 @@ def eigensystem(
         print("<#Hamiltonian elements/column> = {:d}".format(int(len(np.nonzero(h)[0]) / len(basis))))
     if rank == 0:
         print("Diagonalize the Hamiltonian...")
-    if groundDiagMode == "full":
-        es, vecs = np.linalg.eigh(h.todense())
+    # The Lanczos solver can only find some of the eigenvalues.
+    if groundDiagMode == "full" or (groundDiagMode == "Lanczos" and nPsiMax >= len(basis) - 1):
+        es, vecs = np.linalg.eigh(h.toarray())
         es = es[:nPsiMax]
         vecs = vecs[:, :nPsiMax]
     elif groundDiagMode == "Lanczos":
-- 
2.43.0


From 011d40d8b5a7f4e04a25eb86ac8326ffb1220fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:58 +0000
Subject: [PATCH 09/18] fix: return orthogonal eigenstates

ARPACK does not orthogonalize the eigenvectors of a degenerate eigenvalue
of a complex Hamiltonian.
---
 impurityModel/ed/finite.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/impurityModel/ed/finite.py b/impurityModel/ed/finite.py
index cb93903..323ca32 100644
--- a/impurityModel/ed/finite.py
+++ b/impurityModel/ed/finite.py
@@ -108,6 +108,9 @@ def eigensystem(
         indices = np.argsort(es)
         es = np.array([es[i] for i in indices])
         vecs = np.array([vecs[:, i] for i in indices]).T
+        # For a complex Hamiltonian, the eigenvectors of a degenerate
+        # eigenvalue are not orthogonal to each other.
+        vecs, _ = np.linalg.qr(vecs)
     else:
         print("Wrong diagonalization mode")
     if rank == 0:
-- 
2.43.0


From b9d84cf3e3fa7a7798abce6275bc9e9a979bbde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:02 +0000
Subject: [PATCH 10/18] fix: plot RIXS maps for any number of polarizations

The plot script crashed unless there were three in-going and three out-going polarizations.
---
 impurityModel/plotScripts/plotSpectra.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/impurityModel/plotScripts/plotSpectra.py b/impurityModel/plotScripts/plotSpectra.py
index 5096447..d008046 100644
--- a/impurityModel/plotScripts/plotSpectra.py
+++ b/impurityModel/plotScripts/plotSpectra.py
@@ -192,7 +192,9 @@ def plot_spectra_in_file(filename):
 
         # All polarization combinations In:x,y,z , Out:x,y,z
         if rixs.shape[:2] != (1, 1):
-            fig, axes = plt.subplots(nrows=np.shape(rixs)[0], ncols=np.shape(rixs)[1], sharex=True, sharey=True)
+            fig, axes = plt.subplots(
+                nrows=np.shape(rixs)[0], ncols=np.shape(rixs)[1], sharex=True, sharey=True, squeeze=False
+            )
             for i in range(np.shape(axes)[0]):
                 for j in range(np.shape(axes)[1]):
                     tmp = np.copy(rixs[i, j, :, :].T)
@@ -206,7 +208,7 @@ def plot_spectra_in_file(filename):
                     if j == np.shape(axes)[1] - 1:
                         cbar.ax.set_ylabel("RIXS intensity")
                     axes[i, j].set_title(f"({i},{j})")
-            for ax in axes[2, :]:
+            for ax in axes[-1, :]:
                 ax.set_xlabel(r"$\omega_{in}$   (eV)")
             for ax in axes[:, 0]:
                 ax.set_ylabel(r"$\omega_{loss}$   (eV)")
-- 
2.43.0


From ab2c3bad7451ed739085fc93c872dfe5ca196926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:46 +0000
Subject: [PATCH 11/18] fix: reject negative spin-orbital indices in i2c

A negative index was translated to a bath state with a negative index.
---
 impurityModel/ed/finite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impurityModel/ed/finite.py b/impurityModel/ed/finite.py
index 323ca32..ec9dab2 100644
--- a/impurityModel/ed/finite.py
+++ b/impurityModel/ed/finite.py
@@ -836,7 +836,7 @@ def i2c(nBaths, i):
     for lp, nBath in nBaths.items():
         b = i - k
         # Check if bath state belong to bath states having lp.
-        if b < nBath:
+        if 0 <= b < nBath:
             # The index "b" will have a value between 0 and nBath-1
             return (lp, b)
         k += nBath
-- 
2.43.0


From ed91eefc1224fd8b460d977242871f744e28c94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:46 +0000
Subject: [PATCH 12/18] fix: reject bases where more electrons leave the
 valence bath than it holds

Without valence bath states, electrons appeared in the impurity from nowhere.
---
 impurityModel/ed/finite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impurityModel/ed/finite.py b/impurityModel/ed/finite.py
index ec9dab2..8546796 100644
--- a/impurityModel/ed/finite.py
+++ b/impurityModel/ed/finite.py
@@ -330,7 +330,7 @@ def get_basis(nBaths, valBaths, dnValBaths, dnConBaths, dnTol, n0imp):
                     nVal = valBaths[l] - dnVal
                     nCon = dnCon
                     # Check for over-occupation
-                    assert nVal <= valBaths[l]
+                    assert 0 <= nVal <= valBaths[l]
                     assert nCon <= nBaths[l] - valBaths[l]
                     assert nImp <= 2 * (2 * l + 1)
 
-- 
2.43.0


From 6b3b27dd304039259dccf4b4d2102e227a9d02fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:21 +0000
Subject: [PATCH 13/18] fix: reject occupation options with a wrong number of
 values

---
 impurityModel/ed/get_spectra.py          | 4 ++++
 impurityModel/ed/get_spectra_using_CF.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/impurityModel/ed/get_spectra.py b/impurityModel/ed/get_spectra.py
index a8f0a00..aafe69a 100644
--- a/impurityModel/ed/get_spectra.py
+++ b/impurityModel/ed/get_spectra.py
@@ -578,6 +578,10 @@ if __name__ == "__main__":
     # Sanity checks
     assert len(args.ls) == len(args.nBaths)
     assert len(args.ls) == len(args.nValBaths)
+    assert len(args.ls) == len(args.n0imps)
+    assert len(args.ls) == len(args.dnTols)
+    assert len(args.ls) == len(args.dnValBaths)
+    assert len(args.ls) == len(args.dnConBaths)
     for nBath, nValBath in zip(args.nBaths, args.nValBaths):
         assert nBath >= nValBath
     for ang, n0imp in zip(args.ls, args.n0imps):
diff --git a/impurityModel/ed/get_spectra_using_CF.py b/impurityModel/ed/get_spectra_using_CF.py
index a811307..032a77f 100644
--- a/impurityModel/ed/get_spectra_using_CF.py
+++ b/impurityModel/ed/get_spectra_using_CF.py
@@ -786,6 +786,10 @@ if __name__ == "__main__":
     # Sanity checks
     assert len(args.ls) == len(args.nBaths)
     assert len(args.ls) == len(args.nValBaths)
+    assert len(args.ls) == len(args.n0imps)
+    assert len(args.ls) == len(args.dnTols)
+    assert len(args.ls) == len(args.dnValBaths)
+    assert len(args.ls) == len(args.dnConBaths)
     for nBath, nValBath in zip(args.nBaths, args.nValBaths):
         assert nBath >= nValBath
     for ang, n0imp in zip(args.ls, args.n0imps):
-- 
2.43.0


From c2b04a3cc063a607f5ac262780f4caba37d1815c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:52 +0000
Subject: [PATCH 14/18] fix: plot RIXS maps without intensity

---
 impurityModel/plotScripts/plotRIXS.py    | 4 +++-
 impurityModel/plotScripts/plotSpectra.py | 7 +++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/impurityModel/plotScripts/plotRIXS.py b/impurityModel/plotScripts/plotRIXS.py
index cf3cfcc..3696c61 100644
--- a/impurityModel/plotScripts/plotRIXS.py
+++ b/impurityModel/plotScripts/plotRIXS.py
@@ -43,7 +43,9 @@ def main():
     top = wLoss[-1] + dy / 2
 
     plt.figure()
-    cs = plt.imshow(tmp, origin="lower", extent=(left, right, bottom, top), aspect="auto", norm="log")
+    # A map without intensity can not be displayed in log-scale.
+    norm = "linear" if np.all(mask) else "log"
+    cs = plt.imshow(tmp, origin="lower", extent=(left, right, bottom, top), aspect="auto", norm=norm)
     cbar = plt.colorbar(cs)
     cbar.ax.set_ylabel("RIXS intensity")
     plt.xlabel(r"$\omega_{in}$   (eV)")
diff --git a/impurityModel/plotScripts/plotSpectra.py b/impurityModel/plotScripts/plotSpectra.py
index d008046..98c2394 100644
--- a/impurityModel/plotScripts/plotSpectra.py
+++ b/impurityModel/plotScripts/plotSpectra.py
@@ -182,7 +182,9 @@ def plot_spectra_in_file(filename):
         top = wLoss[-1] + dy / 2
 
         plt.figure()
-        cs = plt.imshow(tmp, origin="lower", extent=(left, right, bottom, top), aspect="auto", norm="log")
+        # A map without intensity can not be displayed in log-scale.
+        norm = "linear" if np.all(mask) else "log"
+        cs = plt.imshow(tmp, origin="lower", extent=(left, right, bottom, top), aspect="auto", norm=norm)
         cbar = plt.colorbar(cs)
         cbar.ax.set_ylabel("RIXS intensity")
         plt.xlabel(r"$\omega_{in}$   (eV)")
@@ -201,8 +203,9 @@ def plot_spectra_in_file(filename):
                     mask = tmp < plotCutOff
                     tmp[mask] = np.nan
 
+                    norm = "linear" if np.all(mask) else "log"
                     cs = axes[i, j].imshow(
-                        tmp, origin="lower", extent=(left, right, bottom, top), aspect="auto", norm="log"
+                        tmp, origin="lower", extent=(left, right, bottom, top), aspect="auto", norm=norm
                     )
                     cbar = plt.colorbar(cs, ax=axes[i, j])
                     if j == np.shape(axes)[1] - 1:
-- 
2.43.0


From b44fbb4c418fb630bcc2bde047a947e9143526af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:47 +0000
Subject: [PATCH 15/18] fix: transitions that vanish by interference have no
 spectrum

---
 impurityModel/ed/spectra.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/impurityModel/ed/spectra.py b/impurityModel/ed/spectra.py
index abed726..aab60fa 100644
--- a/impurityModel/ed/spectra.py
+++ b/impurityModel/ed/spectra.py
@@ -755,6 +755,9 @@ def getSpectra(
             for t, tOp in enumerate(tOps):
                 psiR = applyOp(n_spin_orbitals, tOp, psi, slaterWeightMin, restrictions)
                 normalization = sqrt(norm2(psiR))
+                if normalization == 0:
+                    # Forbidden transition
+                    continue
                 for state in psiR.keys():
                     psiR[state] /= normalization
                 g[i][t, :] = normalization**2 * getGreen(
@@ -786,6 +789,9 @@ def getSpectra(
                 psiR = applyOp(n_spin_orbitals, tOp, psi, slaterWeightMin, restrictions, t_big)
                 # if rank == 0: print("len(t_big) = {:d}".format(len(t_big)))
                 normalization = sqrt(norm2(psiR))
+                if normalization == 0:
+                    # Forbidden transition
+                    continue
                 for state in psiR.keys():
                     psiR[state] /= normalization
                 gs[i, t, :] = normalization**2 * getGreen(
@@ -989,6 +995,9 @@ def getRIXSmap(
                         )
                         # Normalization factor
                         normalization = sqrt(norm2(psi3))
+                        if normalization == 0:
+                            # Forbidden transition
+                            continue
                         for state in psi3.keys():
                             psi3[state] /= normalization
                         # Remove product states with small weight
@@ -1102,6 +1111,9 @@ def getRIXSmap(
                         )
                         # Normalization factor
                         normalization = sqrt(norm2(psi3))
+                        if normalization == 0:
+                            # Forbidden transition
+                            continue
                         for state in psi3.keys():
                             psi3[state] /= normalization
                         # Remove product states with small weight
-- 
2.43.0


From d59564ecfdc29b0461bbc9c990c18ba014ef5ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:46 +0000
Subject: [PATCH 16/18] fix: number of valence bath states in the NiO example
 with conduction bath

The Hamiltonian of h0_NiO_50p10bath.pickle has 50 filled (valence) and 10 empty
(conduction) bath states.
---
 scripts/run_Ni_NiO_50p10bath.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/run_Ni_NiO_50p10bath.sh b/scripts/run_Ni_NiO_50p10bath.sh
index efa56ac..ea0f125 100755
--- a/scripts/run_Ni_NiO_50p10bath.sh
+++ b/scripts/run_Ni_NiO_50p10bath.sh
@@ -22,5 +22,5 @@ echo "Number of MPI ranks to use: $ranks"
 echo "H0 filename: $h0_filename"
 echo "Radial wavefunction filename: $radial_filename"
 
-mpirun -n $ranks python -m impurityModel.ed.get_spectra $h0_filename $radial_filename --nBaths 0 60 --nValBaths 0 10 --dnConBaths 0 1
+mpirun -n $ranks python -m impurityModel.ed.get_spectra $h0_filename $radial_filename --nBaths 0 60 --nValBaths 0 50 --dnConBaths 0 1
 
-- 
2.43.0


From 38423043fb610e74ad66e7cdfa181a4d02dab8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:46 +0000
Subject: [PATCH 17/18] fix: names of the example scripts in the README

---
 README.md | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/README.md b/README.md
index 6b561e2..93ad584 100644
--- a/README.md
+++ b/README.md
@@ -62,11 +62,11 @@ These examples will read an non-interacting Hamiltonian from file.
 A simpler non-interacting Hamiltonian can instead be constructed by crystal-field parameters.
 This is done for NiO by typing:
 ```bash
-path/to/folder/impurityModel/scripts/run_Ni_NiO_CFparam.sh
+path/to/folder/impurityModel/scripts/run_Ni_NiO_CF.sh
 ```
 Although using a crystal-field approach is a bigger approximation, it is convinient when doing fitting to experimental spectra.
 But for more accurate simulations it is better to read in a non-interacting Hamiltonian from file, that has been constructed from e.g. DFT or DFT+DMFT simulations.
-The non-interacting Hamiltonians read from file by the scripts `run_Ni_NiO_Xbath.sh` and `run_Ni_NiO_Xbath.sh` have been constructed using non-spin polarized DFT calculations.
+The non-interacting Hamiltonians read from file by the scripts `run_Ni_NiO_Xbath.sh` and `run_Ni_NiO_50p10bath.sh` have been constructed using non-spin polarized DFT calculations.
 
 - The bash-scripts in the `scripts`-folder act as templates and can easily be modified. For example, to set the temperature to 10 Kelvin in `get_spectra.py`, add `--T 10` as input when calling the python-script.
 
-- 
2.43.0


From e3adf2e8fba6995321d8eaf8f8be861050b020b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:35 +0000
Subject: [PATCH 18/18] fix: example scripts work if the path of the repository
 contains spaces

---
 scripts/run_Co_CoO_CF.sh        | 2 +-
 scripts/run_Fe_FeO_CF.sh        | 2 +-
 scripts/run_Mn_MnO_CF.sh        | 2 +-
 scripts/run_Ni_NiO_50p10bath.sh | 2 +-
 scripts/run_Ni_NiO_CF.sh        | 2 +-
 scripts/run_Ni_NiO_Xbath.sh     | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/scripts/run_Co_CoO_CF.sh b/scripts/run_Co_CoO_CF.sh
index 156084c..0541979 100755
--- a/scripts/run_Co_CoO_CF.sh
+++ b/scripts/run_Co_CoO_CF.sh
@@ -14,5 +14,5 @@ radial_filename=${DIR}"/../radialOrbitals/Co3d.dat"
 echo "H0 filename: $h0_filename"
 echo "Radial wavefunction filename: $radial_filename"
 
-mpirun -n 1 python -m impurityModel.ed.get_spectra_using_CF $h0_filename $radial_filename \
+mpirun -n 1 python -m impurityModel.ed.get_spectra_using_CF "$h0_filename" "$radial_filename" \
     --n0imps 6 7 --Fdd 7 0 9.6 0 6.4 --Fpd 8 0 6.4 --Gpd 0 4.6 0 2.6 --xi_2p 9.859 --xi_3d 0.079 --nPsiMax 13
diff --git a/scripts/run_Fe_FeO_CF.sh b/scripts/run_Fe_FeO_CF.sh
index bc3538c..93d54f0 100755
--- a/scripts/run_Fe_FeO_CF.sh
+++ b/scripts/run_Fe_FeO_CF.sh
@@ -14,5 +14,5 @@ radial_filename=${DIR}"/../radialOrbitals/Fe3d.dat"
 echo "H0 filename: $h0_filename"
 echo "Radial wavefunction filename: $radial_filename"
 
-mpirun -n 1 python -m impurityModel.ed.get_spectra_using_CF $h0_filename $radial_filename \
+mpirun -n 1 python -m impurityModel.ed.get_spectra_using_CF "$h0_filename" "$radial_filename" \
     --n0imps 6 6 --Fdd 6.5 0 9.3 0 6.2 --Fpd 7.5 0 6 --Gpd 0 4.3 0 2.4 --xi_2p 8.301 --xi_3d 0.064 --nPsiMax 17
diff --git a/scripts/run_Mn_MnO_CF.sh b/scripts/run_Mn_MnO_CF.sh
index 5126642..9b83215 100755
--- a/scripts/run_Mn_MnO_CF.sh
+++ b/scripts/run_Mn_MnO_CF.sh
@@ -14,5 +14,5 @@ radial_filename=${DIR}"/../radialOrbitals/Mn3d.dat"
 echo "H0 filename: $h0_filename"
 echo "Radial wavefunction filename: $radial_filename"
 
-mpirun -n 1 python -m impurityModel.ed.get_spectra_using_CF $h0_filename $radial_filename \
+mpirun -n 1 python -m impurityModel.ed.get_spectra_using_CF "$h0_filename" "$radial_filename" \
     --n0imps 6 5 --Fdd 6 0 9.0 0 6.1 --Fpd 7.5 0 5.6 --Gpd 0 4 0 2.3 --xi_2p 6.936 --xi_3d 0.051 --nPsiMax 7
diff --git a/scripts/run_Ni_NiO_50p10bath.sh b/scripts/run_Ni_NiO_50p10bath.sh
index ea0f125..ea5ec73 100755
--- a/scripts/run_Ni_NiO_50p10bath.sh
+++ b/scripts/run_Ni_NiO_50p10bath.sh
@@ -22,5 +22,5 @@ echo "Number of MPI ranks to use: $ranks"
 echo "H0 filename: $h0_filename"
 echo "Radial wavefunction filename: $radial_filename"
 
-mpirun -n $ranks python -m impurityModel.ed.get_spectra $h0_filename $radial_filename --nBaths 0 60 --nValBaths 0 50 --dnConBaths 0 1
+mpirun -n $ranks python -m impurityModel.ed.get_spectra "$h0_filename" "$radial_filename" --nBaths 0 60 --nValBaths 0 50 --dnConBaths 0 1
 
diff --git a/scripts/run_Ni_NiO_CF.sh b/scripts/run_Ni_NiO_CF.sh
index 1247def..436e771 100755
--- a/scripts/run_Ni_NiO_CF.sh
+++ b/scripts/run_Ni_NiO_CF.sh
@@ -14,4 +14,4 @@ radial_filename=${DIR}"/../radialOrbitals/Ni3d.dat"
 echo "H0 filename: $h0_filename"
 echo "Radial wavefunction filename: $radial_filename"
 
-mpirun -n 1 python -m impurityModel.ed.get_spectra_using_CF $h0_filename $radial_filename
+mpirun -n 1 python -m impurityModel.ed.get_spectra_using_CF "$h0_filename" "$radial_filename"
diff --git a/scripts/run_Ni_NiO_Xbath.sh b/scripts/run_Ni_NiO_Xbath.sh
index 3d594a5..ba75946 100755
--- a/scripts/run_Ni_NiO_Xbath.sh
+++ b/scripts/run_Ni_NiO_Xbath.sh
@@ -30,4 +30,4 @@ echo "Number of bath states: $nBath3d"
 echo "H0 filename: $h0_filename"
 echo "Radial wavefunction filename: $radial_filename"
 
-mpiexec -n $ranks --verbose python -m impurityModel.ed.get_spectra $h0_filename $radial_filename --nBaths 0 $nBath3d --nValBaths 0 $nBath3d
+mpiexec -n $ranks --verbose python -m impurityModel.ed.get_spectra "$h0_filename" "$radial_filename" --nBaths 0 $nBath3d --nValBaths 0 $nBath3d
-- 
2.43.0


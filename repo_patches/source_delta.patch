From 8b5cc987491e57e6e0581f4c4f19dc18dbac11c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:18 +0000
Subject: [PATCH 01/78] fix: supercell keeps every coupling and folds correctly
 for all integer cell matrices

---
 src/tight_binding_redweasel/bandstructure.py  | 12 +++++-----
 src/tight_binding_redweasel/symmetry.py       | 23 +++++++++++++++++++
 .../tight_binding_asym.py                     |  8 +++----
 3 files changed, 33 insertions(+), 10 deletions(-)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index ee2ccf2..544342e 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -845,11 +845,10 @@ class BandStructureModel:
         matrix = np.linalg.inv(A_original) @ A_new
         assert np.all(np.abs(np.round(matrix) - matrix) <
                       1e-7), "The supercell matrix must be integer valued"
-        matrix = np.round(matrix)
-        det = round(np.linalg.det(matrix))
+        matrix = np.round(matrix).astype(np.int64)
+        det = abs(round(np.linalg.det(matrix)))
         assert self.sym is None or len(
             self.sym) == 1, "No symmetries of the coefficients are allowed for this operation"
-        new_neighbors = self.neighbors @ matrix.T
         n = len(self.params[0])
         new_band_count = n * det
         params = self.params_complex()
@@ -860,15 +859,16 @@ class BandStructureModel:
         bounding_box = np.min(box, axis=0), np.max(box, axis=0)
         assert np.array(bounding_box).dtype == np.int64
         # now create a meshgrid inside the bounding box and select the points with inv(matrix) in [0, 1[
-        box = np.stack(np.meshgrid(*[np.arange(bounding_box[0][d], bounding_box[1][d])
+        box = np.stack(np.meshgrid(*[np.arange(bounding_box[0][d], bounding_box[1][d] + 1)
                        for d in range(dim)]), axis=-1).reshape(-1, dim)
         p_box = box @ np.linalg.inv(matrix).T
         # internal positions + origin (0)
         internal_positions = list(
             p_box[np.all((p_box >= 0 - 1e-7) & (p_box < 1 - 1e-7), axis=1)] @ A_new.T)
         assert len(internal_positions) == det
+        new_neighbors = supercell_neighbors(self.neighbors, internal_positions, A_original, A_new)
         # now build the new hamiltonian
-        H_r = np.zeros((len(params), new_band_count,
+        H_r = np.zeros((len(new_neighbors), new_band_count,
                        new_band_count), dtype=np.complex128)
         neighbor_func = try_neighbor_function(self.neighbors)
         for k, nk in enumerate(new_neighbors):
@@ -879,7 +879,7 @@ class BandStructureModel:
                         H_r[k, i * n:(i + 1) * n, j * n:(j + 1) *
                             n] = params[m] if not mirror else np.conj(params[m].T)
         model = BandStructureModel.init_tight_binding(
-            Symmetry.none(), new_neighbors, new_band_count, cos_reduced=cos_reduced, exp=exp)
+            Symmetry.none(dim), new_neighbors, new_band_count, cos_reduced=cos_reduced, exp=exp)
         model.set_params_complex(H_r)
         return model
 
diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index 5b9a707..d988460 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -62,6 +62,29 @@ def try_neighbor_function(neighbors, err=1e-4) -> Callable[[np.ndarray], tuple[i
     return find
 
 
+def supercell_neighbors(neighbors, internal_positions, A_original, A_new):
+    """The neighbors (lattice translations of the supercell) which are needed to describe all couplings of a supercell.
+
+    Args:
+        neighbors (arraylike[Nr, Nd]): The neighbor positions of the original model.
+        internal_positions (arraylike[N, Nd]): The positions of the original cells inside the supercell.
+        A_original (arraylike[Nd, Nd]): The basis vectors (columns) of the original lattice.
+        A_new (arraylike[Nd, Nd]): The basis vectors (columns) of the supercell lattice.
+
+    Returns:
+        ndarray[Nr2, Nd]: The scaled neighbors followed by the remaining ones, where only one of R and -R is included.
+    """
+    neighbors = np.asarray(neighbors)
+    new_neighbors = list(neighbors @ (A_new @ np.linalg.inv(A_original)).T)
+    to_cell = np.linalg.inv(A_new).T
+    for p in internal_positions:
+        for r in np.concatenate([neighbors, -neighbors]):
+            t = np.floor((p + r) @ to_cell + 1e-7) @ A_new.T
+            if all(min(np.linalg.norm(t - x), np.linalg.norm(t + x)) > 1e-4 for x in new_neighbors):
+                new_neighbors.append(t)
+    return np.array(new_neighbors)
+
+
 class Symmetry:
     """
     class for symmetries. All symmetries (except inversion symmetry) are saved as transformation matrices
diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index 7815886..730bcb7 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -844,8 +844,7 @@ class AsymTightBindingModel:
         matrix = np.linalg.inv(A_original) @ A_new
         assert np.all(np.abs(np.round(matrix) - matrix) < 1e-7), "The supercell matrix must be integer valued"
         matrix = np.round(matrix).astype(np.int64)
-        det = round(np.linalg.det(matrix))
-        new_neighbors = self.H.neighbors @ matrix.T
+        det = abs(round(np.linalg.det(matrix)))
         n = len(self.H.H_r[0])
         new_band_count = n * det
         H_r = self.params_complex()
@@ -856,13 +855,14 @@ class AsymTightBindingModel:
         bounding_box = np.min(box, axis=0), np.max(box, axis=0)
         assert np.array(bounding_box).dtype == np.int64
         # now create a meshgrid inside the bounding box and select the points with inv(matrix) in [0, 1[
-        box = np.stack(np.meshgrid(*[np.arange(bounding_box[0][d], bounding_box[1][d]) for d in range(dim)]), axis=-1).reshape(-1, dim)
+        box = np.stack(np.meshgrid(*[np.arange(bounding_box[0][d], bounding_box[1][d] + 1) for d in range(dim)]), axis=-1).reshape(-1, dim)
         p_box = box @ np.linalg.inv(matrix).T
         # internal positions + origin (0)
         internal_positions = list(p_box[np.all((p_box >= 0-1e-7) & (p_box < 1-1e-7), axis=1)] @ A_new.T)
         assert len(internal_positions) == det
+        new_neighbors = supercell_neighbors(self.H.neighbors, internal_positions, A_original, A_new)
         # now build the new hamiltonian
-        H_r2 = np.zeros((len(H_r), new_band_count, new_band_count), dtype=np.complex128)
+        H_r2 = np.zeros((len(new_neighbors), new_band_count, new_band_count), dtype=np.complex128)
         neighbor_func = try_neighbor_function(self.H.neighbors)
         for k, nk in enumerate(new_neighbors):
             for i, pi in enumerate(internal_positions):
-- 
2.43.0


From aa338142d2d9513a7c3a53a6b15385abf20b53f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:28 +0000
Subject: [PATCH 02/78] fix: supercell of a model with an overlap matrix keeps
 the overlap matrix

---
 .../tight_binding_asym.py                     | 28 ++++++++++---------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index 730bcb7..3507027 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -847,7 +847,6 @@ class AsymTightBindingModel:
         det = abs(round(np.linalg.det(matrix)))
         n = len(self.H.H_r[0])
         new_band_count = n * det
-        H_r = self.params_complex()
         # now get all integer positions in the cell defined by matrix
         # for that, compute the (half open) bounding box of matrix * [0,1[^3
         box = np.stack(np.meshgrid(*[[0, 1]]*dim), axis=-1).reshape(-1, dim)
@@ -860,18 +859,21 @@ class AsymTightBindingModel:
         # internal positions + origin (0)
         internal_positions = list(p_box[np.all((p_box >= 0-1e-7) & (p_box < 1-1e-7), axis=1)] @ A_new.T)
         assert len(internal_positions) == det
-        new_neighbors = supercell_neighbors(self.H.neighbors, internal_positions, A_original, A_new)
-        # now build the new hamiltonian
-        H_r2 = np.zeros((len(new_neighbors), new_band_count, new_band_count), dtype=np.complex128)
-        neighbor_func = try_neighbor_function(self.H.neighbors)
-        for k, nk in enumerate(new_neighbors):
-            for i, pi in enumerate(internal_positions):
-                for j, pj in enumerate(internal_positions):
-                    m, mirror = neighbor_func(nk + pj - pi)
-                    if m is not None:
-                        H_r2[k, i*n:(i+1)*n, j*n:(j+1)*n] = H_r[m] if not mirror else np.conj(H_r[m].T)
-        model = AsymTightBindingModel(HermitianFourierSeries(new_neighbors, H_r2))
-        return model
+
+        def fold(series: HermitianFourierSeries) -> HermitianFourierSeries:
+            H_r = series.H_r
+            new_neighbors = supercell_neighbors(series.neighbors, internal_positions, A_original, A_new)
+            # now build the new hamiltonian
+            H_r2 = np.zeros((len(new_neighbors), new_band_count, new_band_count), dtype=np.complex128)
+            neighbor_func = try_neighbor_function(series.neighbors)
+            for k, nk in enumerate(new_neighbors):
+                for i, pi in enumerate(internal_positions):
+                    for j, pj in enumerate(internal_positions):
+                        m, mirror = neighbor_func(nk + pj - pi)
+                        if m is not None:
+                            H_r2[k, i*n:(i+1)*n, j*n:(j+1)*n] = H_r[m] if not mirror else np.conj(H_r[m].T)
+            return HermitianFourierSeries(new_neighbors, H_r2)
+        return AsymTightBindingModel(fold(self.H), S=fold(self.S))
 
     def __add__(self, other) -> 'AsymTightBindingModel':
         if type(other) == type(self):
-- 
2.43.0


From c3523471bce66214358232992946cdc579330430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:04 +0000
Subject: [PATCH 03/78] fix: bands_grad_hess takes the k dependence of the
 overlap matrix into account

---
 src/tight_binding_redweasel/tight_binding_asym.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index 3507027..9f82f3a 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -804,14 +804,19 @@ class AsymTightBindingModel:
         Returns:
             (arraylike(N_k, N_b), arraylike(N_k, dim, N_b), arraylike(N_k, dim, dim, N_b)): (bands, grads, hessians)
         """
-        # TODO add dS and ddS!!
         bands, ev = geigh(self.H.f(k_smpl), self.S.f(k_smpl))
         df = self.H.df(k_smpl)
         ddf = self.H.ddf(k_smpl)
         # first order perturbation theory terms
         df_ev = np.einsum("mji, mnjk, mkl -> mnil", np.conj(ev), df, ev)
+        # contribution of the overlap matrix to the derivatives of H - E S
+        ds_ev = np.einsum("mji, mnjk, mkl -> mnil", np.conj(ev), self.S.df(k_smpl), ev)
+        df_ev -= ds_ev * bands[:, None, None, :]
         grads = np.real(np.diagonal(df_ev, axis1=2, axis2=3))
+        ds = grads[:, :, None] * np.real(np.diagonal(ds_ev, axis1=2, axis2=3))[:, None]
         hess1 = np.real(np.einsum("mji, mpqjk, mki -> mpqi", np.conj(ev), ddf, ev))
+        hess1 -= np.real(np.einsum("mji, mpqjk, mki -> mpqi", np.conj(ev), self.S.ddf(k_smpl), ev)) * bands[:, None, None, :]
+        hess1 -= ds + np.swapaxes(ds, 1, 2)
         # second order perturbation theory terms
         no_diag = np.array(df_ev)  # copy before modification (grads is a view)
         for i in range(len(grads[0, 0])):
@@ -820,7 +825,7 @@ class AsymTightBindingModel:
         # hess2 = np.real(np.einsum("mji, mpjk, mqki -> mpqi", 2*np.conj(ev), df, dev))
         db = no_diag / (bands[:, None, :, None] -
                         bands[:, None, None, :] + 1e-40)
-        hess2 = np.real(np.einsum("mpik, mqki -> mpqi", df_ev, db))
+        hess2 = np.real(np.einsum("mpki, mqki -> mpqi", np.conj(df_ev), db))
         return bands, grads, hess1 - 2*hess2
 
     def supercell(self, A_original, A_new) -> 'AsymTightBindingModel':
-- 
2.43.0


From 5c1603b04e3ca792c7838d293277bc6ea54abeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:04 +0000
Subject: [PATCH 04/78] fix: shifting a model with a k dependent overlap matrix
 shifts all bands

---
 src/tight_binding_redweasel/tight_binding_asym.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index 9f82f3a..02d4429 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -885,10 +885,17 @@ class AsymTightBindingModel:
             # direct sum of the models -> combine the bandstructures
             return AsymTightBindingModel(self.H + other.H, S=self.S + other.S)
         else:
-            # shift the whole bandstructure
-            # TODO figure out how this actually works wih S(k)
+            # shift the whole bandstructure H(k) -> H(k) + c S(k)
             H = self.H.copy()
-            H.H_r[0] += self.S.H_r[0] * float(other)
+            find = try_neighbor_function(H.neighbors)
+            missing = [r for r in self.S.neighbors if find(r)[0] is None]
+            if missing:
+                H.add_neighbors(missing)
+                find = try_neighbor_function(H.neighbors)
+            H.H_r = H.H_r.astype(np.promote_types(H.H_r.dtype, self.S.H_r.dtype))
+            for r, S_r in zip(self.S.neighbors, self.S.H_r):
+                m, mirror = find(r)
+                H.H_r[m] += (np.conj(S_r.T) if mirror else S_r) * float(other)
             return AsymTightBindingModel(H, S=self.S.copy())
 
     def __mul__(self, fac: float) -> 'AsymTightBindingModel':
-- 
2.43.0


From f9d7ae8f3ad98cc855faf06e7b8249fb44f529fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:30 +0000
Subject: [PATCH 05/78] fix: Symmetry.symmetrize includes the inversion in the
 group mean

---
 src/tight_binding_redweasel/symmetry.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index d988460..4f34d79 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -867,13 +867,14 @@ class Symmetry:
         in_letters = letters[:rank[0] + rank[1]]
         out_letters = letters[-rank[0] - rank[1]:]
         einsum_str = ",".join([b + a if i < rank[0] else a + b for i, (a, b) in enumerate(zip(in_letters, out_letters))] + [in_letters]) + "->" + out_letters
-        for s in self.S:
+        S = self.get_symmetry_operations()
+        for s in S:
             inv_s = np.linalg.inv(s)
             sign = 1
             if pseudo_tensor:
                 sign = np.sign(np.linalg.det(s))  # what happens with unitary groups where this can be from U(1)?
             res += np.einsum(einsum_str, *rank[0] * (inv_s,), *rank[1] * (s,), orig * sign, optimize="optimal")
-        res /= len(self.S)
+        res /= len(S)
         return res
 
     def equivalence_classes(self, equiv_relation: Callable[[np.ndarray, np.ndarray], bool]) -> list:
-- 
2.43.0


From 8e3a297aab8f8df10ba661c86856ea3a826637e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:30 +0000
Subject: [PATCH 06/78] fix: group comparisons of Symmetry consider improper
 operations which are stored as inversion

---
 src/tight_binding_redweasel/symmetry.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index 4f34d79..5a0c232 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -161,7 +161,7 @@ class Symmetry:
             return False
         if len(self) != len(other):
             return False
-        return pointcloud_distance(self.S, other.S) < len(self.S) * 1e-7
+        return pointcloud_distance(self.get_symmetry_operations(), other.get_symmetry_operations()) < len(self) * 1e-7
 
     def __len__(self) -> int:
         """Cardinality of the group (including inversion symmetry if present!)"""
@@ -987,8 +987,9 @@ class Symmetry:
         if other.inversion and not self.inversion:
             return False
         # now check if all matrices of other are contained in self
+        S = self.get_symmetry_operations()
         for s in other.S:
-            if not np.any(np.linalg.norm(s[None] - self.S, axis=(1, 2)) < 1e-7):
+            if not np.any(np.linalg.norm(s[None] - S, axis=(1, 2)) < 1e-7):
                 return False
         return True
 
-- 
2.43.0


From dce0585b3f786773035566d1c132498c057a4042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:30 +0000
Subject: [PATCH 07/78] fix: Symmetry.check_neighbors accepts complete and
 rejects incomplete neighbor sets

---
 src/tight_binding_redweasel/symmetry.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index 5a0c232..7ffa613 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -766,16 +766,19 @@ class Symmetry:
         neighbors = neighbors[np.argsort(np.linalg.norm(neighbors, axis=-1))]
         count = [0] * len(neighbors)
         for i, r in enumerate(neighbors):
-            for s in zip(self.S):
+            for s in self.S:
                 # using transposed symmetry operations, as the whole symmetry is meant to be in k-space
                 r_ = np.transpose(s) @ r
                 # here only the neighbors with an index similar to i need to be checked
                 # TODO replace this search by the KD-Trees
                 start = max(i - len(self.S) * 3, 0)
                 end = min(i + len(self.S) * 3, len(neighbors))
-                j = start + np.argmin(np.minimum(np.linalg.norm(neighbors[start:end] - r_[None, :], axis=-1),
-                                                 np.linalg.norm(neighbors[start:end] + r_[None, :], axis=-1)))
-                count[j] += 1
+                dist = np.minimum(np.linalg.norm(neighbors[start:end] - r_[None, :], axis=-1),
+                                  np.linalg.norm(neighbors[start:end] + r_[None, :], axis=-1))
+                j = np.argmin(dist)
+                if dist[j] > 1e-4:
+                    raise ValueError(f"neighbors need to be choosen to fit the symmetry, however {r_} is missing")
+                count[start + j] += 1
         for c in count:
             if c != len(self.S):
                 raise ValueError(f"neighbors need to be choosen to fit the symmetry, however counting occurences has found the numbers {count}")
-- 
2.43.0


From 7fc5ac8ae45fd02177cecda7527c0614db1ff6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:30 +0000
Subject: [PATCH 08/78] fix: Symmetry.find_classes and check_symmetry include
 the inversion

---
 src/tight_binding_redweasel/symmetry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index 7ffa613..be5d383 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -537,7 +537,7 @@ class Symmetry:
         r_smpl = np.random.random((50, len(self.S[0])))
         for r in r_smpl:
             values = []
-            for s in self.S:
+            for s in self.get_symmetry_operations():
                 values.append(foo(s @ r))
             if np.linalg.norm(np.std(values, axis=0)) > tolerance:
                 if verbose:
@@ -839,7 +839,7 @@ class Symmetry:
         # build the symmetry graph for the neighbor list
         for i, r in enumerate(points):
             rep_class = set()
-            for s in self.S:
+            for s in self.get_symmetry_operations():
                 r_ = s @ r
                 dist = np.linalg.norm(points - r_[None, :], axis=-1)
                 j = np.argmin(dist)
-- 
2.43.0


From d41f165583c6e5bc28b547743dcc54ccc7280ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:30 +0000
Subject: [PATCH 09/78] fix: Symmetry.subgroup keeps improper operations
 without inversion

---
 src/tight_binding_redweasel/symmetry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index be5d383..5cbb44f 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -934,10 +934,10 @@ class Symmetry:
         """
         value = invariant_func(self.S[0])
         S = [np.array(self.S[0])]
-        for s in self.S[1:]:
+        for s in self.get_symmetry_operations()[1:]:
             if np.linalg.norm(invariant_func(s) - value) < 1e-8:
                 S.append(s)
-        sym = Symmetry(S, abs(invariant_func(-self.S[0]) - value) < 1e-8 if self.inversion else False)
+        sym = Symmetry(S)
         assert sym.check(), "The subgroup is not closed, therefore the function was not a class function or the original group was not closed"
         return sym
 
-- 
2.43.0


From 5b04892a21f617ce7969a2fdf1919dfe8d74f06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:30 +0000
Subject: [PATCH 10/78] fix: pointcloud_distance matches every point only once

---
 src/tight_binding_redweasel/linalg.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tight_binding_redweasel/linalg.py b/src/tight_binding_redweasel/linalg.py
index ae7894d..b833ff5 100644
--- a/src/tight_binding_redweasel/linalg.py
+++ b/src/tight_binding_redweasel/linalg.py
@@ -196,9 +196,10 @@ def pointcloud_distance(pointcloud1, pointcloud2):
     dist = 0.0
     for i, p1 in enumerate(pointcloud1):
         d = np.linalg.norm(p1 - pointcloud2, axis=-1)
-        min_index = np.argmin(d.flat)
-        dist += d.flat[min_index]
-        d = np.delete(d.flat, min_index)
+        min_index = np.argmin(d)
+        dist += d[min_index]
+        if len(pointcloud2) > 1:
+            pointcloud2 = np.delete(pointcloud2, min_index, axis=0)
     return dist
 
 
-- 
2.43.0


From 2f7f4694f77eb599de61a2aebc437c008ee7fc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:11 +0000
Subject: [PATCH 11/78] fix: Symmetry in even dimensions does not count a built
 in inversion twice

---
 src/tight_binding_redweasel/symmetry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index 5cbb44f..cdd6816 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -119,7 +119,7 @@ class Symmetry:
                 # self.S = np.array([s for s in self.S if next((x for x in np.ravel(s) if abs(x) > 1e-4), 1) > 0])
                 # here inversion can be a problem, as it may be in the center, but it's not always a normal subgroup!
                 # for now, disable the inversion symmetry reduction in even dimensions.
-                pass
+                self.inversion = False  # all operations are already listed
         elif inversion and len(self.S[0]) % 2 == 0:
             # realize inversion in even dimensions
             self.S = np.concatenate([self.S, -self.S], axis=0)
-- 
2.43.0


From ecfc291191505955545a679baf0c0a9dbe9e9bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:46 +0000
Subject: [PATCH 12/78] fix: complete_neighbors keeps positions whose negative
 is not equivalent

---
 src/tight_binding_redweasel/symmetry.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index cdd6816..7c248ff 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -741,9 +741,14 @@ class Symmetry:
             if tuple(n) not in used_neighbors:  # works only for exact matches
                 new_neighbors.append((n, orig_index))
                 used_neighbors.add(tuple(n))
-        # remove negative versions
-        neighbors = [(n, orig_index) for n, orig_index in new_neighbors if next(
-            (x for x in n if abs(x) > 1e-7), 1) > 0]
+        # only keep one of each pair of a position and its negative, preferably the positive version
+        neighbors = []
+        for n, orig_index in new_neighbors:
+            if next((x for x in n if abs(x) > 1e-7), 1) < 0:
+                if any(np.linalg.norm(n + other) < 1e-6 for other, _ in new_neighbors):
+                    continue
+                n = -n
+            neighbors.append((n, orig_index))
         neighbors = sorted(neighbors, key=lambda ni: np.linalg.norm(ni[0]))
         order = [orig_index for _, orig_index in neighbors]
         neighbors = [n for n, _ in neighbors]
-- 
2.43.0


From 6cb5c7092aa7ffef92bf41893831a7879ba49557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:31 +0000
Subject: [PATCH 13/78] fix: band edge refinement compares the step in crystal
 coordinates

---
 src/tight_binding_redweasel/density_of_states.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index 9c2eb21..6fc96e6 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -275,7 +275,7 @@ class DensityOfStates:
                     if np.any(eigvals < 0):
                         break
                     step = np.linalg.pinv(hess[0, :, :, i]) @ grad[0, :, i]
-                    if np.max(np.abs(step / self.step_sizes)) > 0.55:
+                    if np.max(np.abs(step @ self.A / self.step_sizes)) > 0.55:
                         break  # don't follow too big steps (e.g. at band crossings)
                     min_k -= step
                 # find maximum
@@ -286,7 +286,7 @@ class DensityOfStates:
                     if np.any(eigvals > 0):
                         break
                     step = np.linalg.pinv(hess[0, :, :, i]) @ grad[0, :, i]
-                    if np.max(np.abs(step / self.step_sizes)) > 0.55:
+                    if np.max(np.abs(step @ self.A / self.step_sizes)) > 0.55:
                         break  # don't follow too big steps (e.g. at band crossings)
                     max_k -= step
                 # compute min/max values and store them
-- 
2.43.0


From cdbcd9c26fdcb129f2fc8f292c2961efce438fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:13 +0000
Subject: [PATCH 14/78] fix: total energy of bands which lie completely below
 the chemical potential

---
 src/tight_binding_redweasel/density_of_states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index 6fc96e6..67d6ea2 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -610,7 +610,7 @@ class DensityOfStates:
                 # Romberg extrapolation with just one more step -> ~ Simpson rule.
                 # this assumes that the density is continuous, which is the case for 3D bandstructures.
                 int2 = np.sum((states[:-2:2] + states[2::2])/2 * (e_smpl[2::2] - e_smpl[:-2:2]))
-                energy += mu * states[-1] - (int1 + (int1 - int2)/(4 - 1))
+                energy += e_smpl[-1] * states[-1] - (int1 + (int1 - int2)/(4 - 1))
         # TODO allow more than one T to be used!
         if T <= 0.0:
             # this part is pretty well convergent
-- 
2.43.0


From 331fa8f428a22be50f45ebb5671d5e19f87ac793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:41 +0000
Subject: [PATCH 15/78] fix: fermi energy of bands which touch without a gap

---
 src/tight_binding_redweasel/density_of_states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index 67d6ea2..20eb672 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -475,7 +475,7 @@ class DensityOfStates:
                 max_below = self.bands_range[e_int - 1][1]
                 min_above = self.bands_range[e_int][0]
                 fermi_energy = (max_below + min_above) / 2
-                if max_below < min_above:
+                if max_below <= min_above:
                     return fermi_energy  # isolator (can only happen at integer electrons)
             elif e_int == 0:
                 return self.bands_range[0][0]
-- 
2.43.0


From 4d7474a0c47b4e38ef6ece7d7015d9130f44faee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:09 +0000
Subject: [PATCH 16/78] fix: sign of the upper extrapolation in the derivative
 of the smeared states

---
 src/tight_binding_redweasel/density_of_states.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index 20eb672..6913391 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -112,10 +112,10 @@ def convolve_ddf(x, energy_smpl: np.ndarray, states: np.ndarray, beta: float, ex
     if extrapolation == 'flat':
         if extrapolation_point is None:
             s += df(x - energy_smpl[0]) * states[..., 0]
-            s += df(energy_smpl[-1] - x) * states[..., -1]
+            s -= df(energy_smpl[-1] - x) * states[..., -1]
         else:
             # assume N(mu) starts at 0 and ends at N(extrapolation_point[0]) = extrapolation_point[1]
-            s += df(extrapolation_point[0] - x) * extrapolation_point[1]
+            s -= df(extrapolation_point[0] - x) * extrapolation_point[1]
     return s
 
 
-- 
2.43.0


From d8c0f4f724e43630cf06016ec0bef6eba372be35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:50 +0000
Subject: [PATCH 17/78] fix: energy samples of the chemical potential follow
 the temperature

---
 src/tight_binding_redweasel/density_of_states.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index 6913391..a196e35 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -555,7 +555,7 @@ class DensityOfStates:
         T_smpl = np.asarray(T_smpl).reshape(-1)
         if np.max(T_smpl) >= T_lin:
             states_lin = np.array([self.states_below(energy) for energy in energy_smpl_lin])
-        beta = -10000.0  # invalid value
+        sampled_beta = -10000.0  # invalid value, beta for which energy_smpl was computed
         res = []
         for T in T_smpl:
             if T <= 0:
@@ -565,11 +565,11 @@ class DensityOfStates:
                 res.append(secant(electrons, lambda x: convolve_df(x, energy_smpl_lin, states_lin, beta, extrapolation='flat'), fermi_energy, fermi_energy + 0.1, tol, maxsteps))
             else:
                 new_beta = 1 / (k_B * T)  # 1/eV
-                if abs(beta - new_beta) / new_beta > 5e-2:
+                if abs(sampled_beta - new_beta) / new_beta > 5e-2:
                     # recalculate distribution for precision
+                    sampled_beta = new_beta
                     beta = 0.25 / (k_B * T)  # 1/eV
                     energy_smpl = _samples(e0, e1, fermi_energy, beta, N)
-                    beta = new_beta
                     states = np.array([self.states_below(energy) for energy in energy_smpl])
                 # keep distribution if it doesn't cause too big errors (performance)
                 beta = new_beta
-- 
2.43.0


From 97f8442541cac956bc89a58a3cf779cbb8e4f5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:57 +0000
Subject: [PATCH 18/78] fix: weights of the fermi surface are positive for left
 handed lattices

---
 src/tight_binding_redweasel/bulk_properties.py   | 10 +++++-----
 src/tight_binding_redweasel/density_of_states.py |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tight_binding_redweasel/bulk_properties.py b/src/tight_binding_redweasel/bulk_properties.py
index 3751b84..644955b 100644
--- a/src/tight_binding_redweasel/bulk_properties.py
+++ b/src/tight_binding_redweasel/bulk_properties.py
@@ -374,7 +374,7 @@ class KIntegral:
         Returns:
             (ndarray[max_a+1, N_T, N_d, N_d]): (L^(0), L^(1), L^(2)). Results L^(0) in 1/(Ohm*m)/s, L^(1) in J/C/(Ohm*m)/s, L^(2) in (J/C)^2/(Ohm*m)/s.
         """
-        V_EZ = np.linalg.det(A * 1e-10)
+        V_EZ = abs(np.linalg.det(A * 1e-10))
         if isinstance(tau, float):
             tau_v = tau
             tau = lambda _: tau_v
@@ -386,7 +386,7 @@ class KIntegral:
 
     # conductivity divided by the electron scattering time tau. Assuming constant tau. Result in 1/(Ohm*m*s)
     def drude_factor(self, A: np.ndarray, spin_factor=2):
-        V_EZ = np.linalg.det(A * 1e-10)
+        V_EZ = abs(np.linalg.det(A * 1e-10))
         I = self.integrate_df_A(A, lambda _e, v, _k: v[:, None, :] * v[:, :, None], hessians=False)[0]
         D = spin_factor * elementary_charge**2 * I / eV / V_EZ
         return D  # result is in 1/(Ohm*m)/s
@@ -407,7 +407,7 @@ class KIntegral:
         # In reality the relaxation times are different over k-space or even just for different spins in the same band. (PhysRev.97.647)
         # Somehow their units don't match the expected result unit, so I removed the division by the speed of light to make it work.
         # I canceled one e from sigma_xx with e^2 from sigma_xyz
-        V_EZ = np.linalg.det(A * 1e-10)
+        V_EZ = abs(np.linalg.det(A * 1e-10))
         # sigma_xyz = elementary_charge/c/eV * self.integrate_df_A(A, lambda _e, v, h, _k: (v[:,0]**2*h[:,1,1] - v[:,0]*v[:,1]*h[:,1,0]), hessians=True)
         I = self.integrate_df_A(A, lambda _e, v, h, _k: (v[:, 0]**2 * h[:, 1, 1] - v[:, 0] * v[:, 1] * h[:, 1, 0]), hessians=True)[0]
         I2 = self.integrate_df_A(A, lambda _e, v, _k: v[:, 0]**2, hessians=False)[0]
@@ -421,7 +421,7 @@ class KIntegral:
         # PhysRevB.45.10886 Hall effect formula with constant relaxation time over k.
         # In reality the relaxation times are different over k-space or even just for different spins in the same band. (PhysRev.97.647)
         # I canceled one e from sigma_0 with e^2 from sigma_H
-        V_EZ = np.linalg.det(A * 1e-10)
+        V_EZ = abs(np.linalg.det(A * 1e-10))
         I = self.integrate_df_A(A, lambda _e, v, h, _k: np.einsum("ni,nij,nj->n", v, h, v) - np.einsum("nj,nj,nii->n", v, v, h), hessians=True)[0]
         I2 = self.integrate_df_A(A, lambda _e, v, _k: (v**2).sum(-1), hessians=False)[0]
         sigma_H = elementary_charge / eV * spin_factor / 6 * I
@@ -450,7 +450,7 @@ class KIntegral:
         """
         # From the book "C. Hurd, The Hall Coeffcient of Metals and Alloys (Plenum, New York, 1972)"
         # Assuming constant relaxation time for now -> independent of it
-        V_EZ = np.linalg.det(A * 1e-10)
+        V_EZ = abs(np.linalg.det(A * 1e-10))
         if isinstance(tau, float):
             tau_v = tau
             tau = lambda _: tau_v
diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index a196e35..6d37f8e 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -771,7 +771,7 @@ class DensityOfStates:
             # HACK: scale up the weights to fill the entire briloun zone.
             # The assumption here is, that if the k_range is anything but [-0.5,0.5]^3,
             # then that is, because the other parts are equal and can be reproduced by symmetry
-            w *= np.linalg.det(self.A) / self.crystal_volume
+            w *= abs(np.linalg.det(self.A)) / self.crystal_volume
             if improved_points:
                 if "bands_grad" in dir(self.model):
                     # if available, evaluate the model with bands and exact gradients (way more precise!)
-- 
2.43.0


From c96bd21ddee8677b5b1724cc88a56421790ec578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:57 +0000
Subject: [PATCH 19/78] fix: newton step of the improved weights moves points
 to the requested energy

---
 src/tight_binding_redweasel/density_of_states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index 6d37f8e..e54c223 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -826,7 +826,7 @@ class DensityOfStates:
                 bands = np.take_along_axis(bands, band_indices[:, None], axis=-1)[..., 0]
                 grads = np.take_along_axis(grads, band_indices[:, None, None], axis=-1)[..., 0]
                 # do another newton step here for free! (Assume the gradient is constant)
-                points -= grads * (bands / (1e-20 + np.linalg.norm(grads, axis=-1)**2))[..., None]
+                points -= grads * ((bands - energy) / (1e-20 + np.linalg.norm(grads, axis=-1)**2))[..., None]
             else:
                 raise NotImplementedError("No implementation to get gradients from the lattice.")
             # TODO WRONG for A != 1I
-- 
2.43.0


From 2b2c8520f4d5b617ca6838f18cb7bf743288ad13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:08 +0000
Subject: [PATCH 20/78] fix: conductivity_hall_tensor applies the scattering
 time of every k-point to its own sample

---
 src/tight_binding_redweasel/bulk_properties.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/bulk_properties.py b/src/tight_binding_redweasel/bulk_properties.py
index 644955b..6ff1094 100644
--- a/src/tight_binding_redweasel/bulk_properties.py
+++ b/src/tight_binding_redweasel/bulk_properties.py
@@ -454,8 +454,8 @@ class KIntegral:
         if isinstance(tau, float):
             tau_v = tau
             tau = lambda _: tau_v
-        tau_1 = (lambda v, _: v) if tau is None else (lambda v, k: v * tau(k))
-        tau_2 = (lambda v, _: v) if tau is None else (lambda v, k: v * tau(k)**2)
+        tau_1 = (lambda v, _: v) if tau is None else (lambda v, k: v * np.reshape(tau(k), (-1, 1, 1)))
+        tau_2 = (lambda v, _: v) if tau is None else (lambda v, k: v * np.reshape(tau(k), (-1, 1, 1, 1))**2)
         I = self.integrate_df_A(A, lambda _e, v, h, k: tau_2(np.einsum("yds,na,ns,nbd->naby", antisym_tensor, v, v, h), k), hessians=True)[0]
         I2 = self.integrate_df_A(A, lambda _e, v, k: tau_1(v[:, None, :] * v[:, :, None], k), hessians=False)[0]
         sigma3 = 1 / V_EZ * elementary_charge**3 / eV * spin_factor * I
-- 
2.43.0


From a890679714306bc11d07e5ff61f85fb22d6fbc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:51 +0000
Subject: [PATCH 21/78] fix: KIntegral of insulators at T=0 is zero instead of
 failing

---
 src/tight_binding_redweasel/bulk_properties.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tight_binding_redweasel/bulk_properties.py b/src/tight_binding_redweasel/bulk_properties.py
index 6ff1094..5065348 100644
--- a/src/tight_binding_redweasel/bulk_properties.py
+++ b/src/tight_binding_redweasel/bulk_properties.py
@@ -211,8 +211,8 @@ class KIntegral:
                 self.e_smpl = np.array([self.fermi_energy])
                 self.integration_weights = np.array([[1]])
             else:
-                # no e_smpl, all integrals are empty for T=0
-                pass
+                # all integrals are empty for T=0
+                self.e_smpl = []
         self.e_smpl = np.array(self.e_smpl)
         for e in self.e_smpl:
             k_smpl, band_indices, weights, _ = dos_model.fermi_surface_samples(e, improved_points=improved_points, improved_weights=False, normalize=None)
@@ -300,10 +300,10 @@ class KIntegral:
                 # no fermi surface!
                 # to get the output shape right, evaluate g at one point
                 if hessians:
-                    I = 0.0 * np.asanyarray(g(self.mu, np.zeros((1, 3)), np.eye(3)[None], np.zeros((1, 3))))
+                    I = 0.0 * np.sum(g(self.mu[0], np.zeros((1, 3)), np.eye(3)[None], np.zeros((1, 3))), axis=0)
                 else:
-                    I = 0.0 * np.asanyarray(g(self.mu, np.zeros((1, 3)), np.zeros((1, 3))))
-                return np.array([[I]])
+                    I = 0.0 * np.sum(g(self.mu[0], np.zeros((1, 3)), np.zeros((1, 3))), axis=0)
+                return np.array([[I]] * (moments + 1))
             # TODO see comment in __init__
             raise NotImplementedError("integrals for isolators (semiconductors) are currently not implemented")
 
-- 
2.43.0


From ca79d790b9ef66fa57a1a5c0e7d0c2c4b0e76f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:18 +0000
Subject: [PATCH 22/78] fix: inverse masses of FreeElectrons have one matrix
 per k-point and band, limited to the lowest bands

---
 src/tight_binding_redweasel/bulk_properties.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/bulk_properties.py b/src/tight_binding_redweasel/bulk_properties.py
index 5065348..17c29b4 100644
--- a/src/tight_binding_redweasel/bulk_properties.py
+++ b/src/tight_binding_redweasel/bulk_properties.py
@@ -498,10 +498,10 @@ class FreeElectrons:
         k_smpl = np.asarray(k_smpl)[:, :, None] - self.k_neighbors[None, :, :]
         bands = np.linalg.norm(k_smpl, axis=-2)**2
         grad = 2 * k_smpl
-        hess = np.array([np.eye(3) * 2] * len(self.k_neighbors[0])).T
         order = np.argsort(bands, axis=-1)
         if self.limit_count:
             order = order[:, :self.limit_count]
         bands = np.take_along_axis(bands, order, axis=-1)
         grad = np.take_along_axis(grad, order[:, None, :], axis=-1)
-        return self.fac * bands, self.fac * grad, self.fac * hess[None, ...]
+        hess = np.zeros((len(bands), 3, 3, bands.shape[-1])) + 2 * np.eye(3)[..., None]
+        return self.fac * bands, self.fac * grad, self.fac * hess
-- 
2.43.0


From d791483b393692f7f913e958dfd16ba630aa878c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:21 +0000
Subject: [PATCH 23/78] fix: HamiltonianSymmetry.apply uses the sign of the
 inversion only for the inversion and the phase of the operation

---
 .../hamiltonian_symmetry.py                   | 27 +++++++++----------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/tight_binding_redweasel/hamiltonian_symmetry.py b/src/tight_binding_redweasel/hamiltonian_symmetry.py
index cbb4012..27c1410 100644
--- a/src/tight_binding_redweasel/hamiltonian_symmetry.py
+++ b/src/tight_binding_redweasel/hamiltonian_symmetry.py
@@ -24,7 +24,7 @@ class HamiltonianSymmetry:
     There is an additional phase added to each individual unitary representation.
     The total symmetry can be expressed as:
 
-    `H((S^T)^{-1} k) = U_S H(k) U^+_S exp(2πik(1+S)(r_1-r_2))`
+    `H((S^T)^{-1} k) = U_S H(k) U^+_S exp(2πik(S^{-1}-1)(r_1-r_2))`
 
     In solid state physics, the most important example for this
     is the **system hamiltonian**, which gives the class its name.
@@ -241,7 +241,7 @@ class HamiltonianSymmetry:
         """Apply the unitary transformation for one symmetry operation
         at the given k-point to the hermitian operator to get
 
-        `H((S^T)^{-1} k) = U_S H(k) U^+_S exp(2πik(1+S)(r_1-r_2))`
+        `H((S^T)^{-1} k) = U_S H(k) U^+_S exp(2πik(S^{-1}-1)(r_1-r_2))`
 
         Args:
             k (arraylike): The spacial point
@@ -251,21 +251,21 @@ class HamiltonianSymmetry:
                                         (not covered by the index alone). Defaults to False.
 
         Returns:
-            arraylike(dim, dim): the resulting hermitian operator `U_S H(k) U^+_S exp(ik(1+S)(r_1-r_2))`
+            arraylike(dim, dim): the resulting hermitian operator `U_S H(k) U^+_S exp(2πik(S^{-1}-1)(r_1-r_2))`
         """
         # apply inversion first, as that is the simple part
         hamiltonian_inv = np.array(hamiltonian)
         n1 = 0
-        for u1, r1 in zip(self.U, self.pos):
-            d1 = u1.dim()
-            u1 = 1 if u1.inv_split > 0 else -1
-            if u1 < 0:
-                # TODO use r1 !?!
-                hamiltonian_inv[n1:n1+d1,:] *= -1
-                hamiltonian_inv[:,n1:n1+d1] *= -1
+        if inversion:
+            for u1 in self.U:
+                d1 = u1.dim()
+                if u1.inv_split == 0:
+                    hamiltonian_inv[n1:n1+d1,:] *= -1
+                    hamiltonian_inv[:,n1:n1+d1] *= -1
+                n1 += d1
         # now apply the symmetry operation
-        result = np.zeros_like(hamiltonian)
-        s = self.sym.S[s_index]
+        result = np.zeros_like(hamiltonian_inv, dtype=np.complex128)
+        s_inv = np.linalg.inv(self.sym.S[s_index]) * (-1 if inversion else 1)
         n1 = 0
         for u1, r1 in zip(self.U, self.pos):
             d1 = u1.dim()
@@ -274,8 +274,7 @@ class HamiltonianSymmetry:
                 d2 = u2.dim()
                 u1_ = u1.U[s_index]
                 u2_ = u2.U[s_index]
-                fac = np.exp(2j*np.pi * k @ (r1 - s @ r2)) # TODO check again!
-                fac *= np.exp(-2j*np.pi * k @ (r2 - s @ r1))
+                fac = np.exp(2j*np.pi * np.dot(k, s_inv @ (r1 - r2) - (r1 - r2)))
                 result[n1:n1+d1,n2:n2+d2] += fac * u1_ @ hamiltonian_inv[n1:n1+d1,n2:n2+d2] @ np.conj(u2_.T)
                 n2 += d2
             n1 += d1
-- 
2.43.0


From 6684541ed07a01bf8848d8f322d001053a38f14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:25 +0000
Subject: [PATCH 24/78] fix: HamiltonianSymmetry removes couplings whose
 inverted image is not part of the neighbors

---
 src/tight_binding_redweasel/hamiltonian_symmetry.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tight_binding_redweasel/hamiltonian_symmetry.py b/src/tight_binding_redweasel/hamiltonian_symmetry.py
index 27c1410..9ed2742 100644
--- a/src/tight_binding_redweasel/hamiltonian_symmetry.py
+++ b/src/tight_binding_redweasel/hamiltonian_symmetry.py
@@ -371,6 +371,8 @@ class HamiltonianSymmetry:
                         u1_ = u1.U[k]
                         u2_ = u2.U[k]
                         j, mirror = neighbor_func(s @ (r + r2 - r1) - r2 + r1)
+                        if j is not None and self.sym.inversion and neighbor_func(-s @ (r + r2 - r1) - r2 + r1)[0] is None:
+                            j = None # the inverse is not part of the neighbors
                         if j is not None:
                             h = H_r3[j]
                             if mirror:
@@ -441,6 +443,8 @@ class HamiltonianSymmetry:
                     s_table = {}
                     for k, s in enumerate(self.sym.S):
                         j, mirror = neighbor_func(s @ (r - r1 + r2) + r1 - r2)
+                        if j is not None and self.sym.inversion and neighbor_func(-s @ (r - r1 + r2) + r1 - r2)[0] is None:
+                            j = None # the inverse is not part of the neighbors
                         if j is not None:
                             # reduce total_table by merging entries which have the same effect (based on the given self.U)
                             # doing this makes it go from 8448 to 8019 entries in my testcase
-- 
2.43.0


From 7da54c9210cc36ef321943530ce945291c714ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:25 +0000
Subject: [PATCH 25/78] fix: HamiltonianSymmetry.copy

---
 src/tight_binding_redweasel/hamiltonian_symmetry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/hamiltonian_symmetry.py b/src/tight_binding_redweasel/hamiltonian_symmetry.py
index 9ed2742..1934eaa 100644
--- a/src/tight_binding_redweasel/hamiltonian_symmetry.py
+++ b/src/tight_binding_redweasel/hamiltonian_symmetry.py
@@ -58,11 +58,11 @@ class HamiltonianSymmetry:
         return sum((u.dim() for u in self.U))
     
     def copy(self) -> Self:
-        u_repr = HamiltonianSymmetry(self.sym.copy(), 1)
-        u_repr.inv = np.array(self.inv)
+        u_repr = HamiltonianSymmetry(self.sym.copy())
         u_repr.U = [u.copy() for u in self.U]
         u_repr.pos = [x.copy() for x in self.pos]
         u_repr.names = self.names.copy()
+        u_repr.translation = np.array(self.translation)
         return u_repr
     
     def __len__(self):
-- 
2.43.0


From d84476acf4b279f9828d122af397b6c60a87979f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:25 +0000
Subject: [PATCH 26/78] fix: product of two unitary representations

---
 src/tight_binding_redweasel/unitary_representations.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/tight_binding_redweasel/unitary_representations.py b/src/tight_binding_redweasel/unitary_representations.py
index eca4cbb..8d5c425 100644
--- a/src/tight_binding_redweasel/unitary_representations.py
+++ b/src/tight_binding_redweasel/unitary_representations.py
@@ -502,8 +502,7 @@ class UnitaryRepresentation:
             # this is only supported if one of the representations has inv_split at 0 or dim.
             if rhs.inv_split == 0 or rhs.inv_split == rhs.dim():
                 # case 1: kron is ordered correctly
-                for i in range(len(res)):
-                    res.U[i] = np.kron(self.U[i], res.U[i])
+                res.U = np.array([np.kron(u1, u2) for u1, u2 in zip(self.U, res.U)])
                 res.inv_split = self.inv_split * rhs.dim()
                 if rhs.inv_split == 0:
                     # flip inversion symmetry if self has it
@@ -512,8 +511,7 @@ class UnitaryRepresentation:
             elif self.inv_split == 0 or self.inv_split == self.dim():
                 # case 2: kron is flipped
                 # TODO make the kron in linalg do this loop correctly and generally
-                for i in range(len(res)):
-                    res.U[i] = np.kron(res.U[i], self.U[i])
+                res.U = np.array([np.kron(u2, u1) for u1, u2 in zip(self.U, res.U)])
                 res.inv_split *= self.dim()
                 if self.inv_split == 0:
                     # flip inversion symmetry if self has it
-- 
2.43.0


From 153895f312822218389eda24a9ef6ed3f8d39a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:25 +0000
Subject: [PATCH 27/78] fix: realize_symmetric_matrices transforms with U_S and
 applies the inversion

---
 src/tight_binding_redweasel/unitary_representations.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/unitary_representations.py b/src/tight_binding_redweasel/unitary_representations.py
index 8d5c425..b77da75 100644
--- a/src/tight_binding_redweasel/unitary_representations.py
+++ b/src/tight_binding_redweasel/unitary_representations.py
@@ -395,9 +395,14 @@ class UnitaryRepresentation:
                         continue
                     used_k.append(k_)
                     if inverse:
-                        full.append(u @ data @ np.conj(u.T))
+                        mat = np.conj(u.T) @ data @ u
                     else:
-                        full.append(np.conj(u.T) @ data @ u)
+                        mat = u @ data @ np.conj(u.T)
+                    if inv < 0:
+                        # apply U_I (commutes with all other U_S)
+                        mat[:self.inv_split,self.inv_split:] *= -1
+                        mat[self.inv_split:,:self.inv_split] *= -1
+                    full.append(mat)
                     full_k.append(k_)
         # sort by x, y, z compatible with reshape to meshgrid
         full_k = np.array(full_k)
-- 
2.43.0


From 182f5260ef38dc7267592a88d25d5b86ee1216e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:25 +0000
Subject: [PATCH 28/78] fix: symmetrizer of unitary representations for groups
 without inversion

---
 .../unitary_representations.py                       | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/tight_binding_redweasel/unitary_representations.py b/src/tight_binding_redweasel/unitary_representations.py
index b77da75..b08af71 100644
--- a/src/tight_binding_redweasel/unitary_representations.py
+++ b/src/tight_binding_redweasel/unitary_representations.py
@@ -288,14 +288,12 @@ class UnitaryRepresentation:
             if c != len(self.sym.S):
                 raise ValueError("neighbors need to be choosen to fit the symmetry, however counting occurences has found the numbers " + str(count))
         # task_list_r0 should only contain one index, so check that and simplify
-        task_list_r0 = tuple(np.reshape(task_list_r0, (-1, 3)).T)
-        assert np.all(task_list_r0[0] == task_list_r0[1]) and np.all(task_list_r0[0][0] == task_list_r0[0])
-        r0_index = task_list_r0[0][0] if len(task_list_r0) else None
+        # (without inversion the center is a normal case)
+        assert all(i == j and i == task_list_r0[0][0] for i, j, _ in task_list_r0)
+        r0_index = task_list_r0[0][0] if task_list_r0 else None
         # the rest can stay as is, just numpyify them
-        task_list_rinv = np.reshape(task_list_rinv, (-1, 3))
-        task_list_rinv = tuple(task_list_rinv[np.array([i in classes for i in task_list_rinv[:,0]])].T)
-        task_list_r = np.reshape(task_list_r, (-1, 3))
-        task_list_r = tuple(task_list_r[np.array([i in classes for i in task_list_r[:,0]])].T)
+        task_list_rinv = tuple(np.reshape([t for t in task_list_rinv if t[0] in classes], (-1, 3)).astype(np.int64).T)
+        task_list_r = tuple(np.reshape([t for t in task_list_r if t[0] in classes], (-1, 3)).astype(np.int64).T)
         class_copy = []
         class_invcopy = []
         for i, class_other in classes.items():
-- 
2.43.0


From decec8eb3370372b180339b87ece3c3c5f982f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:18 +0000
Subject: [PATCH 29/78] fix: compare the last band offset in windowed loss and
 error histogram

---
 src/tight_binding_redweasel/loss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/loss.py b/src/tight_binding_redweasel/loss.py
index 733fdec..ff849f3 100644
--- a/src/tight_binding_redweasel/loss.py
+++ b/src/tight_binding_redweasel/loss.py
@@ -57,7 +57,7 @@ def model_windowed_loss(bands, ref_bands, min_energy, max_energy, allow_skipped_
         select = (min_energy <= ref_bands) & (ref_bands <= max_energy)
         cost = float("inf")
         # find out bandoffset by checking all bandoffsets and finding the one with the lowest error
-        for i in range(max_offset):
+        for i in range(max_offset + 1):
             if len(bands[0]) < len(ref_bands[0]):
                 diff = (ref_bands[:,i:i+compare_bands] - bands) * select[:,i:i+compare_bands]
             else:
@@ -98,7 +98,7 @@ def model_error_hist(bands, ref_bands, N=50, allow_skipped_bands=False):
         error = None
         ref_bands2 = ref_bands
         cost = float("inf")
-        for i in range(max_offset):
+        for i in range(max_offset + 1):
             if len(bands[0]) < len(ref_bands[0]):
                 diff = (ref_bands[:,i:i+compare_bands] - bands)
             else:
-- 
2.43.0


From e874967aa94a0209e199a0ab11086efdcdfe0171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:55 +0000
Subject: [PATCH 30/78] fix: tetragonal_bc_points replaced the global
 dictionary of points

---
 src/tight_binding_redweasel/kpaths.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/kpaths.py b/src/tight_binding_redweasel/kpaths.py
index 378fda8..01f0c71 100644
--- a/src/tight_binding_redweasel/kpaths.py
+++ b/src/tight_binding_redweasel/kpaths.py
@@ -406,8 +406,7 @@ def tetragonal_bc_points(c: float) -> dict:
         dict: _description_
     """
     if c == 1:
-        global points
-        return points  # cubic, is contained in the global points dict
+        return globals()["points"]  # cubic, is contained in the global points dict
     points = {}
     points['G'] = (np.zeros(3), 'Γ')
     points['X'] = (np.array([0.5, 0.5, 0]), 'X')
-- 
2.43.0


From bfe7a8eda042abad3882e553315c891ba44a6dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:37 +0000
Subject: [PATCH 31/78] fix: periodic interpolation of data outside of the cell
 around zero

---
 src/tight_binding_redweasel/kpaths.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/kpaths.py b/src/tight_binding_redweasel/kpaths.py
index 01f0c71..efc36e8 100644
--- a/src/tight_binding_redweasel/kpaths.py
+++ b/src/tight_binding_redweasel/kpaths.py
@@ -291,6 +291,7 @@ def interpolate(k_smpl, bands, sym: _sym.Symmetry = None, method="cubic", period
 
     used_k_smpl = np.moveaxis(k_smpl.reshape(grid + (kdim,)), -1, 0)[:gdim] # use the first dimensions of k_smpl
     used_bands = bands.reshape(grid + (-1,))
+    k_min = np.min(used_k_smpl.reshape(gdim, -1), axis=-1)
     if periodic:
         # make it work for k outside of the original k_smpl range by
         # 1. extending the range of the data using periodic points
@@ -319,7 +320,8 @@ def interpolate(k_smpl, bands, sym: _sym.Symmetry = None, method="cubic", period
     else:
         raise ValueError(f"interpolation not implemented for dimension {gdim}")
     if periodic:
-        return lambda k: interp_f((np.asanyarray(k) + 0.5) % 1.0 - 0.5)
+        # the data doesn't need to be in the unit cell [-0.5, 0.5], so wrap into the cell of the data
+        return lambda k: interp_f((np.asanyarray(k) - k_min) % 1.0 + k_min)
     return interp_f
 
 # given band structure data and symmetry, return an interpolator for the bandstructure.
-- 
2.43.0


From 92b4da8b45ae1d5748031ec4b03fe052fe14d849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:37 +0000
Subject: [PATCH 32/78] fix: documented parameter of hexagonal_points didn't
 match the points

---
 src/tight_binding_redweasel/kpaths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/kpaths.py b/src/tight_binding_redweasel/kpaths.py
index efc36e8..5e6fb67 100644
--- a/src/tight_binding_redweasel/kpaths.py
+++ b/src/tight_binding_redweasel/kpaths.py
@@ -380,7 +380,7 @@ def hexagonal_points(r: float, h: float) -> dict:
     """Generate the symmetry points for a hexagonal reciprocal lattice.
 
     Args:
-        r (float): distance between reciprocal lattice points in the hexagon.
+        r (float): inverse of the lattice constant in real space, the distance between reciprocal lattice points in the hexagon is 2r/√3.
         h (float): height of the hexagon in reciprocal space
 
     Returns:
-- 
2.43.0


From ccf13483ff0e5738cbee0c22405a489c1ea750b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:47 +0000
Subject: [PATCH 33/78] fix: load models of any dimension

---
 src/tight_binding_redweasel/bandstructure.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index 544342e..a8ff50a 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -737,18 +737,18 @@ class BandStructureModel:
         elif format == "wannier90hr":
             neighbors, H_r = tb_fmt.load_hr(filename)
             model = BandStructureModel.init_tight_binding(
-                Symmetry.none(), neighbors, len(H_r[0]), cos_reduced=cos_reduced, exp=exp)
+                Symmetry.none(len(neighbors[0])), neighbors, len(H_r[0]), cos_reduced=cos_reduced, exp=exp)
             model.set_params_complex(H_r)
         elif format == "wannier90tb":
             neighbors, H_r, w_r_params, degeneracies, A = tb_fmt.load_tb(filename)
             # TODO use A to transform neighbors to normalized reciprocal space.
             model = BandStructureModel.init_tight_binding(
-                Symmetry.none(), neighbors, len(H_r[0]), cos_reduced=cos_reduced, exp=exp)
+                Symmetry.none(len(neighbors[0])), neighbors, len(H_r[0]), cos_reduced=cos_reduced, exp=exp)
             model.set_params_complex(H_r)
         elif format == "json":
             neighbors, H_r = json_tb_format.load(filename)
             model = BandStructureModel.init_tight_binding(
-                Symmetry.none(), neighbors, len(H_r[0]), cos_reduced=cos_reduced, exp=exp)
+                Symmetry.none(len(neighbors[0])), neighbors, len(H_r[0]), cos_reduced=cos_reduced, exp=exp)
             model.set_params_complex(H_r)
         return model
 
-- 
2.43.0


From 0032f4238ff84ff49236857d135072992f5c02df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:39 +0000
Subject: [PATCH 34/78] fix: constant term of reduced cosines counts all
 operations of the coefficient symmetry

---
 src/tight_binding_redweasel/bandstructure.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index a8ff50a..b074766 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -604,22 +604,23 @@ class BandStructureModel:
         if self.neighbors is None:
             raise ValueError(
                 "This function can only be used on default tight binding models")
+        order = len(self.sym.S) if self.sym is not None else 1  # terms of each coefficient function
         if self.exp:
             H_r = np.array(self.params)
             if self.cos_reduced:
-                H_r[0] -= np.sum(H_r[1:] + np.conj(np.swapaxes(H_r[1:], -1, -2)), axis=0)
+                H_r[0] -= np.sum(H_r[1:] + np.conj(np.swapaxes(H_r[1:], -1, -2)), axis=0) * order
             return H_r
         H_r = np.array(self.params)
         if self.sym is not None and not self.sym.inversion:
             n = (len(self.params) + 1) // 2
             if self.cos_reduced:
                 # H_r[1:n] += H_r[0]
-                H_r[0] -= np.sum(H_r[1:n] + np.conj(np.swapaxes(H_r[1:n], -1, -2)), axis=0)
+                H_r[0] -= np.sum(H_r[1:n] + np.conj(np.swapaxes(H_r[1:n], -1, -2)), axis=0) * order
                 pass
             H_r[1:n] += H_r[n:] * -1j
             H_r = H_r[:n]
         elif self.cos_reduced:
-            H_r[0] -= np.sum(H_r[1:] + np.conj(np.swapaxes(H_r[1:], -1, -2)), axis=0)
+            H_r[0] -= np.sum(H_r[1:] + np.conj(np.swapaxes(H_r[1:], -1, -2)), axis=0) * order
         return H_r
 
     def set_params_complex(self, H_r):
@@ -634,11 +635,12 @@ class BandStructureModel:
             raise ValueError("This function can only be used on default tight binding models")
         if len(H_r) != len(self.neighbors):
             raise ValueError(f"The parameters {np.shape(H_r)} must match the neighbor count {len(self.neighbors)}")
+        order = len(self.sym.S) if self.sym is not None else 1  # terms of each coefficient function
         if self.exp:
             self.params = np.array(H_r)
             if self.cos_reduced:
                 self.params[0] += np.sum(self.params[1:] +
-                                         np.conj(np.swapaxes(self.params[1:], -1, -2)), axis=0)
+                                         np.conj(np.swapaxes(self.params[1:], -1, -2)), axis=0) * order
         else:
             self.params = np.array(H_r)
             n = len(H_r)
@@ -650,7 +652,7 @@ class BandStructureModel:
                 self.params += np.conj(np.swapaxes(self.params, -1, -2))
             self.params /= 2
             if self.cos_reduced:
-                self.params[0] += np.sum(self.params[1:n], axis=0) * 2
+                self.params[0] += np.sum(self.params[1:n], axis=0) * (2 * order)
 
     def save(self, filename: str, format=None):
         """Save the model to a file format, which can be read with the correspoding `BandStructureModel.load` function.
-- 
2.43.0


From 090fba553bc8b116f4aa3667c538e147d1f8c546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:01 +0000
Subject: [PATCH 35/78] fix: wannier90 hamiltonians are divided by the
 degeneracy of the lattice points

---
 src/tight_binding_redweasel/wannier90_tb_format.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/tight_binding_redweasel/wannier90_tb_format.py b/src/tight_binding_redweasel/wannier90_tb_format.py
index b5e3b9d..ccaae47 100644
--- a/src/tight_binding_redweasel/wannier90_tb_format.py
+++ b/src/tight_binding_redweasel/wannier90_tb_format.py
@@ -28,6 +28,7 @@ def load_tb(filename):
         # now read the hamiltonian matrices
         neighbors = []
         neighbors_set = set()
+        weights = dict() # inverse degeneracies of all points in the order of the file
         params = []
         r_params = []
         index = -1
@@ -38,6 +39,7 @@ def load_tb(filename):
             if len(parts) == 3:
                 # start new matrix or return to existing one
                 pos = tuple([int(x) for x in parts])
+                weight = weights.setdefault(pos, 1 / degeneracy[len(weights) % point_count])
                 neg_pos = tuple([-x for x in pos])
                 if pos not in neighbors_set:
                     if pos != neg_pos and neg_pos in neighbors_set:
@@ -57,7 +59,7 @@ def load_tb(filename):
                 # new matrix entry (i,j) x+iy
                 i,j = int(parts[0]), int(parts[1])
                 x,y = float(parts[2]), float(parts[3])
-                params[index][i-1,j-1] = x + y*1j
+                params[index][i-1,j-1] = (x + y*1j) * weight
             elif len(parts) == 8:
                 if index < 0:
                     continue # skip this entry
@@ -66,9 +68,9 @@ def load_tb(filename):
                 x = float(parts[2]) + 1j*float(parts[3])
                 y = float(parts[4]) + 1j*float(parts[5])
                 z = float(parts[6]) + 1j*float(parts[7])
-                r_params[index][i-1,j-1,0] = x
-                r_params[index][i-1,j-1,1] = y
-                r_params[index][i-1,j-1,2] = z
+                r_params[index][i-1,j-1,0] = x * weight
+                r_params[index][i-1,j-1,1] = y * weight
+                r_params[index][i-1,j-1,2] = z * weight
             else:
                 raise ValueError(f"File has a format error in the tight bindng matrices in line \"{line.strip()}\"")
     # sort the neighbors by length
@@ -98,6 +100,7 @@ def load_hr(filename):
         # now read the hamiltonian matrices
         neighbors = []
         neighbors_set = set()
+        weights = dict() # inverse degeneracies of all points in the order of the file
         params = []
         index = -1
         for line in file:
@@ -107,6 +110,7 @@ def load_hr(filename):
             if len(parts) == 7:
                 # start new matrix or return to existing one
                 pos = tuple([int(x) for x in parts[:3]])
+                weight = weights.setdefault(pos, 1 / degeneracy[len(weights) % point_count])
                 neg_pos = tuple([-x for x in pos])
                 if pos not in neighbors_set:
                     if pos != neg_pos and neg_pos in neighbors_set:
@@ -121,7 +125,7 @@ def load_hr(filename):
                 # new matrix entry (i,j) x+iy
                 i,j = int(parts[3]), int(parts[4])
                 x,y = float(parts[5]), float(parts[6])
-                params[index][i-1,j-1] = x + y*1j
+                params[index][i-1,j-1] = (x + y*1j) * weight
             else:
                 raise ValueError(f"File has a format error in the tight bindng matrices in line \"{line.strip()}\"")
     # sort the neighbors by length
-- 
2.43.0


From a8ebd44ffc7e0d272033612a87a20e431928868c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:45 +0000
Subject: [PATCH 36/78] fix: from_disk mixed the units of lattice and atom
 positions

---
 src/tight_binding_redweasel/qespresso_interface.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index f157566..3ccdda5 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -1397,14 +1397,15 @@ def from_disk(name: str, read_output=True, prepare_pseudopotentials=False) -> QE
         a2 = [float(x) for x in section.getElementsByTagName("a2")[0].firstChild.nodeValue.strip().split()]
         a3 = [float(x) for x in section.getElementsByTagName("a3")[0].firstChild.nodeValue.strip().split()]
         A = np.array([a1, a2, a3]).T
+        inv_A_bohr = np.linalg.inv(A)
         if crystal.unit == "angstrom":
             A *= bohr_to_angstrom
         crystal.A = A
         for atom in positions.getElementsByTagName("atom"):
             atom_type = atom.getAttribute("name")
             atom_pos = [float(x) for x in atom.firstChild.nodeValue.strip().split()]
-            # convert atom_pos to crystal coordinates, as those are used by the class
-            atom_pos = np.linalg.inv(A) @ atom_pos
+            # convert atom_pos (in bohr_radius) to crystal coordinates, as those are used by the class
+            atom_pos = inv_A_bohr @ atom_pos
             basis.append(atom_pos)
             types.append(atom_type)
         crystal.basis = np.array(basis)
-- 
2.43.0


From 5585f15f7ed1d5a65f3a661c93fff17842a40177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:45 +0000
Subject: [PATCH 37/78] fix: mass density of left handed lattices

---
 src/tight_binding_redweasel/qespresso_interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index 3ccdda5..3f85d7e 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -401,7 +401,7 @@ class QECrystal:
         Returns:
             float: mass density in kg/m^3
         """
-        return self._mass_per_cell() / np.linalg.det(self.lattice_vectors_in_m())
+        return self._mass_per_cell() / np.abs(np.linalg.det(self.lattice_vectors_in_m()))
 
     def scale_to_density(self, density: float):
         """Scale the basis to match a given density.
-- 
2.43.0


From 79280518f00e78cf375475ca030f8e4d8f716474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:45 +0000
Subject: [PATCH 38/78] fix: scale_to_density changed the array which was given
 to the crystal

---
 src/tight_binding_redweasel/qespresso_interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index 3f85d7e..4c6180d 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -409,7 +409,7 @@ class QECrystal:
         Args:
             density (float): The target density in kg/m^3
         """
-        self.A *= (self.mass_density() / density)**(1/3)
+        self.A = self.A * (self.mass_density() / density)**(1/3)
 
     def lattice_vectors_in_m(self) -> np.ndarray:
         """
-- 
2.43.0


From a7f9e11c6e9f19547fa34298fb7f5764711c3d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:45 +0000
Subject: [PATCH 39/78] fix: read_charge_density dropped the imaginary part of
 the coefficients

---
 src/tight_binding_redweasel/qespresso_interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index 4c6180d..3d2aa72 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -818,7 +818,7 @@ class QECrystal:
             # k+G = xk + h*b1 + k*b2 + l*b3
             g_smpl = b1[None,:] * mill[:, 0:1] + b2[None,:] * mill[:, 1:2] + b3[None,:] * mill[:, 2:3]
 
-            rho_g = np.zeros((nspin, ngm_g))
+            rho_g = np.zeros((nspin, ngm_g), dtype=np.complex128)
             for i in range(nspin):
                 rho_g[i,:] = np.fromfile(f, dtype='complex128', count=ngm_g)
                 f.seek(8, 1)
-- 
2.43.0


From 078e24bf29e70a9eb565e5ea6d483517ad3b985d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:45 +0000
Subject: [PATCH 40/78] fix: read_projections_order_spilling failed for more
 than one atom

---
 src/tight_binding_redweasel/qespresso_interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index 3d2aa72..6a9e6d1 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -596,7 +596,7 @@ class QECrystal:
                     key, _value = key_value.split("=")
                     key = key.strip()
                     if "charge" not in key and key not in ["p", "d", "f"]:
-                        if self.types:
+                        if len(self.types):
                             order.append(f"{index}{self.types[index-1]}_{key}")
                         else:
                             order.append(f"{index}_{key}")
-- 
2.43.0


From c84ce85defd7b6c9ee0d70dfdef144603ed74a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:45 +0000
Subject: [PATCH 41/78] fix: remove_translation of symmetries without
 translations

---
 src/tight_binding_redweasel/symmetry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index 7c248ff..931c8ed 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -969,7 +969,8 @@ class Symmetry:
         Returns:
             Self: A cut down symmetry if it was projective, or self (by reference)
         """
-        assert self.projective, "no translational symmetries included"
+        if not self.projective:
+            return self
         sym = self.subgroup(lambda s: np.linalg.norm(s[:-1, -1]) + np.linalg.norm(s[-1, :-1]))
         sym.S = np.array(sym.S[:, :-1, :-1])
         return sym
-- 
2.43.0


From ea7be3e678e0cb0ce3f700bf3105d6deee2baa9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:51 +0000
Subject: [PATCH 42/78] fix: transform of projective symmetries in other
 dimensions than three

---
 src/tight_binding_redweasel/symmetry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index 931c8ed..a4ecbe8 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -248,7 +248,8 @@ class Symmetry:
         if self.projective:
             assert np.shape(basis_transform) == (self.dim() - 1,) * 2, "basis_transform needs to be a square matrix with matching dimension"
             # TODO test!
-            basis_transform = np.block([[basis_transform, np.zeros((3, 1))], [np.zeros((1, 3)), np.eye(1)]])
+            n = self.dim() - 1
+            basis_transform = np.block([[basis_transform, np.zeros((n, 1))], [np.zeros((1, n)), np.eye(1)]])
         else:
             assert np.shape(basis_transform) == (self.dim(),) * 2, "basis_transform needs to be a square matrix with matching dimension"
         S = np.einsum("nij,mi,jk->nmk", self.S,
-- 
2.43.0


From c4bc8fe5464987ff4087fbd45608166a37209f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:56 +0000
Subject: [PATCH 43/78] fix: transposed symmetry keeps the projective flag

---
 src/tight_binding_redweasel/symmetry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index a4ecbe8..bd888dd 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -152,7 +152,7 @@ class Symmetry:
 
     def transpose(self) -> 'Symmetry':
         """Get the symmetry with all the symmetry operations transposed. That is the symmetry group for the dual lattice/vector space."""
-        return Symmetry(np.array(np.swapaxes(self.S, -1, -2)), self.inversion)
+        return Symmetry(np.array(np.swapaxes(self.S, -1, -2)), self.inversion, self.projective)
 
     def __eq__(self, other: 'Symmetry') -> bool:
         if self.dim() != other.dim():
-- 
2.43.0


From 237c79125cadec2e505ae99e92b98ab450ea64d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:33 +0000
Subject: [PATCH 44/78] fix: read_charge_density read the coefficients from the
 wrong place

---
 src/tight_binding_redweasel/qespresso_interface.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index 6a9e6d1..d9885d9 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -818,6 +818,9 @@ class QECrystal:
             # k+G = xk + h*b1 + k*b2 + l*b3
             g_smpl = b1[None,:] * mill[:, 0:1] + b2[None,:] * mill[:, 1:2] + b3[None,:] * mill[:, 2:3]
 
+            # Move the cursor to the next record
+            f.seek(8, 1)
+
             rho_g = np.zeros((nspin, ngm_g), dtype=np.complex128)
             for i in range(nspin):
                 rho_g[i,:] = np.fromfile(f, dtype='complex128', count=ngm_g)
-- 
2.43.0


From ba3da10ca90ef3e52086c4a86ef1629766d83ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:33 +0000
Subject: [PATCH 45/78] fix: read_bands_crystal failed without symmetries in
 the file

---
 src/tight_binding_redweasel/qespresso_interface.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index d9885d9..fa9237b 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -558,6 +558,7 @@ class QECrystal:
             if len(S) == 0:
                 # there is always one symmetry, the trivial symmetry
                 S = np.eye(3)[None,...]
+                S_trans = np.zeros((1, 3))
             # assert np.linalg.norm(np.einsum("nij,nik->njk", S, S) - np.eye(len(S[0]))) < 1e-5, "symmetries in crystal space are not orthogonal"
             assert np.linalg.norm(np.round(S) - S) < 1e-8, "symmetries in crystal space should be integers, but are not"
             assert len(S_trans) == len(S), "every symmetry needs an associated translational part if one of them has one."
-- 
2.43.0


From fa71a7b1d710c3f7de6249c9349cc017f24c32c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:47 +0000
Subject: [PATCH 46/78] fix: TightBindingModel with inversion symmetry failed
 to initialize

---
 src/tight_binding_redweasel/tight_binding.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/tight_binding_redweasel/tight_binding.py b/src/tight_binding_redweasel/tight_binding.py
index 021a397..3c032d1 100644
--- a/src/tight_binding_redweasel/tight_binding.py
+++ b/src/tight_binding_redweasel/tight_binding.py
@@ -27,11 +27,6 @@ class TightBindingModel:
         param_count = len(neighbors)
         if not self.sym.inversion:
             param_count = param_count * 2 - 1 # add separate sin Terms
-        else:
-            # make the onsite matrix blockdiagonal
-            n = unitary_repr.inv_split
-            self.params[0][:n,n:] = 0
-            self.params[0][n:,:n] = 0
         # check params
         if params is not None:
             assert np.shape(unitary_repr.U)[1] == np.shape(params)[1]
@@ -42,6 +37,12 @@ class TightBindingModel:
             assert pshape[0] == param_count
         else:
             self.params = np.zeros((param_count,) + (np.shape(unitary_repr.U)[1],)*2, dtype=np.complex128)
+        if self.sym.inversion:
+            # make the onsite matrix blockdiagonal
+            n = unitary_repr.inv_split
+            self.params = np.array(self.params)
+            self.params[0][:n,n:] = 0
+            self.params[0][n:,:n] = 0
         # TODO sanity checks for symmetrically equivalent neighbors (those are not allowed)
     
     def band_count(self):
-- 
2.43.0


From 8b5b558732624f234bb712fa68515c47a6fcf07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:47 +0000
Subject: [PATCH 47/78] fix: TightBindingModel.copy

---
 src/tight_binding_redweasel/tight_binding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/tight_binding.py b/src/tight_binding_redweasel/tight_binding.py
index 3c032d1..6e0db9e 100644
--- a/src/tight_binding_redweasel/tight_binding.py
+++ b/src/tight_binding_redweasel/tight_binding.py
@@ -487,7 +487,7 @@ class TightBindingModel:
         return bands, grads, hess1 - 2*hess2
 
     def copy(self):
-        return TightBindingModel(self.f_i, self.df_i, self.params.copy())
+        return TightBindingModel(self.unitary_repr, self.neighbors, self.params.copy())
     
     # make a tight binding model for a supercell with [nx, ny, nz] = repeats
     def copy_transformed(self, transform):
-- 
2.43.0


From d5b0abdb90aee4f3cb0df34c356de80a3109e7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:47 +0000
Subject: [PATCH 48/78] fix: complex coefficients of TightBindingModel

---
 src/tight_binding_redweasel/tight_binding.py | 30 +++++++++++++-------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/tight_binding_redweasel/tight_binding.py b/src/tight_binding_redweasel/tight_binding.py
index 6e0db9e..ab5ece6 100644
--- a/src/tight_binding_redweasel/tight_binding.py
+++ b/src/tight_binding_redweasel/tight_binding.py
@@ -427,30 +427,40 @@ class TightBindingModel:
 
     # get the complex fourier coefficients H_r
     def params_complex(self):
-        H = self.params / 2
+        n = len(self.neighbors)
+        H = np.array(self.params[:n], dtype=np.complex128)
+        H[0] -= np.sum(H[1:], axis=0) # params[0] is the matrix at k=0
+        H[1:] /= 2
         if self.sym.inversion:
             k = self.unitary_repr.inv_split
-            H[:,:k,k:] *= 1j
-            H[:,k:,:k] *= 1j
+            H[1:,:k,k:] *= -1j
+            H[1:,k:,:k] *= -1j
+            H[0,:k,k:] = 0
+            H[0,k:,:k] = 0
         else:
-            H[1:] += H[(len(self.params)+1)//2:] * 1j
-            H = H[:(len(self.params)+1)//2]
+            H[1:] -= 0.5j * self.params[n:]
         return H
     
     # set params from the complex fourier coefficients H_r
     def set_from_complex(self, H_r):
-        # TODO doesn't work...
-        self.params = np.array(H_r)
+        H_r = np.array(H_r)
         n = len(H_r)
+        A = H_r + np.conj(np.swapaxes(H_r, -1, -2))
+        B = 1j*(H_r - np.conj(np.swapaxes(H_r, -1, -2)))
         if not self.sym.inversion:
-            A = self.params + np.conj(np.swapaxes(self.params, -1, -2))
-            B = 1j*(self.params - np.conj(np.swapaxes(self.params, -1, -2)))
             self.params = np.concatenate([A, B[1:]], axis=0)
         else:
-            self.params += np.conj(np.swapaxes(self.params, -1, -2))
+            # the blocks between even and odd orbitals are sin terms
+            k = self.unitary_repr.inv_split
+            self.params = A + 0j
+            self.params[:,:k,k:] = B[:,:k,k:]
+            self.params[:,k:,:k] = B[:,k:,:k]
         self.params /= 2
         self.params[0] += np.sum(self.params[1:n], axis=0)*2
         self.params[1:] *= 2
+        if self.sym.inversion:
+            self.params[0,:k,k:] = 0
+            self.params[0,k:,:k] = 0
     
     def bands(self, k_smpl):
         return np.linalg.eigvalsh(self.f(k_smpl))
-- 
2.43.0


From aa78fcc0d8f23ca2a3f9ab24db794069ea992ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:22 +0000
Subject: [PATCH 49/78] fix: derivatives of TightBindingModel at integer
 k-points

---
 src/tight_binding_redweasel/tight_binding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/tight_binding.py b/src/tight_binding_redweasel/tight_binding.py
index ab5ece6..0313f9c 100644
--- a/src/tight_binding_redweasel/tight_binding.py
+++ b/src/tight_binding_redweasel/tight_binding.py
@@ -190,7 +190,7 @@ class TightBindingModel:
     def df_i(self, k, i):
         assert i >= 0
         k = np.asarray(k)
-        d = np.zeros_like(k)
+        d = np.zeros(k.shape)
         if i == 0:
             if self.sym.inversion:
                 return d, d
-- 
2.43.0


From 700035b47511d4b83433bf26aff15fc97694c551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:18 +0000
Subject: [PATCH 50/78] fix: logging a perfect fit aborted the optimisation

---
 src/tight_binding_redweasel/logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/logger.py b/src/tight_binding_redweasel/logger.py
index 8e6dfde..07843e5 100644
--- a/src/tight_binding_redweasel/logger.py
+++ b/src/tight_binding_redweasel/logger.py
@@ -42,7 +42,7 @@ class OptimisationLogger:
             # U+2581 = ▁ ... U+2588 = █
             scale = np.max(max_err)
             error_vis = "".join(
-                [" " if err/scale <= 1/16 else chr(0x2581 + round(err/scale * 8 - 1)) for err in max_err])
+                [" " if not err > scale/16 else chr(0x2581 + round(err/scale * 8 - 1)) for err in max_err])
             print(f"{iteration:3}: loss{loss:9.2e}{scale:8.1e}×[{error_vis}]", end="")
             if not self.update_line:
                 print()
-- 
2.43.0


From 3ac5c5c1cc5560dcb0133b2f446e20dc9f8ccccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:18 +0000
Subject: [PATCH 51/78] fix: AsymTightBindingModel.optimize with train_S

---
 src/tight_binding_redweasel/tight_binding_asym.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index 02d4429..c83a485 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -450,7 +450,7 @@ class AsymTightBindingModel:
                 H = np.einsum("nkl,in->ikl", self.H.H_r, batch_f_i)
                 H += np.conj(np.swapaxes(H, -1, -2))
                 if train_S:
-                    H = np.einsum("nkl,in->ikl", self.S.H_r, batch_s_f_i)
+                    S = np.einsum("nkl,in->ikl", self.S.H_r, batch_s_f_i)
                     S += np.conj(np.swapaxes(S, -1, -2))
                 eigvals, eigvecs = geigh(H, S)
                 eigvals = eigvals[:, band_offset:][:, :len(batch_ref[0])]
-- 
2.43.0


From 2e2efbdbff1f8921afb77988e95571ec17becc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:01 +0000
Subject: [PATCH 52/78] fix: AsymTightBindingModel.optimize uses the overlap
 matrices of the batch

---
 src/tight_binding_redweasel/tight_binding_asym.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index c83a485..08b57ef 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -418,7 +418,7 @@ class AsymTightBindingModel:
 
         if not train_S:
             # precompute S for every k_smpl
-            S = self.S.f(k_smpl)
+            S_k = self.S.f(k_smpl)
         # start stochastic gradient descent
         last_add = np.zeros_like(self.H.H_r)
         last_add_s = np.zeros_like(self.S.H_r)
@@ -452,6 +452,8 @@ class AsymTightBindingModel:
                 if train_S:
                     S = np.einsum("nkl,in->ikl", self.S.H_r, batch_s_f_i)
                     S += np.conj(np.swapaxes(S, -1, -2))
+                else:
+                    S = S_k[iteration % batch_div::batch_div]
                 eigvals, eigvecs = geigh(H, S)
                 eigvals = eigvals[:, band_offset:][:, :len(batch_ref[0])]
                 eigvecs = eigvecs[:, :, band_offset:][:, :, :len(batch_ref[0])]
-- 
2.43.0


From 2610625d7515a52c829a7d859b05f3908e5f9c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:06 +0000
Subject: [PATCH 53/78] fix: TightBindingModel.optimize with more than one band

---
 src/tight_binding_redweasel/tight_binding.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/tight_binding.py b/src/tight_binding_redweasel/tight_binding.py
index 0313f9c..6e94151 100644
--- a/src/tight_binding_redweasel/tight_binding.py
+++ b/src/tight_binding_redweasel/tight_binding.py
@@ -388,12 +388,12 @@ class TightBindingModel:
 
                 if iteration % 100 == 0:
                     #print(f"loss: {new_loss:.2e} alpha: {alpha:.1e}")
-                    l = self.loss(k_smpl, ref_bands, weights, band_offset)
+                    l = self.loss(k_smpl, ref_bands, weights[0], band_offset)
                     print(f"\rloss: {l:.2e}", end="")
         except KeyboardInterrupt:
             print("\naborted")
         self.normalize()
-        l = self.loss(k_smpl, ref_bands, weights, band_offset)
+        l = self.loss(k_smpl, ref_bands, weights[0], band_offset)
         print(f"\rfinal loss: {l:.2e}")
 
     def normalize(self):
-- 
2.43.0


From 1f5250fa5289c46f10625f79919fda7a682f24a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:30 +0000
Subject: [PATCH 54/78] fix: conjugate_gradient_solve changed the start vector
 and failed for integers

---
 src/tight_binding_redweasel/linalg.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/linalg.py b/src/tight_binding_redweasel/linalg.py
index b833ff5..942a151 100644
--- a/src/tight_binding_redweasel/linalg.py
+++ b/src/tight_binding_redweasel/linalg.py
@@ -244,11 +244,14 @@ def conjugate_gradient_solve(A: Callable[[np.ndarray], np.ndarray], b: np.ndarra
     Returns:
         np.ndarray: The best approximation for the result `x` from `Ax=b`.
     """
+    # the following works in place, so don't touch the arguments and don't use integers
+    b = np.asarray(b)
+    b = b.astype(np.promote_types(b.dtype, np.float64))
     if x0 is None:
         x = np.zeros_like(b)
         r = -b
     else:
-        x = x0
+        x = np.array(x0, dtype=np.promote_types(np.asarray(x0).dtype, b.dtype))
         r = A(x) - b
     d = r.copy()
     r_sqr = np.sum(r.conj() * r)
-- 
2.43.0


From 9447c0137a46df1e25255061dddb5df96e8acf88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:30 +0000
Subject: [PATCH 55/78] fix: import of slater_koster

---
 src/tight_binding_redweasel/slater_koster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/slater_koster.py b/src/tight_binding_redweasel/slater_koster.py
index 7d29fd9..7179988 100644
--- a/src/tight_binding_redweasel/slater_koster.py
+++ b/src/tight_binding_redweasel/slater_koster.py
@@ -5,7 +5,7 @@ from . import hamiltonian_symmetry as _hsym
 from . import kpaths as _kpaths
 from . import unitary_representations as _urepr
 from . import linalg as _lin
-from typing import Callable, tuple, Self
+from typing import Callable, Self
 
 # This is an implementation of a pure Slater-Koster
 # tight-binding interpolation model.
-- 
2.43.0


From 5dda9f013f5746a3eb08a4fbde78e0e48c1717dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:30 +0000
Subject: [PATCH 56/78] fix: SlaterKoster.set_parameter for parameters which
 are already set

---
 src/tight_binding_redweasel/slater_koster.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/slater_koster.py b/src/tight_binding_redweasel/slater_koster.py
index 7179988..eeb4f92 100644
--- a/src/tight_binding_redweasel/slater_koster.py
+++ b/src/tight_binding_redweasel/slater_koster.py
@@ -303,7 +303,9 @@ class SlaterKoster:
             value (float, complex): value to be inserted for the specified parameter.
         """
         k, i, j, fac = parameter_tuple
-        self.model.params[k][i, j] = value / fac
+        # symmetrisation takes the mean with all equivalent entries, so add the difference to a symmetric model
+        self.model.params = self.symmetrizer(self.model.params)
+        self.model.params[k][i, j] += (value - self.model.params[k][i, j]) / fac
         self.model.params = self.symmetrizer(self.model.params)
 
     def interactive_widget(self, kpath: _kpaths.KPath, ylim: tuple[float, float], ref_model: Callable=None, slider_range=5.0, slider_step=0.1, latex=False, use_complex=False):
-- 
2.43.0


From 53b8b98c84b5ab02398bcd6dc94b6f2522b77230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:30 +0000
Subject: [PATCH 57/78] fix: SlaterKoster.parameters lost parameters of
 orbitals with the same name

---
 src/tight_binding_redweasel/slater_koster.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tight_binding_redweasel/slater_koster.py b/src/tight_binding_redweasel/slater_koster.py
index eeb4f92..9e35c1b 100644
--- a/src/tight_binding_redweasel/slater_koster.py
+++ b/src/tight_binding_redweasel/slater_koster.py
@@ -278,6 +278,11 @@ class SlaterKoster:
                     label = "E" if k == 0 else f"V{k}"
                     label = label + self.hsym.get_band_name(i)
                     label = label + self.hsym.get_band_name(j)
+                    # orbitals can share a name, their parameters can't
+                    base, number = label, 2
+                    while label in found_params:
+                        label = f"{base}_{number}"
+                        number += 1
                     # figure out the correct factor
                     if np.abs(np.imag(dummy_params[k][i, j])) < 1e-5:
                         # fac is float
-- 
2.43.0


From 76555b5d70718cb2c3a9516abb9d64456408b0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:30 +0000
Subject: [PATCH 58/78] fix: SlaterKoster.from_orbitals mixed up the symmetries
 of derived integrals

---
 src/tight_binding_redweasel/slater_koster.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tight_binding_redweasel/slater_koster.py b/src/tight_binding_redweasel/slater_koster.py
index 9e35c1b..37404f0 100644
--- a/src/tight_binding_redweasel/slater_koster.py
+++ b/src/tight_binding_redweasel/slater_koster.py
@@ -150,10 +150,10 @@ class SlaterKoster:
                                                     elif type(func) == dict:
                                                         func = {tuple(s_op.T @ pos): res_inv * v for pos, v in func.items()}
                                                     else:
-                                                        # package "func" inside a function to build the lambda expression independend of the local variable with name "func"
-                                                        def pack(func):
+                                                        # package all variables inside a function to build the lambda expression independend of the local variables of the loops
+                                                        def pack(func, s_op, res_inv):
                                                             return lambda x: res_inv * func(s_op @ x)
-                                                        func = pack(func)
+                                                        func = pack(func, s_op, res_inv)
                                                     # save the transformed func in orbital_integrals
                                                     # (no copy of the dict -> the instance of the input dict will get extended)
                                                     orbital_integrals[f"{name1}/{name2}:V_{sub1}_{sub2}"] = func
-- 
2.43.0


From 8a274eba1808b0e7ad22f824306f73695efe940c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:30 +0000
Subject: [PATCH 59/78] fix: SlaterKoster.from_orbitals without d orbitals for
 other groups than the cubic one

---
 src/tight_binding_redweasel/slater_koster.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/tight_binding_redweasel/slater_koster.py b/src/tight_binding_redweasel/slater_koster.py
index 37404f0..c344daa 100644
--- a/src/tight_binding_redweasel/slater_koster.py
+++ b/src/tight_binding_redweasel/slater_koster.py
@@ -96,11 +96,12 @@ class SlaterKoster:
         urepr['p'] = _urepr.UnitaryRepresentation(sym, 3)
         urepr['p'].U = sym.S
         urepr['p'].inv_split = 0
-        urepr['d'] = _urepr.UnitaryRepresentation(sym, 3)
-        urepr['d'].U = sym.S
-        urepr['d'].inv_split = 3
-        # TODO make the following work for all symmetries...
-        urepr['d'] = urepr['d'] + _urepr.UnitaryRepresentation.d3(False, inversion=sym.inversion)
+        if any('d' in orbitals for _, orbitals, _ in basis):
+            urepr['d'] = _urepr.UnitaryRepresentation(sym, 3)
+            urepr['d'].U = sym.S
+            urepr['d'].inv_split = 3
+            # TODO make the following work for all symmetries...
+            urepr['d'] = urepr['d'] + _urepr.UnitaryRepresentation.d3(False, inversion=sym.inversion)
         inv_urepr = {'s': 1, 'p': -1, 'd': 1, 'f': -1}
 
         # fill up orbital_integrals
-- 
2.43.0


From db42cf269bc57f408509fa43c3fe32beda730422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:53 +0000
Subject: [PATCH 60/78] fix: order of the d orbitals in
 SlaterKoster.from_orbitals

---
 src/tight_binding_redweasel/slater_koster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/slater_koster.py b/src/tight_binding_redweasel/slater_koster.py
index c344daa..fc7cd78 100644
--- a/src/tight_binding_redweasel/slater_koster.py
+++ b/src/tight_binding_redweasel/slater_koster.py
@@ -91,7 +91,7 @@ class SlaterKoster:
         # now create the parameters
         band_count = sum((sum(({'s': 1, 'p': dim, 'd': [1,2,5][dim-1]}[letter] for letter in orbitals)) for _, orbitals, _ in basis))
         params = np.zeros((len(neighbors), band_count, band_count), dtype=np.complex128)
-        suborbitals = {'s': ['s'], 'p': ['px','py','pz'][:dim], 'd': ['dyz','dxz','dxy','dx2y2','dz'][:[1,2,5][dim-1]]}
+        suborbitals = {'s': ['s'], 'p': ['px','py','pz'][:dim], 'd': ['dyz','dxz','dxy','dz','dx2y2'][:[1,2,5][dim-1]]}
         urepr = {'s': _urepr.UnitaryRepresentation(sym, 1)}
         urepr['p'] = _urepr.UnitaryRepresentation(sym, 3)
         urepr['p'].U = sym.S
-- 
2.43.0


From d02b4193e5aeca28f99fb7f8c33647099c09c688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:05 +0000
Subject: [PATCH 61/78] fix: spheres smearing with gradients for left handed
 lattices

---
 src/tight_binding_redweasel/smearing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/smearing.py b/src/tight_binding_redweasel/smearing.py
index 8e5bcbd..6ccf5a0 100644
--- a/src/tight_binding_redweasel/smearing.py
+++ b/src/tight_binding_redweasel/smearing.py
@@ -490,7 +490,7 @@ class SphereSmearing(SmearingMethod):
             # gradients are in k_space, we want them to remain there,
             # as the lattice is assumed to be well spaced in reciprocal space.
             # that means the total volume is not 1, but np.linalg.det(B).
-            volume = np.linalg.det(B)
+            volume = abs(np.linalg.det(B))
             cell_volume = volume / len(positions[...,0].flat)
             # to counteract that, one can scale the gradients
             self.grads = np.moveaxis(grads, -1, 0) * cell_volume**(1/3)
-- 
2.43.0


From d586ba81865af802930737940720156ec3fef802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:19 +0000
Subject: [PATCH 62/78] fix: Fermi energy search leaves the band

---
 .../density_of_states.py                      | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index e54c223..f800479 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -487,13 +487,24 @@ class DensityOfStates:
         e_index = list(states_smpl > electrons).index(True) - 1
         fermi_energy = (electrons - states_smpl[e_index]) / (states_smpl[e_index + 1] - states_smpl[e_index]) * (e_smpl[e_index + 1] - e_smpl[e_index]) + e_smpl[e_index]
         # now do a couple newton steps to find the exact value
+        e_min, e_max = e_smpl[e_index], e_smpl[e_index + 1]  # the solution is between these
         for _ in range(maxsteps):
             states, density = self.states_density(fermi_energy)
-            # TODO handle density = 0 in metals
-            fermi_energy -= (states - electrons) / density
-            if abs((states - electrons) / density) <= tol:
+            if states < electrons:
+                e_min = fermi_energy
+            else:
+                e_max = fermi_energy
+            # bisect if the density vanishes or the newton step would leave the range of the solution
+            next_energy = (e_min + e_max) / 2
+            if density > 0:
+                newton = fermi_energy - (states - electrons) / density
+                if e_min <= newton and newton <= e_max:
+                    next_energy = newton
+            step = abs(next_energy - fermi_energy)
+            fermi_energy = next_energy
+            if step <= tol:
                 return fermi_energy
-        raise ValueError(f"root search didn't converge in {maxsteps} steps. {abs((states - electrons) / density)} > {tol}.")
+        raise ValueError(f"root search didn't converge in {maxsteps} steps. {step} > {tol}.")
 
     def bandgap(self, electrons: float) -> float:
         """Return the (already precomputed) bandgap.
-- 
2.43.0


From 91a1d9649e325bcbbd9c2225ceb2a5410c485db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:33 +0000
Subject: [PATCH 63/78] fix: TightBindingModel.f with inversion for a single
 k-point and for grids of k-points

---
 src/tight_binding_redweasel/tight_binding.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tight_binding_redweasel/tight_binding.py b/src/tight_binding_redweasel/tight_binding.py
index 6e94151..ba64e2a 100644
--- a/src/tight_binding_redweasel/tight_binding.py
+++ b/src/tight_binding_redweasel/tight_binding.py
@@ -251,10 +251,10 @@ class TightBindingModel:
                 c, s = self.f_i(k, i)
                 c = np.asarray(c)[...,None,None]
                 s = np.asarray(s)[...,None,None]
-                mat[:,:n,:n] += c * params[i][...,:n,:n]
-                mat[:,n:,n:] += c * params[i][...,n:,n:]
-                mat[:,:n,n:] += s * params[i][...,:n,n:]
-                mat[:,n:,:n] += s * params[i][...,n:,:n]
+                mat[...,:n,:n] += c * params[i][...,:n,:n]
+                mat[...,n:,n:] += c * params[i][...,n:,n:]
+                mat[...,:n,n:] += s * params[i][...,:n,n:]
+                mat[...,n:,:n] += s * params[i][...,n:,:n]
         else:
             for i in range(len(self.params)):
                 mat += np.asarray(self.f_i(k, i))[...,None,None] * params[i]
-- 
2.43.0


From d7eb8d3fd670fa9209f59221c4c6fff0e1b2cf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:10 +0000
Subject: [PATCH 64/78] fix: naive_fermi_energy was off by one state

---
 src/tight_binding_redweasel/density_of_states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index f800479..fd588f6 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -180,7 +180,7 @@ def int_poly(x0, x1, a, b, c):
 
 def naive_fermi_energy(bands, electrons):
     i = round(np.prod(np.shape(bands)[:-1]) * electrons)
-    return np.mean(np.sort(np.ravel(bands))[i:i + 2])
+    return np.mean(np.sort(np.ravel(bands))[max(i - 1, 0):i + 1])
 
 
 def naive_energy(bands, mu, T, spin_factor=2):
-- 
2.43.0


From 18c912d7394f3c019e3439955d27cf0cbf530ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:49 +0000
Subject: [PATCH 65/78] fix: o3 and so3 shared the matrices of their group,
 permute changed the group

---
 src/tight_binding_redweasel/unitary_representations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/unitary_representations.py b/src/tight_binding_redweasel/unitary_representations.py
index b08af71..c210a23 100644
--- a/src/tight_binding_redweasel/unitary_representations.py
+++ b/src/tight_binding_redweasel/unitary_representations.py
@@ -532,7 +532,7 @@ class UnitaryRepresentation:
         """O(3) with inversion -1 for cubic symmetry O_h."""
         sym = _sym.Symmetry.cubic(True)
         u_repr = UnitaryRepresentation(sym, 3)
-        u_repr.U = np.asarray(sym.S)
+        u_repr.U = np.array(sym.S)
         u_repr.inv_split = 0 # no 1 eigenvalues in inversion
         return u_repr
     
@@ -541,7 +541,7 @@ class UnitaryRepresentation:
         """SO(3) with 1 on inversion for cubic symmetry O_h."""
         sym = _sym.Symmetry.cubic(True)
         u_repr = UnitaryRepresentation(sym, 3)
-        u_repr.U = np.asarray(sym.S)
+        u_repr.U = np.array(sym.S)
         u_repr.inv_split = 3 # all 1 eigenvalues in inversion
         return u_repr
     
-- 
2.43.0


From df89c798aed8b29b2c3cb7206ff49ee1cdc68658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:30 +0000
Subject: [PATCH 66/78] fix: check_symmetry of representations only tested one
 k-point and ignored the inversion

---
 src/tight_binding_redweasel/unitary_representations.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/unitary_representations.py b/src/tight_binding_redweasel/unitary_representations.py
index c210a23..ea55166 100644
--- a/src/tight_binding_redweasel/unitary_representations.py
+++ b/src/tight_binding_redweasel/unitary_representations.py
@@ -426,17 +426,18 @@ class UnitaryRepresentation:
         """
         # random sample points
         k_smpl = np.random.random((50, len(self.sym.S[0])))
-        k_smpl = ((0.0, 0.5, 0.0),)
+        inv_u = np.diag([1.0] * self.inv_split + [-1.0] * (self.dim() - self.inv_split))
         for k in k_smpl:
             values = []
             for s, u in zip(self.sym.S, self.U):
                 values.append(np.conj(u.T) @ hamilton([s @ k])[0] @ u)
+                if self.sym.inversion:
+                    values.append(np.conj(u.T) @ inv_u @ hamilton([-s @ k])[0] @ inv_u @ u)
             if np.linalg.norm(np.std(values, axis=0)) > 1e-7:
                 print("symmetry error")
                 #print(np.std(values, axis=0))
                 print((np.std(values, axis=0) > 1e-7).astype(np.int8)) # patterns more clear
                 return False
-        # TODO check inversion symmetry
         return True
     
     def subspaces(self):
-- 
2.43.0


From 2012b1036acc8a902fff18b002e0881a04a88029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:27 +0000
Subject: [PATCH 67/78] fix: init_from_ref assigned degenerate energies to
 representations which are too small

---
 src/tight_binding_redweasel/tight_binding.py | 31 ++++++++++----------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/src/tight_binding_redweasel/tight_binding.py b/src/tight_binding_redweasel/tight_binding.py
index ba64e2a..499ce2f 100644
--- a/src/tight_binding_redweasel/tight_binding.py
+++ b/src/tight_binding_redweasel/tight_binding.py
@@ -100,22 +100,21 @@ class TightBindingModel:
                 # start with small symmetries in the data and use up the additional_left in the most conservative way possible
                 dsym = sym[data_sym_size_i]
                 for s in dsym:
-                    used = False
-                    for model_sym_size_i in range(0, dim):
-                        if model_sym_size_i - data_sym_size_i > additional_left:
-                            raise ValueError(f"The given representation doesn't fit the data. There is not enough irreducible representations of dimension {data_sym_size_i} or smaller.")
-                        msym = groups2[model_sym_size_i]
-                        if len(msym) > 0:
-                            g = msym[0]
-                            model_bands[np.array(g)] = s
-                            del msym[0]
-                            additional_left -= max(0, model_sym_size_i - data_sym_size_i)
-                            used = True
-                            break
-                    if not used:
-                        # didn't find a symmetry to match
-                        # TODO make the error more explicit (can this actually happen?)
-                        raise ValueError("The given representation doesn't fit the data.")
+                    # number of bands with this energy, which still need a place in the model
+                    missing = data_sym_size_i + 1
+                    while missing > 0:
+                        # use the smallest fitting symmetry, otherwise split the data up into smaller symmetries
+                        sizes = [i for i in range(0, dim) if len(groups2[i]) > 0]
+                        sizes = [i for i in sizes if i + 1 >= missing] + [i for i in reversed(sizes) if i + 1 < missing]
+                        sizes = [i for i in sizes if i + 1 - missing <= additional_left]
+                        if len(sizes) == 0:
+                            raise ValueError(f"The given representation doesn't fit the data. There is not enough irreducible representations of dimension {data_sym_size_i + 1} or smaller.")
+                        msym = groups2[sizes[0]]
+                        g = msym[0]
+                        model_bands[np.array(g)] = s
+                        del msym[0]
+                        additional_left -= max(0, sizes[0] + 1 - missing)
+                        missing -= sizes[0] + 1
         else:
             assert use_repr_order
             # TODO BIG PROBLEM!!! inversion symmetry sorting makes the order of unitary representations not choosable!
-- 
2.43.0


From 10afe3c189ed1d76e60aaa4ded7a1f27e826bde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:35 +0000
Subject: [PATCH 68/78] fix: autofit_asym raised an exception with additional
 bands

---
 src/tight_binding_redweasel/tight_binding_asym.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index 08b57ef..69fa3d8 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -970,7 +970,8 @@ def autofit_asym(name, neighbors_src, k_smpl, ref_bands, band_weights, sym: Symm
         tb = AsymTightBindingModel.new(neighbors, add_bands_below + np.shape(ref_bands)[-1] + add_bands_above)
         tb.randomize(0.01)
         tb.normalize()
-        tb.H.H_r[0] = np.diag(ref_bands[0])
+        # start with the reference bands at the gamma point, padded by the additional bands
+        tb.H.H_r[0] = np.diag(np.pad(ref_bands[0], (add_bands_below, add_bands_above), mode="edge"))
         # now fit in 10 steps extending from the gamma point (0-point)
         log = logger.OptimisationLogger(update_line=False)
         for j in range(1, 11):
-- 
2.43.0


From 50c62c256e17392e90dccb37907012ff4b813c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:35 +0000
Subject: [PATCH 69/78] fix: seebeck raised an exception if all temperatures
 are zero

---
 src/tight_binding_redweasel/density_of_states.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index fd588f6..0d49f63 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -679,6 +679,8 @@ class DensityOfStates:
         T_smpl = np.asarray(T_smpl)
         subset = np.arange(len(T_smpl))[T_smpl > 0]
         T_ = T_smpl[subset]
+        if len(T_) == 0:
+            return np.zeros(len(T_smpl))
         inv_order = np.zeros(len(T_smpl), dtype=int)
         inv_order[subset] = np.arange(len(T_))
         assert h < np.min(T_), "h needs to be bigger than the smallest positive temperature"
-- 
2.43.0


From 6646ab9433cedde84a50039d21ce7d533f801a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:35 +0000
Subject: [PATCH 70/78] fix: reduce_symmetric_data kept equivalent points, if
 there are points of similar length

---
 src/tight_binding_redweasel/symmetry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index bd888dd..20d4653 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -710,7 +710,8 @@ class Symmetry:
                     # find all instances of k_ in reduced_k and delete them
                     j = i
                     while j < len(reduced_k):
-                        if np.linalg.norm(reduced_k[j]) > scale * 1.0001:
+                        # the points are only sorted up to rounding, so points of equal length can be behind slightly longer ones
+                        if np.linalg.norm(reduced_k[j])**2 > scale**2 * 1.0001 + 0.02:
                             break  # * this is what makes this a good algorithm
                         if np.linalg.norm(reduced_k[j] - k_) < scale * 1e-6:
                             if checked and np.linalg.norm(reduced[j] - value) > 1e-7:
-- 
2.43.0


From 67f9d9c35fac8afc1ab456431cb49bedc4e37c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:21 +0000
Subject: [PATCH 71/78] fix: check_neighbors rejected complete sets of
 neighbors for small groups

---
 src/tight_binding_redweasel/symmetry.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index 20d4653..871437f 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -776,16 +776,13 @@ class Symmetry:
             for s in self.S:
                 # using transposed symmetry operations, as the whole symmetry is meant to be in k-space
                 r_ = np.transpose(s) @ r
-                # here only the neighbors with an index similar to i need to be checked
                 # TODO replace this search by the KD-Trees
-                start = max(i - len(self.S) * 3, 0)
-                end = min(i + len(self.S) * 3, len(neighbors))
-                dist = np.minimum(np.linalg.norm(neighbors[start:end] - r_[None, :], axis=-1),
-                                  np.linalg.norm(neighbors[start:end] + r_[None, :], axis=-1))
+                dist = np.minimum(np.linalg.norm(neighbors - r_[None, :], axis=-1),
+                                  np.linalg.norm(neighbors + r_[None, :], axis=-1))
                 j = np.argmin(dist)
                 if dist[j] > 1e-4:
                     raise ValueError(f"neighbors need to be choosen to fit the symmetry, however {r_} is missing")
-                count[start + j] += 1
+                count[j] += 1
         for c in count:
             if c != len(self.S):
                 raise ValueError(f"neighbors need to be choosen to fit the symmetry, however counting occurences has found the numbers {count}")
-- 
2.43.0


From db691f203921d803768f81c54ddfba35dfb29ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:21 +0000
Subject: [PATCH 72/78] fix: eigh_grad_hess, geigh_grad, geigh and geigvalsh
 failed for single degenerate matrices and grids of matrices

---
 src/tight_binding_redweasel/linalg.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/tight_binding_redweasel/linalg.py b/src/tight_binding_redweasel/linalg.py
index 942a151..fd9b324 100644
--- a/src/tight_binding_redweasel/linalg.py
+++ b/src/tight_binding_redweasel/linalg.py
@@ -73,7 +73,7 @@ def geigh(H: np.ndarray, S: np.ndarray) -> tuple[np.ndarray, np.ndarray]:
             # TODO check if using np.linalg.cholesky to factor S and then np.linalg.eigh is faster
             res_la = np.zeros(H.shape[:-1], dtype=np.float64)
             res_ev = np.zeros(H.shape, dtype=H.dtype)
-            for i in range(len(H)):
+            for i in np.ndindex(H.shape[:-2]):
                 la, ev = scipy.linalg.eigh(H[i], S[i])
                 res_la[i] = la
                 res_ev[i] = ev
@@ -85,7 +85,7 @@ def geigh(H: np.ndarray, S: np.ndarray) -> tuple[np.ndarray, np.ndarray]:
 def geigvalsh(H: np.ndarray, S: np.ndarray) -> np.ndarray:
     if len(np.shape(H)) >= 3:
         res_la = np.zeros(H.shape[:-1], dtype=np.float64)
-        for i in range(len(H)):
+        for i in np.ndindex(H.shape[:-2]):
             res_la[i] = scipy.linalg.eigvalsh(H[i], S[i])
         return res_la
     else:
@@ -103,7 +103,7 @@ def geigh_grad(H: np.ndarray, S: np.ndarray, dH: np.ndarray, dS: np.ndarray):
     path = ['einsum_path', (0, 1), (0, 1)]  # precomputed path for best speed
     grads = np.real(np.einsum("...ji,...njk,...ki->...ni", np.conj(ev), dH, ev, optimize=path))
     # TODO check!
-    grads -= np.real(np.einsum("...ji,...njk,...ki->...ni", np.conj(ev), dS, ev, optimize=path)) * bands[:, None, :]
+    grads -= np.real(np.einsum("...ji,...njk,...ki->...ni", np.conj(ev), dS, ev, optimize=path)) * bands[..., None, :]
     return bands, grads, ev
 
 
@@ -150,6 +150,10 @@ def eigh_grad_hess(H: np.ndarray, dH: np.ndarray, ddH: np.ndarray, epsilon=1e-6)
     assert H_shape[:-2] == dH_shape[:-3] and dH_shape[:-3] == ddH_shape[:-4], "enumerating dimensions must be equal for all terms H, dH, ddH"
     m = dH_shape[-3]
     assert m == ddH_shape[-3] and m == ddH_shape[-4], "number of variables M must be equal for the terms dH, ddH"
+    if len(H_shape) == 2:
+        # the selection of the degenerate matrices below needs an enumerating dimension
+        bands, grads, hess = eigh_grad_hess(np.asarray(H)[None], np.asarray(dH)[None], np.asarray(ddH)[None], epsilon)
+        return bands[0], grads[0], hess[0]
     eigvals, ev = np.linalg.eigh(H)
     # first order perturbation theory terms
     path = ['einsum_path', (0, 1), (0, 1)]  # precomputed path for best speed
@@ -165,7 +169,6 @@ def eigh_grad_hess(H: np.ndarray, dH: np.ndarray, ddH: np.ndarray, epsilon=1e-6)
     if select.sum():
         # for this, an additional diagonalisation is needed for all matrices, which have degenerate eigenvalues.
         # To keep the efficiency high, only do the second diagonalisation for those which need it.
-        # TODO select only works if select.shape != tuple()
         assert len(np.shape(dH_ev[select])) == len(dH_ev.shape)
         _, ev_dH = np.linalg.eigh(dH_ev[select] * mask[select][..., None, :, :])
         # stable sort ev such that the order of la doesn't change!
-- 
2.43.0


From 942b0cf308bc8a2fc24bcc5786a5e2a7f0dbac17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:21 +0000
Subject: [PATCH 73/78] fix: KPath failed for a start given as explicit point

---
 src/tight_binding_redweasel/kpaths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/kpaths.py b/src/tight_binding_redweasel/kpaths.py
index 5e6fb67..7f6912b 100644
--- a/src/tight_binding_redweasel/kpaths.py
+++ b/src/tight_binding_redweasel/kpaths.py
@@ -43,7 +43,7 @@ class KPath(Sequence):
         self.points = points  # no copy, be careful!
         self.indices = [0]  # symmetry point indices
         additional = []
-        if isinstance(start, list) or isinstance(start, tuple):
+        if isinstance(start, (list, tuple)) and (isinstance(start[0], str) or np.ndim(start[0]) > 0):
             # accept a list of points instead of start
             additional = start[1:]
             start = start[0]
-- 
2.43.0


From ed2b9e5bdee23c71fe96b33d7013614a5017a676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:21 +0000
Subject: [PATCH 74/78] fix: transport functions failed for cells given as
 lists

---
 src/tight_binding_redweasel/bulk_properties.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tight_binding_redweasel/bulk_properties.py b/src/tight_binding_redweasel/bulk_properties.py
index 17c29b4..2bb0c51 100644
--- a/src/tight_binding_redweasel/bulk_properties.py
+++ b/src/tight_binding_redweasel/bulk_properties.py
@@ -374,6 +374,7 @@ class KIntegral:
         Returns:
             (ndarray[max_a+1, N_T, N_d, N_d]): (L^(0), L^(1), L^(2)). Results L^(0) in 1/(Ohm*m)/s, L^(1) in J/C/(Ohm*m)/s, L^(2) in (J/C)^2/(Ohm*m)/s.
         """
+        A = np.asarray(A)
         V_EZ = abs(np.linalg.det(A * 1e-10))
         if isinstance(tau, float):
             tau_v = tau
@@ -386,6 +387,7 @@ class KIntegral:
 
     # conductivity divided by the electron scattering time tau. Assuming constant tau. Result in 1/(Ohm*m*s)
     def drude_factor(self, A: np.ndarray, spin_factor=2):
+        A = np.asarray(A)
         V_EZ = abs(np.linalg.det(A * 1e-10))
         I = self.integrate_df_A(A, lambda _e, v, _k: v[:, None, :] * v[:, :, None], hessians=False)[0]
         D = spin_factor * elementary_charge**2 * I / eV / V_EZ
@@ -407,6 +409,7 @@ class KIntegral:
         # In reality the relaxation times are different over k-space or even just for different spins in the same band. (PhysRev.97.647)
         # Somehow their units don't match the expected result unit, so I removed the division by the speed of light to make it work.
         # I canceled one e from sigma_xx with e^2 from sigma_xyz
+        A = np.asarray(A)
         V_EZ = abs(np.linalg.det(A * 1e-10))
         # sigma_xyz = elementary_charge/c/eV * self.integrate_df_A(A, lambda _e, v, h, _k: (v[:,0]**2*h[:,1,1] - v[:,0]*v[:,1]*h[:,1,0]), hessians=True)
         I = self.integrate_df_A(A, lambda _e, v, h, _k: (v[:, 0]**2 * h[:, 1, 1] - v[:, 0] * v[:, 1] * h[:, 1, 0]), hessians=True)[0]
@@ -421,6 +424,7 @@ class KIntegral:
         # PhysRevB.45.10886 Hall effect formula with constant relaxation time over k.
         # In reality the relaxation times are different over k-space or even just for different spins in the same band. (PhysRev.97.647)
         # I canceled one e from sigma_0 with e^2 from sigma_H
+        A = np.asarray(A)
         V_EZ = abs(np.linalg.det(A * 1e-10))
         I = self.integrate_df_A(A, lambda _e, v, h, _k: np.einsum("ni,nij,nj->n", v, h, v) - np.einsum("nj,nj,nii->n", v, v, h), hessians=True)[0]
         I2 = self.integrate_df_A(A, lambda _e, v, _k: (v**2).sum(-1), hessians=False)[0]
@@ -450,6 +454,7 @@ class KIntegral:
         """
         # From the book "C. Hurd, The Hall Coeffcient of Metals and Alloys (Plenum, New York, 1972)"
         # Assuming constant relaxation time for now -> independent of it
+        A = np.asarray(A)
         V_EZ = abs(np.linalg.det(A * 1e-10))
         if isinstance(tau, float):
             tau_v = tau
-- 
2.43.0


From 05f3b5efb6ca19967248969c5a9b72ee98f7c23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:21 +0000
Subject: [PATCH 75/78] fix: SphereSmearing with gradients used wrong radii if
 only a part of the cell is sampled

---
 src/tight_binding_redweasel/smearing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tight_binding_redweasel/smearing.py b/src/tight_binding_redweasel/smearing.py
index 6ccf5a0..fa85afa 100644
--- a/src/tight_binding_redweasel/smearing.py
+++ b/src/tight_binding_redweasel/smearing.py
@@ -489,9 +489,9 @@ class SphereSmearing(SmearingMethod):
         else:
             # gradients are in k_space, we want them to remain there,
             # as the lattice is assumed to be well spaced in reciprocal space.
-            # that means the total volume is not 1, but np.linalg.det(B).
-            volume = abs(np.linalg.det(B))
-            cell_volume = volume / len(positions[...,0].flat)
+            # that means the total volume is not 1, but np.linalg.det(B) (or a part of it, if the positions only cover a part of the cell).
+            origin = positions[0,0,0]
+            cell_volume = abs(np.linalg.det([positions[1,0,0] - origin, positions[0,1,0] - origin, positions[0,0,1] - origin]))
             # to counteract that, one can scale the gradients
             self.grads = np.moveaxis(grads, -1, 0) * cell_volume**(1/3)
             self.values = values
-- 
2.43.0


From cd01059290848222ed68531540b270b7ab433885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:07 +0000
Subject: [PATCH 76/78] fix: UnitaryRepresentation.from_generator generated
 only a part of the group or failed for mirrors and floating point rotations

---
 .../unitary_representations.py                | 32 +++++++++++++------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/tight_binding_redweasel/unitary_representations.py b/src/tight_binding_redweasel/unitary_representations.py
index ea55166..1507a28 100644
--- a/src/tight_binding_redweasel/unitary_representations.py
+++ b/src/tight_binding_redweasel/unitary_representations.py
@@ -52,10 +52,12 @@ class UnitaryRepresentation:
         """
         Nk = len(S_G[0])
         N = len(U_G[0])
-        S = S_G.copy()
-        U = U_G.copy()
+        # the neutral element is part of every group
+        S_G, U_G = np.asarray(S_G), np.asarray(U_G)
+        S = [np.eye(Nk, dtype=S_G.dtype), *S_G]
+        U = [np.eye(N, dtype=U_G.dtype), *U_G]
         # exponentiate the group n times to form the full group
-        for _ in range(1000):
+        for i in range(1000):
             S_new = np.array(S)
             S_new = np.reshape(S_new.reshape(-1, 1, Nk, Nk) @ S_new.reshape(1, -1, Nk, Nk), (-1, Nk, Nk))
             U_new = np.array(U)
@@ -65,14 +67,14 @@ class UnitaryRepresentation:
             prev_len = len(S)
             S = {}
             for s, u in zip(S_new, U_new):
-                s_key = tuple([tuple(s_) for s_ in s])
+                s_key = tuple([tuple(s_) for s_ in np.round(s, 7) + 0.0])
                 if s_key in S:
                     # the symmetry already exists
                     # check if the U_new symmetry matches
                     u_existing = S[s_key][1]
-                    assert np.sum((u_existing - u)**2) < 1e-14
+                    assert np.sum(np.abs(u_existing - u)**2) < 1e-14
                 else:
-                    S[s_key] = (s_key, u)
+                    S[s_key] = (s, u)
             pairs = list(S.values())
             S = []
             U = []
@@ -80,11 +82,23 @@ class UnitaryRepresentation:
                 S.append(s)
                 U.append(u)
             assert len(S) < 1000 # limitation to avoid endless loops
-            if len(S) <= prev_len:
+            if i > 0 and len(S) <= prev_len:
                 break
-        u_repr = UnitaryRepresentation(_sym.Symmetry(np.array(S), inversion), N)
+        S, U = np.array(S), np.array(U)
+        sym = _sym.Symmetry(S, inversion)
+        if len(sym.S) > len(S):
+            # the inversion got added to the list (even dimensions)
+            U = np.concatenate([U, -U if negate_inversion else U], axis=0)
+        elif len(sym.S) < len(S):
+            # the inversion was part of the generated group and is handled separately (odd dimensions)
+            inv_U = U[np.argmin(np.linalg.norm(S + np.eye(Nk), axis=(-1, -2)))]
+            negate_inversion = np.real(inv_U[0, 0]) < 0
+            if np.max(np.abs(inv_U - (-1 if negate_inversion else 1) * np.eye(N))) > 1e-7:
+                raise ValueError("the inversion needs to be represented by 1 or -1")
+            U = U[np.linalg.det(S) > 0]
+        u_repr = UnitaryRepresentation(sym, N)
         u_repr.inv_split = 0 if negate_inversion else N
-        u_repr.U = np.array(U)
+        u_repr.U = U
         return u_repr
     
     def match_sym(self, sym: _sym.Symmetry):
-- 
2.43.0


From a39bb627c875bc33442b386020ca4c02c6e48549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:07 +0000
Subject: [PATCH 77/78] fix: sums of complex representations lost the imaginary
 part

---
 .../unitary_representations.py                       | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/tight_binding_redweasel/unitary_representations.py b/src/tight_binding_redweasel/unitary_representations.py
index 1507a28..9bb4d27 100644
--- a/src/tight_binding_redweasel/unitary_representations.py
+++ b/src/tight_binding_redweasel/unitary_representations.py
@@ -483,20 +483,16 @@ class UnitaryRepresentation:
         # one of the two representations must fully commit to -1 or 1 on inversion
         if self.inv_split == 0:
             # self is commited to -1 on inversion
-            for i, (u1, u2) in enumerate(zip(self.U, rhs.U)):
-                u_repr.U[i] = direct_sum(u2, u1)
+            u_repr.U = np.array([direct_sum(u2, u1) for u1, u2 in zip(self.U, rhs.U)])
         elif self.inv_split == self.dim():
             # self is commited to 1 on inversion
-            for i, (u1, u2) in enumerate(zip(self.U, rhs.U)):
-                u_repr.U[i] = direct_sum(u1, u2)
+            u_repr.U = np.array([direct_sum(u1, u2) for u1, u2 in zip(self.U, rhs.U)])
         elif rhs.inv_split == 0:
             # rhs is commited to -1 on inversion
-            for i, (u1, u2) in enumerate(zip(self.U, rhs.U)):
-                u_repr.U[i] = direct_sum(u1, u2)
+            u_repr.U = np.array([direct_sum(u1, u2) for u1, u2 in zip(self.U, rhs.U)])
         elif rhs.inv_split == rhs.dim():
             # rhs is commited to 1 on inversion
-            for i, (u1, u2) in enumerate(zip(self.U, rhs.U)):
-                u_repr.U[i] = direct_sum(u2, u1)
+            u_repr.U = np.array([direct_sum(u2, u1) for u1, u2 in zip(self.U, rhs.U)])
         else:
             raise ValueError("one of the added representations needs to full commit to 1 or -1 on inversion.")
         u_repr.inv_split = self.inv_split + rhs.inv_split
-- 
2.43.0


From adab298c85d6c274e84b8c483881f22838e3bd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:07 +0000
Subject: [PATCH 78/78] fix: symmetrizing lists, integer matrices or real
 matrices with complex representations failed

---
 src/tight_binding_redweasel/hamiltonian_symmetry.py    | 6 ++++--
 src/tight_binding_redweasel/unitary_representations.py | 9 ++++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/tight_binding_redweasel/hamiltonian_symmetry.py b/src/tight_binding_redweasel/hamiltonian_symmetry.py
index 1934eaa..5fd0974 100644
--- a/src/tight_binding_redweasel/hamiltonian_symmetry.py
+++ b/src/tight_binding_redweasel/hamiltonian_symmetry.py
@@ -312,7 +312,8 @@ class HamiltonianSymmetry:
         neighbors = np.asarray(neighbors)
         neighbor_func = _sym.try_neighbor_function(neighbors)
         
-        H_r = np.array(H_r)
+        H_r = np.asarray(H_r)
+        H_r = np.array(H_r, dtype=np.result_type(H_r.dtype, float, *[u.U.dtype for u in self.U]))
         for i, r in enumerate(neighbors):
             if np.linalg.norm(r) == 0:
                 H_r[i] = (H_r[i] + np.conj(H_r[i].T)) / 2
@@ -482,8 +483,9 @@ class HamiltonianSymmetry:
         #print("checksum: ", np.prod(reduced_table + 1, axis=-1).sum()) # checksum
         def symmetrizer_func(H_r):
             assert len(neighbors) == len(H_r)
+            H_r = np.asarray(H_r)
+            H_r = np.array(H_r, dtype=np.result_type(H_r.dtype, float, *[u.U.dtype for u in self.U]))
             if origin is not None:
-                H_r = np.array(H_r)
                 # this is the only matrix which is allowed to have its inverse in the parameterset
                 H_r[origin] = (H_r[origin] + np.conj(H_r[origin].T)) / 2
             # symmetrize just inversion
diff --git a/src/tight_binding_redweasel/unitary_representations.py b/src/tight_binding_redweasel/unitary_representations.py
index 9bb4d27..671592a 100644
--- a/src/tight_binding_redweasel/unitary_representations.py
+++ b/src/tight_binding_redweasel/unitary_representations.py
@@ -195,7 +195,8 @@ class UnitaryRepresentation:
         """
         if len(self.U) <= 1:
             return H_r # do nothing if self.U is empty, which stands for all U being the unit matrix
-        result = np.zeros_like(H_r) # all U_S are real, so no worries about type here
+        H_r = np.asarray(H_r)
+        result = np.zeros(H_r.shape, dtype=np.result_type(H_r.dtype, self.U.dtype, float))
         # add up all symmetries
         assert len(neighbors) == len(H_r) # TODO this doesn't match my definition without inversion symmetry...
         assert len(self.sym.S) == len(self.U)
@@ -322,7 +323,8 @@ class UnitaryRepresentation:
         # even though it has no for loops, just because of the size of the symmetry positions.
         # It is O(neighbor_representatives * sym)
         def symmetrizer_func(params):
-            result = np.zeros_like(params) # all U_S are real, so no worries about type here
+            params = np.asarray(params)
+            result = np.zeros(params.shape, dtype=np.result_type(params.dtype, self.U.dtype, float))
             assert len(neighbors) == len(params) # TODO this doesn't match my definition without inversion symmetry...
             # add up all symmetries
             # center case
@@ -373,7 +375,8 @@ class UnitaryRepresentation:
             arraylike(N_r, dim, dim): The changed M_r, which fullfils the subgroup symmetry.
         """
         count = np.zeros(len(r_smpl), dtype=np.int32)
-        result = np.zeros_like(M_r)
+        M_r = np.asarray(M_r)
+        result = np.zeros(M_r.shape, dtype=np.result_type(M_r.dtype, self.U.dtype, float))
         for sign in [-1, 1] if self.sym.inversion else [1]:
             if sign == 1:
                 # apply U_I (commutes with all other U_S)
-- 
2.43.0


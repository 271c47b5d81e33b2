From 64ed5498efd16e3134eebebe05d18c293bbd288c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:53 +0000
Subject: [PATCH 01/84] fix: backward MZI elements are the transpose of the
 forward ones for every phase style and splitter error

---
 simphox/circuit/forward.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index 6f873cc..59bf85e 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -684,13 +684,13 @@ def _parallel_mzi(theta: np.ndarray, phi: np.ndarray,
 
     if phase_style == PhaseStyle.TOP:
         t11 = (-ss + cc * xp.exp(1j * theta + il)) * xp.exp(1j * phi + ir)
-        t12 = 1j * (cs + sc * xp.exp(1j * theta + il)) * xp.exp((1j * phi + ir) * (1 - back))
-        t21 = 1j * (sc + cs * xp.exp(1j * theta + il)) * xp.exp((1j * phi + ir) * back)
+        t12 = 1j * (cs + sc * xp.exp(1j * theta + il)) * xp.exp(1j * phi + ir)
+        t21 = 1j * (sc + cs * xp.exp(1j * theta + il))
         t22 = (cc - ss * xp.exp(1j * theta + il))
     elif phase_style == PhaseStyle.BOTTOM:
         t11 = (-ss * xp.exp(1j * theta + il) + cc)
-        t12 = 1j * (cs * xp.exp(1j * theta + il) + sc) * xp.exp((1j * phi + ir) * back)
-        t21 = 1j * (sc * xp.exp(1j * theta + il) + cs) * xp.exp((1j * phi + ir) * (1 - back))
+        t12 = 1j * (cs * xp.exp(1j * theta + il) + sc)
+        t21 = 1j * (sc * xp.exp(1j * theta + il) + cs) * xp.exp(1j * phi + ir)
         t22 = (cc * xp.exp(1j * theta + il) - ss) * xp.exp(1j * phi + ir)
     elif phase_style == PhaseStyle.SYMMETRIC:
         t11 = (-ss + cc * xp.exp(1j * theta + il)) * xp.exp(1j * (phi - theta / 2) + ir)
@@ -698,13 +698,14 @@ def _parallel_mzi(theta: np.ndarray, phi: np.ndarray,
         t21 = 1j * (sc + cs * xp.exp(1j * theta + il)) * xp.exp(1j * (phi - theta / 2) + ir)
         t22 = (cc - ss * xp.exp(1j * theta + il)) * xp.exp(1j * (phi - theta / 2) + ir)
     elif phase_style == PhaseStyle.DIFFERENTIAL:
-        t11 = (-ss + cc * xp.exp(1j * theta + il)) * xp.exp(1j * ((-phi - theta) / 2 + phi * back) + ir)
-        t12 = 1j * (cs + sc * xp.exp(1j * theta + il)) * xp.exp(1j * ((-phi - theta) / 2 + phi * back) + ir)
-        t21 = 1j * (sc + cs * xp.exp(1j * theta + il)) * xp.exp(1j * ((phi - theta) / 2 - phi * back) + ir)
-        t22 = (cc - ss * xp.exp(1j * theta + il)) * xp.exp(1j * ((phi - theta) / 2 - phi * back) + ir)
+        t11 = (-ss + cc * xp.exp(1j * theta + il)) * xp.exp(1j * ((-phi - theta) / 2) + ir)
+        t12 = 1j * (cs + sc * xp.exp(1j * theta + il)) * xp.exp(1j * ((-phi - theta) / 2) + ir)
+        t21 = 1j * (sc + cs * xp.exp(1j * theta + il)) * xp.exp(1j * ((phi - theta) / 2) + ir)
+        t22 = (cc - ss * xp.exp(1j * theta + il)) * xp.exp(1j * ((phi - theta) / 2) + ir)
     else:
         raise ValueError(f"Phase style {phase_style} is not valid.")
-    return xp.array([t11, t12, t21, t22])
+    # light going backward sees the transpose of the forward 2x2 matrix (reciprocity)
+    return xp.array([t11, t21, t12, t22] if back else [t11, t12, t21, t22])
 
 
 def _parallel_dc(bs_errors: np.ndarray, loss_errors: np.ndarray, right: bool = False, use_jax: bool = False):
-- 
2.43.0


From a3ebeb7cb2e257218f60cf0cabad3999535ca0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:53 +0000
Subject: [PATCH 02/84] fix: aggregating circuits keeps their phase style

---
 simphox/circuit/forward.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index 59bf85e..cbd5508 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -146,7 +146,8 @@ class ForwardMesh:
                 all_nodes.append(obj)
             else:
                 all_nodes.extend(obj.nodes)
-        return cls(all_nodes)
+        phase_styles = [obj.phase_style for obj in nodes_or_node_lists if not isinstance(obj, CouplingNode)]
+        return cls(all_nodes, phase_styles[0] if phase_styles else PhaseStyle.TOP)
 
     @property
     def columns(self) -> List["ForwardMesh"]:
-- 
2.43.0


From a91effa043a6f26fd38257f35b3207a2a554b79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:53 +0000
Subject: [PATCH 03/84] fix: explicit propagation uses the same splitter errors
 and loss positions as the transfer matrix

---
 simphox/circuit/forward.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index cbd5508..1f88870 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -303,8 +303,11 @@ class ForwardMesh:
                 propagated.append(outputs.copy()[None])
 
             if explicit:
-                left = _parallel_dc(bs_errors, loss_errors, right=False, use_jax=use_jax)
-                right = _parallel_dc(bs_errors, loss_errors, right=True, use_jax=use_jax)
+                left = _parallel_dc(bs_errors, right=False, use_jax=use_jax)
+                right = _parallel_dc(bs_errors, right=True, use_jax=use_jax)
+                # the losses (in dB) are located at the theta and phi phase shifters
+                il, ir = np.log(10) * loss_errors.T / 20
+                thetas, phis = thetas - 1j * il, phis - 1j * ir
             else:
                 mzis = _parallel_mzi(thetas, phis, bs_errors, loss_errors, use_jax=use_jax, back=back, phase_style=self.phase_style)
 
@@ -709,7 +712,7 @@ def _parallel_mzi(theta: np.ndarray, phi: np.ndarray,
     return xp.array([t11, t21, t12, t22] if back else [t11, t12, t21, t22])
 
 
-def _parallel_dc(bs_errors: np.ndarray, loss_errors: np.ndarray, right: bool = False, use_jax: bool = False):
+def _parallel_dc(bs_errors: np.ndarray, right: bool = False, use_jax: bool = False):
     """This is a helper function for parallel directional couplers
     across all directional couplers in the mesh.
 
@@ -723,12 +726,11 @@ def _parallel_dc(bs_errors: np.ndarray, loss_errors: np.ndarray, right: bool = F
     """
     xp = jnp if use_jax else np
     right = int(right)
-    insertion = xp.exp(np.log(10) * loss_errors.T[right] / 20)
     errors = bs_errors.T[right]
-    t11 = insertion * xp.sin(np.pi / 4 + errors)
-    t12 = insertion * 1j * xp.cos(np.pi / 4 + errors)
-    t21 = 1j * xp.cos(np.pi / 4 + errors)
-    t22 = xp.sin(np.pi / 4 + errors)
+    t11 = xp.cos(np.pi / 4 + errors)
+    t12 = 1j * xp.sin(np.pi / 4 + errors)
+    t21 = 1j * xp.sin(np.pi / 4 + errors)
+    t22 = xp.cos(np.pi / 4 + errors)
     return xp.array([t11, t12, t21, t22])
 
 
-- 
2.43.0


From f15f74940c73889be733993d3c0d178896497f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:53 +0000
Subject: [PATCH 04/84] fix: non-explicit JAX propagation no longer passes
 unsupported arguments

---
 simphox/circuit/forward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index 1f88870..f1183dd 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -319,7 +319,7 @@ class ForwardMesh:
                                                    phase_style=self.phase_style, back=back, use_jax=True)
                 else:
                     def parallel_propagate(carry, idx):
-                        carry = _parallel_transform(carry, mzis, idx, phase_style=self.phase_style, back=back, use_jax=True)
+                        carry = _parallel_transform(carry, mzis, idx, use_jax=True)
                         return carry, carry[None]
                 outputs, _propagated = lax.scan(parallel_propagate, outputs, all_idx)
                 propagated.extend(_propagated)
-- 
2.43.0


From 9d2a9217bcb143802269ff6be2d31ae7639bb058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:53 +0000
Subject: [PATCH 05/84] fix: matrix function accepts real inputs and leaves the
 caller's array unchanged

---
 simphox/circuit/forward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index f1183dd..4c0eda6 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -203,7 +203,7 @@ class ForwardMesh:
         def matrix(params: Tuple[xp.ndarray, xp.ndarray, xp.ndarray] = self.params, inputs=xp.eye(self.n, dtype=np.complex64),
                    bs_errors=xp.array(self.all_errors, dtype=np.complex64), loss_errors=xp.array(self.all_losses, dtype=np.complex64)):
 
-            inputs += 0j  # cast to complex if not already
+            inputs = inputs + 0j  # cast to complex if not already
             thetas, phis, gammas = params
             outputs = xp.array(inputs[:, None].copy() if inputs.ndim == 1 else inputs.copy())
             mzis = _parallel_mzi(
-- 
2.43.0


From 442eae1054c09f7102b8adf4f0f622c1e220054f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:53 +0000
Subject: [PATCH 06/84] fix: parallel_mzi defaults phis to the phi parameters

---
 simphox/circuit/forward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index 4c0eda6..f15ea4d 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -543,7 +543,7 @@ class ForwardMesh:
     def parallel_mzi(self, thetas: np.ndarray = None, phis: np.ndarray = None, phase_style: PhaseStyle = None, use_jax: bool = False, back: bool = False):
         phase_style = self.phase_style if phase_style is None else phase_style
         thetas = self.params[0] if thetas is None else thetas
-        phis = self.params[0] if phis is None else phis
+        phis = self.params[1] if phis is None else phis
         return _parallel_mzi(thetas, phis, self.all_errors, self.all_losses, phase_style, use_jax, back)
 
     @property
-- 
2.43.0


From e12231514b6b109316a090d9f4668f0a112ec7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:53 +0000
Subject: [PATCH 07/84] fix: in-situ gradients are localized to the right arm
 and ordered by node index

---
 simphox/circuit/forward.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index f15ea4d..92ed8c4 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -527,16 +527,21 @@ class ForwardMesh:
 
     def phase_shift_localize(self, prop_powers: np.ndarray, use_jax: bool = True):
         xp = jnp if use_jax else np
+        columns = self.columns
+        # the phase shifters are in the bottom arms for the BOTTOM phase style, in the top arms otherwise
+        rails = [nc.bottom if self.phase_style == PhaseStyle.BOTTOM else nc.top for nc in columns]
+        # the powers are collected column by column, the phases are ordered by node index
+        order = np.argsort(np.hstack([nc.node_idxs for nc in columns]))
         if prop_powers.ndim == 3:
             return (
-                xp.vstack([prop_powers[i * 4 + 2, nc.top] for i, nc in enumerate(self.columns)]).sum(axis=-1),
-                xp.vstack([prop_powers[i * 4, nc.top] for i, nc in enumerate(self.columns)]).sum(axis=-1),
+                xp.vstack([prop_powers[i * 4 + 2, np.array(r)] for i, r in enumerate(rails)]).sum(axis=-1)[order],
+                xp.vstack([prop_powers[i * 4, np.array(r)] for i, r in enumerate(rails)]).sum(axis=-1)[order],
                 prop_powers[-1].sum(axis=-1)
             )
         elif prop_powers.ndim == 2:
             return (
-                xp.hstack([prop_powers[i * 4 + 2, nc.top] for i, nc in enumerate(self.columns)]),
-                xp.hstack([prop_powers[i * 4, nc.top] for i, nc in enumerate(self.columns)]),
+                xp.hstack([prop_powers[i * 4 + 2, np.array(r)] for i, r in enumerate(rails)])[order],
+                xp.hstack([prop_powers[i * 4, np.array(r)] for i, r in enumerate(rails)])[order],
                 prop_powers[-1]
             )
 
-- 
2.43.0


From 431264136d2ce65907f958c4333a31282a6058ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 08/84] fix: splitter errors and losses are paired with the
 phases of their own coupler

---
 simphox/circuit/forward.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index 92ed8c4..80d4a97 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -47,12 +47,14 @@ class ForwardMesh:
         self.bottom = [int(node.bottom) for node in self.nodes]
         self.bs_errors = np.array([node.bs_error for node in self.nodes])
         self.losses = np.array([node.loss for node in self.nodes])
-        self.mzi_terms = _mzi_terms(self.all_errors)
         self.node_idxs = [node.node_id for node in self.nodes]
         if np.sum(self.node_idxs) == 0:
             self.node_idxs = np.arange(len(self.nodes)).tolist()
             for node, idx in zip(self.nodes, self.node_idxs):
                 node.node_id = idx
+        # phases are indexed by node_id, so the errors acting on them are ordered the same way (see all_errors)
+        self.node_order = np.argsort(self.node_idxs, kind='stable')
+        self.mzi_terms = _mzi_terms(self.all_errors)
         self.n = self.nodes[0].n if len(self.nodes) > 0 else 1
         self.alpha = np.array([node.alpha for node in self.nodes])
         self.beta = np.array([node.beta for node in self.nodes])
@@ -118,7 +120,7 @@ class ForwardMesh:
             A randomly initialized :code:`s`.
 
         """
-        return betaincinv(self.beta, self.alpha, np.random.rand(self.num_nodes))
+        return betaincinv(self.beta, self.alpha, np.random.rand(self.num_nodes))[self.node_order]
 
     def rand_theta(self):
         """Randomly initialized coupling phase :math:`\\theta`.
@@ -164,7 +166,7 @@ class ForwardMesh:
         nodes_by_column = defaultdict(list)
         for node in self.nodes:
             nodes_by_column[node.column].append(node)
-        return [ForwardMesh(nodes_by_column[column], phase_style=self.phase_style)
+        return [ForwardMesh(sorted(nodes_by_column[column], key=lambda node: node.node_id), phase_style=self.phase_style)
                 for column in range(self.num_columns)]
 
     def matrix(self, params: Optional[np.ndarray] = None, back: bool = False):
@@ -612,9 +614,9 @@ class ForwardMesh:
     @property
     def all_errors(self):
         if (self.bs_errors.ndim == 1 or self.bs_errors.shape[-1] == 1) and self.bs_errors.size == self.num_nodes:
-            return np.hstack((self.bs_errors, self.bs_errors))
+            return np.hstack((self.bs_errors, self.bs_errors))[self.node_order]
         elif self.bs_errors.shape[-1] == 2 and self.bs_errors.size == self.num_nodes * 2:
-            return self.bs_errors
+            return self.bs_errors[self.node_order]
         else:
             raise AttributeError(f"Losses should have size "
                                  f"({self.bs_errors.shape[-1]}, [1 or 2]).")
@@ -622,9 +624,9 @@ class ForwardMesh:
     @property
     def all_losses(self):
         if (self.losses.ndim == 1 or self.losses.shape[-1] == 1) and self.losses.size == self.num_nodes:
-            return np.hstack((self.losses, self.losses))
+            return np.hstack((self.losses, self.losses))[self.node_order]
         elif self.losses.shape[-1] == 2 and self.losses.size == self.num_nodes * 2:
-            return self.losses
+            return self.losses[self.node_order]
         else:
             raise AttributeError(f"Losses should have size "
                                  f"({self.losses.shape[-1]}, [1 or 2]).")
-- 
2.43.0


From 5c3d77c158e0e6faffe9a633e9ba687a41e2f4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 09/84] fix: coupler matrix places its losses at the theta and
 phi phase shifters like the circuit

---
 simphox/circuit/coupling.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/simphox/circuit/coupling.py b/simphox/circuit/coupling.py
index 7e0c266..f17c231 100644
--- a/simphox/circuit/coupling.py
+++ b/simphox/circuit/coupling.py
@@ -129,7 +129,9 @@ class CouplingNode:
             Tunable MMI node matrix embedded in an :math:`N`-waveguide system.
 
         """
-        mat = self.dc(right=True) @ phase_matrix(theta) @ self.dc(right=False) @ phase_matrix(phi)
+        # the losses are located at the theta and phi phase shifters
+        theta_loss, phi_loss = (np.diag([loss2insertion(loss_db), 1]) for loss_db in self.loss)
+        mat = self.dc(right=True) @ theta_loss @ phase_matrix(theta) @ self.dc(right=False) @ phi_loss @ phase_matrix(phi)
         return _embed_2x2(mat, self.n, self.top, self.bottom) if embed else mat
 
     def phase_matrix(self, top: float = 0, bottom: float = 0):
@@ -156,9 +158,8 @@ class CouplingNode:
 
         """
         error = self.bs_error[right]
-        insertion = loss2insertion(self.loss[right])
         return np.array([
-            [np.cos(np.pi / 4 + error) * insertion, 1j * np.sin(np.pi / 4 + error) * insertion],
+            [np.cos(np.pi / 4 + error), 1j * np.sin(np.pi / 4 + error)],
             [1j * np.sin(np.pi / 4 + error), np.cos(np.pi / 4 + error)]
         ])
 
-- 
2.43.0


From e6e3e161f86939fb4d4536876609af799396354b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 10/84] fix: MMI coupler matrix uses the coupler's error and
 loss and has cosine self-coupling on both rails

---
 simphox/circuit/coupling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simphox/circuit/coupling.py b/simphox/circuit/coupling.py
index f17c231..59bc4c0 100644
--- a/simphox/circuit/coupling.py
+++ b/simphox/circuit/coupling.py
@@ -28,7 +28,7 @@ def coupling_matrix_phase(theta: float, split_error: float = 0, loss_error: floa
     insertion = loss2insertion(loss_error)
     return np.array([
         [insertion * np.cos(theta / 2 + split_error / 2), insertion * 1j * np.sin(theta / 2 + split_error / 2)],
-        [1j * np.sin(theta / 2 + split_error / 2), np.sin(theta / 2 + split_error / 2)]
+        [1j * np.sin(theta / 2 + split_error / 2), np.cos(theta / 2 + split_error / 2)]
     ])
 
 
@@ -175,7 +175,7 @@ class CouplingNode:
             Tunable MMI node matrix embedded in an :math:`N`-waveguide system.
 
         """
-        mat = coupling_matrix_phase(theta, self.bs_error, self.loss) @ phase_matrix(phi)
+        mat = coupling_matrix_phase(theta, self.bs_error[0], self.loss[0]) @ phase_matrix(phi)
         return _embed_2x2(mat, self.n, self.top, self.bottom) if embed else mat
 
     def nullify(self, vector: np.ndarray, idx: int, lower_theta: bool = False, lower_phi: bool = False):
-- 
2.43.0


From e2355f2222a6cd202a35734a2089b70b0a85b18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:13 +0000
Subject: [PATCH 11/84] fix: propagate without inputs uses the identity matrix

---
 simphox/circuit/forward.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index 80d4a97..eeeb48f 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -435,7 +435,8 @@ class ForwardMesh:
             Propagated fields
 
         """
-        return self.propagate_matrix_fn(back=back, column_cutoff=column_cutoff, explicit=explicit, use_jax=False)(inputs=inputs)
+        propagate_matrix = self.propagate_matrix_fn(back=back, column_cutoff=column_cutoff, explicit=explicit, use_jax=False)
+        return propagate_matrix() if inputs is None else propagate_matrix(inputs=inputs)
 
     @property
     def nullification_basis(self):
-- 
2.43.0


From 5758f4be6fae57cda784f4ae52822fb76e710bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:25 +0000
Subject: [PATCH 12/84] fix: circuits with unoccupied columns (rows of a
 rectangle) can be column-ordered

---
 simphox/circuit/forward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index eeeb48f..0bb27fb 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -167,7 +167,7 @@ class ForwardMesh:
         for node in self.nodes:
             nodes_by_column[node.column].append(node)
         return [ForwardMesh(sorted(nodes_by_column[column], key=lambda node: node.node_id), phase_style=self.phase_style)
-                for column in range(self.num_columns)]
+                for column in range(self.num_columns) if column in nodes_by_column]
 
     def matrix(self, params: Optional[np.ndarray] = None, back: bool = False):
         return self.matrix_fn(back=back)(self.params if params is None else params)
-- 
2.43.0


From c0b6a59c55fd463f9f695b36bb2e4894a4fb4279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 13/84] fix: programming a vector unit does not depend on the
 scale of the vector

---
 simphox/circuit/vector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simphox/circuit/vector.py b/simphox/circuit/vector.py
index e552349..aede15e 100644
--- a/simphox/circuit/vector.py
+++ b/simphox/circuit/vector.py
@@ -125,12 +125,13 @@ def _program_vector_unit(v: np.ndarray, network: ForwardMesh):
     phis = np.zeros(v.shape[0] - 1)
     w = v.copy()
     w = w[:, np.newaxis] if w.ndim == 1 else w
+    norm = np.linalg.norm(w[:, -1]) or 1.  # split ratios do not depend on the scale of the vector
     for nc in network.columns:
         # grab the elements for the top and bottom arms of the mzi.
         top = w[nc.top]
         bottom = w[nc.bottom]
 
-        theta, phi = nc.parallel_nullify(w, network.mzi_terms)
+        theta, phi = nc.parallel_nullify(w / norm, network.mzi_terms)
 
         # Vectorized (efficient!) parallel mzi elements
         t11, t12, t21, t22 = nc.parallel_mzi(theta, phi)
-- 
2.43.0


From d1a2b6951408353ae2e5972a91ef10cae17c8b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 14/84] fix: vector units embedded in more rails have one
 output phase per rail

---
 simphox/circuit/matrix.py | 2 +-
 simphox/circuit/vector.py | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/simphox/circuit/matrix.py b/simphox/circuit/matrix.py
index 8008dfa..3b7c871 100644
--- a/simphox/circuit/matrix.py
+++ b/simphox/circuit/matrix.py
@@ -47,7 +47,7 @@ def cascade(u: np.ndarray, balanced: bool = True, phase_style: str = PhaseStyle.
         # Update the phases.
         thetas = np.hstack((thetas, network.thetas))
         phis = np.hstack((phis, network.phis))
-        gammas = np.hstack((network.gammas[-1], gammas))
+        gammas = np.hstack((network.gammas[i], gammas))
 
         # We need to index the thetas and phis correctly based on the number of programmed nodes in previous subunits
         # For unbalanced architectures (linear chains), we can actually pack them more efficiently into a triangular
diff --git a/simphox/circuit/vector.py b/simphox/circuit/vector.py
index aede15e..78c2bce 100644
--- a/simphox/circuit/vector.py
+++ b/simphox/circuit/vector.py
@@ -152,8 +152,9 @@ def _program_vector_unit(v: np.ndarray, network: ForwardMesh):
         thetas[nc.node_idxs] = theta
         phis[nc.node_idxs] = np.mod(phi, 2 * np.pi)
 
-    final_basis_vec = np.zeros(v.shape[0])
-    final_basis_vec[-1] = 1
+    # one output phase per rail, the vector is routed to its own last rail
+    final_basis_vec = np.zeros(network.n)
+    final_basis_vec[v.shape[0] - 1] = 1
     gammas = -np.angle(final_basis_vec * w[-1, -1])
 
     network.params = thetas, phis, gammas
-- 
2.43.0


From 862842d74fe7c041f6e3d8086b4e9833fd6eeccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:40 +0000
Subject: [PATCH 15/84] fix: nullification phases account for unequal left and
 right splitter errors

---
 simphox/circuit/forward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index 0bb27fb..6f40e29 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -501,7 +501,7 @@ class ForwardMesh:
             phi = np.angle(top[:, -1]) - np.angle(bottom[:, -1]) + np.pi
         else:
             phi = np.angle(bottom[:, -1]) - np.angle(top[:, -1])
-        phi += np.angle(-ss + cc * np.exp(-1j * theta)) - np.angle(1j * (cs + np.exp(-1j * theta) * sc))
+        phi += np.angle(-ss + cc * np.exp(-1j * theta)) - np.angle(1j * (sc + np.exp(-1j * theta) * cs))
         return theta, phi
 
     @property
-- 
2.43.0


From 737d4c6a25a9fe40357078c27a3f806600aed195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:40 +0000
Subject: [PATCH 16/84] fix: nullification of differential phase style circuits

---
 simphox/circuit/forward.py | 7 +++++--
 simphox/circuit/vector.py  | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index 6f40e29..4102966 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -476,7 +476,7 @@ class ForwardMesh:
             vector = self.propagate(w.copy(), column_cutoff=nc.column_by_node[0], explicit=False)[-1]
             theta, phi = nc.parallel_nullify(vector, self.mzi_terms)
             self.thetas[nc.node_idxs] = theta
-            self.phis[nc.node_idxs] = np.mod(phi, 2 * np.pi)
+            self.phis[nc.node_idxs] = phi
 
     def parallel_nullify(self, vector: np.ndarray, mzi_terms: np.ndarray):
         """Assuming the mesh is a column, this method runs a parallel nullify algorithm to set up
@@ -502,7 +502,10 @@ class ForwardMesh:
         else:
             phi = np.angle(bottom[:, -1]) - np.angle(top[:, -1])
         phi += np.angle(-ss + cc * np.exp(-1j * theta)) - np.angle(1j * (sc + np.exp(-1j * theta) * cs))
-        return theta, phi
+        if self.phase_style == PhaseStyle.DIFFERENTIAL:
+            phi = -phi  # a positive differential phase delays the top arm
+        # the half phases of the DIFFERENTIAL style are not periodic, so return the phase that will be stored
+        return theta, np.mod(phi, 2 * np.pi)
 
     @property
     def params(self):
diff --git a/simphox/circuit/vector.py b/simphox/circuit/vector.py
index 78c2bce..c08c2e1 100644
--- a/simphox/circuit/vector.py
+++ b/simphox/circuit/vector.py
@@ -150,7 +150,7 @@ def _program_vector_unit(v: np.ndarray, network: ForwardMesh):
 
         # The resulting thetas and phis, indexed according to the coupling network specifications
         thetas[nc.node_idxs] = theta
-        phis[nc.node_idxs] = np.mod(phi, 2 * np.pi)
+        phis[nc.node_idxs] = phi
 
     # one output phase per rail, the vector is routed to its own last rail
     final_basis_vec = np.zeros(network.n)
-- 
2.43.0


From 6e57a140944073c7aa9fe232528ddba16d988526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:03 +0000
Subject: [PATCH 17/84] fix: in-situ input gradient keeps the scale of the
 output gradient

---
 simphox/circuit/forward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index 4102966..c2bd6bb 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -414,7 +414,7 @@ class ForwardMesh:
 
             # returns the grad powers at the various gradient positions and adjoint inputs (needed to propagate errors backward to prev layer)
             # assumes bs errors and loss errors are not modifiable (zero backpropagated gradients for those!)
-            return (self.phase_shift_localize(grad_powers / 2 * (inorm * gnorm)), adjoint_inputs, jnp.zeros_like(bs_errors), jnp.zeros_like(loss_errors))
+            return (self.phase_shift_localize(grad_powers / 2 * (inorm * gnorm)), adjoint_inputs * gnorm, jnp.zeros_like(bs_errors), jnp.zeros_like(loss_errors))
 
         matrix.defvjp(matrix_fwd, matrix_bwd)
         return matrix
-- 
2.43.0


From 98f5fc575df218a923cf8bc32621b7c3132d41c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:03 +0000
Subject: [PATCH 18/84] fix: in-situ gradient of a block with a single input
 column

---
 simphox/circuit/forward.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index c2bd6bb..b80297c 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -390,7 +390,7 @@ class ForwardMesh:
 
             if all_analog:
                 # instead of using digital subtraction of backpropagating signals, use only forward prop'd signal
-                adjoint_inputs = backward_matrix_fn(params, g, bs_errors, loss_errors).squeeze()
+                adjoint_inputs = backward_matrix_fn(params, g, bs_errors, loss_errors).reshape(inputs.shape)
                 adjoint_inputs_abs = jnp.abs(jnp.abs(adjoint_inputs) * (1 + io_amp_error_std * np.random.randn(*adjoint_inputs.shape)))
                 adjoint_inputs_phase = jnp.angle(adjoint_inputs) + io_phase_error_std * np.random.randn(*adjoint_inputs.shape) * np.pi
                 adjoint_inputs = adjoint_inputs_abs * jnp.exp(1j * adjoint_inputs_phase)
@@ -404,7 +404,7 @@ class ForwardMesh:
             else:
                 forward = forward_prop_fn(params, inputs, bs_errors, loss_errors)
                 adjoint = backward_prop_fn(params, g, bs_errors, loss_errors)[::-1]
-                adjoint_inputs = adjoint[0]
+                adjoint_inputs = adjoint[0].reshape(inputs.shape)
                 sum = forward_prop_fn(params, inputs - 1j * jnp.conj(adjoint_inputs), bs_errors, loss_errors)
                 sum_abs, forward_abs, adjoint_abs = jnp.abs(sum), jnp.abs(forward), jnp.abs(adjoint)
                 sum_meas = sum_abs ** 2 + tap_pd_shot_noise * sum_abs * np.random.randn(*forward.shape)
-- 
2.43.0


From 6b1678634aaf43fdfeb2d32b8c9ccd11611fede3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:03 +0000
Subject: [PATCH 19/84] fix: in-situ gradient vanishes, instead of being
 undefined, for zero inputs or output gradients

---
 simphox/circuit/forward.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index b80297c..215fea1 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -385,8 +385,9 @@ class ForwardMesh:
             inorm = jnp.max(jnp.linalg.norm(inputs, axis=-1))
             gnorm = jnp.max(jnp.linalg.norm(g, axis=-1))
 
-            inputs /= inorm
-            g /= gnorm
+            # avoid dividing by zero in the case the inputs or the gradient vanish
+            inputs = inputs / jnp.where(inorm == 0, 1, inorm)
+            g = g / jnp.where(gnorm == 0, 1, gnorm)
 
             if all_analog:
                 # instead of using digital subtraction of backpropagating signals, use only forward prop'd signal
-- 
2.43.0


From 5bad3555655484cc3da4fd99f4db3cb4ea3839ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:37 +0000
Subject: [PATCH 20/84] fix: Hessian of a vector unit had its theta-phi blocks
 transposed

---
 simphox/circuit/vector.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simphox/circuit/vector.py b/simphox/circuit/vector.py
index c08c2e1..f4932c0 100644
--- a/simphox/circuit/vector.py
+++ b/simphox/circuit/vector.py
@@ -259,7 +259,7 @@ def hessian_vector_unit(v: np.ndarray, balanced: bool = True):
         theta_phi[..., nid][(mesh.nodes[i].top_descendants,)] = mesh.pn[(mesh.nodes[i].top_descendants,)]
         phi_theta[nid][(mesh.nodes[i].top_descendants,)] = mesh.pnsn[(mesh.nodes[i].top_descendants,)]
         phi_theta[nid][(mesh.nodes[i].bot_descendants,)] = mesh.pnsn[(mesh.nodes[i].bot_descendants,)]
-    h = np.block([[theta_theta, (theta_phi + phi_theta).T], [(theta_phi + phi_theta), phi_phi]])
+    h = np.block([[theta_theta, (theta_phi + phi_theta)], [(theta_phi + phi_theta).T, phi_phi]])
     return h
 
 
@@ -310,9 +310,9 @@ def hessian_fd(v: np.ndarray, error=0.0001, balanced=False):
             theta_phi_nn = (mesh.thetas - e[i], mesh.phis - e[j], mesh.gammas)
             h[i, j] = np.real(err(theta_pp) + err(theta_nn) - err(theta_pn) - err(theta_np)) / (4 * error ** 2)
             h[i + n - 1, j + n - 1] = np.real(err(phi_pp) + err(phi_nn) - err(phi_pn) - err(phi_np)) / (4 * error ** 2)
-            h[i + n - 1, j] = np.real(err(theta_phi_pp) + err(theta_phi_nn) - err(theta_phi_pn) - err(theta_phi_np)) / (
+            h[i, j + n - 1] = np.real(err(theta_phi_pp) + err(theta_phi_nn) - err(theta_phi_pn) - err(theta_phi_np)) / (
                 4 * error ** 2)
-            h[j, i + n - 1] = h[i + n - 1, j]
+            h[j + n - 1, i] = h[i, j + n - 1]
     return h
 
 
-- 
2.43.0


From e343a149751dcc4baad7fa3a228a4510ae3cb575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:53 +0000
Subject: [PATCH 21/84] fix: Grid edits modified the permittivity array
 supplied by the caller

---
 simphox/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/grid.py b/simphox/grid.py
index 2c26331..ee05969 100644
--- a/simphox/grid.py
+++ b/simphox/grid.py
@@ -73,7 +73,7 @@ class Grid:
         self.field_shape = (3, *self.shape3)
 
         self.n = np.prod(self.shape)
-        self.eps: np.ndarray = np.ones(self.shape) * eps if not isinstance(eps, np.ndarray) else eps
+        self.eps: np.ndarray = np.ones(self.shape) * eps if not isinstance(eps, np.ndarray) else eps.copy()
         if not tuple(self.shape) == self.eps.shape:
             raise AttributeError(f'Require grid.shape == eps.shape but got '
                                  f'{self.shape} != {self.eps.shape}')
-- 
2.43.0


From cb04dbf4f90695d8f07d90cee3b0b84b6e04199f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:53 +0000
Subject: [PATCH 22/84] fix: boxes reaching below the grid edge covered no
 cells or the wrong ones

---
 simphox/grid.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/simphox/grid.py b/simphox/grid.py
index ee05969..23cd1eb 100644
--- a/simphox/grid.py
+++ b/simphox/grid.py
@@ -206,9 +206,12 @@ class Grid:
         # if s0 == s1 == s2 == 0:
         #     raise ValueError(f"Require the size result in a nonzero-sized shape, but got a single point in the grid"
         #                      f"(i.e., the size {size} may be less than the spacing {self.spacing3})")
-        return (slice(c[0] - s0, c[0] - s0 + shape[0]) if shape[0] > 0 else c0,
-                slice(c[1] - s1, c[1] - s1 + shape[1]) if shape[1] > 0 else c1,
-                slice(c[2] - s2, c[2] - s2 + shape[2]) if shape[2] > 0 else c2)
+        # a box reaching below the grid is cut at the grid's edge (negative indices would wrap around)
+        start = [max(c[0] - s0, 0), max(c[1] - s1, 0), max(c[2] - s2, 0)]
+        stop = [max(c[0] - s0 + shape[0], 0), max(c[1] - s1 + shape[1], 0), max(c[2] - s2 + shape[2], 0)]
+        return (slice(start[0], stop[0]) if shape[0] > 0 else c0,
+                slice(start[1], stop[1]) if shape[1] > 0 else c1,
+                slice(start[2], stop[2]) if shape[2] > 0 else c2)
 
     def view_fn(self, center: Size3, size: Size3, use_jax: bool = True):
         """Return a function that views a field at specific region.
-- 
2.43.0


From ee3218db979eef347b78a01eeb61d557884f3470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:53 +0000
Subject: [PATCH 23/84] fix: set_eps and mask dropped grid axes of one pixel

---
 simphox/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simphox/grid.py b/simphox/grid.py
index 23cd1eb..df7e558 100644
--- a/simphox/grid.py
+++ b/simphox/grid.py
@@ -145,7 +145,7 @@ class Grid:
         s = self.slice(center, size, squeezed=True)
         eps_3d = self.eps.reshape(self.shape3)
         eps_3d[s] = eps
-        self.eps = eps_3d.squeeze()
+        self.eps = eps_3d.reshape(self.shape)
         return self
 
     def mask(self, center: Size3, size: Size3):
@@ -163,7 +163,7 @@ class Grid:
         s = self.slice(center, size, squeezed=True)
         mask = np.zeros(self.shape3)
         mask[s] = 1
-        return mask.squeeze()
+        return mask.reshape(self.shape)
 
     def reshape(self, v: np.ndarray) -> np.ndarray:
         """A simple method to reshape flat 3d field array into the grid shape
-- 
2.43.0


From b220571d5fbd7a23c07b0515c2280ceef8dc4ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:53 +0000
Subject: [PATCH 24/84] fix: Grid.add used the x and y spacings for z and
 required z extents in 2D

---
 simphox/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simphox/grid.py b/simphox/grid.py
index df7e558..b7139a9 100644
--- a/simphox/grid.py
+++ b/simphox/grid.py
@@ -124,8 +124,9 @@ class Grid:
         if self.ndim == 2:
             self.eps[mask == 1] = eps
         else:
-            zidx = (int(zmin / self.spacing[0]), int((zmin + thickness) / self.spacing[1]))
+            zidx = (int(zmin / self.spacing[2]), int((zmin + thickness) / self.spacing[2]))
             self.eps[mask == 1, zidx[0]:zidx[1]] = eps
+        zmin, thickness = zmin or 0, thickness or 0  # not required for 2D grids
         self.port = {port_name: Port(*port.xya, port.w, zmin + thickness / 2, thickness)
                      for port_name, port in component.port.items()}
         return self
-- 
2.43.0


From 3b61009944a13c1416ab48af3c6f0f19a45418ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:53 +0000
Subject: [PATCH 25/84] fix: block_design erased the rib when there is no
 substrate

---
 simphox/grid.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/simphox/grid.py b/simphox/grid.py
index b7139a9..27c09a7 100644
--- a/simphox/grid.py
+++ b/simphox/grid.py
@@ -302,9 +302,12 @@ class Grid:
             The resulting :code:`Grid` with the modified :code:`eps` property.
 
         """
+        if sub_height <= 0:
+            self.fill(sub_height, sub_eps)
         if rib_y > 0:
             self.fill(rib_y + sub_height, waveguide.eps)
-        self.fill(sub_height, sub_eps)
+        if sub_height > 0:
+            self.fill(sub_height, sub_eps)
         waveguide.align(self.center)
         if wg_height:
             waveguide.valign(wg_height)
-- 
2.43.0


From 38217938b800ad45ec9003554069047ae32694cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:06 +0000
Subject: [PATCH 26/84] fix: absorbing layers used np.int, which NumPy no
 longer has

---
 simphox/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/grid.py b/simphox/grid.py
index 27c09a7..4255c62 100644
--- a/simphox/grid.py
+++ b/simphox/grid.py
@@ -347,7 +347,7 @@ class YeeGrid(Grid):
         super(YeeGrid, self).__init__(size, spacing, eps)
         self.pml = pml
         self.pml_sep = pml_sep
-        self.pml_shape = pml if pml is None else (np.asarray(pml, dtype=float) / self.spacing).astype(np.int)
+        self.pml_shape = pml if pml is None else (np.asarray(pml, dtype=float) / self.spacing).astype(int)
         self.pml_params = pml_params
         self.name = name
         if self.pml_shape is not None:
-- 
2.43.0


From de9f62378cb90f212d94fdaada32cedf87724255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:06 +0000
Subject: [PATCH 27/84] fix: TM operator gradient used np.float, which NumPy no
 longer has

---
 simphox/primitives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/primitives.py b/simphox/primitives.py
index a6f84d6..0c543b2 100644
--- a/simphox/primitives.py
+++ b/simphox/primitives.py
@@ -105,7 +105,7 @@ class TMOperator:
             return te(t), None
 
         def te_bwd(_, g):
-            v = hcb.call(_te_backward_hcb, g, result_shape=jax.ShapeDtypeStruct((n,), np.float))
+            v = hcb.call(_te_backward_hcb, g, result_shape=jax.ShapeDtypeStruct((n,), np.float64))
             return v,
 
         te.defvjp(te_fwd, te_bwd)
-- 
2.43.0


From 6bd27a8ec6ed3fa49becda93325b94df174915ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:06 +0000
Subject: [PATCH 28/84] fix: mask of several boxes used np.float, which NumPy
 no longer has

---
 simphox/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/transform.py b/simphox/transform.py
index 7578d44..3895baf 100644
--- a/simphox/transform.py
+++ b/simphox/transform.py
@@ -70,5 +70,5 @@ def get_mask_fn(rho_init: jnp.ndarray, box: Union[Box, List[Box]]):
         The mask function
 
     """
-    mask = box.mask(rho_init) if isinstance(box, Box) else (sum([b.mask(rho_init) for b in box]) > 0).astype(np.float)
+    mask = box.mask(rho_init) if isinstance(box, Box) else (sum([b.mask(rho_init) for b in box]) > 0).astype(float)
     return lambda rho: jnp.array(rho_init) * (1 - mask) + rho * mask
-- 
2.43.0


From 2a39c010d61f1168ef86618ce75a3d5fd1bc315b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:45 +0000
Subject: [PATCH 29/84] fix: port measurements mixed up port orientations and
 dropped all but one mode per port

---
 simphox/sim.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/simphox/sim.py b/simphox/sim.py
index 72c3066..d675e76 100644
--- a/simphox/sim.py
+++ b/simphox/sim.py
@@ -141,7 +141,7 @@ class SimGrid(YeeGrid):
         """
 
         excitation = self.parse_excitation(excitation)
-        port_names = {e[0] for e in excitation}
+        port_names = list(dict.fromkeys(e[0] for e in excitation))
         num_modes = {name: np.max([mode_idx for port_name, mode_idx in excitation if port_name == name]) + 1
                      for name in port_names}
         return {name: self.modes(center=self.pml_safe_placement(self.port[name].xyz),
@@ -210,9 +210,8 @@ class SimGrid(YeeGrid):
         # Set up the port profiles for measurement at each port (by default assumes single mode waveguides)
         measure_port = self.parse_excitation(measure_port)
         port_to_modes = self.port_modes(measure_port, profile_size_factor, wavelength)
-        ports = port_to_modes.keys()
-        port_nums = np.arange(len(ports))
-        angles = [self.port[port].a for port in ports]
+        port_nums = np.arange(len(measure_port))
+        angles = [self.port[port].a for port, _ in measure_port]
         # We measure polarity, which is the orientation of the measurement interface
         # to determine whether the wave is entering or leaving the device
         # The polarity below assumes that ports are near edge of simulation.
-- 
2.43.0


From 9c07542b73e237d4fb7112c92f103658dffc233e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:45 +0000
Subject: [PATCH 30/84] fix: mode solver filtered propagation constants twice
 when some modes are evanescent

---
 simphox/mode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/mode.py b/simphox/mode.py
index e075247..b42b02f 100644
--- a/simphox/mode.py
+++ b/simphox/mode.py
@@ -203,7 +203,7 @@ class ModeSolver(YeeGrid):
 
         h = h.T
         # max_phase_ref = np.array([h[i, idx] for i, idx in enumerate(np.argmax(np.abs(h), axis=1))])[:, np.newaxis]
-        return np.sqrt(eigvals[useful_modes].real), h * np.exp(-1j * np.angle(h[:, :1]))
+        return np.sqrt(eigvals.real), h * np.exp(-1j * np.angle(h[:, :1]))
 
     def dispersion_sweep(self, wavelengths: np.ndarray, m: int = 6, pbar: Callable = None):
         """Dispersion sweep for cross sectional modes
-- 
2.43.0


From 32eb1f72fe2b1eac60ce010b72efd6ad002ed6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:45 +0000
Subject: [PATCH 31/84] fix: dispersion sweep used the wavelengths as
 propagation constant guesses (and could not iterate)

---
 simphox/mode.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/simphox/mode.py b/simphox/mode.py
index b42b02f..3c4a9f1 100644
--- a/simphox/mode.py
+++ b/simphox/mode.py
@@ -218,9 +218,11 @@ class ModeSolver(YeeGrid):
 
         """
         solutions = []
-        pbar = range if pbar is None else pbar
-        for wavelength in pbar(wavelengths):
-            solutions.append(self.solve(m, wavelength))
+        initial_wavelength = self.wavelength
+        for wavelength in (wavelengths if pbar is None else pbar(wavelengths)):
+            self.wavelength = wavelength
+            solutions.append(self.solve(m))
+        self.wavelength = initial_wavelength
         return solutions
 
 
-- 
2.43.0


From b83a7e92dbe61ddf88e595fac3dfcebafe205aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:45 +0000
Subject: [PATCH 32/84] fix: averaged permittivity stayed at its first value
 after later edits

---
 simphox/fdtd.py | 13 ++++++-------
 simphox/grid.py |  2 --
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/simphox/fdtd.py b/simphox/fdtd.py
index 73927de..61a60ed 100644
--- a/simphox/fdtd.py
+++ b/simphox/fdtd.py
@@ -1,4 +1,3 @@
-from functools import lru_cache
 from typing import Tuple, List, Callable
 
 import jax.numpy as jnp
@@ -116,6 +115,7 @@ class FDTD(SimGrid):
 
     def _step_e(self, state: State, sources: List[Tuple[np.ndarray, np.ndarray, Tuple[slice, ...]]]):
         e, h, psi_e, psi_h = state
+        eps_t = self.eps_t
         # update pml in pml regions if specified
         phi_e = []
         for pml_idx, pml_region in enumerate(self.pml_regions):
@@ -123,21 +123,21 @@ class FDTD(SimGrid):
             phi_e.append(p)
 
         # update e field
-        e += self._curl_h(h) / self.eps_t * self.dt
+        e += self._curl_h(h) / eps_t * self.dt
 
         for pml_idx, pml_region in enumerate(self.pml_regions):
             if self.use_jax:
-                e = e.at[pml_region].add(phi_e[pml_idx] / self.eps_t[pml_region] * self.dt)
+                e = e.at[pml_region].add(phi_e[pml_idx] / eps_t[pml_region] * self.dt)
             else:
-                e[pml_region] += phi_e[pml_idx] / self.eps_t[pml_region] * self.dt
+                e[pml_region] += phi_e[pml_idx] / eps_t[pml_region] * self.dt
 
         # add source
         for source, _, source_region in sources:
             if source is not None:
                 if self.use_jax:
-                    e = e.at[source_region].set(-source.squeeze() / self.eps_t[source_region] * self.dt)
+                    e = e.at[source_region].set(-source.squeeze() / eps_t[source_region] * self.dt)
                 else:
-                    e[source_region] -= source.squeeze() / self.eps_t[source_region] * self.dt
+                    e[source_region] -= source.squeeze() / eps_t[source_region] * self.dt
 
         return e, h, psi_e, psi_h
 
@@ -348,7 +348,6 @@ class FDTD(SimGrid):
         return curl_pml_fn(dh, use_jax=self.use_jax)
 
     @property
-    @lru_cache()
     def eps_t(self):
         """The epsilon tensor (assumed to be diagonal, i.e. no off-diagonal components for now).
 
diff --git a/simphox/grid.py b/simphox/grid.py
index 4255c62..0b8e7b0 100644
--- a/simphox/grid.py
+++ b/simphox/grid.py
@@ -1,5 +1,4 @@
 import dataclasses
-from functools import lru_cache
 
 import jax.numpy as jnp
 import numpy as np
@@ -469,7 +468,6 @@ class YeeGrid(Grid):
         return new_x, new_y, z
 
     @property
-    @lru_cache()
     def eps_t(self):
         """This attribute specifies the grid-averaged epsilon in the grid.
 
-- 
2.43.0


From 93def2a457c64303158df8e226ebaec130d571c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:35 +0000
Subject: [PATCH 33/84] fix: port modes stayed those of an earlier permittivity
 (cached per grid)

---
 simphox/sim.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/simphox/sim.py b/simphox/sim.py
index d675e76..451a370 100644
--- a/simphox/sim.py
+++ b/simphox/sim.py
@@ -1,5 +1,3 @@
-from functools import lru_cache
-
 import jax
 import numpy as np
 import jax.numpy as jnp
@@ -103,10 +101,8 @@ class SimGrid(YeeGrid):
         super(SimGrid, self).__init__(size, spacing, eps, bloch_phase, pml, pml_sep, pml_params, name)
         self.use_jax = use_jax
 
-    @lru_cache()
     def modes(self, center: Size3, size: Size3, wavelength: float = 1.55, num_modes: int = 1) -> SimCrossSection:
-        """Eigenmode profile of a 2d or 3d :code:`SimGrid` object. This function is cached so that
-        it only computes the modes if the input parameters are provided.
+        """Eigenmode profile of a 2d or 3d :code:`SimGrid` object (always for the current permittivity).
 
         Args:
             center: center tuple of the form :code:`(x, y, z)` (in sim units, NOT pixels)
-- 
2.43.0


From a0463fe160fc501b8a29a93c57990436bd866cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:35 +0000
Subject: [PATCH 34/84] fix: changing the FDFD wavelength left the operator at
 the previous frequency

---
 simphox/fdfd.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/simphox/fdfd.py b/simphox/fdfd.py
index 61503af..40a5edb 100644
--- a/simphox/fdfd.py
+++ b/simphox/fdfd.py
@@ -87,6 +87,14 @@ class FDFD(SimGrid):
         )
 
         self.wavelength = wavelength
+
+    @property
+    def wavelength(self) -> float:
+        return self._wavelength
+
+    @wavelength.setter
+    def wavelength(self, wavelength: float):
+        self._wavelength = wavelength
         self.k0 = 2 * np.pi / self.wavelength
 
         # overwrite dxes with PML-scaled ones if specified
-- 
2.43.0


From d7908a35693407906ffee1e80d8f1eda43464423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:53 +0000
Subject: [PATCH 35/84] fix: port modes, sources and measurements used 1.55
 instead of the simulation's wavelength

---
 simphox/fdtd.py |  2 +-
 simphox/sim.py  | 18 ++++++++++--------
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/simphox/fdtd.py b/simphox/fdtd.py
index 61a60ed..162bf37 100644
--- a/simphox/fdtd.py
+++ b/simphox/fdtd.py
@@ -263,7 +263,7 @@ class FDTD(SimGrid):
         source_excitation = list(parse_source_port(source_port).keys())
         source_modes = self.port_modes(excitation=source_excitation,
                                        profile_size_factor=profile_size_factor, wavelength=wavelength)
-        measure_fn = self.get_measure_fn(measure_port, use_jax=self.use_jax,
+        measure_fn = self.get_measure_fn(measure_port, wavelength=wavelength, use_jax=self.use_jax,
                                          profile_size_factor=profile_size_factor, tm_2d=tm_2d)
         state = self.zero_state if initial_state is None else initial_state
         iterator = range(num_time_steps) if pbar is None else pbar(np.arange(num_time_steps))
diff --git a/simphox/sim.py b/simphox/sim.py
index 451a370..58ff094 100644
--- a/simphox/sim.py
+++ b/simphox/sim.py
@@ -101,18 +101,20 @@ class SimGrid(YeeGrid):
         super(SimGrid, self).__init__(size, spacing, eps, bloch_phase, pml, pml_sep, pml_params, name)
         self.use_jax = use_jax
 
-    def modes(self, center: Size3, size: Size3, wavelength: float = 1.55, num_modes: int = 1) -> SimCrossSection:
+    def modes(self, center: Size3, size: Size3, wavelength: Optional[float] = None, num_modes: int = 1) -> SimCrossSection:
         """Eigenmode profile of a 2d or 3d :code:`SimGrid` object (always for the current permittivity).
 
         Args:
             center: center tuple of the form :code:`(x, y, z)` (in sim units, NOT pixels)
             size: size of the source (in sim units, NOT pixels)
-            wavelength: wavelength (arb. units, should match with spacing)
+            wavelength: wavelength (arb. units, should match with spacing), default is that of the simulation or 1.55
             num_modes: number of modes to find
 
         Returns:
             A Tuple of a Modes object and view function for measuring the fields.
         """
+        if wavelength is None:
+            wavelength = getattr(self, 'wavelength', 1.55)
         mode_eps = self.eps.reshape(self.shape3)[self.slice(center, size)].squeeze()
         mode_size = tuple(np.array(mode_eps.shape) * self.spacing[0])
         modes = ModeLibrary(
@@ -122,13 +124,13 @@ class SimGrid(YeeGrid):
         return SimCrossSection(modes, center, size, wavelength)
 
     def port_modes(self, excitation: List[Tuple[str, int]] = None,
-                   profile_size_factor: float = 3, wavelength: float = 1.55) -> Dict[PortLabel, SimCrossSection]:
+                   profile_size_factor: float = 3, wavelength: Optional[float] = None) -> Dict[PortLabel, SimCrossSection]:
         """Profile for all the ports in the grid (always assumed to be along x or y axes!).
 
         Args:
             excitation: Dictionary mapping port to mode index for excitations
             profile_size_factor: Factor to rescale the mode view slice compared to the port
-            wavelength: Wavelength for the modes
+            wavelength: Wavelength for the modes (default is the wavelength of the simulation or 1.55)
 
         Returns:
             A dictionary from mode to SimCrossSection containing the mode, and its center and size in this grid
@@ -148,7 +150,7 @@ class SimGrid(YeeGrid):
 
     def port_source(self, source: Optional[Union[Dict[Tuple[str, int], float], Dict[str, float]]] = None,
                     profile_size_factor: float = 3, unidirectional: bool = True,
-                    wavelength: float = 1.55) -> np.ndarray:
+                    wavelength: Optional[float] = None) -> np.ndarray:
         """Return a non-sparse source array based on the ports defined in the simulation grid.
 
         Args:
@@ -159,7 +161,7 @@ class SimGrid(YeeGrid):
             profile_size_factor: Factor to rescale the mode view slice compared to the port
             unidirectional: In FDFD, this specifies whether to send the mode in unidirectionally, determined
                 using the port angle.
-            wavelength: Wavelength for the source
+            wavelength: Wavelength for the source (default is the wavelength of the simulation or 1.55)
 
         Returns:
             The non-sparse source array that can be used as a source profile for either FDFD or FDTD
@@ -188,13 +190,13 @@ class SimGrid(YeeGrid):
     def parse_excitation(self, excitation: Optional[Excitation] = None):
         return [(port, 0) for port in self.port] if excitation is None else parse_excitation(excitation)
 
-    def get_measure_fn(self, measure_port: Optional[Excitation] = None, wavelength: float = 1.55,
+    def get_measure_fn(self, measure_port: Optional[Excitation] = None, wavelength: Optional[float] = None,
                        profile_size_factor: float = 3, use_jax: bool = False, tm_2d: bool = True) -> Op:
         """Measure function: measure the fields using the Modes object provided for each port.
 
         Args:
             measure_port: List of port name and mode index at that port.
-            wavelength: The wavelength for the measurement.
+            wavelength: The wavelength for the measurement (default is the wavelength of the simulation or 1.55).
             profile_size_factor: Factor to rescale the mode view slice compared to the port.
             use_jax: Whether to use jax in the measure function (relevant for simulations).
             tm_2d: Whether to use TM polarization (applies to the 2D case only).
-- 
2.43.0


From 6fe85e1f2f2d5df51cc72af03ec2e8095834b198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:13 +0000
Subject: [PATCH 36/84] fix: port sources ignored higher modes and rejected
 plain port names

---
 simphox/sim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simphox/sim.py b/simphox/sim.py
index 58ff094..f011758 100644
--- a/simphox/sim.py
+++ b/simphox/sim.py
@@ -171,7 +171,8 @@ class SimGrid(YeeGrid):
         # if the source is a list of numbers, just assign the appropriate weight to the port's fundamental mode
         source = {(ports[0], 0): 1} if source is None else source
         source = {(port, 0): weight for port, weight in zip(ports, source)} if isinstance(source, tuple) else source
-        source_library = self.port_modes(profile_size_factor=profile_size_factor, wavelength=wavelength)
+        source = {(port, 0) if isinstance(port, str) else port: weight for port, weight in source.items()}
+        source_library = self.port_modes(list(source), profile_size_factor=profile_size_factor, wavelength=wavelength)
 
         sources_to_sum = []
         for port_mode, weight in source.items():
-- 
2.43.0


From ca873d9c93ac85eebd5a43a1c80f1de1df47b557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:24 +0000
Subject: [PATCH 37/84] fix: sources at the ports of 3D simulations could not
 be placed

---
 simphox/mode.py | 3 ++-
 simphox/sim.py  | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/simphox/mode.py b/simphox/mode.py
index 3c4a9f1..c78de81 100644
--- a/simphox/mode.py
+++ b/simphox/mode.py
@@ -515,7 +515,8 @@ class ModeLibrary:
                 np.asarray((0, 1, 2), dtype=int)
             ][place_axis]
             x = np.zeros((3, *grid.shape), dtype=np.complex128)
-            x[(None,) + region] = self.h(mode_idx).transpose((0, *tuple(1 + axes)))
+            mode = self.e(mode_idx)[axes].transpose((0, *tuple(1 + axes)))
+            x[(slice(None),) + region] = mode.squeeze(axis=1 + place_axis)
         else:
             x = np.zeros(grid.shape, dtype=np.complex128)
             x[region[:2]] = self.modes[mode_idx]
diff --git a/simphox/sim.py b/simphox/sim.py
index f011758..5f57ab7 100644
--- a/simphox/sim.py
+++ b/simphox/sim.py
@@ -181,9 +181,10 @@ class SimGrid(YeeGrid):
             beta = source_library[port].io.betas[mode]
             shift = 2 * (np.mod(self.port[port].a, 360) < 180) - 1
             src = source_library[port].place(mode, self) * weight
-            src = np.roll(src, axis=axis, shift=2 * shift)
+            src_axis = axis + src.ndim - self.ndim  # the source of a 3d simulation has a leading component axis
+            src = np.roll(src, axis=src_axis, shift=2 * shift)
             if unidirectional:
-                src += np.roll(src, axis=axis, shift=shift) * np.exp(-1j * self.spacing[axis] * beta - 1j * np.pi)
+                src += np.roll(src, axis=src_axis, shift=shift) * np.exp(-1j * self.spacing[axis] * beta - 1j * np.pi)
             sources_to_sum.append(src)
 
         return sum(sources_to_sum) if sources_to_sum else np.array([])
-- 
2.43.0


From 14257d9d3cca193fcbba8ba6d39bb5fff394db7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:24 +0000
Subject: [PATCH 38/84] fix: outgoing and incoming amplitudes were exchanged at
 ports facing y

---
 simphox/sim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simphox/sim.py b/simphox/sim.py
index 5f57ab7..54fcb99 100644
--- a/simphox/sim.py
+++ b/simphox/sim.py
@@ -216,6 +216,8 @@ class SimGrid(YeeGrid):
         # to determine whether the wave is entering or leaving the device
         # The polarity below assumes that ports are near edge of simulation.
         polarity = 2 * (np.mod(angles, 360) < 180).astype(int) - 1
+        # the orientation of the fields viewed at a port facing y (see view_fn) is left-handed, so power flows backward
+        polarity = np.where(np.mod(angles, 180) == 90, -polarity, polarity)
         measure_fns = [port_to_modes[port_name].io.measure_fn(m, use_jax, tm_2d=tm_2d) for port_name, m in measure_port]
         view_fns = [self.view_fn(port_to_modes[port_name].center, port_to_modes[port_name].size, use_jax)
                     for port_name, _ in measure_port]
-- 
2.43.0


From 15b340848c74013ee7e1766fc1a38b16a80b6a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:33 +0000
Subject: [PATCH 39/84] fix: magnetic fields of electric-field solves had the
 sign of the opposite time convention

---
 simphox/fdfd.py | 16 ++++++++--------
 simphox/mode.py |  6 +++---
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/simphox/fdfd.py b/simphox/fdfd.py
index 40a5edb..7b9d68e 100644
--- a/simphox/fdfd.py
+++ b/simphox/fdfd.py
@@ -169,19 +169,19 @@ class FDFD(SimGrid):
         return mat
 
     def e2h(self, e: np.ndarray, beta: Optional[float] = None) -> np.ndarray:
-        """Convert magnetic field :math:`\\mathbf{e}` to electric field :math:`\\mathbf{h}`.
+        """Convert electric field :math:`\\mathbf{e}` to magnetic field :math:`\\mathbf{h}`.
 
         Usage is: :code:`h = fdfd.e2h(e)`, where :code:`e` is grid-shaped (not flattened). If :code:`e` is flattened,
         this function attempts to reshape it.
 
         Mathematically, this represents rearranging the Maxwell equation in the frequency domain:
         ..math::
-            i \\omega \\mu \\mathbf{h} &= \\nabla \times \\mathbf{e}.
+            -i \\omega \\mu \\mathbf{h} &= \\nabla \\times \\mathbf{e}.
 
         Returns:
             The h-field converted from the e-field.
         """
-        return self.curl_fn(of_h=False, beta=beta)(self.reshape(e)) / (1j * self.k0)
+        return self.curl_fn(of_h=False, beta=beta)(self.reshape(e)) / (-1j * self.k0)
 
     def h2e(self, h: np.ndarray, beta: Optional[float] = None) -> np.ndarray:
         """Convert magnetic field :math:`\\mathbf{h}` to electric field :math:`\\mathbf{e}`.
@@ -191,7 +191,7 @@ class FDFD(SimGrid):
 
         Mathematically, this represents rearranging the Maxwell equation in the frequency domain:
         ..math::
-            -i \\omega \\epsilon \\mathbf{e} &= \\nabla \\times \\mathbf{h}.
+            i \\omega \\epsilon \\mathbf{e} &= \\nabla \\times \\mathbf{h}.
 
         Returns:
             The e-field converted from the h-field.
@@ -225,7 +225,7 @@ class FDFD(SimGrid):
                 e = solver_fn(self.mat, b) if solver_fn else spsolve_pardiso(self.mat, b)
             e = self.reshape(e)
             curl_e = curl_fn(self.diff_fn(of_h=False))
-            h = curl_e(e) / (1j * self.k0)
+            h = curl_e(e) / (-1j * self.k0)
             return np.array((e, h))
         else:  # assume only the z component
             if not src.size == self.n:
@@ -243,7 +243,7 @@ class FDFD(SimGrid):
             else:
                 e = field
                 o = np.zeros_like(e[2])
-                return np.stack([e, np.stack((df(e[2], 1), -df(e[2], 0), o)) / (1j * self.k0)])
+                return np.stack([e, np.stack((df(e[2], 1), -df(e[2], 0), o)) / (-1j * self.k0)])
 
     def scpml(self, ax: int) -> Tuple[np.ndarray, np.ndarray]:
         exp_scale, log_reflection, pml_eps = self.pml_params
@@ -393,7 +393,7 @@ class FDFD(SimGrid):
                     ez = spsolve(mat_entries, k0 * src, mat_indices)
                     ez = ez.reshape(shape3)
                     e = jnp.stack((o, o, ez))
-                    h = jnp.stack((de(e[2], 1), -de(e[2], 0), o)) / (1j * k0)
+                    h = jnp.stack((de(e[2], 1), -de(e[2], 0), o)) / (-1j * k0)
                     return jnp.stack((e, h))
         else:
             # iterative 3d FDFD (simpler than 2D code-wise, but takes way more memory and time)
@@ -408,7 +408,7 @@ class FDFD(SimGrid):
                 eps = yee_avg_jax(transform_fn(rho))
                 e, _ = bicgstab(op(eps), k0 * src.reshape(field_shape))
                 e = jnp.stack([split_v.reshape(shape3) for split_v in jnp.split(e, 3)])
-                h = curl_e(e) / (1j * k0)
+                h = curl_e(e) / (-1j * k0)
                 return jnp.stack((e, h))
 
         return solve
diff --git a/simphox/mode.py b/simphox/mode.py
index c78de81..0390d71 100644
--- a/simphox/mode.py
+++ b/simphox/mode.py
@@ -317,8 +317,8 @@ class ModeLibrary:
                 mode = np.hstack((self.o, mode, self.o))
             else:
                 mode = np.hstack((1j * self.betas[mode_idx] * mode, self.o,
-                                  -(mode - np.roll(mode, 1, axis=0)) / self.solver.cells[0])) / (
-                    1j * self.solver.k0)
+                                  (np.roll(mode, -1, axis=0) - mode) / self.solver.cells[0])) / (
+                    -1j * self.solver.k0)
         return self.solver.reshape(mode)
 
     def e(self, mode_idx: int = 0, tm_2d: bool = True) -> np.ndarray:
@@ -339,7 +339,7 @@ class ModeLibrary:
             mode = self.modes[mode_idx]
             if tm_2d:
                 mode = np.hstack((1j * self.betas[mode_idx] * mode, self.o,
-                                  -(np.roll(mode, -1, axis=0) - mode) / self.solver.cells[0])) / (
+                                  (mode - np.roll(mode, 1, axis=0)) / self.solver.cells[0])) / (
                     1j * self.solver.k0 * self.solver.eps_t.flatten())
             else:
                 mode = np.hstack((self.o, mode, self.o))
-- 
2.43.0


From 7557f076342cf545bf4dcdc1e0e5f63678ab1916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:33 +0000
Subject: [PATCH 40/84] fix: sparse solves reused the factorization of other
 matrices or of failed solves

---
 simphox/mkl.py | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/simphox/mkl.py b/simphox/mkl.py
index 2f2439d..f0a6251 100644
--- a/simphox/mkl.py
+++ b/simphox/mkl.py
@@ -100,7 +100,7 @@ class Pardiso:
         self.iparm[34] = 1  # Zero-indexing
 
         self.phase = PARDISO_FULLSOLVE
-        self._mat_hash = 0  # no matrix has been factorized yet, and this is an unlikely hash for it to be assigned
+        self._factorized: Optional[sp.csr_matrix] = None  # copy of the matrix which is factorized (none yet)
 
     @property
     def is_complex(self) -> bool:
@@ -139,26 +139,35 @@ class Pardiso:
     def free(self, complete: bool = True):
         self.phase = PARDISO_FREEALL if complete else PARDISO_FREEFACTOR
         self.pardiso()
+        self._factorized = None
+
+    def _is_factorized(self, mat: sp.csr_matrix) -> bool:
+        last = self._factorized
+        return last is not None and last.shape == mat.shape and last.nnz == mat.nnz \
+            and np.array_equal(last.indptr, mat.indptr) and np.array_equal(last.indices, mat.indices) \
+            and np.array_equal(last.data, mat.data)
 
     def factor(self, mat: sp.csr_matrix):
         self.phase = PARDISO_FACTORIZE
-        mat_hash = hash(str(mat))
+        self._factorized = None
         self._set_mat(mat)
-        self._mat_hash = mat_hash
         self.pardiso()
+        self._factorized = self.mat.copy()
 
     def solve(self, mat: sp.csr_matrix, rhs: np.ndarray) -> np.ndarray:
-        mat_hash = hash(str(mat))
-        if mat_hash != self._mat_hash:
-            self._set_mat(mat)
-            self._mat_hash = mat_hash
-            self.phase = PARDISO_FULLSOLVE
-        else:
+        self._set_mat(mat)
+        if self._is_factorized(self.mat):
             self.phase = PARDISO_SOLVE
-        return self.pardiso(rhs)
+        else:
+            self.phase = PARDISO_FULLSOLVE
+            self._factorized = None  # in case this solve fails
+        x = self.pardiso(rhs)
+        if self._factorized is None:
+            self._factorized = self.mat.copy()
+        return x
 
     def pardiso(self, rhs: Optional[np.ndarray] = None) -> np.ndarray:
-        if self._mat_hash == 0:
+        if not hasattr(self, 'mat'):
             raise RuntimeError('Mat information not stored in Pardiso.')
         if rhs is not None and rhs.shape[0] != self.n:
             raise RuntimeError(f'Expected rhs.shape[0] == {self.n}, but got {rhs.shape[0]}')
-- 
2.43.0


From f2c207a33510bdf470ba7d9f39ed14b1c5e7cab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:33 +0000
Subject: [PATCH 41/84] fix: sparse solves of several right-hand sides returned
 them flattened

---
 simphox/mkl.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simphox/mkl.py b/simphox/mkl.py
index f0a6251..04c1e1c 100644
--- a/simphox/mkl.py
+++ b/simphox/mkl.py
@@ -173,6 +173,7 @@ class Pardiso:
             raise RuntimeError(f'Expected rhs.shape[0] == {self.n}, but got {rhs.shape[0]}')
 
         nrhs = 0 if rhs is None else (np.prod(rhs.shape[1:]) if rhs.ndim > 1 else 1)
+        shape = None if rhs is None else rhs.shape
         rhs = np.zeros(1) if rhs is None else rhs.astype(self.dtype).flatten(order='f')
         x = np.zeros(1) if rhs is None else np.zeros(nrhs * self.n, dtype=self.dtype)
         rhs_ = rhs.ctypes.data_as(self.ctypes_dtype)
@@ -207,7 +208,7 @@ class Pardiso:
             raise RuntimeError(f"Pardiso returned an error with code {err_c.value}. "
                                f"Check error codes in manual: https://pardiso-project.org/manual/manual.pdf")
 
-        return x.reshape(rhs.shape, order='f') if nrhs > 1 else x
+        return x.reshape(shape, order='f') if nrhs > 1 else x
 
 
 class Feast:
-- 
2.43.0


From de3b3a851dd8f396ced61816e3724bb18cdf6f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:44 +0000
Subject: [PATCH 42/84] fix: JAX time stepping overwrote the fields at the
 sources instead of adding the currents

---
 simphox/fdtd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simphox/fdtd.py b/simphox/fdtd.py
index 162bf37..e30399b 100644
--- a/simphox/fdtd.py
+++ b/simphox/fdtd.py
@@ -135,7 +135,7 @@ class FDTD(SimGrid):
         for source, _, source_region in sources:
             if source is not None:
                 if self.use_jax:
-                    e = e.at[source_region].set(-source.squeeze() / eps_t[source_region] * self.dt)
+                    e = e.at[source_region].add(-source.squeeze() / eps_t[source_region] * self.dt)
                 else:
                     e[source_region] -= source.squeeze() / eps_t[source_region] * self.dt
 
@@ -162,7 +162,7 @@ class FDTD(SimGrid):
         for _, source, source_region in sources:
             if source is not None:
                 if self.use_jax:
-                    h = h.at[source_region].set(-source.squeeze() * self.dt)
+                    h = h.at[source_region].add(-source.squeeze() * self.dt)
                 else:
                     h[source_region] -= source.squeeze() * self.dt
 
-- 
2.43.0


From 97d34dacda0e0b7b399e07c59a51e513a9c22039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:44 +0000
Subject: [PATCH 43/84] fix: time stepping modified the state passed in

---
 simphox/fdtd.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/simphox/fdtd.py b/simphox/fdtd.py
index e30399b..fcf1033 100644
--- a/simphox/fdtd.py
+++ b/simphox/fdtd.py
@@ -115,6 +115,7 @@ class FDTD(SimGrid):
 
     def _step_e(self, state: State, sources: List[Tuple[np.ndarray, np.ndarray, Tuple[slice, ...]]]):
         e, h, psi_e, psi_h = state
+        psi_e = None if psi_e is None else list(psi_e)  # the state provided by the caller is not modified
         eps_t = self.eps_t
         # update pml in pml regions if specified
         phi_e = []
@@ -123,7 +124,7 @@ class FDTD(SimGrid):
             phi_e.append(p)
 
         # update e field
-        e += self._curl_h(h) / eps_t * self.dt
+        e = e + self._curl_h(h) / eps_t * self.dt
 
         for pml_idx, pml_region in enumerate(self.pml_regions):
             if self.use_jax:
@@ -143,6 +144,7 @@ class FDTD(SimGrid):
 
     def _step_h(self, state: State, sources: List[Source]):
         e, h, psi_e, psi_h = state
+        psi_h = None if psi_h is None else list(psi_h)  # the state provided by the caller is not modified
         # update h field in pml regions if specified
         phi_h = []
         for pml_idx, pml_region in enumerate(self.pml_regions):
@@ -150,7 +152,7 @@ class FDTD(SimGrid):
             phi_h.append(p)
 
         # update h field
-        h -= self._curl_e(e) * self.dt
+        h = h - self._curl_e(e) * self.dt
 
         for pml_idx, pml_region in enumerate(self.pml_regions):
             if self.use_jax:
-- 
2.43.0


From cc383e562880453be0197a01b8fbeec94971d725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:44 +0000
Subject: [PATCH 44/84] fix: time-domain simulations in 1D and 2D could not
 have absorbing layers

---
 simphox/fdtd.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/simphox/fdtd.py b/simphox/fdtd.py
index fcf1033..9980d79 100644
--- a/simphox/fdtd.py
+++ b/simphox/fdtd.py
@@ -309,15 +309,14 @@ class FDTD(SimGrid):
         exp_scale, log_reflection, absorption_corr = pml_params
         kappa, alpha = 1, 1e-8  # TODO: make these params
         self.sigma = [-pml_sigma(self.pos[ax], thickness=self.pml_shape[ax], exp_scale=exp_scale,
-                                 log_reflection=log_reflection, absorption_corr=absorption_corr) for ax in range(3)]
+                                 log_reflection=log_reflection, absorption_corr=absorption_corr) for ax in range(self.ndim)]
         # for memory and time purposes, we only update the pml slices, NOT the full field
         # therefore, we need to specify the pml regions for the fields.
-        self.pml_regions = ((slice(None), slice(None, self.pml_shape[0]), slice(None), slice(None)),
-                            (slice(None), slice(-self.pml_shape[0], None), slice(None), slice(None)),
-                            (slice(None), slice(None), slice(None, self.pml_shape[1]), slice(None)),
-                            (slice(None), slice(None), slice(-self.pml_shape[1], None), slice(None)),
-                            (slice(None), slice(None), slice(None), slice(None, self.pml_shape[2])),
-                            (slice(None), slice(None), slice(None), slice(-self.pml_shape[2], None)))
+        self.pml_regions = tuple(
+            (slice(None),) + tuple(side if i == ax else slice(None) for i in range(3))
+            for ax in range(self.ndim)
+            for side in (slice(None, self.pml_shape[ax]), slice(-self.pml_shape[ax], None))
+        )
 
         for i, region in enumerate(self.pml_regions):
             ax = i // 2
-- 
2.43.0


From 71c520c977eeb9a127bbfe45daef85ba4858b17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:44 +0000
Subject: [PATCH 45/84] fix: absorbing layers in time domain kept one step of
 the convolution instead of the recursion

---
 simphox/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simphox/utils.py b/simphox/utils.py
index 59edb75..2ddfa74 100644
--- a/simphox/utils.py
+++ b/simphox/utils.py
@@ -180,15 +180,15 @@ def curl_fn(df: Callable[[np.ndarray, int], np.ndarray], use_jax: bool = False,
 def curl_pml_fn(df: Callable[[np.ndarray, int], np.ndarray], use_jax: bool = False):
     xp = jnp if use_jax else np
 
-    def _curl(f: np.ndarray, prev_df: np.ndarray, b_pml: np.ndarray):
+    def _curl(f: np.ndarray, prev_psi: np.ndarray, b_pml: np.ndarray):
         next_df = xp.stack(
             [df(f[2], 1), df(f[1], 2),
              df(f[0], 2), df(f[2], 0),
              df(f[1], 0), df(f[0], 1)]
         )
-        return next_df, xp.stack([next_df[0] + prev_df[0] * b_pml[1] - next_df[1] - prev_df[1] * b_pml[2],
-                                  next_df[2] + prev_df[2] * b_pml[2] - next_df[3] - prev_df[3] * b_pml[0],
-                                  next_df[4] + prev_df[4] * b_pml[0] - next_df[5] - prev_df[5] * b_pml[1]])
+        # recursive convolution for each of the derivatives in the curl
+        psi = next_df + prev_psi * xp.stack([b_pml[1], b_pml[2], b_pml[2], b_pml[0], b_pml[0], b_pml[1]])
+        return psi, xp.stack([psi[0] - psi[1], psi[2] - psi[3], psi[4] - psi[5]])
     return _curl
 
 
-- 
2.43.0


From 7a77eb515875b4907fe793b43432dbbe638e6e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:04 +0000
Subject: [PATCH 46/84] fix: matrix-free derivatives ignored the Bloch phases
 of the grid

---
 simphox/grid.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/simphox/grid.py b/simphox/grid.py
index 0b8e7b0..fb26af6 100644
--- a/simphox/grid.py
+++ b/simphox/grid.py
@@ -427,12 +427,18 @@ class YeeGrid(Grid):
         """
         xp = jnp if use_jax else np
         dx = jnp.array(self._dxes[of_h]) if use_jax else self._dxes[of_h]
+        # the field picks up the Bloch phase of an axis where it wraps around that axis
+        wrap = np.ones((3, *self.shape3), dtype=np.complex128 if np.any(self.bloch != 1) else np.float64)
+        for ax, b in enumerate(self.bloch):
+            if b != 1 and self.shape[ax] > 1:
+                wrap[(ax,) + (slice(None),) * ax + (0 if of_h else -1,)] = np.conj(b) if of_h else b
+        wrap = xp.array(wrap)
         if of_h:
             def _diff(f, a):
-                return (f - xp.roll(f, 1, axis=a)) / dx[a]
+                return (f - xp.roll(f, 1, axis=a) * wrap[a]) / dx[a]
         else:
             def _diff(f, a):
-                return (xp.roll(f, -1, axis=a) - f) / dx[a]
+                return (xp.roll(f, -1, axis=a) * wrap[a] - f) / dx[a]
         return _diff
 
     def curl_fn(self, beta: Optional[float] = None, of_h: bool = False, use_jax: bool = False) -> Op:
-- 
2.43.0


From dd8a022cfad72132d0e8fb2ef323d9963f0a343e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:49 +0000
Subject: [PATCH 47/84] fix: absorbing layers of time-domain simulations
 differed between opposite faces

---
 simphox/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/simphox/utils.py b/simphox/utils.py
index 2ddfa74..db7137d 100644
--- a/simphox/utils.py
+++ b/simphox/utils.py
@@ -217,10 +217,12 @@ def yee_avg_jax(params: jnp.ndarray) -> jnp.ndarray:
 
 def pml_sigma(pos: np.ndarray, thickness: int, exp_scale: float, log_reflection: float, absorption_corr: float):
     d = np.vstack(((pos[:-1] + pos[1:]) / 2, pos[:-1])).T
+    # the layers begin at the same distance from both boundaries
+    start, stop = pos[thickness], pos[-thickness - 1]
     d_pml = np.vstack((
-        (d[thickness] - d[:thickness]) / (d[thickness] - pos[0]),
+        (start - d[:thickness]) / (start - pos[0]),
         np.zeros_like(d[thickness:-thickness]),
-        (d[-thickness:] - d[-thickness]) / (pos[-1] - d[-thickness])
+        (d[-thickness:] - stop) / (pos[-1] - stop)
     )).T
     return (exp_scale + 1) * (d_pml ** exp_scale) * log_reflection / (2 * absorption_corr)
 
-- 
2.43.0


From 77f9098858592f71d8d442ac97a70b37f8641c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:49 +0000
Subject: [PATCH 48/84] fix: one-entry lists of ports were rejected and pairs
 given as lists stayed lists

---
 simphox/parse.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simphox/parse.py b/simphox/parse.py
index 65a5f04..b696019 100644
--- a/simphox/parse.py
+++ b/simphox/parse.py
@@ -14,8 +14,8 @@ def parse_excitation(excitation: Excitation):
     if isinstance(excitation, str):
         return [(excitation, 0)]
     elif isinstance(excitation, tuple) or isinstance(excitation, list):
-        if (isinstance(excitation[0], str) or isinstance(excitation[0], int)) and isinstance(excitation[1], int) and len(excitation) == 2:
-            return [excitation]
+        if len(excitation) == 2 and isinstance(excitation[0], (str, int)) and isinstance(excitation[1], int):
+            return [tuple(excitation)]
         return sum([parse_excitation(mi) for mi in excitation], [])
     elif isinstance(excitation, dict):
         return sum([parse_excitation([(mi, idx) for idx in excitation[mi]]) for mi in excitation], [])
@@ -34,7 +34,7 @@ def parse_source_port(source: SourceLabel):
     if isinstance(source, str):
         return {(source, 0): 1}
     elif isinstance(source, tuple) or isinstance(source, list):
-        if isinstance(source[0], str) and isinstance(source[1], int) and len(source) == 2:
+        if len(source) == 2 and isinstance(source[0], str) and isinstance(source[1], int):
             return {tuple(source): 1}
         return {k: v for mi in source for k, v in parse_source_port(mi).items()}
     elif isinstance(source, dict):
-- 
2.43.0


From e66124061620c348890ea839b6392e1c108f700d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:15 +0000
Subject: [PATCH 49/84] fix: scattering parameters ignored the requested
 measurements (and their notations) and profile size

---
 simphox/fdfd.py | 2 +-
 simphox/sim.py  | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/simphox/fdfd.py b/simphox/fdfd.py
index 7b9d68e..31c5052 100644
--- a/simphox/fdfd.py
+++ b/simphox/fdfd.py
@@ -316,8 +316,8 @@ class FDFD(SimGrid):
             Sparams measured at the ports specified in the class.
 
         """
+        measure_info = self.parse_excitation(measure_info)
         measure_fn = self.get_measure_fn(measure_info)
-        measure_info = [(name, 0) for name in self.port] if measure_info is None else measure_info
         h = self.solve(self.port_source({(port_name, mode_idx): 1}))
         s_out, s_in = measure_fn(h)
         src_sparam_reference = measure_info.index((port_name, mode_idx))
diff --git a/simphox/sim.py b/simphox/sim.py
index 54fcb99..57f486d 100644
--- a/simphox/sim.py
+++ b/simphox/sim.py
@@ -303,12 +303,13 @@ class SimGrid(YeeGrid):
             A solve function (2d or 3d based on defined :code:`ndim` specified for the instance of :code:`FDFD`)
 
         """
-        measure_info = [(name, 0) for name in self.port] if measure_info is None else measure_info
+        measure_info = self.parse_excitation(measure_info)
         source_info = (port_name, mode_idx) if port_name is not None else measure_info[0]
         fields_fn = self.get_fields_fn(src=self.port_source({source_info: 1}, profile_size_factor=profile_size_factor),
                                        transform_fn=transform_fn,
                                        tm_2d=tm_2d)
-        measure_fn = self.get_measure_fn(use_jax=True, tm_2d=tm_2d)
+        measure_fn = self.get_measure_fn(measure_info, profile_size_factor=profile_size_factor,
+                                         use_jax=True, tm_2d=tm_2d)
         port_idx = measure_info.index(source_info)
 
         # @jax.jit
-- 
2.43.0


From 48bf708b59aa1318e7443ca08deba8f6735bf7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:29 +0000
Subject: [PATCH 50/84] fix: frequency-domain simulations built from a grid
 lost its Bloch phases and absorbing layer settings

---
 simphox/fdfd.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/simphox/fdfd.py b/simphox/fdfd.py
index 31c5052..6021d5c 100644
--- a/simphox/fdfd.py
+++ b/simphox/fdfd.py
@@ -123,7 +123,10 @@ class FDFD(SimGrid):
             spacing=simgrid.spacing,
             wavelength=wavelength,
             eps=simgrid.eps,
-            pml=simgrid.pml_shape,
+            bloch_phase=tuple(np.angle(simgrid.bloch)),
+            pml=simgrid.pml,
+            pml_sep=simgrid.pml_sep,
+            pml_params=tuple(simgrid.pml_params[:3]),
             name=simgrid.name
         )
         fdfd.port = simgrid.port
-- 
2.43.0


From 6b19b28bcb56e7d2603d2e578ee41333940db7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:48 +0000
Subject: [PATCH 51/84] fix: copied symmetries of designs with an even number
 of cells were not symmetric

---
 simphox/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simphox/transform.py b/simphox/transform.py
index 3895baf..8a694ad 100644
--- a/simphox/transform.py
+++ b/simphox/transform.py
@@ -54,8 +54,8 @@ def get_symmetry_fn(ortho_x: bool = False, ortho_y: bool = False, diag_p: bool =
         ortho_x_fn = (lambda x: (x + x[::-1]) / 2) if ortho_x else identity
         ortho_y_fn = (lambda x: (x + x[:, ::-1]) / 2) if ortho_y else identity
     else:
-        ortho_x_fn = (lambda x: x.at[-(x.shape[0] // 2 + 1):, :].set(x[:x.shape[0] // 2 + 1:, :][::-1, :])) if ortho_x else identity
-        ortho_y_fn = (lambda x: x.at[:, -(x.shape[1] // 2 + 1):].set(x[:, :x.shape[1] // 2 + 1][:, ::-1])) if ortho_y else identity
+        ortho_x_fn = (lambda x: x.at[x.shape[0] // 2:, :].set(x[:(x.shape[0] + 1) // 2, :][::-1, :])) if ortho_x else identity
+        ortho_y_fn = (lambda x: x.at[:, x.shape[1] // 2:].set(x[:, :(x.shape[1] + 1) // 2][:, ::-1])) if ortho_y else identity
     return lambda x: diag_p_fn(diag_n_fn(ortho_x_fn(ortho_y_fn(x))))
 
 
-- 
2.43.0


From 86f0c79895d7e173118422f68751a9da68384ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:38 +0000
Subject: [PATCH 52/84] fix: optimisations ran only with a progress bar and
 visualisation, and mislabelled metrics of longer intervals

---
 simphox/opt.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/simphox/opt.py b/simphox/opt.py
index 99f3265..7b82bd5 100644
--- a/simphox/opt.py
+++ b/simphox/opt.py
@@ -188,6 +188,7 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
 
     costs = []
     history = defaultdict(list)
+    all_metric_names = []
 
     for i in iterator:
         v, opt_state, data = step(i, opt_state)
@@ -202,18 +203,20 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
                 field_pipe.send(hz.real / np.max(hz.real))
                 power = np.abs(hz) ** 2
                 power_pipe.send(power / np.max(power))
-            if metric_interval > 0 and i % metric_interval == 0 and viz is not None:
+            if metric_interval > 0 and i % metric_interval == 0 and sop.metrics_fn is not None:
                 metrics = sop.metrics_fn(sparams)
                 for metric_name, metric_value in metrics.items():
                     history[f'{metric_name}/{sop.sim.name}'].append(metric_value)
-                for title in viz.metrics_pipes[sop.sim.name]:
+                    if metric_name not in all_metric_names:
+                        all_metric_names.append(metric_name)
+                for title in viz.metrics_pipes[sop.sim.name] if viz is not None else ():
                     viz.metrics_pipes[sop.sim.name][title].send(
                         xarray.DataArray(
                             data=np.asarray([history[f'{metric_name}/{sop.sim.name}']
                                              for metric_name in viz.metric_config[title]]),
                             coords={
                                 'metric': viz.metric_config[title],
-                                'iteration': np.arange(i + 1)
+                                'iteration': np.arange(0, i + 1, metric_interval)
                             },
                             dims=['metric', 'iteration'],
                             name=title
@@ -223,20 +226,20 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
                 history[f'eps/{sop.sim.name}'].append((i, sop.sim.eps))
             if field_interval > 0 and i % field_interval == 0:
                 history[f'field/{sop.sim.name}'].append((i, hz.T))
-        iterator.set_description(f"𝓛: {v:.5f}")
+        if pbar is not None:
+            iterator.set_description(f"𝓛: {v:.5f}")
         costs.append(jax.lax.stop_gradient(v))
         if viz is not None:
             viz.costs_pipe.send(np.asarray(costs))
     _update_eps(opt_state)
 
-    all_metric_names = sum([metric_names for _, metric_names in viz.metric_config.items()], [])
     metrics = xarray.DataArray(
         data=np.array([[history[f'{metric_name}/{sop.sim.name}']
                         for metric_name in all_metric_names] for sop in sim_opt_problems]),
         coords={
             'name': [sop.sim.name for sop in sim_opt_problems],
             'metric': all_metric_names,
-            'iteration': np.arange(num_iters)
+            'iteration': np.arange(0, num_iters, metric_interval)
         },
         dims=['name', 'metric', 'iteration'],
         name='metrics'
-- 
2.43.0


From 6f66e0efbaf7414104a770c3f21f609c2baf1933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:38 +0000
Subject: [PATCH 53/84] fix: optimisations mispaired results of problems
 without simulation and needed a transform

---
 simphox/opt.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/simphox/opt.py b/simphox/opt.py
index 7b82bd5..e7cdb8b 100644
--- a/simphox/opt.py
+++ b/simphox/opt.py
@@ -180,7 +180,9 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
     def _update_eps(state):
         rho = get_params(state)
         for op in opt_problems:
-            op.sim.eps = np.asarray(jax.lax.stop_gradient(op.transform_fn(rho)))
+            if op.sim is not None:
+                eps = rho if op.transform_fn is None else op.transform_fn(rho)
+                op.sim.eps = np.array(jax.lax.stop_gradient(eps))
 
     step = jax.jit(step_, backend=backend)
 
@@ -193,7 +195,8 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
     for i in iterator:
         v, opt_state, data = step(i, opt_state)
         _update_eps(opt_state)
-        for sop, sparams_fields in zip(sim_opt_problems, data):
+        sim_data = [aux for aux, op in zip(data, opt_problems) if op.sim is not None and op.source is not None]
+        for sop, sparams_fields in zip(sim_opt_problems, sim_data):
             sim = sop.sim
             sparams, e, h = sim.decorate(*sparams_fields)
             hz = np.asarray(h[2]).squeeze().T
-- 
2.43.0


From 7fc52b1e4c9f1a60fb940207caf2cbed44b91b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:38 +0000
Subject: [PATCH 54/84] fix: optimisation histories of simulations sharing a
 name were merged

---
 simphox/opt.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/simphox/opt.py b/simphox/opt.py
index e7cdb8b..de5a4df 100644
--- a/simphox/opt.py
+++ b/simphox/opt.py
@@ -196,7 +196,7 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
         v, opt_state, data = step(i, opt_state)
         _update_eps(opt_state)
         sim_data = [aux for aux, op in zip(data, opt_problems) if op.sim is not None and op.source is not None]
-        for sop, sparams_fields in zip(sim_opt_problems, sim_data):
+        for idx, (sop, sparams_fields) in enumerate(zip(sim_opt_problems, sim_data)):
             sim = sop.sim
             sparams, e, h = sim.decorate(*sparams_fields)
             hz = np.asarray(h[2]).squeeze().T
@@ -209,13 +209,13 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
             if metric_interval > 0 and i % metric_interval == 0 and sop.metrics_fn is not None:
                 metrics = sop.metrics_fn(sparams)
                 for metric_name, metric_value in metrics.items():
-                    history[f'{metric_name}/{sop.sim.name}'].append(metric_value)
+                    history[f'{metric_name}/{idx}'].append(metric_value)
                     if metric_name not in all_metric_names:
                         all_metric_names.append(metric_name)
                 for title in viz.metrics_pipes[sop.sim.name] if viz is not None else ():
                     viz.metrics_pipes[sop.sim.name][title].send(
                         xarray.DataArray(
-                            data=np.asarray([history[f'{metric_name}/{sop.sim.name}']
+                            data=np.asarray([history[f'{metric_name}/{idx}']
                                              for metric_name in viz.metric_config[title]]),
                             coords={
                                 'metric': viz.metric_config[title],
@@ -226,9 +226,9 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
                         )
                     )
             if eps_interval > 0 and i % eps_interval == 0:
-                history[f'eps/{sop.sim.name}'].append((i, sop.sim.eps))
+                history[f'eps/{idx}'].append((i, sop.sim.eps))
             if field_interval > 0 and i % field_interval == 0:
-                history[f'field/{sop.sim.name}'].append((i, hz.T))
+                history[f'field/{idx}'].append((i, hz.T))
         if pbar is not None:
             iterator.set_description(f"𝓛: {v:.5f}")
         costs.append(jax.lax.stop_gradient(v))
@@ -237,8 +237,8 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
     _update_eps(opt_state)
 
     metrics = xarray.DataArray(
-        data=np.array([[history[f'{metric_name}/{sop.sim.name}']
-                        for metric_name in all_metric_names] for sop in sim_opt_problems]),
+        data=np.array([[history[f'{metric_name}/{idx}']
+                        for metric_name in all_metric_names] for idx in range(len(sim_opt_problems))]),
         coords={
             'name': [sop.sim.name for sop in sim_opt_problems],
             'metric': all_metric_names,
@@ -248,11 +248,11 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
         name='metrics'
     ) if sim_opt_problems and metric_interval != 0 else []
     eps = xarray.DataArray(
-        data=np.array([[eps for _, eps in history[f'eps/{sop.sim.name}']] if eps_interval > 0 else []
-                       for sop in sim_opt_problems]),
+        data=np.array([[eps for _, eps in history[f'eps/{idx}']] if eps_interval > 0 else []
+                       for idx in range(len(sim_opt_problems))]),
         coords={
             'name': [sop.sim.name for sop in sim_opt_problems],
-            'iteration': [it for it, _ in history[f'eps/{sim_opt_problems[0].sim.name}']],
+            'iteration': [it for it, _ in history['eps/0']],
             'x': np.arange(sim_opt_problems[0].sim.shape[0]),
             'y': np.arange(sim_opt_problems[0].sim.shape[1]),
         },
@@ -260,11 +260,11 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
         name='eps'
     ) if sim_opt_problems and eps_interval != 0 else []
     fields = xarray.DataArray(
-        data=np.asarray([[field for _, field in history[f'field/{sop.sim.name}']] if field_interval > 0 else []
-                         for sop in sim_opt_problems]),
+        data=np.asarray([[field for _, field in history[f'field/{idx}']] if field_interval > 0 else []
+                         for idx in range(len(sim_opt_problems))]),
         coords={
             'name': [sop.sim.name for sop in sim_opt_problems],
-            'iteration': [it for it, _ in history[f'field/{sim_opt_problems[0].sim.name}']],
+            'iteration': [it for it, _ in history['field/0']],
             'x': np.arange(sim_opt_problems[0].sim.shape[0]),
             'y': np.arange(sim_opt_problems[0].sim.shape[1]),
         },
-- 
2.43.0


From b602d7cee1333ec7b74cd450c56c08bac4ea1d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:28 +0000
Subject: [PATCH 55/84] fix: optimisations asking for metrics without metrics
 functions crashed at the end

---
 simphox/opt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/opt.py b/simphox/opt.py
index de5a4df..d08729f 100644
--- a/simphox/opt.py
+++ b/simphox/opt.py
@@ -246,7 +246,7 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
         },
         dims=['name', 'metric', 'iteration'],
         name='metrics'
-    ) if sim_opt_problems and metric_interval != 0 else []
+    ) if sim_opt_problems and all_metric_names else []
     eps = xarray.DataArray(
         data=np.array([[eps for _, eps in history[f'eps/{idx}']] if eps_interval > 0 else []
                        for idx in range(len(sim_opt_problems))]),
-- 
2.43.0


From a8e6263c3bb2d3693e833d8f6d85a77525645e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:09 +0000
Subject: [PATCH 56/84] fix: mode solver failed on cross-sections whose largest
 mode is exactly at the default shift

---
 simphox/mode.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simphox/mode.py b/simphox/mode.py
index 0390d71..43713dd 100644
--- a/simphox/mode.py
+++ b/simphox/mode.py
@@ -179,7 +179,8 @@ class ModeSolver(YeeGrid):
 
         df = self.deriv_forward
         if isinstance(beta_guess, float) or beta_guess is None:
-            sigma = beta_guess ** 2 if beta_guess else (self.k0 * np.sqrt(np.max(self.eps))) ** 2
+            # the default shift is just above the spectrum, as the solver cannot shift by an exact eigenvalue
+            sigma = beta_guess ** 2 if beta_guess else (self.k0 * np.sqrt(np.max(self.eps))) ** 2 * (1 + 1e-6)
             eigvals, eigvecs = eigs(self.waveguide_mode_matrix, k=max_num_modes, sigma=sigma, tol=tol)
         elif isinstance(beta_guess, tuple):
             erange = beta_guess[0] ** 2, beta_guess[1] ** 2
-- 
2.43.0


From 1e2a0174a23fe2e73c344ab395fac84d77d80d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:19 +0000
Subject: [PATCH 57/84] fix: magnetic fields derived by the mode solver had the
 sign of the opposite time convention

---
 simphox/mode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simphox/mode.py b/simphox/mode.py
index 43713dd..601c5d1 100644
--- a/simphox/mode.py
+++ b/simphox/mode.py
@@ -129,13 +129,13 @@ class ModeSolver(YeeGrid):
         Mathematically, this represents rearranging the Maxwell equation in the frequency domain:
 
         .. math::
-            i \\omega \\mu \\mathbf{h} &= \\nabla \\times \\mathbf{e}
+            -i \\omega \\mu \\mathbf{h} &= \\nabla \\times \\mathbf{e}
 
         Returns:
             The h-field converted from the e-field.
 
         """
-        return self.curl_fn(beta=beta)(self.reshape(e)) / (1j * self.k0)
+        return self.curl_fn(beta=beta)(self.reshape(e)) / (-1j * self.k0)
 
     def h2e(self, h: np.ndarray, beta: Optional[float] = None) -> np.ndarray:
         """Convert magnetic field :math:`\\mathbf{h}` to electric field :math:`\\mathbf{e}`.
-- 
2.43.0


From 5678d4fd12f7f5d692d23a7fc6511c3525bb0127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:01 +0000
Subject: [PATCH 58/84] fix: time-domain sources on regions with axes of a
 single pixel raised

---
 simphox/fdtd.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/simphox/fdtd.py b/simphox/fdtd.py
index 9980d79..9277b18 100644
--- a/simphox/fdtd.py
+++ b/simphox/fdtd.py
@@ -113,6 +113,10 @@ class FDTD(SimGrid):
         psi_h = None if self.pml_shape is None else [self.xp.zeros_like(p) for p in psi_e]
         return e, h, psi_e, psi_h
 
+    def _place(self, source: Array, field: Array) -> Array:
+        # axes of a single pixel may be present or not in the source and in the region
+        return self.xp.broadcast_to(source.squeeze(), field.squeeze().shape).reshape(field.shape)
+
     def _step_e(self, state: State, sources: List[Tuple[np.ndarray, np.ndarray, Tuple[slice, ...]]]):
         e, h, psi_e, psi_h = state
         psi_e = None if psi_e is None else list(psi_e)  # the state provided by the caller is not modified
@@ -136,9 +140,9 @@ class FDTD(SimGrid):
         for source, _, source_region in sources:
             if source is not None:
                 if self.use_jax:
-                    e = e.at[source_region].add(-source.squeeze() / eps_t[source_region] * self.dt)
+                    e = e.at[source_region].add(-self._place(source, e[source_region]) / eps_t[source_region] * self.dt)
                 else:
-                    e[source_region] -= source.squeeze() / eps_t[source_region] * self.dt
+                    e[source_region] -= self._place(source, e[source_region]) / eps_t[source_region] * self.dt
 
         return e, h, psi_e, psi_h
 
@@ -164,9 +168,9 @@ class FDTD(SimGrid):
         for _, source, source_region in sources:
             if source is not None:
                 if self.use_jax:
-                    h = h.at[source_region].add(-source.squeeze() * self.dt)
+                    h = h.at[source_region].add(-self._place(source, h[source_region]) * self.dt)
                 else:
-                    h[source_region] -= source.squeeze() * self.dt
+                    h[source_region] -= self._place(source, h[source_region]) * self.dt
 
         return e, h, psi_e, psi_h
 
-- 
2.43.0


From db3b8f265874f74b5444d64fb8905d9a8caa8a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:38 +0000
Subject: [PATCH 59/84] fix: sparse solves of matrices with duplicate entries
 ignored their sum

---
 simphox/mkl.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/simphox/mkl.py b/simphox/mkl.py
index 04c1e1c..c245864 100644
--- a/simphox/mkl.py
+++ b/simphox/mkl.py
@@ -120,8 +120,9 @@ class Pardiso:
         if mat.shape[0] != mat.shape[1] or mat.ndim > 2:
             raise ValueError(f'Expected mat square (i.e., shape (n, n)), but has shape: {mat.shape}')
 
-        if not mat.has_sorted_indices:
-            mat.sort_indices()
+        if not mat.has_canonical_format:  # pardiso needs sorted indices and ignores the sum of duplicate entries
+            mat = mat.copy()
+            mat.sum_duplicates()
 
         self.mat: sp.csr_matrix = mat
 
-- 
2.43.0


From 8702338d00045377b71177869f799c13a2e286fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:57 +0000
Subject: [PATCH 60/84] fix: smoothing raised for designs narrower than the
 kernel along one axis

---
 simphox/transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simphox/transform.py b/simphox/transform.py
index 8a694ad..a76a59d 100644
--- a/simphox/transform.py
+++ b/simphox/transform.py
@@ -26,7 +26,8 @@ def get_smooth_fn(beta: float, radius: float, eta: float = 0.5):
     kernel = kernel / kernel.sum()
 
     def smooth(rho: jnp.ndarray):
-        rho = conv(rho, kernel, mode='same')
+        # zero padding instead of mode='same', which needs the design to exceed the kernel along all axes (or none)
+        rho = conv(jnp.pad(rho, int(radius)), kernel, mode='valid')
         return jnp.divide(jnp.tanh(beta * eta) + jnp.tanh(beta * (rho - eta)),
                           jnp.tanh(beta * eta) + jnp.tanh(beta * (1 - eta)))
 
-- 
2.43.0


From 4ae4152bcaaf3b14beee5cdddde9045707a9de78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:00 +0000
Subject: [PATCH 61/84] fix: copied symmetries of NumPy designs raised

---
 simphox/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simphox/transform.py b/simphox/transform.py
index a76a59d..62107d6 100644
--- a/simphox/transform.py
+++ b/simphox/transform.py
@@ -55,8 +55,8 @@ def get_symmetry_fn(ortho_x: bool = False, ortho_y: bool = False, diag_p: bool =
         ortho_x_fn = (lambda x: (x + x[::-1]) / 2) if ortho_x else identity
         ortho_y_fn = (lambda x: (x + x[:, ::-1]) / 2) if ortho_y else identity
     else:
-        ortho_x_fn = (lambda x: x.at[x.shape[0] // 2:, :].set(x[:(x.shape[0] + 1) // 2, :][::-1, :])) if ortho_x else identity
-        ortho_y_fn = (lambda x: x.at[:, x.shape[1] // 2:].set(x[:, :(x.shape[1] + 1) // 2][:, ::-1])) if ortho_y else identity
+        ortho_x_fn = (lambda x: jnp.asarray(x).at[x.shape[0] // 2:, :].set(x[:(x.shape[0] + 1) // 2, :][::-1, :])) if ortho_x else identity
+        ortho_y_fn = (lambda x: jnp.asarray(x).at[:, x.shape[1] // 2:].set(x[:, :(x.shape[1] + 1) // 2][:, ::-1])) if ortho_y else identity
     return lambda x: diag_p_fn(diag_n_fn(ortho_x_fn(ortho_y_fn(x))))
 
 
-- 
2.43.0


From fde786ffebe9b0783b37373808d6adfdcb62567b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:30 +0000
Subject: [PATCH 62/84] fix: boxes reaching below the array edge masked no
 cells or the wrong ones

---
 simphox/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simphox/utils.py b/simphox/utils.py
index db7137d..433a866 100644
--- a/simphox/utils.py
+++ b/simphox/utils.py
@@ -106,7 +106,8 @@ class Box:
 
     @property
     def slice(self) -> Tuple[slice, slice]:
-        return slice(self.min_i[0], self.max_i[0]), slice(self.min_i[1], self.max_i[1])
+        # negative indices would count from the end of the array
+        return tuple(slice(max(start, 0), max(stop, 0)) for start, stop in zip(self.min_i, self.max_i))
 
     @property
     def copy(self) -> "Box":
-- 
2.43.0


From 3feb640100f802be3bc86b285c300a5a6ec29b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:13 +0000
Subject: [PATCH 63/84] fix: the transform of optimisation problems without
 simulation was ignored

---
 simphox/opt.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simphox/opt.py b/simphox/opt.py
index d08729f..531002e 100644
--- a/simphox/opt.py
+++ b/simphox/opt.py
@@ -62,7 +62,7 @@ class OptProblem:
 
     def __post_init__(self):
         self.fn = self.sim.get_sim_sparams_fn(self.source, self.transform_fn)\
-            if self.source is not None else self.transform_fn
+            if self.sim is not None and self.source is not None else self.transform_fn
 
 
 @fix_dataclass_init_docs
@@ -164,8 +164,8 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
         if not len(viz.simulations_pipes) == len(sim_opt_problems):
             raise ValueError("Number of viz_pipes must match number of opt problems")
 
-    # Define the simulation and objective function acting on parameters rho
-    solve_fn = [None if (op.source is None or op.sim is None) else op.fn for op in opt_problems]
+    # Define the simulation (or only the transform) and objective function acting on parameters rho
+    solve_fn = [op.fn for op in opt_problems]
 
     def overall_cost_fn(rho: jnp.ndarray):
         evals = [op.cost_fn(s(rho)) if s is not None else op.cost_fn(rho) for op, s in zip(opt_problems, solve_fn)]
-- 
2.43.0


From 7788f958a7571361dff63c242154123bde1ed24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:17 +0000
Subject: [PATCH 64/84] fix: optimisations of problems with different metrics
 crashed at the end

---
 simphox/opt.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/simphox/opt.py b/simphox/opt.py
index 531002e..be2552b 100644
--- a/simphox/opt.py
+++ b/simphox/opt.py
@@ -236,13 +236,14 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
             viz.costs_pipe.send(np.asarray(costs))
     _update_eps(opt_state)
 
+    metric_iters = np.arange(0, num_iters, metric_interval) if metric_interval > 0 else []
     metrics = xarray.DataArray(
-        data=np.array([[history[f'{metric_name}/{idx}']
+        data=np.array([[history.get(f'{metric_name}/{idx}', [np.nan] * len(metric_iters))  # not a metric of this problem
                         for metric_name in all_metric_names] for idx in range(len(sim_opt_problems))]),
         coords={
             'name': [sop.sim.name for sop in sim_opt_problems],
             'metric': all_metric_names,
-            'iteration': np.arange(0, num_iters, metric_interval)
+            'iteration': metric_iters
         },
         dims=['name', 'metric', 'iteration'],
         name='metrics'
-- 
2.43.0


From abd8815140d3aaed764208a004d481d162c3e7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:28 +0000
Subject: [PATCH 65/84] fix: modes of port cross-sections used the spacing of
 the first axis whatever axes they span

---
 simphox/sim.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/simphox/sim.py b/simphox/sim.py
index 57f486d..cdebe4b 100644
--- a/simphox/sim.py
+++ b/simphox/sim.py
@@ -115,10 +115,12 @@ class SimGrid(YeeGrid):
         """
         if wavelength is None:
             wavelength = getattr(self, 'wavelength', 1.55)
-        mode_eps = self.eps.reshape(self.shape3)[self.slice(center, size)].squeeze()
-        mode_size = tuple(np.array(mode_eps.shape) * self.spacing[0])
+        mode_eps = self.eps.reshape(self.shape3)[self.slice(center, size, squeezed=False)]
+        mode_spacing = self.spacing3[np.array(mode_eps.shape) > 1]  # of the axes spanned by the cross-section
+        mode_eps = mode_eps.squeeze()
+        mode_size = tuple(np.array(mode_eps.shape) * mode_spacing)
         modes = ModeLibrary(
-            ModeSolver(size=mode_size, spacing=self.spacing[0], eps=mode_eps, wavelength=wavelength),
+            ModeSolver(size=mode_size, spacing=tuple(mode_spacing), eps=mode_eps, wavelength=wavelength),
             max_num_modes=num_modes
         )
         return SimCrossSection(modes, center, size, wavelength)
-- 
2.43.0


From cee00219975531d203008d4c66a89e23cfaf5cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:06 +0000
Subject: [PATCH 66/84] fix: grids given integer permittivity arrays truncated
 later edits

---
 simphox/grid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simphox/grid.py b/simphox/grid.py
index fb26af6..fd11f94 100644
--- a/simphox/grid.py
+++ b/simphox/grid.py
@@ -73,6 +73,8 @@ class Grid:
 
         self.n = np.prod(self.shape)
         self.eps: np.ndarray = np.ones(self.shape) * eps if not isinstance(eps, np.ndarray) else eps.copy()
+        if not np.issubdtype(self.eps.dtype, np.inexact):
+            self.eps = self.eps.astype(float)  # later edits are not necessarily integers
         if not tuple(self.shape) == self.eps.shape:
             raise AttributeError(f'Require grid.shape == eps.shape but got '
                                  f'{self.shape} != {self.eps.shape}')
-- 
2.43.0


From 0c812dbe7e7975926bd6d2f2ac815b77a8561d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:26 +0000
Subject: [PATCH 67/84] fix: normalized_error was undefined at the target and
 above one for scaled matrices

---
 simphox/utils.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/simphox/utils.py b/simphox/utils.py
index 433a866..d4dd79d 100644
--- a/simphox/utils.py
+++ b/simphox/utils.py
@@ -300,8 +300,14 @@ def normalized_error(u: np.ndarray, use_jax: bool = False):
 
     xp = jnp if use_jax else np
     u = jnp.array(u) if use_jax else u
-    return lambda uhat: xp.sqrt(
-        1 - xp.abs(xp.trace(u.conj().T @ uhat)) ** 2 / xp.abs(xp.trace(uhat.conj().T @ uhat)) ** 2)
+    norm = xp.sum(xp.abs(u) ** 2)
+
+    def error(uhat):
+        err = 1 - xp.abs(xp.trace(u.conj().T @ uhat)) ** 2 / (norm * xp.sum(xp.abs(uhat) ** 2))
+        # rounding may take the error of (a multiple of) the target below zero, where the square root has no slope
+        return xp.where(err > 0, xp.sqrt(xp.where(err > 0, err, 1)), 0)
+
+    return error
 
 
 def beta_pdf(x, a, b):
-- 
2.43.0


From 8f50a107c3454912f999e094b7a2a5f11ac8abac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:26 +0000
Subject: [PATCH 68/84] fix: fidelity of complex desired scattering parameters
 lacked the conjugate

---
 simphox/sim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/sim.py b/simphox/sim.py
index cdebe4b..4fd11bc 100644
--- a/simphox/sim.py
+++ b/simphox/sim.py
@@ -488,7 +488,7 @@ class SimGrid(YeeGrid):
         for port, weight in desired_sparams.items():
             key = (port, 0) if isinstance(port, str) else port
             s[measure_info.index(key)] = weight
-        s = jnp.array(s / np.linalg.norm(s))
+        s = jnp.array(s / np.linalg.norm(s)).conj()  # the overlap with the desired sparams conjugates them
 
         if insertion_weight != 0:
             def obj(sparams_fields: Tuple[jnp.ndarray, jnp.ndarray]):
-- 
2.43.0


From fd3ec2f16e0f970e2a6c6d3041120488924cff3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:09 +0000
Subject: [PATCH 69/84] fix: patterns reaching beyond the grid were accepted
 unless only their minimum x was negative

---
 simphox/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/grid.py b/simphox/grid.py
index fd11f94..fc91899 100644
--- a/simphox/grid.py
+++ b/simphox/grid.py
@@ -118,7 +118,7 @@ class Grid:
 
         """
         b = component.bounds
-        if not b[0] >= 0 and b[1] >= 0 and b[2] <= self.size[0] and b[3] <= self.size[1]:
+        if not (b[0] >= 0 and b[1] >= 0 and b[2] <= self.size[0] and b[3] <= self.size[1]):
             raise ValueError('The pattern must have min x, y >= 0 and max x, y less than size.')
         self.components.append(component)
         mask = component.mask(self.shape[:2], self.spacing)[:self.eps.shape[0], :self.eps.shape[1]]
-- 
2.43.0


From a47877e04fd729878df4149e62d5ac247580b50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:09 +0000
Subject: [PATCH 70/84] fix: simulations built from patterns lost the rib when
 there is no substrate

---
 simphox/fdfd.py | 8 ++++++--
 simphox/fdtd.py | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/simphox/fdfd.py b/simphox/fdfd.py
index 6021d5c..260d59d 100644
--- a/simphox/fdfd.py
+++ b/simphox/fdfd.py
@@ -302,8 +302,12 @@ class FDFD(SimGrid):
         spacing = spacing * np.ones(2 + (component_t > 0)) if isinstance(spacing, float) else np.asarray(spacing)
         size = (x, y, height) if height > 0 else (x, y)
         grid = cls(size, spacing, wavelength=wavelength, eps=bg_eps, pml=pml, name=name)
-        grid.fill(sub_z + rib_t, core_eps)
-        grid.fill(sub_z, clad_eps)
+        if sub_z <= 0:
+            grid.fill(sub_z, clad_eps)
+        if rib_t > 0:
+            grid.fill(sub_z + rib_t, core_eps)
+        if sub_z > 0:
+            grid.fill(sub_z, clad_eps)
         grid.add(component, core_eps, component_zmin, component_t)
         return grid
 
diff --git a/simphox/fdtd.py b/simphox/fdtd.py
index 9277b18..ecdca94 100644
--- a/simphox/fdtd.py
+++ b/simphox/fdtd.py
@@ -84,8 +84,12 @@ class FDTD(SimGrid):
         spacing = spacing * np.ones(2 + (component_t > 0)) if isinstance(spacing, float) else np.asarray(spacing)
         size = (x, y, height) if height > 0 else (x, y)
         grid = cls(size, spacing, eps=bg_eps, pml=pml, name=name)
-        grid.fill(sub_z + rib_t, core_eps)
-        grid.fill(sub_z, clad_eps)
+        if sub_z <= 0:
+            grid.fill(sub_z, clad_eps)
+        if rib_t > 0:
+            grid.fill(sub_z + rib_t, core_eps)
+        if sub_z > 0:
+            grid.fill(sub_z, clad_eps)
         grid.add(component, core_eps, component_zmin, component_t)
         return grid
 
-- 
2.43.0


From 41faecd106f7c5cf8dc13eab93d21c05d6e29d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:09 +0000
Subject: [PATCH 71/84] fix: chain matrices of vectors with leading zeros were
 undefined

---
 simphox/circuit/matrix.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/simphox/circuit/matrix.py b/simphox/circuit/matrix.py
index 3b7c871..bb32c94 100644
--- a/simphox/circuit/matrix.py
+++ b/simphox/circuit/matrix.py
@@ -109,11 +109,15 @@ def dirichlet_matrix(v, embed_dim=None):
     y = np.abs(v) ** 2
     yop = np.sqrt(np.outer(y, y))
     ysum = np.cumsum(y)
-    yden = 1 / np.sqrt(ysum[:-1] * ysum[1:])
+    empty = np.flatnonzero(ysum[:-1] == 0)  # no power up to here, so there is nothing to combine
+    yden = ysum[:-1] * ysum[1:]
+    yden[empty] = 1
+    yden = 1 / np.sqrt(yden)
     u = np.zeros_like(yop, dtype=np.complex128)
     u[1:, :] = yden[:, np.newaxis] * yop[1:, :]
     u[np.triu_indices(v.size)] = 0
     u[1:, 1:][np.diag_indices(v.size - 1)] = -ysum[:-1] * yden
+    u[empty + 1, empty] = 1
     u[0] = np.sqrt(y / ysum[-1])
     u *= phases
     u = np.roll(u, -1, axis=0) if embed_dim is None else sp.linalg.block_diag(np.roll(u, -1, axis=0),
-- 
2.43.0


From 422174eb43811c8b730f7a424d3f32489fda9fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:09 +0000
Subject: [PATCH 72/84] fix: cosine-sine decompositions failed for unitaries
 with degenerate blocks

---
 simphox/circuit/matrix.py | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/simphox/circuit/matrix.py b/simphox/circuit/matrix.py
index bb32c94..474b905 100644
--- a/simphox/circuit/matrix.py
+++ b/simphox/circuit/matrix.py
@@ -9,7 +9,7 @@ from .vector import vector_unit
 from scipy.stats import unitary_group
 import numpy as np
 
-from scipy.linalg import svd, qr, block_diag
+from scipy.linalg import svd, cossin, block_diag
 from .coupling import CouplingNode
 from .forward import ForwardMesh
 
@@ -146,21 +146,11 @@ def cs(mat: np.ndarray):
     """
     n = mat.shape[0]
     m = n // 2
-    q00 = mat[:m, :m]
-    q10 = mat[m:, :m]
-    q01 = mat[:m, m:]
-    q11 = mat[m:, m:]
-    l0, d00, r0 = svd(q00)
-    r1hp, d01 = qr(q01.conj().T @ l0)
-    theta = np.arcsin(d00)
-    d01 = np.append(np.diag(d01), 1) if n % 2 else np.diag(d01)
-    r1 = (r1hp * np.sign(d01)).conj().T
-    l1p, d10 = qr(q10 @ r0.conj().T)
-    d10 = np.append(np.diag(d10), 1) if n % 2 else np.diag(d10)
-    l1 = l1p * np.sign(d10)
-    phasor = (l1.conj().T @ q11 @ r1.conj().T)[-1, -1] if n % 2 else None
-    if n % 2:
-        r1[-1] *= phasor
+    (l0, l1), phases, (r0, r1) = cossin(mat, p=m, q=m, separate=True)
+    theta = np.pi / 2 - phases
+    if n % 2:  # the remaining uncoupled mode is the last one
+        l1, r1 = np.roll(l1, -1, axis=1), np.roll(r1, -1, axis=0)
+    r1 = np.vstack((-r1[:m], r1[m:]))
     return l0, l1, r0, r1, theta
 
 
-- 
2.43.0


From 47a22ee6dcf3f1fcf232037748f7bbf26d09235b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:28 +0000
Subject: [PATCH 73/84] fix: move phases through non-square grids and integer
 phases (grid_common_mode_flow)

---
 simphox/circuit/rectangular.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simphox/circuit/rectangular.py b/simphox/circuit/rectangular.py
index 1a1b0e5..2c4f70c 100644
--- a/simphox/circuit/rectangular.py
+++ b/simphox/circuit/rectangular.py
@@ -64,10 +64,10 @@ def grid_common_mode_flow(external_phases: np.ndarray, gamma: np.ndarray = None)
         new external phases shifts and new gamma resulting
 
     """
-    gamma = np.zeros(external_phases.shape[1]) if gamma is None else gamma
     units, num_layers = external_phases.shape
-    phase_shifts = np.hstack((external_phases, gamma[:, np.newaxis])).T
-    new_phase_shifts = np.zeros_like(external_phases.T)
+    gamma = np.zeros(units) if gamma is None else gamma  # one input phase shift per rail
+    phase_shifts = np.hstack((external_phases, gamma[:, np.newaxis])).T.astype(float)
+    new_phase_shifts = np.zeros((num_layers, units))
 
     for i in range(num_layers):
         start_idx = i % 2
-- 
2.43.0


From ec8d048c54ff8fdcd8764473f8ca8407d3b3a801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:18 +0000
Subject: [PATCH 74/84] fix: optimisation runs of zero iterations with
 permittivity or field recording no longer fail

---
 simphox/opt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simphox/opt.py b/simphox/opt.py
index be2552b..4300d81 100644
--- a/simphox/opt.py
+++ b/simphox/opt.py
@@ -259,7 +259,7 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
         },
         dims=['name', 'iteration', 'x', 'y'],
         name='eps'
-    ) if sim_opt_problems and eps_interval != 0 else []
+    ) if sim_opt_problems and history['eps/0'] else []
     fields = xarray.DataArray(
         data=np.asarray([[field for _, field in history[f'field/{idx}']] if field_interval > 0 else []
                          for idx in range(len(sim_opt_problems))]),
@@ -271,7 +271,7 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
         },
         dims=['name', 'iteration', 'x', 'y'],
         name='fields'
-    ) if sim_opt_problems and field_interval != 0 else []
+    ) if sim_opt_problems and history['field/0'] else []
     return OptRecord(costs=np.asarray(costs), params=get_params(opt_state), metrics=metrics, eps=eps, fields=fields)
 
 
-- 
2.43.0


From 180f64fc5b8fa79b84cd18f06d75a0ee75808020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:00 +0000
Subject: [PATCH 75/84] fix: lengths of whole pixels no longer lose a pixel to
 rounding

---
 simphox/grid.py  |  8 ++++----
 simphox/utils.py | 19 +++++++++++++++++--
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/simphox/grid.py b/simphox/grid.py
index fc91899..a2a6615 100644
--- a/simphox/grid.py
+++ b/simphox/grid.py
@@ -5,7 +5,7 @@ import numpy as np
 import scipy.sparse as sp
 
 from .typing import Size, Size3, Spacing, Optional, List, Union, Dict, Op, Tuple
-from .utils import curl_fn, yee_avg, fix_dataclass_init_docs, Box
+from .utils import curl_fn, yee_avg, fix_dataclass_init_docs, to_pixels, Box
 
 try:
     DPHOX_IMPORTED = True
@@ -99,7 +99,7 @@ class Grid:
 
         """
         if height > 0:
-            self.eps[..., :int(height / self.spacing[-1])] = eps
+            self.eps[..., :to_pixels(height, self.spacing[-1])] = eps
         else:
             self.eps = np.ones_like(self.eps) * eps
         return self
@@ -125,7 +125,7 @@ class Grid:
         if self.ndim == 2:
             self.eps[mask == 1] = eps
         else:
-            zidx = (int(zmin / self.spacing[2]), int((zmin + thickness) / self.spacing[2]))
+            zidx = (to_pixels(zmin, self.spacing[2]), to_pixels(zmin + thickness, self.spacing[2]))
             self.eps[mask == 1, zidx[0]:zidx[1]] = eps
         zmin, thickness = zmin or 0, thickness or 0  # not required for 2D grids
         self.port = {port_name: Port(*port.xya, port.w, zmin + thickness / 2, thickness)
@@ -348,7 +348,7 @@ class YeeGrid(Grid):
         super(YeeGrid, self).__init__(size, spacing, eps)
         self.pml = pml
         self.pml_sep = pml_sep
-        self.pml_shape = pml if pml is None else (np.asarray(pml, dtype=float) / self.spacing).astype(int)
+        self.pml_shape = pml if pml is None else to_pixels(pml, self.spacing)
         self.pml_params = pml_params
         self.name = name
         if self.pml_shape is not None:
diff --git a/simphox/utils.py b/simphox/utils.py
index d4dd79d..f1b9aae 100644
--- a/simphox/utils.py
+++ b/simphox/utils.py
@@ -30,6 +30,21 @@ def fix_dataclass_init_docs(cls):
     return cls
 
 
+def to_pixels(length: Union[float, Size3], spacing: Union[float, np.ndarray]):
+    """Number of whole pixels in a length (or array of lengths).
+
+    Args:
+        length: Length (in the same units as the spacing)
+        spacing: Spacing between the pixels
+
+    Returns:
+        The number(s) of pixels, where the rounding error of the division does not lose a whole pixel.
+
+    """
+    pixels = np.around(np.asarray(length, dtype=float) / spacing, 6).astype(int)
+    return pixels if pixels.ndim else int(pixels)
+
+
 @fix_dataclass_init_docs
 @dataclass
 class Material:
@@ -90,11 +105,11 @@ class Box:
 
     @property
     def min_i(self):
-        return int(self.min[0] / self.spacing), int(self.min[1] / self.spacing)
+        return to_pixels(self.min[0], self.spacing), to_pixels(self.min[1], self.spacing)
 
     @property
     def max_i(self):
-        return int(self.max[0] / self.spacing), int(self.max[1] / self.spacing)
+        return to_pixels(self.max[0], self.spacing), to_pixels(self.max[1], self.spacing)
 
     @property
     def shape(self):
-- 
2.43.0


From a46c06871784ddf51d39b3dcdebe81864a785419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:50 +0000
Subject: [PATCH 76/84] fix: sparse solves of matrices with strided data or
 64-bit indices

---
 simphox/mkl.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/simphox/mkl.py b/simphox/mkl.py
index c245864..3efe870 100644
--- a/simphox/mkl.py
+++ b/simphox/mkl.py
@@ -126,13 +126,14 @@ class Pardiso:
 
         self.mat: sp.csr_matrix = mat
 
-        self.a = self.mat.data
+        # pardiso needs contiguous arrays and 32-bit indices
+        self.a = np.ascontiguousarray(self.mat.data)
         self.a_ = self.a.ctypes.data_as(self.ctypes_dtype)
 
-        self.ia = self.mat.indptr
+        self.ia = np.ascontiguousarray(self.mat.indptr, dtype=np.int32)
         self.ia_ = self.ia.ctypes.data_as(POINTER(c_int))
 
-        self.ja = self.mat.indices
+        self.ja = np.ascontiguousarray(self.mat.indices, dtype=np.int32)
         self.ja_ = self.ja.ctypes.data_as(POINTER(c_int))
 
         self.n = mat.shape[0]
-- 
2.43.0


From d5d47cf72ed3cb9760e03398ea4118bd30b89bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:50 +0000
Subject: [PATCH 77/84] fix: real sources of differentiable frequency-domain
 simulations

---
 simphox/fdfd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/fdfd.py b/simphox/fdfd.py
index 260d59d..f24f188 100644
--- a/simphox/fdfd.py
+++ b/simphox/fdfd.py
@@ -347,7 +347,7 @@ class FDFD(SimGrid):
             A solve function (2d or 3d based on defined :code:`ndim` specified for the instance of :code:`FDFD`).
 
         """
-        src = jnp.ravel(jnp.array(src))
+        src = jnp.ravel(jnp.array(src, dtype=np.complex128))  # the fields are complex even if the source is real
         k0 = self.k0
         transform_fn = transform_fn if transform_fn is not None else lambda x: x
         shape3 = self.shape3
-- 
2.43.0


From bdc4f971e49adaffdd325384d1f0791aeca1cd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:50 +0000
Subject: [PATCH 78/84] fix: gradients of TM simulations with complex
 permittivity

---
 simphox/primitives.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/simphox/primitives.py b/simphox/primitives.py
index 0c543b2..1533677 100644
--- a/simphox/primitives.py
+++ b/simphox/primitives.py
@@ -94,19 +94,18 @@ class TMOperator:
 
         def _te_backward_hcb(g: jnp.ndarray) -> jnp.ndarray:
             g = sp.coo_matrix((g, (c_indices[1], c_indices[0])), shape=(n, n))
-            complex_res = b.dot(g.dot(a)).diagonal()
-            return complex_res.real
+            return b.dot(g.dot(a)).diagonal()
 
         @jax.custom_vjp
         def te(t: jnp.ndarray):
             return hcb.call(_te_hcb, t, result_shape=jax.ShapeDtypeStruct((size,), np.complex128))
 
         def te_fwd(t: jnp.ndarray):
-            return te(t), None
+            return te(t), t
 
-        def te_bwd(_, g):
-            v = hcb.call(_te_backward_hcb, g, result_shape=jax.ShapeDtypeStruct((n,), np.float64))
-            return v,
+        def te_bwd(t, g):
+            v = hcb.call(_te_backward_hcb, g, result_shape=jax.ShapeDtypeStruct((n,), np.complex128))
+            return v if jnp.iscomplexobj(t) else v.real,
 
         te.defvjp(te_fwd, te_bwd)
 
-- 
2.43.0


From 9d30887d6966232360787c7e0364c7d0c9d58f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:41 +0000
Subject: [PATCH 79/84] fix: separate errors of the right splitters
 (add_error_mean)

---
 simphox/circuit/forward.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index 215fea1..cd0f2bc 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -575,6 +575,7 @@ class ForwardMesh:
         Args:
             error: Phase-parametrized error for the left (and right if not specified) splitters
             loss_db: The loss in dB.
+            error_right: Phase-parametrized error for the right splitters, if different from the left ones.
 
         Returns:
             A new :code:`ForwardCouplingCircuit` with the modified error terms.
@@ -582,6 +583,11 @@ class ForwardMesh:
         """
         new_nodes = copy.deepcopy(self.nodes)
         error = error * np.ones_like(self.bs_errors) if not isinstance(error, np.ndarray) else error
+        if error_right is not None:
+            left = error[:, 0] if error.ndim == 2 else error
+            error = np.stack((left, error_right * np.ones(len(new_nodes))), axis=-1)
+        elif error.ndim == 1:
+            error = np.stack((error, error), axis=-1)
         loss_db = loss_db * np.ones_like(self.losses) if not isinstance(loss_db, np.ndarray) else loss_db
         for node, e, loss in zip(new_nodes, error, loss_db):
             node.bs_error = tuple(e)
-- 
2.43.0


From 4c011025ad73c6cb8daa943d550ba9ad3e6e292d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:41 +0000
Subject: [PATCH 80/84] fix: cascades of fewer basis vectors than rails

---
 simphox/circuit/matrix.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/simphox/circuit/matrix.py b/simphox/circuit/matrix.py
index 474b905..f294455 100644
--- a/simphox/circuit/matrix.py
+++ b/simphox/circuit/matrix.py
@@ -34,14 +34,15 @@ def cascade(u: np.ndarray, balanced: bool = True, phase_style: str = PhaseStyle.
     thetas = np.array([])
     phis = np.array([])
     gammas = np.array([])
-    n_rails = u.shape[0]
+    k, n_rails = u.shape
     num_columns = 0
     num_nodes = 0
 
     w = u.conj().T.copy()
-    for i in reversed(range(n_rails + 1 - u.shape[1], n_rails)):
+    # a unit for each row of u, except for the first row of a unitary (which follows from the others)
+    for i in reversed(range(max(n_rails - k, 1), n_rails)):
         # Generate the architecture as well as the theta and phi for each row of u.
-        network, w = vector_unit(w[:i + 1, :i + 1], n_rails, balanced, phase_style,
+        network, w = vector_unit(w[:i + 1, :i + 1 + k - n_rails], n_rails, balanced, phase_style,
                                  error_mean_std, loss_mean_std)
 
         # Update the phases.
@@ -60,7 +61,8 @@ def cascade(u: np.ndarray, balanced: bool = True, phase_style: str = PhaseStyle.
         # The number of columns and nodes in the architecture are incremented by the subunit size (log_2(i))
         num_columns += subunits[-1].num_columns
         num_nodes += subunits[-1].num_nodes
-    gammas = np.hstack((-np.angle(w[0, 0]), gammas))
+    # the remaining outputs are unspecified if there are fewer basis vectors than rails
+    gammas = np.hstack((-np.angle(w[0, 0]) if k == n_rails else np.zeros(n_rails - k), gammas))
     unit = ForwardMesh.aggregate(subunits)
     unit.params = thetas, phis, gammas
     return unit
-- 
2.43.0


From dc8a740f94e5c750f76b2cbd2ff08b56c0e5ae9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:41 +0000
Subject: [PATCH 81/84] fix: TE runs of time-domain simulations injected the TM
 mode

---
 simphox/fdtd.py | 3 ++-
 simphox/sim.py  | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/simphox/fdtd.py b/simphox/fdtd.py
index ecdca94..8c1e83a 100644
--- a/simphox/fdtd.py
+++ b/simphox/fdtd.py
@@ -284,7 +284,8 @@ class FDTD(SimGrid):
             for p, midx in source_excitation:
                 mode = source_modes[p]
                 time_shift = np.exp(1j * step * self.dt * k0)
-                src_e, src_h, src_slice = mode.profile(midx), mode.profile(midx, use_h=True), mode.slice(self)
+                src_e, src_h = mode.profile(midx, tm_2d=tm_2d), mode.profile(midx, use_h=True, tm_2d=tm_2d)
+                src_slice = mode.slice(self)
                 sources.append((src_e * time_shift, src_h * time_shift, src_slice))
             _, h_before, _, _ = state
             state = self.step(state, sources)
diff --git a/simphox/sim.py b/simphox/sim.py
index 4fd11bc..6dde008 100644
--- a/simphox/sim.py
+++ b/simphox/sim.py
@@ -48,12 +48,13 @@ class SimCrossSection:
         # Find
         return np.where(np.array(self.size) == 0)[0][0]
 
-    def profile(self, mode_idx: int, use_h: float = False):
+    def profile(self, mode_idx: int, use_h: float = False, tm_2d: bool = True):
         """Returns the mode profile oriented based on specified xyz size of the profile.
 
         Args:
             mode_idx: The mode index of the profile
             use_h: Return the h field for the profile
+            tm_2d: Use the TM polarization (only relevant for the 1D profiles of 2D simulations)
 
         Returns:
             The oriented profile.
@@ -75,7 +76,7 @@ class SimCrossSection:
             np.asarray((1, 1, -1), dtype=int)
         ][self.prop_axis]
 
-        mode = self.io.h(mode_idx) if use_h else self.io.e(mode_idx)
+        mode = self.io.h(mode_idx, tm_2d=tm_2d) if use_h else self.io.e(mode_idx, tm_2d=tm_2d)
         mode = np.stack([signs[0] * mode[axes[0]], signs[1] * mode[axes[1]], signs[2] * mode[axes[2]]])
 
         return mode.transpose((0, *tuple(1 + axes)))
-- 
2.43.0


From 61a2b1199f1839aaa85248a5acc719d2653f97b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:41 +0000
Subject: [PATCH 82/84] fix: integer or array Bloch phases were rejected

---
 simphox/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simphox/grid.py b/simphox/grid.py
index a2a6615..2df9115 100644
--- a/simphox/grid.py
+++ b/simphox/grid.py
@@ -357,12 +357,12 @@ class YeeGrid(Grid):
         if pml is not None and not len(self.pml_shape) == len(self.shape):
             raise AttributeError('Need len(pml_shape) == grid.shape,'
                                  f'got ({len(pml)}, {len(self.shape)}).')
-        self.bloch = np.ones_like(self.shape) * np.exp(1j * np.asarray(bloch_phase)) if isinstance(bloch_phase, float) \
+        self.bloch = np.ones_like(self.shape) * np.exp(1j * np.asarray(bloch_phase)) if np.isscalar(bloch_phase) \
             else np.exp(1j * np.asarray(bloch_phase))
         if not len(self.bloch) == len(self.shape):
             raise AttributeError(f'Need bloch_phase.size == grid.shape,'
                                  f'got ({len(self.bloch)}, {len(self.shape)}).')
-        self.dtype = np.float64 if pml is None and bloch_phase == 0 else np.complex128
+        self.dtype = np.float64 if pml is None and np.isscalar(bloch_phase) and bloch_phase == 0 else np.complex128
         self._dxes = np.meshgrid(*self.cells, indexing='ij'), np.meshgrid(*self.cells, indexing='ij')
 
     def deriv(self, back: bool = False) -> List[sp.spmatrix]:
-- 
2.43.0


From c43c08a0eec5438ab67c77b0147e8dedd66e1516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:27 +0000
Subject: [PATCH 83/84] fix: modes of a range included unconverged ones

---
 simphox/mode.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simphox/mode.py b/simphox/mode.py
index 601c5d1..d4b6398 100644
--- a/simphox/mode.py
+++ b/simphox/mode.py
@@ -184,7 +184,9 @@ class ModeSolver(YeeGrid):
             eigvals, eigvecs = eigs(self.waveguide_mode_matrix, k=max_num_modes, sigma=sigma, tol=tol)
         elif isinstance(beta_guess, tuple):
             erange = beta_guess[0] ** 2, beta_guess[1] ** 2
-            eigvals, eigvecs, _, _, _, _ = feast_eigs(self.waveguide_mode_matrix, erange=erange, k=max_num_modes)
+            eigvals, eigvecs, num_modes, _, _, _ = feast_eigs(self.waveguide_mode_matrix, erange=erange, k=max_num_modes)
+            # the solver only finds the modes in the range, the remaining columns have not converged
+            eigvals, eigvecs = eigvals[:num_modes], eigvecs[:, :num_modes]
         else:
             raise TypeError(f'Expected beta_guess to be None, float, or Tuple[float, float] but got {type(beta_guess)}')
 
-- 
2.43.0


From 4b8ae7c6931c01a6eef0ec791cab032084cc2ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:27 +0000
Subject: [PATCH 84/84] fix: edits with lossy materials lost their losses

---
 simphox/grid.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/simphox/grid.py b/simphox/grid.py
index 2df9115..c7f0788 100644
--- a/simphox/grid.py
+++ b/simphox/grid.py
@@ -87,6 +87,10 @@ class Grid:
         # used to handle special functions of waveguide-based components
         self.port: Dict[str, Port] = {}
 
+    def _accommodate(self, eps: float):
+        # a real grid becomes complex once it contains a lossy material
+        self.eps = self.eps.astype(np.result_type(self.eps, eps), copy=False)
+
     def fill(self, height: float, eps: float) -> "Grid":
         """Fill grid up to `height`, typically used for substrate + cladding epsilon settings
 
@@ -99,6 +103,7 @@ class Grid:
 
         """
         if height > 0:
+            self._accommodate(eps)
             self.eps[..., :to_pixels(height, self.spacing[-1])] = eps
         else:
             self.eps = np.ones_like(self.eps) * eps
@@ -121,6 +126,7 @@ class Grid:
         if not (b[0] >= 0 and b[1] >= 0 and b[2] <= self.size[0] and b[3] <= self.size[1]):
             raise ValueError('The pattern must have min x, y >= 0 and max x, y less than size.')
         self.components.append(component)
+        self._accommodate(eps)
         mask = component.mask(self.shape[:2], self.spacing)[:self.eps.shape[0], :self.eps.shape[1]]
         if self.ndim == 2:
             self.eps[mask == 1] = eps
@@ -145,6 +151,7 @@ class Grid:
 
         """
         s = self.slice(center, size, squeezed=True)
+        self._accommodate(eps)
         eps_3d = self.eps.reshape(self.shape3)
         eps_3d[s] = eps
         self.eps = eps_3d.reshape(self.shape)
-- 
2.43.0


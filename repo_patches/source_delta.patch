From 2ae4e1eaec8c7f34bc2b6ca1ce4ccf355f670c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:04 +0000
Subject: [PATCH 01/31] fix: make_complex_matrix sliced with float indices and
 always raised TypeError

---
 src/models/gpu_matrix_operations.py | 2 +-
 src/models/matrix_operations.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/models/gpu_matrix_operations.py b/src/models/gpu_matrix_operations.py
index 9183c68..3280446 100644
--- a/src/models/gpu_matrix_operations.py
+++ b/src/models/gpu_matrix_operations.py
@@ -93,4 +93,4 @@ def make_complex_matrix(m):
     :param m: block 2x2 real matrix as numpy/scipy array
     :return: complex matrix as numpy/scipy array
     """
-    return m[:m.shape[0]/2, :m.shape[1]/2] + 1j * m[m.shape[0]/2:, :m.shape[1]/2]
+    return m[:m.shape[0]//2, :m.shape[1]//2] + 1j * m[m.shape[0]//2:, :m.shape[1]//2]
diff --git a/src/models/matrix_operations.py b/src/models/matrix_operations.py
index c9c93e9..63c9bb0 100644
--- a/src/models/matrix_operations.py
+++ b/src/models/matrix_operations.py
@@ -93,7 +93,7 @@ def make_complex_matrix(m):
     :param m: block 2x2 real matrix as numpy/scipy array
     :return: complex matrix as numpy/scipy array
     """
-    return m[:m.shape[0]/2, :m.shape[1]/2] + 1j * m[m.shape[0]/2:, :m.shape[1]/2]
+    return m[:m.shape[0]//2, :m.shape[1]//2] + 1j * m[m.shape[0]//2:, :m.shape[1]//2]
 
 
 def duplication_matrix(n):
-- 
2.43.0


From 9afec9024ee4e0858a261fb38963a36532075069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:04 +0000
Subject: [PATCH 02/31] fix: error-in-variables fit replaced the current
 weights with the voltage weights

---
 src/models/error_in_variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/error_in_variable.py b/src/models/error_in_variable.py
index 345a477..5238fc4 100644
--- a/src/models/error_in_variable.py
+++ b/src/models/error_in_variable.py
@@ -207,7 +207,7 @@ class BayesianEIVRegression(GridIdentificationModel, MisfitWeightedModel):
         if x_weight is not None:
             x_weight = sp.csr_matrix(x_weight, dtype=cp.float32)
         if z_weight is not None:
-            z_weight = sp.csr_matrix(x_weight, dtype=cp.float32)
+            z_weight = sp.csr_matrix(z_weight, dtype=cp.float32)
 
         y_mat = y_init
         M, mu, penalty = self.prior.log_distribution(y.get() if conf.GPU_AVAILABLE else y)
-- 
2.43.0


From 2ac4f75a59ec9339b055a82f7faf35e5c6384b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:04 +0000
Subject: [PATCH 03/31] fix: unweighted error-in-variables cost used the
 projected voltages as corrections

---
 src/models/error_in_variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/error_in_variable.py b/src/models/error_in_variable.py
index 5238fc4..d3fe963 100644
--- a/src/models/error_in_variable.py
+++ b/src/models/error_in_variable.py
@@ -254,7 +254,7 @@ class BayesianEIVRegression(GridIdentificationModel, MisfitWeightedModel):
 
                 # Solve the Delta V sub-problem using projection
                 e_qp = (cp.hstack((x, z)) @ projor)[:, :n]
-                da = vectorize_matrix(e_qp)
+                da = make_real_vector(vectorize_matrix(x - e_qp))
                 AmdA = make_real_matrix(sp.kron(sp.eye(n), e_qp, format='csr') @ DT)
 
                 # Update y equation
-- 
2.43.0


From fff7dfa988eb204dff3cd953cd78c72cee5ccc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:04 +0000
Subject: [PATCH 04/31] fix: refitting a regression appended to and compared
 with the iterations of the previous fit

---
 src/models/error_in_variable.py | 1 +
 src/models/regression.py        | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/models/error_in_variable.py b/src/models/error_in_variable.py
index d3fe963..87386d6 100644
--- a/src/models/error_in_variable.py
+++ b/src/models/error_in_variable.py
@@ -209,6 +209,7 @@ class BayesianEIVRegression(GridIdentificationModel, MisfitWeightedModel):
         if z_weight is not None:
             z_weight = sp.csr_matrix(z_weight, dtype=cp.float32)
 
+        self._iterations = []
         y_mat = y_init
         M, mu, penalty = self.prior.log_distribution(y.get() if conf.GPU_AVAILABLE else y)
 
diff --git a/src/models/regression.py b/src/models/regression.py
index 9b576fa..0e8e75a 100644
--- a/src/models/regression.py
+++ b/src/models/regression.py
@@ -119,6 +119,7 @@ class BayesianRegression(GridIdentificationModel):
         y = make_real_vector(E @ vectorize_matrix(y_init))
         b = make_real_vector(vectorize_matrix(z))
 
+        self._iterations = []
         y_mat = y_init
         M, mu, penalty = self.prior.log_distribution(y.get() if conf.GPU_AVAILABLE else y)
 
-- 
2.43.0


From 6e24ad70a62872413539e21642f98abbfb6bb1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:04 +0000
Subject: [PATCH 05/31] fix: default matrix builders of BayesianRegression
 could not be converted to arrays

---
 src/models/regression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/regression.py b/src/models/regression.py
index 0e8e75a..6022b98 100644
--- a/src/models/regression.py
+++ b/src/models/regression.py
@@ -53,7 +53,7 @@ class BayesianRegression(GridIdentificationModel):
     """
 
     def __init__(self, prior, lambda_value=10e-2, abs_tol=10e-6, rel_tol=10e-6, max_iterations=50, verbose=True,
-                 dt_matrix_builder=lambda n: sparse.eye(n*n), e_matrix_builder=lambda n: sparse.eye(n*n)):
+                 dt_matrix_builder=lambda n: np.eye(n*n), e_matrix_builder=lambda n: np.eye(n*n)):
         """
         :param prior: Bayesian prior for the estimation
         :param lambda_value: initial or fixed sparsity parameter
-- 
2.43.0


From 4fc9a8a7ae4c530dfd89a00279f18e6bd1c452c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:04 +0000
Subject: [PATCH 06/31] fix: copying a prior lost its number of parameters

---
 src/models/bayesian_prior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/bayesian_prior.py b/src/models/bayesian_prior.py
index 037d1bd..edc9196 100644
--- a/src/models/bayesian_prior.py
+++ b/src/models/bayesian_prior.py
@@ -24,7 +24,7 @@ class BayesianPrior(object):
     def __init__(self, n=0, other=None):
         self.L = other.L if other is not None else np.zeros((0, n))
         self.mu = other.mu if other is not None else np.zeros(0)
-        self.n = n
+        self.n = other.n if other is not None else n
 
     def _std_weights(self, weights, standard):
         """
-- 
2.43.0


From b18b311e5ad010b02de501275da9b32a097437e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:04 +0000
Subject: [PATCH 07/31] fix: Kron reduction kept the remaining nodes in
 unspecified set order

---
 src/simulation/abstract_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/abstract_network.py b/src/simulation/abstract_network.py
index 5b1f7c9..f280021 100644
--- a/src/simulation/abstract_network.py
+++ b/src/simulation/abstract_network.py
@@ -99,7 +99,7 @@ class Net(pp.pandapowerNet, ABC):
         if y_bus is None:
             y_bus = self.make_y_bus()
 
-        not_idx_tored = np.array(list(set(range(y_bus.shape[0])) - set(idx_tored)), dtype=np.int64)
+        not_idx_tored = np.array(sorted(set(range(y_bus.shape[0])) - set(idx_tored)), dtype=np.int64)
         idx_tored = np.array(idx_tored, dtype=np.int64)
         y_red = y_bus[not_idx_tored, :][:, not_idx_tored] - y_bus[not_idx_tored, :][:, idx_tored] @ \
                 np.linalg.pinv(y_bus[idx_tored, :][:, idx_tored]) @ y_bus[idx_tored, :][:, not_idx_tored]
-- 
2.43.0


From 158ec354a58b1f3e626b95c269c51d12557f66e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:04 +0000
Subject: [PATCH 08/31] fix: NetData could not be created without lines

---
 src/simulation/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/network.py b/src/simulation/network.py
index 25eb560..1b239b6 100644
--- a/src/simulation/network.py
+++ b/src/simulation/network.py
@@ -18,7 +18,7 @@ class NetData(Net):
     def __init__(self, ns: list=None, ls: list=None, other=None):
         Net.__init__(self, other)
         ns = [] if ns is None else ns
-        ls = [] if ns is None else ls
+        ls = [] if ls is None else ls
 
         self.create_buses(ns)
         self.create_lines(ls)
-- 
2.43.0


From 2c5d8f22c81b3a5712ae863755415ad55bd8c994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:04 +0000
Subject: [PATCH 09/31] fix: NetData.create_line looked buses up by integer
 although their names are strings

---
 src/simulation/network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simulation/network.py b/src/simulation/network.py
index 1b239b6..e31b1b4 100644
--- a/src/simulation/network.py
+++ b/src/simulation/network.py
@@ -58,8 +58,8 @@ class NetData(Net):
         """
         if f > t:
             f, t = t, f
-        pp.create_line_from_parameters(self, pp.get_element_index(self, "bus", f),
-                                       pp.get_element_index(self, "bus", t),
+        pp.create_line_from_parameters(self, pp.get_element_index(self, "bus", str(f)),
+                                       pp.get_element_index(self, "bus", str(t)),
                                        l, r / l, x / l, 0, 1e10, "(" + str(f) + "," + str(t) + ")")
         return self
 
-- 
2.43.0


From d90fe29feae4eb2704e2150f632722d2fcf15ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:04 +0000
Subject: [PATCH 10/31] fix: removing lines dropped buses instead, and a single
 line could not be removed

---
 src/simulation/abstract_network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simulation/abstract_network.py b/src/simulation/abstract_network.py
index f280021..48a81bb 100644
--- a/src/simulation/abstract_network.py
+++ b/src/simulation/abstract_network.py
@@ -53,10 +53,10 @@ class Net(pp.pandapowerNet, ABC):
         pp.drop_buses(self, bus)
 
     def remove_line(self, line):
-        pp.drop_lines(self, line)
+        pp.drop_lines(self, [line])
 
     def remove_lines(self, lines):
-        pp.drop_buses(self, lines)
+        pp.drop_lines(self, lines)
 
     def give_passive_nodes(self):
         """
-- 
2.43.0


From 0a9bface99091d63c10d5993c1fa95239e588ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:04 +0000
Subject: [PATCH 11/31] fix: passive node detection looked buses up among load
 labels instead of load buses

---
 src/simulation/abstract_network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simulation/abstract_network.py b/src/simulation/abstract_network.py
index 48a81bb..d2fba68 100644
--- a/src/simulation/abstract_network.py
+++ b/src/simulation/abstract_network.py
@@ -73,13 +73,13 @@ class Net(pp.pandapowerNet, ABC):
             else:
                 passive = (True, True, True)
 
-                if idx in self.load.bus:
+                if idx in self.load.bus.values:
                     passive = passive if self.load.p_mw[self.load.bus[self.load.bus == idx].index.values[0]] == 0 \
                                            and self.load.q_mvar[
                                                self.load.bus[self.load.bus == idx].index.values[0]] == 0 else (
                     False, False, False)
 
-                if idx in self.asymmetric_load.bus:
+                if idx in self.asymmetric_load.bus.values:
                     idxload = self.asymmetric_load.bus[self.asymmetric_load.bus == idx].index.values[0]
                     passive = passive[0] if \
                         self.asymmetric_load.p_a_mw[idxload] == 0 and self.asymmetric_load.q_a_mvar[idxload] == 0 \
-- 
2.43.0


From 58a9eebe45797c90bee47cf2a099d32b9c8e9fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:04 +0000
Subject: [PATCH 12/31] fix: lines built from an admittance matrix used the
 voltage level of a wrong bus

---
 src/simulation/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/network.py b/src/simulation/network.py
index e31b1b4..242e4cd 100644
--- a/src/simulation/network.py
+++ b/src/simulation/network.py
@@ -92,7 +92,7 @@ class NetData(Net):
         for i in range(y_bus.shape[0]):
             for j in range(i):
                 if np.abs(y_bus[i, j]) > 0:
-                    y = -y_bus[i, j]/(self.bus.vn_kv[i]*self.bus.vn_kv[i])*self.sn_mva
+                    y = -y_bus[i, j]/(self.bus.vn_kv.values[i]*self.bus.vn_kv.values[i])*self.sn_mva
                     pp.create_line_from_parameters(self, pp.get_element_index(self, "bus", str(self.bus.index[i])),
                                                    pp.get_element_index(self, "bus", str(self.bus.index[j])),
                                                    1.0, np.real(1.0/y), np.imag(1.0/y), 0, 1e10,
-- 
2.43.0


From ccbffb3f30d61d28ad7dcc7d1bfc7ff9e5af6230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:02 +0000
Subject: [PATCH 13/31] fix: reduce_network mixed node indices from before and
 after the removal of the external grid

---
 src/simulation/run.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/simulation/run.py b/src/simulation/run.py
index e0f3961..82b6536 100644
--- a/src/simulation/run.py
+++ b/src/simulation/run.py
@@ -275,20 +275,21 @@ def reduce_network(net, voltage, current, hidden_nodes, laplacian=False, verbose
     idx_todel = list(set(hidden_idx).union(passive_idx))
     hidden_idx = [idx for idx in hidden_idx if idx not in pcc_idx]
 
+    # Equivalent impedances of the hidden nodes
+    shunts = np.zeros(y_bus.shape[0], dtype=y_bus.dtype)
+    shunts[hidden_idx] = np.divide(np.mean(current[:, hidden_idx], axis=0), np.mean(voltage[:, hidden_idx], axis=0))
+    y_bus = y_bus + np.diag(shunts)
+    idx_tored = set(hidden_idx).union(passive_idx).difference(pcc_idx)
+
     # subKron reducing the ext_grid
     if not laplacian:
         y_bus = np.delete(np.delete(y_bus, pcc_idx, axis=1), pcc_idx, axis=0)
 
         # Shift larger indices because y_bus gets smaller
-        for i in pcc_idx:
-            hidden_idx = [(idx - 1 if idx > i else idx) for idx in hidden_idx]
-            passive_idx = [(idx - 1 if idx > i else idx) for idx in passive_idx]
+        idx_tored = [idx - sum(i < idx for i in pcc_idx) for idx in idx_tored]
 
     # Kron reduction of passive and hidden nodes
-    shunts = np.zeros(y_bus.shape[0], dtype=y_bus.dtype)
-    shunts[hidden_idx] = np.divide(np.mean(current[:, hidden_idx], axis=0), np.mean(voltage[:, hidden_idx], axis=0))
-    y_bus = net.kron_reduction(list(set(hidden_idx).union(passive_idx).difference(pcc_idx)),
-                               y_bus + np.diag(shunts))
+    y_bus = net.kron_reduction(list(idx_tored), y_bus)
     pprint("Done!")
     pprint("reduced nodes: " + str(np.array(idx_todel) + 1))
 
-- 
2.43.0


From c2bcc43c9d4da2358f795ab1ede69a3a50787254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:02 +0000
Subject: [PATCH 14/31] fix: three-phase reduce_network mixed node indices from
 before and after the removal of the external grid

---
 src/simulation/run3ph.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/simulation/run3ph.py b/src/simulation/run3ph.py
index e362fda..137cbee 100644
--- a/src/simulation/run3ph.py
+++ b/src/simulation/run3ph.py
@@ -351,7 +351,7 @@ def reduce_network(net, voltage, current, hidden_nodes, laplacian=False, reduce_
     for idx in net.ext_grid.bus.values:
         i = 3 * net.bus.index.tolist().index(idx)
         idx_todel.extend([i, i + 1, i + 2])
-        y_bus = np.delete(np.delete(y_bus, [i, i + 1, i + 2], axis=1), [i, i + 1, i + 2], axis=0)
+    pcc_idx = list(idx_todel)
 
     passive_nodes = net.give_passive_nodes()
     if not reduce_single:
@@ -369,13 +369,16 @@ def reduce_network(net, voltage, current, hidden_nodes, laplacian=False, reduce_
             idx_tored.append(i)
             shunts[i] = np.divide(np.mean(current[:, i], axis=0), np.mean(voltage[:, i], axis=0))
 
-    idx_tored = np.array(idx_tored)
-    y_bus = admittance_phase_to_sequence(y_bus + np.diag(shunts))
+    y_bus = np.delete(np.delete(y_bus + np.diag(shunts), pcc_idx, axis=1), pcc_idx, axis=0)
+    idx_todel.extend(idx_tored)
+
+    # Shift larger indices because y_bus gets smaller
+    idx_tored = np.array([i - sum(j < i for j in pcc_idx) for i in idx_tored], dtype=np.int64)
+    y_bus = admittance_phase_to_sequence(y_bus)
     y_bus = np.kron(net.kron_reduction(idx_tored[idx_tored % 3 == 0]/3, y_bus[::3,::3]), np.diag([1, 0, 0])) \
             + np.kron(net.kron_reduction((idx_tored[idx_tored % 3 == 1] - 1)/3, y_bus[1::3,1::3]), np.diag([0, 1, 0])) \
             + np.kron(net.kron_reduction((idx_tored[idx_tored % 3 == 2] - 2)/3, y_bus[2::3,2::3]), np.diag([0, 0, 1]))
     y_bus = admittance_sequence_to_phase(y_bus)
-    idx_todel.extend(idx_tored.tolist())
 
     pprint("Done!")
     pprint("reduced elements: " + str(np.array(idx_todel) + 1))
-- 
2.43.0


From 8f9a794a358e29392730f258f173df4bda5dbffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:24 +0000
Subject: [PATCH 15/31] fix: equivalent admittances of hidden nodes entered the
 Kron reduction with the wrong sign

---
 src/simulation/run.py    | 2 +-
 src/simulation/run3ph.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simulation/run.py b/src/simulation/run.py
index 82b6536..3565ebe 100644
--- a/src/simulation/run.py
+++ b/src/simulation/run.py
@@ -278,7 +278,7 @@ def reduce_network(net, voltage, current, hidden_nodes, laplacian=False, verbose
     # Equivalent impedances of the hidden nodes
     shunts = np.zeros(y_bus.shape[0], dtype=y_bus.dtype)
     shunts[hidden_idx] = np.divide(np.mean(current[:, hidden_idx], axis=0), np.mean(voltage[:, hidden_idx], axis=0))
-    y_bus = y_bus + np.diag(shunts)
+    y_bus = y_bus - np.diag(shunts)
     idx_tored = set(hidden_idx).union(passive_idx).difference(pcc_idx)
 
     # subKron reducing the ext_grid
diff --git a/src/simulation/run3ph.py b/src/simulation/run3ph.py
index 137cbee..a8e44dc 100644
--- a/src/simulation/run3ph.py
+++ b/src/simulation/run3ph.py
@@ -369,7 +369,7 @@ def reduce_network(net, voltage, current, hidden_nodes, laplacian=False, reduce_
             idx_tored.append(i)
             shunts[i] = np.divide(np.mean(current[:, i], axis=0), np.mean(voltage[:, i], axis=0))
 
-    y_bus = np.delete(np.delete(y_bus + np.diag(shunts), pcc_idx, axis=1), pcc_idx, axis=0)
+    y_bus = np.delete(np.delete(y_bus - np.diag(shunts), pcc_idx, axis=1), pcc_idx, axis=0)
     idx_todel.extend(idx_tored)
 
     # Shift larger indices because y_bus gets smaller
-- 
2.43.0


From 047ddbec72d996cc96522f864a245c9fdedbf222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:24 +0000
Subject: [PATCH 16/31] fix: three-phase Gaussian loads could not be generated
 and were ordered inconsistently

---
 src/simulation/run3ph.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/simulation/run3ph.py b/src/simulation/run3ph.py
index a8e44dc..58ac686 100644
--- a/src/simulation/run3ph.py
+++ b/src/simulation/run3ph.py
@@ -2,7 +2,7 @@ import numpy as np
 
 from conf import conf, simulation
 from src.simulation.simulation_3ph import SimulatedNet3P
-from src.simulation.load_profile import load_profile_from_numpy
+from src.simulation.load_profile import load_profile_from_numpy, generate_gaussian_load
 from src.simulation.noise import filter_and_resample_measurement, add_polar_noise_to_measurement
 from src.simulation import net_templates_3ph
 from src.simulation.net_templates_3ph import ieee123_types
@@ -119,7 +119,10 @@ def generate_loads(net, load_params=None, verbose=True):
                                                    [net.asymmetric_load.q_c_mvar[net.asymmetric_load.q_c_mvar.index[i]]
                                                     for i in range(len(net.asymmetric_load.q_c_mvar))]))
 
-            load_p, load_q = np.zeros_like(load_asym[0]), np.zeros_like(load_asym[0])
+            # Order expected by the simulation: active powers of all phases, then reactive ones
+            load_asym = tuple(load_asym[i] for i in [0, 2, 4, 1, 3, 5])
+
+            load_p, load_q = np.zeros((len(times), len(net.load.bus))), np.zeros((len(times), len(net.load.bus)))
             pprint("Done!")
 
         a = simulation.load_constantness
-- 
2.43.0


From de1072dc1ec7ff78ffb48f42e4f53161b620bb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:24 +0000
Subject: [PATCH 17/31] fix: three-phase equivalent noise did not report the
 averaging factor

---
 src/simulation/run3ph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simulation/run3ph.py b/src/simulation/run3ph.py
index 58ac686..6aacd69 100644
--- a/src/simulation/run3ph.py
+++ b/src/simulation/run3ph.py
@@ -259,6 +259,7 @@ def add_noise_and_filter(net, voltage, current, times, fmeas, steps, noise_param
 
     ts = np.linspace(0, np.max(times), round(np.max(times) * fmeas))
     fparam = int(np.floor(ts.size / steps))
+    fparam_ret = fparam
 
     if noise_params is not None:
         # Noise Generation
@@ -319,7 +320,7 @@ def add_noise_and_filter(net, voltage, current, times, fmeas, steps, noise_param
         noisy_voltage, noisy_current, voltage, current = sim_IV["v"], sim_IV["i"], sim_IV["w"], sim_IV["j"]
         pprint("Done!")
 
-    return noisy_voltage, noisy_current, voltage, current, pmu_ratings, fparam
+    return noisy_voltage, noisy_current, voltage, current, pmu_ratings, fparam_ret
 
 
 def reduce_network(net, voltage, current, hidden_nodes, laplacian=False, reduce_single=True, verbose=True):
-- 
2.43.0


From 597e0627b658f7277cc73f09dabefbd6a8295e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:24 +0000
Subject: [PATCH 18/31] fix: suboptimal known-lines prior was unreachable

---
 src/identification/run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/identification/run.py b/src/identification/run.py
index 955a7cb..e09b623 100644
--- a/src/identification/run.py
+++ b/src/identification/run.py
@@ -170,7 +170,7 @@ def add_known_lines(nodes, prior, lambdaprime, y_bus, laplacian=False, prior_typ
     tls_bus_weights = np.zeros_like(y_bus)
     tls_bus_centers = np.zeros_like(y_bus)
 
-    if "optimal" in prior_type:
+    if "optimal" in prior_type and "suboptimal" not in prior_type:
         # Node 2
         tls_bus_weights[0, :], tls_bus_weights[:, 0] = (1+1j), (1+1j)
         tls_bus_weights[0, 0] = 0
-- 
2.43.0


From 90a9e51eaf1e7869b7b502b1c8251b7ff4b87137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:24 +0000
Subject: [PATCH 19/31] fix: filter_and_resample_measurement could not be
 called without time steps

---
 src/simulation/noise.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simulation/noise.py b/src/simulation/noise.py
index 7c33c45..09241b9 100644
--- a/src/simulation/noise.py
+++ b/src/simulation/noise.py
@@ -121,8 +121,9 @@ def filter_and_resample_measurement(actual_measurement, oldtimes=None, newtimes=
     """
 
     pbar = tqdm if verbose else (lambda x: x)
+    oldtimes = np.arange(actual_measurement.shape[0]) if oldtimes is None else oldtimes
+    newtimes = oldtimes if newtimes is None else newtimes
     steps, n_series = int(len(newtimes)/fparam), actual_measurement.shape[1]
-    oldtimes, newtimes = np.arange(steps) if oldtimes is None else oldtimes, oldtimes if newtimes is None else newtimes
 
     # linear interpolation of missing timesteps, looped to reduce memory usage
     filtered = 1j*np.zeros((steps, n_series))
-- 
2.43.0


From 2e17bf9ed0d512598957e134bb04e8e668937aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:24 +0000
Subject: [PATCH 20/31] fix: identify_network crashed when analysing
 uncertainty or continuing an identification

---
 identify_network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/identify_network.py b/identify_network.py
index 9055694..ee833cd 100644
--- a/identify_network.py
+++ b/identify_network.py
@@ -99,7 +99,7 @@ def identify(network, max_iterations, standard, bayesian_eiv, continue_id, phase
                                                                         not unsynchronized, verbose)
 
     if continue_id:
-        sparse_tls_cov_iterations = sparse_tls_cov_old_iterations.extend(sparse_tls_cov_iterations)
+        sparse_tls_cov_iterations = list(sparse_tls_cov_old_iterations) + list(sparse_tls_cov_iterations)
 
         pprint("Saving updated result...")
         sim_STLS = {'y': y_sparse_tls_cov, 'i': sparse_tls_cov_iterations}
@@ -107,7 +107,7 @@ def identify(network, max_iterations, standard, bayesian_eiv, continue_id, phase
         pprint("Done!")
 
     # Error covariance analysis
-    if uncertainty and not three_phases and not unsynchronized:
+    if uncertainty and not three_phased and not unsynchronized:
         fim_wtls, cov_wtls, expected_max_rrms = run_fcns.eiv_fim(name, voltage, current,
                                                                  voltage_magnitude_sd + 1j * voltage_phase_sd,
                                                                  current_magnitude_sd + 1j * current_phase_sd,
-- 
2.43.0


From 3e758f5f682b9d157a6137e85703d755b81119ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:39 +0000
Subject: [PATCH 21/31] fix: three-phase sensor ratings were not aligned with
 the measurement channels

---
 src/simulation/run3ph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/simulation/run3ph.py b/src/simulation/run3ph.py
index 6aacd69..a6237a9 100644
--- a/src/simulation/run3ph.py
+++ b/src/simulation/run3ph.py
@@ -249,13 +249,13 @@ def add_noise_and_filter(net, voltage, current, times, fmeas, steps, noise_param
     pmu_ratings = np.tile(pmu_safety_factor, (1, len(net.bus.index))) * total_loads
 
     # External grid connections provide power for all loads
-    for i in range(len(net.load.bus)):
-        if net.load.bus.iloc[i] in net.ext_grid.bus.values:
+    for i in range(len(net.bus.index)):
+        if net.bus.index[i] in net.ext_grid.bus.values:
             pmu_ratings[0, i] = np.sum(pmu_ratings[0, :])
             pmu_ratings[1, i] = np.sum(pmu_ratings[1, :])
             pmu_ratings[2, i] = np.sum(pmu_ratings[2, :])
 
-    pmu_ratings = pmu_ratings.reshape((3 * len(net.bus.index),))
+    pmu_ratings = pmu_ratings.T.reshape((3 * len(net.bus.index),))
 
     ts = np.linspace(0, np.max(times), round(np.max(times) * fmeas))
     fparam = int(np.floor(ts.size / steps))
-- 
2.43.0


From d80ab43b713174c6da696229176a9e9a4f9bdeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:39 +0000
Subject: [PATCH 22/31] fix: three-phase Bayesian results could not be reloaded

---
 src/identification/run3ph.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/identification/run3ph.py b/src/identification/run3ph.py
index cb0e983..f615437 100644
--- a/src/identification/run3ph.py
+++ b/src/identification/run3ph.py
@@ -243,6 +243,11 @@ def bayesian_eiv(name, voltage, current, phases_ids, voltage_sd_polar, current_s
     else:
         pprint = lambda a: None
 
+    if max_iterations <= 0 or voltage is None or current is None:
+        pprint("Loading final result...")
+        sim_STLS = np.load(DATA_DIR / ("simulations_output/bayesian_results_" + name + ".npz"), allow_pickle=True)
+        return sim_STLS["y"], sim_STLS["i"]
+
     y_fin = np.zeros_like(y_init)
 
     if np.any(phases_ids == 0):
-- 
2.43.0


From e55af491dd5f2a75056f0166b97d9ba7e87397a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:39 +0000
Subject: [PATCH 23/31] fix: global contrast prior was centered on minus twice
 the total admittance

---
 src/identification/run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/identification/run.py b/src/identification/run.py
index e09b623..34d0067 100644
--- a/src/identification/run.py
+++ b/src/identification/run.py
@@ -136,7 +136,7 @@ def build_complex_prior(nodes, lambdaprime, y_tls, laplacian=False,
 
     else:
         prior.add_contrast_prior(indices=np.vstack(tuple(np.split(idx_offdiag, 2))),
-                                 values=-np.sum(np.vstack(tuple(np.split(values_contrast, 2))), axis=1).squeeze(),
+                                 values=np.sum(np.vstack(tuple(np.split(values_contrast, 2))), axis=1).squeeze() / 2,
                                  weights=lambdaprime*np.array([1, -1]),
                                  orders=SmoothPrior.LAPLACE)
 
-- 
2.43.0


From 385fd359b79197a2d6f8752cefbd0e5ff6253699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:26 +0000
Subject: [PATCH 24/31] fix: adaptive lasso prior weighted each parameter by
 its estimate instead of the inverse of it

---
 src/identification/run.py    | 2 +-
 src/identification/run3ph.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/identification/run.py b/src/identification/run.py
index 34d0067..60a7769 100644
--- a/src/identification/run.py
+++ b/src/identification/run.py
@@ -28,7 +28,7 @@ def build_lasso_prior(nodes, y_ols, laplacian):
         E = elimination_sym_matrix(nodes)
 
     y_sym_ols = unvectorize_matrix(DT @ E @ vectorize_matrix(y_ols), (nodes, nodes))
-    adaptive_lasso = np.divide(1.0, np.power(np.abs(make_real_vector(E @ vectorize_matrix(y_sym_ols))), 1.0))
+    adaptive_lasso = np.power(np.abs(make_real_vector(E @ vectorize_matrix(y_sym_ols))), 1.0)
 
     prior = SparseSmoothPrior(smoothness_param=0.00001, n=len(E @ vectorize_matrix(y_ols))*2)
     prior.add_adaptive_sparsity_prior(np.arange(prior.n), adaptive_lasso, SmoothPrior.LAPLACE)
diff --git a/src/identification/run3ph.py b/src/identification/run3ph.py
index f615437..e82780e 100644
--- a/src/identification/run3ph.py
+++ b/src/identification/run3ph.py
@@ -25,7 +25,7 @@ def build_lasso_prior(nodes, y_ols, E, DT):
     :param DT: duplication matrix
     """
     y_sym_ols = unvectorize_matrix(DT @ E @ vectorize_matrix(y_ols), (nodes, nodes))
-    adaptive_lasso = np.divide(1.0, np.power(np.abs(make_real_vector(E @ vectorize_matrix(y_sym_ols))), 1.0))
+    adaptive_lasso = np.power(np.abs(make_real_vector(E @ vectorize_matrix(y_sym_ols))), 1.0)
 
     prior = SparseSmoothPrior(smoothness_param=0.00001, n=len(E @ vectorize_matrix(y_ols))*2)
     prior.add_adaptive_sparsity_prior(np.arange(prior.n), adaptive_lasso, SmoothPrior.LAPLACE)
-- 
2.43.0


From 388acd9d5d453b7112131e270dfab88d51e1d3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:37 +0000
Subject: [PATCH 25/31] fix: a bus with several loads was reported passive when
 only its first load was zero

---
 src/simulation/abstract_network.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/simulation/abstract_network.py b/src/simulation/abstract_network.py
index d2fba68..1d6b80f 100644
--- a/src/simulation/abstract_network.py
+++ b/src/simulation/abstract_network.py
@@ -74,19 +74,19 @@ class Net(pp.pandapowerNet, ABC):
                 passive = (True, True, True)
 
                 if idx in self.load.bus.values:
-                    passive = passive if self.load.p_mw[self.load.bus[self.load.bus == idx].index.values[0]] == 0 \
-                                           and self.load.q_mvar[
-                                               self.load.bus[self.load.bus == idx].index.values[0]] == 0 else (
+                    at_bus = self.load.bus == idx
+                    passive = passive if (self.load.p_mw[at_bus] == 0).all() \
+                                           and (self.load.q_mvar[at_bus] == 0).all() else (
                     False, False, False)
 
                 if idx in self.asymmetric_load.bus.values:
-                    idxload = self.asymmetric_load.bus[self.asymmetric_load.bus == idx].index.values[0]
+                    at_bus = self.asymmetric_load.bus == idx
                     passive = passive[0] if \
-                        self.asymmetric_load.p_a_mw[idxload] == 0 and self.asymmetric_load.q_a_mvar[idxload] == 0 \
+                        (self.asymmetric_load.p_a_mw[at_bus] == 0).all() and (self.asymmetric_load.q_a_mvar[at_bus] == 0).all() \
                         else False, passive[1] if \
-                        self.asymmetric_load.p_b_mw[idxload] == 0 and self.asymmetric_load.q_b_mvar[idxload] == 0 \
+                        (self.asymmetric_load.p_b_mw[at_bus] == 0).all() and (self.asymmetric_load.q_b_mvar[at_bus] == 0).all() \
                         else False, passive[2] if \
-                        self.asymmetric_load.p_c_mw[idxload] == 0 and self.asymmetric_load.q_c_mvar[idxload] == 0 \
+                        (self.asymmetric_load.p_c_mw[at_bus] == 0).all() and (self.asymmetric_load.q_c_mvar[at_bus] == 0).all() \
                         else False
 
             for i in range(3):
-- 
2.43.0


From 183d44a769c5535ffcf5ca6bd7d490fe3027bfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:36 +0000
Subject: [PATCH 26/31] fix: three-phase reduce_network eliminated wrong nodes
 when the external grid was listed as hidden

---
 src/simulation/run3ph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/simulation/run3ph.py b/src/simulation/run3ph.py
index a6237a9..dac89f9 100644
--- a/src/simulation/run3ph.py
+++ b/src/simulation/run3ph.py
@@ -370,6 +370,8 @@ def reduce_network(net, voltage, current, hidden_nodes, laplacian=False, reduce_
             idx_tored.append(3 * net.bus.index.tolist().index(idx) + ph)
         for idx in hidden_nodes:
             i = 3 * net.bus.index.tolist().index(idx) + ph
+            if i in pcc_idx:
+                continue
             idx_tored.append(i)
             shunts[i] = np.divide(np.mean(current[:, i], axis=0), np.mean(voltage[:, i], axis=0))
 
-- 
2.43.0


From 31446facc5580bba369c5b518b97f8d1da45f52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:18 +0000
Subject: [PATCH 27/31] fix: Gaussian loads could not be generated for nodes
 with negative nominal power

---
 src/simulation/load_profile.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/simulation/load_profile.py b/src/simulation/load_profile.py
index 6aebe4c..1cab9a5 100644
--- a/src/simulation/load_profile.py
+++ b/src/simulation/load_profile.py
@@ -66,16 +66,16 @@ def generate_gaussian_load(
     """
     n_load = len(load_p_reference)
     if load_p_rb is None or load_q_rb is None or load_p_rc is None or load_q_rc is None:
-        load_p = np.random.normal(load_p_reference, load_p_reference * load_sd, (n_samples, n_load))
-        load_q = np.random.normal(load_q_reference, load_q_reference * load_sd, (n_samples, n_load))
+        load_p = np.random.normal(load_p_reference, np.abs(load_p_reference) * load_sd, (n_samples, n_load))
+        load_q = np.random.normal(load_q_reference, np.abs(load_q_reference) * load_sd, (n_samples, n_load))
         return load_p, load_q
     else:
-        load_pa = np.random.normal(load_p_reference, load_p_reference * load_sd, (n_samples, n_load))
-        load_qa = np.random.normal(load_q_reference, load_q_reference * load_sd, (n_samples, n_load))
-        load_pb = np.random.normal(load_p_rb, load_p_rb * load_sd, (n_samples, n_load))
-        load_qb = np.random.normal(load_q_rb, load_q_rb * load_sd, (n_samples, n_load))
-        load_pc = np.random.normal(load_p_rc, load_p_rc * load_sd, (n_samples, n_load))
-        load_qc = np.random.normal(load_q_rc, load_q_rc * load_sd, (n_samples, n_load))
+        load_pa = np.random.normal(load_p_reference, np.abs(load_p_reference) * load_sd, (n_samples, n_load))
+        load_qa = np.random.normal(load_q_reference, np.abs(load_q_reference) * load_sd, (n_samples, n_load))
+        load_pb = np.random.normal(load_p_rb, np.abs(load_p_rb) * load_sd, (n_samples, n_load))
+        load_qb = np.random.normal(load_q_rb, np.abs(load_q_rb) * load_sd, (n_samples, n_load))
+        load_pc = np.random.normal(load_p_rc, np.abs(load_p_rc) * load_sd, (n_samples, n_load))
+        load_qc = np.random.normal(load_q_rc, np.abs(load_q_rc) * load_sd, (n_samples, n_load))
         return load_pa, load_qa, load_pb, load_qb, load_pc, load_qc
 
 
-- 
2.43.0


From b6d22df37bcfcd0f59c6734b0244d2e0a9079fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:18 +0000
Subject: [PATCH 28/31] fix: three-phase random loads ignored the nominal power
 of balanced loads

---
 src/simulation/run3ph.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/simulation/run3ph.py b/src/simulation/run3ph.py
index dac89f9..44c1fd5 100644
--- a/src/simulation/run3ph.py
+++ b/src/simulation/run3ph.py
@@ -122,7 +122,11 @@ def generate_loads(net, load_params=None, verbose=True):
             # Order expected by the simulation: active powers of all phases, then reactive ones
             load_asym = tuple(load_asym[i] for i in [0, 2, 4, 1, 3, 5])
 
-            load_p, load_q = np.zeros((len(times), len(net.load.bus))), np.zeros((len(times), len(net.load.bus)))
+            load_p, load_q = generate_gaussian_load(load_std, len(times),
+                                                    load_p_reference=np.array([net.load.p_mw[net.load.p_mw.index[i]]
+                                                                               for i in range(len(net.load.p_mw))]),
+                                                    load_q_reference=np.array([net.load.q_mvar[net.load.q_mvar.index[i]]
+                                                                               for i in range(len(net.load.q_mvar))]))
             pprint("Done!")
 
         a = simulation.load_constantness
-- 
2.43.0


From 231b066c400bade1864df4198cd14e052737a8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:15 +0000
Subject: [PATCH 29/31] fix: equivalent noise could produce more samples than
 block averaging

---
 src/simulation/run.py    | 2 +-
 src/simulation/run3ph.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simulation/run.py b/src/simulation/run.py
index 3565ebe..c09b75b 100644
--- a/src/simulation/run.py
+++ b/src/simulation/run.py
@@ -199,7 +199,7 @@ def add_noise_and_filter(net, voltage, current, times, fmeas, steps, noise_param
         if use_equivalent_noise:
             pprint("Transforming noise params to filtered ones...")
 
-            ts = np.linspace(0, np.max(times), round(np.max(times) * fmeas / fparam))
+            ts = np.linspace(0, np.max(times), int(ts.size / fparam))
             voltage_magnitude_sd = voltage_magnitude_sd / np.sqrt(fparam)
             current_magnitude_sd = current_magnitude_sd / np.sqrt(fparam)
             voltage_phase_sd = voltage_phase_sd / np.sqrt(fparam)
diff --git a/src/simulation/run3ph.py b/src/simulation/run3ph.py
index 44c1fd5..718aab7 100644
--- a/src/simulation/run3ph.py
+++ b/src/simulation/run3ph.py
@@ -283,7 +283,7 @@ def add_noise_and_filter(net, voltage, current, times, fmeas, steps, noise_param
         if use_equivalent_noise:
             pprint("Transforming noise params to filtered ones...")
 
-            ts = np.linspace(0, np.max(times), round(np.max(times) * fmeas / fparam))
+            ts = np.linspace(0, np.max(times), int(ts.size / fparam))
             voltage_magnitude_sd = voltage_magnitude_sd / np.sqrt(fparam)
             current_magnitude_sd = current_magnitude_sd / np.sqrt(fparam)
             voltage_phase_sd = voltage_phase_sd / np.sqrt(fparam)
-- 
2.43.0


From d5af972b5e456727c900629faa3f2023374862dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:24 +0000
Subject: [PATCH 30/31] fix: reloaded measurements come with the ratings they
 were computed with

The safety factor of the ratings is only given when noise is added; reading
the saved results back assumed a factor of 4.
---
 src/simulation/run.py    | 4 +++-
 src/simulation/run3ph.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/simulation/run.py b/src/simulation/run.py
index c09b75b..6db3f97 100644
--- a/src/simulation/run.py
+++ b/src/simulation/run.py
@@ -230,7 +230,7 @@ def add_noise_and_filter(net, voltage, current, times, fmeas, steps, noise_param
         pprint("Done!")
 
         pprint("Saving filtered data...")
-        sim_IV = {'i': noisy_current, 'v': noisy_voltage, 'j': current, 'w': voltage}
+        sim_IV = {'i': noisy_current, 'v': noisy_voltage, 'j': current, 'w': voltage, 'p': pmu_ratings}
         np.savez(conf.DATA_DIR / ("simulations_output/filtered_results_" + net.name + ".npz"), **sim_IV)
         pprint("Done!")
 
@@ -238,6 +238,8 @@ def add_noise_and_filter(net, voltage, current, times, fmeas, steps, noise_param
         pprint("Loading filtered data...")
         sim_IV = np.load(conf.DATA_DIR / ("simulations_output/filtered_results_" + net.name + ".npz"))
         noisy_voltage, noisy_current, voltage, current = sim_IV["v"], sim_IV["i"], sim_IV["w"], sim_IV["j"]
+        # The ratings depend on the safety factor used when adding noise
+        pmu_ratings = sim_IV["p"] if "p" in sim_IV.files else pmu_ratings
         pprint("Done!")
 
     return noisy_voltage, noisy_current, voltage, current, pmu_ratings, fparam_ret
diff --git a/src/simulation/run3ph.py b/src/simulation/run3ph.py
index 718aab7..cc768ae 100644
--- a/src/simulation/run3ph.py
+++ b/src/simulation/run3ph.py
@@ -314,7 +314,7 @@ def add_noise_and_filter(net, voltage, current, times, fmeas, steps, noise_param
         pprint("Done!")
 
         pprint("Saving filtered data...")
-        sim_IV = {'i': noisy_current, 'v': noisy_voltage, 'j': current, 'w': voltage}
+        sim_IV = {'i': noisy_current, 'v': noisy_voltage, 'j': current, 'w': voltage, 'p': pmu_ratings}
         np.savez(conf.DATA_DIR / ("simulations_output/filtered_results_" + net.name + ".npz"), **sim_IV)
         pprint("Done!")
 
@@ -322,6 +322,8 @@ def add_noise_and_filter(net, voltage, current, times, fmeas, steps, noise_param
         pprint("Loading filtered data...")
         sim_IV = np.load(conf.DATA_DIR / ("simulations_output/filtered_results_" + net.name + ".npz"))
         noisy_voltage, noisy_current, voltage, current = sim_IV["v"], sim_IV["i"], sim_IV["w"], sim_IV["j"]
+        # The ratings depend on the safety factor used when adding noise
+        pmu_ratings = sim_IV["p"] if "p" in sim_IV.files else pmu_ratings
         pprint("Done!")
 
     return noisy_voltage, noisy_current, voltage, current, pmu_ratings, fparam_ret
-- 
2.43.0


From 44d6165b58bc9e3a07a05e0f6f3ec458f66de2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:45 +0000
Subject: [PATCH 31/31] fix: have the three phases power flow store its
 admittance matrices, NetData3P.make_y_bus always failed

---
 src/simulation/network_3ph.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/simulation/network_3ph.py b/src/simulation/network_3ph.py
index f6abec3..d83a591 100644
--- a/src/simulation/network_3ph.py
+++ b/src/simulation/network_3ph.py
@@ -104,7 +104,11 @@ class NetData3P(Net):
         :return: Admittance matrix as numpy array
         """
         run_net = self.deepcopy()
-        pp.runpp_3ph(run_net, numba=False)
+        for sequence in range(3):
+            # never start from the internal variables of a previous power flow
+            run_net['_ppc' + str(sequence)] = None
+        # the three phases power flow only stores the admittance matrices if told to
+        pp.runpp_3ph(run_net, numba=False, recycle={'Ybus': True})
 
         if type(run_net['_ppc0']['internal']['Ybus']) is not np.ndarray:
             y_bus0 = run_net['_ppc0']['internal']['Ybus'].todense()
-- 
2.43.0


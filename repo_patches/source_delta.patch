From 6488ab786e353f5bb1fd2887bbe5364ed2817ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:38 +0000
Subject: [PATCH 01/74] fix: subset_fitter keeps the calibration of the
 requested qubits

State labels are little endian, so qubit i of the list is the i-th label
character from the right.
---
 qiskit/ignis/mitigation/measurement/fitters.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qiskit/ignis/mitigation/measurement/fitters.py b/qiskit/ignis/mitigation/measurement/fitters.py
index cef15a4..72d1dcd 100644
--- a/qiskit/ignis/mitigation/measurement/fitters.py
+++ b/qiskit/ignis/mitigation/measurement/fitters.py
@@ -156,7 +156,9 @@ class CompleteMeasFitter:
         q_q_mapping = []
         state_labels_reduced = []
         for label in self.state_labels:
-            tmplabel = [label[index] for index in qubit_sublist_ind]
+            # labels are little endian: the first qubit is the last character
+            tmplabel = [label[-1 - index]
+                        for index in reversed(qubit_sublist_ind)]
             state_labels_reduced.append(''.join(tmplabel))
 
         for sub_lab_ind, _ in enumerate(new_state_labels):
-- 
2.43.0


From b4b49523da021db83ecd722a7cfce73b831d4243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:38 +0000
Subject: [PATCH 02/74] fix: match the calibration circuit label literally

---
 qiskit/ignis/mitigation/measurement/fitters.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/mitigation/measurement/fitters.py b/qiskit/ignis/mitigation/measurement/fitters.py
index 72d1dcd..7e5f9aa 100644
--- a/qiskit/ignis/mitigation/measurement/fitters.py
+++ b/qiskit/ignis/mitigation/measurement/fitters.py
@@ -407,8 +407,9 @@ class TensoredMeasFitter():
                 circ_name = experiment.header.name
                 # extract the state from the circuit name
                 # this was the prepared state
-                circ_search = re.search('(?<=' + self._circlabel + 'cal_)\\w+',
-                                        circ_name)
+                circ_search = re.search(
+                    '(?<=' + re.escape(self._circlabel) + 'cal_)\\w+',
+                    circ_name)
 
                 # this experiment is not one of the calcs so skip
                 if circ_search is None:
-- 
2.43.0


From a40c59858f306fa2188e68385122d16ada0769dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:38 +0000
Subject: [PATCH 03/74] fix: calibration counts of an oversized classical
 register

Only the low bits hold the calibrated qubits.
---
 qiskit/ignis/mitigation/measurement/fitters.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qiskit/ignis/mitigation/measurement/fitters.py b/qiskit/ignis/mitigation/measurement/fitters.py
index 7e5f9aa..32306bc 100644
--- a/qiskit/ignis/mitigation/measurement/fitters.py
+++ b/qiskit/ignis/mitigation/measurement/fitters.py
@@ -420,6 +420,8 @@ class TensoredMeasFitter():
                 # get the counts from the result
                 state_cnts = result.get_counts(circ_name)
                 for measured_state, counts in state_cnts.items():
+                    # the classical register may be larger than needed
+                    measured_state = measured_state[-self.nqubits:]
                     end_index = self.nqubits
                     for cal_ind, cal_mat in enumerate(self._cal_matrices):
 
-- 
2.43.0


From 15da7370ccd4c109d56be200fd6f2344264a898a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:38 +0000
Subject: [PATCH 04/74] fix: measurement filters accept method=None as
 documented

---
 qiskit/ignis/mitigation/measurement/filters.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qiskit/ignis/mitigation/measurement/filters.py b/qiskit/ignis/mitigation/measurement/filters.py
index e8a9f69..0704974 100644
--- a/qiskit/ignis/mitigation/measurement/filters.py
+++ b/qiskit/ignis/mitigation/measurement/filters.py
@@ -105,6 +105,9 @@ class MeasurementFilter():
 
         """
 
+        if method is None:
+            method = 'least_squares'
+
         # check forms of raw_data
         if isinstance(raw_data, dict):
             # counts dictionary
@@ -308,6 +311,9 @@ class TensoredFilter():
         all_states = count_keys(self.nqubits)
         num_of_states = 2**self.nqubits
 
+        if method is None:
+            method = 'least_squares'
+
         # check forms of raw_data
         if isinstance(raw_data, dict):
             # counts dictionary
-- 
2.43.0


From 4308c36f2c4fa77ed28444d5dd9903ec8b95fd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:52 +0000
Subject: [PATCH 05/74] fix: expectation_counts keys for any number of qubits

The identity entry was always '00' and the other keys were bit reversed.
---
 qiskit/ignis/verification/tomography/data.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qiskit/ignis/verification/tomography/data.py b/qiskit/ignis/verification/tomography/data.py
index 93e5ccb..a593241 100644
--- a/qiskit/ignis/verification/tomography/data.py
+++ b/qiskit/ignis/verification/tomography/data.py
@@ -173,7 +173,7 @@ def expectation_counts(counts: Dict[str, int]) -> Dict[str, int]:
     shots = np.sum(list(counts.values()))
 
     # Compute measured operators subsets in a data set
-    numq = len(list(counts.keys())[0])
+    numq = len(list(counts.keys())[0].replace(' ', ''))
 
     # Get operator subsets
     subsets = []
@@ -181,14 +181,14 @@ def expectation_counts(counts: Dict[str, int]) -> Dict[str, int]:
         subsets += list(combinations(range(numq), r + 1))
 
     # Compute expectation values
-    exp_data = {'00': shots}
+    exp_data = {numq * '0': shots}
     for subset in subsets:
         exp_counts = 0
         exp_op = numq * ['0']
 
         # Get expectation operator
         for qubit in subset:
-            exp_op[qubit] = '1'
+            exp_op[numq - 1 - qubit] = '1'
 
         # Get expectation value
         for key, val in marginal_counts(counts,
-- 
2.43.0


From b39e934c47bf9dbdf77ce3a35af59dded6f37f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:52 +0000
Subject: [PATCH 06/74] fix: combine_counts no longer changes its first
 argument

---
 qiskit/ignis/verification/tomography/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/tomography/data.py b/qiskit/ignis/verification/tomography/data.py
index a593241..b5e2c40 100644
--- a/qiskit/ignis/verification/tomography/data.py
+++ b/qiskit/ignis/verification/tomography/data.py
@@ -132,7 +132,7 @@ def combine_counts(counts1: Dict[str, int],
         >>> combine_counts(counts1, counts2)
         {'00': 7, '01': 5, '10': 7}
     """
-    ret = counts1
+    ret = dict(counts1)
     for key, val in counts2.items():
         if key in ret:
             ret[key] += val
-- 
2.43.0


From 6883e35ec5dea46ec3aa0a96bd30818f313603e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:52 +0000
Subject: [PATCH 07/74] fix: marginal_counts pads zeros when no qubit is
 marginalized

---
 qiskit/ignis/verification/tomography/data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qiskit/ignis/verification/tomography/data.py b/qiskit/ignis/verification/tomography/data.py
index b5e2c40..d468a06 100644
--- a/qiskit/ignis/verification/tomography/data.py
+++ b/qiskit/ignis/verification/tomography/data.py
@@ -59,6 +59,8 @@ def marginal_counts(counts: Dict[str, int],
     # whitespace from count keys
     if (meas_qubits is True) or (num_qubits == len(meas_qubits)):
         ret = {}
+        if pad_zeros is True:
+            ret = dict.fromkeys(count_keys(num_qubits), 0)
         for key, val in counts.items():
             key = key.replace(' ', '')
             ret[key] = val
-- 
2.43.0


From bcaffae4b1065fa2e816b14b1009361369332558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:51 +0000
Subject: [PATCH 08/74] fix: CTMP mitigator uses dtypes that still exist in
 numpy

---
 qiskit/ignis/mitigation/expval/ctmp_mitigator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qiskit/ignis/mitigation/expval/ctmp_mitigator.py b/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
index a50075b..29560ff 100644
--- a/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
+++ b/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
@@ -131,8 +131,8 @@ class CTMPExpvalMeasMitigator(BaseExpvalMeasMitigator):
         gamma = self.noise_strength(qubits)
         bmat = self._sampling_matrix(qubits)
         values = bmat.data
-        indices = np.asarray(bmat.indices, dtype=np.int)
-        indptrs = np.asarray(bmat.indptr, dtype=np.int)
+        indices = np.asarray(bmat.indices, dtype=int)
+        indptrs = np.asarray(bmat.indptr, dtype=int)
 
         # Set a minimum number of CTMP samples
         shots = sum(counts.values())
@@ -184,7 +184,7 @@ class CTMPExpvalMeasMitigator(BaseExpvalMeasMitigator):
         if qubits not in self._generator_mats:
             # Construct G from subset generators
             qubits_set = set(qubits)
-            g_mat = sps.coo_matrix(2 * (2**len(qubits),), dtype=np.float)
+            g_mat = sps.coo_matrix(2 * (2**len(qubits),), dtype=float)
             for gen, rate in zip(self._generators, self._rates):
                 if qubits_set.issuperset(gen[2]):
                     # Keep generator
@@ -301,7 +301,7 @@ class CTMPExpvalMeasMitigator(BaseExpvalMeasMitigator):
 
         # Apply CTMP sampling
         r_vals = rng.random(size=alphas.sum())
-        y_vals = np.zeros(x_vals.size, dtype=np.int)
+        y_vals = np.zeros(x_vals.size, dtype=int)
         _markov_chain_compiled(y_vals, x_vals, r_vals, alphas, csc_data, csc_indices,
                                csc_indptrs)
 
-- 
2.43.0


From 5e2c5b03602b703959ff5c0a197b77fd07ebf66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:18 +0000
Subject: [PATCH 09/74] fix: CTMP expectation values use the calibrated error
 directions

The single-qubit rates were fitted with the initial and final states
exchanged. The matrices hid this by flipping the generator, which in turn
was wrong for two-qubit generators; the sampled expectation values did
not flip and were biased.
---
 qiskit/ignis/mitigation/expval/ctmp_fitter.py    |  6 +++---
 qiskit/ignis/mitigation/expval/ctmp_mitigator.py | 12 ++----------
 2 files changed, 5 insertions(+), 13 deletions(-)

diff --git a/qiskit/ignis/mitigation/expval/ctmp_fitter.py b/qiskit/ignis/mitigation/expval/ctmp_fitter.py
index 50cce64..fb3ffef 100644
--- a/qiskit/ignis/mitigation/expval/ctmp_fitter.py
+++ b/qiskit/ignis/mitigation/expval/ctmp_fitter.py
@@ -68,11 +68,11 @@ def _ctmp_err_rate_1_q(a: str, b: str, j: int,
     # pylint: disable=invalid-name
     rate_list = []
     if a == '0' and b == '1':
-        g1 = ('00', '10')
-        g2 = ('01', '11')
-    elif a == '1' and b == '0':
         g1 = ('10', '00')
         g2 = ('11', '01')
+    elif a == '1' and b == '0':
+        g1 = ('00', '10')
+        g2 = ('01', '11')
     else:
         raise ValueError('Invalid a,b encountered...')
     for k in range(num_qubits):
diff --git a/qiskit/ignis/mitigation/expval/ctmp_mitigator.py b/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
index 29560ff..5ae1697 100644
--- a/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
+++ b/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
@@ -206,12 +206,8 @@ class CTMPExpvalMeasMitigator(BaseExpvalMeasMitigator):
         Returns:
             np.ndarray: the measurement error mitigation matrix :math:`A^{-1}`.
         """
-        # NOTE: the matrix definition of G is somehow flipped in both row and
-        # columns compared to the canonical ordering for the A-matrix used
-        # in the Complete and Tensored methods
         gmat = self.generator_matrix(qubits)
-        gmat = np.flip(gmat.todense())
-        return la.expm(-gmat)
+        return la.expm(-gmat.toarray())
 
     def assignment_matrix(self, qubits: List[int] = None) -> np.ndarray:
         r"""Return the measurement assignment matrix for specified qubits.
@@ -226,12 +222,8 @@ class CTMPExpvalMeasMitigator(BaseExpvalMeasMitigator):
         Returns:
             np.ndarray: the assignment matrix A.
         """
-        # NOTE: the matrix definition of G is somehow flipped in both row and
-        # columns compared to the canonical ordering for the A-matrix used
-        # in the Complete and Tensored methods
         gmat = self.generator_matrix(qubits)
-        gmat = np.flip(gmat.todense())
-        return la.expm(gmat)
+        return la.expm(gmat.toarray())
 
     def noise_strength(self, qubits: Optional[int] = None) -> float:
         """Return the noise strength :math:`gamma` on the specified qubits"""
-- 
2.43.0


From 53a14a9de94fa0c520a6310039ad882ae5e095f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:01 +0000
Subject: [PATCH 10/74] fix: tensored mitigator matrices of a subset of qubits

The loop variable is already the qubit.
---
 qiskit/ignis/mitigation/expval/tensored_mitigator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/mitigation/expval/tensored_mitigator.py b/qiskit/ignis/mitigation/expval/tensored_mitigator.py
index e203500..9793868 100644
--- a/qiskit/ignis/mitigation/expval/tensored_mitigator.py
+++ b/qiskit/ignis/mitigation/expval/tensored_mitigator.py
@@ -138,7 +138,7 @@ class TensoredExpvalMeasMitigator(BaseExpvalMeasMitigator):
             qubits = [qubits]
         mat = self._mitigation_mats[qubits[0]]
         for i in qubits[1:]:
-            mat = np.kron(self._mitigation_mats[qubits[i]], mat)
+            mat = np.kron(self._mitigation_mats[i], mat)
         return mat
 
     def assignment_matrix(self, qubits: List[int] = None) -> np.ndarray:
@@ -160,7 +160,7 @@ class TensoredExpvalMeasMitigator(BaseExpvalMeasMitigator):
             qubits = [qubits]
         mat = self._assignment_mats[qubits[0]]
         for i in qubits[1:]:
-            mat = np.kron(self._assignment_mats[qubits[i]], mat)
+            mat = np.kron(self._assignment_mats[i], mat)
         return mat
 
     def assignment_fidelity(self, qubits: Optional[List[int]] = None) -> float:
-- 
2.43.0


From efd8aaa7e5a04bfe8d8d259168a11b1082a476cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:01 +0000
Subject: [PATCH 11/74] fix: mitigated expectation values of fewer bits than
 calibrated qubits

Without explicit qubits the counts belong to qubits 0..n-1, as documented.
---
 qiskit/ignis/mitigation/expval/ctmp_mitigator.py     | 8 +++-----
 qiskit/ignis/mitigation/expval/tensored_mitigator.py | 2 +-
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/qiskit/ignis/mitigation/expval/ctmp_mitigator.py b/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
index 5ae1697..d84e7fa 100644
--- a/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
+++ b/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
@@ -112,13 +112,11 @@ class CTMPExpvalMeasMitigator(BaseExpvalMeasMitigator):
             which physical qubits these bit-values correspond to as
             ``circuit.measure(qubits, clbits)``.
         """
-        if qubits is None:
-            qubits = list(range(self._num_qubits))
-
         # Convert counts to probs
         probs, shots = counts_probability_vector(
-            counts, clbits=clbits, qubits=qubits,
-            num_qubits=len(qubits), return_shots=True)
+            counts, clbits=clbits, qubits=qubits, return_shots=True)
+        if qubits is None:
+            qubits = list(range(int(np.log2(probs.shape[0]))))
 
         # Ensure diagonal is a numpy vector so we can use fancy indexing
         if diagonal is None:
diff --git a/qiskit/ignis/mitigation/expval/tensored_mitigator.py b/qiskit/ignis/mitigation/expval/tensored_mitigator.py
index 9793868..53e85e1 100644
--- a/qiskit/ignis/mitigation/expval/tensored_mitigator.py
+++ b/qiskit/ignis/mitigation/expval/tensored_mitigator.py
@@ -105,7 +105,7 @@ class TensoredExpvalMeasMitigator(BaseExpvalMeasMitigator):
         if qubits is not None:
             ainvs = self._mitigation_mats[list(qubits)]
         else:
-            ainvs = self._mitigation_mats
+            ainvs = self._mitigation_mats[:num_qubits]
 
         # Get operator coeffs
         if diagonal is None:
-- 
2.43.0


From fcb89b1456f3930bd6db41079035e0d482e33d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:01 +0000
Subject: [PATCH 12/74] fix: mitigated diagonal observables of qubits in any
 order

The counts were permuted to ascending qubit order but the diagonal was
not, so the complete and CTMP mitigators measured a different observable
than the tensored one.
---
 qiskit/ignis/mitigation/expval/complete_mitigator.py |  5 ++++-
 qiskit/ignis/mitigation/expval/ctmp_mitigator.py     |  4 +++-
 qiskit/ignis/mitigation/expval/utils.py              | 12 +++++++++---
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/qiskit/ignis/mitigation/expval/complete_mitigator.py b/qiskit/ignis/mitigation/expval/complete_mitigator.py
index 5d6b67a..238d4fd 100644
--- a/qiskit/ignis/mitigation/expval/complete_mitigator.py
+++ b/qiskit/ignis/mitigation/expval/complete_mitigator.py
@@ -18,7 +18,8 @@ from typing import Optional, List, Dict, Tuple
 import numpy as np
 
 from qiskit.exceptions import QiskitError
-from .utils import (counts_probability_vector, _expval_with_stddev)
+from .utils import (counts_probability_vector, _expval_with_stddev,
+                    _sort_qubit_axes)
 from .base_meas_mitigator import BaseExpvalMeasMitigator
 
 
@@ -102,6 +103,8 @@ class CompleteExpvalMeasMitigator(BaseExpvalMeasMitigator):
         # Get operator coeffs
         if diagonal is None:
             diagonal = self._z_diagonal(2 ** num_qubits)
+        # The probabilities and the mitigation matrix are in qubit order
+        diagonal = _sort_qubit_axes(diagonal, qubits)
         # Apply transpose of mitigation matrix
         coeffs = mit_mat.T.dot(diagonal)
 
diff --git a/qiskit/ignis/mitigation/expval/ctmp_mitigator.py b/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
index d84e7fa..d663f8e 100644
--- a/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
+++ b/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
@@ -25,7 +25,7 @@ from qiskit.exceptions import QiskitError
 from qiskit.ignis.numba import jit_fallback
 
 from .base_meas_mitigator import BaseExpvalMeasMitigator
-from .utils import counts_probability_vector
+from .utils import counts_probability_vector, _sort_qubit_axes
 from .ctmp_generator_set import Generator
 
 logger = logging.getLogger(__name__)
@@ -122,6 +122,8 @@ class CTMPExpvalMeasMitigator(BaseExpvalMeasMitigator):
         if diagonal is None:
             diagonal = self._z_diagonal(2**len(qubits))
         diagonal = np.asarray(diagonal, dtype=probs.dtype)
+        # The probabilities and the sampling matrix are in qubit order
+        diagonal = _sort_qubit_axes(diagonal, qubits)
 
         # Get arrays from CSC sparse matrix format
         # TODO: To use qubits kwarg we should compute the B-matrix and gamma
diff --git a/qiskit/ignis/mitigation/expval/utils.py b/qiskit/ignis/mitigation/expval/utils.py
index bb9bb42..44e751c 100644
--- a/qiskit/ignis/mitigation/expval/utils.py
+++ b/qiskit/ignis/mitigation/expval/utils.py
@@ -139,14 +139,20 @@ def counts_probability_vector(
     if qubits is not None:
         if len(qubits) != num_qubits:
             raise QiskitError("Num qubits does not match vector length.")
-        axes = [num_qubits - 1 - i for i in reversed(np.argsort(qubits))]
-        vec = np.reshape(vec,
-                         num_qubits * [2]).transpose(axes).reshape(vec.shape)
+        vec = _sort_qubit_axes(vec, qubits)
     if return_shots:
         return vec, shots
     return vec
 
 
+def _sort_qubit_axes(vec: np.ndarray, qubits: List[int]) -> np.ndarray:
+    """Permute a vector from the order of qubits to ascending qubit order."""
+    vec = np.asarray(vec)
+    num_qubits = len(qubits)
+    axes = [num_qubits - 1 - i for i in reversed(np.argsort(qubits))]
+    return np.reshape(vec, num_qubits * [2]).transpose(axes).reshape(vec.shape)
+
+
 def calibration_data(result: Result,
                      metadata: List[Dict[str, any]]) -> Tuple[
                          Dict[int, Dict[int, int]], int]:
-- 
2.43.0


From b65aa50837cad215abd85b5fdaa535139d05af56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:01 +0000
Subject: [PATCH 13/74] fix: expectation values pair the given qubits with the
 given clbits

clbits in non-ascending order were silently sorted, so the counts were
mitigated with the calibration of the wrong qubits.
---
 qiskit/ignis/mitigation/expval/utils.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/mitigation/expval/utils.py b/qiskit/ignis/mitigation/expval/utils.py
index 44e751c..dcf1e12 100644
--- a/qiskit/ignis/mitigation/expval/utils.py
+++ b/qiskit/ignis/mitigation/expval/utils.py
@@ -79,7 +79,7 @@ def expectation_value(counts: Counts,
 
     # Marginalize counts
     if clbits is not None:
-        counts = marginal_counts(counts, meas_qubits=clbits)
+        counts = _marginal_clbits(counts, clbits)
 
     # Get counts shots and probabilities
     probs = np.array(list(counts.values()))
@@ -121,7 +121,7 @@ def counts_probability_vector(
     """
     # Marginalize counts
     if clbits is not None:
-        counts = marginal_counts(counts, meas_qubits=clbits)
+        counts = _marginal_clbits(counts, clbits)
 
     # Get total number of qubits
     if num_qubits is None:
@@ -145,6 +145,14 @@ def counts_probability_vector(
     return vec
 
 
+def _marginal_clbits(counts: Dict[str, int], clbits: List[int]) -> Dict[str, int]:
+    """Marginalize counts so that bit i of the new keys is clbits[i]."""
+    counts = marginal_counts(counts, meas_qubits=clbits)
+    positions = np.argsort(np.argsort(clbits))
+    return {''.join(key[-1 - pos] for pos in reversed(positions)): val
+            for key, val in counts.items()}
+
+
 def _sort_qubit_axes(vec: np.ndarray, qubits: List[int]) -> np.ndarray:
     """Permute a vector from the order of qubits to ascending qubit order."""
     vec = np.asarray(vec)
-- 
2.43.0


From db742d48b0820fab10d0df3e1f21bc97373754c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:05 +0000
Subject: [PATCH 14/74] fix: CTMP mitigation of a single qubit

The rates were averages over no pairs (nan), so no error was mitigated.
---
 qiskit/ignis/mitigation/expval/ctmp_fitter.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/qiskit/ignis/mitigation/expval/ctmp_fitter.py b/qiskit/ignis/mitigation/expval/ctmp_fitter.py
index fb3ffef..6895a5d 100644
--- a/qiskit/ignis/mitigation/expval/ctmp_fitter.py
+++ b/qiskit/ignis/mitigation/expval/ctmp_fitter.py
@@ -54,6 +54,12 @@ def fit_ctmp_meas_mitigator(cal_data: Dict[int, Dict[int, int]],
             mat = _local_g_matrix(gen, cal_data, num_qubits)
             gen_mat_dict[gen] = mat
 
+    if num_qubits == 1:
+        # No pair to average over: use the single-qubit generator matrix
+        g_mat = _real_generator(assignment_matrix(cal_data, 1, [0]))
+        rates = [g_mat[int(b), int(a)] for b, a, _ in generators]
+        return CTMPExpvalMeasMitigator(generators, rates)
+
     # Compute rates for generators
     rates = [_get_ctmp_error_rate(gen, gen_mat_dict, num_qubits) for gen in generators]
     return CTMPExpvalMeasMitigator(generators, rates)
@@ -130,13 +136,18 @@ def _local_g_matrix(gen: Generator,
     # pylint: disable=invalid-name
     _, _, c = gen
     j, k = c
-    a_mat = assignment_matrix(cal_data, num_qubits, [j, k])
+    return _real_generator(assignment_matrix(cal_data, num_qubits, [j, k]))
+
+
+def _real_generator(a_mat: np.array) -> np.array:
+    """Return the logarithm of an assignment matrix without negative rates."""
+    # pylint: disable=invalid-name
     g = la.logm(a_mat)
     if np.linalg.norm(np.imag(g)) > 1e-3:
         raise QiskitError('Encountered complex entries in G_i={}'.format(g))
     g = np.real(g)
-    for i in range(4):
-        for j in range(4):
+    for i in range(len(g)):
+        for j in range(len(g)):
             if i != j:
                 if g[i, j] < 0:
                     g[i, j] = 0
-- 
2.43.0


From 6ce418d35ba7d2c12c3395b036ad985950776510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:23 +0000
Subject: [PATCH 15/74] fix: gauge optimization passes a vector to the
 optimizer

scipy rejects matrices as starting points, so no gate set could be fitted.
---
 qiskit/ignis/verification/tomography/fitters/gateset_fitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/tomography/fitters/gateset_fitter.py b/qiskit/ignis/verification/tomography/fitters/gateset_fitter.py
index 55103d8..24fd745 100644
--- a/qiskit/ignis/verification/tomography/fitters/gateset_fitter.py
+++ b/qiskit/ignis/verification/tomography/fitters/gateset_fitter.py
@@ -283,7 +283,7 @@ class GaugeOptimize():
             The optimal gateset found by the gauge optimization
         """
         initial_value = np.array([(F @ self.rho).T[0] for F in self.Fs]).T
-        result = opt.minimize(self._obj_fn, initial_value)
+        result = opt.minimize(self._obj_fn, initial_value.flatten())
         return self._x_to_gateset(result.x)
 
 
-- 
2.43.0


From 066b56901f80d7f8f48247bf6daccd45df656ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:23 +0000
Subject: [PATCH 16/74] fix: SPAM matrix multiplies the gates in circuit order

---
 qiskit/ignis/verification/tomography/basis/gatesetbasis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/tomography/basis/gatesetbasis.py b/qiskit/ignis/verification/tomography/basis/gatesetbasis.py
index e5c94c1..2cc4526 100644
--- a/qiskit/ignis/verification/tomography/basis/gatesetbasis.py
+++ b/qiskit/ignis/verification/tomography/basis/gatesetbasis.py
@@ -221,7 +221,7 @@ class GateSetBasis:
         """
         spec = self.spam_spec[label]
         f_matrices = [self.gate_matrices[gate_label] for gate_label in spec]
-        result = functools.reduce(lambda a, b: a @ b, f_matrices)
+        result = functools.reduce(lambda a, b: b @ a, f_matrices)
         return result
 
     def get_tomography_basis(self) -> TomographyBasis:
-- 
2.43.0


From c5b83d2e564e0c889a4b4e7d3ff12bcab700310e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:52 +0000
Subject: [PATCH 17/74] fix: tomography of circuits that have their own
 classical registers

Only one qubit was kept for state tomography, and nothing was
marginalized when circuit names were given.
---
 .../verification/tomography/fitters/base_fitter.py     | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/qiskit/ignis/verification/tomography/fitters/base_fitter.py b/qiskit/ignis/verification/tomography/fitters/base_fitter.py
index d31531d..be5e840 100644
--- a/qiskit/ignis/verification/tomography/fitters/base_fitter.py
+++ b/qiskit/ignis/verification/tomography/fitters/base_fitter.py
@@ -258,11 +258,6 @@ class TomographyFitter:
         if len(circuits) == 0:
             raise QiskitError("No circuit data given")
 
-        if isinstance(circuits[0], str) or len(circuits[0].cregs) == 1:
-            marginalize = False
-        else:
-            marginalize = True
-
         # Process measurement counts into probabilities
         for circ in circuits:
             counts = None
@@ -279,8 +274,9 @@ class TomographyFitter:
                 tup = literal_eval(circ.name)
             else:
                 tup = circ
-            if marginalize:
-                counts = marginal_counts(counts, range(len(tup[0])))
+            # The tomography register is the first one of the circuit
+            num_bits = len(next(iter(counts)).split(' ')[-1])
+            counts = marginal_counts(counts, range(num_bits))
             if tup in self._data:
                 self._data[tup] = combine_counts(self._data[tup], counts)
             else:
-- 
2.43.0


From 69afdadf72a482f026d8b3c176056af3e2ad3721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:52 +0000
Subject: [PATCH 18/74] fix: tomography fitter uses the counts of all given
 results

Only the last result containing a circuit was used, and a missing
circuit given by name raised AttributeError.
---
 .../verification/tomography/fitters/base_fitter.py    | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/qiskit/ignis/verification/tomography/fitters/base_fitter.py b/qiskit/ignis/verification/tomography/fitters/base_fitter.py
index be5e840..e061dae 100644
--- a/qiskit/ignis/verification/tomography/fitters/base_fitter.py
+++ b/qiskit/ignis/verification/tomography/fitters/base_fitter.py
@@ -263,11 +263,16 @@ class TomographyFitter:
             counts = None
             for result in results:
                 try:
-                    counts = result.get_counts(circ)
+                    new_counts = result.get_counts(circ)
                 except QiskitError:
-                    pass
+                    continue
+                if counts is None:
+                    counts = new_counts
+                else:
+                    counts = combine_counts(counts, new_counts)
             if counts is None:
-                raise QiskitError("Result for {} not found".format(circ.name))
+                raise QiskitError("Result for {} not found".format(
+                    getattr(circ, 'name', circ)))
             if isinstance(circ, str):
                 tup = literal_eval(circ)
             elif isinstance(circ, QuantumCircuit):
-- 
2.43.0


From b302e73c0fc1dec68dedbfe886b60247b1841b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:14 +0000
Subject: [PATCH 19/74] fix: CNOTDihedral can be initialized from a
 CNOTDihedral

---
 qiskit/ignis/verification/randomized_benchmarking/dihedral.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
index c51b3fb..92ecd8d 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
@@ -358,6 +358,7 @@ class CNOTDihedral(BaseOperator):
         # Initialize from another CNOTDihedral by sharing the underlying
         # poly, linear and shift
         if isinstance(data, CNOTDihedral):
+            self._num_qubits = data.num_qubits
             self.linear = data.linear
             self.shift = data.shift
             self.poly = data.poly
-- 
2.43.0


From 5e7ca2684f30b7df0741fa4d700419ebb7e9a074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:14 +0000
Subject: [PATCH 20/74] fix: shift of a product of CNOTDihedral elements is an
 array

---
 .../verification/randomized_benchmarking/dihedral.py      | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
index 92ecd8d..a2d57ec 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
@@ -423,8 +423,7 @@ class CNOTDihedral(BaseOperator):
         if self.num_qubits != other.num_qubits:
             raise QiskitError("Multiplication on different number of qubits.")
         result = CNOTDihedral(self.num_qubits)
-        result.shift = [(x[0] + x[1]) % 2
-                        for x in zip(self._z2matvecmul(self.linear, other.shift), self.shift)]
+        result.shift = np.mod(self._z2matvecmul(self.linear, other.shift) + self.shift, 2)
         result.linear = self._z2matmul(self.linear, other.linear)
         # Compute x' = B1*x + c1 using the p_j identity
         new_vars = []
@@ -445,10 +444,7 @@ class CNOTDihedral(BaseOperator):
         if self.num_qubits != other.num_qubits:
             raise QiskitError("Multiplication on different number of qubits.")
         result = CNOTDihedral(self.num_qubits)
-        result.shift = [(x[0] + x[1]) % 2
-                        for x in zip(self._z2matvecmul(other.linear,
-                                                       self.shift),
-                                     other.shift)]
+        result.shift = np.mod(self._z2matvecmul(other.linear, self.shift) + other.shift, 2)
         result.linear = self._z2matmul(other.linear, self.linear)
         # Compute x' = B1*x + c1 using the p_j identity
         new_vars = []
-- 
2.43.0


From 34be4471105ac405c74c154c82ddd60e0e2380ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:14 +0000
Subject: [PATCH 21/74] fix: composing CNOTDihedral elements of more than 8
 qubits

---
 qiskit/ignis/verification/randomized_benchmarking/dihedral.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
index a2d57ec..87b1162 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
@@ -97,7 +97,7 @@ class SpecialPolynomial():
             terms3 = list(combinations(range(self.n_vars), r=3))
             for term in terms0 + terms1 + terms2 + terms3:
                 value = self.get_term(term)
-                new_term = list(set(term).union(set(indices)))
+                new_term = sorted(set(term).union(set(indices)))
                 result.set_term(new_term, (result.get_term(new_term) + value) % 8)
         return result
 
-- 
2.43.0


From f60d3966879c744481cdc2aedb8c26a46a58147c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:14 +0000
Subject: [PATCH 22/74] fix: evaluate a SpecialPolynomial on a z2 vector

---
 .../verification/randomized_benchmarking/dihedral.py      | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
index 87b1162..de4751a 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
@@ -156,7 +156,7 @@ class SpecialPolynomial():
         """
         if len(xval) != self.n_vars:
             raise QiskitError("Evaluate on wrong number of variables.")
-        check_int = list(map(lambda x: isinstance(x, int), xval))
+        check_int = list(map(lambda x: isinstance(x, (int, np.integer)), xval))
         check_poly = list(map(lambda x: isinstance(x, SpecialPolynomial), xval))
         if False in check_int and False in check_poly:
             raise QiskitError("Evaluate on a wrong type.")
@@ -165,7 +165,7 @@ class SpecialPolynomial():
             if False in [i.n_vars == self.n_vars for i in xval]:
                 raise QiskitError("Evaluate on incompatible polynomials.")
         else:
-            xval = xval % 2
+            xval = [int(x) % 2 for x in xval]
         # Examine each term of this polynomial
         terms0 = [[]]
         terms1 = list(combinations(range(self.n_vars), r=1))
@@ -185,8 +185,8 @@ class SpecialPolynomial():
             if value != 0:
                 newterm = reduce(mul, [xval[j] for j in term], start)
                 result = result + value * newterm
-        if isinstance(result, int):
-            result = result % 8
+        if is_int:
+            result = int(result) % 8
         return result
 
     def set_pj(self, indices):
-- 
2.43.0


From f870c076f9e636757fb00beb7283b3ed584df5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:14 +0000
Subject: [PATCH 23/74] fix: CNOTDihedral u1 angles are rounded, not truncated,
 to multiples of pi/4

---
 .../ignis/verification/randomized_benchmarking/dihedral.py   | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
index de4751a..b9f7f8d 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
@@ -898,7 +898,10 @@ def append_circuit(elem, circuit, qargs=None):
         elif (instr.name == 'u1' or gate.name == 'u1'):
             if (len(new_qubits) != 1 or len(instr.params) != 1):
                 raise QiskitError("Invalid qubits or params for 1-qubit gate u1.")
-            elem.phase(int(4 * instr.params[0] / np.pi), new_qubits[0])
+            tpow = 4 * float(instr.params[0]) / np.pi
+            if not np.isclose(tpow, np.round(tpow)):
+                raise QiskitError("u1 angle is not a multiple of pi/4.")
+            elem.phase(int(np.round(tpow)), new_qubits[0])
 
         elif (instr.name == 'cx' or gate.name == 'cx'):
             if len(new_qubits) != 2:
-- 
2.43.0


From 20bb5532dd0619cd5e7631fc5f629beeb0cc7fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:14 +0000
Subject: [PATCH 24/74] fix: RB group names NonClifford and CNOTDihedral

---
 qiskit/ignis/verification/randomized_benchmarking/rb_groups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/rb_groups.py b/qiskit/ignis/verification/randomized_benchmarking/rb_groups.py
index 7b333a5..4566634 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/rb_groups.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/rb_groups.py
@@ -37,7 +37,7 @@ class RBgroup():
                                                   'clifford'):
             self._rb_group = Clifford
         elif group_gates in ('1', 'Non-Clifford',
-                             'NonClifford'
+                             'NonClifford',
                              'CNOTDihedral',
                              'CNOT-Dihedral'):
             self._rb_group = CNOTDihedral
-- 
2.43.0


From f66e5bb69e91a652689da09b2b2404f735dbd913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:14 +0000
Subject: [PATCH 25/74] fix: rand_seed of RB sequences can be 0 or a
 RandomState

---
 .../verification/randomized_benchmarking/circuits.py   | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/circuits.py b/qiskit/ignis/verification/randomized_benchmarking/circuits.py
index e91ee38..48742f1 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/circuits.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/circuits.py
@@ -441,9 +441,13 @@ def randomized_benchmarking_seq(nseeds: int = 1,
 
                 for _ in range(length_multiplier[rb_pattern_index]):
                     # make the seed unique for each element
-                    if rand_seed:
-                        rand_seed += (seed + 1)
-                    new_elmnt = rb_group.random(rb_q_num, rand_seed)
+                    if isinstance(rand_seed, RandomState):
+                        elmnt_seed = rand_seed.randint(2**31 - 1)
+                    else:
+                        if rand_seed is not None:
+                            rand_seed += (seed + 1)
+                        elmnt_seed = rand_seed
+                    new_elmnt = rb_group.random(rb_q_num, elmnt_seed)
                     Elmnts[rb_pattern_index] = rb_group.compose(
                         Elmnts[rb_pattern_index], new_elmnt)
                     general_circ += replace_q_indices(
-- 
2.43.0


From c5b1c257aa70e37bc120895a0d095ef56ab6b6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:14 +0000
Subject: [PATCH 26/74] fix: RB length_multiplier can be None

---
 qiskit/ignis/verification/randomized_benchmarking/circuits.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/circuits.py b/qiskit/ignis/verification/randomized_benchmarking/circuits.py
index 48742f1..6883b39 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/circuits.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/circuits.py
@@ -51,6 +51,8 @@ def handle_length_multiplier(length_multiplier, len_pattern,
         ValueError: if the input is invalid
     """
 
+    if length_multiplier is None:
+        length_multiplier = 1
     if hasattr(length_multiplier, "__len__"):
         if is_purity:
             raise ValueError(
-- 
2.43.0


From 56b29b18bc0b1bfc29a6dfbf8b911749d02fe933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:21 +0000
Subject: [PATCH 27/74] fix: phase of the right multiplication of CNOTDihedral
 elements

---
 qiskit/ignis/verification/randomized_benchmarking/dihedral.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
index b9f7f8d..835bb0d 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
@@ -452,7 +452,7 @@ class CNOTDihedral(BaseOperator):
             support = np.arange(self.num_qubits)[np.nonzero(self.linear[i])]
             poly = SpecialPolynomial(self.num_qubits)
             poly.set_pj(support)
-            if other.shift[i] == 1:
+            if self.shift[i] == 1:
                 poly = -1 * poly
                 poly.weight_0 = (poly.weight_0 + 1) % 8
             new_vars.append(poly)
-- 
2.43.0


From b5aa14898e2488ac9392e0df57f213b1f73d03ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:59 +0000
Subject: [PATCH 28/74] fix: PurityRBFitter.cliff_lengths does not recurse

---
 qiskit/ignis/verification/randomized_benchmarking/fitters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/fitters.py b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
index 5876991..e2a348a 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/fitters.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
@@ -825,7 +825,7 @@ class PurityRBFitter(RBFitterBase):
     @property
     def cliff_lengths(self):
         """Return clifford lengths."""
-        return self.cliff_lengths
+        return self._cliff_lengths
 
     @property
     def ydata(self):
-- 
2.43.0


From 66c4b25d73def67ad807aaafc585955abaa75cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:59 +0000
Subject: [PATCH 29/74] fix: default rb_pattern of the interleaved and
 CNOT-dihedral RB fitters

---
 .../ignis/verification/randomized_benchmarking/fitters.py   | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/fitters.py b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
index e2a348a..48eba69 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/fitters.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
@@ -515,6 +515,9 @@ class InterleavedRBFitter(RBFitterBase):
             rb_pattern (list): the pattern for the RB sequences.
         """
 
+        if rb_pattern is None:
+            rb_pattern = [[0]]
+
         self._cliff_lengths = cliff_lengths
         self._rb_pattern = rb_pattern
         self._fit_interleaved = []
@@ -1174,6 +1177,9 @@ class CNOTDihedralRBFitter(RBFitterBase):
             rb_pattern (list): the pattern for the RB sequences.
         """
 
+        if rb_pattern is None:
+            rb_pattern = [[0]]
+
         # Initialize a new CNOTDihedralRBFitter.
         self._cliff_lengths = elmnts_lengths
         self._rb_pattern = rb_pattern
-- 
2.43.0


From e23cadc5bf0b1c85fcf20d120be3e48dfe9effab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:59 +0000
Subject: [PATCH 30/74] fix: RB fitters count the initial results once

---
 .../ignis/verification/randomized_benchmarking/fitters.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/fitters.py b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
index 48eba69..31a97c9 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/fitters.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
@@ -527,9 +527,6 @@ class InterleavedRBFitter(RBFitterBase):
         self._rbfit_interleaved = RBFitter(
             interleaved_result, cliff_lengths, rb_pattern)
 
-        self.rbfit_std.add_data(original_result)
-        self.rbfit_int.add_data(interleaved_result)
-
         if not (original_result is None and interleaved_result is None):
             self.fit_data()
 
@@ -811,7 +808,7 @@ class PurityRBFitter(RBFitterBase):
         self.add_zdict_ops()
 
         # rb purity fitter
-        self._rbfit_purity = RBFitter(purity_result, cliff_lengths,
+        self._rbfit_purity = RBFitter(None, cliff_lengths,
                                       rb_pattern)
         self.add_data(purity_result)
 
@@ -1190,9 +1187,6 @@ class CNOTDihedralRBFitter(RBFitterBase):
         self._rbfit_X = RBFitter(
             cnotdihedral_X_result, elmnts_lengths, rb_pattern)
 
-        self.rbfit_Z.add_data(cnotdihedral_Z_result)
-        self.rbfit_X.add_data(cnotdihedral_X_result)
-
         if not (cnotdihedral_Z_result is None and
                 cnotdihedral_X_result is None):
             self.fit_data()
-- 
2.43.0


From a880d9fb29fe498be3ebce058e24f5d0f7af6aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:59 +0000
Subject: [PATCH 31/74] fix: RB fit guess stays within the bounds of the fit

---
 qiskit/ignis/verification/randomized_benchmarking/fitters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/fitters.py b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
index 31a97c9..88cd6f5 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/fitters.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
@@ -429,7 +429,8 @@ class RBFitter(RBFitterBase):
                 fit_guess[0] = ((y0 - fit_guess[2]) /
                                 fit_guess[1]**self._cliff_lengths[patt_ind][0])
 
-            self.fit_data_pattern(patt_ind, tuple(fit_guess))
+            # The guess must lie within the bounds of the fit
+            self.fit_data_pattern(patt_ind, tuple(np.clip(fit_guess, 0, 1)))
 
     def plot_rb_data(self, pattern_index=0, ax=None,
                      add_label=True, show_plt=True):
-- 
2.43.0


From 478d2bdd700d8d78d20b58320bc85e6c9db4f735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:50 +0000
Subject: [PATCH 32/74] fix: CNOTDihedral can be initialized from a ScalarOp

---
 qiskit/ignis/verification/randomized_benchmarking/dihedral.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
index 835bb0d..df96593 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
@@ -365,7 +365,7 @@ class CNOTDihedral(BaseOperator):
 
         # Initialize from ScalarOp as N-qubit identity discarding any global phase
         elif isinstance(data, ScalarOp):
-            if not data.is_unitary() or set(data._input_dims) != {2} or \
+            if not data.is_unitary() or set(data.input_dims()) != {2} or \
                     data.num_qubits is None:
                 raise QiskitError("Can only initialize from N-qubit identity ScalarOp.")
             self._num_qubits = data.num_qubits
-- 
2.43.0


From 961d2a05521c6f9ce7baec3c728f61f02850e2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:25 +0000
Subject: [PATCH 33/74] fix: CNOTDihedral can be initialized from the id, u1
 and cz gates

---
 .../ignis/verification/randomized_benchmarking/dihedral.py  | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
index df96593..a4b0c25 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
@@ -869,6 +869,12 @@ def append_circuit(elem, circuit, qargs=None):
         elem.cnot(qargs[0], qargs[1])
         return elem
 
+    # The definitions of these gates are not made of CNOTDihedral gates
+    if gate.name in ('id', 'u1', 'cz'):
+        circuit = QuantumCircuit(gate.num_qubits)
+        circuit.append(gate, range(gate.num_qubits))
+        gate = circuit.to_instruction()
+
     if gate.definition is None:
         raise QiskitError('Cannot apply Instruction: {}'.format(gate.name))
     if not isinstance(gate.definition, QuantumCircuit):
-- 
2.43.0


From d4db8c3fe002a88506f148196c7e39aa7360d852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:02 +0000
Subject: [PATCH 34/74] fix: quantum volume circuits are reproducible with seed
 0

---
 qiskit/ignis/verification/quantum_volume/circuits.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/verification/quantum_volume/circuits.py b/qiskit/ignis/verification/quantum_volume/circuits.py
index 4f0a8b8..81d15db 100644
--- a/qiskit/ignis/verification/quantum_volume/circuits.py
+++ b/qiskit/ignis/verification/quantum_volume/circuits.py
@@ -72,7 +72,7 @@ def qv_circuits(qubit_lists, ntrials=1,
                               DeprecationWarning)
     depth_list = [len(qubit_list) for qubit_list in qubit_lists]
 
-    if seed:
+    if seed is not None:
         rng = np.random.default_rng(seed)
     else:
         _seed = None
@@ -83,7 +83,7 @@ def qv_circuits(qubit_lists, ntrials=1,
     for trial in range(ntrials):
         for depthidx, depth in enumerate(depth_list):
             n_q_max = np.max(qubit_lists[depthidx])
-            if seed:
+            if seed is not None:
                 _seed = rng.integers(1000)
             qv_circ = QuantumVolume(depth, depth, seed=_seed)
             qc2 = copy.deepcopy(qv_circ)
-- 
2.43.0


From dad75b0a9b10b01e5de36d6b60b59faeb1f0dc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:02 +0000
Subject: [PATCH 35/74] fix: quantum volume circuits act on the listed qubits
 when the largest index equals the width

---
 qiskit/ignis/verification/quantum_volume/circuits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/quantum_volume/circuits.py b/qiskit/ignis/verification/quantum_volume/circuits.py
index 81d15db..70e8d9a 100644
--- a/qiskit/ignis/verification/quantum_volume/circuits.py
+++ b/qiskit/ignis/verification/quantum_volume/circuits.py
@@ -89,7 +89,7 @@ def qv_circuits(qubit_lists, ntrials=1,
             qc2 = copy.deepcopy(qv_circ)
             # TODO: Remove this when we remove support for doing pseudo-layout
             # via qubit lists
-            if n_q_max != depth:
+            if list(qubit_lists[depthidx]) != list(range(depth)):
                 qc = QuantumCircuit(int(n_q_max + 1))
                 qc.compose(qv_circ, qubit_lists[depthidx], inplace=True)
             else:
-- 
2.43.0


From ea59894d6cb64bdc60700e89e841f5b0bfdde9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:27 +0000
Subject: [PATCH 36/74] fix: quantum volume bits are ordered as the listed
 qubits

---
 qiskit/ignis/verification/quantum_volume/circuits.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/quantum_volume/circuits.py b/qiskit/ignis/verification/quantum_volume/circuits.py
index 70e8d9a..18f24f1 100644
--- a/qiskit/ignis/verification/quantum_volume/circuits.py
+++ b/qiskit/ignis/verification/quantum_volume/circuits.py
@@ -23,6 +23,7 @@ import warnings
 import numpy as np
 
 from qiskit.circuit.library import QuantumVolume
+from qiskit.circuit.classicalregister import ClassicalRegister
 from qiskit.circuit.quantumcircuit import QuantumCircuit
 
 
@@ -94,7 +95,10 @@ def qv_circuits(qubit_lists, ntrials=1,
                 qc.compose(qv_circ, qubit_lists[depthidx], inplace=True)
             else:
                 qc = qv_circ
-            qc.measure_active()
+            # the ideal circuit orders its qubits as listed, so do the bits
+            qc.add_register(ClassicalRegister(depth, 'measure'))
+            qc.barrier(qubit_lists[depthidx])
+            qc.measure(qubit_lists[depthidx], range(depth))
             qc.name = 'qv_depth_%d_trial_%d' % (depth, trial)
             qc2.name = qc.name
 
-- 
2.43.0


From e5be60926b937757e642832815f2192e45029067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:27 +0000
Subject: [PATCH 37/74] fix: quantum volume fitter does not keep data it
 rejects

---
 qiskit/ignis/verification/quantum_volume/fitters.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/qiskit/ignis/verification/quantum_volume/fitters.py b/qiskit/ignis/verification/quantum_volume/fitters.py
index 42032f8..078b059 100644
--- a/qiskit/ignis/verification/quantum_volume/fitters.py
+++ b/qiskit/ignis/verification/quantum_volume/fitters.py
@@ -170,6 +170,13 @@ class QVFitter:
         if not isinstance(new_backend_result, list):
             new_backend_result = [new_backend_result]
 
+        # check all the results before any of them is used
+        for result in new_backend_result:
+            for qvcirc in result.results:
+                if qvcirc.header.name not in self._heavy_output_prob_ideal:
+                    raise QiskitError('Ideal distribution '
+                                      'must be loaded first')
+
         for result in new_backend_result:
             self._result_list.append(result)
 
@@ -180,10 +187,6 @@ class QVFitter:
                 if (ntrials_circ+1) > self._ntrials:
                     self._ntrials = ntrials_circ+1
 
-                if qvcirc.header.name not in self._heavy_output_prob_ideal:
-                    raise QiskitError('Ideal distribution '
-                                      'must be loaded first')
-
         if rerun_fit:
             self.calc_data()
             self.calc_statistics()
-- 
2.43.0


From 34ac4214e5be218cffe2c91bf73e70f4a34084c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:32 +0000
Subject: [PATCH 38/74] fix: matching of the repetition code uses the weights
 without truncation

---
 qiskit/ignis/verification/topological_codes/fitters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/verification/topological_codes/fitters.py b/qiskit/ignis/verification/topological_codes/fitters.py
index 6060983..e87abb7 100755
--- a/qiskit/ignis/verification/topological_codes/fitters.py
+++ b/qiskit/ignis/verification/topological_codes/fitters.py
@@ -240,8 +240,8 @@ class GraphDecoder():
             for source in E[subgraph]:
                 for target in E[subgraph]:
                     if target != (source):
-                        distance = int(nx.shortest_path_length(
-                            self.S, source, target, weight='distance'))
+                        distance = nx.shortest_path_length(
+                            self.S, source, target, weight='distance')
                         E[subgraph].add_edge(source, target, weight=-distance)
 
         return E
-- 
2.43.0


From 99f3fb9b118ed6e662e590a243bffdc12f5fc7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:32 +0000
Subject: [PATCH 39/74] fix: one-time pad corrections follow the measured
 classical bits

---
 qiskit/ignis/verification/accreditation/qotp.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/verification/accreditation/qotp.py b/qiskit/ignis/verification/accreditation/qotp.py
index bfd82a7..e6ffc2b 100644
--- a/qiskit/ignis/verification/accreditation/qotp.py
+++ b/qiskit/ignis/verification/accreditation/qotp.py
@@ -213,8 +213,11 @@ def QOTP_fromlayers(layers, rng):
     temp_circ = transpile(temp_circ,
                           basis_gates=['u1', 'u2', 'u3'])
     qotp_circ = qotp_circ+temp_circ
-    # post operations
-    qotp_postp = np.flip(paulixs)
+    # post operations, one for each classical bit
+    qotp_postp = np.zeros(len(cregs), dtype=int)
+    for _, qsub, csub in layers['measlayer']:
+        qotp_postp[csub[0].index] = paulixs[qsub[0].index]
+    qotp_postp = np.flip(qotp_postp)
     # measurements
     qotp_circ = qotp_circ+layers['measlayer']
     return qotp_circ, qotp_postp
-- 
2.43.0


From fdb796aa07d6ffcbbff1e4366fd68bc8efe1897c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:32 +0000
Subject: [PATCH 40/74] fix: accreditation fitters do not share their outputs

---
 qiskit/ignis/verification/accreditation/fitters.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/accreditation/fitters.py b/qiskit/ignis/verification/accreditation/fitters.py
index 6bbdda2..930efae 100644
--- a/qiskit/ignis/verification/accreditation/fitters.py
+++ b/qiskit/ignis/verification/accreditation/fitters.py
@@ -43,11 +43,13 @@ class AccreditationFitter:
     N_acc = 0
     num_runs = 0
     flag = 'accepted'
-    outputs = []
     num_runs = 0
     num_traps = 0
     g_num = 1
 
+    def __init__(self):
+        self.outputs = []
+
     def single_protocol_run(self, results, postp_list, v_zero):
         """
         Single protocol run of accreditation protocol on simul backend
-- 
2.43.0


From 19c0c31fb415df281589b04c1027b274a908be7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:32 +0000
Subject: [PATCH 41/74] fix: accreditation fitter raises the errors of invalid
 runs

---
 .../verification/accreditation/fitters.py     | 28 +++++++++----------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/qiskit/ignis/verification/accreditation/fitters.py b/qiskit/ignis/verification/accreditation/fitters.py
index 930efae..ffc7889 100644
--- a/qiskit/ignis/verification/accreditation/fitters.py
+++ b/qiskit/ignis/verification/accreditation/fitters.py
@@ -59,19 +59,14 @@ class AccreditationFitter:
             postp_list (list): list of strings used to post-process outputs
             v_zero (int): position of target
         """
-        self.num_runs = self.num_runs + 1
-        self.flag = 'accepted'
-
         # Check that correct number of traps is input
-        if self.num_runs == 1:
-            self.num_traps = len(postp_list)-1
-        else:
-            if len(postp_list)-1 != self.num_traps:
-                QiskitError("ERROR: Run protocol with the"
-                            "same number of traps")
-
-        if self.num_traps < 3:
-            QiskitError("ERROR: run the protocol with at least 3 traps")
+        num_traps = len(postp_list)-1
+        if self.num_runs > 0 and num_traps != self.num_traps:
+            raise QiskitError("ERROR: Run protocol with the "
+                              "same number of traps")
+
+        if num_traps < 3:
+            raise QiskitError("ERROR: run the protocol with at least 3 traps")
         allcounts = []
         for ind, postp in enumerate(postp_list):
 
@@ -84,8 +79,11 @@ class AccreditationFitter:
             for countstring, val in counts.items():
                 shots += val
             if shots != 1 or countstring is None:
-                QiskitError("ERROR: not single shot data")
+                raise QiskitError("ERROR: not single shot data")
             allcounts.append(countstring)
+        self.num_runs = self.num_runs + 1
+        self.num_traps = num_traps
+        self.flag = 'accepted'
         for k, count in enumerate(allcounts):
             if k != v_zero:
                 # Check if trap returns correct output
@@ -106,8 +104,8 @@ class AccreditationFitter:
             theta (float): number between 0 and 1
         """
         if self.N_acc == 0:
-            QiskitError("ERROR: Variation distance requires"
-                        "at least one accepted run")
+            raise QiskitError("ERROR: Variation distance requires "
+                              "at least one accepted run")
         if self.N_acc/self.num_runs > theta:
             self.bound = self.g_num*1.7/(self.num_traps+1)
             self.bound = self.bound/(self.N_acc/self.num_runs-theta)
-- 
2.43.0


From 3f948cf04553c75b9ece83a2e81b19de5bd67823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:32 +0000
Subject: [PATCH 42/74] fix: accreditation bound does not keep the value of an
 earlier call

---
 qiskit/ignis/verification/accreditation/fitters.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qiskit/ignis/verification/accreditation/fitters.py b/qiskit/ignis/verification/accreditation/fitters.py
index ffc7889..79ab321 100644
--- a/qiskit/ignis/verification/accreditation/fitters.py
+++ b/qiskit/ignis/verification/accreditation/fitters.py
@@ -106,6 +106,9 @@ class AccreditationFitter:
         if self.N_acc == 0:
             raise QiskitError("ERROR: Variation distance requires "
                               "at least one accepted run")
+        # the trivial bound always holds
+        self.bound = 1
+        self.confidence = 1
         if self.N_acc/self.num_runs > theta:
             self.bound = self.g_num*1.7/(self.num_traps+1)
             self.bound = self.bound/(self.N_acc/self.num_runs-theta)
-- 
2.43.0


From c6db2ad8622dee56a4693e85e88f05e1f91b01cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:32 +0000
Subject: [PATCH 43/74] fix: confidence of the accreditation bound follows
 Hoeffding's inequality

---
 qiskit/ignis/verification/accreditation/fitters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/accreditation/fitters.py b/qiskit/ignis/verification/accreditation/fitters.py
index 79ab321..8bd63e7 100644
--- a/qiskit/ignis/verification/accreditation/fitters.py
+++ b/qiskit/ignis/verification/accreditation/fitters.py
@@ -113,6 +113,6 @@ class AccreditationFitter:
             self.bound = self.g_num*1.7/(self.num_traps+1)
             self.bound = self.bound/(self.N_acc/self.num_runs-theta)
             self.bound = self.bound+1-self.g_num
-            self.confidence = 1-2*np.exp(-2*theta*self.num_runs*self.num_runs)
+            self.confidence = 1-2*np.exp(-2*theta*theta*self.num_runs)
         if self.bound > 1:
             self.bound = 1
-- 
2.43.0


From 240b9d6d7a59559de0758d68d465ce1c0b164247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:14 +0000
Subject: [PATCH 44/74] fix: zz_circuits takes a list of numbers of gates

---
 qiskit/ignis/characterization/hamiltonian/circuits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/characterization/hamiltonian/circuits.py b/qiskit/ignis/characterization/hamiltonian/circuits.py
index 0f112e1..b554c5b 100644
--- a/qiskit/ignis/characterization/hamiltonian/circuits.py
+++ b/qiskit/ignis/characterization/hamiltonian/circuits.py
@@ -56,7 +56,7 @@ def zz_circuits(num_of_gates, gate_time, qubits, spectators, nosc=5):
         if qubit in spectators:
             raise ValueError("Qubits and spectators must be different")
 
-    xdata = gate_time * num_of_gates
+    xdata = gate_time * np.array(num_of_gates)
 
     qr = qiskit.QuantumRegister(max([max(qubits), max(spectators)])+1)
     cr = qiskit.ClassicalRegister(len(qubits))
-- 
2.43.0


From 853aab4fafbd8f743a91aa203369c8b918470a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:14 +0000
Subject: [PATCH 45/74] fix: a spectator shared by several qubits is flipped
 once in zz_circuits

---
 qiskit/ignis/characterization/hamiltonian/circuits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/characterization/hamiltonian/circuits.py b/qiskit/ignis/characterization/hamiltonian/circuits.py
index b554c5b..72e9096 100644
--- a/qiskit/ignis/characterization/hamiltonian/circuits.py
+++ b/qiskit/ignis/characterization/hamiltonian/circuits.py
@@ -69,7 +69,7 @@ def zz_circuits(num_of_gates, gate_time, qubits, spectators, nosc=5):
         for circ_index, circ_length in enumerate(num_of_gates):
             circ = qiskit.QuantumCircuit(qr, cr)
             circ.name = 'zzcircuit_' + str(circ_index) + '_%d' % qflip
-            for _, qspec in enumerate(spectators):
+            for qspec in sorted(set(spectators)):
                 if qflip:
                     circ.x(qr[qspec])
             circ.barrier(qr)
-- 
2.43.0


From 47f15b82669cbcc7ecfd7f7c038a7906f003da44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:09 +0000
Subject: [PATCH 46/74] fix: artificial angle error is the same in all X90
 gates of anglecal_1Q_circuits

---
 qiskit/ignis/characterization/gates/circuits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/characterization/gates/circuits.py b/qiskit/ignis/characterization/gates/circuits.py
index 02e4198..9bdfb9c 100644
--- a/qiskit/ignis/characterization/gates/circuits.py
+++ b/qiskit/ignis/characterization/gates/circuits.py
@@ -112,7 +112,7 @@ def anglecal_1Q_circuits(max_reps, qubits, angleerr=0.0):
                     circ.append(U2Gate(0.0, 0.0), [qr[qubit]])  # Yp
 
             if angleerr != 0:
-                circ.append(U1Gate(-angleerr), [qr[qubit]])
+                circ.append(U1Gate(-2*angleerr), [qr[qubit]])
             circ.append(U2Gate(-np.pi/2, np.pi/2), [qr[qubit]])  # X90p
         for qind, qubit in enumerate(qubits):
             circ.measure(qr[qubit], cr[qind])
-- 
2.43.0


From 51f181c0aa625487ec2dc0aae481a015515eaf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:28 +0000
Subject: [PATCH 47/74] fix: IQ fitters take single shot data

---
 qiskit/ignis/characterization/fitters.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/qiskit/ignis/characterization/fitters.py b/qiskit/ignis/characterization/fitters.py
index 5fa8f2e..0e7a9e1 100644
--- a/qiskit/ignis/characterization/fitters.py
+++ b/qiskit/ignis/characterization/fitters.py
@@ -447,12 +447,10 @@ class IQFitter(BaseFitter):
 
                 else:
 
-                    # data is in single shot IQ mode
-                    iq_list[sname] = (result.shots *
-                                      single_result.get_memory(sname) +
-                                      iq_list.get(sname,
-                                                  np.zeros([result.shots,
-                                                            mem_slots])))
+                    # data is in single shot IQ mode, collect all the shots
+                    iq_list[sname] = np.concatenate(
+                        (iq_list.get(sname, np.zeros([0, mem_slots])),
+                         single_result.get_memory(sname)))
 
         for sname in iq_list:
 
@@ -460,8 +458,8 @@ class IQFitter(BaseFitter):
                 iq_list_mean[sname] = iq_list[sname]/shots_list[sname]
                 iq_list_var[sname] = np.ones(len(iq_list_mean[sname]))*1e-4
             else:
-                iq_list_mean[sname] = np.sum(iq_list[sname])/shots_list[sname]
-                iq_list_var[sname] = np.std(iq_list[sname])
+                iq_list_mean[sname] = np.mean(iq_list[sname], axis=0)
+                iq_list_var[sname] = np.std(iq_list[sname], axis=0)
 
         return iq_list_mean, iq_list_var
 
-- 
2.43.0


From 9abeb0ecd0d0a2836c76261889385c759f231a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:28 +0000
Subject: [PATCH 48/74] fix: IQ data on a line of negative slope keeps its
 signal

---
 qiskit/ignis/characterization/fitters.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qiskit/ignis/characterization/fitters.py b/qiskit/ignis/characterization/fitters.py
index 0e7a9e1..dc55d13 100644
--- a/qiskit/ignis/characterization/fitters.py
+++ b/qiskit/ignis/characterization/fitters.py
@@ -499,6 +499,9 @@ class IQFitter(BaseFitter):
                 imag_ext = np.mean(np.abs(np.imag(mean_list)))
                 crot = real_ext/(real_ext**2+imag_ext**2)**0.5
                 srot = imag_ext/(real_ext**2+imag_ext**2)**0.5
+                # the line has a negative slope if I and Q are anticorrelated
+                if np.sum(np.real(mean_list)*np.imag(mean_list)) < 0:
+                    srot = -srot
                 mean_list = crot*np.real(mean_list)+srot*np.imag(mean_list)
                 self._ydata[serieslbl][-1]['mean'] = mean_list
 
-- 
2.43.0


From 55d90c167260404eba1e06bc7fda20db19a71c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:28 +0000
Subject: [PATCH 49/74] fix: calibration schedules raise the errors of missing
 maps

---
 .../calibrations/pulse_schedules.py              | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/qiskit/ignis/characterization/calibrations/pulse_schedules.py b/qiskit/ignis/characterization/calibrations/pulse_schedules.py
index 6c06129..82aee0b 100644
--- a/qiskit/ignis/characterization/calibrations/pulse_schedules.py
+++ b/qiskit/ignis/characterization/calibrations/pulse_schedules.py
@@ -60,11 +60,11 @@ def rabi_schedules(amp_list, qubits, pulse_width, pulse_sigma=None,
     # To keep function interface constant, errors are inserted here.
     # TODO: redesign this function in next release
     if inst_map is None:
-        QiskitError('Instruction schedule map is not provided. ',
-                    'Run `backend.defaults().instruction_schedule_map` to get inst_map.')
+        raise QiskitError('Instruction schedule map is not provided. ',
+                          'Run `backend.defaults().instruction_schedule_map` to get inst_map.')
     if meas_map is None:
-        QiskitError('Measurement map is not provided. ',
-                    'Run `backend.configuration().meas_map` to get meas_map.')
+        raise QiskitError('Measurement map is not provided. ',
+                          'Run `backend.configuration().meas_map` to get meas_map.')
 
     if pulse_sigma is None:
         pulse_sigma = pulse_width / width_sigma_ratio
@@ -122,11 +122,11 @@ def drag_schedules(beta_list, qubits, pulse_amp, pulse_width,
     # To keep function interface constant, errors are inserted here.
     # TODO: redesign this function in next release
     if inst_map is None:
-        QiskitError('Instruction schedule map is not provided. ',
-                    'Run `backend.defaults().instruction_schedule_map` to get inst_map.')
+        raise QiskitError('Instruction schedule map is not provided. ',
+                          'Run `backend.defaults().instruction_schedule_map` to get inst_map.')
     if meas_map is None:
-        QiskitError('Measurement map is not provided. ',
-                    'Run `backend.configuration().meas_map` to get meas_map.')
+        raise QiskitError('Measurement map is not provided. ',
+                          'Run `backend.configuration().meas_map` to get meas_map.')
 
     if pulse_sigma is None:
         pulse_sigma = pulse_width / width_sigma_ratio
-- 
2.43.0


From 5d880bf08641533d5e24e7af85f54abbb803bc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:28 +0000
Subject: [PATCH 50/74] fix: calibration schedules measure in the order of the
 listed qubits

---
 .../characterization/calibrations/pulse_schedules.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/characterization/calibrations/pulse_schedules.py b/qiskit/ignis/characterization/calibrations/pulse_schedules.py
index 82aee0b..c5197a1 100644
--- a/qiskit/ignis/characterization/calibrations/pulse_schedules.py
+++ b/qiskit/ignis/characterization/calibrations/pulse_schedules.py
@@ -69,6 +69,9 @@ def rabi_schedules(amp_list, qubits, pulse_width, pulse_sigma=None,
     if pulse_sigma is None:
         pulse_sigma = pulse_width / width_sigma_ratio
 
+    # measure in the order of the listed qubits
+    mem_slots = {qubit: qind for qind, qubit in enumerate(qubits)}
+
     # Construct the schedules
     rabi_scheds = []
     for index, g_amp in enumerate(amp_list):
@@ -79,7 +82,8 @@ def rabi_schedules(amp_list, qubits, pulse_width, pulse_sigma=None,
         sched = pulse.Schedule(name='rabisched_%d_0' % index)
         for qubit in qubits:
             sched += pulse.Play(rabi_pulse, drives[qubit])
-        sched += measure(qubits, inst_map=inst_map, meas_map=meas_map).shift(pulse_width)
+        sched += measure(qubits, inst_map=inst_map, meas_map=meas_map,
+                         qubit_mem_slots=mem_slots).shift(pulse_width)
         rabi_scheds.append(sched)
 
     return rabi_scheds, xdata
@@ -131,6 +135,9 @@ def drag_schedules(beta_list, qubits, pulse_amp, pulse_width,
     if pulse_sigma is None:
         pulse_sigma = pulse_width / width_sigma_ratio
 
+    # measure in the order of the listed qubits
+    mem_slots = {qubit: qind for qind, qubit in enumerate(qubits)}
+
     # Construct the schedules
     drag_scheds = []
     for index, b_amp in enumerate(beta_list):
@@ -148,7 +155,8 @@ def drag_schedules(beta_list, qubits, pulse_amp, pulse_width,
                                           name='drag_pulse_%d_%d' % (index, qubit))
             sched += pulse.Play(drag_pulse_p, drives[qubit])
             sched += pulse.Play(drag_pulse_m, drives[qubit])
-        sched += measure(qubits, inst_map=inst_map, meas_map=meas_map).shift(2*pulse_width)
+        sched += measure(qubits, inst_map=inst_map, meas_map=meas_map,
+                         qubit_mem_slots=mem_slots).shift(2*pulse_width)
         drag_scheds.append(sched)
 
     return drag_scheds, xdata
-- 
2.43.0


From 29555792b808c220ccb2f7b8267caca4e77377d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:53 +0000
Subject: [PATCH 51/74] fix: discriminator labels match the features one to one

---
 qiskit/ignis/measurement/discriminator/iq_discriminators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qiskit/ignis/measurement/discriminator/iq_discriminators.py b/qiskit/ignis/measurement/discriminator/iq_discriminators.py
index 09abba5..150f1fb 100644
--- a/qiskit/ignis/measurement/discriminator/iq_discriminators.py
+++ b/qiskit/ignis/measurement/discriminator/iq_discriminators.py
@@ -104,6 +104,7 @@ class IQDiscriminationFitter(BaseDiscriminationFitter):
                 for result in results:
                     try:
                         iq_data = result.get_memory(schedule)
+                        break
                     except QiskitError:
                         pass
             else:
@@ -151,8 +152,9 @@ class IQDiscriminationFitter(BaseDiscriminationFitter):
             for result in results:
                 try:
                     iq_data = result.get_memory(schedule)
-                    n_shots = iq_data.shape[0]
+                    n_shots = len(self.format_iq_data(iq_data))
                     ydata.extend([self._expected_state[shed_name]]*n_shots)
+                    break
                 except QiskitError:
                     pass
 
-- 
2.43.0


From d84e9025b5678c3a72bd5cd94d2f2a48804c4c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:53 +0000
Subject: [PATCH 52/74] fix: data added to a discriminator extends its training
 data

---
 qiskit/ignis/measurement/discriminator/discriminators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/measurement/discriminator/discriminators.py b/qiskit/ignis/measurement/discriminator/discriminators.py
index 4a2c919..d4e1085 100644
--- a/qiskit/ignis/measurement/discriminator/discriminators.py
+++ b/qiskit/ignis/measurement/discriminator/discriminators.py
@@ -115,8 +115,8 @@ class BaseDiscriminationFitter(ABC):
         self._backend_result_list.append(result)
         self._add_expected_states(expected_states, schedules)
         self._schedules.extend(schedules)
-        self._xdata = self.get_xdata(self._backend_result_list, 0, schedules)
-        self._ydata = self.get_ydata(self._backend_result_list, 0, schedules)
+        self._xdata = list(self._xdata) + list(self.get_xdata(result, 0, schedules))
+        self._ydata = list(self._ydata) + list(self.get_ydata(result, 0, schedules))
 
         if refit:
             self.fit()
-- 
2.43.0


From 96ade4c14952c96613bdf71a6729867eb570643c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:53 +0000
Subject: [PATCH 53/74] fix: discriminators do not modify the list of schedules
 they are given

---
 qiskit/ignis/measurement/discriminator/discriminators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/measurement/discriminator/discriminators.py b/qiskit/ignis/measurement/discriminator/discriminators.py
index d4e1085..05d3ab3 100644
--- a/qiskit/ignis/measurement/discriminator/discriminators.py
+++ b/qiskit/ignis/measurement/discriminator/discriminators.py
@@ -70,7 +70,7 @@ class BaseDiscriminationFitter(ABC):
         self._standardize = standardize
         self._scaler = None
         self._qubit_mask = qubit_mask
-        self._schedules = schedules
+        self._schedules = list(schedules)
         self._backend_result_list = []
         self._fitted = False
 
-- 
2.43.0


From 3738e946df54c635bfd8984eb467e715fc28277a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:53 +0000
Subject: [PATCH 54/74] fix: discriminators infer the expected states of
 Schedule objects

---
 qiskit/ignis/measurement/discriminator/discriminators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/measurement/discriminator/discriminators.py b/qiskit/ignis/measurement/discriminator/discriminators.py
index 05d3ab3..3e3e54d 100644
--- a/qiskit/ignis/measurement/discriminator/discriminators.py
+++ b/qiskit/ignis/measurement/discriminator/discriminators.py
@@ -241,7 +241,7 @@ class BaseDiscriminationFitter(ABC):
         """
         expected_states = []
         for schedule in schedules:
-            if isinstance(schedules, Schedule):
+            if isinstance(schedule, Schedule):
                 name = schedule.name
             else:
                 name = schedule
-- 
2.43.0


From 60736bc99ad49d70f347db0969df78f2ed6ed541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:53 +0000
Subject: [PATCH 55/74] fix: discrimination filter handles averaged data and
 repeated names

---
 .../measurement/discriminator/filters.py      | 21 +++++++------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/qiskit/ignis/measurement/discriminator/filters.py b/qiskit/ignis/measurement/discriminator/filters.py
index f855e4f..dda1b97 100644
--- a/qiskit/ignis/measurement/discriminator/filters.py
+++ b/qiskit/ignis/measurement/discriminator/filters.py
@@ -73,24 +73,19 @@ class DiscriminationFilter:
         to_be_discriminated = []
 
         # Extract all the meas level 1 data from the Result.
-        shots_per_experiment_result = []
         for result in new_results.results:
             if result.meas_level == 1:
-                shots_per_experiment_result.append(result.shots)
                 to_be_discriminated.append(result)
 
-        new_results.results = to_be_discriminated
-
-        x_data = self.discriminator.get_xdata(new_results, 2)
-        y_data = self.discriminator.discriminate(x_data)
-
-        start = 0
-        for idx, n_shots in enumerate(shots_per_experiment_result):
-            memory = y_data[start:(start+n_shots)]
+        # Discriminate the data of each experiment.
+        for result in to_be_discriminated:
+            new_results.results = [result]
+            x_data = self.discriminator.get_xdata(new_results, 2)
+            memory = self.discriminator.discriminate(x_data)
             counts = self.count(memory)
-            new_results.results[idx].data = ExperimentResultData(counts=counts,
-                                                                 memory=memory)
-            start += n_shots
+            result.data = ExperimentResultData(counts=counts, memory=memory)
+
+        new_results.results = to_be_discriminated
 
         for result in new_results.results:
             result.meas_level = 2
-- 
2.43.0


From ea0e20993f1dfb747b9382738c172681bc392ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:53 +0000
Subject: [PATCH 56/74] fix: discrimination filter takes the list of results it
 documents

---
 qiskit/ignis/measurement/discriminator/filters.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qiskit/ignis/measurement/discriminator/filters.py b/qiskit/ignis/measurement/discriminator/filters.py
index dda1b97..b55c1bd 100644
--- a/qiskit/ignis/measurement/discriminator/filters.py
+++ b/qiskit/ignis/measurement/discriminator/filters.py
@@ -68,6 +68,9 @@ class DiscriminationFilter:
         Returns:
             A list of qiskit.Result or qiskit.Result.
         """
+        if isinstance(raw_data, list):
+            return [self.apply(result) for result in raw_data]
+
         new_results = deepcopy(raw_data)
 
         to_be_discriminated = []
-- 
2.43.0


From fe5b0f4efaf3a040f4275b0cec76720d2dd5fd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:17 +0000
Subject: [PATCH 57/74] fix: log_to_file leaves the handlers of the logger
 alone

---
 qiskit/ignis/logging/ignis_logging.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/qiskit/ignis/logging/ignis_logging.py b/qiskit/ignis/logging/ignis_logging.py
index b4493a7..b96236e 100644
--- a/qiskit/ignis/logging/ignis_logging.py
+++ b/qiskit/ignis/logging/ignis_logging.py
@@ -91,17 +91,18 @@ class IgnisLogger(logging.getLoggerClass()):
 
         assert(self._file_handler is not None), "file_handler is not set"
 
-        # Removing the stream handler to avoid printing to console here
-        Logger.removeHandler(self, self._stream_handler)
-        Logger.addHandler(self, self._file_handler)
         logstr = ""
         for k, v in kwargs.items():
             logstr += "'{}':'{}' ".format(k, v)
 
-        Logger.log(self, 100, logstr)
-
-        Logger.removeHandler(self, self._file_handler)
-        Logger.addHandler(self, self._stream_handler)
+        # The record goes straight to the file handler, to avoid printing to
+        # console here. The handlers of the logger are left alone since other
+        # threads may be using them
+        if self.isEnabledFor(100):
+            record = self.makeRecord(self.name, 100, "(log_to_file)", 0,
+                                     logstr, (), None)
+            if self.filter(record):
+                self._file_handler.handle(record)
 
     def enable_file_logging(self):
         """
-- 
2.43.0


From 486897abbe7e2af33501350b5fed3efeaa022e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:17 +0000
Subject: [PATCH 58/74] fix: loggers share the handler of the log file

---
 qiskit/ignis/logging/ignis_logging.py | 33 +++++++++++++++++----------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/qiskit/ignis/logging/ignis_logging.py b/qiskit/ignis/logging/ignis_logging.py
index b96236e..6858c89 100644
--- a/qiskit/ignis/logging/ignis_logging.py
+++ b/qiskit/ignis/logging/ignis_logging.py
@@ -19,6 +19,7 @@ import os
 import glob
 from datetime import datetime
 import re
+import threading
 from typing import List, Union, Optional
 
 
@@ -145,6 +146,8 @@ class IgnisLogging:
     # TODO: Should we allow to override file settings programmatically ?
     # (e.g. enable logging)
     _instance = None
+    _lock = threading.RLock()
+    _file_handler = None
     _file_logging_enabled = False
     _log_file = None
     _max_bytes = 0
@@ -211,6 +214,7 @@ class IgnisLogging:
     def _reset_to_defaults(name):
         if IgnisLogging._instance is not None:
             IgnisLogging._instance = None
+            IgnisLogging._file_handler = None
             IgnisLogging._file_logging_enabled = False
             IgnisLogging._log_file = None
             IgnisLogging._config_file_exists = False
@@ -247,18 +251,23 @@ class IgnisLogging:
         Returns:
             RotatingFileHandler: The configured RotatingFileHandler object
         """
-        # Configuring the file handling aspect
-        fh = logging.handlers.RotatingFileHandler(
-            IgnisLogging._log_file, maxBytes=IgnisLogging._max_bytes,
-            backupCount=IgnisLogging._max_rotations)
-
-        # Formatting
-        formatter = logging.Formatter(
-            '%(asctime)s {} %(message)s'.format(IgnisLogging._log_label),
-            datefmt=IgnisLogging._default_datefmt)
-        fh.setFormatter(formatter)
-
-        return fh
+        # All the loggers share the handler, since each handler rotates the
+        # files on its own
+        with IgnisLogging._lock:
+            if IgnisLogging._file_handler is None:
+                # Configuring the file handling aspect
+                fh = logging.handlers.RotatingFileHandler(
+                    IgnisLogging._log_file, maxBytes=IgnisLogging._max_bytes,
+                    backupCount=IgnisLogging._max_rotations)
+
+                # Formatting
+                formatter = logging.Formatter(
+                    '%(asctime)s {} %(message)s'.format(IgnisLogging._log_label),
+                    datefmt=IgnisLogging._default_datefmt)
+                fh.setFormatter(formatter)
+                IgnisLogging._file_handler = fh
+
+            return IgnisLogging._file_handler
 
     def _configure_logger(self, logger):
         """
-- 
2.43.0


From 7e415e2734e9465f34a6e65d7e13ac0bc16b4466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:17 +0000
Subject: [PATCH 59/74] fix: the logging configuration is complete before it is
 shared

---
 qiskit/ignis/logging/ignis_logging.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/qiskit/ignis/logging/ignis_logging.py b/qiskit/ignis/logging/ignis_logging.py
index 6858c89..3f3a104 100644
--- a/qiskit/ignis/logging/ignis_logging.py
+++ b/qiskit/ignis/logging/ignis_logging.py
@@ -158,11 +158,12 @@ class IgnisLogging:
 
     # Making the class a Singleton
     def __new__(cls, log_config_path=None):
-        if IgnisLogging._instance is None:
-            IgnisLogging._instance = object.__new__(cls)
-            IgnisLogging._initialize(log_config_path)
+        with IgnisLogging._lock:
+            if IgnisLogging._instance is None:
+                IgnisLogging._instance = object.__new__(cls)
+                IgnisLogging._initialize(log_config_path)
 
-        return IgnisLogging._instance
+            return IgnisLogging._instance
 
     @staticmethod
     def _load_config_file(log_config_path=None):
-- 
2.43.0


From b9cd969dd05682bfde2c53bf76e34c04444b3ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:17 +0000
Subject: [PATCH 60/74] fix: log file paths keep their case and colons

---
 qiskit/ignis/logging/ignis_logging.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qiskit/ignis/logging/ignis_logging.py b/qiskit/ignis/logging/ignis_logging.py
index 3f3a104..aafbeee 100644
--- a/qiskit/ignis/logging/ignis_logging.py
+++ b/qiskit/ignis/logging/ignis_logging.py
@@ -183,10 +183,10 @@ class IgnisLogging:
                 for line in log_file:
                     # removing comments
                     line = line[:line.find('#') if "#" in line else None]
-                    line = line.split(':')  # Splitting to key value
+                    line = line.split(':', 1)  # Splitting to key value
                     if len(line) < 2:
                         continue
-                    config[line[0].strip().lower()] = line[1].strip().lower()
+                    config[line[0].strip().lower()] = line[1].strip()
             IgnisLogging._config_file_exists = True
 
         return config
@@ -201,7 +201,7 @@ class IgnisLogging:
         log_config = IgnisLogging._load_config_file(log_config_path)
         # Reading the config file content
         IgnisLogging._file_logging_enabled = \
-            log_config.get('file_logging') == "true"
+            log_config.get('file_logging', '').lower() == "true"
         IgnisLogging._log_file = log_config.get('log_file') if \
             log_config.get('log_file') is not None else "ignis.log"
         max_size = log_config.get('max_size')
-- 
2.43.0


From 046b25000e96240c5c9909a8b2b38930437a3c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:17 +0000
Subject: [PATCH 61/74] fix: getting a logger again does not repeat its
 messages

---
 qiskit/ignis/logging/ignis_logging.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qiskit/ignis/logging/ignis_logging.py b/qiskit/ignis/logging/ignis_logging.py
index aafbeee..3886bb6 100644
--- a/qiskit/ignis/logging/ignis_logging.py
+++ b/qiskit/ignis/logging/ignis_logging.py
@@ -61,6 +61,8 @@ class IgnisLogger(logging.getLoggerClass()):
             sh: StreamHandler object
             conf_file_exists: Whether or not a file config exists
         """
+        if self._stream_handler is not None:
+            self.removeHandler(self._stream_handler)
         self._stream_handler = sh
         self.addHandler(sh)
         self._conf_file_exists = conf_file_exists
-- 
2.43.0


From 09e6e6206464f9699cabdde055924b1dd5766efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:17 +0000
Subject: [PATCH 62/74] fix: the log reader returns whole values

---
 qiskit/ignis/logging/ignis_logging.py | 44 ++++++++++++++++++++++++---
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/qiskit/ignis/logging/ignis_logging.py b/qiskit/ignis/logging/ignis_logging.py
index 3886bb6..95c7e26 100644
--- a/qiskit/ignis/logging/ignis_logging.py
+++ b/qiskit/ignis/logging/ignis_logging.py
@@ -382,9 +382,8 @@ class IgnisLogReader:
 
         for file in files:
             with open(file, "r") as f:
-                for line in f:
-                    terms = line.split()
-                    date_time = terms[0:2]
+                for entry in self._split_entries(f):
+                    date_time = entry.split(None, 2)[0:2]
 
                     dt_filterd = self._filter_by_datetime(date_time,
                                                           from_datetime,
@@ -394,7 +393,7 @@ class IgnisLogReader:
                     if dt_filterd:
                         continue
 
-                    key_values = terms[3:]
+                    key_values = self._split_key_values(entry)
                     if keys is not None:
                         key_values = self._filter_keys(key_values, keys)
                     if not key_values:
@@ -404,6 +403,43 @@ class IgnisLogReader:
 
         return retrieved_date
 
+    def _split_entries(self, lines):
+        """
+        Join the lines of each log entry. An entry starts with its date and
+        time, and takes several lines if one of its values does
+
+        Params:
+            lines (iterable): lines of a log file
+
+        Returns:
+            list: A list of log entries
+        """
+        result = list()
+        for line in lines:
+            if result and not re.match(r"\d+/\d+/\d+ \d+:\d+:\d+ ", line):
+                result[-1] += line
+            elif line.strip():
+                result.append(line)
+
+        return result
+
+    def _split_key_values(self, entry):
+        """
+        Retrieve the key value pairs of a log entry
+
+        Params:
+            entry (str): a log entry
+
+        Returns:
+            list: A list of key value pairs
+        """
+        terms = entry.split(None, 3)
+        if len(terms) < 4:
+            return list()
+
+        return re.findall(r"'[^']*':'.*?'(?=\s+'[^']*':'|\s*\Z)", terms[3],
+                          flags=re.DOTALL)
+
     def _filter_keys(self, key_values, keys):
         """
         Retrieve key value pairs matching the given keys
-- 
2.43.0


From 679127b2928fb194372208bf725e1f94a59b58d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:17 +0000
Subject: [PATCH 63/74] fix: the log reader takes the log file name literally
 and sorts rotations

---
 qiskit/ignis/logging/ignis_logging.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/qiskit/ignis/logging/ignis_logging.py b/qiskit/ignis/logging/ignis_logging.py
index 95c7e26..31e3fc7 100644
--- a/qiskit/ignis/logging/ignis_logging.py
+++ b/qiskit/ignis/logging/ignis_logging.py
@@ -329,18 +329,17 @@ class IgnisLogReader:
         """
 
         file_name = IgnisLogging().get_log_file()
-        search_path = os.path.abspath(file_name + "*")
-        files = sorted(glob.glob(search_path), key=os.path.getmtime)
+        file_path = os.path.abspath(file_name)
 
         result = list()
-        m = re.compile(
-            os.path.abspath(file_name).replace('\\', r'\\') + r"$|" +
-            os.path.abspath(file_name).replace('\\', r'\\') + r".\d+$")
-        for f in files:
-            if m.match(f):
-                result.append(f)
-
-        return result
+        m = re.compile(re.escape(file_path) + r"(?:\.(\d+))?$")
+        for f in glob.glob(glob.escape(file_path) + "*"):
+            match = m.match(f)
+            if match:
+                # A higher rotation number means older data
+                result.append((os.path.getmtime(f), -int(match.group(1) or 0), f))
+
+        return [f for _, _, f in sorted(result)]
 
     def read_values(self, log_files: Optional[List[str]] = None,
                     keys: Optional[List[str]] = None,
-- 
2.43.0


From 2dead770a13f06ad1e6b26c3f8c0f4fd11119f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:04 +0000
Subject: [PATCH 64/74] fix: raw fidelity of MQC comes from the raw populations

---
 qiskit/ignis/verification/entanglement/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/entanglement/analysis.py b/qiskit/ignis/verification/entanglement/analysis.py
index 25d2034..7f77036 100644
--- a/qiskit/ignis/verification/entanglement/analysis.py
+++ b/qiskit/ignis/verification/entanglement/analysis.py
@@ -189,7 +189,7 @@ class Plotter:
             print("Upper/Lower error mitigated fidelity bounds = ",
                   round(UB_m, 3), " +/- ", round(.01*UB_m, 3), " || ",
                   round(LB_m, 3), " +/- ", round(.01*LB_m, 3))
-            (F, F_m) = (.5*(P0_m + P1_m) + np.sqrt(np.absolute(fft[qn])),
+            (F, F_m) = (.5*(P0 + P1) + np.sqrt(np.absolute(fft[qn])),
                         .5*(P0_m + P1_m) + np.sqrt(np.absolute(fft_m[qn])))
             print("Raw fidelity = ", round(F, 3), " +/- ", round(.01*F, 3))
             print("Mitigated fidelity = ", round(F_m, 3),
-- 
2.43.0


From b547d4a92641346d226dcd99a8e2b3fac178c2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:04 +0000
Subject: [PATCH 65/74] fix: GHZ preparation works where qubit 0 is not
 connected

---
 qiskit/ignis/verification/entanglement/parallelize.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/qiskit/ignis/verification/entanglement/parallelize.py b/qiskit/ignis/verification/entanglement/parallelize.py
index 18fe4e9..a8815a8 100644
--- a/qiskit/ignis/verification/entanglement/parallelize.py
+++ b/qiskit/ignis/verification/entanglement/parallelize.py
@@ -76,13 +76,7 @@ class BConfig:
         based on error, but that is probably not too useful
         """
 
-        best_node = 0
-        for i in self.nodes:
-            if len(self.nodes[i]) > len(self.nodes[best_node]):
-                best_node = i
-            else:
-                pass
-        return best_node
+        return max(self.nodes, key=lambda node: len(self.nodes[node]))
 
     def _indicator_off(self):
         """
-- 
2.43.0


From fc67d793f623d8d2d98926a50be6f9b645060522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:04 +0000
Subject: [PATCH 66/74] fix: GHZ tiers visit each qubit once

---
 .../ignis/verification/entanglement/parallelize.py  | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/qiskit/ignis/verification/entanglement/parallelize.py b/qiskit/ignis/verification/entanglement/parallelize.py
index a8815a8..4548b9b 100644
--- a/qiskit/ignis/verification/entanglement/parallelize.py
+++ b/qiskit/ignis/verification/entanglement/parallelize.py
@@ -170,28 +170,21 @@ class BConfig:
 
         parentlist = []
         parentlist.append(parent)
-        ii = 0
-        while True:
+        while parentlist:
             totalchildren = []
             for parent in parentlist:
                 children = self.nodes[parent]
                 if self.indicator:
                     children = self._child_sorter(children, parent)
-                totalchildren += children
                 children = [a for a in children if a not in trashlist]
+                totalchildren += children
                 j = tier_DM[parent]
                 for i, _ in enumerate(children):
                     tier[j] += [[parent, children[i]]]
                     tier_DM[children[i]] = j+1
                     j += 1
                     trashlist.append(children[i])
-                parentlist = totalchildren
-
-            if len(trashlist) == length:
-                break
-            ii += 1
-            if ii > 50:
-                break
+            parentlist = totalchildren
 
         newtier = {}
         for a in tier:
-- 
2.43.0


From 7311f50ea911170d76b244dcc902056008795780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:04 +0000
Subject: [PATCH 67/74] fix: GHZ preparation raises an error where too few
 qubits are connected

---
 qiskit/ignis/verification/entanglement/parallelize.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/qiskit/ignis/verification/entanglement/parallelize.py b/qiskit/ignis/verification/entanglement/parallelize.py
index 4548b9b..3c38f18 100644
--- a/qiskit/ignis/verification/entanglement/parallelize.py
+++ b/qiskit/ignis/verification/entanglement/parallelize.py
@@ -32,6 +32,7 @@ from typing import Tuple, List, Dict
 from qiskit.circuit import ClassicalRegister, QuantumRegister, Parameter
 from qiskit.circuit import QuantumCircuit
 from qiskit.compiler import transpile
+from qiskit.exceptions import QiskitError
 from qiskit.circuit.library import U1Gate, U2Gate
 
 
@@ -212,6 +213,9 @@ class BConfig:
 
         Returns:
            A GHZ Circuit and its initial GHZ layout
+
+        Raises:
+           QiskitError: If fewer than n qubits of the backend are connected
        """
 
         tierdict = self.get_tier_dict()
@@ -244,6 +248,9 @@ class BConfig:
             if len(trashlist) == n:
                 break
 
+        if len(trashlist) < n:
+            raise QiskitError("The backend does not connect {} qubits".format(n))
+
         if transpiled:
             circ = transpile(circ, backend=self.backend,
                              initial_layout=initial_layout)
-- 
2.43.0


From c46638029e45d247f19b9ce97c516096ce4aa9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:03 +0000
Subject: [PATCH 68/74] fix: least-squares tomography raises an error where the
 fit has no trace to rescale

---
 qiskit/ignis/verification/tomography/fitters/lstsq_fit.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/verification/tomography/fitters/lstsq_fit.py b/qiskit/ignis/verification/tomography/fitters/lstsq_fit.py
index 9197a5e..c1027f4 100644
--- a/qiskit/ignis/verification/tomography/fitters/lstsq_fit.py
+++ b/qiskit/ignis/verification/tomography/fitters/lstsq_fit.py
@@ -41,7 +41,8 @@ def lstsq_fit(data: np.array,
         trace: trace constraint for the fitted matrix
             (default: None).
     Raises:
-        ValueError: If the fitted vector is not a square matrix
+        ValueError: If the fitted vector is not a square matrix, or the fitted
+            matrix has trace zero where a trace is required
     Returns:
         The fitted matrix rho that minimizes
         :math:`||\text{basis_matrix} \cdot
@@ -113,7 +114,10 @@ def lstsq_fit(data: np.array,
 
     # Rescale fitted density matrix to satisfy trace constraint
     if trace is not None:
-        rho_fit *= trace / np.trace(rho_fit)
+        fit_trace = np.trace(rho_fit)
+        if fit_trace == 0:
+            raise ValueError("fitted matrix has trace zero and cannot be rescaled.")
+        rho_fit *= trace / fit_trace
     return rho_fit
 
 
-- 
2.43.0


From 6e24d059978cf7b30ea7835b05c9d31866312c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:05 +0000
Subject: [PATCH 69/74] fix: gate set tomography keeps the fitted state and
 measurement positive

The MLE stores T matrices with E = T T^dagger and rho = T T^dagger, but the
product was reshaped into the Pauli vector of E (rho) rather than used as the
operator, so neither was positive semidefinite.
---
 .../tomography/fitters/gateset_fitter.py      | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/qiskit/ignis/verification/tomography/fitters/gateset_fitter.py b/qiskit/ignis/verification/tomography/fitters/gateset_fitter.py
index 24fd745..fbdd306 100644
--- a/qiskit/ignis/verification/tomography/fitters/gateset_fitter.py
+++ b/qiskit/ignis/verification/tomography/fitters/gateset_fitter.py
@@ -429,8 +429,8 @@ class GST_Optimize():
         rho_T = self._vec_to_complex_matrix(T_vars[1])
         Gs_T = [self._vec_to_complex_matrix(T_vars[2+i]) for i in range(n)]
 
-        E = np.reshape(E_T @ np.conj(E_T.T), (1, ds))
-        rho = np.reshape(rho_T @ np.conj(rho_T.T), (ds, 1))
+        E = self._convert_to_ptm(E_T @ np.conj(E_T.T)).reshape((1, ds))
+        rho = self._convert_to_ptm(rho_T @ np.conj(rho_T.T)).reshape((ds, 1))
         Gs = [PTM(Choi(G_T @ np.conj(G_T.T))).data for G_T in Gs_T]
 
         return (E, rho, Gs)
@@ -453,10 +453,8 @@ class GST_Optimize():
             This function performs the inverse operation to
             split_input_vector; the notations are the same.
         """
-        d = (2 ** self.qubits)
-
-        E_T = get_cholesky_like_decomposition(E.reshape((d, d)))
-        rho_T = get_cholesky_like_decomposition(rho.reshape((d, d)))
+        E_T = get_cholesky_like_decomposition(self._convert_from_ptm(E))
+        rho_T = get_cholesky_like_decomposition(self._convert_from_ptm(rho))
         Gs_Choi = [Choi(PTM(G)).data for G in Gs]
         Gs_T = [get_cholesky_like_decomposition(G) for G in Gs_Choi]
         E_vec = self._complex_matrix_to_vec(E_T)
@@ -642,6 +640,15 @@ class GST_Optimize():
         cons.append({'type': 'ineq', 'fun': self._bounds_ineq_constraint})
         return cons
 
+    def _convert_to_ptm(self, matrix):
+        """Converts a Hermitian matrix to its PTM representation"""
+        Id = np.array([[1, 0], [0, 1]])
+        X = np.array([[0, 1], [1, 0]])
+        Y = np.array([[0, -1j], [1j, 0]])
+        Z = np.array([[1, 0], [0, -1]])
+        return np.array([np.sqrt(0.5) * np.real(np.trace(P @ matrix))
+                         for P in (Id, X, Y, Z)])
+
     def _convert_from_ptm(self, vector):
         """Converts a vector back from PTM representation"""
         Id = np.sqrt(0.5) * np.array([[1, 0], [0, 1]])
-- 
2.43.0


From dc575f47e5efe986eef37fd9c8b195ee1028e156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:05 +0000
Subject: [PATCH 70/74] fix: gate set tomography optimises instead of returning
 its starting point

The equality constraints contained functions that are always zero (imaginary
parts of the PTMs and of the trace of rho), for which SLSQP stops at the first
iteration with a singular constraint matrix.
---
 .../verification/tomography/fitters/gateset_fitter.py  | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/qiskit/ignis/verification/tomography/fitters/gateset_fitter.py b/qiskit/ignis/verification/tomography/fitters/gateset_fitter.py
index fbdd306..2ae5436 100644
--- a/qiskit/ignis/verification/tomography/fitters/gateset_fitter.py
+++ b/qiskit/ignis/verification/tomography/fitters/gateset_fitter.py
@@ -547,7 +547,9 @@ class GST_Optimize():
             the PTM representation we are using:
             1) G_{0,0} is 1 for every gate G
             2) The rest of the first row of each G is 0.
-            3) G only has real values, so imaginary part is 0.
+            G only has real values since its Choi matrix is Hermitian. This is
+            not a constraint, since SLSQP fails for constraints which are
+            always satisfied.
 
             For additional info, see section 3.5.2 in arXiv:1509.02921
         """
@@ -567,7 +569,6 @@ class GST_Optimize():
             for _ in range((ds - 1) * ds):  # rest of G^k
                 i += 1
             for _ in range(ds ** 2):  # the complex part of G^k
-                bounds_eq.append(ptm_matrix[i] - 0)  # G^k_{0,i} is 0
                 i += 1
         return bounds_eq
 
@@ -617,10 +618,11 @@ class GST_Optimize():
             The list of computed constraint values (should be equal 0)
 
         Additional information:
-            We demand real(Tr(rho)) == 1 and imag(Tr(rho)) == 0
+            We demand real(Tr(rho)) == 1, and imag(Tr(rho)) == 0 holds
+            since rho is Hermitian
         """
         trace = self._rho_trace(x)
-        return [trace[0] - 1, trace[1]]
+        return [trace[0] - 1]
 
     def _constraints(self) -> List[Dict]:
         """Generates the constraints for the MLE optimization
-- 
2.43.0


From 09e95fcbeb223939a845ed0e27497bbe3aa38a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:17 +0000
Subject: [PATCH 71/74] fix: coherence plots label the curve with the time of
 the plotted series

---
 qiskit/ignis/characterization/fitters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qiskit/ignis/characterization/fitters.py b/qiskit/ignis/characterization/fitters.py
index dc55d13..cf5794e 100644
--- a/qiskit/ignis/characterization/fitters.py
+++ b/qiskit/ignis/characterization/fitters.py
@@ -667,7 +667,8 @@ class BaseCoherenceFitter(BaseFitter):
                                            *self._params[series][qind]),
                 c='r', linestyle='--',
                 label=self._description + ': ' +
-                str(np.around(self.time(qid=qind), 1)) + ' ' + self._time_unit)
+                str(np.around(self.time(qid=qind, series=series), 1)) +
+                ' ' + self._time_unit)
 
         ax.tick_params(axis='x', labelsize=14, labelrotation=70)
         ax.tick_params(axis='y', labelsize=14)
-- 
2.43.0


From 88148540f5a29370d28396abdb7945552e0195a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:06 +0000
Subject: [PATCH 72/74] fix: calibration circuits repeated within one result
 each contribute their own counts

---
 qiskit/ignis/mitigation/measurement/fitters.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/mitigation/measurement/fitters.py b/qiskit/ignis/mitigation/measurement/fitters.py
index 32306bc..4246c6f 100644
--- a/qiskit/ignis/mitigation/measurement/fitters.py
+++ b/qiskit/ignis/mitigation/measurement/fitters.py
@@ -403,7 +403,7 @@ class TensoredMeasFitter():
 
         # go through for each calibration experiment
         for result in self._result_list:
-            for experiment in result.results:
+            for exp_ind, experiment in enumerate(result.results):
                 circ_name = experiment.header.name
                 # extract the state from the circuit name
                 # this was the prepared state
@@ -418,7 +418,8 @@ class TensoredMeasFitter():
                 state = circ_search.group(0)
 
                 # get the counts from the result
-                state_cnts = result.get_counts(circ_name)
+                # (by index, the same circuit may have been run repeatedly)
+                state_cnts = result.get_counts(exp_ind)
                 for measured_state, counts in state_cnts.items():
                     # the classical register may be larger than needed
                     measured_state = measured_state[-self.nqubits:]
-- 
2.43.0


From f6bdee2c95a1dc5e2e7ff6c894ba0932cb121c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:14 +0000
Subject: [PATCH 73/74] fix: quantum volume fitter does not keep part of the
 ideal results it rejects

---
 .../ignis/verification/quantum_volume/fitters.py   | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/qiskit/ignis/verification/quantum_volume/fitters.py b/qiskit/ignis/verification/quantum_volume/fitters.py
index 078b059..ae21c43 100644
--- a/qiskit/ignis/verification/quantum_volume/fitters.py
+++ b/qiskit/ignis/verification/quantum_volume/fitters.py
@@ -118,6 +118,16 @@ class QVFitter:
         if not isinstance(new_statevector_result, list):
             new_statevector_result = [new_statevector_result]
 
+        # check everything before the first result is stored
+        new_names = set()
+        for result in new_statevector_result:
+            for qvcirc in result.results:
+                circ_name = qvcirc.header.name
+                if circ_name in self._heavy_outputs or circ_name in new_names:
+                    raise QiskitError("Already added the ideal result "
+                                      "for circuit %s" % circ_name)
+                new_names.add(circ_name)
+
         for result in new_statevector_result:
             for qvcirc in result.results:
 
@@ -127,10 +137,6 @@ class QVFitter:
                 # qv_depth_%d_trial_%d
                 depth = int(circ_name.split('_')[2])
 
-                if circ_name in self._heavy_outputs:
-                    raise QiskitError("Already added the ideal result "
-                                      "for circuit %s" % circ_name)
-
                 # convert the result into probability dictionary
                 qstate = result.get_statevector(circ_name)
                 pvector = np.multiply(qstate, qstate.conjugate())
-- 
2.43.0


From e5fb5bd772da77778ee02619940fd8e08b43977a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:28 +0000
Subject: [PATCH 74/74] fix: a CNOT-dihedral element made from another does not
 share its state

---
 .../ignis/verification/randomized_benchmarking/dihedral.py  | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
index a4b0c25..44d900d 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
@@ -359,9 +359,9 @@ class CNOTDihedral(BaseOperator):
         # poly, linear and shift
         if isinstance(data, CNOTDihedral):
             self._num_qubits = data.num_qubits
-            self.linear = data.linear
-            self.shift = data.shift
-            self.poly = data.poly
+            self.linear = np.array(data.linear)
+            self.shift = np.array(data.shift)
+            self.poly = copy.deepcopy(data.poly)
 
         # Initialize from ScalarOp as N-qubit identity discarding any global phase
         elif isinstance(data, ScalarOp):
-- 
2.43.0


From cb4274ff7b8ab333a7dca6b77433eafefd887656 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:14 +0000
Subject: [PATCH 01/31] fix: check the shape of stabilizers given as Pauli
 strings

StabilizerCode only compared n and n-k with the generators when they were
given in binary form; with Pauli strings any n and k were accepted.
---
 PyQCodes/codes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/PyQCodes/codes.py b/PyQCodes/codes.py
index 7bf06f8..2724851 100644
--- a/PyQCodes/codes.py
+++ b/PyQCodes/codes.py
@@ -168,11 +168,13 @@ class StabilizerCode():
         """
         if isinstance(stabilizer_group[0], str):
             # Convert from string to binary representations.
+            assert all(len(pauli) == n for pauli in stabilizer_group), \
+                "Stabilizer should match parameter n."
             stabilizer_group = StabilizerCode.pauli_str_to_binary_representation(stabilizer_group)
         elif isinstance(stabilizer_group[0], (list, np.ndarray)):
             stabilizer_group = np.array(stabilizer_group)
-            assert stabilizer_group.shape[1] == 2*n, "Stabilizer should match parameter n."
-            assert stabilizer_group.shape[0] == n - k, "Number of stabilizers should be n - k."
+        assert stabilizer_group.shape[1] == 2*n, "Stabilizer should match parameter n."
+        assert stabilizer_group.shape[0] == n - k, "Number of stabilizers should be n - k."
 
         self._stab_bin_rep = stabilizer_group
         self.numb_stab = self.stab_bin_rep.shape[0]
-- 
2.43.0


From d9f332edf973614d09f5c01a8c1da252816bae54 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:22 +0000
Subject: [PATCH 02/31] fix: use the rank over GF(2) when building the standard
 normal form

The rank of the X block was computed over the reals, which is too large for
e.g. the rows 110, 011, 101; construction then failed or gave wrong blocks.
---
 PyQCodes/codes.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/PyQCodes/codes.py b/PyQCodes/codes.py
index 2724851..378d848 100644
--- a/PyQCodes/codes.py
+++ b/PyQCodes/codes.py
@@ -699,6 +699,19 @@ class StabilizerCode():
         normalizer = self.normalizer()
         return [self._convert_binary_representation_to_pauli(x) for x in normalizer]
 
+    @staticmethod
+    def _binary_rank(matrix):
+        r"""Return the rank of a binary matrix over the field with two elements."""
+        rows = [row.copy() for row in np.array(matrix, dtype=int) % 2]
+        rank = 0
+        while rows:
+            pivot = rows.pop()
+            if np.any(pivot):
+                rank += 1
+                column = np.flatnonzero(pivot)[0]
+                rows = [(row + pivot) % 2 if row[column] == 1 else row for row in rows]
+        return rank
+
     def _gaussian_elimination_first_block(self):
         r"""
         Perform Gaussian Elimination On the first block G1 from binary representation [G1 | G2].
@@ -723,7 +736,7 @@ class StabilizerCode():
         """
         output = self.stab_bin_rep.copy()
 
-        rank = np.linalg.matrix_rank(self.stab_bin_rep[:, :self.n])
+        rank = self._binary_rank(self.stab_bin_rep[:, :self.n])
         numb_stabs = self.numb_stab
         assert self.stab_bin_rep.shape[0] == numb_stabs
 
@@ -797,7 +810,7 @@ class StabilizerCode():
             return binary_rep
 
         output = binary_rep.copy()
-        rank_E = np.linalg.matrix_rank(output[rank:, self.n + rank:])
+        rank_E = self._binary_rank(output[rank:, self.n + rank:])
 
         # Swap rows to ensure the diagonal elements are all ones.
         # TODO: Add More "Powerful" Swaps like in _gaussian_elimination_first_block
-- 
2.43.0


From 6ddb36edb2d41072ae5d770891182805a7b9d19a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:35 +0000
Subject: [PATCH 03/31] fix: reset the measurement ancilla after a syndrome
 measurement

When the register carries its own ancilla (n+1 qubits), an outcome of one left
the ancilla in |1>, which flipped the outcome of the next measurement.
---
 PyQCodes/codes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/PyQCodes/codes.py b/PyQCodes/codes.py
index 378d848..cfea7ea 100644
--- a/PyQCodes/codes.py
+++ b/PyQCodes/codes.py
@@ -431,6 +431,10 @@ class StabilizerCode():
         result = int(measure_qubit)
         if numb_qubits == self.n:
             del measure_qubit
+        elif result == 1:
+            # Reset the ancilla back to zero, so that it can be used for the next measurement.
+            XGate() | measure_qubit
+            eng.flush()
         return result
 
     def encoding_circuit(self, eng, register, state):
-- 
2.43.0


From b9efde6cfcc9df5a7eef3181696f2dd9d3b88bfa Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:35 +0000
Subject: [PATCH 04/31] fix: apply_stabilizer_circuit accepts a Pauli string as
 documented

---
 PyQCodes/codes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PyQCodes/codes.py b/PyQCodes/codes.py
index cfea7ea..5fccf18 100644
--- a/PyQCodes/codes.py
+++ b/PyQCodes/codes.py
@@ -533,6 +533,7 @@ class StabilizerCode():
         >> apply_stabilizer_circuit(eng, register, "XXY")
 
         """
+        pauli_str = stabilizer
         if isinstance(stabilizer, (list, np.ndarray)):
             # Convert to Pauli String.
             pauli_str = StabilizerCode.binary_rep_to_pauli_str(stabilizer)
-- 
2.43.0


From d59f57235a82bdd6b4d8eaf171c62dc244ac0f5d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:02 +0000
Subject: [PATCH 05/31] fix: normalizer and undetectable_errors return N(S) - S

---
 PyQCodes/codes.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/PyQCodes/codes.py b/PyQCodes/codes.py
index 5fccf18..62511e6 100644
--- a/PyQCodes/codes.py
+++ b/PyQCodes/codes.py
@@ -702,7 +702,7 @@ class StabilizerCode():
 
         """
         normalizer = self.normalizer()
-        return [self._convert_binary_representation_to_pauli(x) for x in normalizer]
+        return [StabilizerCode.binary_rep_to_pauli_str(x) for x in normalizer]
 
     @staticmethod
     def _binary_rank(matrix):
@@ -975,22 +975,27 @@ class StabilizerCode():
 
         """
         normalizer = []
+        # Every element, modulo its sign, of the stabilizer group.
+        stabilizers = np.array(self.stab_bin_rep, dtype=int)
+        group = set()
+        for coeffs in itertools.product([0, 1], repeat=self.numb_stab):
+            group.add(tuple(np.array(coeffs, dtype=int).dot(stabilizers) % 2))
         # Worse-case algorithm. Go through every permutation
         all_pauli_reps = itertools.product([0, 1], repeat=2 * self.n)
         # all_pauli_reps = self.generator_set_pauli_elements()
         for pauli in all_pauli_reps:
-            pauli = list(pauli)
-            does_commute = True
+            does_commute = pauli not in group
+            pauli = np.array(pauli, dtype=int)
 
             # TODO: Vectorize this.
-            for stab in self.stab_bin_rep:
-                if not self._commute(stab, pauli):
+            for stab in stabilizers:
+                if StabilizerCode.inner_prod(stab, pauli) != 0:
                     does_commute = False
                     break
             # If it commutes and satisfies couple of generator conditions.
             if does_commute:
                 normalizer.append(pauli)
-        return np.array(normalizer)
+        return np.array(normalizer, dtype=int).reshape((len(normalizer), 2 * self.n))
 
     @staticmethod
     def concatenate_codes(stab1, stab2):
-- 
2.43.0


From ed55c5ccfc55fcaa0dc7a9a556f681f04f968b12 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:02 +0000
Subject: [PATCH 06/31] fix: code concatenation maps every Pauli to the inner
 logical operator of its block

---
 PyQCodes/codes.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/PyQCodes/codes.py b/PyQCodes/codes.py
index 62511e6..623f565 100644
--- a/PyQCodes/codes.py
+++ b/PyQCodes/codes.py
@@ -1033,7 +1033,7 @@ class StabilizerCode():
         m, l = stab2.n, stab2.k
 
         if n % l != 0:
-            assert ValueError("Code concatenation only works when l divides n, ie n | l.")
+            raise ValueError("Code concatenation only works when l divides n, ie n | l.")
 
         generator = []
         # Suppose l = 1
@@ -1057,6 +1057,7 @@ class StabilizerCode():
             # Go through each generator from stab1.
             logical_x = stab2.logical_x[0]
             logical_z = stab2.logical_z[0]
+            logical_y = (logical_x + logical_z) % 2
             for i in range(0, stab1.numb_stab):
                 stabilizer = stab1.stab_bin_rep[i]
                 new_gen_x = []
@@ -1064,13 +1065,13 @@ class StabilizerCode():
                 for j, pauli in enumerate(stabilizer[:n]):  # Go through each stabilizer.
                     if pauli == 1 and stabilizer[n + j] == 0:  # X Operator.
                         new_gen_x.extend(logical_x[:m])
-                        new_gen_z += [0] * m
+                        new_gen_z.extend(logical_x[m:])
                     elif pauli == 0 and stabilizer[n + j] == 1:  # Z Operator.
-                        new_gen_x += [0] * m
+                        new_gen_x.extend(logical_z[:m])
                         new_gen_z.extend(logical_z[m:])
                     elif pauli == 1 and stabilizer[n + j] == 1:  # Y Operator.
-                        new_gen_x.extend(logical_x[:m])
-                        new_gen_z.extend(logical_z[m:])
+                        new_gen_x.extend(logical_y[:m])
+                        new_gen_z.extend(logical_y[m:])
                     else:
                         new_gen_x += [0] * m
                         new_gen_z += [0] * m
@@ -1103,9 +1104,9 @@ class StabilizerCode():
                 new_gen_z = np.zeros((total_qubits), dtype=np.int)
 
                 for j, pauli in enumerate(stabilizer[:n]):  # Go through each stabilizer element.
-                    which_logical_op = j % numb_blocks  # Modulo the number of blocks.
-
-                    which_block = int(np.floor(j / numb_blocks))
+                    # Each block of stab2 encodes l consecutive qubits of stab1.
+                    which_logical_op = j % l
+                    which_block = j // l
 
                     if pauli == 1 and stabilizer[n + j] == 0:  # X Block Operator.
                         current_logical = logical_x[which_logical_op]
@@ -1114,10 +1115,11 @@ class StabilizerCode():
                     elif pauli == 1 and stabilizer[n + j] == 1:  # Y Block Operator
                         current_logical = (logical_z[which_logical_op] +
                                            logical_x[which_logical_op]) % 2
+                    else:  # Identity operator.
+                        continue
 
                     # Get the range of qubits that it acts on.
-                    # TODO: should this be n or m.
-                    range_qubits = (n * which_block, n * (which_block + 1))
+                    range_qubits = (m * which_block, m * (which_block + 1))
 
                     new_gen_x[range_qubits[0]: range_qubits[1]] = \
                         (new_gen_x[range_qubits[0]: range_qubits[1]] + current_logical[:m]) % 2
-- 
2.43.0


From 40514d72ab058d7bd3a6043e3541a8cb6117cc3c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:02 +0000
Subject: [PATCH 07/31] fix: decoding_circuit returns the register once when it
 holds the ancillas

---
 PyQCodes/codes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyQCodes/codes.py b/PyQCodes/codes.py
index 623f565..1d9c263 100644
--- a/PyQCodes/codes.py
+++ b/PyQCodes/codes.py
@@ -633,6 +633,8 @@ class StabilizerCode():
                 register_ancilla = register[self.n:]
                 del register[:self.n]
             return register_ancilla
+        if not add_ancilla_bits:
+            return register
         return register + register_ancilla
 
     def logical_circuit(self, eng, register, pauli_op):
-- 
2.43.0


From 60d015f33b1ba7ba6c4c3c4cc9d7c892358793b4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:44 +0000
Subject: [PATCH 08/31] fix: kraus_operators_correcting_errors accepts sparse
 errors

---
 PyQCodes/codes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/PyQCodes/codes.py b/PyQCodes/codes.py
index 1d9c263..bc66227 100644
--- a/PyQCodes/codes.py
+++ b/PyQCodes/codes.py
@@ -339,6 +339,9 @@ class StabilizerCode():
         stabilizers = StabilizerCode.binary_rep_to_pauli_mat(self.stab_bin_rep, sparse=sparse)
 
         for i, error in enumerate(pauli_errors):
+            if sparse:
+                # Same format as the sparse stabilizers.
+                error = error.tocsr()
             found_decoder = False
             # Go through each stabilizer element.
             for p in stabilizers:
@@ -347,7 +350,7 @@ class StabilizerCode():
                 error_p = error.dot(p)
 
                 # Check if they are anti-commuting.
-                if np.all(abs(error_p + p_error) < 1e-5):
+                if abs(error_p + p_error).max() < 1e-5:
                     # Append stabilier multipled by error for entire error-correcting procedure.
                     kraus.append(p.dot(error))
                     found_decoder = True  # Error is correctable.
-- 
2.43.0


From eb2291bbebdd271c50c45f2ae02c4855ad1fc98e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:44 +0000
Subject: [PATCH 09/31] fix: reducing sparse Kraus operators to one use also
 resets their conjugates

---
 PyQCodes/chan/_kraus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyQCodes/chan/_kraus.py b/PyQCodes/chan/_kraus.py
index 9a5a471..c449b66 100644
--- a/PyQCodes/chan/_kraus.py
+++ b/PyQCodes/chan/_kraus.py
@@ -154,7 +154,7 @@ class Kraus(ABC):
 
     @nth_kraus_ops_conj.setter
     def nth_kraus_ops_conj(self, kraus):
-        self.nth_kraus_ops_conj = kraus
+        self._nth_kraus_ops_conj = kraus
 
     @property
     def nth_kraus_exch(self):
@@ -269,7 +269,7 @@ class Kraus(ABC):
         elif n < self.current_n:
             # Reduce Densekraus operator to correspond to nth channel.
             if n == 1:
-                self.nth_kraus_ops = self.kraus_ops
+                self._initialize_kraus_ops()
             else:
                 self.nth_kraus_ops = self._tensor_kraus_operators(self.kraus_ops, self.kraus_ops)
                 for i in range(0, n - 2):
-- 
2.43.0


From fcb17226404b5005aa2478328b4ebd7c8107ee90 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:44 +0000
Subject: [PATCH 10/31] fix: serial concatenation of Kraus objects takes its
 input from the first channel

---
 PyQCodes/chan/_kraus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyQCodes/chan/_kraus.py b/PyQCodes/chan/_kraus.py
index c449b66..57d878c 100644
--- a/PyQCodes/chan/_kraus.py
+++ b/PyQCodes/chan/_kraus.py
@@ -405,7 +405,7 @@ class SparseKraus(Kraus):
         assert isinstance(other, SparseKraus), "Kraus object should be of type 'SparseKraus'."
         if self.dim_in**self.numb_qubits[0] != other.dim_out**other.numb_qubits[1]:
             raise TypeError("Kraus operator dimension do not match.")
-        numb_qubits = [self.numb_qubits[0], other.numb_qubits[1]]
+        numb_qubits = [other.numb_qubits[0], self.numb_qubits[1]]
         dim_in, dim_out = other.dim_in, self.dim_out
         return SparseKraus(SparseKraus.serial_concatenate(self.kraus_ops, other.kraus_ops),
                            numb_qubits, dim_in, dim_out)
@@ -715,7 +715,7 @@ class DenseKraus(Kraus):
         # Assert that dimensions of kraus operators match each other.
         if not self.dim_in**self.numb_qubits[0] == other.dim_out**other.numb_qubits[1]:
             raise TypeError("Kraus operator dimension do not match.")
-        numb_qubits = [self.numb_qubits[0], other.numb_qubits[1]]
+        numb_qubits = [other.numb_qubits[0], self.numb_qubits[1]]
         dim_in, dim_out = other.dim_in, self.dim_out
         return DenseKraus(DenseKraus.serial_concatenate(self.kraus_ops, other.kraus_ops),
                           numb_qubits, dim_in, dim_out)
-- 
2.43.0


From 8880507d63ce72c9d375ffacc8a2ab370b67c6d0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:44 +0000
Subject: [PATCH 11/31] fix: parallel concatenation of channels on several
 qubits

---
 PyQCodes/chan/_kraus.py  | 6 ++++--
 PyQCodes/chan/channel.py | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/PyQCodes/chan/_kraus.py b/PyQCodes/chan/_kraus.py
index 57d878c..15e8774 100644
--- a/PyQCodes/chan/_kraus.py
+++ b/PyQCodes/chan/_kraus.py
@@ -416,7 +416,8 @@ class SparseKraus(Kraus):
         # Assert that dimensions of kraus operators match each other.
         # The number of qubits is reset to one.
         numb_qubits = [1, 1]
-        dim_in, dim_out = other.dim_in * self.dim_in, other.dim_out * self.dim_out
+        dim_in = self.input_dim * other.input_dim
+        dim_out = self.output_dim * other.output_dim
         return SparseKraus(SparseKraus.parallel_concatenate(self.kraus_ops, other.kraus_ops),
                            numb_qubits, dim_in, dim_out)
 
@@ -726,7 +727,8 @@ class DenseKraus(Kraus):
         # Assert that dimensions of kraus operators match each other.
         # The number of qubits is reset to one.
         numb_qubits = [1, 1]
-        dim_in, dim_out = other.dim_in * self.dim_in, other.dim_out * self.dim_out
+        dim_in = self.input_dim * other.input_dim
+        dim_out = self.output_dim * other.output_dim
         return DenseKraus(DenseKraus.parallel_concatenate(self.kraus_ops, other.kraus_ops),
                           numb_qubits, dim_in, dim_out)
 
diff --git a/PyQCodes/chan/channel.py b/PyQCodes/chan/channel.py
index 8a27261..9da5238 100644
--- a/PyQCodes/chan/channel.py
+++ b/PyQCodes/chan/channel.py
@@ -352,8 +352,8 @@ class AnalyticQChan():
         else:
             new_kraus_ops = DenseKraus.parallel_concatenate(self.kraus, other.kraus)
         numb_qubits = [1, 1]
-        dim_in = self.dim_in * other.dim_in
-        dim_out = self.dim_out * other.dim_out
+        dim_in = self.dim_in**self.numb_qubits[0] * other.dim_in**other.numb_qubits[0]
+        dim_out = self.dim_out**self.numb_qubits[1] * other.dim_out**other.numb_qubits[1]
         return AnalyticQChan(new_kraus_ops, numb_qubits, dim_in, dim_out, sparse=issparse)
 
     def _is_qubit_channel(self):
-- 
2.43.0


From 5e684a4b90dec5854e16ec8ee284b3e92682ea6d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:15 +0000
Subject: [PATCH 12/31] fix: serial concatenation of sparse Kraus operators

---
 PyQCodes/chan/_kraus.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyQCodes/chan/_kraus.py b/PyQCodes/chan/_kraus.py
index 15e8774..3cacd2a 100644
--- a/PyQCodes/chan/_kraus.py
+++ b/PyQCodes/chan/_kraus.py
@@ -26,7 +26,7 @@ THE SOFTWARE.
 """
 import numpy as np
 from scipy.sparse import kron
-from sparse import COO, kron, tensordot, matmul, SparseArray
+from sparse import COO, kron, tensordot, matmul, stack, SparseArray
 from abc import ABC, abstractmethod, abstractstaticmethod
 
 r"""
@@ -610,8 +610,8 @@ class SparseKraus(Kraus):
         # Multiply all kraus operators with one another
         kraus_ops = [matmul(kraus1[j], kraus2[i]) for j in range(0, len(kraus1))
                      for i in range(0, len(kraus2))]
-        # Reshape them to be three-dimensional.
-        return COO(np.array(kraus_ops, dtype=np.complex128),)
+        # Stack them to be three-dimensional.
+        return stack(kraus_ops)
 
 
 class DenseKraus(Kraus):
-- 
2.43.0


From 967cf8183d120d66e017d3f1ce34c25cbc7b2e10 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:15 +0000
Subject: [PATCH 13/31] fix: complementary channel with orthogonal Kraus sets
 of different sizes

---
 PyQCodes/chan/_kraus.py  | 6 ++----
 PyQCodes/chan/channel.py | 5 +++--
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/PyQCodes/chan/_kraus.py b/PyQCodes/chan/_kraus.py
index 3cacd2a..e5afd20 100644
--- a/PyQCodes/chan/_kraus.py
+++ b/PyQCodes/chan/_kraus.py
@@ -845,7 +845,6 @@ class DenseKraus(Kraus):
         # and A_2 correponds to {k_1, k_2}.
 
         """
-        numb_rows = self.numb_kraus ** n
         # Compute adjoint of the complementary channel.
         if adjoint:
             return np.einsum("ijkl,ij->kl", self.nth_kraus_exch, rho, dtype=np.complex128)
@@ -862,11 +861,10 @@ class DenseKraus(Kraus):
                 W = np.einsum("ijkl,lk->ij", self.nth_kraus_exch[count:orthogonal_split,
                               count:orthogonal_split, :, :], rho)
                 output.append(W.T)
-                count += orthogonal_split
+                count = orthogonal_split
 
             # Last section of kraus operators
-            diff = (numb_rows - count)
-            W = np.einsum("ijkl,lk->ij", self.nth_kraus_exch[diff:, diff:, :, :], rho)
+            W = np.einsum("ijkl,lk->ij", self.nth_kraus_exch[count:, count:, :, :], rho)
             output.append(W.T)
         return output
 
diff --git a/PyQCodes/chan/channel.py b/PyQCodes/chan/channel.py
index 9da5238..33884f0 100644
--- a/PyQCodes/chan/channel.py
+++ b/PyQCodes/chan/channel.py
@@ -519,8 +519,9 @@ class AnalyticQChan():
             The von neumann entropy.
 
         """
-        if self.sparse:
-            eigs = np.linalg.eigvalsh(mat)
+        if isinstance(mat, list):
+            # The matrices (e.g. blocks of the complementary channel) can differ in size.
+            eigs = np.concatenate([np.ravel(np.linalg.eigvalsh(block)) for block in mat])
         else:
             eigs = np.ravel(np.linalg.eigvalsh(mat))
         no_zeros = eigs[np.abs(eigs) > cut_off]
-- 
2.43.0


From 6a90eabaca50f9b97d6ede5e89fee968c3187157 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:15 +0000
Subject: [PATCH 14/31] fix: channel of a Choi matrix with different numbers of
 input and output particles

---
 PyQCodes/chan/_choi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyQCodes/chan/_choi.py b/PyQCodes/chan/_choi.py
index e6f5b83..6c7135c 100644
--- a/PyQCodes/chan/_choi.py
+++ b/PyQCodes/chan/_choi.py
@@ -192,7 +192,7 @@ class ChoiQutip():
         choi_rho = self.qutip.data.dot(np.kron(rho.T, np.eye(self.output_dim)))
 
         # Keep the following dimensions when doing partial trace
-        keep = [i for i in range(self.num_out, 2 * self.num_out)]
+        keep = [i for i in range(self.num_in, self.num_in + self.num_out)]
         return ptrace(Qobj(choi_rho, dims=self.dim), keep).data.todense()
 
     def complementary_channel(self, rho):
-- 
2.43.0


From 90c108979e47d91fc380299b0570a9041d2b976b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:15 +0000
Subject: [PATCH 15/31] fix: adjoint of a channel given as a Choi matrix

---
 PyQCodes/chan/channel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyQCodes/chan/channel.py b/PyQCodes/chan/channel.py
index 33884f0..ce7f621 100644
--- a/PyQCodes/chan/channel.py
+++ b/PyQCodes/chan/channel.py
@@ -461,6 +461,8 @@ class AnalyticQChan():
 
         # For Choi Matrix.
         assert n == 1, "n, nth use of the channel must be one for choi-matrices."
+        if adjoint:
+            return sum(k.conj().T.dot(rho).dot(k) for k in self.choi.kraus_operators())
         return self.choi.channel(rho)
 
     def entropy_exchange(self, rho, n, adjoint=False):
-- 
2.43.0


From 9e2b6903b275ee207bed5739add84f9b0cfbe7ce Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:15 +0000
Subject: [PATCH 16/31] fix: return the best of the optimized samples

---
 PyQCodes/chan/_coherent.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/PyQCodes/chan/_coherent.py b/PyQCodes/chan/_coherent.py
index 86e2ede..d8df4b9 100644
--- a/PyQCodes/chan/_coherent.py
+++ b/PyQCodes/chan/_coherent.py
@@ -87,16 +87,16 @@ def _use_multi_processes(samples, bounds, args, maxiter, eps, ftol, fobjective,
     pool = Pool(processes=pool_number)
     results = pool.map(obj_func, samples)
 
-    # Initialize parameters for finding maximas over the results.
-    maxima = -1e10
+    # Initialize parameters for finding the minima over the results.
+    minima = np.inf
     optimal_x_val = None
     success = False
     for r in results:
-        if -r["fun"] > maxima:
-            maxima = r["fun"]
+        if r["fun"] < minima:
+            minima = r["fun"]
             optimal_x_val = r["x"]
             success = r["success"]
-    return maxima, success, optimal_x_val
+    return minima, success, optimal_x_val
 
 
 def _optimize_samples_slsqp(samples, bounds, args, maxiter, eps, ftol, fobjective, disp):
@@ -131,11 +131,13 @@ def _optimize_samples_slsqp(samples, bounds, args, maxiter, eps, ftol, fobjectiv
         Returns the optimal solution found, whether it converges or not and the variables of the
         parameterization corresponding to the optimal solution.
     """
-    optimal_val = -1e10
+    optimal_val = np.inf
+    optimal_x_val = None
+    success = False
     for s in samples:
         optimize = _optimize_using_slsqp(s, bounds, args, maxiter, eps, ftol, fobjective, disp)
-        if optimize["fun"] > optimal_val:
-            optimal_val = optimize
+        if optimize["fun"] < optimal_val:
+            optimal_val = optimize["fun"]
             optimal_x_val = optimize["x"]
             success = optimize["success"]
     return optimal_val, success, optimal_x_val
-- 
2.43.0


From 496353a24cb4c65295b73bf9b67f5ad23cb9a599 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:15 +0000
Subject: [PATCH 17/31] fix: slsqp accepts user-provided samples without the
 lipschitz sampler

---
 PyQCodes/chan/_coherent.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/PyQCodes/chan/_coherent.py b/PyQCodes/chan/_coherent.py
index d8df4b9..777c43b 100644
--- a/PyQCodes/chan/_coherent.py
+++ b/PyQCodes/chan/_coherent.py
@@ -278,7 +278,6 @@ def optimize_procedure(channel, n, rank, optimizer="diffev", param="overparam",
                                                                           objective_func, disp)
 
     elif optimizer == "slsqp":
-        assert lipschitz != 0, "SLSQP parameter requires 'lipschitz' parameter to be nonzero."
         # Epsilon and ftol parameters for optimizer.
         eps, ftol = 1e-5, 1e-8
 
-- 
2.43.0


From c933d66a06603e88816b7d00ae397925c0b473a0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:15 +0000
Subject: [PATCH 18/31] fix: accept subclasses of ParameterizationABC as the
 parameterization

---
 PyQCodes/chan/_coherent.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/PyQCodes/chan/_coherent.py b/PyQCodes/chan/_coherent.py
index 777c43b..0616baa 100644
--- a/PyQCodes/chan/_coherent.py
+++ b/PyQCodes/chan/_coherent.py
@@ -62,9 +62,10 @@ def _choose_objective_func(objective):
 
 def _get_parameterization_scheme_density(param):
     r"""Get parameterization static class from the param string"""
-    if not (isinstance(param, str) or isinstance(param, ParameterizationABC)):
+    is_class = isinstance(param, type) and issubclass(param, ParameterizationABC)
+    if not (isinstance(param, (str, ParameterizationABC)) or is_class):
         raise TypeError("Param should either be string or class ParameterizationABC.")
-    if isinstance(param, ParameterizationABC):
+    if not isinstance(param, str):
         return param
     if param == "overparam":
         paramet = OverParam
-- 
2.43.0


From 31f13bf39ff3299c51ad3d96efc99f689d59562f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:46 +0000
Subject: [PATCH 19/31] fix: fidelity of singular density matrices

---
 PyQCodes/chan/channel.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/PyQCodes/chan/channel.py b/PyQCodes/chan/channel.py
index ce7f621..117fe5c 100644
--- a/PyQCodes/chan/channel.py
+++ b/PyQCodes/chan/channel.py
@@ -29,7 +29,6 @@ from PyQCodes.chan._choi import ChoiQutip
 from PyQCodes.chan._coherent import optimize_procedure
 
 import numpy as np
-from scipy.linalg import sqrtm
 from sparse import SparseArray
 
 r"""
@@ -392,10 +391,11 @@ class AnalyticQChan():
 
         """
         chan = self.channel(rho, n)
-        sqrt_rho = sqrtm(rho)
-        fidel = np.trace(sqrtm(sqrt_rho.dot(chan).dot(sqrt_rho)))
-        assert np.abs(np.imag(fidel)) < 1e-5
-        return np.real(fidel)
+        # Diagonalize, since sqrtm is not reliable on singular matrices (e.g. pure states).
+        eigs, evecs = np.linalg.eigh(rho)
+        sqrt_rho = (evecs * np.sqrt(np.maximum(eigs, 0.))).dot(evecs.conj().T)
+        eigs = np.linalg.eigvalsh(sqrt_rho.dot(chan).dot(sqrt_rho))
+        return np.sum(np.sqrt(np.maximum(eigs, 0.)))
 
     def average_entanglement_fidelity(self, probs, states):
         r"""
-- 
2.43.0


From c48c747fd86243d4d45ae98828b06e4ad28083c5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:34 +0000
Subject: [PATCH 20/31] fix: optimize_encoder_decoder_average_fidelity
 maximizes over the parameters

---
 PyQCodes/find_codes.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/PyQCodes/find_codes.py b/PyQCodes/find_codes.py
index c4ca605..885a60a 100644
--- a/PyQCodes/find_codes.py
+++ b/PyQCodes/find_codes.py
@@ -331,7 +331,11 @@ class QDeviceChannel():
             decoder(eng, register, parameters[nparams_encoder:])
 
         def objective_func(parameters, eng, register):
-            return self._device.estimate_average_fidelity(total_channel, ntimes, epsilon)
+            def channel(eng, register):
+                total_channel(eng, register, parameters)
+
+            # The optimizer minimizes, but the average fidelity should be maximized.
+            return -self._device.estimate_average_fidelity(channel, ntimes, epsilon)
 
         if optimizer == "diffev":
             result = differential_evolution(objective_func, bounds=bounds, maxiter=maxiter,
@@ -340,5 +344,5 @@ class QDeviceChannel():
             raise ValueError("Does not recognize optimizer: " + str(optimizer))
 
         output = {"success" : result["success"], "params_encoder": result["x"][:nparams_encoder],
-                  "params_decoder": result["x"][nparams_encoder:], "optimal_val": result["fun"]}
+                  "params_decoder": result["x"][nparams_encoder:], "optimal_val": -result["fun"]}
         return output
-- 
2.43.0


From 4198d0b245cddcd0df89073f4a53103d490d97e9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:34 +0000
Subject: [PATCH 21/31] fix: effective channel of codes with several logical
 qubits

---
 PyQCodes/find_codes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyQCodes/find_codes.py b/PyQCodes/find_codes.py
index 885a60a..f3ab225 100644
--- a/PyQCodes/find_codes.py
+++ b/PyQCodes/find_codes.py
@@ -156,7 +156,7 @@ def effective_channel_with_stabilizers(stabilizer, code_param, pauli_errors, opt
     stab = StabilizerCode(stabilizer, code_param[0], code_param[1])
 
     # Figure out the dimensions of channel later.
-    error_chan = AnalyticQChan(pauli_errors, [1, 1], 2, 2, sparse=sparse)
+    error_chan = AnalyticQChan(pauli_errors, [code_param[1], code_param[1]], 2, 2, sparse=sparse)
     error_chan.krauss.update_kraus_operators(code_param[0] // code_param[1])
 
     # Get Kraus Operator for encoder.
@@ -172,7 +172,7 @@ def effective_channel_with_stabilizers(stabilizer, code_param, pauli_errors, opt
 
     # Solve the objective function
     if optimize == "coherent":
-        result = total_chan.optimize_coherent(n=1, rank=2,
+        result = total_chan.optimize_coherent(n=1, rank=2**code_param[1],
                                               optimizer="slsqp", param="overparam",
                                               lipschitz=25, use_pool=3, maxiter=250)
     else:
-- 
2.43.0


From 336907b9b87397b3cab77fc0d3719474e9f78d1d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:34 +0000
Subject: [PATCH 22/31] fix: effective_channel_with_stabilizers uses its
 options

---
 PyQCodes/find_codes.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/PyQCodes/find_codes.py b/PyQCodes/find_codes.py
index f3ab225..2784fa0 100644
--- a/PyQCodes/find_codes.py
+++ b/PyQCodes/find_codes.py
@@ -150,7 +150,9 @@ def effective_channel_with_stabilizers(stabilizer, code_param, pauli_errors, opt
         raise TypeError("Number of Columns of Pauli error does not match 2**k.")
 
     # Parameters for optimization
-    # TODO: add coherent information parameters.
+    parameters = {"param": "overparam", "lipschitz": 25, "use_pool": 3, "maxiter": 250}
+    if options is not None:
+        parameters.update(options)
 
     # Set up the objects, stabilizer code, pauli-channel error, respectively.
     stab = StabilizerCode(stabilizer, code_param[0], code_param[1])
@@ -173,11 +175,9 @@ def effective_channel_with_stabilizers(stabilizer, code_param, pauli_errors, opt
     # Solve the objective function
     if optimize == "coherent":
         result = total_chan.optimize_coherent(n=1, rank=2**code_param[1],
-                                              optimizer="slsqp", param="overparam",
-                                              lipschitz=25, use_pool=3, maxiter=250)
+                                              optimizer="slsqp", **parameters)
     else:
-        result = total_chan.optimize_fidelity(n=1, optimizer="slsqp", param="overparam",
-                                              lipschitz=25, use_pool=3, maxiter=250)
+        result = total_chan.optimize_fidelity(n=1, optimizer="slsqp", **parameters)
     return result
 
 
-- 
2.43.0


From 46af8909fbcee33f5688ce061f3d9deb085eb05b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:13 +0000
Subject: [PATCH 23/31] fix: CholeskyParam.vec_from_rho is the inverse of
 rho_from_vec

---
 PyQCodes/chan/param.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/PyQCodes/chan/param.py b/PyQCodes/chan/param.py
index 9824488..7affcf0 100644
--- a/PyQCodes/chan/param.py
+++ b/PyQCodes/chan/param.py
@@ -583,8 +583,6 @@ class CholeskyParam(ParameterizationABC):
         cholesky_fac = np.linalg.cholesky(rho)
         # First set of elements is the diagonal elements (always real).
         vec = np.diag(np.real(cholesky_fac))
-        # Add real Off-diagonal elements
-        vec = np.append(vec, np.real(cholesky_fac[np.tril_indices(nsize, k=-1, m=rank)]))
-        # Add imaginary Off-diagonal elements
-        vec = np.append(vec, np.imag(cholesky_fac[np.tril_indices(nsize, k=-1, m=rank)]))
-        return vec
+        # Add the off-diagonal elements, real component then imaginary component of each.
+        off_diag = cholesky_fac[np.tril_indices(nsize, k=-1, m=rank)]
+        return np.append(vec, np.ravel(np.column_stack((np.real(off_diag), np.imag(off_diag)))))
-- 
2.43.0


From 214dcd479b9f7ad013bc7c2914bb22ca4b7b79df Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:31 +0000
Subject: [PATCH 24/31] fix: partial trace over a Choi matrix whose input and
 output particle lists differ in length

---
 PyQCodes/chan/_choi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyQCodes/chan/_choi.py b/PyQCodes/chan/_choi.py
index 6c7135c..a8e0a57 100644
--- a/PyQCodes/chan/_choi.py
+++ b/PyQCodes/chan/_choi.py
@@ -193,7 +193,8 @@ class ChoiQutip():
 
         # Keep the following dimensions when doing partial trace
         keep = [i for i in range(self.num_in, self.num_in + self.num_out)]
-        return ptrace(Qobj(choi_rho, dims=self.dim), keep).data.todense()
+        dims = [self.dim[0][0] + self.dim[0][1], self.dim[1][0] + self.dim[1][1]]
+        return ptrace(Qobj(choi_rho, dims=dims), keep).data.todense()
 
     def complementary_channel(self, rho):
         r"""
-- 
2.43.0


From b0c4d7108ac5805c367cc849d1229ee7179e1d93 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:31 +0000
Subject: [PATCH 25/31] fix: number of Kraus operators of a channel raised
 AttributeError

---
 PyQCodes/chan/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyQCodes/chan/channel.py b/PyQCodes/chan/channel.py
index 117fe5c..b32a21f 100644
--- a/PyQCodes/chan/channel.py
+++ b/PyQCodes/chan/channel.py
@@ -257,7 +257,7 @@ class AnalyticQChan():
     def numb_krauss(self):
         r"""Return the number of kraus operators for the single (n=1) channel."""
         assert self._type == "kraus", "Function only works with kraus operators."
-        return self.krauss.numb_krauss
+        return self.krauss.numb_kraus
 
     @property
     def kraus(self):
-- 
2.43.0


From 33a7910c382cfe6720f24be5b20454c4f083e719 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:31 +0000
Subject: [PATCH 26/31] fix: sparse channel applied to an array of density
 matrices

---
 PyQCodes/chan/_kraus.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyQCodes/chan/_kraus.py b/PyQCodes/chan/_kraus.py
index e5afd20..4064cbf 100644
--- a/PyQCodes/chan/_kraus.py
+++ b/PyQCodes/chan/_kraus.py
@@ -500,6 +500,9 @@ class SparseKraus(Kraus):
             rho.
 
         """
+        # If want to compute the channel across many density matrices.
+        if rho.ndim == 3:
+            return np.array([self.channel(single, adjoint) for single in rho])
         if adjoint:
             left_mult = matmul(self.nth_kraus_ops_conj, rho)
             return np.sum(matmul(left_mult, self.nth_kraus_ops), axis=0)
-- 
2.43.0


From b0910e0d9fe566ae6b1e52f4631bab91427a679a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:03 +0000
Subject: [PATCH 27/31] fix: SDP optimised the decoder over maps from k to n
 qubits instead of n to k

---
 PyQCodes/avgfid/avg_fidelity.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/PyQCodes/avgfid/avg_fidelity.py b/PyQCodes/avgfid/avg_fidelity.py
index e58f104..7bca0a6 100644
--- a/PyQCodes/avgfid/avg_fidelity.py
+++ b/PyQCodes/avgfid/avg_fidelity.py
@@ -96,7 +96,8 @@ def optimize_decoder_stabilizers(stabilizer, code_param, kraus_chan, sparse=Fals
     else:
         kraus_chan = [x.dot(encoder) for x in error_chan.nth_kraus_operators]
 
-    numb_qubits = [code_param[1], code_param[0]]
+    # The decoder (recovery) maps n qubits to k qubits.
+    numb_qubits = [code_param[0], code_param[1]]
     dim_in, dim_out = 2, 2
     result = _optimize_average_entang_fid(kraus_chan, numb_qubits, dim_in, dim_out, options=options)
     return result
@@ -204,16 +205,18 @@ def _optimize_average_entang_fid(krauss, numb_qubits, dim_in, dim_out, encoder=F
 
     # Get choi-matrix of the kraus operators on the identity matrix using column-vectorization.
     print(type(krauss), issparse(krauss[0]), type(krauss[0]), isspmatrix_coo(krauss[0]))
+    # The maximally mixed state is on the logical side: the input of the encoder.
+    logical_dim = input_dim if encoder else dim_out ** numb_qubits[1]
     if issparse(krauss[0]):  # If kraus operators are already sparse.
         print("The size is ", krauss[0].size)
         print(krauss[0].shape)
         print(type(krauss[0]))
         C_e_sparse = sum([np.outer(k.conj().reshape((np.prod(k.shape), 1), order="F"),
                                    k.conj().reshape((np.prod(k.shape), 1), order="F"))
-                          for k in krauss]) / input_dim**2
+                          for k in krauss]) / logical_dim**2
     else:
         C_e = sum([np.outer(np.ravel(np.conj(k).T, order="F"),
-                            np.ravel(np.conj(k).T, order="F")) for k in krauss]) / input_dim**2
+                            np.ravel(np.conj(k).T, order="F")) for k in krauss]) / logical_dim**2
         C_e_sparse = coo_matrix(C_e)  # Turn to sparse array
 
     # Set up objective function as average fidelity wrt to maximally mixed state ensemble.
-- 
2.43.0


From 3542cbe23688dbd5be9cd364609d50178ee596f1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:03 +0000
Subject: [PATCH 28/31] fix: SDP decoder refused channels that act on k > 1
 qubits

---
 PyQCodes/avgfid/avg_fidelity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyQCodes/avgfid/avg_fidelity.py b/PyQCodes/avgfid/avg_fidelity.py
index 7bca0a6..4a52b51 100644
--- a/PyQCodes/avgfid/avg_fidelity.py
+++ b/PyQCodes/avgfid/avg_fidelity.py
@@ -84,7 +84,7 @@ def optimize_decoder_stabilizers(stabilizer, code_param, kraus_chan, sparse=Fals
     """
     # Set up stabilizer code, pauli-channel error and update the channel to match encoder.
     stab = StabilizerCode(stabilizer, code_param[0], code_param[1])
-    error_chan = AnalyticQChan(kraus_chan, [1, 1], 2, 2, sparse=sparse)
+    error_chan = AnalyticQChan(kraus_chan, [code_param[1], code_param[1]], 2, 2, sparse=sparse)
     error_chan.krauss.update_kraus_operators(code_param[0] // code_param[1])
 
     # Get Kraus Operator for encoder.
-- 
2.43.0


From 5090986202d17839300fdf2bff1752ed0d1d4bbf Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:03 +0000
Subject: [PATCH 29/31] fix: SDP objective for complex and for sparse Kraus
 operators

---
 PyQCodes/avgfid/avg_fidelity.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/PyQCodes/avgfid/avg_fidelity.py b/PyQCodes/avgfid/avg_fidelity.py
index 4a52b51..9d8154f 100644
--- a/PyQCodes/avgfid/avg_fidelity.py
+++ b/PyQCodes/avgfid/avg_fidelity.py
@@ -208,16 +208,10 @@ def _optimize_average_entang_fid(krauss, numb_qubits, dim_in, dim_out, encoder=F
     # The maximally mixed state is on the logical side: the input of the encoder.
     logical_dim = input_dim if encoder else dim_out ** numb_qubits[1]
     if issparse(krauss[0]):  # If kraus operators are already sparse.
-        print("The size is ", krauss[0].size)
-        print(krauss[0].shape)
-        print(type(krauss[0]))
-        C_e_sparse = sum([np.outer(k.conj().reshape((np.prod(k.shape), 1), order="F"),
-                                   k.conj().reshape((np.prod(k.shape), 1), order="F"))
-                          for k in krauss]) / logical_dim**2
-    else:
-        C_e = sum([np.outer(np.ravel(np.conj(k).T, order="F"),
-                            np.ravel(np.conj(k).T, order="F")) for k in krauss]) / logical_dim**2
-        C_e_sparse = coo_matrix(C_e)  # Turn to sparse array
+        krauss = [k.toarray() for k in krauss]
+    C_e = sum([np.outer(np.ravel(np.conj(k).T, order="F"),
+                        np.ravel(k.T, order="F")) for k in krauss]) / logical_dim**2
+    C_e_sparse = coo_matrix(C_e)  # Turn to sparse array
 
     # Set up objective function as average fidelity wrt to maximally mixed state ensemble.
     sparse_mat = _convert_sparse_matrix_into_cvx_opt(C_e_sparse)
-- 
2.43.0


From bb3491f2972e78c7066f1ea585f556ce4a35dde3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:07 +0000
Subject: [PATCH 30/31] fix: Cholesky parameters of a state of lower rank
 raised LinAlgError or had the wrong length

---
 PyQCodes/chan/param.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/PyQCodes/chan/param.py b/PyQCodes/chan/param.py
index 7affcf0..dfff470 100644
--- a/PyQCodes/chan/param.py
+++ b/PyQCodes/chan/param.py
@@ -580,7 +580,14 @@ class CholeskyParam(ParameterizationABC):
         if rank is None:
             rank = nsize
         assert 1 <= rank <= nsize
-        cholesky_fac = np.linalg.cholesky(rho)
+        # Write rho as A * A^{\dagger}, where A has 'rank' columns (rho may be singular).
+        eigs, evecs = np.linalg.eigh(rho)
+        a = evecs[:, nsize - rank:] * np.sqrt(np.maximum(eigs[nsize - rank:], 0.))
+        # The QR-decomposition of A^{\dagger} gives A = L * Q^{\dagger}, with lower-triangular L.
+        cholesky_fac = np.conj(np.linalg.qr(np.conj(a).T, mode="r")).T
+        # Make the diagonal elements of L real and positive.
+        diag = np.diag(cholesky_fac)
+        cholesky_fac = cholesky_fac * np.exp(-1j * np.angle(diag))
         # First set of elements is the diagonal elements (always real).
         vec = np.diag(np.real(cholesky_fac))
         # Add the off-diagonal elements, real component then imaginary component of each.
-- 
2.43.0


From 0d9aeae60d79b9b32149b5426a286491ab8c0301 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:49 +0000
Subject: [PATCH 31/31] fix: errors of tiny weight were all taken as
 anticommuting with the first stabilizer

---
 PyQCodes/codes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyQCodes/codes.py b/PyQCodes/codes.py
index bc66227..0d87671 100644
--- a/PyQCodes/codes.py
+++ b/PyQCodes/codes.py
@@ -350,7 +350,7 @@ class StabilizerCode():
                 error_p = error.dot(p)
 
                 # Check if they are anti-commuting.
-                if abs(error_p + p_error).max() < 1e-5:
+                if abs(error_p + p_error).max() < 1e-5 * abs(error).max():
                     # Append stabilier multipled by error for entire error-correcting procedure.
                     kraus.append(p.dot(error))
                     found_decoder = True  # Error is correctable.
-- 
2.43.0


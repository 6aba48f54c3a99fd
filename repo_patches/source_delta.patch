From 84b2b6a9a3b430a4564ee450480e68d421f4ef71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:27 +0000
Subject: [PATCH 01/58] fix: simulate operations whose matrix is not a
 C-contiguous complex array

---
 dwave/gate/simulator/simulator.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/simulator/simulator.pyx b/dwave/gate/simulator/simulator.pyx
index 9dd3f66..d0e6fc1 100644
--- a/dwave/gate/simulator/simulator.pyx
+++ b/dwave/gate/simulator/simulator.pyx
@@ -95,6 +95,8 @@ def apply_instruction(
             gate = op.target_operation(op.parameters).matrix
         else:
             gate = op.target_operation.matrix
+        # the generated C code reads the matrix as row-major complex doubles
+        gate = np.ascontiguousarray(gate, dtype=np.complex128)
         assert gate.shape == (2, 2), (op, gate)
         if conjugate_gate:
             gate = np.ascontiguousarray(gate.conjugate())
@@ -122,7 +124,8 @@ def apply_instruction(
             raise ValueError(
                 f"simulator encountered unknown multi-qubit operation: {op.label}"
             )
-        gate = op.matrix
+        # the generated C code reads the matrix as row-major complex doubles
+        gate = np.ascontiguousarray(op.matrix, dtype=np.complex128)
         if conjugate_gate:
             gate = np.ascontiguousarray(gate.conjugate())
 
-- 
2.43.0


From dd0750c16c12f31a660dd7ce2f7f6f93670c0406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:56 +0000
Subject: [PATCH 02/58] fix: report unknown multi-qubit operations instead of
 failing on a missing label

---
 dwave/gate/simulator/simulator.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/gate/simulator/simulator.pyx b/dwave/gate/simulator/simulator.pyx
index d0e6fc1..a1cb571 100644
--- a/dwave/gate/simulator/simulator.pyx
+++ b/dwave/gate/simulator/simulator.pyx
@@ -122,7 +122,7 @@ def apply_instruction(
         # apply single qubit gate
         if op.num_qubits != 1:
             raise ValueError(
-                f"simulator encountered unknown multi-qubit operation: {op.label}"
+                f"simulator encountered unknown multi-qubit operation: {op.name}"
             )
         # the generated C code reads the matrix as row-major complex doubles
         gate = np.ascontiguousarray(op.matrix, dtype=np.complex128)
-- 
2.43.0


From 008715cccb7a0ab40f4231ef9efdacc4baa16bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:18 +0000
Subject: [PATCH 03/58] fix: raise instead of silently skipping operations with
 more than two controls

---
 dwave/gate/simulator/simulator.pyx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dwave/gate/simulator/simulator.pyx b/dwave/gate/simulator/simulator.pyx
index a1cb571..fb05280 100644
--- a/dwave/gate/simulator/simulator.pyx
+++ b/dwave/gate/simulator/simulator.pyx
@@ -118,6 +118,12 @@ def apply_instruction(
                 num_qubits, state, gate, target, control0, control1,
                 little_endian=little_endian,
             )
+
+        else:
+            raise ValueError(
+                f"simulator only supports one or two control qubits, got {op.num_control} "
+                f"for operation: {op.name}"
+            )
     else:
         # apply single qubit gate
         if op.num_qubits != 1:
-- 
2.43.0


From e624234441a4e6c87107b20289fd4e53ab06d896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:45 +0000
Subject: [PATCH 04/58] fix: treat barriers as no-ops when simulating

---
 dwave/gate/simulator/simulator.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/simulator/simulator.pyx b/dwave/gate/simulator/simulator.pyx
index fb05280..cbae357 100644
--- a/dwave/gate/simulator/simulator.pyx
+++ b/dwave/gate/simulator/simulator.pyx
@@ -50,7 +50,8 @@ def apply_instruction(
     rng: np.random.Generator,
     conjugate_gate: bool = False,
 ):
-    if op.is_blocked:
+    # barriers have no effect on the state
+    if op.is_blocked or isinstance(op, ops.Barrier):
         return
 
     if isinstance(op, ops.Measurement):
-- 
2.43.0


From 13a93f9b4162c3077dad024309fad0f247d2d4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:10 +0000
Subject: [PATCH 05/58] fix: do not accumulate measured qubit indices over
 repeated simulations

---
 dwave/gate/simulator/simulator.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dwave/gate/simulator/simulator.pyx b/dwave/gate/simulator/simulator.pyx
index cbae357..b51d1dd 100644
--- a/dwave/gate/simulator/simulator.pyx
+++ b/dwave/gate/simulator/simulator.pyx
@@ -217,6 +217,8 @@ def sample_qubit(
 
 def _measure(op, state, targets, rng):
     op._measured_state = state.copy()
+    # only keep the indices of the latest simulation
+    op._measured_qubit_indices = []
 
     for idx, t in enumerate(targets):
         m = sample_qubit(t, state, rng)
-- 
2.43.0


From bfce1622c9058b10e2bff2b0862f073ae6a695ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:08 +0000
Subject: [PATCH 06/58] fix: respect little-endian indexing in density matrix
 simulations

---
 dwave/gate/simulator/simulator.pyx | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/dwave/gate/simulator/simulator.pyx b/dwave/gate/simulator/simulator.pyx
index b51d1dd..97db123 100644
--- a/dwave/gate/simulator/simulator.pyx
+++ b/dwave/gate/simulator/simulator.pyx
@@ -159,8 +159,8 @@ def simulate(
             Otherwise, simulate using the state vector method.
 
         little_endian:
-            If true, return the state vector using little-endian indexing for
-            the qubits. Otherwise use big-endian.
+            If true, return the state vector (or density matrix) using little-endian
+            indexing for the qubits. Otherwise use big-endian.
 
     """
 
@@ -171,7 +171,7 @@ def simulate(
     rng = np.random.default_rng(rng_seed)
 
     if mixed_state:
-        state = _simulate_circuit_density_matrix(circuit, rng)
+        state = _simulate_circuit_density_matrix(circuit, rng, little_endian)
     else:
         state = np.zeros(1 << num_qubits, dtype=np.complex128)
         state[0] = 1
@@ -242,19 +242,24 @@ def _simulate_circuit_density_matrix(
     state = np.zeros(1 << num_virtual_qubits, dtype=np.complex128)
     state[0] = 1
 
+    # the qubits indexing the rows of the density matrix are the most significant ones, i.e., the
+    # last ones when using little-endian indexing
+    row_offset, column_offset = (num_qubits, 0) if little_endian else (0, num_qubits)
+
     for op in circuit.circuit:
         if isinstance(op, ops.Measurement):
             _measure(op, state, circuit, rng)
         else:
             # first apply the gate normally
             targets = [circuit.qubits.index(qb) for qb in op.qubits]
+            row_targets = [t + row_offset for t in targets]
             apply_instruction(
-                num_virtual_qubits, state, op, targets, little_endian, rng
+                num_virtual_qubits, state, op, row_targets, little_endian, rng
             )
             # then apply conjugate transpose to corresponding virtual qubit
-            virtual_targets = [t + num_qubits for t in targets]
+            column_targets = [t + column_offset for t in targets]
             apply_instruction(
-                num_virtual_qubits, state, op, virtual_targets, little_endian, rng,
+                num_virtual_qubits, state, op, column_targets, little_endian, rng,
                 conjugate_gate=True,
             )
     density_matrix = state.reshape((1 << num_qubits, 1 << num_qubits))
-- 
2.43.0


From 14d39970366a4fb0c59c7d3acd1a234d424180c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:34 +0000
Subject: [PATCH 07/58] fix: support measurements in density matrix simulations

---
 dwave/gate/simulator/simulator.pyx | 45 ++++++++++++++++++++++++++++--
 1 file changed, 42 insertions(+), 3 deletions(-)

diff --git a/dwave/gate/simulator/simulator.pyx b/dwave/gate/simulator/simulator.pyx
index 97db123..38a325c 100644
--- a/dwave/gate/simulator/simulator.pyx
+++ b/dwave/gate/simulator/simulator.pyx
@@ -194,7 +194,7 @@ def sample_qubit(
 
     Args:
         qubit: The qubit index that is measured.
-        state: The state to sample from.
+        state: The state (state vector or density matrix) to sample from.
         rng: Random number generator to use for measuring in the computational basis.
         collapse_state: Whether to collapse the state after measuring.
         little_endian: If true, return the state vector using little-endian indexing for
@@ -205,6 +205,11 @@ def sample_qubit(
     """
     cdef int num_qubits = round(np.log2(state.shape[0]))
 
+    if state.ndim == 2:
+        return _sample_qubit_density_matrix(
+            num_qubits, state, qubit, rng, little_endian, collapse_state
+        )
+
     return measurement_computational_basis(
         num_qubits,
         state,
@@ -215,6 +220,35 @@ def sample_qubit(
     )
 
 
+def _sample_qubit_density_matrix(
+    num_qubits: int,
+    state: np.typing.NDArray,
+    qubit: int,
+    rng: np.random.Generator,
+    little_endian: bool,
+    collapse_state: bool,
+) -> int:
+    """Sample a single qubit from a density matrix; see :func:`sample_qubit`."""
+    bit = qubit if little_endian else num_qubits - 1 - qubit
+    is_one = (np.arange(state.shape[0]) >> bit) & 1 == 1
+    populations = np.diagonal(state).real
+
+    p0 = populations[~is_one].sum()
+    outcome = 0 if p0 > rng.uniform() else 1
+
+    if collapse_state:
+        discarded = is_one if outcome == 0 else ~is_one
+        probability = populations[~discarded].sum()
+        if probability <= 0.0:
+            raise RuntimeError("cannot normalize density matrix, trace too small")
+
+        state[discarded, :] = 0
+        state[:, discarded] = 0
+        state /= probability
+
+    return outcome
+
+
 def _measure(op, state, targets, rng):
     op._measured_state = state.copy()
     # only keep the indices of the latest simulation
@@ -247,11 +281,16 @@ def _simulate_circuit_density_matrix(
     row_offset, column_offset = (num_qubits, 0) if little_endian else (0, num_qubits)
 
     for op in circuit.circuit:
+        targets = [circuit.qubits.index(qb) for qb in op.qubits]
         if isinstance(op, ops.Measurement):
-            _measure(op, state, circuit, rng)
+            if op.is_blocked:
+                continue
+            if little_endian:
+                raise CircuitError("Measurements only supports big-endian qubit indexing.")
+            # NOTE: the reshaped density matrix is a view into the state
+            _measure(op, state.reshape((1 << num_qubits, 1 << num_qubits)), targets, rng)
         else:
             # first apply the gate normally
-            targets = [circuit.qubits.index(qb) for qb in op.qubits]
             row_targets = [t + row_offset for t in targets]
             apply_instruction(
                 num_virtual_qubits, state, op, row_targets, little_endian, rng
-- 
2.43.0


From ac00858b40f4a32aa44110f628a2c2ad630c5616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:55 +0000
Subject: [PATCH 08/58] fix: conjugate the bra when computing the density
 matrix of a pure state

---
 dwave/gate/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 17353f2..803625c 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -251,7 +251,7 @@ class Circuit:
     def density_matrix(self) -> Optional[NDArray]:
         """The density matrix representation of the state."""
         if self._state is not None and self._density_matrix is None:
-            self._density_matrix = self._state.reshape(-1, 1) @ self._state.reshape(1, -1)
+            self._density_matrix = np.outer(self._state, self._state.conj())
         return self._density_matrix
 
     def set_state(self, state: NDArray, force: bool = False, normalize: bool = False) -> None:
-- 
2.43.0


From ca47970a79dddce88f959626c38d228af71c9a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:03 +0000
Subject: [PATCH 09/58] fix: accept mixed density matrices in Circuit.set_state
 by using their trace

---
 dwave/gate/circuit.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 803625c..d9b5ec8 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -270,7 +270,7 @@ class Circuit:
             raise CircuitError("State already set. Use 'force=True' to force set new state.")
 
         if normalize:
-            state = state / np.linalg.norm(state)
+            state = state / self._state_norm(state)
 
         self._assert_state(state)
 
@@ -284,13 +284,18 @@ class Circuit:
 
     def _assert_state(self, state: NDArray) -> None:
         """Check whether a state is the correct shape and is normalized."""
-        size = 2 << (self.num_qubits - 1)
+        size = 1 << self.num_qubits
         if state.shape != (size,) and state.shape != (size, size):
             raise ValueError(f"State has incorrect shape. Should have size {size}.")
 
-        if not np.isclose(np.linalg.norm(state), 1):
+        if not np.isclose(self._state_norm(state), 1):
             raise ValueError("State is not normalized.")
 
+    @staticmethod
+    def _state_norm(state: NDArray) -> complex:
+        """Norm of a state vector or trace of a density matrix."""
+        return np.trace(state) if state.ndim == 2 else np.linalg.norm(state)
+
     @property
     def num_qubits(self) -> int:
         """Number of qubits in the circuit."""
-- 
2.43.0


From ea1cb98515639b2f765c87a68e18dbfeb995349f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:37 +0000
Subject: [PATCH 10/58] fix: clear the state and the cached qubits and bits
 when resetting a circuit

---
 dwave/gate/circuit.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index d9b5ec8..c86114b 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -355,9 +355,14 @@ class Circuit:
         """
         self._circuit.clear()
         self._circuit_context = None
+        self._state = self._density_matrix = None
         if not keep_registers:
             self._qregisters.clear()
             self._cregisters.clear()
+
+            # remove cached 'qubits' and 'bits' attributes when removing the registers
+            self.__dict__.pop("qubits", None)
+            self.__dict__.pop("bits", None)
         else:
             for bit in self.bits:
                 bit.reset()
-- 
2.43.0


From 078571146c53447daaaca55310ef2ee4803c91aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:45 +0000
Subject: [PATCH 11/58] fix: add the given bit to the circuit even if its value
 is 0

---
 dwave/gate/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index c86114b..811967c 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -424,7 +424,7 @@ class Circuit:
         if self.bits and bit in self.bits:
             raise ValueError(f"Bit '{bit}' already in use in classical register '{creg_label}'.")
 
-        self.cregisters[creg_label].add(bit or Bit(str(self.num_bits)))
+        self.cregisters[creg_label].add(Bit(str(self.num_bits)) if bit is None else bit)
 
         # remove cached 'bits' attribute when updating 'cregisters'
         # will always be in 'self.__dict__' since 'self.bits' is called above
-- 
2.43.0


From e244f9427eb51e7e1540e802b13165f18ab9c4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:51 +0000
Subject: [PATCH 12/58] fix: never pick an already used label as default
 register label

---
 dwave/gate/circuit.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 811967c..0446076 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -431,6 +431,12 @@ class Circuit:
         if "bits" in self.__dict__:  # pragma: no cover
             del self.bits
 
+    @staticmethod
+    def _default_label(prefix: str, registers: Mapping[Hashable, Hashable]) -> str:
+        """Returns the first unused default register label, counting from the register count."""
+        indices = itertools.count(len(registers))
+        return next(lbl for lbl in (f"{prefix}{i}" for i in indices) if lbl not in registers)
+
     def add_qregister(self, num_qubits: int = 0, label: Hashable = None) -> None:
         """Adds a new quantum register to the circuit.
 
@@ -440,7 +446,7 @@ class Circuit:
                 integer starting at 0).
         """
         if label is None:
-            label = f"qreg{len(self.qregisters)}"
+            label = self._default_label("qreg", self.qregisters)
 
         if label in self._qregisters:
             raise ValueError(f"Quantum register {label} already present in the circuit.")
@@ -462,7 +468,7 @@ class Circuit:
                 integer starting at 0).
         """
         if label is None:
-            label = f"creg{len(self.cregisters)}"
+            label = self._default_label("creg", self.cregisters)
 
         if label in self._cregisters:
             raise ValueError(f"Classical register {label} already present in the circuit")
-- 
2.43.0


From 26708f8d7de3cd7bca8b7d3195c5ebc8e8978588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:59 +0000
Subject: [PATCH 13/58] fix: do not leave an empty register behind when failing
 to add a duplicate (qu)bit

---
 dwave/gate/circuit.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 0446076..3c77a05 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -382,6 +382,11 @@ class Circuit:
         if qubit is not None and not isinstance(qubit, Qubit):
             raise TypeError(f"Can only add qubits to circuit. Got '{type(qubit).__name__}'.")
 
+        # NOTE: same qubit in different registers NOT allowed
+        if qubit in self.qubits:
+            label, _ = self.find_qubit(qubit, qreg_label=True)
+            raise ValueError(f"Qubit '{qubit}' already in use in quantum register '{label}'.")
+
         if qreg_label is not None:
             if qreg_label not in self.qregisters:
                 self.add_qregister(label=qreg_label)
@@ -390,10 +395,6 @@ class Circuit:
                 self.add_qregister()
             qreg_label = list(self.qregisters)[0]
 
-        # NOTE: same qubit in different registers NOT allowed
-        if qubit in self.qubits:
-            raise ValueError(f"Qubit '{qubit}' already in use in quantum register '{qreg_label}'.")
-
         self.qregisters[qreg_label].add(qubit or Qubit(str(self.num_qubits)))
 
         # remove cached 'qubits' attribute when updating 'qregisters';
@@ -412,6 +413,11 @@ class Circuit:
         if bit is not None and not isinstance(bit, Bit):
             raise TypeError(f"Can only add bits to circuit. Got '{type(bit).__name__}'.")
 
+        # NOTE: same bit in different registers NOT allowed
+        if bit in self.bits:
+            label, _ = self.find_bit(bit, creg_label=True)
+            raise ValueError(f"Bit '{bit}' already in use in classical register '{label}'.")
+
         if creg_label is not None:
             if creg_label not in self.cregisters:
                 self.add_cregister(label=creg_label)
@@ -420,10 +426,6 @@ class Circuit:
                 self.add_cregister()
             creg_label = list(self.cregisters)[0]
 
-        # NOTE: same bit in different registers NOT allowed
-        if self.bits and bit in self.bits:
-            raise ValueError(f"Bit '{bit}' already in use in classical register '{creg_label}'.")
-
         self.cregisters[creg_label].add(Bit(str(self.num_bits)) if bit is None else bit)
 
         # remove cached 'bits' attribute when updating 'cregisters'
-- 
2.43.0


From b21ca0958c0b2cdfa0c3d95d9a58e015e86a9050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:07 +0000
Subject: [PATCH 14/58] fix: keep context frozen when exiting a nested frozen
 context

---
 dwave/gate/circuit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 3c77a05..10a900d 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -866,10 +866,12 @@ class CircuitContext:
             def __enter__(self) -> None:
                 if cls.active_context is None:
                     raise CircuitError("Can only freeze active context. No active context found.")
+                self._was_frozen = cls.active_context._frozen
                 cls.active_context._frozen = True
 
             def __exit__(self, _, __, ___) -> None:
-                cls.active_context._frozen = False
+                # frozen contexts can be nested; only the outermost one should unfreeze
+                cls.active_context._frozen = self._was_frozen
 
         return FrozenContext()
 
-- 
2.43.0


From bc705a00ca681e7902d568be32d175d075daebc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:37 +0000
Subject: [PATCH 15/58] fix: apply operations with several controls when
 calling a circuit

---
 dwave/gate/circuit.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 10a900d..274b628 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -130,11 +130,7 @@ class Circuit:
             mapped_qubits = [qubit_map[qb] for qb in op.qubits or []]
 
             # NOTE: avoid circular imports; needed to check operation type
-            from dwave.gate.operations.base import (
-                ControlledOperation,
-                Measurement,
-                ParametricOperation,
-            )
+            from dwave.gate.operations.base import Measurement, ParametricOperation
 
             if isinstance(op, Measurement):
                 if bits:
@@ -149,8 +145,6 @@ class Circuit:
 
             if isinstance(op, ParametricOperation):
                 op.__class__(op.parameters, qubits=mapped_qubits)
-            elif isinstance(op, ControlledOperation):
-                op.__class__(*mapped_qubits)
             else:
                 op.__class__(qubits=mapped_qubits)
 
-- 
2.43.0


From a83a96cdc8780fbbf2c72be65697978c7a08e9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:44 +0000
Subject: [PATCH 16/58] fix: accept zero-valued bits and unstored measurements
 when calling a circuit

---
 dwave/gate/circuit.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 274b628..ee03d85 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -115,10 +115,11 @@ class Circuit:
         if len(qubits) != len(self.qubits):
             raise ValueError(f"Circuit requires {len(self.qubits)} qubits, got {len(qubits)}.")
 
-        if bits:
-            if isinstance(bits, Bit):
-                bits = [bits]
+        # NOTE: the truth value of a bit is its measured value
+        if isinstance(bits, Bit):
+            bits = [bits]
 
+        if bits:
             if len(bits) != len(self.bits):
                 raise ValueError(f"Circuit requires {len(self.bits)} bits, got {len(bits)}.")
 
@@ -134,8 +135,9 @@ class Circuit:
 
             if isinstance(op, Measurement):
                 if bits:
-                    mapped_bits = [bit_map[qb] for qb in op.bits or []]
-                    op.__class__(qubits=mapped_qubits) | mapped_bits
+                    measurement = op.__class__(qubits=mapped_qubits)
+                    if op.bits:
+                        measurement | [bit_map[bit] for bit in op.bits]
                     continue
                 else:
                     warnings.warn(
-- 
2.43.0


From 5f41d43fadd5ff11477fe1430c078f8668faf80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:51 +0000
Subject: [PATCH 17/58] fix: keep (mapped) conditionals when calling a circuit

---
 dwave/gate/circuit.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index ee03d85..62553cd 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -119,6 +119,7 @@ class Circuit:
         if isinstance(bits, Bit):
             bits = [bits]
 
+        bit_map = {}
         if bits:
             if len(bits) != len(self.bits):
                 raise ValueError(f"Circuit requires {len(self.bits)} bits, got {len(bits)}.")
@@ -138,6 +139,7 @@ class Circuit:
                     measurement = op.__class__(qubits=mapped_qubits)
                     if op.bits:
                         measurement | [bit_map[bit] for bit in op.bits]
+                    self._map_conditional(op, measurement, bit_map)
                     continue
                 else:
                     warnings.warn(
@@ -146,9 +148,18 @@ class Circuit:
                     )
 
             if isinstance(op, ParametricOperation):
-                op.__class__(op.parameters, qubits=mapped_qubits)
+                mapped_op = op.__class__(op.parameters, qubits=mapped_qubits)
             else:
-                op.__class__(qubits=mapped_qubits)
+                mapped_op = op.__class__(qubits=mapped_qubits)
+            self._map_conditional(op, mapped_op, bit_map)
+
+    @staticmethod
+    def _map_conditional(
+        op: Operation, mapped_op: Operation, bit_map: Mapping[Bit, Bit]
+    ) -> None:
+        """Conditions the mapped operation on the bits corresponding to the original ones."""
+        if op._cond:
+            mapped_op.conditional([bit_map.get(bit, bit) for bit in op._cond])
 
     @property
     def qregisters(self) -> Mapping[Hashable, QuantumRegister]:
-- 
2.43.0


From b39d0b2bd33c6a9ae871e622dfdb4209c32e9228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 18/58] fix: keep parameter values when calling a parametric
 circuit within another

---
 dwave/gate/circuit.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 62553cd..21e7b17 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -40,7 +40,7 @@ from typing import TYPE_CHECKING, Callable, ContextManager, NamedTuple, Optional
 import numpy as np
 
 from dwave.gate.mixedproperty import mixedproperty
-from dwave.gate.primitives import Bit, Qubit
+from dwave.gate.primitives import Bit, Qubit, Variable
 from dwave.gate.registers.registers import (
     ClassicalRegister,
     QuantumRegister,
@@ -148,7 +148,12 @@ class Circuit:
                     )
 
             if isinstance(op, ParametricOperation):
-                mapped_op = op.__class__(op.parameters, qubits=mapped_qubits)
+                # use the current values; variables belong to, and may be reset by, this circuit
+                parameters = [
+                    p.value if isinstance(p, Variable) and p.value is not None else p
+                    for p in op.parameters
+                ]
+                mapped_op = op.__class__(parameters, qubits=mapped_qubits)
             else:
                 mapped_op = op.__class__(qubits=mapped_qubits)
             self._map_conditional(op, mapped_op, bit_map)
@@ -738,8 +743,8 @@ class ParametricCircuit(Circuit):
             for i, var in enumerate(self._parameter_register):
                 var.set(parameters[i])
 
-        # delay reset variables function call to on context exit
-        CircuitContext.on_exit_functions.append(self.reset_variables)
+            # delay reset variables function call to on context exit
+            CircuitContext.on_exit_functions.append(self.reset_variables)
 
         return super().__call__(qubits=qubits, bits=bits)
 
-- 
2.43.0


From 949058335b4bfc52de40ea03967f7c303ca3b566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:33 +0000
Subject: [PATCH 19/58] fix: treat 0 as a set variable value

---
 dwave/gate/operations/base.py | 2 +-
 dwave/gate/primitives.py      | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index d2dd45b..7d0354f 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -401,7 +401,7 @@ class ParametricOperation(Operation):
             if isinstance(p, Variable):
                 if parameters:
                     op.parameters[i] = parameters[i]
-                elif p.value:
+                elif p.value is not None:
                     op.parameters[i] = p.value
                 else:
                     raise ValueError("No available parameter to evaluate with.")
diff --git a/dwave/gate/primitives.py b/dwave/gate/primitives.py
index 38c6721..559cda0 100644
--- a/dwave/gate/primitives.py
+++ b/dwave/gate/primitives.py
@@ -175,13 +175,13 @@ class Variable:
         """Two variables are equal if they share the same label."""
         if isinstance(object, Variable):
             return self.name == object.name
-        if self._value and self._value == object:
+        if self._value is not None and self._value == object:
             return True
         return False
 
     def __repr__(self) -> str:
         """The representation of the variable is its label."""
-        if self._value:
+        if self._value is not None:
             return str(self.value)
         return f"{{{self.name}}}"
 
-- 
2.43.0


From b951cce57f32c9987c51319a108d3aaaeb863f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:39 +0000
Subject: [PATCH 20/58] fix: do not restore variables in evaluated parametric
 controlled operations

---
 dwave/gate/operations/base.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index 7d0354f..73f868e 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -620,7 +620,6 @@ class ParametricControlledOperation(ControlledOperation, ParametricOperation):
     ):
         # ControlledOperation.__init__(self, control, target, **kwargs)
         super().__init__(control, target, parameters=parameters, **kwargs)
-        self._parameters = self._check_parameters(parameters)
 
     def __call__(
         self, control: Optional[Sequence[Qubit]] = None, target: Optional[Sequence[Qubit]] = None
-- 
2.43.0


From fdce1223ad6dfa203ce6995b778ed7676aa319a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:46 +0000
Subject: [PATCH 21/58] fix: compare parametric with non-parametric operations
 without raising

---
 dwave/gate/operations/base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index 73f868e..e5269ad 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -371,8 +371,7 @@ class ParametricOperation(Operation):
 
     def __eq__(self, op: ParametricOperation) -> bool:
         """Returns whether two operations are considered equal."""
-        param_eq = op.parameters == self.parameters
-        return param_eq and super().__eq__(op)
+        return super().__eq__(op) and op.parameters == self.parameters
 
     @property
     def parameters(self):
-- 
2.43.0


From 3fe13c76f408606f4e1dfb29fa95f2164ac2c032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:52 +0000
Subject: [PATCH 22/58] fix: do not return outdated unitaries for modified
 circuits

---
 dwave/gate/tools/unitary.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/dwave/gate/tools/unitary.py b/dwave/gate/tools/unitary.py
index 183b8f7..6ea1481 100644
--- a/dwave/gate/tools/unitary.py
+++ b/dwave/gate/tools/unitary.py
@@ -21,7 +21,6 @@ __all__ = [
 
 import itertools
 from collections.abc import Sequence
-from functools import lru_cache
 from typing import TYPE_CHECKING, Optional, Union
 
 import numpy as np
@@ -40,7 +39,6 @@ if TYPE_CHECKING:
 # TODO: exchange for something better; only here for testing matrix creation
 # for custom operations; controlled operations only works with single
 # control and target; no support for any other multi-qubit gates
-@lru_cache(maxsize=128)
 def build_unitary(circuit) -> NDArray:
     """Builds the circuit unitary by multiplying together the operation matrices.
 
-- 
2.43.0


From e01c90bbb9528d3a4124f3fa091c90a0613a4911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:57 +0000
Subject: [PATCH 23/58] fix: build unitaries of circuits with parametric
 controlled operations

---
 dwave/gate/tools/unitary.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/tools/unitary.py b/dwave/gate/tools/unitary.py
index 6ea1481..cc0233f 100644
--- a/dwave/gate/tools/unitary.py
+++ b/dwave/gate/tools/unitary.py
@@ -100,8 +100,13 @@ def _apply_controlled_gate(state: NDArray, op: ControlledOperation, qubits) -> N
     """
     control_idx = [qubits.index(c) for c in op.control or []]
     target_idx = [qubits.index(t) for t in op.target or []]
+    # parametric target operations only have a matrix together with their parameters
+    if hasattr(op, "parameters"):
+        target_unitary = op.target_operation(op.parameters).matrix
+    else:
+        target_unitary = op.target_operation.matrix
     controlled_unitary = build_controlled_unitary(
-        control_idx, target_idx, op.target_operation.matrix, len(qubits)
+        control_idx, target_idx, target_unitary, len(qubits)
     )
     return controlled_unitary @ state
 
-- 
2.43.0


From 943e0636d37da4da38565f7742ae2d5fef625177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:04 +0000
Subject: [PATCH 24/58] fix: map parameters of custom operations by variable
 instead of by occurrence

---
 dwave/gate/operations/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index e5269ad..6c0e5d3 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -133,14 +133,14 @@ def create_operation(circuit, name: Optional[str] = None) -> Type[CustomOperatio
             """
             circuit_copy = copy.deepcopy(circuit)
             if circuit.parametric:
-                parameters = self.parameters.copy()
+                # variables may be used in any order, and any number of times
+                parameters = dict(zip(circuit._parameter_register, self.parameters))
 
-                for i, op in enumerate(circuit_copy.circuit):
+                for op in circuit_copy.circuit:
                     if isinstance(op, ParametricOperation):
                         for j, param in enumerate(op.parameters):
                             if isinstance(param, Variable):
-                                circuit_copy.circuit[i].parameters[j] = parameters.pop(0)  # type: ignore
-                            self._matrix
+                                op.parameters[j] = parameters[param]  # type: ignore
 
             return build_unitary(circuit_copy)
 
-- 
2.43.0


From 7c09e78a7a6239de6a22e6f513701576bc4527c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:11 +0000
Subject: [PATCH 25/58] fix: include the parameters of parametric custom
 operations in OpenQASM

---
 dwave/gate/operations/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index 6c0e5d3..db32f87 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -118,6 +118,9 @@ def create_operation(circuit, name: Optional[str] = None) -> Type[CustomOperatio
             else:
                 new_name = self.__class__.__name__.lower()
 
+            if circuit.parametric:
+                new_name += f"({', '.join(map(str, self.parameters))})"
+
             if self.qubits:
                 qubits = ", ".join(self._map_qubits(mapping))
                 return f"{new_name} {qubits}"
-- 
2.43.0


From d5f96e6ba1510abb7560a4d9d675855b2552d89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:31 +0000
Subject: [PATCH 26/58] fix: keep control and target of controlled operations
 in line with their qubits

---
 dwave/gate/operations/base.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index db32f87..812fb0e 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -480,8 +480,8 @@ class ControlledOperation(Operation):
     ) -> None:
         qubits = kwargs.pop("qubits") if "qubits" in kwargs else False
         if qubits:
-            self._control = qubits[: self._num_control]
-            self._target = qubits[self._num_control :]
+            self._control = tuple(qubits[: self._num_control])
+            self._target = tuple(qubits[self._num_control :])
         else:
             if control:
                 self._control = tuple([control] if isinstance(control, Qubit) else control)
@@ -569,6 +569,19 @@ class ControlledOperation(Operation):
         )
         return matrix
 
+    @property
+    def qubits(self) -> Optional[tuple[Qubit, ...]]:
+        """Qubits that the operation is applied to (control followed by target)."""
+        return self._qubits
+
+    @qubits.setter
+    def qubits(self, qubits: Sequence[Qubit]) -> None:
+        """Set the qubits, and thus the control and target, of the operation."""
+        Operation.qubits.fset(self, qubits)
+        num_control = type(self)._num_control
+        self._control = self._qubits[:num_control]
+        self._target = self._qubits[num_control:]
+
     @property
     def control(self) -> Optional[tuple[Qubit]]:
         """Control qubit(s)."""
-- 
2.43.0


From a14af32ddd1891a3cafdaf1b0ac0c416457a83c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:29 +0000
Subject: [PATCH 27/58] fix: support accessing matrices of controlled
 operations in any active context

---
 dwave/gate/operations/base.py      | 25 +++++++++++++++++--------
 dwave/gate/simulator/simulator.pyx |  2 +-
 dwave/gate/tools/unitary.py        |  2 +-
 3 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index 812fb0e..7a99487 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -553,13 +553,13 @@ class ControlledOperation(Operation):
         num_qubits = getattr(cls, "num_qubits", 2)
         num_control = getattr(cls, "num_control", 1)
 
-        if CircuitContext.active_context and self.control and self.target:
-            control_idx = [
-                CircuitContext.active_context.circuit.qubits.index(c) for c in self.control
-            ]
-            target_idx = [
-                CircuitContext.active_context.circuit.qubits.index(t) for t in self.target
-            ]
+        context = CircuitContext.active_context
+        circuit_qubits = context.circuit.qubits if context else []
+        if self is not None and self.qubits and all(q in circuit_qubits for q in self.qubits):
+            # order the qubits of the operation in the same way as they're ordered in the circuit
+            ordered = sorted(self.qubits, key=circuit_qubits.index)
+            control_idx = [ordered.index(c) for c in self.control]
+            target_idx = [ordered.index(t) for t in self.target]
         else:
             control_idx = list(range(num_control))
             target_idx = list(range(num_control, num_qubits))
@@ -654,10 +654,19 @@ class ParametricControlledOperation(ControlledOperation, ParametricOperation):
 
         return self.__class__(self.parameters, control, target)  # type: ignore
 
+    def _get_target_matrix(self) -> NDArray:
+        """The matrix representation of the target operation with the current parameters."""
+        # the target operation is only used for its matrix; make sure that it's not applied
+        context, CircuitContext._active_context = CircuitContext._active_context, None
+        try:
+            return self.target_operation(self.parameters).matrix
+        finally:
+            CircuitContext._active_context = context
+
     @mixedproperty(self_required=True)
     def matrix(cls, self) -> NDArray:
         """The matrix representation of the parametric controlled operation."""
-        self._target_matrix = cls.target_operation(self.parameters).matrix
+        self._target_matrix = self._get_target_matrix()
 
         # signature of super required for correct self to be passed along (do not remove)
         # if removed, 'matrix' attribute will crash due to '_target_matrix' not found
diff --git a/dwave/gate/simulator/simulator.pyx b/dwave/gate/simulator/simulator.pyx
index 38a325c..f2ab26a 100644
--- a/dwave/gate/simulator/simulator.pyx
+++ b/dwave/gate/simulator/simulator.pyx
@@ -93,7 +93,7 @@ def apply_instruction(
     elif isinstance(op, ops.ControlledOperation):
         # should be single qubit gate with controls
         if isinstance(op, ops.ParametricOperation):
-            gate = op.target_operation(op.parameters).matrix
+            gate = op._get_target_matrix()
         else:
             gate = op.target_operation.matrix
         # the generated C code reads the matrix as row-major complex doubles
diff --git a/dwave/gate/tools/unitary.py b/dwave/gate/tools/unitary.py
index cc0233f..46b1a21 100644
--- a/dwave/gate/tools/unitary.py
+++ b/dwave/gate/tools/unitary.py
@@ -102,7 +102,7 @@ def _apply_controlled_gate(state: NDArray, op: ControlledOperation, qubits) -> N
     target_idx = [qubits.index(t) for t in op.target or []]
     # parametric target operations only have a matrix together with their parameters
     if hasattr(op, "parameters"):
-        target_unitary = op.target_operation(op.parameters).matrix
+        target_unitary = op._get_target_matrix()
     else:
         target_unitary = op.target_operation.matrix
     controlled_unitary = build_controlled_unitary(
-- 
2.43.0


From 8fd3221cbd9bcb9001728005d66767f05808908a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:42 +0000
Subject: [PATCH 28/58] fix: store items comparing equal to their index in
 registers

---
 dwave/gate/registers/cyregister.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/registers/cyregister.pyx b/dwave/gate/registers/cyregister.pyx
index c737823..2b2d0ff 100644
--- a/dwave/gate/registers/cyregister.pyx
+++ b/dwave/gate/registers/cyregister.pyx
@@ -119,7 +119,8 @@ cdef class cyRegister:
 
         idx = self._stop
 
-        if idx != v:
+        # NOTE: non-numeric items (e.g., bits) may compare equal to an index
+        if not isinstance(v, Number) or idx != v:
             self._label_to_index[v] = idx
             self._index_to_label[idx] = v
 
@@ -187,7 +188,7 @@ cdef class cyRegister:
 
                 idx = self._label_to_index.pop(old, old)
 
-                if new != idx:
+                if not isinstance(new, Number) or new != idx:
                     self._label_to_index[new] = idx
                     self._index_to_label[idx] = new  # overwrites old idx
                 else:
-- 
2.43.0


From 7491bfda8bd24c88d214627f9e4cc138cbcdb968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:50 +0000
Subject: [PATCH 29/58] fix: support freezing, and adding to, copied registers

---
 dwave/gate/registers/registers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dwave/gate/registers/registers.py b/dwave/gate/registers/registers.py
index 431a100..4456d2c 100644
--- a/dwave/gate/registers/registers.py
+++ b/dwave/gate/registers/registers.py
@@ -71,6 +71,12 @@ class Register(cyRegister, AbstractSet[Data], Sequence[Data]):
         """Freezes the register so that no (qu)bits can be added or removed."""
         self._frozen = True
 
+    def copy(self) -> Self:
+        """Return an unfrozen copy of the register."""
+        copy = super().copy()
+        copy._frozen = False
+        return copy
+
     def __str__(self) -> str:
         """Returns the data as a string."""
         return f"{self.__class__.__name__}({list(self)})"
-- 
2.43.0


From 46729e21c6037a661fc366ad90d3c7d3e3dec254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:18 +0000
Subject: [PATCH 30/58] fix: support negative, reversed and out-of-range slices
 of registers

---
 dwave/gate/registers/cyregister.pyx | 6 +-----
 dwave/gate/registers/registers.py   | 2 +-
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/dwave/gate/registers/cyregister.pyx b/dwave/gate/registers/cyregister.pyx
index 2b2d0ff..857d318 100644
--- a/dwave/gate/registers/cyregister.pyx
+++ b/dwave/gate/registers/cyregister.pyx
@@ -63,13 +63,9 @@ cdef class cyRegister:
         if not isinstance(idx, slice):
             raise TypeError(f"indices must be integers or slices, not {type(idx)}")
 
-        cdef Py_ssize_t start = 0 if idx.start is None else idx.start
-        cdef Py_ssize_t stop = self.size() if idx.stop is None else idx.stop
-        cdef Py_ssize_t step = 1 if idx.step is None else idx.step
-
         cdef Py_ssize_t i
         cdef cyRegister new = type(self)()
-        for i in range(start, stop, step):
+        for i in range(*idx.indices(self.size())):
             new._append(self.at(i), permissive=False)
         return new
 
diff --git a/dwave/gate/registers/registers.py b/dwave/gate/registers/registers.py
index 4456d2c..fe3d401 100644
--- a/dwave/gate/registers/registers.py
+++ b/dwave/gate/registers/registers.py
@@ -211,6 +211,6 @@ class SelfIncrementingRegister(Register):
         Returns:
             Hashable: The parameter at the specified index.
         """
-        if index >= len(self.data) and not self.frozen:
+        if not isinstance(index, slice) and index >= len(self.data) and not self.frozen:
             self.add([Variable(str(i)) for i in range(len(self.data), index + 1)])
         return super().__getitem__(index)  # type: ignore
-- 
2.43.0


From 428f2b0faa784aa8e8cfa2f78785ad6b490e9ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:44 +0000
Subject: [PATCH 31/58] fix: support any number as register item

---
 dwave/gate/registers/cyregister.pyx | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/registers/cyregister.pyx b/dwave/gate/registers/cyregister.pyx
index 857d318..9f233aa 100644
--- a/dwave/gate/registers/cyregister.pyx
+++ b/dwave/gate/registers/cyregister.pyx
@@ -268,6 +268,10 @@ cdef class cyRegister:
 
     cdef Py_ssize_t _count_int(self, object v) except -1:
         # only works when v is an int
+        if not 0 <= v < self._stop:
+            # cannot be an index (and might be too large to be converted to one)
+            return PyDict_Contains(self._label_to_index, v)
+
         cdef Py_ssize_t vi = v
 
         if self._is_range():
@@ -288,8 +292,11 @@ cdef class cyRegister:
 
         # handle other numeric types
         if isinstance(v, Number):
-            v_int = int(v)  # assume this is safe because it's a number
-            if v_int == v:
+            try:
+                v_int = int(v)
+            except (TypeError, ValueError, OverflowError):
+                v_int = None  # e.g., complex, nan or inf
+            if v_int is not None and v_int == v:
                 return self._count_int(v_int)  # it's an integer afterall!
 
         try:
-- 
2.43.0


From 84f01ef72008aff0894a0dfc4d028451db5d7023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:54 +0000
Subject: [PATCH 32/58] fix: compile circuits with several registers to QIR
 without mixing up qubits

---
 dwave/gate/qir/compiler.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dwave/gate/qir/compiler.py b/dwave/gate/qir/compiler.py
index c98a62b..742f4fc 100644
--- a/dwave/gate/qir/compiler.py
+++ b/dwave/gate/qir/compiler.py
@@ -365,8 +365,8 @@ def qir_module(circuit: Circuit, add_external: bool = False) -> BaseModule:
             block = "measurements"
 
             for qb, b in zip(op.qubits, op.bits):
-                _, qubit_idx = circuit.find_qubit(qb)
-                _, bit_idx = circuit.find_bit(b)
+                qubit_idx = circuit.qubits.index(qb)
+                bit_idx = circuit.bits.index(b)
                 args = (module.qubits[qubit_idx], module.results[bit_idx])
 
                 measurement_instruction = Instruction(InstrType.MEASUREMENT, pyqir_op, args)
@@ -386,8 +386,7 @@ def qir_module(circuit: Circuit, add_external: bool = False) -> BaseModule:
                 args.extend(op.parameters)
 
             for qb in op.qubits:
-                _, qubit_idx = circuit.find_qubit(qb)
-                args.append(module.qubits[qubit_idx])
+                args.append(module.qubits[circuit.qubits.index(qb)])
 
             if type_ is InstrType.EXTERNAL:
                 body_instruction = module.get_external_instruction(pyqir_op, args)
-- 
2.43.0


From 5975f287079aa2528df20712af7a149b141adc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:02 +0000
Subject: [PATCH 33/58] fix: ignore identity operations when compiling to QIR

---
 dwave/gate/qir/compiler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/qir/compiler.py b/dwave/gate/qir/compiler.py
index 742f4fc..70b6f46 100644
--- a/dwave/gate/qir/compiler.py
+++ b/dwave/gate/qir/compiler.py
@@ -361,7 +361,10 @@ def qir_module(circuit: Circuit, add_external: bool = False) -> BaseModule:
             module.add_external_function(pyqir_op, parameter_types=parameter_types)
 
         args = []
-        if type_ is InstrType.MEASUREMENT:
+        if type_ is InstrType.SKIP:
+            continue
+
+        elif type_ is InstrType.MEASUREMENT:
             block = "measurements"
 
             for qb, b in zip(op.qubits, op.bits):
-- 
2.43.0


From cc6cc2b0af66591ff5c64b58f374cee3098e4ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:10 +0000
Subject: [PATCH 34/58] fix: declare external QIR functions with parameters in
 argument order

---
 dwave/gate/qir/compiler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/qir/compiler.py b/dwave/gate/qir/compiler.py
index 70b6f46..f8baeb7 100644
--- a/dwave/gate/qir/compiler.py
+++ b/dwave/gate/qir/compiler.py
@@ -356,7 +356,8 @@ def qir_module(circuit: Circuit, add_external: bool = False) -> BaseModule:
             param_type = module.Types.DOUBLE
 
             num_parameters = getattr(op, "num_parameters", 0)
-            parameter_types = [qubit_type] * op.num_qubits + [param_type] * num_parameters
+            # same order as the arguments: parameters followed by qubits
+            parameter_types = [param_type] * num_parameters + [qubit_type] * op.num_qubits
 
             module.add_external_function(pyqir_op, parameter_types=parameter_types)
 
-- 
2.43.0


From c697d1407e7569d2533c9944656255b8f78c90be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:58 +0000
Subject: [PATCH 35/58] fix: accept integer parameters when compiling external
 operations to QIR

---
 dwave/gate/qir/compiler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/qir/compiler.py b/dwave/gate/qir/compiler.py
index f8baeb7..5094391 100644
--- a/dwave/gate/qir/compiler.py
+++ b/dwave/gate/qir/compiler.py
@@ -26,6 +26,7 @@ __all__ = [
 
 from collections.abc import Sequence
 from dataclasses import dataclass
+from numbers import Real
 from typing import TYPE_CHECKING, Optional
 
 import pyqir
@@ -387,7 +388,8 @@ def qir_module(circuit: Circuit, add_external: bool = False) -> BaseModule:
 
             # if isinstance(op, ParametricOperation):
             if hasattr(op, "parameters"):
-                args.extend(op.parameters)
+                # parameters are QIR doubles; anything else (e.g. unset variables) is invalid
+                args.extend(float(p) if isinstance(p, Real) else p for p in op.parameters)
 
             for qb in op.qubits:
                 args.append(module.qubits[circuit.qubits.index(qb)])
-- 
2.43.0


From bab96324f07d8566fd3dcab0fb69d4a30370ae65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:06 +0000
Subject: [PATCH 36/58] fix: load QIR operations with several parameters

---
 dwave/gate/qir/loader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/qir/loader.py b/dwave/gate/qir/loader.py
index 3e84ab0..77cea29 100644
--- a/dwave/gate/qir/loader.py
+++ b/dwave/gate/qir/loader.py
@@ -124,7 +124,8 @@ def _module_to_circuit(module: Module, circuit: Optional[Circuit] = None) -> Cir
 
                     circuit.unlock()
                     with circuit.context as reg:
-                        getattr(ops, op_name)(*params, qubits=[reg.q[qubit] for qubit in qubits])
+                        args = [params] if params else []
+                        getattr(ops, op_name)(*args, qubits=[reg.q[qubit] for qubit in qubits])
 
     # finally, add measurements (if any) to circuit
     if meas_qubits:
-- 
2.43.0


From fb0ad1815a73b18584ed26f61db722a6a2f7592c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:14 +0000
Subject: [PATCH 37/58] fix: keep the order of measurements and operations, and
 add measured qubits, when loading QIR

---
 dwave/gate/qir/loader.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/qir/loader.py b/dwave/gate/qir/loader.py
index 77cea29..340f2ea 100644
--- a/dwave/gate/qir/loader.py
+++ b/dwave/gate/qir/loader.py
@@ -116,9 +116,14 @@ def _module_to_circuit(module: Module, circuit: Optional[Circuit] = None) -> Cir
                     if op_name == "Measurement":
                         meas_qubits.extend(qubits)
                         meas_bits.extend(bits)
-                        # delay adding until all measurements are collected
+                        # delay adding until all consecutive measurements are collected
                         continue
 
+                    if meas_qubits:
+                        # keep the order in which measurements and operations are applied
+                        _add_measurements(circuit, meas_qubits, meas_bits)
+                        meas_qubits, meas_bits = [], []
+
                     for _ in range(circuit.num_qubits, max(qubits or [0]) + 1):
                         circuit.add_qubit()
 
@@ -127,7 +132,7 @@ def _module_to_circuit(module: Module, circuit: Optional[Circuit] = None) -> Cir
                         args = [params] if params else []
                         getattr(ops, op_name)(*args, qubits=[reg.q[qubit] for qubit in qubits])
 
-    # finally, add measurements (if any) to circuit
+    # finally, add remaining measurements (if any) to circuit
     if meas_qubits:
         _add_measurements(circuit, meas_qubits, meas_bits)
 
@@ -142,6 +147,9 @@ def _add_measurements(circuit: Circuit, qubits: Sequence[int], bits: Sequence[in
         qubits: The qubits that are being measured.
         bits: The bits in which the measurement values are stored.
     """
+    for _ in range(circuit.num_qubits, max(qubits or [0]) + 1):
+        circuit.add_qubit()
+
     for _ in range(circuit.num_bits, max(bits or [0]) + 1):
         circuit.add_bit()
 
-- 
2.43.0


From 5d67cfc492c15e00d31588d5f2cf531be7360f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:31 +0000
Subject: [PATCH 38/58] fix: declare external QIR functions only once

---
 dwave/gate/qir/compiler.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/qir/compiler.py b/dwave/gate/qir/compiler.py
index 5094391..9a8d5bd 100644
--- a/dwave/gate/qir/compiler.py
+++ b/dwave/gate/qir/compiler.py
@@ -352,7 +352,12 @@ def qir_module(circuit: Circuit, add_external: bool = False) -> BaseModule:
     block = "body"
     for op in circuit.circuit:
         type_, pyqir_op = Operations.to_qir.get(op.__class__.name, (None, None))
-        if add_external and type_ is InstrType.EXTERNAL:
+        if (
+            add_external
+            and type_ is InstrType.EXTERNAL
+            and pyqir_op not in module._external_functions
+        ):
+            # declare each external function only once
             qubit_type = module.Types.QUBIT
             param_type = module.Types.DOUBLE
 
-- 
2.43.0


From 4f9b380d7df701d1ffeb0e91169c74add294150f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:03 +0000
Subject: [PATCH 39/58] fix: keep external instructions when recompiling, and
 allow resetting at any time

---
 dwave/gate/qir/compiler.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/dwave/gate/qir/compiler.py b/dwave/gate/qir/compiler.py
index 9a8d5bd..5982be1 100644
--- a/dwave/gate/qir/compiler.py
+++ b/dwave/gate/qir/compiler.py
@@ -304,8 +304,9 @@ class BaseModule:
             rm_instructions: Whether to also reset all instructions.
         """
         self._module = pyqir.qir_module(self.context, self.name, **self._module_kwargs)
-        self._remove_external_instructions()
-        self._return.erase()
+        if self._return is not None:
+            self._return.erase()
+            self._return = None
 
         if rm_instructions:
             for key in self._instructions:
@@ -324,17 +325,20 @@ class BaseModule:
                 self._external_functions[name] = pyqir.Function(
                     function_type, Linkage.EXTERNAL, exfunc.name, self._module
                 )
+            self._update_external_instructions()
 
         self._is_compiled = False
         self._qir = self._bitcode = None
 
-    def _remove_external_instructions(self) -> None:
-        """Removes all external functions from the instructions."""
+    def _update_external_instructions(self) -> None:
+        """Updates all external instructions to use the current external functions."""
         for block, instructions in self._instructions.items():
-            instr_len = len(instructions)
-            for i, instr in enumerate(reversed(instructions)):
-                if instr.type is InstrType.EXTERNAL:
-                    del self._instructions[block][instr_len - i - 1]
+            self._instructions[block] = [
+                self.get_external_instruction(instr.name, instr.args)
+                if instr.type is InstrType.EXTERNAL
+                else instr
+                for instr in instructions
+            ]
 
 
 def qir_module(circuit: Circuit, add_external: bool = False) -> BaseModule:
-- 
2.43.0


From f062b8cad6926af66cccde9bdcf68a5c2c43ba53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:00 +0000
Subject: [PATCH 40/58] fix: declare each gate only once in OpenQASM

---
 dwave/gate/circuit.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 21e7b17..19439a1 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -663,9 +663,13 @@ class Circuit:
                 label = f"q{label}" if len(self.qregisters) != 1 else "q"
             mapping[qb] = label, idx
 
+        declarations = set()
         for op in self.circuit:
-            if gate_definitions and hasattr(op, "_qasm_decl"):
-                header_str += "\n" + getattr(op, "_qasm_decl") + "\n"
+            declaration = getattr(op, "_qasm_decl", None)
+            if gate_definitions and declaration and declaration not in declarations:
+                # a gate can only be declared once
+                declarations.add(declaration)
+                header_str += "\n" + declaration + "\n"
             qasm_str += op.to_qasm(mapping) + ";\n"
 
         return header_str.strip() + "\n\n" + qasm_str.strip()
-- 
2.43.0


From dac8804fc896bed1fbe7d451cf3fa76d03948d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:30 +0000
Subject: [PATCH 41/58] fix: search only the given register when its label is
 falsy

---
 dwave/gate/circuit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 19439a1..4048cd5 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -516,7 +516,7 @@ class Circuit:
             Qubit: Qubit with the specified label. If there are several with the same name,
             only the first occuring qubit will be returned unless ``return_all`` is ``True``.
         """
-        if qreg_label:
+        if qreg_label is not None:
             qregisters = self.qregisters[qreg_label]
         else:
             qregisters = itertools.chain.from_iterable(self.qregisters.values())
@@ -572,7 +572,7 @@ class Circuit:
             Bit: Bit with the specified label. If there are several with the same name,
             only the first occuring bit will be returned unless ``return_all`` is ``True``.
         """
-        if creg_label:
+        if creg_label is not None:
             cregisters = self.cregisters[creg_label]
         else:
             cregisters = itertools.chain.from_iterable(self.cregisters.values())
-- 
2.43.0


From 855de3c0f64e0efb7a54f38867c03280f92d0f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:55 +0000
Subject: [PATCH 42/58] fix: do not silently export conditional operations as
 unconditional ones

---
 dwave/gate/circuit.py      | 2 ++
 dwave/gate/qir/compiler.py | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 4048cd5..9445aac 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -670,6 +670,8 @@ class Circuit:
                 # a gate can only be declared once
                 declarations.add(declaration)
                 header_str += "\n" + declaration + "\n"
+            if op._cond:
+                raise NotImplementedError("Conditional operations not supported in OpenQASM export.")
             qasm_str += op.to_qasm(mapping) + ";\n"
 
         return header_str.strip() + "\n\n" + qasm_str.strip()
diff --git a/dwave/gate/qir/compiler.py b/dwave/gate/qir/compiler.py
index 5982be1..26c63b3 100644
--- a/dwave/gate/qir/compiler.py
+++ b/dwave/gate/qir/compiler.py
@@ -355,6 +355,9 @@ def qir_module(circuit: Circuit, add_external: bool = False) -> BaseModule:
 
     block = "body"
     for op in circuit.circuit:
+        if op._cond:
+            raise NotImplementedError("Conditional operations not supported when compiling to QIR.")
+
         type_, pyqir_op = Operations.to_qir.get(op.__class__.name, (None, None))
         if (
             add_external
-- 
2.43.0


From d0a521b75c455c9cce05e524eddbeee62daf6230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:26 +0000
Subject: [PATCH 43/58] fix: keep the indices of a circuit's qubits and bits
 when loading QIR into it

---
 dwave/gate/qir/loader.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/dwave/gate/qir/loader.py b/dwave/gate/qir/loader.py
index 340f2ea..5b326a8 100644
--- a/dwave/gate/qir/loader.py
+++ b/dwave/gate/qir/loader.py
@@ -124,8 +124,7 @@ def _module_to_circuit(module: Module, circuit: Optional[Circuit] = None) -> Cir
                         _add_measurements(circuit, meas_qubits, meas_bits)
                         meas_qubits, meas_bits = [], []
 
-                    for _ in range(circuit.num_qubits, max(qubits or [0]) + 1):
-                        circuit.add_qubit()
+                    _add_missing_qubits(circuit, qubits)
 
                     circuit.unlock()
                     with circuit.context as reg:
@@ -139,6 +138,19 @@ def _module_to_circuit(module: Module, circuit: Optional[Circuit] = None) -> Cir
     return circuit
 
 
+def _add_missing_qubits(circuit: Circuit, qubits: Sequence[int]) -> None:
+    """Add qubits to the circuit until all qubit indices exist.
+
+    Args:
+        circuit: The circuit to add the qubits to.
+        qubits: The qubit indices which are used.
+    """
+    # use the last register to not change the indices of the qubits already in the circuit
+    qreg_label = next(reversed(circuit.qregisters), None)
+    for _ in range(circuit.num_qubits, max(qubits or [0]) + 1):
+        circuit.add_qubit(qreg_label=qreg_label)
+
+
 def _add_measurements(circuit: Circuit, qubits: Sequence[int], bits: Sequence[int]) -> None:
     """Add measurements to circuit.
 
@@ -147,11 +159,12 @@ def _add_measurements(circuit: Circuit, qubits: Sequence[int], bits: Sequence[in
         qubits: The qubits that are being measured.
         bits: The bits in which the measurement values are stored.
     """
-    for _ in range(circuit.num_qubits, max(qubits or [0]) + 1):
-        circuit.add_qubit()
+    _add_missing_qubits(circuit, qubits)
 
+    # use the last register to not change the indices of the bits already in the circuit
+    creg_label = next(reversed(circuit.cregisters), None)
     for _ in range(circuit.num_bits, max(bits or [0]) + 1):
-        circuit.add_bit()
+        circuit.add_bit(creg_label=creg_label)
 
     circuit.unlock()
     with circuit.context as reg:
-- 
2.43.0


From b628f27b3bc1af1c3d7a1564422c29f0f5355c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:03 +0000
Subject: [PATCH 44/58] fix: reset the variables of a parametric circuit also
 if calling it fails

---
 dwave/gate/circuit.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 9445aac..33f6128 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -746,12 +746,13 @@ class ParametricCircuit(Circuit):
             CircuitError: If called outside of an active context.
         """
         if CircuitContext.active_context:
+            # delay reset variables function call to on context exit; must be
+            # added first so that variables are also reset if the call fails
+            CircuitContext.on_exit_functions.append(self.reset_variables)
+
             for i, var in enumerate(self._parameter_register):
                 var.set(parameters[i])
 
-            # delay reset variables function call to on context exit
-            CircuitContext.on_exit_functions.append(self.reset_variables)
-
         return super().__call__(qubits=qubits, bits=bits)
 
     def unlock(self) -> None:
-- 
2.43.0


From 4310b7b7fd30e6c7a452d0c32504ac2310fad41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:40 +0000
Subject: [PATCH 45/58] fix: recognize register items equal to complex numbers

---
 dwave/gate/registers/cyregister.pyx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dwave/gate/registers/cyregister.pyx b/dwave/gate/registers/cyregister.pyx
index 9f233aa..40bd6fb 100644
--- a/dwave/gate/registers/cyregister.pyx
+++ b/dwave/gate/registers/cyregister.pyx
@@ -293,9 +293,9 @@ cdef class cyRegister:
         # handle other numeric types
         if isinstance(v, Number):
             try:
-                v_int = int(v)
-            except (TypeError, ValueError, OverflowError):
-                v_int = None  # e.g., complex, nan or inf
+                v_int = int(v.real)  # complex numbers may be integers too
+            except (AttributeError, TypeError, ValueError, OverflowError):
+                v_int = None  # e.g., nan or inf
             if v_int is not None and v_int == v:
                 return self._count_int(v_int)  # it's an integer afterall!
 
@@ -327,7 +327,7 @@ cdef class cyRegister:
             raise ValueError('unknown register item {!r}'.format(v))
 
         if self._is_range():
-            return v if PyLong_Check(v) else int(v)
+            return v if PyLong_Check(v) else int(v.real)
 
         # faster than self._label_to_index.get
         cdef PyObject* obj = PyDict_GetItemWithError(self._label_to_index, v)
@@ -336,7 +336,7 @@ cdef class cyRegister:
         else:
             pyobj = <object>obj  # correctly updates ref count
 
-        return pyobj if PyLong_Check(pyobj) else int(pyobj)
+        return pyobj if PyLong_Check(pyobj) else int(pyobj.real)
 
     cdef Py_ssize_t size(self):
         """The number of register items.
-- 
2.43.0


From e1fd23e0ae4c9acf5c496f88ef5d4f1079b08ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:35 +0000
Subject: [PATCH 46/58] fix: do not skip relabelling of items comparing equal
 to their new label

---
 dwave/gate/registers/cyregister.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dwave/gate/registers/cyregister.pyx b/dwave/gate/registers/cyregister.pyx
index 40bd6fb..55ab98b 100644
--- a/dwave/gate/registers/cyregister.pyx
+++ b/dwave/gate/registers/cyregister.pyx
@@ -179,8 +179,8 @@ cdef class cyRegister:
         """
         for submap in _iter_safe_relabels(mapping, self):
             for old, new in submap.items():
-                if old == new:
-                    continue
+                if old is new:
+                    continue  # NOTE: different items (e.g., bits and numbers) may compare equal
 
                 idx = self._label_to_index.pop(old, old)
 
@@ -414,7 +414,7 @@ def _resolve_label_conflict(mapping, existing, old_labels=None, new_labels=None)
     intermediate_to_new = {}
 
     for old, new in mapping.items():
-        if old == new:
+        if old is new:
             # we can remove self-labels
             continue
 
-- 
2.43.0


From cbdc933ab2c12e45fb90313a19dc470e03d1d651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:49 +0000
Subject: [PATCH 47/58] fix: declare CRotation in OpenQASM gate definitions

---
 dwave/gate/operations/operations.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/operations/operations.py b/dwave/gate/operations/operations.py
index beac11c..e10d416 100644
--- a/dwave/gate/operations/operations.py
+++ b/dwave/gate/operations/operations.py
@@ -699,7 +699,10 @@ class CRotation(ParametricControlledOperation):
 
     _target_operation: Type[Operation] = Rotation
 
-    _qasm_decl: str = "// gate definition not implemented"
+    _qasm_decl: str = (
+        "gate crot(beta, gamma, delta) c, t { crz(beta) c, t; "
+        "ry(gamma/2) t; cx c, t; ry(-gamma/2) t; cx c, t; crz(delta) c, t; }"
+    )
 
     def to_qasm(self, mapping: Optional[Mapping] = None) -> str:
         """Converts the Controlled-Rotation operation into an OpenQASM string.
-- 
2.43.0


From af03b1c4f6443b4636ec3385cdae3361d72d9919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:03 +0000
Subject: [PATCH 48/58] fix: check the number of qubits passed to controlled
 operations

---
 dwave/gate/operations/base.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index 7a99487..55e8159 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -215,9 +215,11 @@ class Operation(metaclass=ABCLockedAttr):
         if isinstance(qubits, Qubit):
             qubits = [qubits]
 
-        if cls._num_qubits is not None and len(qubits) != cls.num_qubits:
+        # operations supporting an arbitrary number of qubits have no 'num_qubits' class attribute
+        num_qubits = getattr(cls, "num_qubits", None)
+        if num_qubits is not None and len(qubits) != num_qubits:
             raise ValueError(
-                f"Operation '{cls.name}' requires " f"{cls.num_qubits} qubits, got {len(qubits)}."
+                f"Operation '{cls.name}' requires " f"{num_qubits} qubits, got {len(qubits)}."
             )
 
         # cast to tuple for convention
@@ -527,7 +529,7 @@ class ControlledOperation(Operation):
     @mixedproperty
     def num_qubits(cls, self) -> int:
         """Number of qubits that the operation supports."""
-        if not cls._num_qubits and cls.num_control and cls.num_target:
+        if "_num_qubits" not in cls.__dict__ and cls.num_control and cls.num_target:
             cls._num_qubits = cls.num_control + cls.num_target
 
         if self is not None:
-- 
2.43.0


From 0f8edd80b5fb435f0251d81ba8394a7b58db2d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:13 +0000
Subject: [PATCH 49/58] fix: compare parametric operations with custom
 operations of the same name

---
 dwave/gate/operations/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index 55e8159..d7c610d 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -376,7 +376,8 @@ class ParametricOperation(Operation):
 
     def __eq__(self, op: ParametricOperation) -> bool:
         """Returns whether two operations are considered equal."""
-        return super().__eq__(op) and op.parameters == self.parameters
+        # operations of other classes may share the name without having any parameters
+        return super().__eq__(op) and getattr(op, "parameters", None) == self.parameters
 
     @property
     def parameters(self):
-- 
2.43.0


From e5f801d7fe9e0977cc92fa69514ff4d2cd1346e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:31 +0000
Subject: [PATCH 50/58] fix: a failed QIR compilation leaves no program in the
 module

---
 dwave/gate/qir/compiler.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/dwave/gate/qir/compiler.py b/dwave/gate/qir/compiler.py
index 26c63b3..f234cb0 100644
--- a/dwave/gate/qir/compiler.py
+++ b/dwave/gate/qir/compiler.py
@@ -147,13 +147,18 @@ class BaseModule:
                 )
             self.reset(rm_instructions=False)
 
-        self._compile()
+        try:
+            self._compile()
 
-        self._return = self.builder.ret(self._return_cmd)
+            self._return = self.builder.ret(self._return_cmd)
 
-        error_msg = self._module.verify()
-        if error_msg is not None and strict:
-            raise CompileError(error_msg)
+            error_msg = self._module.verify()
+            if error_msg is not None and strict:
+                raise CompileError(error_msg)
+        except Exception:
+            # don't leave an incomplete program in the module
+            self.reset(rm_instructions=False)
+            raise
 
         self._qir = str(self._module)
         self._bitcode = self._module.bitcode
-- 
2.43.0


From da01174a49af3ab3ff0eae539ebcff72f496059b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:02 +0000
Subject: [PATCH 51/58] fix: use unique names for the gate matrix entries in
 generated code

---
 dwave/gate/simulator/operation_generation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/gate/simulator/operation_generation.py b/dwave/gate/simulator/operation_generation.py
index 5449852..651bb26 100644
--- a/dwave/gate/simulator/operation_generation.py
+++ b/dwave/gate/simulator/operation_generation.py
@@ -213,7 +213,7 @@ def generate_op_c_code(
         )
     else:
         gate_values = [
-            [c.Value(amplitude_t, f"gate_value{i}{j}") for j in range(gate_matrix_size)]
+            [c.Value(amplitude_t, f"gate_value{i}_{j}") for j in range(gate_matrix_size)]
             for i in range(gate_matrix_size)
         ]
         inits.extend(
-- 
2.43.0


From 581db42a0a43330232d247b33a2d864123614bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:36 +0000
Subject: [PATCH 52/58] fix: support complex and integer gates in generated
 code

---
 dwave/gate/simulator/operation_generation.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/simulator/operation_generation.py b/dwave/gate/simulator/operation_generation.py
index 651bb26..cb63be6 100644
--- a/dwave/gate/simulator/operation_generation.py
+++ b/dwave/gate/simulator/operation_generation.py
@@ -26,6 +26,16 @@ def binary(i: int, n: int) -> Tuple[int, ...]:
     return tuple((i >> j) & 1 for j in range(n))
 
 
+def c_entry(value: Union[str, complex]) -> str:
+    """Return the C expression for an entry of a gate matrix (either a number or a C variable)."""
+    if isinstance(value, str):
+        return value
+    if np.iscomplexobj(value):
+        return f"std::complex<double>({float(value.real)!r}, {float(value.imag)!r})"
+    # std::complex<double> can only be multiplied with doubles
+    return repr(float(value))
+
+
 def compile_gate(
     gate_matrix: Union[np.ndarray, List[List[EntryType]]],
     skip_identity: bool = True,
@@ -280,7 +290,7 @@ def generate_op_c_code(
             if val == 1:
                 terms.append(amps[state_j].name)
             elif val != 0:
-                terms.append(f"({val} * {amps[state_j].name})")
+                terms.append(f"({c_entry(val)} * {amps[state_j].name})")
 
         if len(terms) == 0:
             return "0.0"
-- 
2.43.0


From b9f5bc94b239bd29bc23947fb679a6313ac73327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:21 +0000
Subject: [PATCH 53/58] fix: raise instead of ignoring conditionals when
 building unitaries

---
 dwave/gate/tools/unitary.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dwave/gate/tools/unitary.py b/dwave/gate/tools/unitary.py
index 46b1a21..16d37fb 100644
--- a/dwave/gate/tools/unitary.py
+++ b/dwave/gate/tools/unitary.py
@@ -52,6 +52,9 @@ def build_unitary(circuit) -> NDArray:
     # apply operations from first to last (the order in which they're
     # applied within the context, stored sequentially in the circuit)
     for op in circuit.circuit:
+        # whether the operation is applied depends on the bits, i.e., it has no fixed matrix
+        if getattr(op, "_cond", None):
+            raise ValueError(f"Cannot build unitary for conditional operation '{op.name}'.")
         # check if controlled operation; cannot check isinstance
         # 'Controlled' due to circular import issue
         if hasattr(op, "control"):
-- 
2.43.0


From a29b160fb710378070bcb7bc6061ab48bc8b9e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:52 +0000
Subject: [PATCH 54/58] fix: reject qubits not part of the state when sampling

---
 dwave/gate/simulator/simulator.pyx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dwave/gate/simulator/simulator.pyx b/dwave/gate/simulator/simulator.pyx
index f2ab26a..2a62188 100644
--- a/dwave/gate/simulator/simulator.pyx
+++ b/dwave/gate/simulator/simulator.pyx
@@ -205,6 +205,11 @@ def sample_qubit(
     """
     cdef int num_qubits = round(np.log2(state.shape[0]))
 
+    if not 0 <= qubit < num_qubits:
+        raise ValueError(
+            f"Cannot sample qubit {qubit} (count. from 0). State has only {num_qubits} qubits."
+        )
+
     if state.ndim == 2:
         return _sample_qubit_density_matrix(
             num_qubits, state, qubit, rng, little_endian, collapse_state
-- 
2.43.0


From 95bf81786355d84a089f0779b5e4f7c225d3087c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:44 +0000
Subject: [PATCH 55/58] fix: compare QIR instructions with constant parameters
 and with other objects

---
 dwave/gate/qir/instructions.py | 41 +++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/dwave/gate/qir/instructions.py b/dwave/gate/qir/instructions.py
index 143edf9..ffeef57 100644
--- a/dwave/gate/qir/instructions.py
+++ b/dwave/gate/qir/instructions.py
@@ -190,27 +190,20 @@ class Instruction:
         Two instructions are considered equal if they have the same name, type,
         number of qubits and number of results.
         """
+        if not isinstance(value, Instruction):
+            return NotImplemented
+
         eq_name = self.name == value.name
         eq_type = self.type == value.type
 
-        num_qubits_self = [
-            a.type.pointee.name == "Qubit" for a in self.args if isinstance(a, pyqir.Constant)
-        ].count(True)
-
-        num_qubits_value = [
-            a.type.pointee.name == "Qubit" for a in value.args if isinstance(a, pyqir.Constant)
-        ].count(True)
+        num_qubits_self = self._count_pointers("Qubit")
+        num_qubits_value = value._count_pointers("Qubit")
 
-        num_results_self = [
-            a.type.pointee.name == "Result" for a in self.args if isinstance(a, pyqir.Constant)
-        ].count(True)
+        num_results_self = self._count_pointers("Result")
+        num_results_value = value._count_pointers("Result")
 
-        num_results_value = [
-            a.type.pointee.name == "Result" for a in value.args if isinstance(a, pyqir.Constant)
-        ].count(True)
-
-        parameters_self = [a for a in self.args if isinstance(a, (int, float))]
-        parameters_value = [a for a in value.args if isinstance(a, (int, float))]
+        parameters_self = self._get_parameters()
+        parameters_value = value._get_parameters()
 
         eq_qubits = num_qubits_self == num_qubits_value
         eq_results = num_results_self == num_results_value
@@ -219,3 +212,19 @@ class Instruction:
         if eq_name and eq_type and eq_qubits and eq_results and eq_parameters:
             return True
         return False
+
+    def _count_pointers(self, name: str) -> int:
+        """Number of arguments which are pointers to a type with the given name."""
+        # constants may be of any type, e.g., doubles, and not only pointers to qubits and results
+        types = [arg.type for arg in self.args if isinstance(arg, pyqir.Constant)]
+        pointees = [type_.pointee for type_ in types if isinstance(type_, pyqir.PointerType)]
+        return [getattr(pointee, "name", None) for pointee in pointees].count(name)
+
+    def _get_parameters(self) -> Sequence[Union[int, float]]:
+        """The numerical arguments, passed either as numbers or as constants."""
+        constants = (pyqir.IntConstant, pyqir.FloatConstant)
+        return [
+            arg.value if isinstance(arg, constants) else arg
+            for arg in self.args
+            if isinstance(arg, (int, float, *constants))
+        ]
-- 
2.43.0


From d69d79c364cca504785c166e8859def63c4787ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:58 +0000
Subject: [PATCH 56/58] fix: set the number of qubits when setting the qubits
 of an operation

---
 dwave/gate/operations/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index d7c610d..c2881b5 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -312,6 +312,9 @@ class Operation(metaclass=ABCLockedAttr):
                 f"Changing qubits on which '{self}' is applied from {self._qubits} to {qubits}"
             )
         self._qubits = self._check_qubits(qubits)
+        # set num_qubits to the actual number of qubits, if the operation supports any number
+        if self.__class__._num_qubits is None:
+            self._num_qubits = len(self._qubits)
 
     @property
     def is_blocked(self) -> bool:
-- 
2.43.0


From ea567fd4a0d4aa82d8eecd0a8f42db2f1bd6be7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:29 +0000
Subject: [PATCH 57/58] fix: do not add missing items to frozen registers when
 looking up their index

---
 dwave/gate/registers/registers.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/dwave/gate/registers/registers.py b/dwave/gate/registers/registers.py
index fe3d401..ee9a73d 100644
--- a/dwave/gate/registers/registers.py
+++ b/dwave/gate/registers/registers.py
@@ -98,6 +98,21 @@ class Register(cyRegister, AbstractSet[Data], Sequence[Data]):
         copy._extend(qreg)
         return copy
 
+    def index(self, item: Data, permissive: bool = False) -> int:
+        """Return the index of an item.
+
+        Args:
+            item: Item to look up.
+            permissive: If ``True``, a missing item will be added to the register.
+
+        Returns:
+            int: The index of the item in the register.
+        """
+        if permissive and self.frozen and item not in self:
+            raise RegisterError("Register is frozen and no more data can be added.")
+
+        return super().index(item, permissive=permissive)
+
     def add(self, data: Union[Hashable, Sequence[Hashable], Register]) -> None:
         """Add one or more data items to the register.
 
-- 
2.43.0


From a3bbd63ab5e309892fee5b5efa4798c157eaddfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:06 +0000
Subject: [PATCH 58/58] fix: do not fail to create variables when their names
 are in use in the register

---
 dwave/gate/registers/registers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/registers/registers.py b/dwave/gate/registers/registers.py
index ee9a73d..c0d4b3e 100644
--- a/dwave/gate/registers/registers.py
+++ b/dwave/gate/registers/registers.py
@@ -22,6 +22,7 @@ __all__ = [
     "SelfIncrementingRegister",
 ]
 
+import itertools
 from collections.abc import Hashable, Iterator, Sequence
 from typing import TYPE_CHECKING, AbstractSet, Optional, TypeVar, Union
 
@@ -227,5 +228,8 @@ class SelfIncrementingRegister(Register):
             Hashable: The parameter at the specified index.
         """
         if not isinstance(index, slice) and index >= len(self.data) and not self.frozen:
-            self.add([Variable(str(i)) for i in range(len(self.data), index + 1)])
+            # name new variables after their indices, but skip names which are already in use
+            variables = (Variable(str(i)) for i in itertools.count(len(self.data)))
+            unused = (v for v in variables if v not in self)
+            self.add(list(itertools.islice(unused, index + 1 - len(self.data))))
         return super().__getitem__(index)  # type: ignore
-- 
2.43.0


From a9c2fe04d0f04144c94e8372693c89bebc4049a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:01 +0000
Subject: [PATCH 01/42] fix: undo basis change after measuring logical
 operators for state preparation

Measuring a logical operator with X factors without a logical ancilla rotated
its data qubits with a Hadamard gate and never rotated them back.  The prepared
state was then not an eigenstate of the measured logical operator, so that the
logical toggle of a noise-free simulation was random.
---
 src/plaquette/circuit/generator.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/plaquette/circuit/generator.py b/src/plaquette/circuit/generator.py
index 60cf239..08365ea 100644
--- a/src/plaquette/circuit/generator.py
+++ b/src/plaquette/circuit/generator.py
@@ -265,6 +265,28 @@ class QECCircuitGenerator:
             else:
                 self.measure_op(op, with_errors=False)
 
+    def prepare_logical_ops(self, logop_indices: Sequence[int]):
+        """Prepare eigenstates of logical operators by measuring them.
+
+        When no logical ancilla is used, :meth:`measure_logical_ops` leaves the data
+        qubits of ``X`` factors rotated by a Hadamard gate. Here, the rotation is
+        undone such that the data qubits are left in the measured eigenstate.
+
+        Args:
+            logop_indices:
+                Specifies which logical operators should be measured (see
+                :meth:`measure_logical_ops`).
+        """
+        for i in logop_indices:
+            self.measure_logical_ops([i])
+            if self.logical_ancilla:
+                continue
+            for edge in self.lat.logical_ops[i].edges:
+                if edge.factor == lattice.Pauli.X:
+                    self.apply_gate_and_error(
+                        "H", edge.data.equbit_idx, None, with_errors=False
+                    )
+
     def measure_stabgens(self, with_errors: bool):
         """Measure all stabilizer generators sequentially or in parallel.
 
@@ -355,7 +377,7 @@ class QECCircuitGenerator:
         if lcomm.any():
             raise ValueError("Some measured logical operators do not commute")
         # Measure logical operators for state preparation
-        self.measure_logical_ops(logop_indices)
+        self.prepare_logical_ops(logop_indices)
         # Measure stabilizer generators for state preparation (without errors)
         self.measure_stabgens(with_errors=False)
         for _ in range(self.code.n_rounds - 1):
-- 
2.43.0


From 0be3c4a528fb228cb3c556d47cb7011b7af229c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:03 +0000
Subject: [PATCH 02/42] fix: split results of logical operators with different
 weights correctly

The number of results of each logical operator was taken from the weight of the
first logical operator of the code.  For codes whose logical operators differ in
weight (e.g. logical Z of the repetition code), results were split wrongly or
splitting failed.
---
 src/plaquette/device/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/plaquette/device/__init__.py b/src/plaquette/device/__init__.py
index d99abf0..566050e 100644
--- a/src/plaquette/device/__init__.py
+++ b/src/plaquette/device/__init__.py
@@ -233,8 +233,11 @@ class MeasurementSample:
                 via additional ancilla that is entangled with several physical qubits
         """
         if not logical_ancilla:
-            # Default behavior
-            code_distance = count_qubits(code.logical_ops, include_identities=False)[0]
+            # Default behavior: Each logical operator contributes one result for each
+            # data qubit it acts on (before and after QEC).
+            n_stab_results = (code.n_rounds + 1) * code.n_stabgens
+            n_logical_results = (len(raw_results) - n_stab_results) // 2
+            code_distance = n_logical_results // code.n_logical_qubits
 
             logical_op_initial = np.array(
                 [
-- 
2.43.0


From dd83a7788979f1ead174ce6531e288d50cf8f80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:07 +0000
Subject: [PATCH 03/42] fix: keep the backend when the same circuit builder is
 run again

---
 src/plaquette/device/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/plaquette/device/__init__.py b/src/plaquette/device/__init__.py
index 566050e..4f323e1 100644
--- a/src/plaquette/device/__init__.py
+++ b/src/plaquette/device/__init__.py
@@ -410,6 +410,10 @@ class Device:
         # backend is None in the case of a local simulator, but now we
         # can actually create one, since we have a circuit
         if self._backend_name in local_simulators:
+            # The backend stores the circuit, not its builder, so that is what
+            # we need to compare in order to know whether the circuit changed
+            if isinstance(circuit, plaq_circuit.CircuitBuilder):
+                circuit = circuit.circ
             if self._backend is None or self.circuit is not circuit:
                 self._backend = self._backend_class(
                     circuit, *self._args, **self._kwargs
-- 
2.43.0


From 4f04e41d5730f8216cc08e574b2550ecf1ceb900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:23 +0000
Subject: [PATCH 04/42] fix: let the Stim backend simulate the current circuit,
 also without measurements

---
 src/plaquette/device/_stimsim.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/plaquette/device/_stimsim.py b/src/plaquette/device/_stimsim.py
index 146a6b2..32538f1 100644
--- a/src/plaquette/device/_stimsim.py
+++ b/src/plaquette/device/_stimsim.py
@@ -109,6 +109,8 @@ class StimSimulator(device.AbstractSimulator):
     stim_seed: int
     #: The last-used sampler.
     stim_sampler: stim.CompiledMeasurementSampler = None
+    #: Gates of the circuit which :attr:`stim_circ` was obtained from.
+    _compiled_gates: list[tuple[str, tuple[t.Any, ...]]]
     #: Batch size for retrieving samples from Stim (retrieving single samples is
     #: inefficient).
     batch_size: int
@@ -145,15 +147,19 @@ class StimSimulator(device.AbstractSimulator):
                 "Only a Circuit or a CircuitBuilder can be used in a simulator"
             )
         self.batch_size = batch_size
-        # Convert the circuit to Stim format. A sampler is not built until an RNG
-        # is supplied.
-        self.stim_circ, is_erasure = circuit_to_stim(self.circ)
-        self.meas_is_erasure = np.array(is_erasure)
         if stim_seed is None:
             self.stim_seed = plaquette.rng.integers(0, 2**63)
         else:
             self.stim_seed = stim_seed
+        self._compile()
+
+    def _compile(self):
+        """Convert the current circuit to Stim format and build a new sampler."""
+        gates = list(self.circ.gates)
+        self.stim_circ, is_erasure = circuit_to_stim(self.circ)
+        self.meas_is_erasure = np.array(is_erasure, dtype=bool)
         self.reset()
+        self._compiled_gates = gates
 
     def reset(self, new_seed: Optional[int] = None):
         """Compile a new Stim sampler.
@@ -173,6 +179,9 @@ class StimSimulator(device.AbstractSimulator):
         # Sample a new match if necessary.
         if not after_reset:
             raise ValueError("Stim does not allow sampling without resetting")
+        # The circuit may have been extended or replaced since the last run.
+        if self._compiled_gates != self.circ.gates:
+            self._compile()
         if self.batch_remaining == 0:
             self.batch = self.stim_sampler.sample(shots=self.batch_size)
             self.batch_remaining = self.batch_size
-- 
2.43.0


From 36833f7aa79989360bad21b6ddfc4d24c4c9fd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:23 +0000
Subject: [PATCH 05/42] fix: forget the error block and position of the
 previous run on reset

---
 src/plaquette/device/_circuitsim.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/plaquette/device/_circuitsim.py b/src/plaquette/device/_circuitsim.py
index 9de78f2..305a0b5 100644
--- a/src/plaquette/device/_circuitsim.py
+++ b/src/plaquette/device/_circuitsim.py
@@ -233,3 +233,7 @@ class CircuitSimulator(device.AbstractSimulator):
         self.state = device.QuantumState(self.circ.number_of_qubits)
         self.meas_results = []
         self.erasure = []
+        self.in_error = False
+        self.any_error_applied = False
+        self.apply_branch = False
+        self._instruction_pointer = -1
-- 
2.43.0


From d8f380086a3d71ff1ef312d25c88efa593703fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:16 +0000
Subject: [PATCH 06/42] fix: draw gaussian error probabilities from the seeded
 generator and within [0, 1]

---
 src/plaquette/errors/__init__.py   | 22 ++++++++++------------
 src/plaquette/frontend/__init__.py |  4 ++--
 2 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/plaquette/errors/__init__.py b/src/plaquette/errors/__init__.py
index a6e09b1..3472a1f 100644
--- a/src/plaquette/errors/__init__.py
+++ b/src/plaquette/errors/__init__.py
@@ -229,6 +229,8 @@ def generate_gaussian_errors(
             f"Invalid std deviation={std_dev}. Must be between 0.0 and 1.0"
         )
 
+    if std_dev == 0.0:
+        return np.full(len(qubit_list), fill_value=mean)
     distribution = truncnorm(
         (0.0 - mean) / std_dev, (1.0 - mean) / std_dev, mean, std_dev
     )
@@ -1195,10 +1197,10 @@ def assimilate_qubit_errors(
                     qubit_pd.shape[0], qubit_error_config[0][label][1]
                 )
             case "gaussian":
-                qubit_pd[label] = np.random.default_rng().normal(
-                    loc=qubit_error_config[0][label][1],
-                    scale=qubit_error_config[0][label][2],
-                    size=qubit_pd.shape[0],
+                qubit_pd[label] = generate_gaussian_errors(
+                    qubit_error_config[0][label][1],
+                    qubit_error_config[0][label][2],
+                    qubit_pd["qubit_id"],
                 )
             case "user":
                 if qubit_csv_df.empty:
@@ -1261,10 +1263,8 @@ def assimilate_gate_errors(
                             )
 
                         elif params[0] == "gaussian":
-                            probs = np.random.default_rng().normal(
-                                loc=params[2],
-                                scale=params[3],
-                                size=len(lattice.stabgens),
+                            probs = generate_gaussian_errors(
+                                params[2], params[3], lattice.stabgens
                             )
                             for i, p in zip(lattice.stabgens, probs):
                                 gate_pd = pd.concat(
@@ -1312,10 +1312,8 @@ def assimilate_gate_errors(
                             )
 
                         elif params[0] == "gaussian":
-                            probs = np.random.default_rng().normal(
-                                loc=params[2],
-                                scale=params[3],
-                                size=len(on_qubits) // 2,
+                            probs = generate_gaussian_errors(
+                                params[2], params[3], on_qubits[::2]
                             )
 
                             for ind, p in enumerate(probs):
diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index f1b80f8..dddf6ef 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -714,7 +714,7 @@ class QubitErrorsConfig:
         if not self.sample:
             return None
         sim_qub_errors_distr: dict = dict()
-        for key in self.QUBIT_KEYS:
+        for key in sorted(self.QUBIT_KEYS):
             qubit_metadata = cast(_QubitErrorMetadata, getattr(self, key))
             if qubit_metadata.enabled and not qubit_metadata.is_empty():
                 if qubit_metadata.distribution == "user":
@@ -1324,7 +1324,7 @@ class GateErrorsConfig:
             return None
 
         sim_gate_errors_distr: dict = dict()
-        for key in self.GATE_KEYS:
+        for key in sorted(self.GATE_KEYS):
             gate_metadata = cast(_GateErrorMetadata, getattr(self, key))
             if not gate_metadata.is_empty() and gate_metadata.enabled:
                 if isinstance(gate_metadata.distribution, str):
-- 
2.43.0


From 36ab01867b242c5cb27295bf7b568d2e4c5bccd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:08 +0000
Subject: [PATCH 07/42] fix: read the single channel of two-qubit gates with
 gaussian errors as a whole

---
 src/plaquette/errors/__init__.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/plaquette/errors/__init__.py b/src/plaquette/errors/__init__.py
index 3472a1f..7f2f04f 100644
--- a/src/plaquette/errors/__init__.py
+++ b/src/plaquette/errors/__init__.py
@@ -921,6 +921,10 @@ class ErrorData:  # noqa: D101
 
         for row in self.gate_errors.itertuples():
             if row.gate in self.enabled_gate_errors:
+                induced_errors = row.induced_errors
+                # A single channel may also be given without putting it in a list
+                if isinstance(induced_errors, str):
+                    induced_errors = [induced_errors]
                 match row.gate:
                     # single qubit gate errors
                     case "H" | "M" | "R":
@@ -932,14 +936,14 @@ class ErrorData:  # noqa: D101
                             ] = SinglePauliChannelErrorValueDict(  # type: ignore
                                 {
                                     str(k).lower(): v
-                                    for k, v in zip(row.induced_errors, row.probs)
+                                    for k, v in zip(induced_errors, row.probs)
                                 }
                             )
                     # two qubit gate errors
                     case "CX" | "CZ":
                         if gate_errors_dict.get(row.gate) is None:
                             gate_errors_dict[row.gate] = {}
-                        if not set(single_paulis).isdisjoint(set(row.induced_errors)):
+                        if not set(single_paulis).isdisjoint(set(induced_errors)):
                             raise KeyError("Two qubit channels must be provided!")
                         for i in range(0, len(row.on_qubits), 2):
                             gate_errors_dict[row.gate][
@@ -947,7 +951,7 @@ class ErrorData:  # noqa: D101
                             ] = TwoPauliChannelErrorValueDict(  # type: ignore
                                 {
                                     str(k).lower(): v
-                                    for k, v in zip(row.induced_errors, row.probs)
+                                    for k, v in zip(induced_errors, row.probs)
                                 }
                             )
 
-- 
2.43.0


From bd930031c0868be4cdb4166a3f5602f4ae71a752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:08 +0000
Subject: [PATCH 08/42] fix: keep all error channels given for the same gate in
 separate rows

---
 src/plaquette/errors/__init__.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/plaquette/errors/__init__.py b/src/plaquette/errors/__init__.py
index 7f2f04f..f87ecec 100644
--- a/src/plaquette/errors/__init__.py
+++ b/src/plaquette/errors/__init__.py
@@ -931,9 +931,9 @@ class ErrorData:  # noqa: D101
                         if gate_errors_dict.get(row.gate) is None:
                             gate_errors_dict[row.gate] = dict()
                         for q_id in row.on_qubits:
-                            gate_errors_dict[row.gate][
-                                q_id
-                            ] = SinglePauliChannelErrorValueDict(  # type: ignore
+                            gate_errors_dict[row.gate].setdefault(
+                                q_id, SinglePauliChannelErrorValueDict()
+                            ).update(  # type: ignore
                                 {
                                     str(k).lower(): v
                                     for k, v in zip(induced_errors, row.probs)
@@ -946,9 +946,10 @@ class ErrorData:  # noqa: D101
                         if not set(single_paulis).isdisjoint(set(induced_errors)):
                             raise KeyError("Two qubit channels must be provided!")
                         for i in range(0, len(row.on_qubits), 2):
-                            gate_errors_dict[row.gate][
-                                (row.on_qubits[i], row.on_qubits[i + 1])
-                            ] = TwoPauliChannelErrorValueDict(  # type: ignore
+                            gate_errors_dict[row.gate].setdefault(
+                                (row.on_qubits[i], row.on_qubits[i + 1]),
+                                TwoPauliChannelErrorValueDict(),
+                            ).update(  # type: ignore
                                 {
                                     str(k).lower(): v
                                     for k, v in zip(induced_errors, row.probs)
-- 
2.43.0


From a3598fcd000f42efac5fe0ac35e9f3cc0850c13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:37 +0000
Subject: [PATCH 09/42] fix: accept user-supplied edge weights when creating a
 decoder

---
 src/plaquette/decoders/decoderbase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plaquette/decoders/decoderbase.py b/src/plaquette/decoders/decoderbase.py
index 2e3b8e8..b3a5561 100644
--- a/src/plaquette/decoders/decoderbase.py
+++ b/src/plaquette/decoders/decoderbase.py
@@ -373,7 +373,7 @@ class DecoderInterface:
                                 errordata["pauli"][q][k] = 1e-15  # type: ignore
                     if erasures and not errordata["erasure"].get(q):
                         errordata["erasure"][q] = {"p": 0}
-        else:
+        elif weights is None:
             errordata: ErrorDataDict = {  # type: ignore[no-redef]
                 "pauli": {
                     q: _default_pauli_errors
-- 
2.43.0


From b267e567e1ac7275779f6aa530668e8b60a761ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:06 +0000
Subject: [PATCH 10/42] fix: update the error data from dataframes and CSV
 files consistently

---
 src/plaquette/errors/__init__.py | 33 ++++++++++++--------------------
 1 file changed, 12 insertions(+), 21 deletions(-)

diff --git a/src/plaquette/errors/__init__.py b/src/plaquette/errors/__init__.py
index f87ecec..8ba6d77 100644
--- a/src/plaquette/errors/__init__.py
+++ b/src/plaquette/errors/__init__.py
@@ -749,18 +749,20 @@ class ErrorData:  # noqa: D101
                 If ``False``, just updates overlapping locations in the dataframe.
                 and missing locations are appended to the dataframe
         """
-        if qubit_errors:
-            if overwrite:
+        if qubit_errors is not None:
+            qubit_errors = qubit_errors.set_index(["qubit_id"], drop=False)
+            if overwrite or self.qubit_errors.empty:
                 self.qubit_errors = qubit_errors
             else:
-                qubit_errors.set_index(["qubit_id"], drop=True, inplace=True)
-                for col in qubit_errors.colums:
+                for col in qubit_errors.columns:
                     if col not in self.qubit_errors.columns:
-                        self.qubit_errors[col] = None
+                        self.qubit_errors[col] = (
+                            "available" if col == "fabrication" else 0.0
+                        )
                     self.qubit_errors.update(qubit_errors.loc[:, col])
 
             self.enabled_qubit_errors = set(self.qubit_errors.columns[2:])
-        if gate_errors:
+        if gate_errors is not None:
             if overwrite:
                 self.gate_errors = gate_errors
             else:
@@ -786,29 +788,18 @@ class ErrorData:  # noqa: D101
         Returns:
             None, updates in-place.
         """
+        qubit_errors: pd.DataFrame | None = None
         if qubit_error_csv:
             qubit_errors = pd.read_csv(qubit_error_csv)
-            if overwrite:
-                self.qubit_errors = qubit_errors
-            else:
-                qubit_errors.set_index(["qubit_id"], drop=True, inplace=True)
-                for col in qubit_errors.columns:
-                    if col not in self.qubit_errors.columns:
-                        self.qubit_errors[col] = None
-                    self.qubit_errors.update(qubit_errors.loc[:, col])
 
+        gate_errors: pd.DataFrame | None = None
         if gate_error_csv:
             gate_errors = pd.read_csv(gate_error_csv)
             exp_types = ("int", "str", "float")
             for key, et in zip(gate_errors.keys()[1:], exp_types):
                 gate_errors[key] = delimited_string_list_to_series(gate_errors[key], et)
-            if overwrite:
-                self.gate_errors = gate_errors
-            else:
-                self.gate_errors = pd.concat(
-                    [self.gate_errors, gate_errors], ignore_index=True
-                )
-            self.enabled_gate_errors = set(self.gate_errors.gate.unique())
+
+        self.update(qubit_errors, gate_errors, overwrite)
 
     @property
     def error_data_dict(self) -> ErrorDataDict:
-- 
2.43.0


From cbe95c88b469190b80573e558d4e6cbc27169994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:25 +0000
Subject: [PATCH 11/42] fix: save error data in the CSV format that is read
 back

---
 src/plaquette/errors/__init__.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/plaquette/errors/__init__.py b/src/plaquette/errors/__init__.py
index 8ba6d77..c7167cc 100644
--- a/src/plaquette/errors/__init__.py
+++ b/src/plaquette/errors/__init__.py
@@ -854,8 +854,23 @@ class ErrorData:  # noqa: D101
             qubit_error_path = "./qubit_error.csv"
         if gate_error_path is None:
             gate_error_path = "./gate_error.csv"
-        self.qubit_errors.to_csv(qubit_error_path)
-        self.gate_errors.to_csv(gate_error_path)
+        qubit_errors = self.qubit_errors
+        if qubit_errors.columns.empty:
+            qubit_errors = pd.DataFrame(columns=["qubit_id", "qubit_type"])
+        gate_errors = self.gate_errors
+        if gate_errors.columns.empty:
+            gate_errors = pd.DataFrame(
+                columns=["gate", "on_qubits", "induced_errors", "probs"]
+            )
+        # Lists need to be written in the format that from_csv() reads
+        gate_errors = gate_errors.copy()
+        for col in gate_errors.columns[1:]:
+            gate_errors[col] = [
+                val if isinstance(val, str) else "|".join(map(str, val))
+                for val in gate_errors[col]
+            ]
+        qubit_errors.to_csv(qubit_error_path, index=False)
+        gate_errors.to_csv(gate_error_path, index=False)
 
     @property
     def qubit_errors_dict(self) -> QubitErrorsDict:
-- 
2.43.0


From 77946adc8fa933adbe4e4a8cc6c8da0af13fd8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:49 +0000
Subject: [PATCH 12/42] fix: read gate error CSV files in which every row has a
 single entry

---
 src/plaquette/errors/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/plaquette/errors/__init__.py b/src/plaquette/errors/__init__.py
index c7167cc..10cee45 100644
--- a/src/plaquette/errors/__init__.py
+++ b/src/plaquette/errors/__init__.py
@@ -443,7 +443,7 @@ class ErrorData:  # noqa: D101
 
         gate_errors: pd.DataFrame = pd.DataFrame()
         if gate_error_csv:
-            gate_errors = pd.read_csv(gate_error_csv)
+            gate_errors = pd.read_csv(gate_error_csv, dtype=str)
             exp_types = ("int", "str", "float")
             for key, et in zip(gate_errors.keys()[1:], exp_types):
                 gate_errors[key] = delimited_string_list_to_series(gate_errors[key], et)
@@ -794,7 +794,7 @@ class ErrorData:  # noqa: D101
 
         gate_errors: pd.DataFrame | None = None
         if gate_error_csv:
-            gate_errors = pd.read_csv(gate_error_csv)
+            gate_errors = pd.read_csv(gate_error_csv, dtype=str)
             exp_types = ("int", "str", "float")
             for key, et in zip(gate_errors.keys()[1:], exp_types):
                 gate_errors[key] = delimited_string_list_to_series(gate_errors[key], et)
@@ -1239,7 +1239,7 @@ def assimilate_gate_errors(
     """
     gate_pd = pd.DataFrame(columns=["gate", "on_qubits", "induced_errors", "probs"])
     try:
-        gate_csv = pd.read_csv(gate_error_config[1])
+        gate_csv = pd.read_csv(gate_error_config[1], dtype=str)
     except FileNotFoundError:
         gate_csv = pd.DataFrame(
             columns=["gate", "on_qubits", "induced_errors", "probs"]
-- 
2.43.0


From a1da3e7b6051d3374da43325479e655bac611e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:00 +0000
Subject: [PATCH 13/42] fix: let the Fusion Blossom decoder recover from an
 interrupted decoding

---
 src/plaquette/decoders/fusionblossom.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/plaquette/decoders/fusionblossom.py b/src/plaquette/decoders/fusionblossom.py
index 7dad6b4..8c4a9b1 100644
--- a/src/plaquette/decoders/fusionblossom.py
+++ b/src/plaquette/decoders/fusionblossom.py
@@ -94,6 +94,8 @@ class FusionBlossomDecoder(decoderbase.DecoderBackendInterface):
         assert self.sgraph is not None
         assert self.solver is not None
         syndrome_pattern = self.get_syndrome_pattern()
+        # Also discard what an interrupted decoding may have left behind
+        self.solver.clear()
         self.solver.solve(syndrome_pattern)
         result = self.solver.subgraph(None)
         result = np.array([(i in result) for i in range(len(self.sgraph.edges))])
-- 
2.43.0


From 98f8eb804e8709a2925410cdf0c181e635045a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:52 +0000
Subject: [PATCH 14/42] fix: keep the code consistent with its lattice after
 fabrication errors

---
 src/plaquette/codes/__init__.py    | 2 ++
 src/plaquette/codes/latticebase.py | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/src/plaquette/codes/__init__.py b/src/plaquette/codes/__init__.py
index 79dcbf0..7797762 100644
--- a/src/plaquette/codes/__init__.py
+++ b/src/plaquette/codes/__init__.py
@@ -290,6 +290,8 @@ class LatticeCode(StabilizerCode):
         """
         self.lattice._fabrication_error_warning(stacklevel=3)
         self.lattice.apply_fabrication_errors(**params)
+        # The operators need to follow the changes of the lattice
+        super().__init__(self.lattice.stabilisers, self.lattice.logical_operators)
 
     @classmethod
     def from_operators(
diff --git a/src/plaquette/codes/latticebase.py b/src/plaquette/codes/latticebase.py
index 1aa9182..4b89d97 100644
--- a/src/plaquette/codes/latticebase.py
+++ b/src/plaquette/codes/latticebase.py
@@ -828,6 +828,10 @@ class CodeLattice:
             # NB: disable_qubit() removes entries from self.equbits. All the indices
             # are no longer valid after the first call to remove_dataqubit().
             self.remove_dataqubit(qubit)
+        if remove_qubits:
+            # The measurement schedule of the intact lattice does not cover the
+            # merged stabilizer generators, so measure them one after the other
+            self.n_time_steps = None
         self.assign_indices()
 
     def _fabrication_errors_get_remove_qubits(
-- 
2.43.0


From b3088932dba2002a2afa5341465b21d99b84fc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:44 +0000
Subject: [PATCH 15/42] fix: run experiments on the local simulators

---
 src/plaquette/frontend/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index dddf6ef..1800758 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -2256,7 +2256,7 @@ class ExperimentConfig:
         """
         match self.general_conf["qec_property"]:
             case ["logical_error_rate"]:
-                if self._device._backend_class in plaquette.device.local_simulators:
+                if self._device._backend_name in plaquette.device.local_simulators:
                     test_success = np.zeros([self.device_conf.shots], dtype=bool)
                     for i in tqdm(range(self.device_conf.shots)):
                         self._device.run(cast(Circuit, self._circuit))
-- 
2.43.0


From ae4eb1e0d638a715e98732a64bcea207632913c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:44 +0000
Subject: [PATCH 16/42] fix: load the fabrication entry of the gate error
 configuration

---
 src/plaquette/frontend/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index 1800758..3f65faa 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -1174,6 +1174,7 @@ class GateErrorsConfig:
             H=cast(_GateErrorMetadata, configdata.get("H")),
             M=cast(_GateErrorMetadata, configdata.get("M")),
             R=cast(_GateErrorMetadata, configdata.get("R")),
+            fabrication=cast(_GateErrorMetadata, configdata.get("fabrication")),
         )
 
     @classmethod
-- 
2.43.0


From 64d3cbe99b48c0fec9be8ddca113ab4cde08c1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:54 +0000
Subject: [PATCH 17/42] fix: leave the given dictionary unchanged when creating
 a configuration

---
 src/plaquette/frontend/__init__.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index 3f65faa..150fe5c 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -150,6 +150,7 @@ class CodeConfig:
             >>> print(code_conf)
             CodeConfig(name='FiveQubitCode', rounds=1, size=-1)
         """
+        config_dict = dict(config_dict)
         config_dict.setdefault("rounds", 1)
         config_dict.setdefault("size", -1)
 
@@ -323,6 +324,7 @@ class _QubitErrorMetadata:
             _QubitErrorMetadata(distribution='gaussian', params=[0.1, 0.04], enabled=True)
         """  # noqa : E501
 
+        metadata = dict(metadata)
         metadata.setdefault("enabled", True)
         metadata.setdefault("params", [])
 
@@ -560,6 +562,7 @@ class QubitErrorsConfig:
                 },
            }
         """
+        configdata = dict(configdata)
         if configdata.get("data_path") is not None:
             if configdata.get("load_file") is not None:
                 _validate_filepath(configdata["data_path"], configdata["load_file"])
@@ -880,6 +883,7 @@ class _GateErrorMetadata:
                                params=[],
                                enabled=True)
         """
+        metadata = dict(metadata)
         metadata.setdefault("enabled", True)
         metadata.setdefault("induced_errors", [])
         metadata.setdefault("params", [])
@@ -1144,6 +1148,7 @@ class GateErrorsConfig:
            }
 
         """
+        configdata = dict(configdata)
         if configdata.get("data_path") is not None:
             if configdata.get("load_file") is not None:
                 _validate_filepath(configdata["data_path"], configdata["load_file"])
@@ -1480,7 +1485,7 @@ class CircuitConfig:
         Returns:
             A :class:`~CircuitConfig` object.
         """
-        config_dict = cast(dict, config_dict)
+        config_dict = dict(cast(dict, config_dict))
         for f in fields(cls):
             match f.name:
                 case "has_errors" | "circuit_provided":
@@ -1628,6 +1633,7 @@ class DeviceConfig:
         Returns:
             A :class:`~DeviceConfig` object.
         """
+        config_dict = dict(config_dict)
         config_dict.setdefault("name", "clifford")
         config_dict.setdefault("shots", 1024)
         return cls(
@@ -1705,6 +1711,7 @@ class DecoderConfig:
         Args:
             config_dict: Dict containing decoder configurations.
         """
+        config_dict = dict(config_dict)
         config_dict.setdefault("name", "PyMatchingDecoder")
         config_dict.setdefault("weighted", False)
         return cls(
@@ -2091,6 +2098,7 @@ class ExperimentConfig:
                 'device': {'name': 'stim', 'shots': 10000}
             }
         """  # noqa
+        config_dict = dict(config_dict)
         config_dict.setdefault("device", {})
         config_dict.setdefault("errors", {})
         config_dict.setdefault("decoder", {})
-- 
2.43.0


From 3ac836397d460d0c8b38508597a3aeb3af39df7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:51 +0000
Subject: [PATCH 18/42] fix: make dumped experiment configurations valid and
 loadable

---
 src/plaquette/frontend/__init__.py | 47 +++++++++++++++++++++++-------
 1 file changed, 37 insertions(+), 10 deletions(-)

diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index 150fe5c..cafcf61 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -1427,6 +1427,17 @@ class ErrorsConfig:
         )
         return ed
 
+    def as_dict(self) -> dict[str, dict]:
+        """Return class attributes as dictionary.
+
+        Returns:
+            A dictionary of the configuration for the errors.
+        """
+        return {
+            "qubit_errors": self.qubit_errors.as_dict(),
+            "gate_errors": self.gate_errors.as_dict(),
+        }
+
     def update(self, **kwargs):
         """Update class attributes with given ``**kwargs``.
 
@@ -2099,13 +2110,19 @@ class ExperimentConfig:
             }
         """  # noqa
         config_dict = dict(config_dict)
+        config_dict.setdefault(
+            "general",
+            GeneralConfig(
+                logical_op="X", qec_property=["logical_error_rate"], seed=12345
+            ),
+        )
         config_dict.setdefault("device", {})
         config_dict.setdefault("errors", {})
         config_dict.setdefault("decoder", {})
         config_dict.setdefault("circuit", {})
         config_dict.setdefault("code", {})
         return cls(
-            general_conf=cast(GeneralConfig, config_dict.get("general")),
+            general_conf=cast(GeneralConfig, dict(config_dict["general"])),
             device_conf=DeviceConfig.from_dict(cast(dict, config_dict.get("device"))),
             circuit_conf=CircuitConfig.from_dict(
                 cast(dict, config_dict.get("circuit"))
@@ -2118,14 +2135,22 @@ class ExperimentConfig:
         )
 
     def as_dict(self) -> dict[str, Any]:
-        """Return all class attributes as dictionary."""
-        return_dict: dict[str, Any] = dict()
-        for dfield in fields(self):
-            if dfield.name == "exp_objects":
-                continue
-            return_dict[dfield.name] = self.__getattribute__(dfield.name).as_dict()
+        """Return the experiment config as dictionary.
 
-        return return_dict
+        The dictionary has the structure which is accepted by :meth:`from_dict`.
+        Objects which have been built from the config are not part of it.
+        """
+        code = self.code_conf.as_dict()
+        if code["size"] == -1:  # irrelevant for this code
+            del code["size"]
+        return {
+            "general": dict(self.general_conf),
+            "device": self.device_conf.as_dict(),
+            "code": code,
+            "circuit": self.circuit_conf.as_dict(),
+            "errors": self.errors_conf.as_dict(),
+            "decoder": self.decoder_conf.as_dict(),
+        }
 
     def update(self, **kwargs):
         """Update class attributes with given ``**kwargs``.
@@ -2249,13 +2274,15 @@ class ExperimentConfig:
 
     def dump_toml(self, toml_path: str) -> None:
         """Save the config as a ``toml`` file at the given path."""
+        content = toml.dumps(self.as_dict())
         with open(toml_path, "w") as file:
-            toml.dump(self.__dict__, file)
+            file.write(content)
 
     def dump_json(self, json_path: str):
         """Save the config as a ``json`` file at the given path."""
+        content = json.dumps(self.as_dict())
         with open(json_path, "w") as file:
-            json.dump(self.__dict__, file)
+            file.write(content)
 
     def run(self):
         """Run an experiment to get a logical error rate.
-- 
2.43.0


From 441cf27e0a19c1524b8d663737204915dbd5ea80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:51 +0000
Subject: [PATCH 19/42] fix: let a later row for the same gate replace the
 earlier one, as documented

---
 src/plaquette/errors/__init__.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/plaquette/errors/__init__.py b/src/plaquette/errors/__init__.py
index 10cee45..3769b12 100644
--- a/src/plaquette/errors/__init__.py
+++ b/src/plaquette/errors/__init__.py
@@ -937,9 +937,9 @@ class ErrorData:  # noqa: D101
                         if gate_errors_dict.get(row.gate) is None:
                             gate_errors_dict[row.gate] = dict()
                         for q_id in row.on_qubits:
-                            gate_errors_dict[row.gate].setdefault(
-                                q_id, SinglePauliChannelErrorValueDict()
-                            ).update(  # type: ignore
+                            gate_errors_dict[row.gate][
+                                q_id
+                            ] = SinglePauliChannelErrorValueDict(  # type: ignore
                                 {
                                     str(k).lower(): v
                                     for k, v in zip(induced_errors, row.probs)
@@ -952,10 +952,9 @@ class ErrorData:  # noqa: D101
                         if not set(single_paulis).isdisjoint(set(induced_errors)):
                             raise KeyError("Two qubit channels must be provided!")
                         for i in range(0, len(row.on_qubits), 2):
-                            gate_errors_dict[row.gate].setdefault(
-                                (row.on_qubits[i], row.on_qubits[i + 1]),
-                                TwoPauliChannelErrorValueDict(),
-                            ).update(  # type: ignore
+                            gate_errors_dict[row.gate][
+                                (row.on_qubits[i], row.on_qubits[i + 1])
+                            ] = TwoPauliChannelErrorValueDict(  # type: ignore
                                 {
                                     str(k).lower(): v
                                     for k, v in zip(induced_errors, row.probs)
-- 
2.43.0


From 8d0a6c0505ee4956558592766a59ec01d710a719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:28 +0000
Subject: [PATCH 20/42] fix: do not use weights if neither error data nor
 weights are given, as documented

---
 src/plaquette/decoders/decoderbase.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/plaquette/decoders/decoderbase.py b/src/plaquette/decoders/decoderbase.py
index b3a5561..a814e59 100644
--- a/src/plaquette/decoders/decoderbase.py
+++ b/src/plaquette/decoders/decoderbase.py
@@ -374,6 +374,9 @@ class DecoderInterface:
                     if erasures and not errordata["erasure"].get(q):
                         errordata["erasure"][q] = {"p": 0}
         elif weights is None:
+            # There is nothing to derive weights from, see above
+            if weighted is None:
+                weighted = False
             errordata: ErrorDataDict = {  # type: ignore[no-redef]
                 "pauli": {
                     q: _default_pauli_errors
-- 
2.43.0


From 82257420bcdd54f5b140619e5c38fac68582f9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:57 +0000
Subject: [PATCH 21/42] fix: do not hand out a reference to the error operators
 of the syndrome graph

---
 src/plaquette/syngraph/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/plaquette/syngraph/__init__.py b/src/plaquette/syngraph/__init__.py
index e6d55f2..4ad7701 100644
--- a/src/plaquette/syngraph/__init__.py
+++ b/src/plaquette/syngraph/__init__.py
@@ -1007,7 +1007,9 @@ class SyndromeGraph:
         operators = [self.error_ops[i] for i in selection]
         if not operators:
             return np.zeros(2 * self.n_qubits + 1, dtype="u1")
-        return multiply(*operators)[0]  # discard complex phase
+        # The product of a single operator is that very operator. The caller must not
+        # get a reference to an entry of `error_ops`.
+        return multiply(*operators)[0].copy()  # discard complex phase
 
     def get_statistics(self) -> dict[str, int | list[int]]:
         """Get statistics on syndrome graph structure."""
-- 
2.43.0


From 1506e477d0d6f03b883df79e8c05410989d8ac52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:33 +0000
Subject: [PATCH 22/42] fix: use the name which Stim has for the DEPOLARIZE
 instruction

---
 src/plaquette/device/_stimsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plaquette/device/_stimsim.py b/src/plaquette/device/_stimsim.py
index 32538f1..ab0cf52 100644
--- a/src/plaquette/device/_stimsim.py
+++ b/src/plaquette/device/_stimsim.py
@@ -55,7 +55,7 @@ def circuit_to_stim(circ: circuit.Circuit) -> tuple[stim.Circuit, list[bool]]:
                 res.append(name, args)
                 meas_is_erasure.extend([False] * len(args))
             case "DEPOLARIZE":
-                res.append(name, args, 1.0)
+                res.append("DEPOLARIZE1", args, 1.0)
             case "E_PAULI":
                 assert len(args) == 4
                 res.append("PAULI_CHANNEL_1", args[3], args[:3])
-- 
2.43.0


From 2bc483266aa0608cdb5394e70decc0f0f3434fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:42 +0000
Subject: [PATCH 23/42] fix: do not simulate default errors when all errors are
 switched off

---
 src/plaquette/frontend/__init__.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index cafcf61..7e36535 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -1420,11 +1420,12 @@ class ErrorsConfig:
         Returns:
             An :class:`~plaquette.errors.ErrorData` object.
         """
-        ed = ErrorData.from_lattice(
-            lattice,
-            self.qubit_errors.simulated_errors,
-            self.gate_errors.simulated_errors,
-        )
+        qubit_errors, gate_errors = self.simulated_errors
+        if qubit_errors is None and gate_errors is None:
+            # All errors are switched off, they must not be replaced with the default
+            # errors of from_lattice().
+            gate_errors = ({}, self.gate_errors.data_path)
+        ed = ErrorData.from_lattice(lattice, qubit_errors, gate_errors)
         return ed
 
     def as_dict(self) -> dict[str, dict]:
-- 
2.43.0


From d986e8887eebb48ec888a2fe2fdf7c02e5b3cf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:40 +0000
Subject: [PATCH 24/42] fix: leave the given qubit error table unchanged

---
 src/plaquette/errors/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plaquette/errors/__init__.py b/src/plaquette/errors/__init__.py
index 3769b12..e4d35fb 100644
--- a/src/plaquette/errors/__init__.py
+++ b/src/plaquette/errors/__init__.py
@@ -398,7 +398,7 @@ class ErrorData:  # noqa: D101
 
     def __post_init__(self):  # noqa: D105
         if not self.qubit_errors.empty:
-            self.qubit_errors.set_index(["qubit_id"], drop=False, inplace=True)
+            self.qubit_errors = self.qubit_errors.set_index(["qubit_id"], drop=False)
             if not self.enabled_qubit_errors:
                 self.enabled_qubit_errors = set(self.qubit_errors.columns[2:])
 
-- 
2.43.0


From f6114ca9558d335f90b80f7c4c8e493208f5d34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:40 +0000
Subject: [PATCH 25/42] fix: append qubits that are missing in the error data
 on update, as documented

---
 src/plaquette/errors/__init__.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/plaquette/errors/__init__.py b/src/plaquette/errors/__init__.py
index e4d35fb..dc04af4 100644
--- a/src/plaquette/errors/__init__.py
+++ b/src/plaquette/errors/__init__.py
@@ -760,6 +760,15 @@ class ErrorData:  # noqa: D101
                             "available" if col == "fabrication" else 0.0
                         )
                     self.qubit_errors.update(qubit_errors.loc[:, col])
+                missing = qubit_errors.index.difference(self.qubit_errors.index)
+                if not missing.empty:
+                    self.qubit_errors = pd.concat(
+                        [self.qubit_errors, qubit_errors.loc[missing]]
+                    )
+                    for col in self.qubit_errors.columns[2:]:
+                        self.qubit_errors[col] = self.qubit_errors[col].fillna(
+                            "available" if col == "fabrication" else 0.0
+                        )
 
             self.enabled_qubit_errors = set(self.qubit_errors.columns[2:])
         if gate_errors is not None:
-- 
2.43.0


From 1303d8471464c1e552f21b2e390c26f3e59d02ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:31 +0000
Subject: [PATCH 26/42] fix: drop super-stabilizers that became trivial

---
 src/plaquette/codes/latticebase.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/plaquette/codes/latticebase.py b/src/plaquette/codes/latticebase.py
index 4b89d97..38d7293 100644
--- a/src/plaquette/codes/latticebase.py
+++ b/src/plaquette/codes/latticebase.py
@@ -637,6 +637,9 @@ class CodeLattice:
             else:
                 self.add_edge(edge.data, keep, edge.factor)
         self.remove_vertex(remove)
+        if not keep.edges:
+            # The stabilizers were inverse to each other (on periodic lattices)
+            self.remove_vertex(keep)
 
     def create_superstab_from_edges(self, edges: Sequence[Edge]):
         """Create a super-stabilizer from two edges referencing the stabilizers.
-- 
2.43.0


From 0a93a0e6ffcc17a5ceea98cb9fcb1b21b8f3190f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:05 +0000
Subject: [PATCH 27/42] fix: measure logical operators which share data qubits

The final read-out of X operators which share a data qubit applied the Hadamard
gate once per operator, such that the second operator was measured in the wrong
basis.
---
 src/plaquette/circuit/generator.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/plaquette/circuit/generator.py b/src/plaquette/circuit/generator.py
index 08365ea..a38b998 100644
--- a/src/plaquette/circuit/generator.py
+++ b/src/plaquette/circuit/generator.py
@@ -247,6 +247,8 @@ class QECCircuitGenerator:
                 :meth:`plaquette.codes.StabilizerCode.logical_ops_to_indices` for
                 details.
         """
+        # Data qubits which have been rotated, as operators may share data qubits
+        rotated: set[int] = set()
         for i in logop_indices:
             op = self.lat.logical_ops[i]
 
@@ -256,9 +258,11 @@ class QECCircuitGenerator:
                     match edge.factor:
                         case lattice.Pauli.X:
                             # Apply Hadamard gate, since we measure in Z-basis
-                            self.apply_gate_and_error(
-                                "H", dataqubit, None, with_errors=False
-                            )
+                            if dataqubit not in rotated:
+                                self.apply_gate_and_error(
+                                    "H", dataqubit, None, with_errors=False
+                                )
+                                rotated.add(dataqubit)
                         case lattice.Pauli.Y:
                             raise ValueError("Pauli Y not implemented yet")
                     self.apply_gate_and_error("M", dataqubit, None, with_errors=False)
-- 
2.43.0


From 039f39b8291294cbafca8429eca90ac00d4e85d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:58 +0000
Subject: [PATCH 28/42] fix: apply Pauli operators to states instead of
 refusing them all

---
 src/plaquette/pauli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index 3d45e74..5db0af5 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -133,7 +133,7 @@ def apply_operator(op: Tableau, state: Tableau) -> Tableau:
     if state.ndim != 2:
         raise ValueError("`state` must be a 2D numpy array")
 
-    if isinstance(op, np.ndarray):
+    if not isinstance(op, np.ndarray):
         raise TypeError("`op` must be a numpy array")
 
     if op.ndim == 1:
-- 
2.43.0


From 79e6e0f5c8e909b549d9f7b90c930865e00dfda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:58 +0000
Subject: [PATCH 29/42] fix: insert and append new qubits with their own rows
 and columns

---
 src/plaquette/pauli.py | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index 5db0af5..d490345 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -408,27 +408,26 @@ def insert_qubit_at(state: Tableau, pos: int | Sequence[int]) -> Tableau:
             "you're looking for pauli.pad_operator()?"
         )
     number_of_qubits = state.shape[1] // 2
-    if isinstance(pos, int):
-        pos = np.array([pos])
+    pos = np.sort(np.atleast_1d(pos))
     if (pos > number_of_qubits).any():
         raise IndexError(
             f"Cannot insert a new qubit at position {pos} for a state with "
             f"{number_of_qubits} qubits."
         )
-    h_pos = np.concatenate((pos, np.array(pos) + number_of_qubits))
-    number_of_missing_qubits = np.max(h_pos) - number_of_qubits
-    v_pos = np.concatenate(
-        (
-            [number_of_qubits] * number_of_missing_qubits,
-            [2 * number_of_qubits] * number_of_missing_qubits,
-        )
+    new_qubits = len(pos)
+    total_qubits = number_of_qubits + new_qubits
+    state = np.insert(state, np.concatenate((pos, pos + number_of_qubits)), 0, axis=1)
+    # The new rows follow the existing destabilisers and stabilisers, respectively
+    state = np.insert(
+        state,
+        [number_of_qubits] * new_qubits + [2 * number_of_qubits] * new_qubits,
+        0,
+        axis=0,
     )
-
-    state = np.insert(state, h_pos, 0, axis=1)
-    state = np.insert(state, v_pos, 0, axis=0)
-    number_of_qubits += number_of_missing_qubits
-    state[v_pos[:number_of_qubits], h_pos[:number_of_qubits]] = 1
-    state[v_pos[number_of_qubits:], h_pos[number_of_qubits:-1]] = 1
+    rows = number_of_qubits + np.arange(new_qubits)
+    columns = pos + np.arange(new_qubits)
+    state[rows, columns] = 1
+    state[total_qubits + rows, total_qubits + columns] = 1
     return state
 
 
-- 
2.43.0


From e014aac2f500bbcf7ee764cec33d6b75e2e98378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:58 +0000
Subject: [PATCH 30/42] fix: measure several qubits destructively

---
 src/plaquette/pauli.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index d490345..04dd9a5 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -488,7 +488,6 @@ def _measure_base(state, base, targets, *, destructive=False, forced_outcomes=No
         be done highest-index first. The relationship target-forced outcome
         is preserved also at the output.
     """
-    n_q = count_qubits(state)[0]
 
     if isinstance(targets, int):
         targets = [targets]
@@ -535,7 +534,9 @@ def _measure_base(state, base, targets, *, destructive=False, forced_outcomes=No
     for sorted_idx in reversed(np.argsort(targets)):
         state, m = measure(
             state,
-            single_qubit_pauli_operator(base, targets[sorted_idx], n_q),
+            single_qubit_pauli_operator(
+                base, targets[sorted_idx], count_qubits(state)[0]
+            ),
             forced_outcome=_fo[sorted_idx],
         )
         measurement_results[sorted_idx] = m
-- 
2.43.0


From e16df2cb3a92ae54beb666a9074f6fddefa29cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:59 +0000
Subject: [PATCH 31/42] fix: reset qubits to eigenstates of Y, also for arrays
 of qubits

---
 src/plaquette/pauli.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index 04dd9a5..3ca101b 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -1269,10 +1269,10 @@ def reset_qubits_to_eigenstate(
             state, single_qubit_pauli_operator(pauli, qubit, state_qubits)
         )
         if meas_outcome:
-            if pauli == "Z" or pauli == "-Z":
-                state = x(state, qubit)
-            elif pauli == "X" or pauli == "-X":
-                state = z(state, qubit)
+            if pauli[-1] == "X":
+                state = z(state, [qubit])
+            else:
+                state = x(state, [qubit])
     return state
 
 
-- 
2.43.0


From abcfb628531acbd0ce5a7c8fd17d8d985baf2ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:59 +0000
Subject: [PATCH 32/42] fix: refuse an invalid forced outcome before the state
 is changed

---
 src/plaquette/pauli.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index 3ca101b..c702357 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -692,6 +692,10 @@ def measure(
                 f"defined on {number_of_qubits}, but the two must match"
             )
         meas_op = np.copy(meas_operator)
+    if forced_outcome is not None and forced_outcome not in [0, 1]:
+        raise ValueError(
+            f"Measurement outcome can only be 0 or 1, but {forced_outcome} was given."
+        )
     comm = commutator_sign(state, meas_op)
     # List of indices of destabilizers and stabilizers that don't commute
     # with meas_op
@@ -717,11 +721,6 @@ def measure(
         # Replace the first non-commuting stabilizer with
         # (-1)ˆmeas_outcome meas_op
         if forced_outcome is not None:
-            if forced_outcome not in [0, 1]:
-                raise ValueError(
-                    f"Measurement outcome can only be 0 or 1, but {forced_outcome} "
-                    "was given."
-                )
             meas_outcome = forced_outcome
         else:
             meas_outcome = plaquette.rng.choice([0, 1])
-- 
2.43.0


From 01295e66a6c864d8920eb79c79b8c270777c13fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:00 +0000
Subject: [PATCH 33/42] fix: find destabilisers of any stabiliser state and
 check all of them

---
 src/plaquette/pauli.py | 61 +++++++++++++++++++++++++++++++-----------
 1 file changed, 45 insertions(+), 16 deletions(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index c702357..8ff0c2a 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -1119,21 +1119,16 @@ def string_to_state(
             )
     else:
         # If no destabilisers are given, we need to calculate them
-        ident_size = count_qubits(binary_stabilisers[0])[0]
-        ident = np.eye(ident_size, dtype="u1")
-        zero = np.zeros(ident.shape, dtype="u1")
-        omega = np.block([[zero, ident], [ident, zero]])
-        binary_destabilisers = (
-            np.linalg.pinv(binary_stabilisers[:, :-1].T) @ omega
-        ).astype("u1")
-        # attach an empty column for the sign info
-        binary_destabilisers = np.hstack(
-            (binary_destabilisers, np.zeros((ident_size, 1), dtype="u1"))
-        )
+        binary_destabilisers = _find_destabilisers(binary_stabilisers)
 
     # No matter how we got the destabilisers, check things for sanity
     for i, s in enumerate(binary_stabilisers):
         for j, d in enumerate(binary_destabilisers):
+            if i != j and commutator_sign(s, d):
+                # stab and destab of different indices should commute
+                raise ValueError(
+                    f"Destabiliser {j} does not commute with stabiliser {i}"
+                )
             if i < j:  # avoid calculating things twice
                 continue
             # reuse the indices to also check commutation relations among
@@ -1151,14 +1146,48 @@ def string_to_state(
                 raise ValueError(
                     f"Destabiliser {j} does not anticommute with its stabiliser"
                 )
-            elif j > i and commutator_sign(s, d):
-                # different indices should commute instead
-                raise ValueError(
-                    f"Destabiliser {j} does not commute with stabiliser {i}"
-                )
     return np.vstack((binary_destabilisers, binary_stabilisers), dtype="u1")
 
 
+def _find_destabilisers(stabilisers: Tableau) -> Tableau:
+    """Calculate destabilisers for a complete set of stabilisers.
+
+    Args:
+        stabilisers: one stabiliser per row, in binary form.
+
+    Returns:
+        mutually commuting operators, each of which anticommutes only with the
+        stabiliser in the same row.
+
+    Raises:
+        ValueError: if the stabilisers do not define a state.
+    """
+    n = stabilisers.shape[1] // 2
+    if len(stabilisers) != n:
+        raise ValueError(f"{n} stabilisers are necessary for a state of {n} qubits")
+    # Gauss-Jordan elimination modulo 2, keeping track of the row operations
+    rows = np.hstack((stabilisers[:, :-1], np.eye(n, dtype="u1")))
+    destabilisers = np.zeros_like(stabilisers)
+    for i in range(n):
+        candidates = np.argwhere(rows[i:, : 2 * n].T)
+        if len(candidates) == 0:
+            raise ValueError("The stabilisers are not independent")
+        pivot, row = candidates[0]
+        rows[[i, i + row]] = rows[[i + row, i]]
+        for j in np.flatnonzero(rows[:, pivot]):
+            if j != i:
+                rows[j] ^= rows[i]
+    # This inverts the matrix of stabilisers, up to exchanging X and Z
+    for i in range(n):
+        pivot = np.flatnonzero(rows[i, : 2 * n])[0]
+        destabilisers[:, (pivot + n) % (2 * n)] = rows[i, 2 * n :]
+    for j in range(n):
+        for i in range(j):
+            if commutator_sign(destabilisers[i], destabilisers[j]):
+                destabilisers[j, :-1] ^= stabilisers[i, :-1]
+    return destabilisers
+
+
 def tensor_product(*operators: Tableau) -> Tableau:
     """Compute the tensor product among the given operators or states.
 
-- 
2.43.0


From d8e8a9942ca176ecd7e26cb3fab0007c9627c35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:00 +0000
Subject: [PATCH 34/42] fix: keep destabilisers commuting when a measured qubit
 is removed

---
 src/plaquette/pauli.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index 8ff0c2a..27f1afb 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -588,6 +588,12 @@ def _ptrace(state: Tableau, target: int, measured_base: str) -> Tableau:
         )
         state[first_stab], _ = multiply(state[i], state[first_stab])
 
+    # The remaining destabilisers must commute without their factor on the target
+    anticommuting = _z if measured_base == "X" else _x
+    for i in np.flatnonzero(anticommuting[:number_of_qubits, target]):
+        if i != first_stab:
+            state[i], _ = multiply(state[i], state[first_stab])
+
     a = np.delete(state, [first_stab, first_stab + number_of_qubits], axis=0)
     b = np.delete(a, [target, target + number_of_qubits], axis=1)
     state = b  # should have one less qubit
-- 
2.43.0


From 9e485ae1640046d6ca921a6770893804ba84ccd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:58 +0000
Subject: [PATCH 35/42] fix: apply x, y and z also to qubits given by an
 iterator

---
 src/plaquette/pauli.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index 27f1afb..deaf087 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -1364,8 +1364,7 @@ def x(state: Tableau, qubits: int | Iterable[int]) -> Tableau:
         state: The state in the tableau representation
         qubits: The indices of the target qubit
     """
-    if isinstance(qubits, int):
-        qubits = [qubits]
+    qubits = [qubits] if isinstance(qubits, int) else list(qubits)
     number_of_qubits = state.shape[1] // 2
 
     if any(map(lambda q: q >= number_of_qubits, qubits)):
@@ -1389,6 +1388,7 @@ def y(state: Tableau, qubits: int | Iterable[int]) -> Tableau:
         state: The state in the tableau representation
         qubits: The indices of the target qubit
     """
+    qubits = [qubits] if isinstance(qubits, int) else list(qubits)
     return z(x(state, qubits), qubits)
 
 
@@ -1504,8 +1504,7 @@ def z(state: Tableau, qubits: int | Iterable[int] | Tableau):
         state: The state in the tableau representation
         qubits: The indices of the target qubit
     """
-    if isinstance(qubits, int):
-        qubits = [qubits]
+    qubits = [qubits] if isinstance(qubits, int) else list(qubits)
     number_of_qubits = state.shape[1] // 2
 
     if any(map(lambda q: q >= number_of_qubits, qubits)):
-- 
2.43.0


From f6d35a1d862067888feabfd7af89586714ba62dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:58 +0000
Subject: [PATCH 36/42] fix: read and measure the identity operator

---
 src/plaquette/pauli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index deaf087..224f493 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -345,7 +345,7 @@ def dict_to_pauli(ops: PauliDict, qubits: Optional[int] = None) -> Tableau:
             from ``ops``'s keys.
     """
     # TODO: add tests
-    max_qubit_index = max(ops.keys())
+    max_qubit_index = max(ops.keys(), default=-1)
     if qubits is None:
         qubits = max_qubit_index + 1
 
@@ -710,7 +710,7 @@ def measure(
     # Outcome is random if one meas_op does not commute with at least one
     # stabilizer, which appear after n_qubits. We don't care about not commuting
     # with the de-stabilisers
-    if nonzero[-1] >= number_of_qubits:
+    if len(nonzero) > 0 and nonzero[-1] >= number_of_qubits:
         # Find the first non-commuting (with meas_op) stabilizer
         first_nc_stab = nonzero[nonzero >= number_of_qubits][0]
         index_pos = np.where(nonzero == first_nc_stab)[0][0]
-- 
2.43.0


From 36fc81bd6eae67e8142feaebf5d6aab19f8e5d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:58 +0000
Subject: [PATCH 37/42] fix: refuse unrecognised characters and surplus
 operators in operator strings, as documented

---
 src/plaquette/pauli.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index 224f493..4b63e74 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -1027,6 +1027,8 @@ def string_to_pauli(op_str: str, qubits: Optional[int] = None) -> Tableau:
     # Remove visual separators
     op_str = op_str.replace(" ", "")
     op_str = op_str.replace("_", "")
+    if not re.fullmatch(r"[-+]?([XYZI]*|([-+]?[XYZI]\d+)*)", op_str):
+        raise ValueError(f"Unrecognised characters in operator {op_str}")
     # Check if there's a digit somewhere
     if any(map(lambda c: c.isdigit(), op_str)):
         # In that case we assume short form and bring this into canonical form
@@ -1054,7 +1056,13 @@ def string_to_pauli(op_str: str, qubits: Optional[int] = None) -> Tableau:
         operator_dict = {i: o for i, o in enumerate(op_str) if o != "I"}
         # we also need to make sure that we are not truncating identities from
         # the end in the canonical representation
-        qubits = max(qubits or 0, len(op_str))
+        if qubits is None:
+            qubits = len(op_str)
+        elif qubits < len(op_str):
+            raise ValueError(
+                f"Specified qubits ({qubits}) are less than the "
+                f"operators given ({len(op_str)})"
+            )
 
     binary_operator = dict_to_pauli(operator_dict, qubits)
     binary_operator[-1] = initial_phase
-- 
2.43.0


From ad7e90dcb3904d50324381e808afe8d73417e2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:02 +0000
Subject: [PATCH 38/42] fix: compare codes of different sizes

---
 src/plaquette/codes/__init__.py | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/src/plaquette/codes/__init__.py b/src/plaquette/codes/__init__.py
index 7797762..79df327 100644
--- a/src/plaquette/codes/__init__.py
+++ b/src/plaquette/codes/__init__.py
@@ -113,19 +113,8 @@ class StabilizerCode:
         """
         if not isinstance(other, StabilizerCode):
             return NotImplemented
-        return bool(  # mypy complains otherwise
-            np.all(
-                [
-                    (s1 == s2).all()
-                    for s1, s2 in zip(self.stabilisers, other.stabilisers)
-                ]
-            )
-            and np.all(
-                [
-                    (l1 == l2).all()
-                    for l1, l2 in zip(self.logical_ops, other.logical_ops)
-                ]
-            )
+        return np.array_equal(self.stabilisers, other.stabilisers) and np.array_equal(
+            self.logical_ops, other.logical_ops
         )
 
     @property
-- 
2.43.0


From 31f77eb27b44bee1046df7fcd78b98e979eed988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:53 +0000
Subject: [PATCH 39/42] fix: check the rank of the check matrix when asked to

---
 src/plaquette/codes/__init__.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/plaquette/codes/__init__.py b/src/plaquette/codes/__init__.py
index 79df327..ee83d89 100644
--- a/src/plaquette/codes/__init__.py
+++ b/src/plaquette/codes/__init__.py
@@ -189,11 +189,21 @@ class StabilizerCode:
         assert np.all(
             commutator_sign(self.stabilisers, self.stabilisers) == 0
         ), "Stabilizer generators do not commute with themselves"
-        # if rank:
-        #     assert (
-        #         self.stabilisers.check_matrix_rank()
-        #         == self.n_data_qubits - self.n_logical_qubits
-        #     ), "Rank of the check matrix is incorrect"
+        if rank:
+            assert (
+                self._check_matrix_rank() == self.n_data_qubits - self.n_logical_qubits
+            ), "Rank of the check matrix is incorrect"
+
+    def _check_matrix_rank(self) -> int:
+        """Rank of the check matrix (over the integers modulo two)."""
+        basis: list[int] = []
+        for stabiliser in self.stabilisers:
+            row = int("".join(str(bit) for bit in stabiliser[:-1]), 2)
+            for other in basis:
+                row = min(row, row ^ other)
+            if row:
+                basis.append(row)
+        return len(basis)
 
     def logical_ops_to_indices(self, logical_ops: str | Sequence[int]) -> Sequence[int]:
         """Convert specification of logical operators to index sequence.
-- 
2.43.0


From 3ae3679cd5c86ff49ed7ec093455e921613f05e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:00 +0000
Subject: [PATCH 40/42] fix: a failed drawing leaves the visualizer usable

A drawing in grey that failed (e.g. for an invalid height) kept the grey styles
and made every later grey drawing fail.
---
 src/plaquette/visualizer/__init__.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/plaquette/visualizer/__init__.py b/src/plaquette/visualizer/__init__.py
index 7ef3f1f..7fdb688 100644
--- a/src/plaquette/visualizer/__init__.py
+++ b/src/plaquette/visualizer/__init__.py
@@ -371,12 +371,13 @@ class LatticeVisualizer:
         if not draw_edges:
             edf = edf.iloc[:0]
         vdf = pd.concat((vdf, self._mk_pauliframe_df(error, correction, only_pauli)))
-        if grey:
-            self._set_grey()
-        fig = self._draw(vdf, edf, height, margin)
-        if grey:
+        if not grey:
+            return self._draw(vdf, edf, height, margin)
+        self._set_grey()
+        try:
+            return self._draw(vdf, edf, height, margin)
+        finally:
             self._reset_grey()
-        return fig
 
     #: Matplotlib options for drawing vertices
     mpl_vertex_kw = {
-- 
2.43.0


From 4f058ac865e4110906821c706a87fe8659fe7d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:49 +0000
Subject: [PATCH 41/42] fix: updating the weights of union find checks them and
 can switch them off

update_weights handed whatever the syndrome graph component holds to the
decoder: negative weights were accepted, and an unweighted component
(all NaN) poisoned the weighted decoder and was refused by the unweighted
one, while set_syngraph, PyMatching and Fusion Blossom handle both.
---
 src/plaquette/decoders/unionfind_interfaces.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/plaquette/decoders/unionfind_interfaces.py b/src/plaquette/decoders/unionfind_interfaces.py
index 9b1e7a6..cfd45b6 100644
--- a/src/plaquette/decoders/unionfind_interfaces.py
+++ b/src/plaquette/decoders/unionfind_interfaces.py
@@ -47,12 +47,7 @@ class UnionFindBase(decoderbase.DecoderBackendInterface, metaclass=abc.ABCMeta):
         self.sgraph = sgraph
         graph = erasure_dec.Graph(self.sgraph.n_vertices, self.sgraph.edges)
         self.decoder = self._get_union_find(graph)
-        if self.sgraph.is_weighted(support_mixed=False):
-            weights = self.sgraph.edge_weights
-            decoderbase.check_weights_sane(weights)
-        else:
-            weights = None
-        self.decoder.set_weights(weights)
+        self.update_weights()
 
     def update_weights(self):
         """Update weights.
@@ -64,7 +59,12 @@ class UnionFindBase(decoderbase.DecoderBackendInterface, metaclass=abc.ABCMeta):
         """
         assert self.sgraph is not None
         assert self.decoder is not None
-        self.decoder.set_weights(self.sgraph.edge_weights)
+        if self.sgraph.is_weighted(support_mixed=False):
+            weights = self.sgraph.edge_weights
+            decoderbase.check_weights_sane(weights)
+        else:
+            weights = None
+        self.decoder.set_weights(weights)
 
     def decode(self):
         """Decode erasure and syndrome."""
-- 
2.43.0


From c5067d201edaceeb69f0e55941b710b57460bcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:10 +0000
Subject: [PATCH 42/42] fix: a circuit generator can be used more than once

get_circuit() appended to the circuit it had returned before, so a second
circuit (or one generated after a failed attempt) contained the former one
and the circuit already handed out grew.
---
 src/plaquette/circuit/generator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/plaquette/circuit/generator.py b/src/plaquette/circuit/generator.py
index a38b998..38b021d 100644
--- a/src/plaquette/circuit/generator.py
+++ b/src/plaquette/circuit/generator.py
@@ -380,6 +380,8 @@ class QECCircuitGenerator:
         lcomm = commutator_sign(logical_ops_op, logical_ops_op)
         if lcomm.any():
             raise ValueError("Some measured logical operators do not commute")
+        # Start a new circuit, do not extend one which was returned before
+        self.cb = circuit.CircuitBuilder(circuit.Circuit())
         # Measure logical operators for state preparation
         self.prepare_logical_ops(logop_indices)
         # Measure stabilizer generators for state preparation (without errors)
-- 
2.43.0


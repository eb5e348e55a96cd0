From b37fe29e818dcb3e97cc7c552818bf70c282222e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:41 +0000
Subject: [PATCH 01/56] fix: identity gates no longer drop the rest of the
 circuit when transpiling

---
 graphix/transpiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/transpiler.py b/graphix/transpiler.py
index 046500b..c17d796 100644
--- a/graphix/transpiler.py
+++ b/graphix/transpiler.py
@@ -940,7 +940,7 @@ def instructions_to_jcz(instrs: Iterable[InstructionType]) -> Iterator[instructi
             case InstructionKind.J | InstructionKind.CZ | InstructionKind.M:
                 yield instr
             case InstructionKind.I:
-                return
+                pass
             case InstructionKind.H:
                 yield instruction.J(instr.target, 0)
             case InstructionKind.S:
-- 
2.43.0


From d4e8960142233a86cbc79ab26e925cdb2461bcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:41 +0000
Subject: [PATCH 02/56] fix: transpile circuits where a swapped qubit is
 measured

---
 graphix/transpiler.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/graphix/transpiler.py b/graphix/transpiler.py
index c17d796..083a169 100644
--- a/graphix/transpiler.py
+++ b/graphix/transpiler.py
@@ -1009,13 +1009,11 @@ class TranspileSwapsResult:
 
     def extract_output_node_indices(self) -> tuple[int, ...]:
         """Return for each output node, sorted in the order of the original circuit, the index of the corresponding output node in the order of the swapped circuit."""
-        reduced_index = {}
-        reduced_counter = 0
-        for index, output in enumerate(self.outputs):
-            if output.kind == OutputKind.Qubit:
-                reduced_index[index] = reduced_counter
-                reduced_counter += 1
-        return tuple(reduced_index[index] for index in self.extract_outputs(OutputKind.Qubit))
+        indices = self.extract_outputs(OutputKind.Qubit)
+        # Output nodes of the swapped circuit are sorted by the indices of the qubits
+        # in the swapped circuit.
+        reduced_index = {index: reduced for reduced, index in enumerate(sorted(indices))}
+        return tuple(reduced_index[index] for index in indices)
 
     def swap_output_nodes(self, output_nodes: Sequence[Node]) -> tuple[Node, ...]:
         """Reorder the output nodes of a pattern obtained from a swapped circuit to restore the qubit ordering of the original circuit."""
-- 
2.43.0


From 75b7907f8ebbbc0d1894c45fa97cdaa561815a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:41 +0000
Subject: [PATCH 03/56] fix: classical outputs of transpiled circuits are in
 the order of the measurement gates

---
 graphix/transpiler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/graphix/transpiler.py b/graphix/transpiler.py
index 083a169..145762e 100644
--- a/graphix/transpiler.py
+++ b/graphix/transpiler.py
@@ -514,8 +514,8 @@ class Circuit(InplaceParameterizable):
         swap = _transpile_swaps(self, copy=True)
         result = swap.circuit.transpile_to_causalflow().to_pattern()
         result.pattern.reorder_output_nodes(swap.swap_output_nodes(result.pattern.output_nodes))
-        classical_outputs = swap.swap_classical_outputs(result.classical_outputs)
-        return TranspiledPattern(result.pattern, classical_outputs)
+        # Eliminating SWAP gates preserves the order of the measurements.
+        return TranspiledPattern(result.pattern, result.classical_outputs)
 
     @overload
     def simulate(
@@ -1020,7 +1020,7 @@ class TranspileSwapsResult:
         return tuple(output_nodes[index] for index in self.extract_output_node_indices())
 
     def swap_classical_outputs(self, classical_outputs: Sequence[Node]) -> tuple[int, ...]:
-        """Reorder the classical outpus of a pattern obtained from a swapped circuit to restore the output ordering of the original circuit."""
+        """Reorder the classical outputs of a pattern obtained from a swapped circuit by the indices of the qubits of the original circuit."""
         return tuple(classical_outputs[index] for index in self.extract_outputs(OutputKind.Bit))
 
 
-- 
2.43.0


From ed89f2a518de795bdf1acd9ad0768e985e14e238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:13 +0000
Subject: [PATCH 04/56] fix: measurement-calculus signal shifting no longer
 mutates commands shared with other patterns

---
 graphix/pattern.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/graphix/pattern.py b/graphix/pattern.py
index 6597aab..0aae28e 100644
--- a/graphix/pattern.py
+++ b/graphix/pattern.py
@@ -846,7 +846,7 @@ class Pattern(InplaceParameterizable):
         assert s.kind == CommandKind.S
         assert x.kind == CommandKind.X
         if s.node in x.domain:
-            x.domain ^= s.domain
+            self.__seq[target + 1] = dataclasses.replace(x, domain=x.domain ^ s.domain)
         self._commute_with_following(target)
 
     def _commute_zs(self, target: int) -> None:
@@ -863,7 +863,7 @@ class Pattern(InplaceParameterizable):
         assert s.kind == CommandKind.S
         assert z.kind == CommandKind.Z
         if s.node in z.domain:
-            z.domain ^= s.domain
+            self.__seq[target + 1] = dataclasses.replace(z, domain=z.domain ^ s.domain)
         self._commute_with_following(target)
 
     def _commute_ms(self, target: int) -> None:
@@ -879,10 +879,9 @@ class Pattern(InplaceParameterizable):
         m = self.__seq[target + 1]
         assert s.kind == CommandKind.S
         assert m.kind == CommandKind.M
-        if s.node in m.s_domain:
-            m.s_domain ^= s.domain
-        if s.node in m.t_domain:
-            m.t_domain ^= s.domain
+        s_domain = m.s_domain ^ s.domain if s.node in m.s_domain else m.s_domain
+        t_domain = m.t_domain ^ s.domain if s.node in m.t_domain else m.t_domain
+        self.__seq[target + 1] = dataclasses.replace(m, s_domain=s_domain, t_domain=t_domain)
         self._commute_with_following(target)
 
     def _commute_ss(self, target: int) -> None:
@@ -899,7 +898,7 @@ class Pattern(InplaceParameterizable):
         assert s1.kind == CommandKind.S
         assert s2.kind == CommandKind.S
         if s1.node in s2.domain:
-            s2.domain ^= s1.domain
+            self.__seq[target + 1] = dataclasses.replace(s2, domain=s2.domain ^ s1.domain)
         self._commute_with_following(target)
 
     def _commute_with_following(self, target: int) -> None:
@@ -1018,11 +1017,12 @@ class Pattern(InplaceParameterizable):
             if cmd.kind == CommandKind.M:
                 extracted_signal = extract_signal(cmd.measurement.to_bloch().plane, cmd.s_domain, cmd.t_domain)
                 if extracted_signal.signal:
-                    self.__seq.insert(pos + 1, command.S(node=cmd.node, domain=extracted_signal.signal))
-                    cmd.s_domain = extracted_signal.s_domain
-                    cmd.t_domain = extracted_signal.t_domain
+                    self.__seq.insert(pos + 1, command.S(node=cmd.node, domain=set(extracted_signal.signal)))
+                    self.__seq[pos] = dataclasses.replace(
+                        cmd, s_domain=set(extracted_signal.s_domain), t_domain=set(extracted_signal.t_domain)
+                    )
                     pos += 1
-                signal_dict[cmd.node] = extracted_signal.signal
+                signal_dict[cmd.node] = set(extracted_signal.signal)
             pos += 1
         return signal_dict
 
-- 
2.43.0


From 26ebd2a19261f0960adc4c7402575fb1de4b62f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:06 +0000
Subject: [PATCH 05/56] fix: signals returned by measurement-calculus signal
 shifting account for chained signals

---
 graphix/pattern.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/graphix/pattern.py b/graphix/pattern.py
index 0aae28e..cde11f3 100644
--- a/graphix/pattern.py
+++ b/graphix/pattern.py
@@ -656,6 +656,12 @@ class Pattern(InplaceParameterizable):
                 return self.shift_signals_direct()
             case "mc":
                 signal_dict = self.signals()
+                # `signals` extracts the domains of the unshifted pattern: we expand
+                # them with the signals of the previous measurements, as the direct
+                # method does, so that they refer to the outcomes of the shifted pattern.
+                for signal in signal_dict.values():
+                    for node in signal & signal_dict.keys():
+                        signal ^= signal_dict[node]
                 target = self._find_op_to_be_moved(CommandKind.S, rev=True)
                 while target is not None:
                     if target == len(self.__seq) - 1:
-- 
2.43.0


From 9482bdf423b0c04d79571c3e70920f9a33bb7f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:02 +0000
Subject: [PATCH 06/56] fix: FixedBranchSelector passes the random number
 generator to its default selector

---
 graphix/branch_selector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/branch_selector.py b/graphix/branch_selector.py
index a8b6a75..9489319 100644
--- a/graphix/branch_selector.py
+++ b/graphix/branch_selector.py
@@ -131,7 +131,7 @@ class FixedBranchSelector(BranchSelector, Generic[_T]):
         if result is None:
             if self.default is None:
                 raise ValueError(f"Unexpected measurement of qubit {qubit}.")
-            return self.default.measure(qubit, f_expectation0)
+            return self.default.measure(qubit, f_expectation0, rng=rng, stacklevel=stacklevel + 1)
         return result
 
 
-- 
2.43.0


From 6931682989954755c1181f5190a64fbaf968ef1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:57 +0000
Subject: [PATCH 07/56] fix: remove_local_clifford_commands handles the
 identity Clifford

---
 graphix/optimization.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphix/optimization.py b/graphix/optimization.py
index a571218..b700afd 100644
--- a/graphix/optimization.py
+++ b/graphix/optimization.py
@@ -630,6 +630,8 @@ def remove_local_clifford_commands(pattern: Pattern) -> Pattern:
     for cmd in pattern:
         match cmd.kind:
             case CommandKind.C:
+                if cmd.clifford == Clifford.I:
+                    continue
                 cmd_node = reindex(cmd.node)
                 clifford_pattern = cmd.clifford.to_opengraph().to_pattern()
                 (output_node,) = clifford_pattern.output_nodes
-- 
2.43.0


From 3f0e49a82505dacc2e95ac85f0548fffcb0a8f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:34 +0000
Subject: [PATCH 08/56] fix: Pauli measurement removal treats nodes not
 prepared in |+> like input nodes

---
 graphix/remove_pauli_measurements.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/graphix/remove_pauli_measurements.py b/graphix/remove_pauli_measurements.py
index 71decac..d5bb85b 100644
--- a/graphix/remove_pauli_measurements.py
+++ b/graphix/remove_pauli_measurements.py
@@ -36,6 +36,7 @@ from graphix.command import Command
 from graphix.fundamentals import Axis, Sign
 from graphix.measurements import PauliMeasurement
 from graphix.optimization import StandardizedPattern
+from graphix.states import BasicStates
 
 if TYPE_CHECKING:
     from collections.abc import Iterable, Mapping
@@ -239,7 +240,7 @@ class _RemovePauliMeasurements:
     Nodes are given with the indexing of the original pattern: use ``node_map`` to retrieve the index in the graph."""
 
     input_node_set: set[Node]
-    """Set of input nodes: inputs nodes are never pivoted, therefore their indexing is preserved."""
+    """Set of input nodes (and of nodes not prepared in |+⟩): these nodes are never pivoted, therefore their indexing is preserved."""
 
     output_node_set: set[Node]
     """Set of output nodes, using the new indexing."""
@@ -266,7 +267,11 @@ class _RemovePauliMeasurements:
             self.node_specs[node].clifford = clifford
         self.measurements = cut.measurements
         self.pauli_measurements = {axis: set() for axis in Axis}
-        self.input_node_set = set(cut.original_pattern.input_nodes)
+        # The rewriting rules require the nodes they pivot or remove to be prepared in |+⟩:
+        # nodes prepared in another state are treated as input nodes.
+        self.input_node_set = set(cut.original_pattern.input_nodes) | {
+            cmd_n.node for cmd_n in cut.original_pattern.n_list if cmd_n.state != BasicStates.PLUS
+        }
         self.output_node_set = set(cut.original_pattern.output_nodes)
         for cmd_m in self.cut.pauli_measurements:
             if not isinstance(cmd_m.measurement, PauliMeasurement):  # pragma: no cover
-- 
2.43.0


From 39436be017948a22ed36804ff2f09049875978f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:59 +0000
Subject: [PATCH 09/56] fix: Pattern.space_list counts the input nodes

---
 graphix/pattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/pattern.py b/graphix/pattern.py
index cde11f3..be984d1 100644
--- a/graphix/pattern.py
+++ b/graphix/pattern.py
@@ -1380,7 +1380,7 @@ class Pattern(InplaceParameterizable):
         N_list : list
             time evolution of 'space' at each 'N' and 'M' commands of pattern.
         """
-        nodes = 0
+        nodes = len(self.input_nodes)
         n_list = []
         for cmd in self.__seq:
             match cmd.kind:
-- 
2.43.0


From 760e32e3819f49369b5f9fc5e306fdeedf70efd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:59 +0000
Subject: [PATCH 10/56] fix: Pattern.connected_nodes handles repeated and
 trailing entanglement commands and leaves the pattern unchanged

---
 graphix/pattern.py | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/graphix/pattern.py b/graphix/pattern.py
index be984d1..14aeade 100644
--- a/graphix/pattern.py
+++ b/graphix/pattern.py
@@ -1271,23 +1271,12 @@ class Pattern(InplaceParameterizable):
         node_list : list
             list of nodes that are entangled with specified node
         """
-        if not self.is_standard():
-            self.standardize()
         if prepared is None:
             prepared = set()
-        node_list = []
-        ind = self._find_op_to_be_moved(CommandKind.E)
-        if ind is not None:  # end -> 'node' is isolated
-            cmd = self.__seq[ind]
-            while cmd.kind == CommandKind.E:
-                if cmd.nodes[0] == node:
-                    if cmd.nodes[1] not in prepared:
-                        node_list.append(cmd.nodes[1])
-                elif cmd.nodes[1] == node and cmd.nodes[0] not in prepared:
-                    node_list.append(cmd.nodes[0])
-                ind += 1
-                cmd = self.__seq[ind]
-        return node_list
+        graph = optimization.StandardizedPattern.from_pattern(self).graph()
+        if node not in graph:
+            return []
+        return [neighbor for neighbor in graph.neighbors(node) if neighbor not in prepared]
 
     def correction_commands(self) -> list[command.X | command.Z]:
         """Return the list of byproduct correction commands."""
-- 
2.43.0


From 85c754fd59232bb1a7c655b3087e1d68e80b5250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:03 +0000
Subject: [PATCH 11/56] fix: parallelize_pattern keeps the last measurement
 layer of patterns without output nodes

---
 graphix/pattern.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/graphix/pattern.py b/graphix/pattern.py
index 14aeade..f270bc5 100644
--- a/graphix/pattern.py
+++ b/graphix/pattern.py
@@ -1164,8 +1164,10 @@ class Pattern(InplaceParameterizable):
         list[int]
             optimal measurement order for parallel computing
         """
-        partial_order_layers = self.partial_order_layers()
-        return list(itertools.chain(*reversed(partial_order_layers[1:])))
+        # The first layer contains the output nodes only if there are some.
+        output_nodes = set(self.output_nodes)
+        measured_nodes = itertools.chain(*reversed(self.partial_order_layers()))
+        return [node for node in measured_nodes if node not in output_nodes]
 
     def sort_measurement_commands(self, meas_order: list[int]) -> list[command.M]:
         """Convert measurement order to sequence of measurement commands.
-- 
2.43.0


From fb8ce5bd5b5f8ee3215d78cb2feed9cd0cbff005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:03 +0000
Subject: [PATCH 12/56] fix: space minimization accepts patterns with nodes
 that are not prepared in |+>

---
 graphix/space_minimization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphix/space_minimization.py b/graphix/space_minimization.py
index 35e7bdd..d010697 100644
--- a/graphix/space_minimization.py
+++ b/graphix/space_minimization.py
@@ -193,7 +193,8 @@ class SpaceMinimizationHeuristics:
         """
         try:
             cf = pattern.to_xzcorrections().downcast_bloch().to_causalflow()
-        except (TypeError, FlowError):
+        except (TypeError, ValueError, FlowError):
+            # `ValueError` is raised if some nodes are not prepared in |+⟩.
             return None
         else:
             meas_order = tuple(chain(*reversed(cf.partial_order_layers[1:])))
-- 
2.43.0


From e410e2badb1bef4bc3b7e5586c9b759fb1dd111e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:03 +0000
Subject: [PATCH 13/56] fix: n_node is updated by in-place removal of Pauli
 measurements and local Cliffords

---
 graphix/pattern.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphix/pattern.py b/graphix/pattern.py
index f270bc5..b78f33a 100644
--- a/graphix/pattern.py
+++ b/graphix/pattern.py
@@ -1920,6 +1920,7 @@ class Pattern(InplaceParameterizable):
             return pattern
         self.__seq = pattern.__seq
         self.__output_nodes = pattern.__output_nodes
+        self.__n_node = pattern.__n_node
         return self
 
     def remove_local_clifford_commands(self, *, copy: bool = False) -> Pattern:
@@ -1950,6 +1951,7 @@ class Pattern(InplaceParameterizable):
             return new_pattern
         self.__seq = new_pattern.__seq
         self.__output_nodes = new_pattern.__output_nodes
+        self.__n_node = new_pattern.__n_node
         return self
 
 
-- 
2.43.0


From 4c2021767e8d428fa45fa3e00c851db92cda7278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:42 +0000
Subject: [PATCH 14/56] fix: compose accepts an empty pattern with an empty
 mapping

---
 graphix/pattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/pattern.py b/graphix/pattern.py
index b78f33a..41258d6 100644
--- a/graphix/pattern.py
+++ b/graphix/pattern.py
@@ -358,7 +358,7 @@ class Pattern(InplaceParameterizable):
                 stacklevel=2,
             )
 
-        shift = max((*nodes_p1, *mapping.values())) + 1
+        shift = max((*nodes_p1, *mapping.values()), default=-1) + 1
         mapping_complete = other.node_mapping(mapping, start=shift)
         other = other.reindex(mapping_complete, copy=True)
 
-- 
2.43.0


From 63d968422cd09c01b1e743ce05d8a7d9af5511db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:53 +0000
Subject: [PATCH 15/56] fix: XZCorrections.check_well_formed rejects
 corrections on nodes outside the open graph

---
 graphix/flow/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/graphix/flow/core.py b/graphix/flow/core.py
index 1cea8c4..5d4a722 100644
--- a/graphix/flow/core.py
+++ b/graphix/flow/core.py
@@ -417,6 +417,7 @@ class XZCorrections(Parameterizable, Generic[_AM_co]):
         -----
         A correct ``XZCorrections`` instance verifies the following properties:
             - Keys of the correction dictionaries are measured nodes, i.e., a subset of :math:`O^c`.
+            - Values of the correction dictionaries are nodes of the open graph.
             - Corrections respect the partial order.
             - The first layer of the partial order contains all the output nodes if there are any.
             - The partial order contains all the nodes (without duplicates) and it does not have empty layers.
@@ -434,6 +435,10 @@ class XZCorrections(Parameterizable, Generic[_AM_co]):
         if not oc_set.issuperset(self.x_corrections.keys() | self.z_corrections.keys()):
             raise XZCorrectionsGenericError(XZCorrectionsGenericErrorReason.IncorrectKeys)
 
+        corrected_nodes = set().union(*self.x_corrections.values(), *self.z_corrections.values())
+        if not corrected_nodes.issubset(self.og.graph.nodes):
+            raise XZCorrectionsGenericError(XZCorrectionsGenericErrorReason.IncorrectValues)
+
         first_layer = self.partial_order_layers[0]
 
         # Unlike for flows, XZCorrections can be well defined on open graphs without outputs
-- 
2.43.0


From 8fe030f534938ac8fdba42bd9589f72951980b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:47 +0000
Subject: [PATCH 16/56] fix: XZCorrections.is_compatible accepts the empty
 order when no node is measured

---
 graphix/flow/core.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/graphix/flow/core.py b/graphix/flow/core.py
index 5d4a722..594adfc 100644
--- a/graphix/flow/core.py
+++ b/graphix/flow/core.py
@@ -394,14 +394,12 @@ class XZCorrections(Parameterizable, Generic[_AM_co]):
 
         i = 0
         n_measured_layers = len(measured_layers)
-        layer = measured_layers[0]
 
         for node in total_measurement_order:
-            while node not in layer:
+            while i < n_measured_layers and node not in measured_layers[i]:
                 i += 1
-                if i == n_measured_layers:
-                    return False
-                layer = measured_layers[i]
+            if i == n_measured_layers:
+                return False
 
         return True
 
-- 
2.43.0


From 03d4568d9ca421cf361e230b9e5c09aed4ad3d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:10 +0000
Subject: [PATCH 17/56] fix: Pauli flow extraction refuses corrections on input
 nodes

---
 graphix/flow/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphix/flow/core.py b/graphix/flow/core.py
index 594adfc..b157dc4 100644
--- a/graphix/flow/core.py
+++ b/graphix/flow/core.py
@@ -1484,6 +1484,8 @@ def _solve_pauli_correction_set(
     self_fixed_in = label in {Plane.XZ, Plane.YZ, Axis.Z}
     if self_fixed_in and node not in non_inputs:
         return None  # ``node`` must correct itself but is an input node.
+    if not x_corr <= non_inputs:
+        return None  # Input nodes cannot belong to a correction set.
 
     # Free variables of the GF(2) system: the X/Y-measured, non-input nodes that are not in the
     # future of ``node`` (the "anachronical" candidates, plus ``node`` itself when it qualifies).
-- 
2.43.0


From 939777652e4a465a5285e6141e8eaba675dedfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:53 +0000
Subject: [PATCH 18/56] fix: visit and transpile_swaps keep track of the active
 qubits of the returned circuit

---
 graphix/transpiler.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/graphix/transpiler.py b/graphix/transpiler.py
index 145762e..5cca6d8 100644
--- a/graphix/transpiler.py
+++ b/graphix/transpiler.py
@@ -663,10 +663,14 @@ class Circuit(InplaceParameterizable):
             result = Circuit(self.width)
             for instr in self.instruction:
                 result.instruction.append(instr.visit(visitor, copy=True))
-            return result
-        for instr in self.instruction:
-            instr.visit(visitor, copy=False)
-        return self
+        else:
+            for instr in self.instruction:
+                instr.visit(visitor, copy=False)
+            result = self
+        # The visitor may have renamed the measured qubits.
+        measured_qubits = {instr.target for instr in result.instruction if instr.kind == InstructionKind.M}
+        result.active_qubits = set(range(self.width)) - measured_qubits
+        return result
 
     def apply_angle(self, f: Callable[[ParameterizedAngle], ParameterizedAngle], *, copy: bool = False) -> Circuit:
         """Apply ``f`` to all angles that occur in the circuit.
@@ -1105,6 +1109,7 @@ def transpile_swaps(circuit: Circuit, *, copy: bool = False) -> TranspileSwapsRe
             new_circuit.add(instr.visit(visitor, copy=copy))
     if not copy:
         circuit.instruction = new_circuit.instruction
+        circuit.active_qubits = new_circuit.active_qubits
         new_circuit = circuit
     return TranspileSwapsResult(new_circuit, tuple(visitor.outputs))
 
-- 
2.43.0


From a42f7cea9034053d54c020faebe890cc4dd9415e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:52 +0000
Subject: [PATCH 19/56] fix: Statevector.swap refuses qubit indices out of
 range

---
 graphix/sim/statevec.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/graphix/sim/statevec.py b/graphix/sim/statevec.py
index 0cb4eac..bfb39a4 100644
--- a/graphix/sim/statevec.py
+++ b/graphix/sim/statevec.py
@@ -503,6 +503,9 @@ class Statevector(DenseState):
         qubits : tuple[int, int]
             (control, target) qubit indices.
         """
+        # There is no bounds checking in Numba.
+        for qubit in qubits:
+            self._check_bounds(qubit)
         _swap_jit(self._psi, self.nqubit, *qubits)
 
     def tensor(self, other: Statevector) -> None:
-- 
2.43.0


From c3cff89174397d25defb6054e7054d2d5f7f8379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:09 +0000
Subject: [PATCH 20/56] fix: pauli_channel uses the square roots of the
 probabilities as Kraus coefficients

---
 graphix/channels.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/graphix/channels.py b/graphix/channels.py
index d807814..99e8eb2 100644
--- a/graphix/channels.py
+++ b/graphix/channels.py
@@ -212,10 +212,10 @@ def pauli_channel(px: float, py: float, pz: float) -> KrausChannel:
     p_i = 1 - px - py - pz
     return KrausChannel(
         [
-            KrausData(np.sqrt(1 - p_i), Ops.I),
-            KrausData(np.sqrt(px / 3.0), Ops.X),
-            KrausData(np.sqrt(py / 3.0), Ops.Y),
-            KrausData(np.sqrt(pz / 3.0), Ops.Z),
+            KrausData(np.sqrt(p_i), Ops.I),
+            KrausData(np.sqrt(px), Ops.X),
+            KrausData(np.sqrt(py), Ops.Y),
+            KrausData(np.sqrt(pz), Ops.Z),
         ]
     )
 
-- 
2.43.0


From b4d84d095f6f0099081c599f92026f9948b45276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:09 +0000
Subject: [PATCH 21/56] fix: DensityMatrix stores real matrices as complex

---
 graphix/sim/density_matrix.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graphix/sim/density_matrix.py b/graphix/sim/density_matrix.py
index ad42a0e..5d6ca77 100644
--- a/graphix/sim/density_matrix.py
+++ b/graphix/sim/density_matrix.py
@@ -103,6 +103,7 @@ class DensityMatrix(DenseState, InplaceParameterizable):
                     raise ValueError("Cannot interpret the provided density matrix as a qubit operator.")
                 check_size_consistency(self.rho)
                 if self.rho.dtype != np.object_:
+                    self.rho = self.rho.astype(np.complex128, copy=False)
                     if not lv.is_unit_trace(self.rho):
                         raise ValueError("Density matrix must have unit trace.")
                     if not lv.is_psd(self.rho):
-- 
2.43.0


From 7dc410546d3990055db950da86e3a016797c02ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:09 +0000
Subject: [PATCH 22/56] fix: DensityMatrix.fidelity tolerates rounding errors
 in the imaginary part

---
 graphix/sim/density_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/sim/density_matrix.py b/graphix/sim/density_matrix.py
index 5d6ca77..403e62d 100644
--- a/graphix/sim/density_matrix.py
+++ b/graphix/sim/density_matrix.py
@@ -407,7 +407,7 @@ class DensityMatrix(DenseState, InplaceParameterizable):
         result = vdot(statevec.psi, matmul(self.rho, statevec.psi))
         if isinstance(result, Expression):
             return result
-        assert math.isclose(result.imag, 0)
+        assert math.isclose(result.imag, 0, abs_tol=1e-8)
         return result.real
 
     def flatten(self) -> Matrix:
-- 
2.43.0


From 9e780d9c17879c56aaa8b7de91ccf508d8264859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:09 +0000
Subject: [PATCH 23/56] fix: DensityMatrix.expectation_single leaves the
 density matrix unchanged

---
 graphix/sim/density_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/sim/density_matrix.py b/graphix/sim/density_matrix.py
index 403e62d..df9f085 100644
--- a/graphix/sim/density_matrix.py
+++ b/graphix/sim/density_matrix.py
@@ -279,7 +279,7 @@ class DensityMatrix(DenseState, InplaceParameterizable):
         if op.shape != (2, 2):
             raise ValueError("op must be 2x2 matrix.")
 
-        st1 = _copy.copy(self)
+        st1 = DensityMatrix(self)
         st1.normalize()
 
         nqubit = self.nqubit
-- 
2.43.0


From 394575da537b7e11e96c99915ca6ede3bb23aea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:09 +0000
Subject: [PATCH 24/56] fix: tensordot treats real operators as numeric

---
 graphix/sim/base_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/sim/base_backend.py b/graphix/sim/base_backend.py
index 8189364..4d19210 100644
--- a/graphix/sim/base_backend.py
+++ b/graphix/sim/base_backend.py
@@ -64,7 +64,7 @@ def tensordot(op: Matrix, psi: Matrix, axes: tuple[int | Sequence[int], int | Se
     Matrix
         The result of the tensor contraction with the same type as `psi`.
     """
-    if psi.dtype == np.complex128 and op.dtype == np.complex128:
+    if psi.dtype != np.object_ and op.dtype != np.object_:
         psi_c = psi.astype(np.complex128, copy=False)
         op_c = op.astype(np.complex128, copy=False)
         return np.tensordot(op_c, psi_c, axes).astype(np.complex128)
-- 
2.43.0


From 8ed6d3a7d0aaa7efa06139f46ef19305702face6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:49 +0000
Subject: [PATCH 25/56] fix: DensityMatrix accepts an iterator of states

---
 graphix/sim/density_matrix.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphix/sim/density_matrix.py b/graphix/sim/density_matrix.py
index df9f085..cc2edfc 100644
--- a/graphix/sim/density_matrix.py
+++ b/graphix/sim/density_matrix.py
@@ -10,7 +10,7 @@ import dataclasses
 import math
 from collections.abc import Collection, Iterable
 from dataclasses import dataclass
-from typing import TYPE_CHECKING
+from typing import TYPE_CHECKING, cast
 
 import numpy as np
 from typing_extensions import override
@@ -109,6 +109,8 @@ class DensityMatrix(DenseState, InplaceParameterizable):
                     if not lv.is_psd(self.rho):
                         raise ValueError("Density matrix must be positive semi-definite.")
                 return
+            # `data` may be an iterator, which has been consumed.
+            data = cast("Data", input_list)
         statevec = Statevector(data, nqubit)
         # NOTE this works since np.outer flattens the inputs!
         self.rho = outer(statevec.psi, statevec.psi.conj())
-- 
2.43.0


From b7ef149b6ecee779f4b72331d439bd78aea57b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:14 +0000
Subject: [PATCH 26/56] fix: ComposeNoiseModel passes the generator to the
 input noise of its components

---
 graphix/noise_models/noise_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/noise_models/noise_model.py b/graphix/noise_models/noise_model.py
index 94b2237..b350965 100644
--- a/graphix/noise_models/noise_model.py
+++ b/graphix/noise_models/noise_model.py
@@ -150,7 +150,7 @@ class ComposeNoiseModel(NoiseModel):
         self, nodes: Iterable[int], rng: Generator | None = None, *, stacklevel: int = 1
     ) -> list[CommandOrNoise]:
         """Return the noise to apply to input nodes."""
-        return [n_cmd for m in self.models for n_cmd in m.input_nodes(nodes, stacklevel=stacklevel + 1)]
+        return [n_cmd for m in self.models for n_cmd in m.input_nodes(nodes, rng=rng, stacklevel=stacklevel + 1)]
 
     @override
     def command(
-- 
2.43.0


From f91113a30a07604709f5ea4e87f5d63411eef75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:28 +0000
Subject: [PATCH 27/56] fix: tensor networks accept states given as arrays or
 lists of arrays

---
 graphix/sim/tensornet.py | 55 +++++++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 26 deletions(-)

diff --git a/graphix/sim/tensornet.py b/graphix/sim/tensornet.py
index c9f4b3b..2bc1511 100644
--- a/graphix/sim/tensornet.py
+++ b/graphix/sim/tensornet.py
@@ -111,27 +111,28 @@ class MBQCTensorNet(TensorNetwork):
         """
         ind = gen_str()
         tag = str(index)
-        match state:
-            case "plus":
-                vec = BasicStates.PLUS.to_statevector_numpy()
-            case "minus":
-                vec = BasicStates.MINUS.to_statevector_numpy()
-            case "zero":
-                vec = BasicStates.ZERO.to_statevector_numpy()
-            case "one":
-                vec = BasicStates.ONE.to_statevector_numpy()
-            case "iplus":
-                vec = BasicStates.PLUS_I.to_statevector_numpy()
-            case "iminus":
-                vec = BasicStates.MINUS_I.to_statevector_numpy()
-            case _:
-                if isinstance(state, str):
+        if isinstance(state, str):
+            match state:
+                case "plus":
+                    vec = BasicStates.PLUS.to_statevector_numpy()
+                case "minus":
+                    vec = BasicStates.MINUS.to_statevector_numpy()
+                case "zero":
+                    vec = BasicStates.ZERO.to_statevector_numpy()
+                case "one":
+                    vec = BasicStates.ONE.to_statevector_numpy()
+                case "iplus":
+                    vec = BasicStates.PLUS_I.to_statevector_numpy()
+                case "iminus":
+                    vec = BasicStates.MINUS_I.to_statevector_numpy()
+                case _:
                     raise TypeError(f"Unknown state: {state}")
-                if state.shape != (2,):
-                    raise ValueError("state must be 2-element np.ndarray")
-                if not np.isclose(np.linalg.norm(state), 1):
-                    raise ValueError("state must be normalized")
-                vec = state
+        else:
+            if state.shape != (2,):
+                raise ValueError("state must be 2-element np.ndarray")
+            if not np.isclose(np.linalg.norm(state), 1):
+                raise ValueError("state must be normalized")
+            vec = state
         tsr = Tensor(vec, [ind], [tag, "Open"])
         self.add_tensor(tsr)
         self._dangling[tag] = ind
@@ -177,17 +178,19 @@ class MBQCTensorNet(TensorNetwork):
             states_iter: list[PrepareState] = [states] * len(indices)
         else:
             states_list = list(states)
-            # `states` is of type `PrepareState`, a type alias for
-            # `str | npt.NDArray[np.complex128]`. To distinguish
+            # `states` is either a single state, given as a sequence of
+            # numbers, or a list of states of type `PrepareState`, a type
+            # alias for `str | npt.NDArray[np.complex128]`. To distinguish
             # between the two cases, we just need to check whether
-            # an element is a character or a complex number.
-            if len(states_list) == 0 or isinstance(states_list[0], SupportsComplex):
+            # an element is a state or a number (arrays support
+            # conversion to complex too, so numbers are the other elements).
+            if len(states_list) == 0 or not isinstance(states_list[0], (str, np.ndarray)):
                 states_iter = [np.array(states_list)] * len(indices)
             else:
 
                 def get_prepare_state(item: PrepareState | SupportsComplex) -> PrepareState:
-                    if isinstance(item, SupportsComplex):
-                        raise TypeError("Unexpected complex")
+                    if not isinstance(item, (str, np.ndarray)):
+                        raise TypeError("Unexpected number")
                     return item
 
                 states_iter = [get_prepare_state(item) for item in states_list]
-- 
2.43.0


From ec9f0a78f6fab37511608f93b5ec854c128bd8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:44 +0000
Subject: [PATCH 28/56] fix: copies of a tensor network are independent and
 keep the output nodes

---
 graphix/sim/tensornet.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/graphix/sim/tensornet.py b/graphix/sim/tensornet.py
index 2bc1511..70f62b4 100644
--- a/graphix/sim/tensornet.py
+++ b/graphix/sim/tensornet.py
@@ -70,7 +70,8 @@ class MBQCTensorNet(TensorNetwork):
         if ts is None:
             ts = []
         super().__init__(ts=ts, virtual=virtual)
-        self._dangling = ts._dangling if isinstance(ts, MBQCTensorNet) else {}
+        # copy the dictionary, since the operations on one network must not rename the open indices of the other
+        self._dangling = dict(ts._dangling) if isinstance(ts, MBQCTensorNet) else {}
         self.default_output_nodes = None if default_output_nodes is None else list(default_output_nodes)
         # prepare the graph state if graph_nodes and graph_edges are given
         if graph_nodes is not None and graph_edges is not None:
@@ -541,7 +542,11 @@ class MBQCTensorNet(TensorNetwork):
         """
         if deep:
             return deepcopy(self)
-        return self.__class__(branch_selector=self.__branch_selector, ts=self)
+        return self.__class__(
+            branch_selector=self.__branch_selector,
+            default_output_nodes=self.default_output_nodes,
+            ts=self,
+        )
 
 
 def _decompose_cz() -> list[npt.NDArray[np.complex128]]:
-- 
2.43.0


From 7167ed450ea484bd374999fe6d79f614152817c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:11 +0000
Subject: [PATCH 29/56] fix: tensor-network measurement of isolated nodes uses
 the probability of the measurement performed

---
 graphix/sim/tensornet.py | 43 +++++++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/graphix/sim/tensornet.py b/graphix/sim/tensornet.py
index 70f62b4..225a2b5 100644
--- a/graphix/sim/tensornet.py
+++ b/graphix/sim/tensornet.py
@@ -99,6 +99,23 @@ class MBQCTensorNet(TensorNetwork):
         tensor = self.tensor_map[tid]
         return tensor.data.astype(dtype=np.complex128)
 
+    def isolated_vector(self, index: int) -> npt.NDArray[np.complex128]:
+        """Get the state of a node which has never been entangled, including the operators applied to it.
+
+        Parameters
+        ----------
+        index : int
+            node index
+
+        Returns
+        -------
+        numpy.ndarray :
+            Two-element state of the node
+        """
+        tensors = [self.tensor_map[tid] for tid in self._get_tids_from_tags([str(index)])]
+        tensor = qtn.tensor_contract(*tensors, output_inds=[self._dangling[str(index)]], preserve_tensor=True)
+        return tensor.data.astype(dtype=np.complex128)
+
     def add_qubit(self, index: int, state: PrepareState = "plus") -> None:
         """Add a single qubit to the network.
 
@@ -667,7 +684,12 @@ class TensorNetworkBackend(_AbstractTensorNetworkBackend):
         else:  # graph_prep == "sequential":
             state = MBQCTensorNet(default_output_nodes=pattern.output_nodes, branch_selector=branch_selector)
             decomposed_cz = _decompose_cz()
-        isolated_nodes = pattern.isolated_nodes()
+        if graph_prep == "parallel":
+            isolated_nodes = pattern.isolated_nodes()
+        else:
+            # every E command is executed, including those that cancel each other
+            entangled_nodes = {node for cmd in pattern if cmd.kind == command.CommandKind.E for node in cmd.nodes}
+            isolated_nodes = pattern.nodes() - entangled_nodes
         super().__init__(
             state,
             pattern,
@@ -767,23 +789,26 @@ class TensorNetworkBackend(_AbstractTensorNetworkBackend):
         measurement : Measurement
             measure plane and angle
         """
+        bloch = measurement.to_bloch()
+        if isinstance(bloch.angle, Expression):
+            raise TypeError("Parameterized pattern unsupported.")
+        vec = PlanarState(bloch.plane, bloch.angle).to_statevector_numpy()
+        orthogonal_vec = Ops.from_axis(bloch.plane.orth) @ vec
         if node in self._isolated_nodes:
-            vector: npt.NDArray[np.complex128] = self.state.open_tensor(node)
-            probs = (np.abs(vector) ** 2).astype(np.float64)
+            vector = self.state.isolated_vector(node)
+            probs = np.array([abs(np.vdot(v, vector)) ** 2 for v in (vec, orthogonal_vec)], dtype=np.float64)
             probs /= np.sum(probs)
-            result: Outcome = self.branch_selector.measure(node, lambda: probs[0], rng=rng, stacklevel=stacklevel + 1)
+            result: Outcome = self.branch_selector.measure(
+                node, lambda: float(probs[0]), rng=rng, stacklevel=stacklevel + 1
+            )
             self.results[node] = result
             buffer = 1 / probs[result] ** 0.5
         else:
             result = self.branch_selector.measure(node, lambda: 0.5, rng=rng, stacklevel=stacklevel + 1)
             self.results[node] = result
             buffer = 2**0.5
-        bloch = measurement.to_bloch()
-        if isinstance(bloch.angle, Expression):
-            raise TypeError("Parameterized pattern unsupported.")
-        vec = PlanarState(bloch.plane, bloch.angle).to_statevector_numpy()
         if result:
-            vec = Ops.from_axis(bloch.plane.orth) @ vec
+            vec = orthogonal_vec
         proj_vec = vec * buffer
         self.state.measure_single(node, basis=proj_vec, rng=rng, stacklevel=stacklevel + 1)
         return result
-- 
2.43.0


From ae377889bb275a60313a39ff665649f9243d1eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:40 +0000
Subject: [PATCH 30/56] fix: accept the identity in GraphState.apply_vops

---
 graphix/graphsim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphix/graphsim.py b/graphix/graphsim.py
index 8e91292..a9bf016 100644
--- a/graphix/graphsim.py
+++ b/graphix/graphsim.py
@@ -132,6 +132,8 @@ class GraphState(Graph):
         for node, vop in vops.items():
             for lc in reversed(vop.hsz):
                 match lc:
+                    case Clifford.I:
+                        pass
                     case Clifford.Z:
                         self.z(node)
                     case Clifford.H:
-- 
2.43.0


From 3a0ad3b8ffdaa84925deabeaf698c60f6cfffbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:06 +0000
Subject: [PATCH 31/56] fix: GraphState.measure_z honours the chosen outcome of
 a solid isolated node

The Z outcome of an isolated node without the local Hadamard is random; only a hollow, loopless, isolated node is in a Z eigenstate.
---
 graphix/graphsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/graphsim.py b/graphix/graphsim.py
index a9bf016..a0e57bb 100644
--- a/graphix/graphsim.py
+++ b/graphix/graphsim.py
@@ -462,7 +462,7 @@ class GraphState(Graph):
         if choice:
             for i in self.neighbors(node):
                 self.flip_sign(i)
-        result = choice if not isolated else outcome(self.nodes[node]["sign"])
+        result = outcome(self.nodes[node]["sign"]) if isolated == 1 else choice
         self.remove_node(node)
         return result
 
-- 
2.43.0


From b28d80fd5c89eb2d501d7e8d9b3d44950cfef111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:47 +0000
Subject: [PATCH 32/56] fix: GraphState.add_node keeps the attributes it is
 given

Node attributes passed as keyword arguments were overwritten by the defaults, and a partial attribute dictionary left the others unset.
---
 graphix/graphsim.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/graphix/graphsim.py b/graphix/graphsim.py
index a0e57bb..16bcfa0 100644
--- a/graphix/graphsim.py
+++ b/graphix/graphsim.py
@@ -85,8 +85,9 @@ class GraphState(Graph):
         nodes_for_adding = list(nodes_for_adding)
         super().add_nodes_from(nodes_for_adding, **attr)  # type: ignore[arg-type]
         for data in nodes_for_adding:
-            u, mp = data if isinstance(data, tuple) else (data, MBQCGraphNode(sign=False, hollow=False, loop=False))
-            for k, v_ in mp.items():
+            defaults = MBQCGraphNode(sign=False, hollow=False, loop=False)
+            u, mp = data if isinstance(data, tuple) else (data, None)
+            for k, v_ in {**defaults, **attr, **(mp or {})}.items():
                 dst = self.nodes[u]
                 v = bool(v_)
                 # Need to use literal inside brackets
-- 
2.43.0


From 683afa478c4da68cdd842182449eceb47a611e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:47 +0000
Subject: [PATCH 33/56] fix: phase of the neighbours in GraphState.s on a
 hollow node with a loop

S H S Z^s acts on a graph state as a local complementation that leaves S on the neighbours when the node has its sign set and its inverse otherwise.
---
 graphix/graphsim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/graphix/graphsim.py b/graphix/graphsim.py
index 16bcfa0..48714bf 100644
--- a/graphix/graphsim.py
+++ b/graphix/graphsim.py
@@ -251,6 +251,9 @@ class GraphState(Graph):
                 self.local_complement(node)
                 for i in self.neighbors(node):
                     self.advance(i)
+                if not self.nodes[node]["sign"]:
+                    for i in self.neighbors(node):
+                        self.flip_sign(i)
             else:
                 self.local_complement(node)
                 for i in self.neighbors(node):
-- 
2.43.0


From d7e7e86d0c23cc2b96f349489588270091c19c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:10 +0000
Subject: [PATCH 34/56] fix: OpenGraph.compose accepts an empty first graph
 with an empty mapping

---
 graphix/opengraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/opengraph.py b/graphix/opengraph.py
index a896a92..21afe60 100644
--- a/graphix/opengraph.py
+++ b/graphix/opengraph.py
@@ -711,7 +711,7 @@ class OpenGraph(Parameterizable, Generic[_AM_co]):
             if vm is not None and (uc := self.output_cliffords.get(u)) is not None:
                 measurements_other[v] = vm.clifford(uc)
 
-        shift = max((*self.graph.nodes, *mapping.values())) + 1
+        shift = max((*self.graph.nodes, *mapping.values()), default=-1) + 1
 
         mapping_sequential = {
             node: i for i, node in enumerate(sorted(other.graph.nodes - mapping.keys()), start=shift)
-- 
2.43.0


From ac6a25dd95dcc947e94a01f072239d81aeac4f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:20 +0000
Subject: [PATCH 35/56] fix: sign of the extraction string of a node measured
 along a negative Pauli axis

A node corrected by a flow is not absorbed by its own correction set, so its measurement sign must not flip the sign of its extraction string. Clifford maps of open graphs whose inputs are measured in -X or -Y were wrong.
---
 graphix/circ_ext/extraction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphix/circ_ext/extraction.py b/graphix/circ_ext/extraction.py
index 5d5fa14..430ec93 100644
--- a/graphix/circ_ext/extraction.py
+++ b/graphix/circ_ext/extraction.py
@@ -551,7 +551,8 @@ def extraction_ps_from_corrected_node(flow: PauliFlow[Measurement], node: Node)
     negative_sign ^= bool(len(inter_c_odd_set) // 2 % 2)
 
     # One phase flip per node in the graph state stabilizer that is absorbed from a Pauli measurement with angle π.
-    for n in c_set | odd_c_set:
+    # The corrected node itself is not absorbed.
+    for n in (c_set | odd_c_set) - {node}:
         meas = og.measurements.get(n, None)
         if isinstance(meas, PauliMeasurement):
             negative_sign ^= meas.sign == Sign.MINUS
-- 
2.43.0


From 0999d405db5050db678e3a60bfdaecbf3d7cea34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:20 +0000
Subject: [PATCH 36/56] fix: circuit extraction of an empty open graph

---
 graphix/circ_ext/extraction.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/graphix/circ_ext/extraction.py b/graphix/circ_ext/extraction.py
index 430ec93..25794d7 100644
--- a/graphix/circ_ext/extraction.py
+++ b/graphix/circ_ext/extraction.py
@@ -505,6 +505,9 @@ class CliffordMap:
                 f"Isometries are not supported yet: # of inputs ({len(self.input_nodes)}) must be equal to the # of outputs ({len(self.output_nodes)})."
             )
 
+        if n == 0:
+            return MatGF2(np.zeros((0, 1), dtype=np.uint8))
+
         return MatGF2(np.vstack([ps.to_tableau() for psmap in (self.x_map, self.z_map) for ps in psmap]))
 
 
@@ -596,7 +599,7 @@ def extend_input(og: OpenGraph[Measurement]) -> tuple[OpenGraph[Measurement], di
     This operation preserves the Pauli flow.
     """
     ancillary_inputs_map: dict[int, int] = {}
-    fresh_node = max(og.graph.nodes) + 1
+    fresh_node = max(og.graph.nodes, default=-1) + 1
     graph = og.graph.copy()
     input_nodes = list(og.input_nodes)
     new_input_nodes: list[int] = []
-- 
2.43.0


From 870d2e98e6a4820390c4493675a497f9f8c71b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:10 +0000
Subject: [PATCH 37/56] fix: sum of affine expressions whose parameter cancels
 keeps the constants

---
 graphix/parameter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/parameter.py b/graphix/parameter.py
index 891986f..647609a 100644
--- a/graphix/parameter.py
+++ b/graphix/parameter.py
@@ -202,7 +202,7 @@ class AffineExpression(Expression):
                 raise PlaceholderOperationError
             a = self.a + other.a
             if a == 0:
-                return 0
+                return self.b + other.b
             return AffineExpression(a=a, x=self.x, b=self.b + other.b)
         return NotImplemented
 
-- 
2.43.0


From f8acdd767456bf38871061cfca3bfea78472e041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:10 +0000
Subject: [PATCH 38/56] fix: Circuit.is_parameterized takes J gates into
 account

---
 graphix/transpiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/transpiler.py b/graphix/transpiler.py
index 5cca6d8..c48a701 100644
--- a/graphix/transpiler.py
+++ b/graphix/transpiler.py
@@ -704,7 +704,7 @@ class Circuit(InplaceParameterizable):
         """
         for instr in self.instruction:
             match instr.kind:
-                case InstructionKind.RZZ | InstructionKind.RX | InstructionKind.RY | InstructionKind.RZ:
+                case InstructionKind.RZZ | InstructionKind.RX | InstructionKind.RY | InstructionKind.RZ | InstructionKind.J:
                     if not isinstance(instr.angle, SupportsFloat):
                         return True
         return False
-- 
2.43.0


From 2f57d7963a9e5c9e19c60e8fefad83ae27e3b3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:43 +0000
Subject: [PATCH 39/56] fix: substitution in a density matrix with entries of
 different types

---
 graphix/sim/density_matrix.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/graphix/sim/density_matrix.py b/graphix/sim/density_matrix.py
index cc2edfc..ed5b2cd 100644
--- a/graphix/sim/density_matrix.py
+++ b/graphix/sim/density_matrix.py
@@ -32,7 +32,7 @@ from graphix.sim.statevec import Statevector, _check_permutation
 from graphix.states import BasicStates, State
 
 if TYPE_CHECKING:
-    from collections.abc import Mapping, Sequence
+    from collections.abc import Callable, Mapping, Sequence
     from typing import SupportsComplex, SupportsFloat
 
     from graphix.noise_models.noise_model import Noise
@@ -471,7 +471,7 @@ class DensityMatrix(DenseState, InplaceParameterizable):
     def replace_parameter(
         self, variable: Parameter, substitute: ExpressionOrSupportsFloat, *, copy: bool = False
     ) -> DensityMatrix:
-        rho = np.vectorize(lambda value: with_parameter(value, variable, substitute))(self.rho)
+        rho = _map_entries(lambda value: with_parameter(value, variable, substitute), self.rho)
         if copy:
             result = _copy.copy(self)
             result.rho = rho
@@ -483,7 +483,7 @@ class DensityMatrix(DenseState, InplaceParameterizable):
     def replace_parameters(
         self, assignment: Mapping[Parameter, ExpressionOrSupportsFloat], *, copy: bool = False
     ) -> DensityMatrix:
-        rho = np.vectorize(lambda value: with_parameters(value, assignment))(self.rho)
+        rho = _map_entries(lambda value: with_parameters(value, assignment), self.rho)
         if copy:
             result = _copy.copy(self)
             result.rho = rho
@@ -492,6 +492,15 @@ class DensityMatrix(DenseState, InplaceParameterizable):
         return self
 
 
+def _map_entries(f: Callable[[object], object], rho: Matrix) -> Matrix:
+    """Apply ``f`` to every entry; the result is symbolic if an expression remains, numeric otherwise."""
+    # Without `otypes`, NumPy would infer the type of all entries from the first one.
+    result: Matrix = np.vectorize(f, otypes=[np.object_])(rho)
+    if any(isinstance(value, Expression) for value in result.flat):
+        return result
+    return result.astype(np.complex128)
+
+
 @dataclass(frozen=True)
 class DensityMatrixBackend(DenseStateBackend[DensityMatrix]):
     """MBQC simulator with density matrix method."""
-- 
2.43.0


From e5ece2689055417ca52b8a82021f9ed603ee8ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:18 +0000
Subject: [PATCH 40/56] fix: graph_to_fusion_network terminates when cluster
 sizes are limited

---
 graphix/extraction.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/graphix/extraction.py b/graphix/extraction.py
index eea0dc3..4dd2158 100644
--- a/graphix/extraction.py
+++ b/graphix/extraction.py
@@ -72,15 +72,18 @@ def graph_to_fusion_network(
     phasedict : dict
         Dictionary of phases for each node.
     max_ghz:
-        Maximum size of ghz clusters
+        Maximum size of ghz clusters. Should be at least 2.
     max_lin:
-        Maximum size of linear clusters
+        Maximum size of linear clusters. Should be at least 2.
 
     Returns
     -------
     list
         List of :class:`ResourceGraph` objects.
     """
+    if max_ghz < 2 or max_lin < 2:
+        raise ValueError("Clusters should be allowed to have at least 2 nodes.")
+
     adjdict = {k: dict(copy.deepcopy(v)) for k, v in graph.adjacency()}
 
     number_of_edges = graph.number_of_edges()
@@ -98,7 +101,8 @@ def graph_to_fusion_network(
     # Find GHZ graphs in the graph and remove their edges from the graph.
     # All nodes that have more than 2 edges become the roots of the GHZ clusters.
     for v, _ in sorted(neighbors_list, key=operator.itemgetter(1), reverse=True):
-        if len(adjdict[v]) > 2:
+        # A root may need several GHZ clusters if their size is limited.
+        while len(adjdict[v]) > 2:
             nodes = [v]
             while len(adjdict[v]) > 0 and len(nodes) < max_ghz:
                 n, _ = adjdict[v].popitem()
-- 
2.43.0


From c3aa84e0a09628f64fd544522d6f0a06f46dd599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:18 +0000
Subject: [PATCH 41/56] fix: graph_to_fusion_network breaks cycles within the
 size limits

---
 graphix/extraction.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/graphix/extraction.py b/graphix/extraction.py
index 4dd2158..d1814a7 100644
--- a/graphix/extraction.py
+++ b/graphix/extraction.py
@@ -136,12 +136,14 @@ def graph_to_fusion_network(
         for v, va in adjdict.items():
             if len(va) == 2:
                 neighbors = list(va.keys())
+                # A 3-qubit cluster may exceed both limits.
+                if max(max_ghz, max_lin) < 3:
+                    neighbors.pop()
                 nodes = [v, *neighbors]
-                del adjdict[neighbors[0]][v]
-                del adjdict[neighbors[1]][v]
-                del va[neighbors[0]]
-                del va[neighbors[1]]
-                number_of_edges -= 2
+                for n in neighbors:
+                    del adjdict[n][v]
+                    del va[n]
+                number_of_edges -= len(neighbors)
 
                 resource_list.append(create_resource_graph(nodes, root=v))
                 break
-- 
2.43.0


From f46532e7cc19406162fe468dcca602413699fdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:04 +0000
Subject: [PATCH 42/56] fix: number of commands elided from the text of a
 pattern when the limit is 0

---
 graphix/pretty_print.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/graphix/pretty_print.py b/graphix/pretty_print.py
index 8054fba..59c246e 100644
--- a/graphix/pretty_print.py
+++ b/graphix/pretty_print.py
@@ -315,12 +315,12 @@ def pattern_to_str(
     truncated = limit is not None and len(command_list) > limit
     # Note: The redundant test `limit is not None` is required for mypy
     # to narrow the type of `limit` in the then-branch.
-    short_command_list = command_list[: limit - 1] if limit is not None and truncated else command_list
+    short_command_list = command_list[: max(limit - 1, 0)] if limit is not None and truncated else command_list
     result = separator.join(command_to_str(command, output) for command in short_command_list)
     if output == OutputFormat.LaTeX:
         result = f"\\({result}\\)"
-    if limit is not None and truncated:
-        return f"{result}...({len(command_list) - limit + 1} more commands)"
+    if truncated:
+        return f"{result}...({len(command_list) - len(short_command_list)} more commands)"
     return result
 
 
-- 
2.43.0


From ef1d30166ff8144b05a8364d7462fea80bb5f91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:04 +0000
Subject: [PATCH 43/56] fix: parentheses around sums in the text of a state
 vector

---
 graphix/pretty_print.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/graphix/pretty_print.py b/graphix/pretty_print.py
index 59c246e..807618a 100644
--- a/graphix/pretty_print.py
+++ b/graphix/pretty_print.py
@@ -4,6 +4,7 @@ from __future__ import annotations
 
 import enum
 import math
+import re
 import string
 from contextvars import ContextVar
 from enum import Enum
@@ -809,7 +810,8 @@ def _ket_str(ket: str, output: OutputFormat) -> str:
 
 def _needs_parentheses(coefficient: str) -> bool:
     """Whether a coefficient is a sum and must be parenthesized before a ket."""
-    return " + " in coefficient or " - " in coefficient
+    # Decimal sums, such as ``0.12+0.23i``, have no space around the sign.
+    return re.search(r" [+-] |\d[+-]", coefficient) is not None
 
 
 def _factor_uniform_magnitude(
@@ -853,11 +855,13 @@ def _factor_uniform_magnitude(
             value / radius, output, max_denominator=max_denominator, atol=atol, rtol=rtol, precision=precision
         )
         # A per-component phase is unit-modulus, so it is rendered as 1, -1, ±i, an
-        # exponential, or a decimal — never a parenthesizable sum.
+        # exponential, or, for other phases, a sum that must be parenthesized.
         if phase == "1":
             term = ket
         elif phase == "-1":
             term = f"-{ket}"
+        elif _needs_parentheses(phase):
+            term = f"({phase}){ket}"
         else:
             term = f"{phase}{ket}"
         if index == 0:
-- 
2.43.0


From 909eace43615050c3149ef063d2bc4c47eaeed58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:28 +0000
Subject: [PATCH 44/56] fix: representation of instructions whose angle is a
 NumPy single-precision number

---
 graphix/instruction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/instruction.py b/graphix/instruction.py
index c70d589..32479fd 100644
--- a/graphix/instruction.py
+++ b/graphix/instruction.py
@@ -33,7 +33,7 @@ def repr_angle(angle: ParameterizedAngle) -> str:
     if not isinstance(angle, SupportsFloat):
         return str(angle)
 
-    return angle_to_str(angle, OutputFormat.ASCII)
+    return angle_to_str(float(angle), OutputFormat.ASCII)
 
 
 class InstructionKind(Enum):
-- 
2.43.0


From c8d2c33b277f376de10abe19e9948945cf65179b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:15 +0000
Subject: [PATCH 45/56] fix: explanation of corrections incompatible with the
 order names the nodes

---
 graphix/flow/exceptions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphix/flow/exceptions.py b/graphix/flow/exceptions.py
index a297880..f8c1f1b 100644
--- a/graphix/flow/exceptions.py
+++ b/graphix/flow/exceptions.py
@@ -280,9 +280,9 @@ class XZCorrectionsOrderError(XZCorrectionsError):
         """Explain the error."""
         match self.reason:
             case XZCorrectionsOrderErrorReason.X:
-                return "The X-correction set {self.node} -> {self.correction_set} is incompatible with the partial order: {self.past_and_present_nodes - {self.node}} ≼ {self.node}."
+                return f"The X-correction set {self.node} -> {self.correction_set} is incompatible with the partial order: {self.past_and_present_nodes - {self.node}} ≼ {self.node}."
             case XZCorrectionsOrderErrorReason.Z:
-                return "The Z-correction set {self.node} -> {self.correction_set} is incompatible with the partial order: {self.past_and_present_nodes - {self.node}} ≼ {self.node}."
+                return f"The Z-correction set {self.node} -> {self.correction_set} is incompatible with the partial order: {self.past_and_present_nodes - {self.node}} ≼ {self.node}."
             case _:
                 assert_never(self.reason)
 
-- 
2.43.0


From 410a4f3ec00e21ae6284a5095ddfaf9fc91a664a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:41 +0000
Subject: [PATCH 46/56] fix: paths between close nodes are drawn from their
 first node

---
 graphix/visualization.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/graphix/visualization.py b/graphix/visualization.py
index 10ae8f0..8ccbd5e 100644
--- a/graphix/visualization.py
+++ b/graphix/visualization.py
@@ -1063,9 +1063,10 @@ def _check_path(path: Iterable[_Point], target_node_pos: _Point | None = None) -
             acute = False
     new_path: list[_Point] = path.tolist()
     if target_node_pos is not None:
-        for point in new_path[:-1]:
-            if np.linalg.norm(np.array(point) - np.array(target_node_pos)) < 0.2:
-                new_path.remove(point)
+        # The end points of the path are kept, even when the nodes are close to each other.
+        new_path[1:-1] = [
+            point for point in new_path[1:-1] if np.linalg.norm(np.array(point) - np.array(target_node_pos)) >= 0.2
+        ]
     return new_path
 
 
-- 
2.43.0


From f86a9ad8d9b1a4af308d332b65b3798fc6bfa9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:33 +0000
Subject: [PATCH 47/56] fix: legend of narrow drawings

---
 graphix/visualization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphix/visualization.py b/graphix/visualization.py
index 8ccbd5e..f885482 100644
--- a/graphix/visualization.py
+++ b/graphix/visualization.py
@@ -643,7 +643,9 @@ class GraphVisualizer:
 
         width, height = fig.get_size_inches()
         fig.set_size_inches(width + legend_width, max(height, legend_height), forward=True)
-        fig.subplots_adjust(right=width / (width + legend_width))
+        right = width / (width + legend_width)
+        # In narrow figures, the left margin has to stay on the left of the legend.
+        fig.subplots_adjust(left=min(fig.subplotpars.left, right / 2), right=right)
 
 
 @singledispatch
-- 
2.43.0


From e8c9eae0783f94082dd41c750e86779367465d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:33 +0000
Subject: [PATCH 48/56] fix: node labels can be hidden

---
 graphix/visualization.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphix/visualization.py b/graphix/visualization.py
index f885482..6cb0434 100644
--- a/graphix/visualization.py
+++ b/graphix/visualization.py
@@ -413,6 +413,8 @@ class GraphVisualizer:
                 fc = PAULI_NODE_FC
             plt.scatter(*self.pos[node], edgecolor=ec, facecolor=fc, s=350, zorder=2, marker=marker)
 
+        if not self.options.node_labels:
+            return
         labels = dict(self.options.node_labels) if isinstance(self.options.node_labels, Mapping) else None
         fontsize = NODE_LABEL_FS
         if max(self.og.graph.nodes(), default=0) >= 100:
-- 
2.43.0


From 9db6f3af200e6ece1e61090ed621332942fcec10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:11 +0000
Subject: [PATCH 49/56] fix: Statevector refuses amplitudes whose number is not
 a power of two

---
 graphix/sim/statevec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphix/sim/statevec.py b/graphix/sim/statevec.py
index bfb39a4..540b6a6 100644
--- a/graphix/sim/statevec.py
+++ b/graphix/sim/statevec.py
@@ -187,9 +187,9 @@ class Statevector(DenseState):
         # `SupportsFloat` is needed because `numpy.float64` is not an instance of `SupportsComplex`!
         elif isinstance(input_list[0], (SupportsComplex, SupportsFloat)):
             inferred_nqubit = length.bit_length() - 1
+            if length & (length - 1):
+                raise ValueError(f"Length of input data is not a power of two: {length}.")
             if nqubit is None:
-                if length & (length - 1):
-                    raise ValueError(f"Length of input data is not a power of two: {length}.")
                 nqubit = inferred_nqubit
             elif nqubit != inferred_nqubit:
                 raise ValueError(f"Mismatch between nqubit and inferred nqubit: {nqubit} != {inferred_nqubit}.")
-- 
2.43.0


From dc527b8edb8d7133b8cdf2dfbeb8612d6956db4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:56 +0000
Subject: [PATCH 50/56] fix: first entangling layer of rand_gate with use_rzz

---
 graphix/random_objects.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/graphix/random_objects.py b/graphix/random_objects.py
index c966c4a..4cf057c 100644
--- a/graphix/random_objects.py
+++ b/graphix/random_objects.py
@@ -313,7 +313,10 @@ def rand_gate(
     rng = ensure_rng(rng, stacklevel=stacklevel + 1)
     circuit = Circuit(nqubits)
     _first_rotation(circuit, nqubits, rng)
-    _entangler(circuit, pairs)
+    if use_rzz:
+        _entangler_rzz(circuit, pairs, rng)
+    else:
+        _entangler(circuit, pairs)
     for _ in range(depth - 1):
         _mid_rotation(circuit, nqubits, rng)
         if use_rzz:
-- 
2.43.0


From 43604dcad41890d946098ccc4f36beac774d7fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:56 +0000
Subject: [PATCH 51/56] fix: pairs given to rand_gate as an iterator

---
 graphix/random_objects.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphix/random_objects.py b/graphix/random_objects.py
index 4cf057c..4549644 100644
--- a/graphix/random_objects.py
+++ b/graphix/random_objects.py
@@ -311,6 +311,8 @@ def rand_gate(
         The generated random circuit.
     """
     rng = ensure_rng(rng, stacklevel=stacklevel + 1)
+    # The pairs are used once per layer, and an iterator can be consumed only once.
+    pairs = list(pairs)
     circuit = Circuit(nqubits)
     _first_rotation(circuit, nqubits, rng)
     if use_rzz:
-- 
2.43.0


From 2b2056743cc1d1750226348e07553857b067dfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:56 +0000
Subject: [PATCH 52/56] fix: density matrix of rank zero refused by rand_dm

---
 graphix/random_objects.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/graphix/random_objects.py b/graphix/random_objects.py
index 4549644..132fb49 100644
--- a/graphix/random_objects.py
+++ b/graphix/random_objects.py
@@ -69,6 +69,9 @@ def rand_dm(
     if rank is None:
         rank = dim
 
+    if not rank >= 1:
+        raise ValueError("The rank of a density matrix must be greater or equal than 1.")
+
     evals = rng.random(size=rank)
 
     padded_evals = np.zeros(dim)
-- 
2.43.0


From 586b38681f2ca6f2dc43c3a6d05cd61542517a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:42 +0000
Subject: [PATCH 53/56] fix: outcome 0 of probability zero selected when the
 generator draws 0.0

---
 graphix/branch_selector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphix/branch_selector.py b/graphix/branch_selector.py
index 9489319..20a1f89 100644
--- a/graphix/branch_selector.py
+++ b/graphix/branch_selector.py
@@ -86,7 +86,7 @@ class RandomBranchSelector(BranchSelector):
         rng = ensure_rng(rng, stacklevel=stacklevel + 1)
         if self.pr_calc:
             prob_0 = f_expectation0()
-            return outcome(rng.random() > prob_0)
+            return outcome(rng.random() >= prob_0)
         result: Outcome = rng.choice([0, 1])
         return result
 
-- 
2.43.0


From 34bcda190bf498a04d1adf7230fc66c3a3537da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:42 +0000
Subject: [PATCH 54/56] fix: parameters given to rand_circuit as an iterator

---
 graphix/random_objects.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphix/random_objects.py b/graphix/random_objects.py
index 132fb49..c08b1fa 100644
--- a/graphix/random_objects.py
+++ b/graphix/random_objects.py
@@ -420,10 +420,12 @@ def rand_circuit(
     """
     rng = ensure_rng(rng, stacklevel=stacklevel + 1)
     circuit = Circuit(nqubits)
+    # The parameters are used once per rotation axis, and an iterator can be consumed only once.
+    parameters = list(parameters or [])
     parametric_gate_choice = (
         functools.partial(rotation, angle=parameter)
         for rotation in (circuit.rx, circuit.ry, circuit.rz)
-        for parameter in parameters or []
+        for parameter in parameters
     )
     gate_choice: tuple[Callable[[int], None], ...] = (
         functools.partial(circuit.ry, angle=ANGLE_PI / 4),
-- 
2.43.0


From 8e9cb1acd444389f4d6fee1d964474e573f8e396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:25 +0000
Subject: [PATCH 55/56] fix: remove_local_clifford_commands returns a copy of
 an empty pattern, not the operand

---
 graphix/optimization.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/graphix/optimization.py b/graphix/optimization.py
index b700afd..a915154 100644
--- a/graphix/optimization.py
+++ b/graphix/optimization.py
@@ -617,10 +617,7 @@ def remove_local_clifford_commands(pattern: Pattern) -> Pattern:
     """
     from graphix.pattern import Pattern  # noqa: PLC0415
 
-    nodes = pattern.nodes()
-    if not nodes:
-        return pattern
-    max_node = max(nodes)
+    max_node = max(pattern.nodes(), default=-1)
     new_pattern = Pattern(input_nodes=pattern.input_nodes)
     mapping: dict[Node, Node] = {}
 
-- 
2.43.0


From c2466049aad54157dff144e818be9b8ef012a3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:35 +0000
Subject: [PATCH 56/56] fix: ComposeNoiseModel.input_nodes gives every model
 the nodes of an iterator

---
 graphix/noise_models/noise_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graphix/noise_models/noise_model.py b/graphix/noise_models/noise_model.py
index b350965..9902abc 100644
--- a/graphix/noise_models/noise_model.py
+++ b/graphix/noise_models/noise_model.py
@@ -150,6 +150,7 @@ class ComposeNoiseModel(NoiseModel):
         self, nodes: Iterable[int], rng: Generator | None = None, *, stacklevel: int = 1
     ) -> list[CommandOrNoise]:
         """Return the noise to apply to input nodes."""
+        nodes = list(nodes)  # ``nodes`` is iterated once for each model.
         return [n_cmd for m in self.models for n_cmd in m.input_nodes(nodes, rng=rng, stacklevel=stacklevel + 1)]
 
     @override
-- 
2.43.0


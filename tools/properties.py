#!/usr/bin/env python3
"""Source of properties.jsonl (regenerate with: python3 tools/properties.py)."""
import json
from pathlib import Path

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": files,
                "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                "mechanism": [{"name": a, "where": b} for a, b in mech],
                "observe_at": list(observe),
                "hook_needed": None,
            },
        }
    )


prop(
    "C01",
    "A transpiled circuit does what the circuit does, on every measurement branch",
    "Transpiling a circuit yields a runnable pattern whose every branch of adaptive-measurement outcomes, for every input state, "
    "implements exactly the circuit's operation up to global phase, all branches being equally likely for a given value of the circuit's own measurements. "
    "Input and output nodes follow the circuit's qubit order whether SWAP gates are eliminated or decomposed, and the reported classical outputs name, in gate order, "
    "nodes whose outcomes have the joint statistics of the circuit's measurement gates.",
    ["programs", "inputs", "histories"],
    "every circuit over the full gate set (identity, SWAP, RZZ, CCX and mid-circuit measurements included), every angle, every input state, every outcome history",
    "Tests transpile a few dozen random circuits and simulate one random branch of each; an identity gate truncating the circuit, or a wrong output order after SWAP and M, went unnoticed.",
    ["graphix/transpiler.py", "graphix/instruction.py", "graphix/flow/core.py", "graphix/optimization.py", "graphix/space_minimization.py"],
    [("J/CZ decomposition of every gate", "transpiler.py: instructions_to_jcz, decompose_*"), ("causal flow built while decomposing", "transpiler.py: Circuit.transpile_to_causalflow"),
     ("SWAP elimination and output reordering", "transpiler.py: transpile_swaps, Circuit.transpile")],
    [("indices", "current graph node of every circuit qubit", "transpiler.py: transpile_to_causalflow")],
    ["Circuit.transpile().pattern", "Circuit.transpile().classical_outputs"],
)
prop(
    "C02",
    "Circuit rewrites and circuit simulation preserve the circuit's meaning",
    "Every circuit-to-circuit rewrite (replacing J gates, measuring only along Z, eliminating SWAPs, decomposing composite gates, visiting instructions) returns a circuit with the same action on every input, "
    "the same measurement statistics and the same qubit and measurement order, and it accepts further gates on exactly its unmeasured qubits. Simulating a circuit returns, for every forced history of measurement outcomes, the post-measurement state prescribed by quantum mechanics, on both dense backends.",
    ["programs", "inputs", "histories"],
    "every circuit over the full gate set, every input state, every history of measurement outcomes, both dense backends",
    "Each rewrite is tested on a few circuits with one random outcome; they share the decomposition code with the transpiler, so comparing the two hides common faults.",
    ["graphix/transpiler.py", "graphix/instruction.py", "graphix/ops.py"],
    [("rewrites", "transpiler.py: transpile_j_to_rzh, transpile_measurements_to_z_axis, transpile_swaps, decompose_*"), ("gate simulation", "transpiler.py: Circuit.simulate"), ("gate matrices", "ops.py: Ops")],
    (),
    ["Circuit.simulate", "rewritten Circuit.instruction"],
)
prop(
    "F01",
    "A flow is found exactly when one exists, and the one returned is valid",
    "For every open graph, asking for a causal flow, a generalised flow or a Pauli flow returns one if and only if the open graph has one. "
    "Whatever is returned satisfies the defining conditions of its kind, and its layers form a valid measurement order covering every node once, outputs in the first layer, with as few layers as possible; generalised and Pauli flows are focused.",
    ["inputs"],
    "every open graph: every graph, every choice and order of inputs and outputs, every labelling of measured nodes with planes and axes",
    "Tests use about twenty hand-picked graphs; existence is a statement about all correction functions and orders, and several shortcuts (equal numbers of inputs and outputs, causal-flow fast path) only differ on unusual graphs.",
    ["graphix/flow/_find_cflow.py", "graphix/flow/_find_gpflow.py", "graphix/_linalg.py", "graphix/flow/_partial_order.py", "graphix/opengraph.py"],
    [("layer-by-layer causal flow search", "_find_cflow.py"), ("flow-demand/order-demand algebraic search", "_find_gpflow.py: compute_correction_matrix, compute_partial_order_layers"), ("GF(2) elimination", "_linalg.py: MatGF2")],
    [("kls_matrix", "system updated while columns are chosen when outputs exceed inputs", "_find_gpflow.py: _update_kls_matrix")],
    ["OpenGraph.to_causalflow_or_none", "OpenGraph.to_gflow_or_none", "OpenGraph.to_pauliflow_or_none"],
)
prop(
    "F02",
    "A pattern generated from a flow is deterministic on every branch",
    "The pattern generated from an open graph with a flow, through any kind of flow the graph has, is runnable and implements the same linear map on every branch of measurement outcomes, with equal probability, for every input. "
    "That map is the one obtained by projecting every measured node on the positive outcome, and does not depend on the kind of flow used or on the compatible measurement order chosen.",
    ["inputs", "histories", "configurations"],
    "every open graph with flow, every measurement angle, every flow kind, every compatible measurement order, every outcome branch",
    "Tests simulate random branches of a handful of graphs; determinism is a statement about all 2^m branches.",
    ["graphix/flow/core.py", "graphix/opengraph.py", "graphix/pattern.py"],
    [("corrections derived from the flow", "flow/core.py: PauliFlow/GFlow/CausalFlow.to_xzcorrections"), ("pattern generation", "flow/core.py: XZCorrections.to_pattern, OpenGraph.to_pattern")],
    (),
    ["OpenGraph.to_pattern", "XZCorrections.to_pattern"],
)
prop(
    "F03",
    "Well-formedness checks accept valid flows and corrections, reject invalid ones",
    "Checking a causal, generalised or Pauli flow succeeds exactly when the correction function and layered order meet the definition of that kind of flow for the open graph, and raises a flow error otherwise. "
    "Checking a set of X and Z corrections succeeds exactly when the corrections respect the order and the layers cover the graph correctly; a measurement order is called compatible exactly when it is a linear extension of the order on the measured nodes; "
    "and every kind of flow or corrections that passes the check can be turned into a runnable pattern.",
    ["inputs"],
    "every (open graph, correction function, layering) triple, valid or not",
    "Tests enumerate a few invalid examples per error; a checker that skips one condition still rejects all of them.",
    ["graphix/flow/core.py", "graphix/flow/exceptions.py"],
    [("flow conditions", "flow/core.py: *.check_well_formed, _check_flow_general_properties"), ("order compatibility", "flow/core.py: XZCorrections.is_compatible")],
    (),
    ["check_well_formed / is_well_formed", "is_compatible"],
)
prop(
    "F04",
    "Patterns, open graphs, flows and corrections convert into each other faithfully",
    "Reading off the open graph, the XZ-corrections, the flow or the partial order of a pattern generated from a flow returns the graph, inputs, outputs, measurements and corrections it was generated from. "
    "A flow extracted from a pattern is well formed and, when the pattern is deterministic, generates a pattern with the same meaning; extraction fails with a flow error, rather than returning an ill-formed flow, exactly when no flow of the requested kind with the pattern's X-corrections (for a Pauli flow, with its X and Z-corrections) and order exists.",
    ["inputs", "programs"],
    "every pattern generated from an open graph with causal, generalised or Pauli flow, and every small pattern with arbitrary corrections",
    "Round trips are tested on a dozen fixed examples with one flow each.",
    ["graphix/flow/core.py", "graphix/optimization.py", "graphix/pattern.py", "graphix/opengraph.py"],
    [("reconstruction of flows from corrections", "flow/core.py: XZCorrections.to_causalflow/to_gflow/to_pauliflow, _solve_pauli_correction_set"), ("layers of a pattern", "optimization.py: StandardizedPattern.partial_order_layers")],
    (),
    ["Pattern.to_opengraph", "Pattern.to_xzcorrections", "Pattern.to_causalflow/to_gflow/to_pauliflow"],
)
prop(
    "P01",
    "Standardization preserves the meaning of every pattern and yields standard form",
    "Standardizing a runnable pattern gives a runnable pattern in standard form with the same inputs and outputs in the same order which, for every input and every history of measurement outcomes, produces the same state with the same probability. "
    "The standard form reports the true graph, and cleaning up unused or multi-qubit domains changes nothing observable.",
    ["programs", "histories"],
    "every runnable sequence of N, E, M, X, Z and C commands, every branch",
    "Random patterns in the tests come from circuit transpilation, whose command order is already nearly standard: interleavings with Cliffords, repeated edges, and corrections between entanglements are not reached.",
    ["graphix/optimization.py", "graphix/pattern.py", "graphix/clifford.py", "graphix/command.py"],
    [("single pass commuting corrections and Cliffords", "optimization.py: StandardizedPattern.from_pattern"), ("domain clean-up", "optimization.py: remove_useless_domains, single_qubit_domains")],
    [("z_dict/x_dict/c_dict", "pending corrections of every node", "optimization.py: from_pattern")],
    ["Pattern.standardize", "StandardizedPattern.to_pattern", "Pattern.is_standard"],
)
prop(
    "P02",
    "Signal shifting preserves the state and accounts for every changed outcome",
    "Shifting signals by either method leaves the pattern runnable, with every branch of the original reproduced (same state, same probability) by the branch of the shifted pattern obtained by updating the outcomes with the returned signals. "
    "The direct and the measurement-calculus method agree, and the domains removed by the procedure are gone.",
    ["programs", "histories"],
    "every runnable standard pattern with arbitrary measurement planes and domains, every branch",
    "Tests compare final states of circuits on one branch; the outcome accounting and the XZ and YZ planes are touched by one test each.",
    ["graphix/pattern.py", "graphix/optimization.py"],
    [("direct method", "pattern.py: shift_signals_direct"), ("measurement calculus", "pattern.py: signals, _commute_*s"), ("outcome update", "pattern.py: shift_outcomes")],
    (),
    ["Pattern.shift_signals", "shift_outcomes"],
)
prop(
    "P03",
    "Pauli measurement removal and Clifford removal preserve the pattern's meaning",
    "Pushing Pauli measurements to the front, removing them and removing local Clifford commands each return a runnable pattern with the same inputs and outputs in the same order that implements the same map on every input. "
    "Pushing keeps the outcome statistics, removal leaves no non-input Pauli measurement that could have been removed, and no operation changes the original pattern unless done in place.",
    ["programs", "inputs", "histories"],
    "every pattern with a flow and any mixture of Pauli and non-Pauli measurements (all axes and signs, with and without domains), every input, every branch",
    "Random-circuit tests compare one final state; the local-complement and pivot cases depend on the neighbourhood and on which neighbours are inputs or outputs.",
    ["graphix/remove_pauli_measurements.py", "graphix/optimization.py", "graphix/pattern.py"],
    [("graph rewriting", "remove_pauli_measurements.py: local_complement, pivot_edge, remove_*"), ("pushing", "remove_pauli_measurements.py: PauliPushingCut"), ("Clifford removal", "optimization.py: remove_local_clifford_commands")],
    (),
    ["Pattern.perform_pauli_pushing", "Pattern.remove_pauli_measurements", "Pattern.remove_local_clifford_commands"],
)
prop(
    "P04",
    "Rescheduling for space or depth preserves meaning, and the metrics are true",
    "Minimising space, parallelising and sorting measurements return runnable patterns with the same meaning on every branch, and minimising space never increases the peak number of live qubits, does as well as each of its heuristics, and is optimal for patterns with a causal flow. "
    "The reported maximal space, space list, number of nodes, degree, layers and isolated nodes equal what executing the command sequence actually shows.",
    ["programs", "schedules"],
    "every runnable pattern, every valid measurement order, every heuristic",
    "Tests check a handful of patterns and only that a number decreased.",
    ["graphix/space_minimization.py", "graphix/pattern.py", "graphix/optimization.py"],
    [("heuristics", "space_minimization.py: SpaceMinimizationHeuristics, minimize_space"), ("metrics", "pattern.py: max_space, space_list, n_node, max_degree, isolated_nodes, connected_nodes")],
    (),
    ["Pattern.minimize_space", "Pattern.parallelize_pattern", "Pattern.max_space"],
)
prop(
    "P05",
    "Composing and reindexing patterns composes and renames their maps",
    "Composing two patterns yields the pattern that runs the first and then the second with the chosen outputs plugged into the chosen inputs, for every legal partial mapping, with inputs and outputs in the documented order and all other nodes kept apart. "
    "Illegal mappings are rejected, the returned mapping is complete, and reindexing only renames nodes.",
    ["inputs", "programs"],
    "every pair of patterns and every legal or illegal node mapping, with or without order preservation",
    "Tests try a dozen mappings; the node-collision and ordering cases grow combinatorially.",
    ["graphix/pattern.py"],
    [("composition", "pattern.py: Pattern.compose, node_mapping, reindex")],
    (),
    ["Pattern.compose", "Pattern.reindex"],
)
prop(
    "P06",
    "The runnability check accepts exactly the executable patterns",
    "The runnability check raises an error exactly when executing the commands in order would use a node before it is prepared or after it is measured, prepare a node twice, or depend on an outcome not yet available, and the error names the first offending command and the right reason. "
    "An accepted pattern runs to completion on the simulators, leaving exactly its output nodes live.",
    ["programs"],
    "every sequence of commands over a small set of nodes, well-formed or not",
    "Tests try one example per error reason.",
    ["graphix/pattern.py", "graphix/simulator.py"],
    [("abstract execution", "pattern.py: Pattern.check_runnability"), ("output tracking", "pattern.py: Pattern.add, output_nodes")],
    (),
    ["Pattern.check_runnability", "Pattern.simulate"],
)
prop(
    "P07",
    "Operations on one object never change another",
    "Operations documented to return a new pattern, circuit, graph, flow or state leave their operands unchanged, and applying in-place operations to the result (or to the original afterwards) is never visible through the other object. "
    "In-place operations change only the object they are called on.",
    ["histories"],
    "every sequence of library operations on two objects derived from one another",
    "Aliasing shows only when a specific later mutation follows a specific earlier operation; tests use each object once.",
    ["graphix/pattern.py", "graphix/optimization.py", "graphix/command.py", "graphix/transpiler.py", "graphix/sim/density_matrix.py", "graphix/sim/tensornet.py"],
    [("copying", "pattern.py: Pattern.copy, compose, map; optimization.py: StandardizedPattern.to_pattern"), ("in-place commutation", "pattern.py: _commute_*")],
    (),
    ["observable value of every earlier object after each operation"],
)
prop(
    "S01",
    "The statevector backend applies every operation exactly, to the right qubits",
    "After any sequence of preparations, gates, entanglements, measurements, permutations and qubit removals, the statevector equals the one obtained by textbook linear algebra, for every node order, capacity and register size. "
    "Measurements remove exactly the measured qubit, return outcomes with Born-rule probability, comparisons (closeness, fidelity, norm, expectation values) are those of the state, and operations on qubits out of range and initial data of inconsistent size are refused, leaving the state unchanged.",
    ["histories", "inputs"],
    "every sequence of backend operations on a small register, every initial state form, every outcome",
    "Tests apply each operation once to a random state; errors in in-place buffer handling depend on the sequence of sizes.",
    ["graphix/sim/statevec.py", "graphix/sim/base_backend.py"],
    [("in-place kernels over a preallocated buffer", "sim/statevec.py"), ("node bookkeeping", "sim/base_backend.py: NodeIndex")],
    [("_psi/_nqubit", "buffer of which a prefix is live", "sim/statevec.py: Statevector"), ("node_index", "node to qubit position", "sim/base_backend.py: NodeIndex")],
    ["Statevector.flatten/psi", "StatevectorBackend.measure"],
)
prop(
    "S02",
    "Density-matrix simulation is exact; channels are trace preserving and exact",
    "After any sequence of operations and channels the density matrix equals that of textbook linear algebra, stays Hermitian, positive and of unit trace, and agrees with the statevector when no noise is applied. "
    "Every provided channel is trace preserving with the documented action for every probability, and the tensor product of channels acts as the tensor product.",
    ["histories", "inputs"],
    "every sequence of backend operations and channels on a small register, every channel parameter",
    "Tests check each channel's Kraus operators against the same formulas; one provided channel could not even be built.",
    ["graphix/sim/density_matrix.py", "graphix/channels.py", "graphix/sim/base_backend.py"],
    [("evolution", "sim/density_matrix.py: DensityMatrix"), ("Kraus operators", "channels.py")],
    (),
    ["DensityMatrix.rho", "KrausChannel"],
)
prop(
    "S03",
    "Pattern simulation follows the chosen branch and the Born rule, on every backend",
    "Simulating a pattern on the statevector or density-matrix backend gives, for every outcome history requested through a branch selector, the state prescribed by quantum mechanics in output-node order, for every supported way of giving the input state. "
    "Branch selectors are offered true probabilities, random selection follows them and is reproducible from the seed of the given generator, and recorded results are the outcomes observed.",
    ["programs", "histories", "inputs", "configurations"],
    "every small pattern, every branch, every input-state form, every selector configuration, both dense backends",
    "Tests run patterns from circuits, which are deterministic, so a wrong branch probability or a result recorded under the wrong node is invisible.",
    ["graphix/simulator.py", "graphix/branch_selector.py", "graphix/sim/base_backend.py", "graphix/pattern.py"],
    [("command loop", "simulator.py: PatternSimulator.run"), ("signals", "simulator.py: DefaultMeasureMethod"), ("selectors", "branch_selector.py"), ("probabilities", "sim/base_backend.py: DenseStateBackend.measure, perform_measure")],
    (),
    ["Pattern.simulate", "MeasureMethod.results", "BranchSelector.measure arguments"],
)
prop(
    "S04",
    "Tensor-network simulation agrees with the exact state",
    "For every pattern the tensor-network backend supports, with either graph preparation mode, the amplitudes, statevector, expectation values and norms it reports equal those of the exact output state in output-node order. "
    "Copying a tensor network gives an independent network with the same state.",
    ["programs", "inputs", "configurations"],
    "every standard pattern and graph up to the bound, every input basic state, every branch, both preparation modes",
    "Tests compare a few random circuits and gates; the operator decompositions and the node bookkeeping depend on the qubit positions.",
    ["graphix/sim/tensornet.py"],
    [("network construction", "sim/tensornet.py: MBQCTensorNet"), ("backend", "sim/tensornet.py: TensorNetworkBackend")],
    [("_dangling", "open index of every node", "sim/tensornet.py: MBQCTensorNet")],
    ["MBQCTensorNet.to_statevector, get_basis_amplitude, expectation_value"],
)
prop(
    "N01",
    "Noise models insert exactly the documented noise and nothing else",
    "Applying a noise model to a pattern keeps its commands in order and adds exactly the documented noise with the documented probabilities after preparations, entanglements and corrections, before measurements, on input nodes, and conditioned on the same domains as the correction; "
    "the simulated result equals the exact evolution with these channels. With zero probability the model is the identity, measurement results are flipped with the stated probability, and composed models transform the commands by each component in turn.",
    ["programs", "configurations", "histories"],
    "every small pattern, every noise model and composition, every parameter assignment, every branch and confusion outcome",
    "Tests check closed-form fidelities of two small patterns.",
    ["graphix/noise_models/depolarising.py", "graphix/noise_models/amplitude_damping.py", "graphix/noise_models/noise_model.py", "graphix/simulator.py", "graphix/channels.py"],
    [("noise insertion", "noise_models/*.py: command, input_nodes, confuse_result"), ("composition", "noise_model.py: ComposeNoiseModel"), ("execution", "simulator.py: PatternSimulator.run; density_matrix.py: apply_noise")],
    (),
    ["Pattern.simulate(backend='densitymatrix', noise_model=...)"],
)
prop(
    "G01",
    "Graph-state manipulation tracks the true quantum state",
    "Every sequence of graph-state operations (adding nodes and edges, Clifford gates, local complementation, equivalent-graph rewrites, Pauli measurements) keeps the represented stabilizer state equal to the true state, and measurement results have the true probabilities. "
    "Impossible results are never reported, and bookkeeping sets describe the graph.",
    ["histories"],
    "every operation sequence on small graphs, every measurement choice and outcome",
    "Tests check single operations on three-node graphs; the vertex-operator algebra has thousands of state combinations.",
    ["graphix/graphsim.py", "graphix/clifford.py"],
    [("vertex operators", "graphsim.py: GraphState.sign/hadamard/loop, apply_vops, measure_x/y/z"), ("equivalence rewriting", "graphsim.py: local_complement, equivalent_graph_e1/e2, equivalent_fill_node")],
    [("sign/hadamard/loop attributes", "local Clifford of each node", "graphsim.py")],
    ["GraphState.to_statevector", "measure_x/measure_y/measure_z results"],
)
prop(
    "A01",
    "Clifford, Pauli and measurement algebra is the algebra of the matrices",
    "Products, conjugates, actions on Paulis, domain commutation and decompositions of single-qubit Cliffords, products of Paulis with phases, planes, axes and signs all equal the corresponding matrix computation. "
    "Rewriting a measurement by a Clifford, as an axis, as a plane and angle, or inferring that it is Pauli, denotes the same observable with the same outcome labels, within the stated tolerance.",
    ["inputs"],
    "every element and pair of elements (24 Cliffords, 16 phased Paulis, all axes, planes, signs), every multiple of pi/4 shifted by whole turns and generic angles",
    "The tables are tested by the same tables; tests sample measurement angles.",
    ["graphix/clifford.py", "graphix/_db.py", "graphix/pauli.py", "graphix/fundamentals.py", "graphix/measurements.py", "graphix/ops.py", "graphix/states.py"],
    [("tables", "_db.py"), ("operations", "clifford.py, pauli.py, measurements.py, fundamentals.py")],
    (),
    ["Clifford, Pauli, Measurement public operations"],
)
prop(
    "A02",
    "GF(2) linear algebra is exact",
    "Rank, row reduction, null space, right inverse, products and back substitution over GF(2) return mathematically correct results for every matrix, leave their operands unchanged, and report non-existence exactly when there is none.",
    ["inputs"],
    "every binary matrix up to the bound and every right-hand side",
    "Tests use about ten matrices; wrong pivots only show for particular rank profiles.",
    ["graphix/_linalg.py"],
    [("elimination", "_linalg.py: _elimination_jit, MatGF2"), ("back substitution", "_linalg.py: solve_f2_linear_system")],
    (),
    ["MatGF2 methods", "solve_f2_linear_system"],
)
prop(
    "O01",
    "Open graphs compose, compare and substitute as the objects they denote",
    "Composing two open graphs along a legal mapping unites their graphs with the documented order of inputs and outputs, and plugging outputs into inputs composes the maps they denote; illegal mappings and ill-formed open graphs are rejected. "
    "Structural equality and closeness hold exactly for equal graphs, inputs, outputs and measurements, neighbourhood queries are those of the graph, and inferring Pauli measurements or converting labels changes no observable.",
    ["inputs"],
    "every pair of small open graphs and every mapping between them",
    "Tests compose a handful of examples.",
    ["graphix/opengraph.py"],
    [("validation", "opengraph.py: OpenGraph.__post_init__"), ("composition", "opengraph.py: OpenGraph.compose"), ("comparison", "opengraph.py: isclose, is_equal_structurally")],
    (),
    ["OpenGraph.compose", "OpenGraph.isclose", "OpenGraph.odd_neighbors"],
)
prop(
    "E01",
    "A circuit extracted from an open graph implements the open graph's map",
    "For every open graph with Pauli flow, extraction returns a circuit that, on every input, implements the map of the open graph up to phase, with qubits in input and output order, and the Pauli strings, exponentials and Clifford map it is built from represent their parts exactly. "
    "Extraction, unlike ordinary compilation, needs no ancilla.",
    ["inputs"],
    "every open graph with Pauli flow and as many outputs as inputs, every angle and axis",
    "Tests round-trip random circuits, whose flows are causal; genuinely Pauli flows with Y and Z measured nodes occur in a few fixtures.",
    ["graphix/circ_ext/extraction.py", "graphix/circ_ext/compilation.py", "graphix/flow/core.py", "graphix/opengraph.py"],
    [("Pauli strings of a focused flow", "circ_ext/extraction.py: PauliString.from_measured_node, CliffordMap.from_focused_flow"), ("synthesis", "circ_ext/compilation.py: pexp_ladder_pass, cm_berg_pass")],
    (),
    ["OpenGraph.to_circuit", "PauliFlow.extract_circuit"],
)
prop(
    "Q01",
    "Exported OpenQASM 3 programs mean what the circuit or pattern means",
    "The OpenQASM 3 text exported for a circuit or a pattern declares enough qubits and bits and, executed by the language's definition, has the same action, measurement results and conditional corrections as the original, for every input and every outcome.",
    ["programs", "inputs", "histories"],
    "every small circuit over the full gate set and every small pattern with all planes, axes, Cliffords and domains",
    "Round-trip tests use the same gate-name table for reading and writing, so a wrong name or sign cancels out.",
    ["graphix/qasm3_exporter.py"],
    [("circuit export", "qasm3_exporter.py: circuit_to_qasm3, instruction_to_qasm3"), ("pattern export", "qasm3_exporter.py: pattern_to_qasm3, command_to_qasm3")],
    (),
    ["circuit_to_qasm3", "pattern_to_qasm3"],
)
prop(
    "T01",
    "Substituting parameters gives the object built with the values",
    "Substituting numbers for parameters in expressions, circuits, patterns, flows and open graphs gives what building them with the numbers would give, simultaneously for several parameters, and commutes with transpilation and the other pattern transformations. "
    "Affine arithmetic on expressions agrees with arithmetic on numbers, and an object reports being parameterized exactly while an uninstantiated parameter remains.",
    ["inputs", "histories"],
    "every expression tree up to the bound, every assignment including one parameter by another, every place an angle can occur",
    "Tests substitute into one gate or pattern at a time; cancellation and simultaneous renaming are not reached.",
    ["graphix/parameter.py", "graphix/transpiler.py", "graphix/pattern.py", "graphix/flow/core.py", "graphix/opengraph.py"],
    [("affine expressions", "parameter.py: AffineExpression, Placeholder"), ("substitution", "*.replace_parameter(s), with_parameter(s)")],
    (),
    ["replace_parameter(s)", "is_parameterized"],
)
prop(
    "R01",
    "Printed representations evaluate back to an equal object",
    "Evaluating the printed Python representation of a pattern, command, measurement, basis state, Clifford, Pauli or angle-free instruction gives an equal object, with angles exact; the representation of a circuit names every instruction with its operands, and its angle as a multiple of pi or in radians. "
    "The ASCII, Unicode and LaTeX texts of a pattern show every selected command once with its nodes, plane, angle and domains, in the requested direction, and the number shown plus the number announced as elided is the number selected, for every limit.",
    ["inputs", "programs"],
    "every command and instruction over the alphabet with every small angle fraction and domain, and patterns over them",
    "Tests compare the representation of one circuit and two patterns and print a few random patterns without reading them.",
    ["graphix/pretty_print.py", "graphix/repr_mixins.py", "graphix/instruction.py", "graphix/pattern.py", "graphix/measurements.py"],
    [("representation", "repr_mixins.py: DataclassReprMixin, measurements.py, instruction.py: repr_angle"), ("text", "pretty_print.py: angle_to_str, command_to_str, pattern_to_str")],
    (),
    ["repr()", "Pattern.to_ascii/to_latex/to_unicode"],
)
prop(
    "R02",
    "Drawn states, matrices, flows and errors denote the objects they are drawn from",
    "Reading the drawing of a number, state vector or density matrix as mathematics, in each of the three formats and either bit order, gives back the number, state or matrix up to the requested tolerance and precision, and fractions, square roots and phases within the largest denominator are drawn exactly. "
    "The texts of flows and corrections list exactly their correction functions and partial order, Pauli strings read back as themselves, and the explanation of a flow error names the offending node and sets.",
    ["inputs"],
    "every fraction, root, phase and sum up to the bound with offsets and settings, every small state vector over the amplitude alphabet, every small flow and correction function",
    "Tests compare a few dozen drawings with fixed strings; most amplitudes, phases, tolerances and formats are not reached.",
    ["graphix/pretty_print.py", "graphix/sim/statevec.py", "graphix/sim/density_matrix.py", "graphix/flow/core.py", "graphix/flow/exceptions.py", "graphix/circ_ext/extraction.py"],
    [("numbers", "pretty_print.py: complex_to_str"), ("states", "pretty_print.py: statevec_to_str, density_matrix_to_str"), ("flows", "pretty_print.py: flow_to_str, xzcorr_to_str")],
    (),
    ["Statevector.draw", "DensityMatrix.draw", "PauliFlow.to_ascii/to_latex/to_unicode", "str(FlowError)"],
)
prop(
    "U01",
    "Random objects are what they are named for, for every draw",
    "Whatever the generator answers, random matrices, states, channels and circuits are valid: Hermitian, unitary, density matrices of the requested rank, complete channels of the requested Choi rank, normalised states; circuits have the requested width and layers, only gates of the enabled families "
    "(every one of them reachable, on every choice of qubits) and the requested entanglers in every layer. They are functions of the given generator alone, ranks that do not exist are refused, and the linear-algebra predicates agree with their definitions.",
    ["inputs", "histories"],
    "every sequence of discrete draws up to a deviation bound, lattices of continuous draws, every rank and option, every small matrix over an alphabet",
    "Tests draw a few objects from seeded generators; options of rand_gate and rand_circuit, ranks and the answers that are rare are not reached.",
    ["graphix/random_objects.py", "graphix/linalg_validations.py", "graphix/rng.py"],
    [("circuits", "random_objects.py: rand_circuit, rand_gate"), ("channels", "random_objects.py: rand_channel_kraus, rand_pauli_channel_kraus"), ("predicates", "linalg_validations.py")],
    (),
    ["random_objects.rand_*", "linalg_validations.is_*", "rng.ensure_rng"],
)
prop(
    "V01",
    "Drawings show every node, edge and correction, between the right nodes",
    "Drawing an open graph, a flow or XZ-corrections succeeds with every option, and draws every node once, at a point of its own, in the column of its layer when there is an order, every edge once and every correction once, "
    "each as a path from its first to its second node, corrections coloured by kind. Markers tell inputs, outputs and Pauli-measured nodes apart, and labels and legend name exactly what is drawn and asked for.",
    ["inputs", "configurations"],
    "every small open graph, flow and correction map, with all combinations of drawing options and several node distances",
    "Tests compare nine reference images of fixed patterns with the default options; they skip when pytest-mpl is not active, and no other object or option is read back.",
    ["graphix/visualization.py", "graphix/opengraph.py", "graphix/flow/core.py", "graphix/pattern.py"],
    [("coordinates", "visualization.py: _compute_positions"), ("paths", "visualization.py: _find_bezier_path, _check_path, _compute_arrow_paths"), ("artists", "visualization.py: GraphVisualizer.visualize")],
    (),
    ["GraphVisualizer.visualize", "OpenGraph.draw", "PauliFlow.draw", "XZCorrections.draw", "Pattern.draw"],
)
prop(
    "X01",
    "Fusion-network extraction partitions the graph into legal resource states",
    "Extracting a fusion network from a graph terminates and returns resource graphs that are stars or lines within the requested size limits (at least two nodes) and whose edges, put together, are exactly the edges of the graph without repetition. "
    "Reported fusion links are exactly the nodes shared between resource graphs.",
    ["inputs", "configurations"],
    "every small graph and every size limit",
    "Tests use five graphs without size limits beyond one value.",
    ["graphix/extraction.py"],
    [("greedy extraction", "extraction.py: graph_to_fusion_network"), ("links", "extraction.py: fusion_nodes")],
    (),
    ["graph_to_fusion_network"],
)

if __name__ == "__main__":
    out = Path(__file__).resolve().parent.parent / "properties.jsonl"
    out.write_text("".join(json.dumps(p) + "\n" for p in P))
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))

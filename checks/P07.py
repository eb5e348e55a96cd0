"""P07: operations on one object never change another."""

import dataclasses
import itertools
import warnings

import networkx as nx
import numpy as np
from graphix import Axis, Circuit, Clifford, Pattern, Placeholder, StandardizedPattern, Statevector, command
from graphix.branch_selector import ConstBranchSelector, FixedBranchSelector
from graphix.channels import depolarising_channel
from graphix.graphsim import GraphState
from graphix.measurements import BlochMeasurement
from graphix.noise_models import DepolarisingNoiseModel
from graphix.parameter import Expression
from graphix.optimization import remove_local_clifford_commands, remove_useless_domains, single_qubit_domains, standardize
from graphix.fundamentals import Plane
from graphix.sim.density_matrix import DensityMatrix, DensityMatrixBackend
from graphix.sim.statevec import StatevectorBackend
from graphix.simulator import DefaultMeasureMethod
from graphix.states import BasicStates
from graphix.transpiler import transpile_swaps

from mc import circ, og, pat

warnings.simplefilter("ignore")

META = {
    "bounds": {
        "quick": "8 patterns (domains, signals, Paulis, Cliffords, parameter, permuted outputs) x 32 operations returning another object x one in-place operation on either object (two for 4 of the patterns; 25 pattern, "
        "8 circuit operations), and for one pattern every pair of returning operations followed by one in-place operation; 6 circuits with two in-place operations or two returning and one; "
        "5 open graphs x every chain of three derived objects; "
        "8 states x constructions, products and backend registrations x every pair of in-place operations; graph states with copies; every object is compared with its own earlier value after each step",
        "thorough": "two in-place operations and pairs of returning operations for all 8 patterns; sequences of <=3 in-place operations for 3 returning operations that share most, pairs of returning operations followed by <=2 in-place ones",
    },
    "assumptions": ["objects are changed through the library's operations, not by editing the fields of a command or array obtained from them"],
}

ALPHA = Placeholder("alpha")
A = "XY:0.37"

BASES = [
    # flow pattern with signals (t-domains), in measurement-calculus order
    ([0], [["N", 1], ["E", 0, 1], ["M", 0, A, [], []], ["N", 2], ["E", 1, 2], ["M", 1, A, [0], []], ["X", 2, [1]], ["Z", 2, [0]]], None),
    # not standard: corrections before entanglement and measurement
    ([0], [["N", 1], ["E", 0, 1], ["M", 0, A, [], []], ["X", 1, [0]], ["N", 2], ["E", 1, 2], ["M", 1, "XZ:0.2", [], []], ["X", 2, [1]], ["N", 3], ["E", 2, 3], ["M", 2, A, [], []], ["X", 3, [2]]], None),
    # standard with s and t domains on every plane, two outputs permuted
    ([0, 1], [["N", 2], ["N", 3], ["E", 0, 2], ["E", 1, 3], ["E", 2, 3], ["M", 0, A, [], []], ["M", 1, "YZ:0.6", [0], [0]], ["X", 2, [0, 1]], ["Z", 3, [0]], ["Z", 2, [1]]], [3, 2]),
    # Paulis and Cliffords
    ([0], [["N", 1], ["N", 2], ["E", 0, 1], ["E", 1, 2], ["M", 0, "X-", [], []], ["M", 1, "Y+", [0], []], ["X", 2, [1]], ["Z", 2, [0]], ["C", 2, 6]], None),
    # chained signals, Bloch measurements that are Pauli
    ([], [["N", 0], ["N", 1], ["N", 2], ["N", 3], ["E", 0, 1], ["E", 1, 2], ["E", 2, 3], ["M", 0, "XY:0.5", [], []], ["M", 1, A, [], [0]], ["M", 2, "XZ:0.37", [1], [0, 1]], ["X", 3, [0, 2]], ["Z", 3, [1]]], None),
    # parameterized
    ([0], [["N", 1], ["E", 0, 1], ["M", 0, "alpha", [], []], ["Z", 1, [0]], ["C", 1, 2], ["X", 1, [0]]], None),
    # inputs that are outputs, correction on an input-output node
    ([1, 0], [["N", 2], ["E", 0, 2], ["M", 2, "YZ:0.37", [], []], ["Z", 0, [2]], ["X", 1, [2]], ["E", 0, 1]], [0, 1]),
    # no node at all, no command, and inputs that are the only nodes
    ([], [], None),
    ([2, 0], [], [0, 2]),
    # three measurements with common domains
    ([0, 1], [["N", 2], ["N", 3], ["E", 0, 2], ["E", 2, 3], ["M", 0, A, [], []], ["M", 1, "XZ:0.7", [0], [0]], ["M", 2, A, [0, 1], [1]], ["Z", 3, [0, 1]], ["X", 3, [2]]], None),
]

CIRCUITS = [
    (2, [["H", 0], ["CNOT", 0, 1], ["RZ", 1, 0.37], ["SWAP", 0, 1], ["RX", 0, 0.2]]),
    (2, [["J", 0, 0.37], ["RZZ", 0, 1, 0.2], ["M", 0, "X"], ["RY", 1, 0.6]]),
    (3, [["CCX", 0, 1, 2], ["SWAP", 1, 2], ["M", 2, "Y"], ["SWAP", 0, 1]]),
    (1, [["S", 0], ["Y", 0], ["Z", 0], ["I", 0], ["M", 0, "Z"]]),
    (2, [["RX", 0, "alpha"], ["CZ", 0, 1], ["RZ", 1, "alpha"], ["SWAP", 0, 1], ["J", 1, "alpha"]]),
    (2, []),
]

OGS = [
    [3, [[0, 1], [1, 2]], [0], [2], {"0": A, "1": A}],
    [4, [[0, 2], [1, 3], [2, 3]], [0, 1], [3, 2], {"0": A, "1": "XY:0.5"}],
    [3, [[0, 1], [1, 2]], [0], [2], {"0": "X-", "1": "Y+"}],
    [4, [[0, 1], [1, 2], [1, 3]], [0], [2], {"0": A, "1": A, "3": "YZ:0.37"}],
    [2, [[0, 1]], [1, 0], [0, 1], {}],
]


def mk(i):
    inputs, seq, outs = BASES[i]
    cmds = [
        command.M(d[1], BlochMeasurement(ALPHA, Plane.XY), set(d[3]), set(d[4])) if d[0] == "M" and d[2] == "alpha" else pat.cmd(d)
        for d in seq
    ]
    p = Pattern(input_nodes=inputs, cmds=cmds)
    if outs is not None:
        p.reorder_output_nodes(outs)
    return p


def mkcirc(i):
    n, gates = CIRCUITS[i]
    return circ.build(n, [[*g[:-1], ALPHA] if g[-1] == "alpha" else g for g in gates])


# ---------------------------------------------------------------- observable values

def value(x):
    """The observable value of an object, as nested tuples that share nothing with it."""
    if isinstance(x, Pattern):
        return ("pattern", tuple(x.input_nodes), tuple(x.output_nodes), x.n_node, tuple(value(c) for c in x))
    if isinstance(x, Circuit):
        return ("circuit", x.width, tuple(repr(i) for i in x.instruction), tuple(sorted(x.active_qubits)))
    if isinstance(x, GraphState):
        return ("gs", tuple(sorted((v, bool(d["sign"]), bool(d["hollow"]), bool(d["loop"])) for v, d in x.nodes(data=True))), frozenset(frozenset(e) for e in x.edges()))
    if isinstance(x, nx.Graph):
        return ("graph", tuple(sorted(x.nodes())), frozenset((tuple(e) if x.is_directed() else frozenset(e)) for e in x.edges()))
    if isinstance(x, (Statevector, DensityMatrix)):
        return ("state", x.nqubit, tuple(np.round(np.asarray(x.flatten(), dtype=complex).reshape(-1), 12).tolist()))
    if isinstance(x, (StatevectorBackend, DensityMatrixBackend)):
        return ("backend", tuple(x.node_index), value(x.state))
    if isinstance(x, Expression):
        return str(x)
    if isinstance(x, np.ndarray):
        return ("array", x.shape, tuple(np.asarray(x).reshape(-1).tolist()))
    if dataclasses.is_dataclass(x) and not isinstance(x, type):
        return (type(x).__name__, *(value(getattr(x, f.name)) for f in dataclasses.fields(x) if not f.name.startswith("_")))
    if isinstance(x, (list, tuple)):
        return ("seq", *(value(y) for y in x))
    if isinstance(x, (set, frozenset)):
        return ("set", frozenset(value(y) for y in x))
    if hasattr(x, "items"):
        return ("map", frozenset((value(k), value(v)) for k, v in x.items()))
    return repr(x)


# ---------------------------------------------------------------- operations on patterns

def conj(p):
    return p.map(lambda m: m.clifford(Clifford.H))


DERIVE = {
    "copy": lambda p: p.copy(),
    "Pattern(cmds=p)": lambda p: Pattern(input_nodes=p.input_nodes, cmds=p, output_nodes=p.output_nodes),
    "Pattern(cmds=list)": lambda p: Pattern(p.input_nodes, list(p)),
    "extend(p)": lambda p: _extended(p),
    "replace(p)": lambda p: _replaced(p),
    "compose-left": lambda p: p.compose(LEAF(), {10: p.output_nodes[0]})[0],
    "compose-right": lambda p: LEAF().compose(p, {p.input_nodes[0]: 11} if p.input_nodes else {})[0],
    "compose-self": lambda p: p.compose(p, {p.input_nodes[0]: p.output_nodes[0]} if p.input_nodes else {})[0],
    "map": conj,
    "apply-copy": lambda p: p.apply(lambda m: m.to_bloch(), copy=True),
    "identity-map": lambda p: p.map(lambda m: m),
    "infer-copy": lambda p: p.infer_pauli_measurements(copy=True),
    "blochify-copy": lambda p: p.blochify(copy=True),
    "to_bloch": lambda p: p.to_bloch(),
    "push-copy": lambda p: p.perform_pauli_pushing(copy=True),
    "push-copy-std": lambda p: p.perform_pauli_pushing(copy=True, standardize=True),
    "rmpauli-copy": lambda p: p.remove_pauli_measurements(copy=True),
    "rmcliff-copy": lambda p: p.remove_local_clifford_commands(copy=True),
    "rmcliff": remove_local_clifford_commands,
    "minspace-copy": lambda p: p.minimize_space(copy=True),
    "reindex-copy": lambda p: p.reindex(lambda v: v + 3, copy=True),
    "reindex-identity": lambda p: p.reindex({}, copy=True),
    "standardize": standardize,
    "useless": remove_useless_domains,
    "single": single_qubit_domains,
    "param-copy": lambda p: p.replace_parameter(ALPHA, 0.25, copy=True),
    "params-copy": lambda p: p.replace_parameters({ALPHA: 0.25}, copy=True),
    "from_pattern": StandardizedPattern.from_pattern,
    "to_opengraph": lambda p: p.to_opengraph(),
    "to_xzcorrections": lambda p: p.to_xzcorrections(),
    "to_causalflow": lambda p: p.to_causalflow(),
    "to_pauliflow": lambda p: p.to_pauliflow(),
}


def LEAF():
    return pat.build([10], [["N", 11], ["E", 10, 11], ["M", 10, A, [], []], ["X", 11, [10]]])


def _extended(p):
    q = Pattern(input_nodes=p.input_nodes)
    q.extend(p)
    return q


def _replaced(p):
    q = Pattern(input_nodes=[90])
    q.replace(list(p), input_nodes=p.input_nodes)
    return q


def _fresh(p):
    return max(p.nodes(), default=-1) + 1


def _addnode(p):
    v = _fresh(p)
    p.add(command.N(v))
    p.add(command.E((p.output_nodes[0], v)))


def _addx(p):
    ms = list(p.measurement_commands())
    p.extend(command.X(p.output_nodes[0], {ms[0]}), [command.Z(p.output_nodes[-1], {ms[-1]})])


def _addm(p):
    p.add(command.M(p.output_nodes[0], BlochMeasurement(0.1, Plane.XY)))


INPLACE = {
    "standardize": lambda p: p.standardize(),
    "shift": lambda p: p.shift_signals(),
    "shift-mc": lambda p: p.shift_signals("mc"),
    "push": lambda p: p.perform_pauli_pushing(),
    "rmpauli": lambda p: p.remove_pauli_measurements(),
    "rmcliff": lambda p: p.remove_local_clifford_commands(),
    "minspace": lambda p: p.minimize_space(),
    "minspace-order": lambda p: p.minimize_space([]),
    "parallelize": lambda p: p.parallelize_pattern(),
    "reorder-out": lambda p: p.reorder_output_nodes(p.output_nodes[::-1]),
    "reorder-in": lambda p: p.reorder_input_nodes(p.input_nodes[::-1]),
    "remove-inputs": lambda p: p.remove_input_nodes(),
    "reindex": lambda p: p.reindex(lambda v: v + 7),
    "reindex-none": lambda p: p.reindex(),
    "apply": lambda p: p.apply(lambda m: m.clifford(Clifford.S)),
    "infer": lambda p: p.infer_pauli_measurements(),
    "blochify": lambda p: p.blochify(),
    "param": lambda p: p.replace_parameter(ALPHA, 0.6),
    "params": lambda p: p.replace_parameters({ALPHA: 0.6}),
    "add-node": _addnode,
    "add-corrections": _addx,
    "add-measurement": _addm,
    "signals": lambda p: [s.clear() for s in p.signals().values()],
    "clear": lambda p: p.clear(),
    "replace": lambda p: p.replace(list(p)[:-1]),
}

# Operations on the other kinds of objects: each returns a new object (or a plain value) and must change nothing.
RETURN_ONLY = {
    "StandardizedPattern": {
        "to_pattern": lambda s: s.to_pattern(),
        "space": lambda s: s.to_space_optimal_pattern(),
        "push": lambda s: s.perform_pauli_pushing().to_pattern(),
        "min": lambda s: s.minimize_space().to_pattern(),
        "map": lambda s: s.map(lambda m: m.clifford(Clifford.H)).to_pattern(),
        "bloch": lambda s: s.to_bloch().to_pattern(),
        "og": lambda s: s.to_opengraph(),
        "xz": lambda s: s.to_xzcorrections().to_pattern(),
    },
    "OpenGraph": {
        "pattern": lambda g: g.to_pattern(),
        "bloch": lambda g: g.to_bloch(),
        "downcast": lambda g: g.downcast_bloch(),
        "infer": lambda g: g.infer_pauli_measurements(),
        "map": lambda g: g.map(lambda m: m.clifford(Clifford.H)),
        "compose": lambda g: g.compose(g, dict(zip(g.input_nodes, g.output_nodes))),
        "compose-disjoint": lambda g: g.compose(g, {}),
        "causal": lambda g: g.to_causalflow_or_none(),
        "gflow": lambda g: g.to_bloch().to_gflow_or_none(),
        "pauli": lambda g: g.to_pauliflow_or_none(),
        "circuit": lambda g: g.to_circuit(),
        "circuit-pauli": lambda g: g.infer_pauli_measurements().to_circuit(),
        "neighbors": lambda g: (g.neighbors([0]).clear(), g.odd_neighbors([0]).clear()),
        "with": lambda g: g.with_parameter(ALPHA, 0.1),
        "close": lambda g: (g.isclose(g), g.is_equal_structurally(g)),
    },
    "XZCorrections": {
        "to_pattern": lambda c: c.to_pattern(),
        "order": lambda c: c.to_pattern(c.generate_total_measurement_order()),
        "causal": lambda c: c.to_causalflow(),
        "gflow": lambda c: c.to_gflow(),
        "pauli": lambda c: c.to_pauliflow(),
        "bloch": lambda c: c.to_bloch().to_pattern(),
        "dag": lambda c: c.to_dag().clear(),
        "text": lambda c: (str(c), c.to_ascii(), c.to_latex()),
        "check": lambda c: c.check_well_formed(),
        "with": lambda c: c.with_parameter(ALPHA, 0.1).to_pattern(),
    },
    "Flow": {
        "xz": lambda f: f.to_xzcorrections().to_pattern(),
        "xz-only": lambda f: f.to_xzcorrections(),
        "wf": lambda f: f.check_well_formed(),
        "focused": lambda f: f.is_focused(),
        "strings": lambda f: f.extraction_pauli_strings,
        "circuit": lambda f: f.extract_circuit().to_circuit(),
        "text": lambda f: (str(f), f.to_ascii(), f.to_latex()),
        "with": lambda f: f.with_parameter(ALPHA, 0.1).to_xzcorrections().to_pattern(),
    },
}
PATTERN_RETURN = {
    **DERIVE,
    "is_standard": lambda p: p.is_standard(),
    "layers": lambda p: p.partial_order_layers(),
    "metrics": lambda p: (p.max_space(), p.space_list().clear(), p.max_degree(), p.isolated_nodes().clear(), p.nodes().clear()),
    "accessors": lambda p: (p.input_nodes.clear(), p.output_nodes.clear(), p.measurement_commands().clear(), p.clifford_commands().clear()),
    "corrections": lambda p: p.correction_commands().clear(),
    "check": lambda p: p.check_runnability(),
    "text": lambda p: (repr(p), str(p), p.to_ascii(), p.to_latex(), p.to_unicode(), p == p.copy()),
    "simulate": lambda p: p.simulate(branch_selector=ConstBranchSelector(1)),
    "simulate-dm": lambda p: p.simulate("densitymatrix", branch_selector=ConstBranchSelector(0), noise_model=DepolarisingNoiseModel(entanglement_error_prob=0.1, x_error_prob=0.2)),
    "connected": lambda p: [p.connected_nodes(v).clear() for v in p.nodes()],
}
CIRC_DERIVE = {
    "Circuit(instr)": lambda c: Circuit(c.width, c.instruction),
    "extend": lambda c: _cextended(c),
    "add-each": lambda c: _cadded(c),
    "apply_angle-copy": lambda c: c.apply_angle(lambda a: a + 0.5, copy=True),
    "identity-copy": lambda c: c.apply_angle(lambda a: a, copy=True),
    "param-copy": lambda c: c.replace_parameter(ALPHA, 0.3, copy=True),
    "params-copy": lambda c: c.replace_parameters({ALPHA: 0.3}, copy=True),
    "swaps-copy": lambda c: transpile_swaps(c, copy=True).circuit,
    "z-axis": lambda c: c.transpile_measurements_to_z_axis(),
    "rzh": lambda c: c.transpile_j_to_rzh(),
    "transpile": lambda c: c.transpile().pattern,
    "transpile-noswap": lambda c: c.transpile(transpile_swaps=False).pattern,
    "flow": lambda c: c.transpile_to_causalflow().flow,
    "simulate": lambda c: c.simulate(branch_selector=ConstBranchSelector(0)),
    "repr": lambda c: repr(c),
    "is_param": lambda c: c.is_parameterized(),
}
CIRC_INPLACE = {
    "apply_angle": lambda c: c.apply_angle(lambda a: a + 0.5),
    "param": lambda c: c.replace_parameter(ALPHA, 0.8),
    "params": lambda c: c.replace_parameters({ALPHA: 0.8}),
    "swaps": lambda c: transpile_swaps(c),
    "h": lambda c: c.h(min(c.active_qubits)),
    "rz": lambda c: c.rz(max(c.active_qubits), 0.1),
    "m": lambda c: c.m(min(c.active_qubits), Axis.X),
    "cnot": lambda c: c.cnot(min(c.active_qubits), max(c.active_qubits)),
}


def _cextended(c):
    d = Circuit(c.width)
    d.extend(c.instruction)
    return d


def _cadded(c):
    d = Circuit(c.width)
    for i in c.instruction:
        d.add(i)
    return d


def family(x):
    if isinstance(x, Pattern):
        return "Pattern"
    if isinstance(x, Circuit):
        return "Circuit"
    n = type(x).__name__
    if n in ("CausalFlow", "GFlow", "PauliFlow"):
        return "Flow"
    return n if n in RETURN_ONLY else None


def inplace(x):
    f = family(x)
    return INPLACE if f == "Pattern" else CIRC_INPLACE if f == "Circuit" else {}


def returning(x):
    f = family(x)
    return PATTERN_RETURN if f == "Pattern" else CIRC_DERIVE if f == "Circuit" else RETURN_ONLY.get(f, {})


def call(f, *args):
    try:
        return f(*args)
    except Exception:  # noqa: BLE001 - an operation may be refused; its operands must be unchanged all the same
        return None


class World:
    """Objects with the value each had after the last operation allowed to change it."""

    def __init__(self, R, key, text):
        self.R, self.key, self.text, self.objs, self.vals, self.names = R, key, text, [], [], []

    def add(self, name, x):
        self.objs.append(x)
        self.vals.append(value(x))
        self.names.append(name)

    def check(self, op, allowed=None):
        for i, x in enumerate(self.objs):
            if i == allowed:
                self.vals[i] = value(x)
            elif value(x) != self.vals[i]:
                self.R.bad(self.key, f"{self.text}: {op} changed {self.names[i]}")
                return False
        return True

    def derive(self, i, name, f):
        r = call(f, self.objs[i])
        ok = self.check(f"{name} (which returns a new object)")
        if r is not None and family(r) and (r is not self.objs[i] or inplace(r)):
            self.add(f"the result of {name}", r)
        return ok

    def mutate(self, i, name):
        call(inplace(self.objs[i])[name], self.objs[i])
        return self.check(f"{name} on {self.names[i]}", i)


def make(kind, i):
    return mk(i) if kind == "P" else mkcirc(i) if kind == "C" else og.build(OGS[i])


def label(kind, i):
    if kind == "P":
        return pat.show(BASES[i][0], BASES[i][1])
    return repr(CIRCUITS[i]) if kind == "C" else og.show(OGS[i])


def fresh(R, kind, i, prog):
    """A world obtained by the program, or None when a step is not available or a violation was reported."""
    w = World(R, [kind, i, prog], f"{label(kind, i)} | {prog}")
    w.add("the original", make(kind, i))
    for step in prog:
        what, target, name = step
        if target >= len(w.objs):
            return None
        x = w.objs[target]
        if what == "d":
            if not w.derive(target, name, returning(x)[name]):
                return None
        elif name not in inplace(x):
            return None
        elif not w.mutate(target, name):
            return None
    return w


def tasks(tier):
    for kind, lib in (("P", BASES), ("C", CIRCUITS)):
        for i in range(len(lib)):
            names = sorted(DERIVE if kind == "P" else CIRC_DERIVE)
            for chunk in range(0, len(names), 2):
                # two in-place operations after each derivation; in the quick tier on the four patterns that share most
                yield ["dmm", kind, i, names[chunk : chunk + 2], 2 if kind == "C" or tier == "thorough" or i in (1, 2, 4, 5) else 1]
                if tier == "thorough" or kind == "C" or i == 4:
                    yield ["ddm", kind, i, names[chunk : chunk + 2]]
    for i in range(len(OGS)):
        for d in sorted(RETURN_ONLY["OpenGraph"]):
            yield ["og", i, d, tier]
    for i in range(len(BASES)):
        yield ["read", i]
    yield ["states"]
    yield ["simulation"]
    yield ["graphstate"]
    if tier == "thorough":
        for i in range(len(BASES)):
            for d in ("copy", "map", "compose-self"):
                for m in sorted(INPLACE):
                    yield ["dmmm", "P", i, d, m]
            for d in sorted(DERIVE):
                yield ["ddmm", "P", i, d]


def explore(R, kind, i, prefix, depth):
    """Every sequence of in-place operations of the depth after the prefix."""
    w = fresh(R, kind, i, prefix)
    if w is None:
        return
    R.state()
    if depth == 0:
        return
    for t, x in enumerate(w.objs):
        for m in sorted(inplace(x)):
            R.at([kind, i, [*prefix, ["m", t, m]]])
            R.trans()
            explore(R, kind, i, [*prefix, ["m", t, m]], depth - 1)


def work(task, R):
    kind = task[0]
    if kind in ("P", "C", "G") and len(task) == 3 and isinstance(task[2], list):  # replay of a program
        fresh(R, *task)
        return
    if kind == "dmm":
        for d in task[3]:
            explore(R, task[1], task[2], [["d", 0, d]], task[4])
            R.trace()
    elif kind == "ddm":
        for d in task[3]:
            w = fresh(R, task[1], task[2], [["d", 0, d]])
            if w is None:
                continue
            for t, x in enumerate(w.objs):
                for d2 in sorted(returning(x)):
                    explore(R, task[1], task[2], [["d", 0, d], ["d", t, d2]], 1)
    elif kind == "dmmm":
        explore(R, task[1], task[2], [["d", 0, task[3]], ["m", 0, task[4]]], 2)
        explore(R, task[1], task[2], [["d", 0, task[3]], ["m", 1, task[4]]], 2)
    elif kind == "ddmm":
        w = fresh(R, task[1], task[2], [["d", 0, task[3]]])
        for t, x in enumerate(w.objs if w else ()):
            for d2 in sorted(returning(x)):
                explore(R, task[1], task[2], [["d", 0, task[3]], ["d", t, d2]], 2)
    elif kind == "og":
        _, i, d, tier = task
        w = fresh(R, "G", i, [["d", 0, d]])
        for t, x in enumerate(w.objs if w else ()):
            for d2 in sorted(returning(x)):
                explore(R, "G", i, [["d", 0, d], ["d", t, d2]], 1)
                w2 = fresh(R, "G", i, [["d", 0, d], ["d", t, d2]])
                for t3, y in enumerate(w2.objs if w2 else ()):
                    for d3 in sorted(RETURN_ONLY.get(family(y), {})):
                        R.trans()
                        explore(R, "G", i, [["d", 0, d], ["d", t, d2], ["d", t3, d3]], 1 if tier == "thorough" else 0)
    elif kind == "read":
        for d in sorted(PATTERN_RETURN):
            for m in [None, *sorted(INPLACE)]:
                prog = [["d", 0, d]] if m is None else [["m", 0, m], ["d", 0, d]]
                R.state()
                fresh(R, "P", task[1], prog)
    elif kind == "states":
        states(R)
    elif kind == "simulation":
        simulation(R)
    elif kind == "graphstate":
        graphstate(R)


# ---------------------------------------------------------------- quantum states

def rhos():
    v = np.array([0.6, 0.8j])
    w = np.kron(v, [0.28, 0.96])
    yield lambda: Statevector(v.copy())
    yield lambda: Statevector(w.copy())
    yield lambda: Statevector(data=BasicStates.PLUS, nqubit=2)
    yield lambda: Statevector(w.copy(), max_qubits=4)
    yield lambda: Statevector(nqubit=0)
    yield lambda: DensityMatrix(np.outer(v, v.conj()))
    yield lambda: DensityMatrix(np.outer(w, w.conj()))
    yield lambda: DensityMatrix(data=BasicStates.MINUS, nqubit=2)


MAT = np.array([[0.6, 0.8], [-0.8, 0.6]]) @ np.diag([1, 1j])
STATE_OPS = {
    "evolve_single": lambda s: s.evolve_single(MAT, 0),
    "evolve": lambda s: s.evolve(np.kron(MAT, MAT), [1, 0]),
    "entangle": lambda s: s.entangle((0, 1)),
    "swap": lambda s: s.swap((0, 1)),
    "permute": lambda s: s.permute(list(range(s.nqubit))[::-1]),
    "add": lambda s: s.add_nodes(1, BasicStates.MINUS_I),
    "tensor-fresh": lambda s: s.tensor(type(s)(data=BasicStates.ONE, nqubit=1)),
    "remove": lambda s: (s.project_qubit(np.diag([1, 0]), 0) if hasattr(s, "project_qubit") else None, s.remove_qubit(0)),
    "channel": lambda s: s.apply_channel(depolarising_channel(0.3), [0]),
    "normalize": lambda s: s.normalize(),
    "expect": lambda s: s.expectation_single(MAT, 0),
    "expectation": lambda s: s.expectation_value(MAT, [0]),
    "flatten": lambda s: s.flatten(),
    "dict": lambda s: (s.to_dict(), s.to_prob_dict()),
    "capacity": lambda s: s.ensure_capacity(5),
}


def sub(x, y):
    return (
        ("Statevector(data)", lambda: Statevector(data=x)),
        ("DensityMatrix(data)", lambda: DensityMatrix(data=x)),
        ("Statevector add_nodes", lambda: _after(Statevector(nqubit=1), lambda s: s.add_nodes(x.nqubit, x))),
        ("DensityMatrix add_nodes", lambda: _after(DensityMatrix(nqubit=1), lambda s: s.add_nodes(x.nqubit, x))),
        ("empty add_nodes", lambda: _after(type(x)(nqubit=0), lambda s: s.add_nodes(x.nqubit, x))),
        ("tensor", lambda: _after(type(x)(nqubit=1), lambda s: s.tensor(x))),
        ("empty tensor", lambda: _after(type(x)(nqubit=0), lambda s: s.tensor(x))),
        ("backend add", lambda: _after(y(), lambda b: b.add_nodes(list(range(x.nqubit)), x))),
        ("replace_parameter", lambda: x.replace_parameter(ALPHA, 0.2, copy=True)),
        ("fidelity", lambda: (x.fidelity(x), x.isclose(x) if hasattr(x, "isclose") else None)),
    )


def _after(s, f):
    f(s)
    return s


def states(R):
    """Objects built from a state, and the state itself, evolve independently."""
    for k, make_state in enumerate(rhos()):
        for backend in (StatevectorBackend, DensityMatrixBackend):
            for j, (name, _) in enumerate(sub(make_state(), backend)):
                for m1, m2 in itertools.product(sorted(STATE_OPS), repeat=2):
                    for t1, t2 in itertools.product((0, 1), repeat=2):
                        R.state()
                        x = make_state()
                        w = World(R, ["states"], f"state {k} | {name} | {m1} on {t1}, {m2} on {t2}")
                        w.add("the original", x)
                        r = call(sub(x, backend)[j][1])
                        if not w.check(name):
                            return
                        b = r
                        if isinstance(r, (StatevectorBackend, DensityMatrixBackend)):
                            r = r.state
                        if not isinstance(r, (Statevector, DensityMatrix)):
                            continue
                        w.add(f"the result of {name}", r)
                        for m, t in ((m1, t1), (m2, t2)):
                            R.trans()
                            y = w.objs[t]
                            if m in ("evolve", "entangle", "swap") and y.nqubit < 2 or m in ("evolve_single", "remove", "channel", "expect", "expectation") and y.nqubit < 1:
                                continue
                            call(STATE_OPS[m], y)
                            if not w.check(f"{m} on {w.names[t]}", t):
                                return
                        del b
    # arrays given to a constructor or as operators are not modified
    for n in (1, 2):
        for arr in (np.arange(1, 2**n + 1, dtype=np.complex128), np.arange(1, 2**n + 1, dtype=np.float64)):
            for norm in (True,):
                a = arr / np.linalg.norm(arr)
                before = a.copy()
                for cls in (Statevector, DensityMatrix):
                    data = a if cls is Statevector else np.outer(a, a.conj())
                    keep = data.copy()
                    s = cls(data)
                    for m in sorted(STATE_OPS):
                        if n == 1 and m in ("evolve", "entangle", "swap"):
                            continue
                        call(STATE_OPS[m], s)
                        R.state()
                        if not np.array_equal(data, keep) or not np.array_equal(a, before):
                            R.bad(["states"], f"{m} on {cls.__name__} changed the array it was built from")
                            return
    R.trace()


def simulation(R):
    """Simulating leaves the pattern, circuit, input state, selector results and noise model alone; the results are independent."""
    for i in range(len(BASES)):
        if i == 5:
            continue
        p = mk(i)
        n = len(p.input_nodes)
        for backend in ("statevector", "densitymatrix"):
            v = np.arange(1, 2**n + 1) + 0.5j
            for x in (Statevector(v / np.linalg.norm(v)), [BasicStates.ONE] * n, v / np.linalg.norm(v)):
                results = {m: (m % 2) for m in p.measurement_commands()}
                known = {77: 1}
                mm = DefaultMeasureMethod(known)
                w = World(R, ["simulation"], f"{label('P', i)} | simulate on {backend} from {type(x).__name__}")
                for name, o in (("the pattern", p), ("the input state", x), ("the selector's results", results), ("the given results", known)):
                    w.add(name, o)
                R.state()
                r = p.simulate(backend, input_state=x, branch_selector=FixedBranchSelector(results), measure_method=mm)
                if not w.check("simulate"):
                    return
                w.add("the first final state", r)
                r2 = p.simulate(backend, input_state=x, branch_selector=FixedBranchSelector(results))
                if not w.check("simulating again"):
                    return
                if value(r2) != w.vals[-1]:
                    R.bad(["simulation"], f"{w.text}: simulating twice gives two states")
                    return
                for m in sorted(STATE_OPS):
                    if r2.nqubit < 2 and m in ("evolve", "entangle", "swap"):
                        continue
                    R.trans()
                    call(STATE_OPS[m], r2)
                    if not w.check(f"{m} on the second final state"):
                        return
    for i in (0, 1, 2, 3):
        c = mkcirc(i)
        for backend in (StatevectorBackend, DensityMatrixBackend):
            v = np.arange(1, 2**c.width + 1) + 0.5j
            x = Statevector(v / np.linalg.norm(v))
            w = World(R, ["simulation"], f"{label('C', i)} | simulate")
            w.add("the circuit", c)
            w.add("the input state", x)
            R.state()
            call(lambda: c.simulate("statevector" if backend is StatevectorBackend else "densitymatrix", input_state=x, branch_selector=ConstBranchSelector(0)))
            if not w.check("simulate"):
                return
    R.trace()


GS_OPS = {
    "h": lambda g: g.h(1),
    "s": lambda g: g.s(1),
    "z": lambda g: g.z(0),
    "e1": lambda g: [g.equivalent_graph_e1(v) for v in list(g.nodes) if g.nodes[v]["loop"]],
    "lc": lambda g: g.local_complement(1),
    "x": lambda g: g.measure_x(0),
    "y": lambda g: g.measure_y(1, 1),
    "zz": lambda g: g.measure_z(2),
    "add": lambda g: g.add_edge(0, 2) if 0 in g and 2 in g else None,
    "vops": lambda g: g.apply_vops({2: Clifford(8)}),
    "statevec": lambda g: g.to_statevector(),
    "extract": lambda g: g.extract_vops().clear(),
    "isolated": lambda g: g.isolated_nodes().clear(),
}


def graphstate(R):
    for vops in ({}, {0: Clifford(6), 1: Clifford(4)}, {1: Clifford(17), 2: Clifford(9)}):
        for m in itertools.product(sorted(GS_OPS), repeat=2):
            for t in itertools.product((0, 1), repeat=2):
                nodes, edges, given = [0, 1, 2, 3], [(0, 1), (1, 2), (2, 3)], dict(vops)
                g = GraphState(nodes, edges, given)
                w = World(R, ["graphstate"], f"graph state {vops} | copy, {m} on {t}")
                w.add("the original", g)
                w.add("the list of nodes", nodes)
                w.add("the vertex operators given", given)
                h = g.copy()
                w.add("the copy", h)
                if not w.check("copy"):
                    return
                if value(h) != value(g):
                    R.bad(["graphstate"], f"{w.text}: the copy differs from the original")
                    return
                R.state()
                for name, k in zip(m, t, strict=True):
                    R.trans()
                    call(GS_OPS[name], w.objs[3 if k else 0])
                    if not w.check(f"{name} on {w.names[3 if k else 0]}", 3 if k else 0):
                        return
                if m[0] in ("statevec", "extract", "isolated") and value(w.objs[3 if t[0] else 0]) != w.vals[3 if t[0] else 0]:
                    return
    R.trace()

"""S04: tensor-network simulation agrees with the exact state."""

import itertools
import warnings

import numpy as np
from graphix import command
from graphix.branch_selector import BranchSelector, ConstBranchSelector
from graphix.pattern import Pattern
from graphix.sim.tensornet import MBQCTensorNet, TensorNetworkBackend
from graphix.simulator import DefaultMeasureMethod, PatternSimulator
from graphix.states import BasicStates

from checks.S03 import Truth
from mc import dense, enums, pat, ref

warnings.simplefilter("ignore")

META = {
    "bounds": {
        "quick": "every graph on <=4 nodes x every output subset of <=2 nodes (both orders) x 3 measurement assignments (generic planes, Paulis) with corrections, every branch of non-zero probability, parallel and sequential preparation; "
        "every runnable sequence of <=3 commands (N, E, M, X, Z, C; 4 measurement kinds) after 3 prefixes, sequential preparation; on every final network: amplitudes of every basis state as integer and string, "
        "statevectors in every order, norm, expectation values of generic operators on every ordered choice of <=2 outputs, copies; every sequence of <=3 network operations (additions in every form, 1-3 qubit operators with "
        "and without decomposition, projections in every basis, graph preparation, shallow and deep copy) from 3 networks",
        "thorough": "graphs on <=5 nodes, sequences of <=4 commands after 2 prefixes and <=3 network operations over the full alphabet",
    },
    "assumptions": ["measured nodes entangled by an E command are assumed by the backend to have uniform outcomes, so on patterns without uniform outcomes only possible branches are compared", "input nodes are in the plus state (the only one the backend accepts)"],
}
TOL = 1e-7
UNI1, UNI2, UNI3 = (dense.generic_unitary(k, 4) for k in (1, 2, 3))
HERM1 = UNI1 @ np.diag([1.0, -0.3]) @ UNI1.conj().T
HERM2 = UNI2 @ np.diag([1.0, -0.3, 0.7, 2.1]) @ UNI2.conj().T


def close(a, b):
    return np.max(np.abs(np.asarray(a) - np.asarray(b)), initial=0) <= TOL


def same_ray(a, b):
    a, b = np.asarray(a).reshape(-1), np.asarray(b).reshape(-1)
    return a.shape == b.shape and abs(abs(np.vdot(a, b)) - np.linalg.norm(a) * np.linalg.norm(b)) <= TOL and abs(np.linalg.norm(a) - np.linalg.norm(b)) <= TOL


def apply_op(ket, n, op, qubits):
    k = len(qubits)
    t = np.asarray(ket).reshape((2,) * n)
    t = np.tensordot(op.reshape((2,) * (2 * k)), t, axes=(range(k, 2 * k), qubits))
    return np.moveaxis(t, range(k), qubits).reshape(-1)


def permuted(ket, n, order):
    return np.asarray(ket).reshape((2,) * n).transpose(order).reshape(-1)


def examine(R, tn, ket, outs, tag, phase=None, deep=True):
    """Compare everything the network reports with the ket (normalised, up to phase unless ``phase`` is given)."""
    n = len(outs)
    nrm = np.linalg.norm(ket)
    k = ket / nrm
    sv = tn.to_statevector()
    if not same_ray(sv, k):
        R.bad(tag + ":statevector", f"{tag}: statevector {np.round(sv, 4).tolist()} is not {np.round(k, 4).tolist()} up to phase")
        return False
    if not close(tn.flatten(), sv):
        R.bad(tag + ":flatten", f"{tag}: flatten() differs from to_statevector()")
        return False
    if not deep:
        return True
    raw = np.array([tn.basis_coefficient(i, normalize=False) for i in range(2**n)])
    norm = tn.norm()
    if abs(np.linalg.norm(raw) - norm) > TOL:
        R.bad(tag + ":norm", f"{tag}: norm {norm}, but the coefficients have norm {np.linalg.norm(raw)}")
        return False
    for i in range(2**n):
        c = tn.basis_coefficient(i)
        s = format(i, f"0{n}b") if n else "0"
        if abs(abs(c) - abs(k[i])) > TOL or abs(c * norm - raw[i]) > TOL or abs(tn.basis_coefficient(s) - c) > TOL:
            R.bad(tag + ":coefficient", f"{tag}: coefficient of {s} is {c}, amplitude {k[i]} up to phase")
            return False
        if abs(tn.basis_amplitude(i) - abs(k[i]) ** 2) > TOL or abs(tn.basis_amplitude(s) - abs(k[i]) ** 2) > TOL:
            R.bad(tag + ":amplitude", f"{tag}: basis_amplitude({s}) is {tn.basis_amplitude(i)}, not {abs(k[i]) ** 2}")
            return False
    for perm in itertools.permutations(range(n)):
        if not close(tn.to_statevector(indices=[outs[j] for j in perm]), permuted(sv, n, perm)):
            R.bad(tag + ":order", f"{tag}: statevector in the order {[outs[j] for j in perm]} is wrong")
            return False
        if n and abs(tn.basis_coefficient(1, indices=[outs[j] for j in perm]) - permuted(raw, n, perm)[1] / norm) > TOL:
            R.bad(tag + ":order1", f"{tag}: coefficient in the order {[outs[j] for j in perm]} is wrong")
            return False
    for r, h in ((1, HERM1), (2, HERM2)):
        for qs in itertools.permutations(range(n), r):
            want = np.vdot(k, apply_op(k, n, h, qs)).real
            if abs(tn.expectation_value(h, list(qs)) - want) > TOL:
                R.bad(tag + ":expectation", f"{tag}: expectation value on {qs} is {tn.expectation_value(h, list(qs))}, not {want}")
                return False
            nodes = [outs[q] for q in qs]
            rest = [v for v in outs if v not in nodes]
            if abs(tn.expectation_value(h, list(range(r)), nodes + rest) - want) > TOL:
                R.bad(tag + ":expectation2", f"{tag}: expectation value with output nodes {nodes + rest} is wrong")
                return False
    return True


class Record(BranchSelector):
    def __init__(self, results):
        self.results, self.seen = results, {}

    def measure(self, qubit, f_expectation0, rng=None, *, stacklevel=1):
        self.seen.setdefault(qubit, f_expectation0())
        return self.results[qubit]


def run(R, p, prep, truth, tag, entangled, deep=True, maxb=None):
    for k, (b, bits, offers) in enumerate(truth.branches()):
        if maxb is not None and k >= maxb:
            break
        R.trans()
        sel = Record(bits)
        mm = DefaultMeasureMethod()
        t = f"{tag}:{prep}:{b}"
        R.at(t)
        tn = p.simulate("tensornetwork", graph_prep=prep, branch_selector=sel, measure_method=mm)
        if mm.results != bits:
            R.bad(t + ":results", f"{t}: recorded results {mm.results} on branch {bits}")
            return False
        for q, offer in zip(truth.order, offers, strict=True):
            if q not in entangled and abs(sel.seen[q] - offer) > TOL:
                R.bad(t + ":prob", f"{t}: probability of 0 offered for the isolated node {q} is {sel.seen[q]}, not {offer}")
                return False
            if q in entangled and abs(sel.seen[q] - 0.5) > TOL:
                R.bad(t + ":prob", f"{t}: probability of 0 offered for node {q} is {sel.seen[q]}")
                return False
        ket = truth.ket[b]
        if not examine(R, tn, ket, list(p.output_nodes), t, deep=deep):
            return False
        if all(q not in entangled or abs(o - 0.5) < 1e-9 for q, o in zip(truth.order, offers, strict=True)) and abs(tn.norm() - 1) > TOL:
            R.bad(t + ":unit", f"{t}: the state has norm {tn.norm()}")
            return False
    return True


def check(R, inputs, cmds, outs, preps, deep=True):
    p = pat.build(inputs, cmds, outs)
    R.state()
    tag = pat.show(inputs, cmds) + (f" out={outs}" if outs else "")
    R.at(tag)
    plus = np.full(2 ** len(inputs), 2 ** (-len(inputs) / 2))
    truth = Truth(p, plus)
    edges = [frozenset(d[1:]) for d in cmds if d[0] == "E"]
    touched = {v for e in edges for v in e}
    linked = {v for e in edges if edges.count(e) % 2 for v in e}
    for prep in preps:
        if prep == "parallel" and not p.is_standard():
            continue
        run(R, p, prep, truth, tag, touched if prep == "sequential" else linked, deep)
    R.outcome((len(truth.order), len(p.output_nodes)))


MEASURES = [
    ["XY:0.37", "YZ:-0.61", "XZ:1.21", "XY:-0.2"],
    ["X-", "Y+", "Z-", "X+"],
    ["YZ:0.3", "Y-", "XY:0.9", "XZ:0.1"],
]


def graph_cases(n, tier):
    """Standard patterns on every graph: nodes may be inputs, outputs are measured last, corrections on the outputs."""
    for edges in enums.all_graphs(n) if n < 4 else enums.graph_orbits(n):
        for no in range(0, min(n, 2) + 1):
            for outs in itertools.permutations(range(n), no):
                for k in range(len(MEASURES)):
                    yield edges, list(outs), k


def pattern_of(n, edges, outs, k):
    inputs = [v for v in range(n) if (v + k) % 2 == 0][::-1]
    meas = [v for v in range(n) if v not in outs]
    cmds = [["N", v] for v in range(n) if v not in inputs] + [["E", *e] for e in edges]
    done = []
    for j, v in enumerate(meas):
        cmds.append(["M", v, MEASURES[k][j], done[-1:], done[:1] if k else []])
        done.append(v)
    for j, v in enumerate(outs):
        if done:
            cmds.append(["X" if (j + k) % 2 else "Z", v, done[: j + 1]])
        if k == 2:
            cmds.append(["C", v, 7 + j])
            cmds.append(["Z", v, done[-1:]])
    return inputs, cmds


CODES = ["X-", "XY:0.37", "YZ:-0.61", "Z+"]
PREFIX = [
    ([0], []),
    ([3, 1], [["E", 3, 1]]),
    ([11], [["N", 1], ["E", 11, 1], ["M", 11, "XY:0.37", [], []]]),
]


def tasks(tier):
    top = 4 if tier == "quick" else 5
    for n in range(1, top + 1):
        cases = list(graph_cases(n, tier))
        size = 12 if n >= 4 else 24
        for lo in range(0, len(cases), size):
            yield ["graph", n, lo, lo + size, tier]
    for i in range(len(PREFIX)):
        length = 3 if i == 0 else 2
        if tier == "thorough":
            length += 1
        inputs, prefix = PREFIX[i]
        firsts = {str(s[len(prefix)]): s[len(prefix)] for s in pat.sequences(inputs, prefix, 1, [0, 1, 3, 11, 12], "NEMXZC", CODES, cliffs=(7,))}
        for f in firsts.values():
            yield ["seq", i, length, f]
    for i in range(len(NETS)):
        for a in range(len(netops(tier))):
            yield ["net", i, a, 3, tier]
    yield ["refuse"]
    yield ["uniform"]


def work(task, R):
    kind = task[0]
    if kind == "graph":
        _, n, lo, hi, tier = task
        for edges, outs, k in list(graph_cases(n, tier))[lo:hi]:
            inputs, cmds = pattern_of(n, edges, outs, k)
            check(R, inputs, cmds, outs, ("parallel", "sequential", "auto") if n < 3 else ("parallel", "sequential"), deep=n < 4)
        R.trace()
    elif kind == "seq":
        _, i, length, first = task
        inputs, prefix = PREFIX[i]
        for s in pat.sequences(inputs, [*prefix, first], length - 1, [0, 1, 3, 11, 12], "NEMXZC", CODES, cliffs=(7,)):
            check(R, inputs, s, None, ("sequential", "parallel"), deep=False)
        R.trace()
    elif kind == "net":
        net(R, *task[1:])
    elif kind == "refuse":
        refuse(R)
    elif kind == "uniform":
        uniform(R)


# ---------------------------------------------------------------- histories of network operations


class Ref:
    """Register of labelled qubits with an unnormalised ket."""

    def __init__(self):
        self.nodes, self.ket = [], np.ones(1, complex)

    def add(self, node, vec):
        self.nodes.append(node)
        self.ket = np.kron(self.ket, vec)

    def apply(self, op, nodes):
        self.ket = apply_op(self.ket, len(self.nodes), np.asarray(op), [self.nodes.index(v) for v in nodes])

    def project(self, node, vec):
        n, q = len(self.nodes), self.nodes.index(node)
        self.ket = np.tensordot(np.conj(vec), self.ket.reshape((2,) * n), axes=([0], [q])).reshape(-1)
        self.nodes.remove(node)


VECS = {"plus": [2**-0.5, 2**-0.5], "minus": [2**-0.5, -(2**-0.5)], "zero": [1, 0], "one": [0, 1], "iplus": [2**-0.5, 1j * 2**-0.5], "iminus": [2**-0.5, -1j * 2**-0.5]}
PSI, PHI = np.array([0.6, 0.8j]), np.array([0.28j, 0.96])
BASES = {("Z", 0): "zero", ("Z", 1): "one", ("X", 0): "plus", ("X", 1): "minus", ("Y", 0): "iplus", ("Y", 1): "iminus"}
NETS = ["empty", "graph", "pair"]


def netops(tier):
    """Operations on a network; positions refer to the live nodes (sorted by age)."""
    res = [["add", s] for s in (VECS if tier == "thorough" else ("minus", "one", "iplus"))]
    res += [["add", "psi"], ["adds", "str"], ["adds", "strs"], ["adds", "arrays"], ["adds", "array"], ["adds", "numbers"], ["adds", "mixed"]]
    res += [["single", 0], ["single", 1], ["gate", [0, 1], True], ["gate", [1, 0], False], ["gate", [1, 0], True], ["gate", [2, 0, 1], True], ["gate", [0, 2, 1], False], ["gate", [1], True]]
    res += [["project", q, b, o] for q in (0, 1) for b, o in (BASES if tier == "thorough" else [("X", 1), ("Y", 0), ("Z", 1)])] + [["vector", 0], ["draw", 1]]
    res += [["graph"]]
    return res


def start(i):
    r = Ref()
    sel = ConstBranchSelector(1)
    if NETS[i] == "empty":
        return MBQCTensorNet(sel), r
    if NETS[i] == "graph":
        tn = MBQCTensorNet(sel, graph_nodes=[0, 12, 1], graph_edges=[(0, 12), (12, 1)], default_output_nodes=[0, 12, 1])
        for v in (0, 12, 1):
            r.add(v, VECS["plus"])
        for e in ((0, 12), (12, 1)):
            r.apply(np.diag([1, 1, 1, -1]), e)
        return tn, r
    tn = MBQCTensorNet(sel, default_output_nodes=[5, 3])
    tn.add_qubit(5, "iminus")
    tn.add_qubit(3, PSI)
    r.add(5, VECS["iminus"])
    r.add(3, PSI)
    return tn, r


def step(tn, r, op, fresh):
    """Apply the operation to both; False when it does not apply."""
    k = op[0]
    live = list(r.nodes)
    if k == "add":
        tn.add_qubit(fresh, PSI if op[1] == "psi" else op[1])
        r.add(fresh, PSI if op[1] == "psi" else VECS[op[1]])
    elif k == "adds":
        a, b = fresh, fresh + 1
        arg = {"str": "minus", "strs": ["iplus", "zero"], "arrays": [PSI, PHI], "array": PSI, "numbers": [0.6, 0.8], "mixed": ["one", PHI]}[op[1]]
        tn.add_qubits([a, b], arg)
        va, vb = {"str": (VECS["minus"],) * 2, "strs": (VECS["iplus"], VECS["zero"]), "arrays": (PSI, PHI), "array": (PSI, PSI), "numbers": ([0.6, 0.8],) * 2, "mixed": (VECS["one"], PHI)}[op[1]]
        r.add(a, va)
        r.add(b, vb)
    elif k == "single":
        if op[1] >= len(live):
            return False
        tn.evolve_single(live[op[1]], UNI1)
        r.apply(UNI1, [live[op[1]]])
    elif k == "gate":
        if max(op[1]) >= len(live):
            return False
        u = {1: UNI1, 2: UNI2, 3: UNI3}[len(op[1])]
        tn.default_output_nodes = list(live)
        tn.evolve(u, list(op[1]), decompose=op[2])
        r.apply(u, [live[q] for q in op[1]])
    elif k in ("project", "vector", "draw"):
        if op[1] >= len(live):
            return False
        v = live[op[1]]
        if k == "project":
            got = tn.measure_single(v, op[2], outcome=op[3])
            want, vec = op[3], VECS[BASES[(op[2], op[3])]]
        elif k == "vector":
            got = tn.measure_single(v, PHI)
            want, vec = 1, PHI
        else:
            got = tn.measure_single(v, "Y")  # the selector of the network always answers 1
            want, vec = 1, VECS["iminus"]
        if got != want:
            raise AssertionError(f"measure_single returned {got}")
        r.project(v, np.asarray(vec))
    elif k == "graph":
        a, b, c = fresh, fresh + 1, fresh + 2
        tn.prepare_graph_state([c, a, b], [(b, a), (a, c)])
        for v in (a, b, c):
            r.add(v, VECS["plus"])
        r.apply(np.diag([1, 1, 1, -1]), [a, b])
        r.apply(np.diag([1, 1, 1, -1]), [a, c])
    return True


def state_of(tn, nodes):
    tn.default_output_nodes = list(nodes)
    return np.array([tn.basis_coefficient(i, normalize=False) for i in range(2 ** len(nodes))])


def replay(R, i, ops, tag):
    """Run the sequence, with a copy made before the last operation; both networks must then have their own state."""
    for mode in ("none", "shallow", "deep", "shallow-copy-changes", "deep-copy-changes"):
        tn, r = start(i)
        fresh = 20
        for op in ops[:-1]:
            if not step(tn, r, op, fresh) or len(r.nodes) > 5:
                return False
            fresh += 3
        before = (list(r.nodes), r.ket.copy())
        other = None
        if mode != "none":
            if not r.nodes:
                continue
            tn.default_output_nodes = list(r.nodes)
            other = tn.copy(deep=mode.startswith("deep"))
            if other.default_output_nodes != list(r.nodes):
                R.bad(tag + ":copy-outputs", f"{tag}: a {mode} copy has output nodes {other.default_output_nodes}")
                return False
        work_on = other if mode.endswith("changes") else tn
        if not step(work_on, r, ops[-1], fresh) or len(r.nodes) > 5:
            return False
        R.trans()
        if not r.nodes:
            continue
        ket = state_of(work_on, r.nodes)
        if not close(ket, r.ket):
            R.bad(tag + f":{mode}", f"{tag}: after {mode}, the network has state {np.round(ket, 4).tolist()}, not {np.round(r.ket, 4).tolist()}")
            return False
        if abs(work_on.norm() - np.linalg.norm(r.ket)) > TOL:
            R.bad(tag + f":{mode}:norm", f"{tag}: norm {work_on.norm()}, not {np.linalg.norm(r.ket)}")
            return False
        if other is not None:
            still = tn if work_on is other else other
            ket = state_of(still, before[0]) if before[0] else None
            if ket is not None and not close(ket, before[1]):
                R.bad(tag + f":{mode}:other", f"{tag}: {mode}: operating on one network changed the other")
                return False
        elif np.linalg.norm(r.ket) > 0.05 and len(r.nodes) <= 3:
            work_on.default_output_nodes = list(r.nodes)
            if not examine(R, work_on, r.ket, r.nodes, tag, deep=len(ops) < 3):
                return False
    return True


def net(R, i, a, depth, tier):
    alphabet = netops(tier)

    def rec(ops):
        tag = f"{NETS[i]}:{ops}"
        R.at(tag)
        R.state()
        if not replay(R, i, ops, tag):
            return
        if len(ops) < depth:
            # the quick tier varies the middle operation over one operation of each kind
            pool = alphabet if len(ops) + 1 == 2 or tier == "thorough" else [["add", "psi"], ["single", 0], ["gate", [1, 0], True], ["project", 0, "X", 1]]
            for op in pool:
                rec([*ops, op])

    rec([alphabet[a]])
    R.trace()


def refuse(R):
    """Unsupported states and preparations are refused, not silently replaced."""
    for st in ("MINUS", "ZERO", "ONE", "PLUS_I", "MINUS_I"):
        p = pat.build([], [["N", 0, st], ["N", 1], ["E", 0, 1]])
        for prep in ("parallel", "sequential", "auto"):
            R.state()
            try:
                p.simulate("tensornetwork", graph_prep=prep)
                R.bad(f"refuse:{st}:{prep}", f"a node prepared in {st} is accepted with {prep}")
            except (NotImplementedError, ValueError):
                pass
        for arg in (getattr(BasicStates, st), [getattr(BasicStates, st)]):
            R.state()
            q = pat.build([0], [["N", 1], ["E", 0, 1]])
            try:
                q.simulate("tensornetwork", input_state=arg)
                R.bad(f"refuse:input:{st}", f"the input state {st} is accepted")
            except (NotImplementedError, ValueError):
                pass
    p = pat.build([0], [["M", 0, "X+", [], []], ["N", 1]])
    try:
        p.simulate("tensornetwork", graph_prep="parallel")
        R.bad("refuse:nonstandard", "parallel preparation of a pattern that is not standard")
    except ValueError:
        pass
    try:
        p.simulate("tensornetwork", graph_prep="other")
        R.bad("refuse:prep", "an unknown preparation is accepted")
    except ValueError:
        pass
    R.trace()


def uniform(R):
    """Patterns with flow: large degree (automatic switch to sequential), wires and a backend used directly."""
    for deg in (4, 5, 6, 7):
        cmds = [["N", v] for v in range(1, deg + 1)] + [["E", 0, v] for v in range(1, deg + 1)] + [["M", v, "YZ:0.2", [], []] for v in range(2, deg + 1)]
        cmds += [["M", 0, "XY:0.37", [], []], ["X", 1, [0]], ["Z", 0 + 1, list(range(2, deg + 1))]]
        for prep in ("auto", "parallel", "sequential"):
            p = pat.build([0], cmds)
            R.state()
            run(R, p, prep, Truth(p, np.full(2, 2**-0.5)), f"star{deg}", set(range(deg + 1)), deep=False, maxb=5)
    for L in (2, 4, 6):
        cmds = []
        for v in range(L):
            cmds += [["N", v + 1], ["E", v, v + 1]]
        cmds += [["M", v, f"XY:{0.1 + 0.23 * v:.2f}", [v - 1] if v else [], [v - 2] if v > 1 else []] for v in range(L)] + [["X", L, [L - 1]], ["Z", L, [L - 2]]]
        p = pat.build([0], cmds)
        p.standardize()
        R.state()
        backend = TensorNetworkBackend(p, branch_selector=ConstBranchSelector(1))
        tn = PatternSimulator(p, backend).run()
        tn = backend.state if tn is None else tn
        truth = Truth(p, np.full(2, 2**-0.5))
        for b, bits, _ in truth.branches():
            if all(bits.values()):
                examine(R, backend.state, truth.ket[b], [L], f"wire{L}")
    R.trace()

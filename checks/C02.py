"""C02: circuit rewrites keep the circuit's meaning; circuit simulation follows every forced outcome history."""

import copy
import itertools

import numpy as np
from graphix import Axis, Circuit
from graphix.branch_selector import BranchSelector
from graphix.instruction import InstructionVisitor
from graphix.sim.density_matrix import DensityMatrixBackend
from graphix.sim.statevec import StatevectorBackend
from graphix.states import BasicStates, PlanarState
from graphix.fundamentals import Plane
from graphix.transpiler import (
    OutputKind,
    decompose_ccx,
    decompose_cnot,
    decompose_rx,
    decompose_ry,
    decompose_rz,
    decompose_rzz,
    decompose_swap,
    decompose_y,
    instructions_to_jcz,
    normalize_angle,
    transpile_swaps,
)

from mc import circ, ref

META = {
    "bounds": {
        "quick": "1 qubit: all words <=3 over 13 letters and <=2 over special angles; 2 qubits: all words <=2 over 34 letters, =3 over 14 letters; 3 qubits: all words <=2 over 42 letters (CCX included), =4 over 7 letters; "
        "every rewrite on each, every forced outcome history from 3-5 inputs on both dense backends",
        "thorough": "quick plus 1 qubit words =4, 2 qubits words =3 over 34 letters and =4 over 14 letters, 3 qubits words =3 over 42 letters",
    },
    "assumptions": ["angles outside the alphabet behave like the generic one", "one generic entangled input in general position stands for all inputs in simulation (evolution is linear on each branch)"],
}
ANGLES = [0, 0.5, 1, 1.5, -0.5, 2, 3.7, -0.13, 0.25]


def spaces(tier):
    full1 = list(circ.singles(1)) + list(circ.measures(1))
    for ln in (0, 1, 2, 3):
        yield 1, full1, ln
    ang = [[k, 0, a] for k in ("RX", "RY", "RZ", "J") for a in ANGLES]
    yield 1, ang, 1
    yield 1, ang, 2
    yield 2, [["RZZ", 0, 1, a] for a in ANGLES] + [["RZZ", 1, 0, a] for a in ANGLES], 1
    full2 = list(circ.singles(2)) + list(circ.doubles(2)) + list(circ.measures(2))
    for ln in (0, 1, 2):
        yield 2, full2, ln
    mid2 = [["H", 0], ["S", 1], ["J", 0, circ.G], ["RX", 1, circ.G], ["RY", 0, circ.G], ["CNOT", 0, 1], ["CNOT", 1, 0], ["CZ", 0, 1],
            ["SWAP", 0, 1], ["SWAP", 1, 0], ["RZZ", 0, 1, circ.G2], ["M", 0, "X"], ["M", 1, "Y"], ["M", 0, "Z"]]
    yield 2, mid2, 3
    full3 = [["H", 0], ["J", 1, circ.G], ["RY", 2, circ.G2], ["I", 1]]
    full3 += [[k, a, b] for k in ("CNOT", "SWAP", "CZ") for a, b in itertools.permutations(range(3), 2)]
    full3 += [["RZZ", a, b, circ.G] for a, b in ((0, 2), (2, 1))]
    full3 += [["CCX", *p] for p in itertools.permutations(range(3))]
    full3 += list(circ.measures(3))
    for ln in (0, 1, 2):
        yield 3, full3, ln
    sw3 = [["CNOT", 0, 1], ["SWAP", 0, 1], ["SWAP", 1, 2], ["J", 1, circ.G], ["M", 0, "Z"], ["M", 1, "X"], ["M", 2, "Y"]]
    yield 3, sw3, 4
    if tier == "thorough":
        yield 1, full1, 4
        yield 2, full2, 3
        yield 2, mid2, 4
        yield 3, full3, 3
        yield 3, sw3, 5


def tasks(tier):
    yield ["norm"]
    yield ["bad"]
    for n, alpha, ln in spaces(tier):
        chunk = []
        for w in circ.words(alpha, ln):
            chunk.append(w)
            if len(chunk) == 40:
                yield ["w", n, chunk]
                chunk = []
        if chunk:
            yield ["w", n, chunk]


def rows(st, order):
    """Choi rows per outcome history, sorted by history, in the given qubit order."""
    k = st.kraus(order)
    labels = [("c", i) for i in range(len(st.outcomes))]
    idx = np.zeros(st.nb, dtype=int)
    for lab in labels:
        idx = idx * 2 + st.outcomes[lab]
    out = np.zeros_like(k)
    out[idx] = k
    return out


def same(a, b):
    """Same Kraus operator up to phase on every outcome history."""
    if a.shape != b.shape:
        return False
    return all(ref.same_ray(x, y, 1e-7) for x, y in zip(a, b, strict=True))


def instrs_of(n, gates):
    return circ.build(n, gates).instruction


class Perm(InstructionVisitor):
    def __init__(self, p):
        self.p = p

    def visit_qubit(self, qubit):
        return self.p[qubit]


class Neg(InstructionVisitor):
    def visit_angle(self, angle):
        return -angle / 2

    def visit_axis(self, axis):
        return {Axis.X: Axis.Y, Axis.Y: Axis.Z, Axis.Z: Axis.X}[axis]


def permuted(g, p):
    if g[0] == "M":
        return ["M", p[g[1]], g[2]]
    if g[0] in ("RX", "RY", "RZ", "J"):
        return [g[0], p[g[1]], g[2]]
    if g[0] == "RZZ":
        return ["RZZ", p[g[1]], p[g[2]], g[3]]
    return [g[0], *(p[q] for q in g[1:])]


def neg(g):
    if g[0] == "M":
        return ["M", g[1], {"X": "Y", "Y": "Z", "Z": "X"}[g[2]]]
    if g[0] in ("RX", "RY", "RZ", "J", "RZZ"):
        return [*g[:-1], -g[-1] / 2]
    return g


def usable(R, key, c, live):
    """The rewritten circuit accepts further gates on exactly its unmeasured qubits."""
    for q in range(c.width):
        d = copy.deepcopy(c)
        try:
            d.h(q)
            ok = True
        except AssertionError:
            ok = False
        R.trans()
        if ok != (q in live):
            R.bad(f"{key}:usable", f"{key}: qubit {q} is {'accepted' if ok else 'refused'} by the returned circuit although it is {'live' if q in live else 'measured'}")


def rewrites(R, n, gates, key, rich):
    c = circ.build(n, gates)
    text = repr(c)
    st = ref.run_circuit(n, c.instruction)
    live = sorted(st.axes)
    want = rows(st, live)
    nm = sum(g[0] == "M" for g in gates)

    def unchanged(what):
        if repr(c) != text or c.active_qubits != set(live):
            R.bad(f"{key}:{what}:mutated", f"{what} changed the circuit {text} into {c!r}")

    def compare(what, c2, order=None, target=None):
        R.trans()
        R.trace()
        t = want if target is None else target
        s2 = ref.run_circuit(c2.width, c2.instruction)
        got = rows(s2, sorted(s2.axes) if order is None else order) if (order is None or set(order) == set(s2.axes)) else None
        if got is None or c2.width != n or not same(got, t):
            R.bad(f"{key}:{what}", f"{what} changed the meaning of {text}: {c2!r}")
        usable(R, f"{key}:{what}", c2, s2.axes)
        return s2

    c2 = c.transpile_measurements_to_z_axis()
    compare("z-axis", c2)
    if any(i.kind.name == "M" and i.axis != Axis.Z for i in c2.instruction):
        R.bad(f"{key}:z-axis:left", f"a measurement is not along Z: {c2!r}")
    unchanged("z-axis")
    c2 = c.transpile_j_to_rzh()
    compare("j", c2)
    if any(i.kind.name == "J" for i in c2.instruction):
        R.bad(f"{key}:j:left", f"a J gate is left: {c2!r}")
    unchanged("j")
    # Every instruction through the J-CZ decomposition
    c2 = Circuit(n, list(instructions_to_jcz(c.instruction)))
    compare("jcz", c2)
    if any(i.kind.name not in ("J", "CZ", "M") for i in c2.instruction):
        R.bad(f"{key}:jcz:left", f"unexpected instruction: {c2!r}")
    unchanged("jcz")
    # Rebuilding from the instructions, extending
    c2 = Circuit(n, c.instruction)
    compare("rebuild", c2)
    c3 = Circuit(n)
    c3.extend(c.instruction)
    if repr(c2) != text or repr(c3) != text:
        R.bad(f"{key}:rebuild", f"rebuilding {text} gives {c2!r} and {c3!r}")
    # SWAP elimination, on a copy and in place
    for inplace in (False, True):
        src = circ.build(n, gates)
        res = transpile_swaps(src, copy=not inplace)
        c2 = res.circuit
        if inplace != (c2 is src):
            R.bad(f"{key}:swaps:identity", f"transpile_swaps(copy={not inplace}) returned {'the same' if c2 is src else 'another'} object")
        if not inplace and repr(src) != text:
            R.bad(f"{key}:swaps:mutated", f"transpile_swaps(copy=True) changed {text} into {src!r}")
        if any(i.kind.name == "SWAP" for i in c2.instruction) or len(res.outputs) != n:
            R.bad(f"{key}:swaps:left", f"{res}")
            continue
        measured = {}
        for g in gates:
            if g[0] == "M":
                measured[g[1]] = len(measured)
        order = []
        ok = True
        for q, o in enumerate(res.outputs):
            if (o.kind == OutputKind.Bit) != (q in measured) or (q in measured and o.index != measured[q]):
                ok = False
            if o.kind == OutputKind.Qubit:
                order.append(o.index)
        if not ok or sorted(set(order)) != sorted(order):
            R.bad(f"{key}:swaps:outputs", f"outputs {res.outputs} for {text}")
            continue
        s2 = compare(f"swaps{inplace}", c2, order=order)
        lab = {q: f"n{q}" for q in sorted(s2.axes)}
        if res.swap_output_nodes([lab[q] for q in sorted(s2.axes)]) != tuple(lab[q] for q in order):
            R.bad(f"{key}:swaps:reorder", f"swap_output_nodes is wrong for {res.outputs}")
        if res.swap_classical_outputs([f"m{i}" for i in range(nm)]) != tuple(f"m{measured[q]}" for q in sorted(measured)):
            R.bad(f"{key}:swaps:bits", f"swap_classical_outputs is wrong for {res.outputs}")
    unchanged("swaps")
    # Visitors
    perms = list(itertools.permutations(range(n))) if rich else [tuple(reversed(range(n)))]
    for p in perms:
        exp = [permuted(g, p) for g in gates]
        for inplace in (False, True):
            src = circ.build(n, gates)
            c2 = src.visit(Perm(p), copy=not inplace)
            if repr(c2) != repr(circ.build(n, exp)) or inplace != (c2 is src) or (not inplace and repr(src) != text):
                R.bad(f"{key}:visit:{p}:{inplace}", f"visit(copy={not inplace}) with qubit map {p}: {c2!r} from {src!r}")
            R.trans()
            usable(R, f"{key}:visit:{p}:{inplace}", c2, {p[q] for q in live})
    exp = repr(circ.build(n, [neg(g) for g in gates]))
    for inplace in (False, True):
        src = circ.build(n, gates)
        c2 = src.visit(Neg(), copy=not inplace)
        if repr(c2) != exp or inplace != (c2 is src) or (not inplace and repr(src) != text):
            R.bad(f"{key}:visit:neg:{inplace}", f"visit(copy={not inplace}) rewriting angles and axes: {c2!r} from {src!r}, expected {exp}")
        src = circ.build(n, gates)
        c2 = src.apply_angle(lambda x: -x / 2, copy=not inplace)
        e2 = repr(circ.build(n, [neg(g) if g[0] != "M" else g for g in gates]))
        if repr(c2) != e2 or inplace != (c2 is src) or (not inplace and repr(src) != text):
            R.bad(f"{key}:apply_angle:{inplace}", f"apply_angle(copy={not inplace}): {c2!r} from {src!r}, expected {e2}")
        R.trans(2)
    # Single decompositions
    dec = {"RZZ": decompose_rzz, "CCX": decompose_ccx, "CNOT": decompose_cnot, "SWAP": decompose_swap, "Y": decompose_y, "RX": decompose_rx, "RY": decompose_ry, "RZ": decompose_rz}
    if len(gates) == 1 and gates[0][0] in dec:
        f = dec[gates[0][0]]
        c2 = Circuit(n, list(f(c.instruction[0])))
        compare("decompose", c2)
        if any(i.kind.name == gates[0][0] for i in c2.instruction):
            R.bad(f"{key}:decompose:left", f"{c2!r} still has {gates[0][0]}")
        unchanged("decompose")
    return c, st, want, live


class Forced(BranchSelector):
    """Follows a fixed history; remembers the probabilities it was offered."""

    def __init__(self, seq):
        self.seq = list(seq)
        self.seen = []

    def measure(self, qubit, f_expectation0, rng=None, *, stacklevel=1):
        self.seen.append((qubit, f_expectation0()))
        return self.seq[len(self.seen) - 1]


GEN1 = [PlanarState(Plane.XY, 0.41), PlanarState(Plane.XZ, 1.23), PlanarState(Plane.YZ, -0.57)]


def vec(n):
    """A fixed entangled vector in general position."""
    v = np.array([np.exp(1.7j * (k + 1) ** 2) * (1 + 0.31 * ((k * 7) % 5)) for k in range(2**n)])
    return v / np.linalg.norm(v)


def inputs(n):
    yield "default", None, [ref.PLUS] * n
    yield "zero", BasicStates.ZERO, [np.array([1, 0])] * n
    yield "product", GEN1[:n], [ref.planar_ket(s) for s in GEN1[:n]]


def simulate(R, n, gates, c, st, want, live, key):
    nm = len(st.outcomes)
    text = repr(c)
    qubits = [g[1] for g in gates if g[0] == "M"]
    ins = []
    for name, data, kets in inputs(n):
        v = np.array([1.0 + 0j])
        for k in kets:
            v = np.kron(v, k)
        ins.append((name, data, v, "pure"))
    ins.append(("vector", list(vec(n)), vec(n), "pure"))
    if n and n <= 2:
        d = 2**n
        rho = 0.6 * np.outer(vec(n), vec(n).conj()) + 0.3 * np.eye(d) / d
        rho[0, 0] += 0.1
        ins.append(("mixed", rho, rho, "mixed"))
    kraus = [want[h].reshape(2 ** len(live), 2**n) for h in range(2**nm)]
    for name, data, x, kind in ins:
        rho_in = x if kind == "mixed" else np.outer(x, x.conj())
        for h in range(2**nm):
            seq = [(h >> (nm - 1 - i)) & 1 for i in range(nm)]
            out = kraus[h] @ rho_in @ kraus[h].conj().T
            p = np.trace(out).real
            R.state()
            if p < 1e-6:
                R.count("impossible_histories")
                continue
            out = out / p
            # probability of outcome 0 at every step of this history
            pref = []
            for i in range(nm):
                def mass(prefix):
                    tot = 0.0
                    for g in range(2**nm):
                        s = [(g >> (nm - 1 - j)) & 1 for j in range(nm)]
                        if s[: len(prefix)] == prefix:
                            tot += np.trace(kraus[g] @ rho_in @ kraus[g].conj().T).real
                    return tot

                pref.append(mass([*seq[:i], 0]) / mass(seq[:i]))
            for backend in ("densitymatrix",) if kind == "mixed" else ("statevector", "densitymatrix", "svobj", "dmobj"):
                if backend in ("svobj", "dmobj") and name != "vector":
                    continue
                sel = Forced(seq)
                R.at(f"{key} {name} {seq} {backend}")
                if backend == "svobj":
                    res = c.simulate(StatevectorBackend(branch_selector=sel), input_state=data)
                elif backend == "dmobj":
                    res = c.simulate(DensityMatrixBackend(branch_selector=sel), input_state=data)
                else:
                    res = c.simulate(backend, input_state=data, branch_selector=sel)
                R.trans()
                tag = f"{key}:sim:{backend}:{name}:{seq}"
                if res.classical_measures != tuple(seq):
                    R.bad(tag, f"measures {res.classical_measures}, forced {seq}: {text}")
                if [q for q, _ in sel.seen] != qubits or any(abs(a - b) > 1e-7 for (_, a), b in zip(sel.seen, pref, strict=True)):
                    R.bad(tag, f"offered {sel.seen}, expected qubits {qubits} with probabilities {pref}: {text}")
                if backend in ("statevector", "svobj"):
                    v = np.asarray(res.state.flatten())
                    got = np.outer(v, v.conj())
                else:
                    got = np.asarray(res.state.rho)
                if got.shape != out.shape or np.max(np.abs(got - out)) > 1e-7:
                    R.bad(tag, f"wrong state after {text} on input {name} with outcomes {seq}")
    if repr(c) != text:
        R.bad(f"{key}:sim:mutated", f"simulate changed {text}")
    R.outcome((n, nm, len(live)))


def work(task, R):
    if task[0] == "norm":
        for k in range(-40, 41):
            for a in (k / 8, k / 7, k / 8 + 1e-12):
                R.state()
                R.trans()
                b = normalize_angle(a)
                if not 0 <= b < 2 or abs((b - a) / 2 - round((b - a) / 2)) > 1e-9:
                    if abs(b - 2) < 1e-15 and a < 0:
                        continue
                    R.bad(f"norm:{a}", f"normalize_angle({a}) = {b}")
        return
    if task[0] == "bad":
        # A measured qubit, a repeated qubit or an unknown qubit is refused, and nothing is recorded.
        for n in (1, 2, 3):
            for g in [*circ.singles(n), *circ.doubles(n), *circ.measures(n)]:
                for q in range(n):
                    c = Circuit(n)
                    c.m(q, Axis.X)
                    before = repr(c)
                    qs = g[1:2] if g[0] in ("M", "RX", "RY", "RZ", "J", "H", "S", "X", "Y", "Z", "I") else g[1:3]
                    R.state()
                    R.trans()
                    try:
                        circ.apply(c, g)
                        ok = True
                    except AssertionError:
                        ok = False
                    if ok != (q not in qs) or (not ok and repr(c) != before):
                        R.bad(f"bad:{n}:{g}:{q}", f"gate {g} after measuring {q}: {'accepted' if ok else 'refused'}, {c!r}")
        for g in (["H", 2], ["CNOT", 0, 2], ["CNOT", 1, 1], ["CZ", 0, 0], ["SWAP", 1, 1], ["M", 2, "X"], ["CCX", 0, 1, 1], ["CCX", 0, 0, 1], ["CCX", 1, 0, 1]):
            c = Circuit(2)
            R.state()
            try:
                circ.apply(c, g)
                R.bad(f"bad:{g}", f"{g} was accepted on two qubits: {c!r}")
            except AssertionError:
                pass
        return
    _, n, chunk = task
    for gates in chunk:
        key = f"{n}q {circ.show(gates)}"
        R.at(key)
        c, st, want, live = rewrites(R, n, gates, key, rich=len(gates) <= 1)
        R.at(f"sim {key}")
        simulate(R, n, gates, c, st, want, live, key)
        R.show(key)

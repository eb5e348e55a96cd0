"""Q01: exported OpenQASM 3 programs mean what the circuit or pattern means."""

import itertools
import math
import tempfile
import warnings
from pathlib import Path

import numpy as np
from graphix import BasicStates, Circuit, Pattern
from graphix.optimization import single_qubit_domains
from graphix.parameter import Placeholder
from graphix.qasm3_exporter import angle_to_qasm3, circuit_to_qasm3, pattern_to_qasm3

from mc import circ, enums, pat, qasm, ref

warnings.simplefilter("ignore")

META = {
    "bounds": {
        "quick": "circuits: every word of <=2 instructions over the full gate set and X/Y/Z measurements on 3 qubits, 3 on 2 qubits (both operand orders, Toffoli on every triple), with and without transpilation; "
        "patterns: every runnable command sequence of <=3 commands after three prefixes (2-3 measured nodes, every plane and axis, domains of <=2 nodes), every Clifford, |0> and |+> on every input, every branch, and the patterns transpiled from every word of <=2 gates; "
        "angles: every fraction k/d with d<=48 and 400 irrational ones",
        "thorough": "words of 3 instructions on 3 qubits, 4 on 2 qubits, command sequences of length 4",
    },
    "assumptions": ["the meaning of standard gates is that of stdgates.inc, implemented independently", "inputs of patterns are |0> or |+>, the states the exporter supports"],
}
RZZ_KEY = "rzz exported as crz"
# The recorded finding: RZZ is exported as a controlled rotation. Programs using RZZ are also compared under that reading.
BROKEN_RZZ = lambda a: qasm.controlled(ref.rz(a))


def tasks(tier):
    th = tier == "thorough"
    for n, length in ((3, 3), (2, 4)) if th else ((3, 2), (2, 3)):
        first = [*circ.singles(n), *circ.doubles(n), *circ.measures(n)] + ([["CCX", *t] for t in itertools.permutations(range(3))] if n == 3 else [])
        for g in first:
            yield ["words", n, length, g]
    yield ["words", 1, 3, None]
    yield ["angles"]
    yield ["rzz"]
    yield ["refuse"]
    for k in range(len(SPACES)):
        inputs, prefix, nodes, length, codes, dom = SPACES[k]
        firsts = []
        for s in pat.sequences(inputs, prefix, 1, nodes, "NEMXZC", codes, CL, dom, (("ZERO",), ("PLUS",))):
            if s[len(prefix)] not in firsts:
                firsts.append(s[len(prefix)])
        for f in firsts:
            yield ["patterns", k, f, length + th]
    for c in range(24):
        yield ["clifford", c]
    for code in CODES:
        yield ["measurement", code]
    for n in (1, 2):
        for g in [*circ.singles(n), *circ.doubles(n)]:
            yield ["transpiled", n, g]


CODES = ["XY:0.37", "XZ:0.22", "YZ:0.61", "X+", "X-", "Y+", "Y-", "Z+", "Z-", "XY:0.0", "XY:-0.25", "XZ:0.0", "YZ:1.0", "XZ:1.7"]
CL = (2, 4, 6, 13)
SHORT = ["XY:0.37", "XZ:0.22", "YZ:0.61", "Y-"]
SPACES = [
    ([0, 7], [], [0, 7, 3], 3, SHORT, 1),
    ([4], [["N", 2], ["E", 4, 2], ["M", 4, "XY:0.37", [], []]], [2, 4, 5], 3, SHORT, 2),
    ([1, 0], [["N", 2, "PLUS"], ["E", 0, 2], ["E", 1, 2], ["M", 1, "XY:0.37", [], []], ["M", 0, "YZ:0.61", [1], []]], [0, 1, 2, 8], 3, ["XY:0.37", "XZ:0.22", "X-"], 2),
]


def matches(a, b):
    return a.shape == b.shape and pat.rows_same_rays(a, b)


def circuit_case(R, n, word, transpile):
    """One exported circuit."""
    key = f"circuit n={n} {circ.show(word)} transpile={transpile}"
    R.at(key)
    R.state()
    R.trans()
    c = circ.build(n, word)
    before = repr(c)
    legal = transpile or not any(g[0] == "J" or (g[0] == "M" and g[2] != "Z") for g in word)
    try:
        text = circuit_to_qasm3(c, transpile=transpile)
    except ValueError as e:
        if legal:
            R.bad(key, f"{key}: refused: {e}")
        return
    if not legal:
        R.bad(key, f"{key}: a J gate or a measurement along X or Y is exported without transpilation")
        return
    if repr(c) != before:
        R.bad(key, f"{key}: the circuit is modified by the export")
    msg = circuit_text(R, text, c, n, word, "RZZ" in {g[0] for g in word})
    if msg:
        R.bad(key, f"{key}: {msg}\n{text}")


def circuit_text(R, text, c, n, word, rzz):
    names = [f"q[{k}]" for k in range(n)]
    try:
        p = qasm.Program(text, names)
    except qasm.QasmError as e:
        return f"illegal program: {e}"
    if set(p.names) != set(names):
        return f"qubits {p.names}"
    targets = [g[1] for g in word if g[0] == "M"]
    if sorted(p.state.outcomes) != sorted(f"b[{t}]" for t in targets):
        return f"measured bits {sorted(p.state.outcomes)}"
    left = [k for k in range(n) if k not in targets]
    labels = [f"b[{t}]" for t in targets]
    got = pat.table(p.state, [f"q[{k}]" for k in left], labels)
    R.trans(p.state.steps)

    def meaning(instrs, broken):
        st = ref.BranchState(range(n))
        for g in word:
            if g[0] == "M":
                st.measure(g[1], {"X": (1, 0, 0), "Y": (0, 1, 0), "Z": (0, 0, 1)}[g[2]], label=f"b[{g[1]}]")
            elif broken and g[0] == "RZZ":
                st.gate(BROKEN_RZZ(g[3]), [g[1], g[2]])
            else:
                one = ref.run_circuit(n, circ.build(n, [g]).instruction)
                u = one.kraus(range(n))[0].reshape(2**n, 2**n)
                live = list(st.axes)
                qs = [q for q in g[1:] if isinstance(q, int)]
                st.gate(restrict(u, n, qs), qs)
                assert live
        return pat.table(st, left, labels)

    if matches(got, meaning(c.instruction, False)):
        return None
    if rzz and matches(got, meaning(c.instruction, True)):
        R.count("known_rzz_programs")
        return None
    return "the program does not act as the circuit"


def restrict(u, n, qs):
    """Matrix of a gate on its own qubits, from its matrix on all of them."""
    t = u.reshape((2,) * (2 * n))
    rest = [q for q in range(n) if q not in qs]
    idx = [slice(None)] * (2 * n)
    for q in rest:
        idx[q] = 0
        idx[n + q] = 0
    t = t[tuple(idx)]
    order = sorted(qs)
    k = len(qs)
    perm = [order.index(q) for q in qs]
    return t.transpose([*perm, *(k + p for p in perm)]).reshape(2**k, 2**k)


def pattern_case(R, key, p, states=True):
    """One exported pattern with every combination of supported input states."""
    R.state()
    R.at(key)
    st = ref.run_pattern(p)
    k = len(p.input_nodes)
    labels = sorted(st.outcomes)
    tab = pat.table(st, p.output_nodes, labels)
    m = tab.reshape(tab.shape[0], -1, 2**k)
    before = pat.snapshot(p)
    combos = list(itertools.product(("ZERO", "PLUS"), repeat=k)) if states else [("PLUS",) * k]
    for combo in combos:
        given = {v: getattr(BasicStates, s) for v, s in zip(p.input_nodes, combo, strict=True)}
        variants = [given]
        if len(set(combo)) == 1:
            variants.append(getattr(BasicStates, combo[0]))
        for g in variants:
            R.trans()
            text = pattern_to_qasm3(p, input_state=g) if not (isinstance(g, type(BasicStates.PLUS)) and g == BasicStates.PLUS) else pattern_to_qasm3(p)
            ket = np.ones(1, dtype=complex)
            for s in combo:
                ket = np.kron(ket, ref.PLUS if s == "PLUS" else np.array([1, 0]))
            msg = pattern_text(R, text, p, m @ ket, labels)
            if msg:
                R.bad(key, f"{key} inputs {combo}: {msg}\n{text}")
                return
    if pat.snapshot(p) != before:
        R.bad(key, f"{key}: the pattern is modified by the export")


def pattern_text(R, text, p, want, labels):
    try:
        q = qasm.Program(text)
    except qasm.QasmError as e:
        return f"illegal program: {e}"
    R.trans(q.state.steps)
    nodes = set(p.input_nodes) | {c.node for c in p if c.kind.name == "N"}
    if set(q.names) != {f"q{v}" for v in nodes} or sorted(q.state.outcomes) != sorted(f"c{v}" for v in labels):
        return f"qubits {q.names}, bits {sorted(q.state.outcomes)}"
    if any(q.measured[f"q{v}"] != f"c{v}" for v in labels):
        return f"outcomes are stored as {q.measured}"
    got = pat.table(q.state, [f"q{v}" for v in p.output_nodes], [f"c{v}" for v in labels])
    if not matches(got, want):
        return "a branch of the program has another state or probability"
    return None


def work(task, R):
    k = task[0]
    if k == "words":
        _, n, length, first = task
        alphabet = [*circ.singles(n), *circ.doubles(n), *circ.measures(n)] + ([["CCX", *t] for t in itertools.permutations(range(3))] if n == 3 else [])
        if first is None:
            spaces = [w for r in range(length + 1) for w in circ.words(alphabet, r)]
        else:
            spaces = ([first, *w] for r in range(length) for w in circ.words(alphabet, r) if circ.legal([first, *w]))
        for w in spaces:
            circuit_case(R, n, w, True)
            circuit_case(R, n, w, False)
        R.trace()
        R.show(f"{n} qubits, words from {first}")
    elif k == "patterns":
        _, i, first, length = task
        inputs, prefix, nodes, _, codes, dom = SPACES[i]
        for r in range(length):
            for seq in pat.sequences(inputs, [*prefix, first], r, nodes, "NEMXZC", codes, (4, 13), dom, (("ZERO",),)):
                pattern_case(R, f"pattern {pat.show(inputs, seq)}", pat.build(inputs, seq), states=r < 2)
        R.trace()
    elif k == "clifford":
        for inputs, cmds in (([3], [["C", 3, task[1]]]), ([3], [["N", 5], ["E", 3, 5], ["C", 5, task[1]], ["E", 3, 5], ["M", 3, "XY:0.37", [], []], ["C", 5, task[1]], ["X", 5, [3]]])):
            for second in range(24):
                pattern_case(R, f"pattern {pat.show(inputs, [*cmds, ['C', 5 if len(cmds) > 1 else 3, second]])}", pat.build(inputs, [*cmds, ["C", 5 if len(cmds) > 1 else 3, second]]))
        R.trace()
    elif k == "measurement":
        pre = [["N", 2], ["N", 3], ["E", 0, 2], ["E", 2, 3], ["M", 0, "XY:0.37", [], []], ["M", 2, "YZ:0.22", [0], []]]
        for s in enums.subsets([0, 2]):
            for t in enums.subsets([0, 2]):
                cmds = [*pre, ["N", 4], ["E", 3, 4], ["M", 3, task[1], list(s), list(t)], ["X", 4, [3]], ["Z", 4, [0, 2, 3]]]
                pattern_case(R, f"pattern {pat.show([0], cmds)}", pat.build([0], cmds))
        R.trace()
    elif k == "transpiled":
        _, n, g = task
        for g2 in [*circ.singles(n), *circ.doubles(n)]:
            p = circ.build(n, [g, g2]).transpile().pattern
            if sum(1 for c in p if c.kind.name == "M") > 8:
                continue
            pattern_case(R, f"transpiled n={n} {circ.show([g, g2])}", p, states=False)
            d = single_qubit_domains(p)
            text = pattern_to_qasm3(d)
            if "^" in text:
                R.bad(f"single {n} {circ.show([g, g2])}", "a condition has several bits after single_qubit_domains")
        R.trace()
    elif k == "angles":
        angles(R)
    elif k == "rzz":
        rzz(R)
    elif k == "refuse":
        refuse(R)


def angles(R):
    vals = {k / d for d in range(1, 49) for k in range(-2 * d, 2 * d + 1)} | {(k * math.sqrt(2) * 0.37) % 4 - 2 for k in range(400)} | {1e-6, -1e-9, 1e-12, 1 / 3 + 1e-7, 0.5 + 1e-8, 1 / 1009, 999 / 1000, 1e5 + 0.1, -7, 3}
    for a in sorted(vals):
        R.state()
        R.trans()
        text = angle_to_qasm3(a)
        try:
            v = qasm.number(text)
        except qasm.QasmError as e:
            R.bad(f"angle {a!r}", f"angle {a!r} pi is exported as {text!r}: {e}")
            continue
        if abs(v - a * math.pi) > 1e-8 * max(1, abs(a)):
            R.bad(f"angle {a!r}", f"angle {a!r} pi is exported as {text!r}, which is {v}")
    for a in (1 / 3, 0.1234, -2.75, 1e-7):
        for kind in ("RX", "RY", "RZ", "J"):
            circuit_case(R, 1, [[kind, 0, a]], True)
    R.trace()


def rzz(R):
    """The recorded finding: an RZZ gate is exported as crz."""
    for a in (0.37, -0.8, 1.0, 0.5):
        for q in ((0, 1), (1, 0)):
            c = Circuit(2)
            c.rzz(*q, a)
            text = circuit_to_qasm3(c)
            R.state()
            R.trans()
            try:
                p = qasm.Program(text, ["q[0]", "q[1]"])
            except qasm.QasmError as e:
                R.bad(f"rzz {a} {q}", f"illegal program: {e}\n{text}")
                continue
            got = p.state.kraus(["q[0]", "q[1]"])[0].reshape(4, 4)
            if abs(abs(np.trace(ref.rzz(a).conj().T @ got)) - 4) < 1e-8:
                continue
            broken = ref.BranchState(range(2))
            broken.gate(BROKEN_RZZ(a), list(c.instruction[0].__class__ and (c.instruction[0].control, c.instruction[0].target)))
            b = broken.kraus(range(2))[0].reshape(4, 4)
            if abs(abs(np.trace(b.conj().T @ got)) - 4) < 1e-8:
                R.bad(RZZ_KEY, f"rzz by {a} pi is exported as a controlled rotation: {text}")
            else:
                R.bad(f"rzz {a} {q}", f"rzz by {a} pi is exported as {text}")
    R.trace()


def refuse(R):
    """What cannot be exported is refused, and files hold the exported text."""
    def refused(what, f, *errors):
        R.state()
        R.trans()
        try:
            f()
        except errors:
            return
        R.bad(f"refuse {what}", f"{what} is exported")

    a = Placeholder("a")
    c = Circuit(1)
    c.rx(0, a)
    refused("a symbolic circuit", lambda: circuit_to_qasm3(c), TypeError)
    refused("a symbolic pattern", lambda: pattern_to_qasm3(c.transpile().pattern), TypeError)
    p = pat.build([0], [["N", 1], ["E", 0, 1], ["M", 0, "XY:0.37", [], []], ["X", 1, [0]]])
    for s in ("MINUS", "ONE", "PLUS_I", "MINUS_I"):
        refused(f"the input state {s}", lambda s=s: pattern_to_qasm3(p, input_state=getattr(BasicStates, s)), ValueError)
        refused(f"the input state {s} of a node", lambda s=s: pattern_to_qasm3(p, input_state={0: getattr(BasicStates, s)}), ValueError)
        q = pat.build([0], [["N", 1, s]])
        refused(f"a node prepared in {s}", lambda q=q: pattern_to_qasm3(q), ValueError)
    for cmds in ([["M", 0, "XY:0.37", [], []], ["S", 1, [0]]], [["T"]]):
        q = pat.build([0, 1], cmds)
        refused(f"command {cmds[-1]}", lambda q=q: pattern_to_qasm3(q), ValueError)
    with tempfile.TemporaryDirectory(prefix="q01") as d:
        for name in ("a", "b.qasm"):
            R.trans()
            p.to_qasm3(Path(d) / name)
            path = Path(d) / (name if name.endswith(".qasm") else name + ".qasm")
            if not path.exists() or path.read_text(encoding="utf-8") != pattern_to_qasm3(p):
                R.bad(f"file {name}", "the file does not hold the exported text")
            p.to_qasm3(Path(d) / name, input_state=BasicStates.ZERO)
            if path.exists() and path.read_text(encoding="utf-8") != pattern_to_qasm3(p, input_state=BasicStates.ZERO):
                R.bad(f"file {name} zero", "the file does not hold the text for the given input state")
    e = Pattern()
    if pattern_text(R, pattern_to_qasm3(e), e, np.ones((1, 1)), []):
        R.bad("empty pattern", pattern_to_qasm3(e))
    R.trace()

"""E01: circuits extracted from open graphs implement the open graph's map."""

import functools
import itertools
import warnings

import numpy as np
from graphix import Axis, Circuit, OpenGraph, Sign
from graphix.circ_ext.compilation import cm_berg_pass, pexp_ladder_pass
from graphix.circ_ext.extraction import CliffordMap, ExtractionResult, PauliExponential, PauliExponentialDAG, PauliString, extend_input
from graphix.parameter import Placeholder

from checks.F01 import mkgraph
from checks.F02 import K6, K8, chunk, projection
from mc import og, pat, ref

warnings.simplefilter("ignore")

META = {
    "bounds": {
        "quick": "every open graph up to isomorphism with Pauli flow: <=3 nodes x 8 measurement kinds x every order of inputs and outputs, 4 nodes x 8 kinds (reversed outputs), isometries included for the parts, 5 nodes with as many inputs as outputs x XY and, with 2-3 outputs, x {XY,-X,Y}; wires of 3+3 and 2+2+2 nodes joined by <=3 edges, 4+3 and 3+2+2 nodes joined by one; "
        "Pauli strings, exponentials, Clifford map and synthesized circuit checked separately; every flow found (Pauli, generalised, causal when focused); "
        "synthesis: every Clifford tableau on 1 and 2 qubits (11520) and every 3-qubit tableau within 4 gates of the identity and of a full entangling tableau; every signed Pauli string on <=3 qubits in every key order, every pair of exponentials on 2 qubits in every layering",
        "thorough": "one more joining edge on 7 nodes, wires of 3+3+2 nodes; 5 nodes x {XY,YZ,X,Y} with as many inputs as outputs; every 3-qubit symplectic tableau (1451520) with signs cycled",
    },
    "assumptions": ["generic angles represent the angle domain (one per plane)", "no Clifford on the outputs (documented as unsupported, refusal checked)"],
}
TOL = 1e-8
P1 = {"I": np.eye(2), "X": ref.X, "Y": ref.Y, "Z": ref.Z}


@functools.lru_cache(maxsize=None)
def word(letters):
    m = np.eye(1)
    for c in letters:
        m = np.kron(m, P1[c])
    return m


def matrix(ps):
    """Operator denoted by a Pauli string."""
    letters = ["I"] * ps.dim
    for q, a in ps.axes.items():
        letters[q] = a.name
    return (-1 if ps.sign is Sign.MINUS else 1) * word("".join(letters))


def expo(angle, ps):
    # the angle is half of the measurement angle: the exponential is exp(i angle P), the rotation by -2 angle
    a = np.pi * float(angle)
    return np.cos(a) * np.eye(2**ps.dim) + 1j * np.sin(a) * matrix(ps)


def unitary(circuit, n):
    """Matrix of a measurement-free circuit."""
    st = ref.run_circuit(n, circuit.instruction)
    return st.kraus(range(n))[0].reshape(2**n, 2**n)


def same_op(a, b):
    na, nb = np.linalg.norm(a), np.linalg.norm(b)
    if na < TOL or nb < TOL:
        return False
    a, b = a / na, b / nb
    return a.shape == b.shape and abs(abs(np.vdot(a, b)) - 1) < TOL


def exponentials(dag, n):
    """Product of the exponentials, earliest layer first."""
    e = np.eye(2**n, dtype=complex)
    for layer in reversed(dag.partial_order_layers[1:]):
        ops = []
        for v in layer:
            px = dag.pauli_exponentials[v]
            ops.append(expo(px.angle, px.pauli_string))
        for a, b in itertools.combinations(ops, 2):
            if not np.allclose(a @ b, b @ a, atol=TOL):
                return None
        for o in ops:
            e = o @ e
    return e


def parts(er, v, i, o):
    """The exponentials and the Clifford map of an extraction against the matrix of the open graph."""
    n = len(o)
    if list(er.pexp_dag.output_nodes) != list(o) or list(er.clifford_map.output_nodes) != list(o) or list(er.clifford_map.input_nodes) != list(i):
        return "the extraction result mentions other inputs or outputs"
    e = exponentials(er.pexp_dag, n)
    if e is None:
        return "two exponentials of one layer do not commute"
    c = e.conj().T @ v
    k = len(i)
    if len(er.clifford_map.x_map) != k or len(er.clifford_map.z_map) != k:
        return "the Clifford map has another number of generators"
    for q in range(k):
        for name, ps in (("X", er.clifford_map.x_map[q]), ("Z", er.clifford_map.z_map[q])):
            if ps.dim != n:
                return f"Pauli string of dimension {ps.dim}"
            g = word("".join(name if r == q else "I" for r in range(k)))
            if not np.allclose(c @ g, matrix(ps) @ c, atol=1e-7):
                return f"the Clifford map sends {name} of input {q} to {ps}, which the open graph does not do"
    return None


def examine(R, key, x, permute=False):
    """Extraction from one open graph; returns whether it has Pauli flow."""
    f = x.to_pauliflow_or_none()
    if f is None:
        return
    R.state()
    i, o = list(x.input_nodes), list(x.output_nodes)
    k, n = len(i), len(o)
    v = projection(x).reshape(2**n, 2**k)
    v = v / np.linalg.norm(v) * 2 ** (k / 2)
    er = f.extract_circuit()
    msg = parts(er, v, i, o)
    R.trans()
    if not msg and permute:
        # an ancillary input measured along X before each input is a Hadamard on that input
        ext, names = extend_input(x)
        w = projection(ext).reshape(2**n, 2**k)
        if len(ext.graph) != len(x.graph) + k or sorted(names) != sorted(i) or any(ext.graph.adj[names[u]].keys() != {u} for u in i):
            msg = f"extended inputs {names} of graph {ext.graph.edges}"
        elif not ref.proportional(w, v @ functools.reduce(np.kron, [ref.H] * k, np.eye(1))):
            msg = "the open graph with extended inputs is not the open graph after Hadamard gates on its inputs"
    if msg:
        R.bad(f"parts {key}", f"{key}: {msg}")
        return
    if k != n:
        try:
            er.to_circuit()
            R.bad(f"isometry {key}", f"{key}: an isometry is compiled")
        except NotImplementedError:
            pass
        return
    circuits = [("to_circuit", x.to_circuit())]
    if permute:
        b = x.to_bloch()
        g = b.to_gflow_or_none()
        if g is not None:
            circuits.append(("gflow", g.extract_circuit().to_circuit()))
        c = b.to_causalflow_or_none()
        if c is not None and c.is_focused():
            circuits.append(("causal flow", c.extract_circuit().to_circuit()))
        circuits.append(("of the result", er.to_circuit()))
    for name, c in circuits:
        R.trans()
        if c.width != n or any(ins.kind.name == "M" for ins in c.instruction):
            R.bad(f"width {key}", f"{key} {name}: circuit of width {c.width} on {n} qubits")
        elif not same_op(unitary(c, n), v):
            R.bad(f"circuit {key} {name}", f"{key} {name}: {c} does not implement the open graph")


def tasks(tier):
    th = tier == "thorough"
    for n in range(4):
        yield from chunk(n, K8, 300, "graphs")
    yield from chunk(4, K8, 1500, "graphs", min_out=1, max_out=4)
    yield from chunk(5, ["XY:0.37"], 60, "unitary", min_out=1, max_out=4)
    yield from chunk(5, ["XY:0.37", "X-", "Y+"], 600, "unitary", min_out=2, max_out=3)
    if th:
        yield from chunk(5, ["XY:0.37", "YZ:0.61", "X-", "Y+"], 1200, "unitary", min_out=1, max_out=3)
    for lens, cross in (((3, 3), 3), ((2, 2, 2), 3), ((4, 3), 2), ((3, 2, 2), 2), ((3, 3, 2), 2)):
        if sum(lens) > 7 and not th:
            continue
        for part in range(8):
            yield ["wires", lens, cross if th or sum(lens) < 7 else cross - 1, part]
    for a in range(24):
        yield ["two", a]
    for k in range(8):
        yield ["near", k]
    if th:
        for k in range(63):
            for j in range(32):
                yield ["sp6", k, j]
    for n in (1, 2, 3):
        for first in "IXYZ":
            yield ["strings", n, first]
    for k in range(4):
        yield ["pairs", k]
    yield ["text"]
    yield ["errors"]
    yield ["parameters"]


def work(task, R):
    what = task[0]
    if what in ("graphs", "unitary"):
        _, n, kinds, shapes = task
        for edges, i, o in shapes:
            if what == "unitary" and len(i) != len(o):
                continue
            g = mkgraph(n, edges)
            nodes = [v for v in range(n) if v not in o]
            for ls in itertools.product(kinds, repeat=len(nodes)):
                ms = {v: pat.meas(c) for v, c in zip(nodes, ls, strict=True)}
                full = n <= 3
                for pi in itertools.permutations(i) if full else [tuple(i)]:
                    for po in itertools.permutations(o) if full else [tuple(reversed(o))]:
                        key = f"n={n} E={[tuple(e) for e in edges]} I={pi} O={po} M={ls}"
                        R.at(key)
                        examine(R, key, OpenGraph(g, list(pi), list(po), ms), n <= 3 or what == "unitary")
            R.show(f"n={n} {edges} {i} {o}")
        R.trace()
    elif what == "wires":
        wires(R, *task[1:])
    elif what == "two":
        two(R, task[1])
    elif what == "near":
        near(R, task[1])
    elif what == "sp6":
        sp6(R, task[1], task[2])
    elif what == "strings":
        strings(R, task[1], task[2])
    elif what == "pairs":
        pairs(R, task[1])
    elif what == "text":
        text(R)
    elif what == "errors":
        errors(R)
    elif what == "parameters":
        parameters(R)


def wires(R, lens, cross, part):
    """Larger graphs with as many inputs as outputs: joined wires with sparse labels."""
    for num, (n, edges, i, o) in enumerate(og.wires(lens, cross)):
        if num % 8 != part:
            continue
        names = dict(enumerate([8, 2, 11, 5, 0, 21, 4, 30][:n]))
        g = mkgraph(n, edges, names)
        nodes = [v for v in range(n) if v not in o]
        for ls in og.labellings(len(nodes), "XY:0.37", ["X-", "Y+", "YZ:0.61"] if n < 7 else ["X-", "YZ:0.61"]):
            ms = {names[v]: pat.meas(c) for v, c in zip(nodes, ls, strict=True)}
            x = OpenGraph(g, [names[v] for v in i], [names[v] for v in reversed(o)], ms)
            key = f"E={[(names[a], names[b]) for a, b in edges]} I={x.input_nodes} O={x.output_nodes} M={ls}"
            R.at(key)
            examine(R, key, x, True)
    R.trace()


# Tableaux: a Pauli operator is (x mask, z mask, sign), a map is the images of X_0.. then Z_0..


def gate_images(gate):
    """Images of Paulis under conjugation by a gate, on bit masks (independent of the library)."""
    k = gate[0]

    def f(p):
        x, z, s = p
        if k == "H":
            b = 1 << gate[1]
            s ^= bool(x & b) and bool(z & b)
            nx = (x & ~b) | (b if z & b else 0)
            nz = (z & ~b) | (b if x & b else 0)
            return nx, nz, int(s)
        if k == "S":
            b = 1 << gate[1]
            s ^= bool(x & b) and bool(z & b)
            return x, z ^ (x & b), int(s)
        if k in "XYZ":
            b = 1 << gate[1]
            flip = (k in "XY" and bool(z & b)) ^ (k in "YZ" and bool(x & b))
            return x, z, int(s ^ flip)
        if k == "CNOT":
            c, t = 1 << gate[1], 1 << gate[2]
            s ^= bool(x & c) and bool(z & t) and (bool(x & t) == bool(z & c))
            if x & c:
                x ^= t
            if z & t:
                z ^= c
            return x, z, int(s)
        if k == "SWAP":
            a, b = 1 << gate[1], 1 << gate[2]
            sw = lambda m: (m & ~(a | b)) | (b if m & a else 0) | (a if m & b else 0)
            return sw(x), sw(z), s
        raise ValueError(k)

    return f


def gate_of(ins):
    k = ins.kind.name
    if k == "CNOT":
        return (k, ins.control, ins.target)
    if k == "SWAP":
        return (k, *ins.targets)
    return (k, ins.target)


def identity(n):
    return tuple((1 << q, 0, 0) for q in range(n)) + tuple((0, 1 << q, 0) for q in range(n))


def image(circuit, n):
    t = identity(n)
    for ins in circuit.instruction:
        if ins.kind.name in ("I",):
            continue
        f = gate_images(gate_of(ins))
        t = tuple(f(p) for p in t)
    return t


def pstring(p, n):
    x, z, s = p
    axes = {}
    for q in range(n):
        a, b = x >> q & 1, z >> q & 1
        if a or b:
            axes[q] = Axis.Y if a and b else Axis.X if a else Axis.Z
    return PauliString(n, axes, Sign.MINUS if s else Sign.PLUS)


def berg(R, t, n):
    """Compile one Clifford tableau and compare the images of all generators."""
    R.state()
    R.trans()
    key = ["tableau", n, [list(p) for p in t]]
    R.at(key)
    cm = CliffordMap([pstring(p, n) for p in t[:n]], [pstring(p, n) for p in t[n:]], list(range(n)), list(range(n)))
    c = Circuit(n)
    cm_berg_pass(cm, c)
    if image(c, n) != t:
        R.bad(key, f"the circuit compiled for the Clifford map {[str(pstring(p, n)) for p in t]} (images of X, then Z) is {c}")


def symp(p, q):
    return (bin(p[0] & q[1]).count("1") + bin(p[1] & q[0]).count("1")) % 2


def two(R, a):
    """Every 2-qubit tableau (and, once, every 1-qubit one)."""
    if a == 0:
        paulis = [(x, z, s) for x in range(2) for z in range(2) for s in range(2) if x or z]
        for p in paulis:
            for q in paulis:
                if symp(p, q):
                    berg(R, (p, q), 1)
    ps = [(x, z, s) for x in range(4) for z in range(4) for s in range(2) if x or z]
    for x0 in ps[a::24]:
        for z0 in (q for q in ps if symp(x0, q)):
            rest = [q for q in ps if not symp(x0, q) and not symp(z0, q)]
            for x1 in rest:
                for z1 in (q for q in rest if symp(x1, q)):
                    berg(R, (x0, x1, z0, z1), 2)
    R.trace()


GATES3 = [("H", 0), ("H", 2), ("S", 0), ("S", 1), ("X", 1), ("Y", 2), ("Z", 0), ("CNOT", 0, 1), ("CNOT", 1, 2), ("CNOT", 2, 0), ("SWAP", 0, 2)]


def near(R, k):
    """3-qubit tableaux within 4 gates of the identity or of an entangling tableau."""
    base = identity(3)
    if k % 2:
        for g in (("H", 0), ("CNOT", 0, 1), ("S", 1), ("H", 1), ("CNOT", 1, 2), ("S", 0), ("H", 2), ("CNOT", 2, 0), ("S", 2), ("CNOT", 0, 2), ("H", 0)):
            base = tuple(gate_images(g)(p) for p in base)
    seen = {base}
    layer = [base]
    for _ in range(4):
        nxt = []
        for t in layer:
            for g in GATES3:
                f = gate_images(g)
                u = tuple(f(p) for p in t)
                if u not in seen:
                    seen.add(u)
                    nxt.append(u)
        layer = nxt
    for j, t in enumerate(sorted(seen)):
        if j % 4 == k // 2:
            berg(R, t, 3)
    R.trace()


def sp6(R, k, j):
    """Every 3-qubit symplectic tableau, signs cycled with the position in the enumeration."""
    ps = [(x, z) for x in range(8) for z in range(8) if x or z]
    x0 = (*ps[k], 0)
    partners = [q for q in ps if symp(x0, q)]
    z0 = partners[j]
    rest = [q for q in ps if not symp(x0, q) and not symp(z0, q)]
    count = 0
    for x1 in rest:
        for z1 in (q for q in rest if symp(x1, q)):
            last = [q for q in rest if not symp(x1, q) and not symp(z1, q)]
            for x2 in last:
                for z2 in (q for q in last if symp(x2, q)):
                    count += 1
                    rows = (x0, x1, x2, z0, z1, z2)
                    berg(R, tuple((p[0], p[1], (count * 37 >> b) & 1) for b, p in enumerate(rows)), 3)
    R.trace()


def ladder(R, key, exps, layers, n):
    """Compile exponentials in the given layers and compare with the product."""
    R.state()
    R.trans()
    R.at(key)
    dag = PauliExponentialDAG({v: PauliExponential(a, ps) for v, (a, ps) in exps.items()}, [set(range(100, 100 + n)), *layers], list(range(100, 100 + n)))
    c = Circuit(n)
    pexp_ladder_pass(dag, c)
    want = exponentials(dag, n)
    if c.width != n or not same_op(unitary(c, n), want):
        R.bad(key, f"exponentials { {v: (a, str(ps)) for v, (a, ps) in exps.items()} } in layers {layers} are compiled to {c}")


def strings(R, n, first):
    """Every signed Pauli string with its keys in every order, several angles."""
    for rest in itertools.product("IXYZ", repeat=n - 1):
        letters = first + "".join(rest)
        items = [(q, Axis[c]) for q, c in enumerate(letters) if c != "I"]
        for sign in (Sign.PLUS, Sign.MINUS):
            for perm in itertools.permutations(items):
                for a in (0.37, -0.61, 0.5, 1, 0):
                    ps = PauliString(n, dict(perm), sign)
                    ladder(R, ["string", letters, sign.name, [p[0] for p in perm], a], {7: (a, ps)}, [{7}], n)
    R.trace()


def pairs(R, k):
    """Pairs of exponentials on two qubits, in one layer when they commute and in both orders."""
    words = ["".join(w) for w in itertools.product("IXYZ", repeat=2)]
    for a in words[k::4]:
        for b in words:
            for sa, sb in itertools.product((Sign.PLUS, Sign.MINUS), repeat=2):
                pa, pb = (PauliString(2, {q: Axis[c] for q, c in enumerate(w) if c != "I"}, s) for w, s in ((a, sa), (b, sb)))
                exps = {3: (0.37, pa), 5: (0.22, pb)}
                layerings = [[{3}, {5}], [{5}, {3}]]
                if np.allclose(matrix(pa) @ matrix(pb), matrix(pb) @ matrix(pa)):
                    layerings.append([{3, 5}])
                for lay in layerings:
                    ladder(R, ["pair", a, b, sa.name, sb.name, [sorted(x) for x in lay]], exps, lay, 2)
    R.trace()


def text(R):
    """Pauli strings, their text and their tableau rows."""
    for n in range(4):
        for w in itertools.product("IXYZ", repeat=n):
            for sign in ("+", "-", ""):
                s = sign + "".join(w)
                ps = PauliString.from_str(s)
                R.state()
                R.trans(4)
                want = (-1 if sign == "-" else 1) * word("".join(w))
                if ps.dim != n or not np.allclose(matrix(ps), want):
                    R.bad(["text", s], f"{s!r} is read as {ps!r}")
                if n and str(ps) != ("-" if sign == "-" else "+") + "".join(w):
                    R.bad(["text", s], f"{s!r} is printed as {ps}")
                tab = ps.to_tableau()
                bits = [int(c in "XY") for c in w] + [int(c in "YZ") for c in w] + [int(sign == "-")]
                if [int(b) for b in tab] != bits or PauliString.from_tableau(tab) != ps:
                    R.bad(["text", s], f"tableau of {s!r} is {[int(b) for b in tab]}, read back as {PauliString.from_tableau(tab)}")
    for s in ("A", "+XQ", "XX-", "x", "*X", "+ X"):
        try:
            PauliString.from_str(s)
            R.bad(["text", s], f"{s!r} accepted as a Pauli string")
        except ValueError:
            pass
    for n in (1, 2):
        for a in itertools.product("IXYZ", repeat=n):
            ps = PauliString.from_str("-" + "".join(a))
            cm = CliffordMap([ps] * n, [PauliString.from_str("".join(a))] * n, list(range(n)), list(range(n)))
            rows = [[int(b) for b in row] for row in cm.to_tableau()]
            one = [int(c in "XY") for c in a] + [int(c in "YZ") for c in a]
            R.state()
            if rows != [[*one, 1]] * n + [[*one, 0]] * n:
                R.bad(["tableau", "".join(a)], f"tableau {rows}")
    R.trace()


def errors(R):
    """Refusals: unfocused flows, output Cliffords, incompatible parts; custom passes run in order."""
    from graphix import Clifford

    g = mkgraph(5, [(0, 1), (1, 2), (2, 3), (3, 4)])
    xy = pat.meas("XY:0.37")
    chain = OpenGraph(g, [0], [4], dict.fromkeys(range(4), xy))
    f = chain.to_causalflow()
    R.state()
    if f.is_focused():
        R.bad(["focused"], "the causal flow of a chain is focused")
    else:
        try:
            f.extract_circuit()
            R.bad(["focused"], "a circuit is extracted from an unfocused flow")
        except ValueError:
            pass
    dressed = OpenGraph(g, [0], [4], dict.fromkeys(range(4), xy), {4: Clifford(6)})
    try:
        dressed.to_circuit()
        R.bad(["dressed"], "an open graph with output Cliffords is extracted")
    except NotImplementedError:
        pass
    er = chain.to_pauliflow().extract_circuit()
    try:
        ExtractionResult(er.pexp_dag, CliffordMap(er.clifford_map.x_map, er.clifford_map.z_map, [0], [3])).to_circuit()
        R.bad(["incompatible"], "parts on different outputs are combined")
    except ValueError:
        pass
    calls = []
    c = chain.to_circuit(pexp_cp=lambda d, circ: calls.append(("pexp", d.output_nodes, circ)), cm_cp=lambda m, circ: calls.append(("cm", m.output_nodes, circ)))
    if [x[0] for x in calls] != ["cm", "pexp"] or any(x[2] is not c for x in calls) or c.instruction:
        R.bad(["passes"], f"custom passes are called as {[x[0] for x in calls]}")
    # an open graph without qubits, and one without inputs and outputs to rotate
    empty = OpenGraph(mkgraph(0, []), [], [], {})
    ce = empty.to_circuit()
    if ce.width != 0 or ce.instruction:
        R.bad(["empty"], f"empty open graph gives {ce}")
    R.trace()


def parameters(R):
    """Extraction commutes with substituting numbers for parametric angles."""
    from graphix import Plane
    from graphix.measurements import BlochMeasurement

    for n, edges, i, o in ((2, [(0, 1)], [0], [1]), (3, [(0, 1), (1, 2)], [0], [2]), (3, [(0, 1), (0, 2), (1, 2)], [0], [2]), (4, [(0, 1), (1, 3), (2, 3)], [0, 2], [3, 1])):
        nodes = [v for v in range(n) if v not in o]
        for planes in itertools.product(Plane, repeat=len(nodes)):
            for vals in itertools.product((0.37, 0.0, -0.8), repeat=len(nodes)):
                ph = {v: Placeholder(f"a{v}") for v in nodes}
                x = OpenGraph(mkgraph(n, edges), i, o, {v: BlochMeasurement(ph[v], p) for v, p in zip(nodes, planes, strict=True)})
                R.state()
                if x.to_pauliflow_or_none() is None:
                    continue
                R.trans()
                c = x.to_circuit()
                y = x.with_parameters(dict(zip(ph.values(), vals, strict=True)))
                d = c.replace_parameters(dict(zip(ph.values(), vals, strict=True)), copy=True)
                key = ["parameters", n, [list(e) for e in edges], i, o, [p.name for p in planes], list(vals)]
                v = projection(y).reshape(2 ** len(o), 2 ** len(i))
                if not same_op(unitary(d, len(o)), v):
                    R.bad(key, f"{key}: the extracted circuit with values substituted does not implement the open graph")
    R.trace()

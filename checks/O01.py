"""O01: open graphs compose, compare and answer queries as the objects they denote."""

import itertools
import math
import warnings

import networkx as nx
import numpy as np
from graphix import Axis, Clifford, OpenGraph, Plane, command
from graphix.measurements import BlochMeasurement, PauliMeasurement
from graphix.opengraph import OpenGraphError

from checks.F02 import projection
from mc import enums, pat, ref

warnings.simplefilter("ignore")

META = {
    "bounds": {
        "quick": "composition: every pair of open graphs with <=2 nodes (ordered inputs and outputs, measurement kinds XY and X, output Clifford none or H) x every injective partial mapping into the nodes of the first graph and fresh labels; "
        "3-node with 2-node open graphs in both roles (one measurement kind, no Clifford, graphs up to isomorphism); Clifford transfer: all 24 output Cliffords x 9 measurement labels x both roles and all pairs of output Cliffords; "
        "validation: every choice of inputs, outputs, measured nodes and Clifford keys among 3 nodes and a foreign one; comparison: every pair of a family of 3-node graphs, each also built in another order; neighbourhoods: every node set of every graph on <=4 nodes; "
        "Pauli inference on every multiple of pi/4 and offsets around the tolerance",
        "thorough": "composition with measurement kinds XY, YZ, X, -Y and output Cliffords none, S, H on <=2 nodes, 3-node with 2-node open graphs on all labelled graphs, 3-node with 3-node open graphs on connected graphs, neighbourhoods on 5 nodes",
    },
    "assumptions": [
        "the composed graph is the union of the two graphs with the identified nodes merged, as documented and tested (an edge present in both stays one edge)",
        "the composed map is compared when outputs without Clifford are merged with inputs and no edge is shared, the case in which merging is composition",
    ],
}
LAB1, LAB2 = [4, 1, 6], [1, 8, 0]
PLANES = {"plane:XY": Plane.XY, "plane:YZ": Plane.YZ, "plane:XZ": Plane.XZ, "axis:X": Axis.X, "axis:Y": Axis.Y, "axis:Z": Axis.Z}


def meas(code):
    return PLANES[code] if code in PLANES else pat.meas(code)


def make(d, labels):
    n, edges, i, o, ms, cl = d
    g = nx.Graph()
    g.add_nodes_from(labels[:n])
    g.add_edges_from((labels[a], labels[b]) for a, b in edges)
    return OpenGraph(g, [labels[v] for v in i], [labels[v] for v in o], {labels[v]: meas(c) for v, c in ms}, {labels[v]: Clifford(c) for v, c in cl})


def backwards(d, labels):
    """The same open graph, with nodes, edges, measurements and Cliffords given in another order."""
    n, edges, i, o, ms, cl = d
    g = nx.Graph()
    g.add_nodes_from(labels[:n][::-1])
    g.add_edges_from((labels[b], labels[a]) for a, b in edges[::-1])
    return OpenGraph(g, [labels[v] for v in i], [labels[v] for v in o], {labels[v]: meas(c) for v, c in ms[::-1]}, {labels[v]: Clifford(c) for v, c in cl[::-1]})


def family(n, kinds, cliffs, ordered=True, connected=False, graphs=enums.all_graphs):
    for edges in graphs(n):
        if connected and n > 1:
            g = nx.Graph(list(edges))
            if len(g) < n or not nx.is_connected(g):
                continue
        for o in ports(n, ordered):
            nodes = [v for v in range(n) if v not in o]
            for i in ports(n, ordered):
                for ms in itertools.product(kinds, repeat=len(nodes)):
                    for cl in itertools.product(cliffs, repeat=len(o)):
                        yield [n, [list(e) for e in edges], list(i), list(o), list(zip(nodes, ms, strict=True)), [(v, c) for v, c in zip(o, cl, strict=True) if c is not None]]


def ports(n, ordered):
    for r in range(n + 1):
        if ordered:
            yield from itertools.permutations(range(n), r)
        else:
            yield from (tuple(sorted(c, reverse=r % 2 == 0)) for c in itertools.combinations(range(n), r))


def mappings(n1, n2):
    """Injective partial maps from nodes of the second graph to nodes of the first and fresh labels."""
    fresh = [max(LAB1[:n1], default=-1) + 1, 3]  # the first one is the label an unmapped node would get
    targets = [*LAB1[:n1], *fresh]
    for r in range(n2 + 1):
        for vs in itertools.combinations(LAB2[:n2], r):
            for us in itertools.permutations(targets, r):
                if all(us.index(f) > us.index(e) for e, f in itertools.pairwise(fresh) if f in us and e in us) and (fresh[1] not in us or fresh[0] in us):
                    yield dict(zip(vs, us, strict=True))


def observable(m):
    if isinstance(m, Plane):
        return frozenset(("XYZ".index(a.name)) for a in (m.cos, m.sin))
    if isinstance(m, Axis):
        return "XYZ".index(m.name)
    return ref.observable(ref.bloch(m))


PAULIS = [ref.X, ref.Y, ref.Z]


def conj(obs, c):
    """Observable (or plane, or axis) of the measurement made after the Clifford."""
    u = np.asarray(Clifford(c).matrix) if isinstance(c, int) else np.asarray(c.matrix)
    if isinstance(obs, frozenset):
        return frozenset(conj(x, c) for x in obs)
    if isinstance(obs, int):
        m = u.conj().T @ PAULIS[obs] @ u
        return next(i for i in range(3) if abs(abs(np.trace(PAULIS[i] @ m)) - 2) < 1e-9)
    return u.conj().T @ obs @ u


def same_obs(a, b):
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        return np.abs(a - b).max() < 1e-8
    return type(a) is type(b) and a == b


def expected(x, y, mp, full):
    """Structure of the composition: nodes, edges, inputs, outputs, observables, Cliffords."""
    v1 = set(x.graph.nodes)
    nodes = v1 | set(full.values())
    edges = {frozenset(e) for e in x.graph.edges} | {frozenset(full[a] for a in e) for e in y.graph.edges}
    merged = v1 & set(full.values())
    back = {u: v for v, u in full.items()}

    def merge(p1, p2):
        return [u for u in p1 if u not in merged or back[u] in p2] + [full[v] for v in p2 if full[v] not in merged]

    ins, outs = merge(list(x.input_nodes), list(y.input_nodes)), merge(list(x.output_nodes), list(y.output_nodes))
    obs, cl = {}, {}
    eye = np.eye(2)
    for u in nodes:
        m1 = x.measurements.get(u)
        v = back.get(u)
        m2 = y.measurements.get(v) if v is not None else None
        c1 = x.output_cliffords.get(u)
        c2 = y.output_cliffords.get(v) if v is not None else None
        if m1 is not None:
            obs[u] = observable(m1) if c2 is None else conj(observable(m1), c2)
        elif m2 is not None:
            obs[u] = observable(m2) if c1 is None else conj(observable(m2), c1)
        else:
            cl[u] = (eye if c2 is None else np.asarray(c2.matrix)) @ (eye if c1 is None else np.asarray(c1.matrix))
    return nodes, edges, ins, outs, obs, cl


def snapshot(x):
    return (sorted(x.graph.nodes), sorted(map(sorted, x.graph.edges)), list(x.input_nodes), list(x.output_nodes), dict(x.measurements), dict(x.output_cliffords))


def phase_eq(a, b):
    return abs(abs(np.trace(a.conj().T @ b)) - 2) < 1e-9


def compare(x, y, mp, semantic=True):
    """Message about what is wrong with x.compose(y, mp), or None."""
    back = {u: v for v, u in mp.items()}
    conflict = any(
        u in x.measurements and v in y.measurements and not (type(x.measurements[u]) is type(y.measurements[v]) and same_obs(observable(x.measurements[u]), observable(y.measurements[v])) and x.measurements[u] == y.measurements[v])
        for u, v in back.items()
    )
    before = snapshot(x), snapshot(y), dict(mp)
    try:
        z, full = x.compose(y, mp)
    except OpenGraphError as e:
        return None if conflict else f"composition refused: {e}"
    if conflict:
        return "nodes with different measurements were merged"
    if (snapshot(x), snapshot(y), dict(mp)) != before:
        return "the operands were modified"
    if set(full) != set(y.graph.nodes) or any(full[v] != u for v, u in mp.items()) or len(set(full.values())) != len(full):
        return f"complete mapping {full}"
    if any(full[v] in x.graph.nodes or full[v] in mp.values() for v in full if v not in mp):
        return f"an unmapped node is not given a fresh label: {full}"
    nodes, edges, ins, outs, obs, cl = expected(x, y, mp, full)
    if set(z.graph.nodes) != nodes or {frozenset(e) for e in z.graph.edges} != edges:
        return f"graph {sorted(z.graph.nodes)} {sorted(map(sorted, z.graph.edges))}, expected {sorted(nodes)} {sorted(map(sorted, edges))}"
    if list(z.input_nodes) != ins or list(z.output_nodes) != outs:
        return f"inputs {z.input_nodes} outputs {z.output_nodes}, expected {ins} {outs}"
    if set(z.measurements) != set(obs):
        return f"measured nodes {sorted(z.measurements)}"
    for u, m in z.measurements.items():
        if not same_obs(observable(m), obs[u]):
            return f"node {u} is measured in {m}"
    for u, c in cl.items():
        if not phase_eq(np.asarray(z.output_cliffords.get(u, Clifford.I).matrix), c):
            return f"output node {u} carries {z.output_cliffords.get(u)}"
    if not set(z.output_cliffords) <= set(cl):
        return "a Clifford acts on a node that is not an output"
    if semantic:
        return meaning(x, y, mp, full, z)
    return None


def meaning(x, y, mp, full, z):
    """When outputs of the first are merged with inputs of the second, the maps compose."""
    merged = set(full.values()) & set(x.graph.nodes)
    back = {u: v for v, u in full.items()}
    if not all(u in x.output_nodes and back[u] in y.input_nodes and x.output_cliffords.get(u, Clifford.I) == Clifford.I for u in merged):
        return None
    shared = {frozenset(e) for e in x.graph.edges} & {frozenset(full[a] for a in e) for e in y.graph.edges}
    if shared or any(isinstance(m, (Plane, Axis)) for m in z.measurements.values()):
        return None
    st = ref.BranchState([*x.input_nodes, *(full[v] for v in y.input_nodes if full[v] not in merged)])

    def run(g, ren):
        for v in g.graph.nodes:
            if v not in g.input_nodes:
                st.add(ren[v], ref.PLUS)
        for a, b in g.graph.edges:
            st.gate(ref.CZ, [ren[a], ren[b]])
        for v, m in g.measurements.items():
            st.measure(ren[v], ref.bloch(m))
            st.prune(0)
        for v, c in g.output_cliffords.items():
            st.gate(np.asarray(c.matrix), [ren[v]])

    run(x, {v: v for v in x.graph.nodes})
    run(y, full)
    # inputs of the composition keep the order of the state's inputs
    want = st.kraus(z.output_nodes)[0]
    got = projection(z)
    # merged inputs which are also inputs of the first graph are listed once
    if np.linalg.norm(want) < 1e-9:
        ok = np.linalg.norm(got) < 1e-9
    else:
        ok = ref.same_ray(got, want)
    return None if ok else "the composed open graph does not implement the composition of the maps"


def dump(d):
    return [d[0], [list(e) for e in d[1]], list(d[2]), list(d[3]), [list(m) for m in d[4]], [list(c) for c in d[5]]]


def pairs(R, firsts, seconds, maps):
    for d1 in firsts:
        x = make(d1, LAB1)
        for d2 in seconds:
            y = make(d2, LAB2)
            R.state()
            for mp in maps(d1[0], d2[0]):
                R.at([d1, d2, list(mp.items())])
                R.trans()
                msg = compare(x, y, mp)
                if msg:
                    R.bad(["compose", dump(d1), dump(d2), [list(m) for m in mp.items()]], f"first {d1} labels {LAB1}, second {d2} labels {LAB2}, mapping {mp}: {msg}")
    R.trace()


def small(kinds, cliffs):
    return [d for n in (0, 1, 2) for d in family(n, kinds, cliffs)]


def threes(everything):
    """Open graphs on 3 nodes: on all labelled graphs, or on one graph of each isomorphism class."""
    return list(family(3, ["XY:0.37"], [None], False, graphs=enums.all_graphs if everything else enums.graph_orbits))


def tasks(tier):
    th = tier == "thorough"
    kinds, cliffs = (["XY:0.37", "YZ:0.61", "X+", "Y-"], [None, 4, 6]) if th else (["XY:0.37", "X+"], [None, 6])
    n = len(small(kinds, cliffs))
    for k in range(0, n, 3 if th else 4):
        yield ["small", kinds, cliffs, k, k + (3 if th else 4)]
    step = 16 if th else 8
    for k in range(0, len(threes(th)), step):
        yield ["three", k, k + step, False, th]
        yield ["three", k, k + step, True, th]
    if th:
        m = len(list(family(3, ["X-"], [None], False, True)))
        for k in range(0, m, 4):
            yield ["bigger", k, k + 4]
    for c in range(24):
        yield ["clifford", c]
    yield ["mapping"]
    for o in enums.subsets(range(3)):
        yield ["validate", list(o)]
    for k in range(8):
        yield ["compare", k]
    for m in range(6 if th else 5):
        yield ["neighbourhood", m]
    yield ["infer"]


def work(task, R):
    k = task[0]
    if k == "small":
        _, kinds, cliffs, lo, hi = task
        fam = small(kinds, cliffs)
        pairs(R, fam[lo:hi], fam, mappings)
        R.show(f"{fam[lo]} with {len(fam)} open graphs")
    elif k == "three":
        _, lo, hi, swap, th = task
        three = threes(th)[lo:hi]
        two = [d for n in (1, 2) for d in family(n, ["XY:0.37"], [None])]
        if swap:
            pairs(R, two, three, mappings)
        else:
            pairs(R, three, two, mappings)
    elif k == "bigger":
        fam = list(family(3, ["X-"], [None], False, True))
        pairs(R, fam[task[1] : task[2]], fam, mappings)
    elif k == "clifford":
        clifford(R, task[1])
    elif k == "mapping":
        bad_mappings(R)
    elif k == "validate":
        validate(R, tuple(task[1]))
    elif k == "compare":
        comparison(R, task[1])
    elif k == "neighbourhood":
        neighbourhood(R, task[1])
    elif k == "infer":
        infer(R)


def clifford(R, c):
    """Clifford on a merged output node, transferred to a measurement or composed with another."""
    labels = ["XY:0.37", "XZ:0.22", "YZ:0.61", "XY:1.5", "X+", "X-", "Y+", "Y-", "Z+", "Z-", *PLANES]
    out = [1, [], [0], [0], [], [[0, c]]]
    for code in labels:
        m = [1, [], [0], [], [[0, code]], []]
        for first, second in ((out, m), (m, out)):
            R.state()
            R.trans()
            msg = compare(make(first, LAB1), make(second, LAB2), {LAB2[0]: LAB1[0]}, semantic=False)
            if msg:
                R.bad(["clifford", c, code, first is out], f"{first} merged with {second}: {msg}")
    for c2 in [None, *range(24)]:
        other = [1, [], [0], [0], [], [[0, c2]] if c2 is not None else []]
        R.state()
        R.trans()
        for first, second in ((out, other), (other, out)):
            msg = compare(make(first, LAB1), make(second, LAB2), {LAB2[0]: LAB1[0]}, semantic=False)
            if msg:
                R.bad(["cliffords", c, c2, first is out], f"{first} merged with {second}: {msg}")
    R.trace()


def bad_mappings(R):
    """Mappings which are not injective or mention unknown nodes are refused."""
    for d1 in family(2, ["XY:0.37"], [None]):
        x = make(d1, LAB1)
        for d2 in family(2, ["XY:0.37"], [None]):
            y = make(d2, LAB2)
            for mp in ({99: 4}, {1: 4, 99: 1}, {1: 20, 8: 20}, {1: 4, 8: 4}):
                R.state()
                R.trans()
                try:
                    x.compose(y, mp)
                except (ValueError, OpenGraphError):
                    continue
                R.bad(["mapping", dump(d1), dump(d2), [list(m) for m in mp.items()]], f"mapping {mp} accepted for nodes {LAB2[:2]} -> {LAB1[:2]}")
    R.trace()


def validate(R, outs):
    """A graph is accepted exactly when it is well formed."""
    g = nx.Graph([(0, 1), (1, 2)])
    m = pat.meas("XY:0.37")
    sub = [list(s) for s in enums.subsets([0, 1, 2, 9])]
    for outputs in (list(outs), [*outs, 9], [*outs, *outs[:1]]):
        for inputs in [*sub, [0, 0], [1, 2, 1], [2, 1], [1, 0]]:
            for measured in sub:
                for cl in sub:
                    good = (
                        set(inputs) <= {0, 1, 2}
                        and set(outputs) <= {0, 1, 2}
                        and len(set(inputs)) == len(inputs)
                        and len(set(outputs)) == len(outputs)
                        and set(measured) == {0, 1, 2} - set(outputs)
                        and set(cl) <= set(outputs)
                    )
                    R.state()
                    R.trans()
                    key = ["validate", inputs, outputs, measured, cl]
                    R.at(key)
                    try:
                        OpenGraph(g, inputs, outputs, dict.fromkeys(measured, m), dict.fromkeys(cl, Clifford.H))
                    except OpenGraphError:
                        if good:
                            R.bad(key, f"well-formed open graph refused: inputs {inputs} outputs {outputs} measured {measured} Cliffords {cl}")
                    else:
                        if not good:
                            R.bad(key, f"ill-formed open graph accepted: inputs {inputs} outputs {outputs} measured {measured} Cliffords {cl}")
    R.trace()


def compare_family():
    out = []
    for edges in ([], [(0, 1)], [(1, 2)], [(0, 1), (1, 2)]):
        for o in ([2], [1, 2], [2, 1]):
            for i in ([], [0], [0, 1], [1, 0]):
                nodes = [v for v in range(3) if v not in o]
                for code in ("XY:0.37", "XY:-1.63", "YZ:0.37", "XZ:0.37", "X+", "X-", "Y+", "XY:0.0"):
                    for cl in ([], [(2, 6)], [(2, 4)]):
                        out.append([3, edges, i, o, [(v, "X+" if v != nodes[-1] else code) for v in nodes], cl])
    return out


def comparison(R, part):
    fam = compare_family()
    ogs = [make(d, [0, 1, 2]) for d in fam]
    again = [backwards(d, [0, 1, 2]) for d in fam]
    same = [make(d, [0, 1, 2]) for d in fam]
    for a, (d, x) in enumerate(zip(fam, ogs, strict=True)):
        if a % 8 != part:
            continue
        for e, y in [*zip(fam, again, strict=True), (d, same[a])]:
            R.trans()
            struct = (sorted(map(tuple, d[1])), d[2], d[3], d[5]) == (sorted(map(tuple, e[1])), e[2], e[3], e[5])
            close = struct and d[4] == e[4]
            if x.is_equal_structurally(y) is not struct or x.isclose(y) is not close:
                R.bad(["compare", dump(d), dump(e)], f"{d} and {e}: is_equal_structurally {x.is_equal_structurally(y)}, isclose {x.isclose(y)}")
        R.state()
        # tolerance and representation
        for delta, kw in ((1e-12, {}), (1e-6, {}), (1e-6, {"rel_tol": 1e-4}), (1e-6, {"abs_tol": 1e-5}), (0.01, {"abs_tol": 0.1}), (0.2, {"abs_tol": 0.1})):
            y = x.map(lambda m, delta=delta: BlochMeasurement(m.angle + delta, m.plane) if isinstance(m, BlochMeasurement) else m)
            want = all(math.isclose(m.angle, y.measurements[v].angle, **({"rel_tol": 1e-9} | kw)) for v, m in x.measurements.items() if isinstance(m, BlochMeasurement))
            R.trans()
            if x.isclose(y, **kw) is not want:
                R.bad(["close", dump(d), delta, kw], f"{d} with angles shifted by {delta} and {kw}: isclose is {not want}")
    R.trace()


def neighbourhood(R, n):
    labels = [5, 2, 7, 0, 9][:n]
    for edges in enums.all_graphs(n):
        g = nx.Graph()
        g.add_nodes_from(labels)
        g.add_edges_from((labels[a], labels[b]) for a, b in edges)
        x = OpenGraph(g, [], labels, {})
        nb = {v: {w for w in labels if any({v, w} == {labels[a], labels[b]} for a, b in edges)} for v in labels}
        for s in enums.subsets(labels):
            union = set().union(*(nb[v] for v in s))
            odd = {w for w in labels if sum(w in nb[v] for v in s) % 2}
            R.state()
            for coll in (list(s), set(s), tuple(reversed(s)), frozenset(s)):
                R.trans()
                if x.neighbors(coll) != union or x.odd_neighbors(coll) != odd:
                    R.bad(["neighbours", n, [list(e) for e in edges], list(s)], f"edges {edges} (labels {labels}): neighbors({s}) = {x.neighbors(coll)}, odd_neighbors = {x.odd_neighbors(coll)}")
        if set(x.graph.nodes) != set(labels) or x.graph.number_of_edges() != len(edges):
            R.bad(["neighbours modify", n, [list(e) for e in edges]], "a query modified the graph")
    R.trace()


def inferred(off, zero, kw):
    """Whether a measurement at this distance of a Pauli angle is inferred (None: on the edge of the tolerance)."""
    if off < 1e-15:
        return True
    if off < 1e-12:
        return None if zero and not kw else True
    if off < 1e-5:
        return bool(kw)
    if off < 1e-2:
        return {0: False, 1: True, 2: None}[len(kw)]
    return False


def infer(R):
    """Inference of Pauli measurements and conversion to Bloch measurements."""
    g = nx.Graph([(0, 1), (1, 2), (2, 3)])
    cases = []
    for plane in Plane:
        for k in range(-10, 11):
            for d in (0.0, 1e-13, -1e-13, 1e-6, -1e-6, 1e-3, 0.1):
                cases.append(BlochMeasurement(k / 4 + d, plane))
    cases += list(PauliMeasurement)
    for kw in ({}, {"rel_tol": 1e-4, "abs_tol": 1e-5}, {"abs_tol": 1e-2}):
        for m in cases:
            x = OpenGraph(g, [0], [2, 3], {0: m, 1: Measurement_XY}, {3: Clifford(6)})
            y = x.infer_pauli_measurements(**kw)
            z = x.to_bloch()
            pt = pat.build([0], [["N", 1], ["E", 0, 1]])
            pt.add(command.M(0, m))
            for q in (pt.infer_pauli_measurements(copy=True, **kw), pt.copy().infer_pauli_measurements(**kw)):
                if q[-1].measurement != y.measurements[0]:
                    R.bad(["infer pattern", str(m), kw], f"{m!r} becomes {q[-1].measurement!r} in a pattern, {y.measurements[0]!r} in an open graph")
            key = ["infer", str(m), getattr(m, "angle", None), kw]
            R.state()
            R.trans(3)
            a, b, c = (observable(w.measurements[0]) for w in (x, y, z))
            tol = max(1e-9, kw.get("abs_tol", 0), kw.get("rel_tol", 1e-9) * 3) * 4
            if not np.allclose(a, b, atol=tol) or not np.allclose(a, c, atol=1e-9):
                R.bad(key, f"{m} becomes {y.measurements[0]} and {z.measurements[0]}")
            if isinstance(m, PauliMeasurement):
                if y.measurements[0] != m:
                    R.bad(key, f"{m} becomes {y.measurements[0]}")
            else:
                off = abs(m.angle * 2 - round(m.angle * 2)) / 2
                want = inferred(off, round(m.angle * 2) % 4 == 0, kw)
                if want is not None and isinstance(y.measurements[0], PauliMeasurement) is not want:
                    R.bad(key, f"{m!r} at distance {off} from a Pauli angle with {kw} becomes {y.measurements[0]}")
                if not isinstance(y.measurements[0], PauliMeasurement) and y.measurements[0] != m:
                    R.bad(key, f"{m!r} becomes {y.measurements[0]!r}")
            for w in (y, z):
                if not w.is_equal_structurally(x) or not x.is_equal_structurally(w) or set(w.measurements) != {0, 1}:
                    R.bad(key, "the conversion changes the graph, the inputs, the outputs or the output Cliffords")
                if w.measurements[1] != Measurement_XY:
                    R.bad(key, f"the other measurement becomes {w.measurements[1]}")
            if not isinstance(z.measurements[0], BlochMeasurement):
                R.bad(key, f"to_bloch gives {z.measurements[0]!r}")
            try:
                d = x.downcast_bloch()
                if isinstance(m, PauliMeasurement) or dict(d.measurements) != dict(x.measurements) or not d.is_equal_structurally(x):
                    R.bad(key, "downcast_bloch accepts a Pauli measurement or changes the graph")
            except TypeError:
                if not isinstance(m, PauliMeasurement):
                    R.bad(key, "downcast_bloch refuses a Bloch measurement")
    R.trace()


Measurement_XY = BlochMeasurement(0.37, Plane.XY)

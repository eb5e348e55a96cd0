"""G01: graph-state manipulation tracks the true quantum state."""

import functools
import itertools
import warnings

import numpy as np
from graphix.clifford import Clifford
from graphix.graphsim import GraphState

from mc import enums, ref

warnings.simplefilter("ignore")

META = {
    "bounds": {
        "quick": "the complete transition relation over decorated graphs: every labelled graph on <=3 nodes and every graph on 4 nodes up to isomorphism x all 8 decorations (sign, loop, hollow) of every node x every operation "
        "(h, s, z, flips, advance, local complement, e1, e2, fill, X/Y/Z measurement of every node with both choices, the 24 vertex operators, adding a node or an edge, removing); "
        "every sequence of <=3 operations on three 3-node states",
        "thorough": "every labelled graph on <=4 nodes; graphs on 5 nodes up to isomorphism with all loops and fills and three sign assignments; sequences of <=4 operations",
    },
    "assumptions": ["the state of a GraphState is its graph and node attributes, so checking each operation from every decorated graph covers all histories on that many nodes", "equality of states is up to global phase"],
}
TOL = 1e-9
LABELS = [7, 0, 3, 12, 5]
Z, S, H, X, Y = ref.Z, ref.S, ref.H, ref.X, ref.Y
CLIFF = [np.asarray(Clifford(i).matrix) for i in range(24)]


def op1(ket, n, q, u):
    return np.moveaxis(np.tensordot(u, ket.reshape((2,) * n), axes=([1], [q])), 0, q).reshape(-1)


@functools.lru_cache(maxsize=4096)
def graph_ket(n, edges):
    k = np.full(2**n, 2 ** (-n / 2), dtype=complex)
    idx = np.arange(2**n)
    for a, b in edges:
        k = k * (1 - 2 * (((idx >> (n - 1 - a)) & 1) & ((idx >> (n - 1 - b)) & 1)))
    return k


DECO = {d: np.linalg.matrix_power(H, d & 1) @ np.linalg.matrix_power(S, d >> 1 & 1) @ np.linalg.matrix_power(Z, d >> 2 & 1) for d in range(8)}  # bit 0 hollow, bit 1 loop, bit 2 sign


def ket_of(n, edges, decos):
    k = graph_ket(n, tuple(edges))
    for q, d in enumerate(decos):
        if d:
            k = op1(k, n, q, DECO[d])
    return k


def read(g):
    """Reference state described by the attributes and edges of the graph: (labels, ket)."""
    nodes = list(g.nodes)
    pos = {v: i for i, v in enumerate(nodes)}
    edges = tuple(sorted(tuple(sorted((pos[a], pos[b]))) for a, b in g.edges))
    decos = [g.nodes[v]["hollow"] * 1 + g.nodes[v]["loop"] * 2 + g.nodes[v]["sign"] * 4 for v in nodes]
    return nodes, ket_of(len(nodes), edges, decos)


def build(n, edges, decos):
    g = GraphState()
    g.add_nodes_from((LABELS[i], {"sign": bool(d & 4), "loop": bool(d & 2), "hollow": bool(d & 1)}) for i, d in enumerate(decos))
    g.add_edges_from((LABELS[a], LABELS[b]) for a, b in edges)
    return g


def same(a, b):
    return abs(abs(np.vdot(a, b)) - 1) < TOL


MEAS = {"x": (X, "measure_x"), "y": (Y, "measure_y"), "z": (Z, "measure_z")}


def project(ket, n, q, axis, outcome):
    """Unnormalised state of the others after projecting qubit q on the outcome."""
    obs = MEAS[axis][0]
    vec = ref.eigenket(obs, outcome)
    return np.tensordot(vec.conj(), ket.reshape((2,) * n), axes=([0], [q])).reshape(-1)


def reorder(ket, frm, to):
    n = len(frm)
    return ket.reshape((2,) * n).transpose([frm.index(v) for v in to]).reshape(-1)


def operations(n, edges, decos, vops):
    for q in range(n):
        for name in ("h", "s", "z", "flip_fill", "flip_sign", "advance", "local_complement", "fill", "e1"):
            yield [name, q]
        for axis in MEAS:
            for c in (0, 1):
                yield [axis, q, c]
    for a, b in itertools.permutations(range(n), 2):
        yield ["e2", a, b]
    if n:
        for i in vops:
            yield ["vop", (i + len(edges)) % n, i]
        yield ["vops", 5, 17]
    yield ["queries"]
    yield ["addnode"]
    for a, b in itertools.combinations(range(n), 2):
        if (a, b) not in edges:
            yield ["addedge", a, b]


def apply(g, nodes, ket, op):
    """Apply the operation; returns (expected labels, expected ket) or a message about what is wrong."""
    n, k = len(nodes), op[0]
    if k in ("h", "s", "z", "flip_fill"):
        getattr(g, k)(nodes[op[1]])
        return nodes, op1(ket, n, op[1], {"h": H, "s": S, "z": Z, "flip_fill": H}[k])
    if k in ("flip_sign", "advance"):
        v = nodes[op[1]]
        before = dict(g.nodes[v])
        getattr(g, k)(v)
        # the operator acts below the decorations: S and Z commute, H is outermost
        u = np.linalg.matrix_power(H, before["hollow"]) @ (Z if k == "flip_sign" else S) @ np.linalg.matrix_power(H, before["hollow"])
        return nodes, op1(ket, n, op[1], u)
    if k == "vop":
        g.apply_vops({nodes[op[1]]: Clifford(op[2])})
        return nodes, op1(ket, n, op[1], CLIFF[op[2]])
    if k == "vops":
        pairs = {v: Clifford(op[1 + (i % 2)]) for i, v in enumerate(nodes)}
        g.apply_vops(pairs)
        for i in range(n):
            ket = op1(ket, n, i, CLIFF[op[1 + (i % 2)]])
        return nodes, ket
    if k == "fill":
        v = nodes[op[1]]
        alone, hollow, loop = g.degree(v) == 0, g.nodes[v]["hollow"], g.nodes[v]["loop"]
        code = g.equivalent_fill_node(v)
        if alone and not loop and hollow:
            if code != 1 or not g.nodes[v]["hollow"]:
                return f"filling the isolated hollow node {v} returned {code}"
        elif g.nodes[v]["hollow"]:
            return f"node {v} is still hollow"
        elif code != (2 if alone and not hollow else 0):
            return f"filling node {v} returned {code}"
        return nodes, ket
    if k == "e1":
        v = nodes[op[1]]
        loop = g.nodes[v]["loop"]
        try:
            g.equivalent_graph_e1(v)
        except ValueError:
            return (nodes, ket) if not loop else f"e1 refused on {v}, which has a loop"
        return (nodes, ket) if loop else f"e1 accepted on {v}, which has no loop"
    if k == "e2":
        v, w = nodes[op[1]], nodes[op[2]]
        legal = g.has_edge(v, w) and not g.nodes[v]["loop"] and not g.nodes[w]["loop"]
        try:
            g.equivalent_graph_e2(v, w)
        except ValueError:
            return (nodes, ket) if not legal else f"e2 refused on {v}, {w}"
        return (nodes, ket) if legal else f"e2 accepted on {v}, {w}"
    if k == "local_complement":
        v = nodes[op[1]]
        nb = sorted(g.neighbors(v))
        want = {frozenset(e) for e in g.edges} ^ {frozenset(e) for e in itertools.combinations(nb, 2)}
        attrs = {u: dict(d) for u, d in g.nodes(data=True)}
        g.local_complement(v)
        if {frozenset(e) for e in g.edges} != want or {u: dict(d) for u, d in g.nodes(data=True)} != attrs:
            return f"local complement at {v} gives edges {sorted(map(sorted, g.edges))}"
        return None
    if k in MEAS:
        q, choice = op[1], op[2]
        res = getattr(g, MEAS[k][1])(nodes[q], choice)
        if type(res) is bool or res not in (0, 1):
            return f"outcome {res!r}"
        post = {c: project(ket, n, q, k, c) for c in (0, 1)}
        p = {c: np.linalg.norm(post[c]) ** 2 for c in (0, 1)}
        if p[res] < 1e-9:
            return f"measuring {k.upper()} on node {nodes[q]} with choice {choice} reports the impossible outcome {res}"
        if p[choice] > 1e-9 and res != choice:
            return f"measuring {k.upper()} on node {nodes[q]}: choice {choice} has probability {p[choice]:.3f} but {res} is reported"
        rest = nodes[:q] + nodes[q + 1 :]
        return rest, post[res] / np.sqrt(p[res])
    if k == "queries":
        vops = g.extract_vops()
        for v in nodes:
            d = g.nodes[v]
            want = DECO[d["hollow"] * 1 + d["loop"] * 2 + d["sign"] * 4]
            if abs(abs(np.trace(want.conj().T @ vops[v].matrix)) - 2) > TOL:
                return f"extract_vops gives {vops[v]!r} for {dict(d)}"
        if set(vops) != set(nodes):
            return f"extract_vops covers {set(vops)}"
        if sorted(g.isolated_nodes()) != sorted(v for v in nodes if g.degree(v) == 0):
            return f"isolated_nodes {g.isolated_nodes()}"
        sv = np.asarray(g.to_statevector().flatten())
        if sv.shape != ket.shape or not same(sv, ket):
            return "to_statevector differs from the state of the decorated graph"
        # the same graph described by its vertex operators
        other = GraphState(nodes, list(g.edges), vops)
        nn, kk = read(other)
        if nn != nodes or not same(kk, ket):
            return "the graph state built from the nodes, edges and vertex operators has another state"
        return nodes, ket
    if k == "addnode":
        a = 99 + 2 * n
        g.add_node(a)
        g.add_nodes_from([(a + 1, {"sign": True, "hollow": True, "loop": False})])
        plus, m = np.array([1, 1]) / np.sqrt(2), H @ np.array([1, -1]) / np.sqrt(2)
        return [*nodes, a, a + 1], np.kron(np.kron(ket, plus), m)
    if k == "addedge":
        a, b = op[1], op[2]
        deco = {q: g.nodes[nodes[q]]["hollow"] * 1 + g.nodes[nodes[q]]["loop"] * 2 + g.nodes[nodes[q]]["sign"] * 4 for q in (a, b)}
        g.add_edge(nodes[a], nodes[b])
        for q in (a, b):
            ket = op1(ket, n, q, DECO[deco[q]].conj().T)
        idx = np.arange(2**n)
        ket = ket * (1 - 2 * (((idx >> (n - 1 - a)) & 1) & ((idx >> (n - 1 - b)) & 1)))
        for q in (a, b):
            ket = op1(ket, n, q, DECO[deco[q]])
        return nodes, ket
    raise ValueError(k)


def examine(g, nodes, ket, op):
    want = apply(g, nodes, ket, op)
    if want is None or isinstance(want, str):
        return want, None
    labels, k = want
    got, gk = read(g)
    if sorted(got) != sorted(labels):
        return f"nodes {got} instead of {labels}", None
    k = reorder(k, labels, got)
    if not same(gk, k):
        return "the decorated graph no longer represents the state", None
    return None, (got, gk)


def tasks(tier):
    for n in range(0, 4):
        for edges in enums.all_graphs(n):
            for first in range(8) if n == 3 else (None,):
                yield ["all", n, [list(e) for e in edges], first, "free", 24]
    if tier == "quick":
        for edges in enums.graph_orbits(4):
            for first in range(8):
                yield ["all", 4, [list(e) for e in edges], first, "free", 0]
    else:
        for edges in enums.all_graphs(4):
            for first in range(8):
                yield ["all", 4, [list(e) for e in edges], first, "free", 6]
        for edges in enums.graph_orbits(5):
            for first in range(4):
                yield ["all", 5, [list(e) for e in edges], first, "signs", 0]
    for i in range(3):
        for op in SEQ_OPS:
            yield ["seq", i, op, 3 if tier == "quick" else 4]
    yield ["attributes"]


SEQ_OPS = [["h", 0], ["h", 1], ["s", 0], ["s", 2], ["z", 1], ["fill", 1], ["vop", 0, 9], ["vop", 1, 20], ["x", 0, 0], ["x", 1, 1], ["y", 0, 1], ["y", 1, 0], ["z", 0, 1], ["z", 1, 0], ["addnode"], ["queries"]]
SEQ_BASES = [(3, ((0, 1), (1, 2)), (0, 0, 0)), (3, ((0, 1), (0, 2), (1, 2)), (3, 1, 6)), (4, ((0, 1), (1, 2), (2, 3)), (1, 1, 2, 5))]


def work(task, R):
    if task[0] == "all":
        _, n, edges, first, mode, nv = task
        edges = tuple(tuple(e) for e in edges)
        if mode == "free":
            space = itertools.product(*([range(8)] * n))
            space = (d for d in space if first is None or d[0] == first)
        else:
            signs = [(0,) * n, (1,) * n, (1, 0, 1, 1, 0)[:n]]
            space = (tuple(d + 4 * s for d, s in zip(ds, sg, strict=True)) for ds in itertools.product(*([range(4)] * n)) if ds[0] == first for sg in signs)
        for decos in space:
            ket = ket_of(n, edges, decos)
            R.state()
            for op in operations(n, edges, decos, range(24) if nv == 24 else range(0, nv * 4, 4)):
                key = [n, [list(e) for e in edges], list(decos), op]
                R.at(key)
                R.trans()
                g = build(n, edges, decos)
                msg, _ = examine(g, list(g.nodes), ket, op)
                if msg:
                    R.bad(key, f"labels {LABELS[:n]}, edges {edges}, decorations (4 sign, 2 loop, 1 hollow) {decos}, {op}: {msg}")
        R.trace()
        R.show({"edges": edges, "decorations": "all"})
    elif task[0] == "seq":
        _, i, op, depth = task

        def rec(ops):
            n, edges, decos = SEQ_BASES[i]
            g = build(n, edges, decos)
            nodes, ket = list(g.nodes), ket_of(n, edges, decos)
            R.state()
            for o in ops:
                if len(o) > 1 and o[1] >= len(nodes):
                    return
                R.at([i, ops])
                R.trans()
                msg, nxt = examine(g, nodes, ket, o)
                if msg:
                    R.bad([i, ops], f"base {i}, {ops}: {msg}")
                    return
                nodes, ket = nxt
            if len(ops) < depth:
                for o in SEQ_OPS:
                    rec([*ops, o])

        rec([op])
        R.trace()
    elif task[0] == "attributes":
        attributes(R)


def attributes(R):
    """Nodes are created with the attributes asked for."""
    for vals in itertools.product([None, False, True], repeat=3):
        attr = {k: v for k, v in zip(("sign", "loop", "hollow"), vals, strict=True) if v is not None}
        want = {k: bool(attr.get(k, False)) for k in ("sign", "loop", "hollow")}
        for how in ("add_node", "add_nodes_from", "tuple"):
            g = GraphState()
            R.state()
            if how == "add_node":
                g.add_node(4, **attr)
            elif how == "add_nodes_from":
                g.add_nodes_from([2, 4], **attr)
            elif len(attr) == 3:
                g.add_nodes_from([(4, attr)])
            else:
                continue
            got = {k: g.nodes[4][k] for k in ("sign", "loop", "hollow")}
            if got != want:
                R.bad(["attributes", how, attr], f"{how} with {attr} makes a node with {got}")
    for c in range(24):
        for extra in (None, 3, 20):
            vops = {5: Clifford(c)} | ({2: Clifford(extra)} if extra is not None else {})
            g = GraphState([2, 5, 9], [(2, 5), (5, 9)], vops)
            R.state()
            k = graph_ket(3, ((0, 1), (1, 2)))
            k = op1(k, 3, 1, CLIFF[c])
            if extra is not None:
                k = op1(k, 3, 0, CLIFF[extra])
            nodes, got = read(g)
            if nodes != [2, 5, 9] or not same(got, k):
                R.bad(["vops", c, extra], f"GraphState with vertex operators {vops} has another state")
    R.trace()

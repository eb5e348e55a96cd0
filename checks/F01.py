"""F01: flow finding is complete and sound."""

import itertools

import networkx as nx
from graphix import Axis, OpenGraph, Plane
from graphix.flow.core import CausalFlow, GFlow, PauliFlow
from graphix.opengraph import OpenGraphError

from mc import enums, flowref, og, pat

META = {
    "bounds": {
        "quick": "every open graph up to isomorphism with <=4 nodes and every labelling with 3 planes and 3 axes; 5 nodes with every labelling by planes and by {XY,X,Z}; 6 nodes all XY with <=1 other label at a time "
        "for |O|-|I| in {1,2}; 7 to 11 nodes: 2 to 4 wires joined by every set of <=3 (<=2, <=1) cross edges, with one node of another label, or uniform and alternating labels; more inputs than outputs up to 3 nodes; every relabelling by a permuted sparse label set up to 3 nodes; measurement objects (Pauli measurements, Bloch at generic and Pauli angles) up to 3 nodes",
        "thorough": "5 nodes with all six labels (1.3 million open graphs), 6 nodes all planes for |O|>|I|",
    },
    "assumptions": ["existence is decided by backward induction over the textbook definitions (mc/flowref.py)"],
}

LAB = {"XY": Plane.XY, "XZ": Plane.XZ, "YZ": Plane.YZ, "X": Axis.X, "Y": Axis.Y, "Z": Axis.Z}
SIX = ["XY", "XZ", "YZ", "X", "Y", "Z"]
NAMES = {
    "causal": ("to_causalflow", "to_causalflow_or_none", CausalFlow),
    "gflow": ("to_gflow", "to_gflow_or_none", GFlow),
    "pauli": ("to_pauliflow", "to_pauliflow_or_none", PauliFlow),
}


def group(n, labels, mode, sel=None, per=40):
    """Chunks of shapes, so that a task is about ``per`` * 100 labelled graphs."""
    acc, cost = [], 0
    for e, i, o in og.shapes(n):
        if sel and not sel(i, o):
            continue
        acc.append([e, i, o])
        k = n - len(o)
        cost += len(labels) ** k if mode == "all" else 1 + k * (len(labels) - 1)
        if cost >= per * 100:
            yield ["shapes", n, labels, mode, acc]
            acc, cost = [], 0
    if acc:
        yield ["shapes", n, labels, mode, acc]


def tasks(tier):
    for n in range(4):
        yield from group(n, SIX, "all")
    yield ["inverted"]
    for n in range(4):
        yield ["relabel", n]
    for n in range(3):
        yield ["objects", n, 0]
    for k in range(16):
        yield ["objects", 3, k]
    yield from group(4, SIX, "all")
    yield from wires(tier)
    if tier == "quick":
        yield from group(5, ["XY", "XZ", "YZ"], "all")
        yield from group(5, ["XY", "X", "Z"], "all", lambda i, o: len(o) > len(i) and len(o) <= 3)
        yield from group(6, ["XY"], "one", lambda i, o: len(o) - len(i) == 2 and len(o) <= 4)
    else:
        yield from group(5, SIX, "all")
        yield from group(6, ["XY"], "all")
        yield from group(6, SIX, "one", lambda i, o: len(o) - len(i) in (1, 2))


WIRES = {
    "quick": [((4, 3), 3, "one"), ((3, 3, 2), 2, "one"), ((2, 2, 2, 2), 2, "one"), ((5, 4), 2, "same"), ((4, 4, 3), 1, "same")],
    "thorough": [((4, 4), 3, "one"), ((3, 3, 3), 2, "one"), ((2, 2, 2, 2), 3, "one"), ((6, 5), 2, "same"), ((4, 4, 4), 1, "one"), ((3, 3, 2, 2), 2, "same")],
}


def wires(tier):
    for lens, cross, mode in WIRES[tier]:
        acc = []
        for w in og.wires(lens, cross, ("heads", "some")):
            acc.append(w)
            if len(acc) == (6 if mode == "one" else 12):
                yield ["wires", mode, acc]
                acc = []
        if acc:
            yield ["wires", mode, acc]


def work_wires(task, R):
    """Larger graphs: wires joined by cross edges, with sparse unordered names."""
    _, mode, group = task
    for n, edges, i, o in group:
        sh = flowref.Shape(n, edges, i, o)
        names = {v: (v * 37 + 11) % 101 + (100 if v % 3 == 0 else 0) for v in range(n)}
        g = mkgraph(n, edges, names)
        k = len(sh.measured)
        todo = labelings(SIX, "one", k) if mode == "one" else [(m,) * k for m in ("XY", "X", "Y")] + [tuple("XY" if a % 2 else m for a in range(k)) for m in ("X", "Y", "Z", "XZ", "YZ")]
        for ls in todo:
            lab = dict(zip(sh.measured, ls, strict=True))
            x = OpenGraph(g, [names[v] for v in i], [names[v] for v in o], {names[v]: LAB[m] for v, m in lab.items()})
            key = f"wires n={n} E={[tuple(e) for e in edges]} I={i} O={o} M={lab}"
            R.at(key)
            if all(m in flowref.PLANES for m in ls):
                if all(m == "XY" for m in ls):
                    check(R, key, x, sh, lab, "causal", "lax", names)
                check(R, key, x, sh, lab, "gflow", "lax", names)
            check(R, key, x, sh, lab, "pauli", "lax", names)


def labelings(labels, mode, k):
    if mode == "all":
        yield from itertools.product(labels, repeat=k)
        return
    yield (labels[0],) * k
    for j in range(k):
        for x in labels[1:]:
            yield tuple(x if a == j else labels[0] for a in range(k))


def check(R, key, x, sh, labels, kind, via, names):
    """Compare one flow finder with the brute-force verdict. ``names`` maps canonical nodes to graph nodes."""
    strict, lax, cls = NAMES[kind]
    depth = flowref.exists(kind, sh, labels)
    R.state()
    R.trans(len(sh.sets) * max(1, len(sh.measured)))
    if via == "strict":
        try:
            f = getattr(x, strict)()
        except OpenGraphError:
            f = None
    else:
        f = getattr(x, lax)()
    if f is None:
        R.count(f"no_{kind}")
        if depth is not None:
            R.bad(f"{kind} missed {key}", f"a {kind} flow of depth {depth} exists, none was found")
        return None
    R.count(f"found_{kind}")
    if depth is None:
        R.bad(f"{kind} invented {key}", f"no {kind} flow exists, returned {f.correction_function} {f.partial_order_layers}")
        return None
    if not isinstance(f, cls) or f.og is not x and not f.og.isclose(x):
        R.bad(f"{kind} type {key}", f"{type(f).__name__} on {f.og}")
    back = {v: k for k, v in names.items()}
    try:
        c = {back[u]: {back[v] for v in p} for u, p in f.correction_function.items()}
        layers = [{back[v] for v in lay} for lay in f.partial_order_layers]
    except KeyError:
        R.bad(f"{kind} nodes {key}", f"unknown nodes in {f.correction_function} {f.partial_order_layers}")
        return None
    R.trace()
    if not flowref.flow_ok(kind, sh, labels, c, layers) or sum(len(x) for x in layers) != sh.n:
        R.bad(f"{kind} invalid {key}", f"returned flow violates the definition: {c} {layers}")
        return f
    if len(layers) - (1 if sh.o else 0) != depth:
        R.bad(f"{kind} depth {key}", f"returned flow has {len(layers)} layers, a flow with {depth} measurement layers exists: {c} {layers}")
    if kind != "causal" and not flowref.focused(sh, labels, c):
        R.bad(f"{kind} unfocused {key}", f"returned flow is not focused: {c}")
    return f


def mkgraph(n, edges, names=None):
    g = nx.Graph()
    names = names or {v: v for v in range(n)}
    g.add_nodes_from(names[v] for v in range(n))
    g.add_edges_from((names[a], names[b]) for a, b in edges)
    return g


def work_shapes(task, R):
    _, n, labels, mode, shapes = task
    ident = {v: v for v in range(n)}
    for edges, i, o in shapes:
        sh = flowref.Shape(n, edges, i, o)
        g = mkgraph(n, edges)
        nodes = sh.measured
        for ls in labelings(labels, mode, len(nodes)):
            lab = dict(zip(nodes, ls, strict=True))
            x = OpenGraph(g, i, o, {v: LAB[m] for v, m in lab.items()})
            key = f"n={n} E={[tuple(e) for e in edges]} I={i} O={o} M={lab}"
            R.at(key)
            R.show(key)
            planar = all(m in flowref.PLANES for m in ls)
            if planar:
                if all(m == "XY" for m in ls) or n < 5:
                    check(R, key, x, sh, lab, "causal", "lax", ident)
                check(R, key, x, sh, lab, "gflow", "lax", ident)
            check(R, key, x, sh, lab, "pauli", "lax", ident)


def work_inverted(task, R):
    """More inputs than outputs: never a flow; and the raising variants."""
    for n in range(4):
        ident = {v: v for v in range(n)}
        for edges in enums.all_graphs(n):
            for i in enums.subsets(range(n)):
                for o in enums.subsets(range(n)):
                    sh = flowref.Shape(n, edges, i, o)
                    g = mkgraph(n, edges)
                    for ls in itertools.product(["XY", "YZ", "Y"], repeat=len(sh.measured)):
                        lab = dict(zip(sh.measured, ls, strict=True))
                        # the order and container of inputs and outputs must not matter
                        x = OpenGraph(g, tuple(reversed(i)), tuple(reversed(o)), {v: LAB[m] for v, m in lab.items()})
                        key = f"n={n} E={list(edges)} I={i} O={o} M={lab} (raising)"
                        R.at(key)
                        if "Y" not in ls:
                            check(R, key, x, sh, lab, "causal", "strict", ident)
                            check(R, key, x, sh, lab, "gflow", "strict", ident)
                        check(R, key, x, sh, lab, "pauli", "strict", ident)


def work_relabel(task, R):
    """Every assignment of sparse, unordered labels and every insertion order of the nodes."""
    n = task[1]
    for e, i, o in og.shapes(n):
        sh = flowref.Shape(n, e, i, o)
        for perm in itertools.permutations([5, 0, 12, 3][:n]):
            names = dict(enumerate(perm))
            g = mkgraph(n, e, names)
            for ls in itertools.product(SIX, repeat=len(sh.measured)):
                lab = dict(zip(sh.measured, ls, strict=True))
                x = OpenGraph(g, [names[v] for v in i], [names[v] for v in o], {names[v]: LAB[m] for v, m in lab.items()})
                key = f"names={perm} E={e} I={i} O={o} M={lab}"
                R.at(key)
                if all(m in flowref.PLANES for m in ls):
                    check(R, key, x, sh, lab, "causal", "lax", names)
                    check(R, key, x, sh, lab, "gflow", "lax", names)
                check(R, key, x, sh, lab, "pauli", "lax", names)


CODES = {"XY:0.37": "XY", "XY:0.5": "XY", "YZ:1.0": "YZ", "XZ:0.0": "XZ", "X+": "X", "Y-": "Y", "Z-": "Z"}


def work_objects(task, R):
    """Measurement objects: a Bloch measurement counts as its plane even at a Pauli angle, a Pauli measurement as its axis."""
    _, n, part = task
    ident = {v: v for v in range(n)}
    for num, (e, i, o) in enumerate(og.shapes(n)):
        if n == 3 and num % 16 != part:
            continue
        sh = flowref.Shape(n, e, i, o)
        g = mkgraph(n, e)
        for ls in itertools.product(CODES, repeat=len(sh.measured)):
            ms = {v: pat.meas(m) for v, m in zip(sh.measured, ls, strict=True)}
            lab = {v: CODES[m] for v, m in zip(sh.measured, ls, strict=True)}
            x = OpenGraph(g, i, o, ms)
            key = f"n={n} E={e} I={i} O={o} M={ls}"
            R.at(key)
            check(R, key, x, sh, lab, "pauli", "lax", ident)
            inf = x.infer_pauli_measurements()
            code = {"XY:0.5": "Y", "YZ:1.0": "Z", "XZ:0.0": "Z"}
            lab2 = {v: code.get(m, CODES[m]) for v, m in zip(sh.measured, ls, strict=True)}
            check(R, key + " inferred", inf, sh, lab2, "pauli", "lax", ident)
            if all(m in flowref.PLANES for m in lab.values()):
                check(R, key, x, sh, lab, "gflow", "lax", ident)
                check(R, key, x, sh, lab, "causal", "lax", ident)
            bl = x.to_bloch()
            lab3 = {v: bl.measurements[v].plane.name for v in sh.measured}
            check(R, key + " bloch", bl, sh, lab3, "gflow", "lax", ident)
            check(R, key + " bloch", bl, sh, lab3, "causal", "lax", ident)


def work(task, R):
    {"shapes": work_shapes, "inverted": work_inverted, "wires": work_wires, "relabel": work_relabel, "objects": work_objects}[task[0]](task, R)

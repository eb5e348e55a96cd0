"""V01: drawings of open graphs, flows and corrections."""

import collections
import io
import itertools

import matplotlib as mpl
import numpy as np
from graphix import Clifford, OpenGraph, visualization
from graphix.flow.core import XZCorrections
from graphix.measurements import PauliMeasurement
from graphix.pattern import DrawPatternAnnotations
from graphix.visualization import GraphVisualizer
from matplotlib import colors as mc
from matplotlib import pyplot as plt
from matplotlib.collections import LineCollection, PathCollection
from matplotlib.patches import FancyArrowPatch
from matplotlib.text import Annotation

from checks.F01 import mkgraph
from mc import enums, og, pat

META = {
    "bounds": {
        "quick": "every open graph with <=3 nodes up to isomorphism (all inputs and outputs; measurements XY, YZ, X, Z) and with 4 nodes (XY or X): coordinates and paths of the graph, of every flow it has and of its corrections; every pair of X/Z "
        "correction maps on 3 nodes, and corrections on 3-6 nodes in a row (paths around nodes), for 5 node distances; the drawing itself (every artist) for one labelling of every shape with <=3 nodes, all combinations of 5 options, "
        "node names above 100, and Pattern.draw with every annotation",
        "thorough": "4 nodes with four measurement kinds, artists for 4 nodes, 7 nodes in a row",
    },
    "assumptions": ["the columns of an open graph without order, the order of rows and the bends of paths are free", "artists are read back from Matplotlib's Agg figure"],
}

DIST = [(1, 1), (2, 0.5), (0.1, 0.1), (0.15, 3), (3, 0.1)]


def tasks(tier):
    th = tier == "thorough"
    for n in range(4):
        acc = list(og.shapes(n))
        for k in range(0, len(acc), 6):
            yield ["paths", n, acc[k : k + 6], ["XY:0.37", "YZ:0.61", "X+", "Z-"]]
    acc = list(og.shapes(4))
    for k in range(0, len(acc), 30):
        yield ["paths", 4, acc[k : k + 30], ["XY:0.37", "YZ:0.61", "X+", "Z-"] if th else ["XY:0.37", "X+"]]
    for e in enums.all_graphs(3):
        yield ["corr", [list(x) for x in e]]
    for n in range(3, 8 if th else 7):
        yield ["row", n]
    for n in range(5 if th else 4):
        acc = list(og.shapes(n))
        for k in range(0, len(acc), 5 if n == 4 else 3):
            yield ["artists", n, acc[k : k + (5 if n == 4 else 3)]]
    for k in range(8):
        yield ["options", k, 8]
    yield ["pattern"]


def near(a, b, tol=1e-9):
    return np.linalg.norm(np.asarray(a, dtype=float) - np.asarray(b, dtype=float)) <= tol


def wanted_arrows(what, obj):
    if what == "og":
        return {}
    if what == "flow":
        return {(u, v): visualization.FLOW_C for u, s in obj.correction_function.items() for v in s}
    out = {}
    for u in set(obj.x_corrections) | set(obj.z_corrections):
        x, z = set(obj.x_corrections.get(u, ())), set(obj.z_corrections.get(u, ()))
        out.update({(u, v): visualization.XZ_C if v in x & z else visualization.X_C if v in x else visualization.Z_C for v in x | z})
    return out


def make(what, obj, **kw):
    f = {"og": GraphVisualizer.from_opengraph, "flow": GraphVisualizer.from_flow, "xz": GraphVisualizer.from_xzcorrections}[what]
    return f(obj, **kw)


def geometry(R, key, what, obj, dist=(1, 1)):
    """Coordinates and paths, from the documented attributes of the visualizer."""
    R.state()
    R.at(key)
    gv = make(what, obj, node_distance=dist)
    x = obj if what == "og" else obj.og
    pos = gv.pos
    if set(pos) != set(x.graph.nodes):
        R.bad(f"nodes {key}", f"positions for {sorted(pos)}")
        return None
    pts = [(round(float(p[0]) / dist[0], 6), round(float(p[1]) / dist[1], 6)) for p in pos.values()]
    if len(set(pts)) != len(pts):
        R.bad(f"same position {key}", f"{dict(pos)}")
        return None
    if what != "og":
        layers = list(obj.partial_order_layers)
        if gv.n_layers != len(layers):
            R.bad(f"layers {key}", f"{gv.n_layers} instead of {len(layers)}")
        for k, lay in enumerate(layers):
            for v in lay:
                if abs(pos[v][0] - (len(layers) - 1 - k) * dist[0]) > 1e-9:
                    R.bad(f"column {key}", f"node {v} of layer {k} drawn at {pos[v]} with {len(layers)} layers")
    edges = collections.Counter(frozenset(e) for e in gv.edge_paths)
    if edges != collections.Counter(frozenset(e) for e in x.graph.edges):
        R.bad(f"edges {key}", f"{list(gv.edge_paths)}")
    for (u, v), path in gv.edge_paths.items():
        if len(path) < 2 or not near(path[0], pos[u]) or not near(path[-1], pos[v]):
            R.bad(f"edge path {key}", f"edge {u, v} from {pos[u]} to {pos[v]} is drawn along {path}")
    want = wanted_arrows(what, obj)
    got = {a: c.color for a, c in (gv.arrow_paths or {}).items()}
    if got != want:
        R.bad(f"arrows {key}", f"{got} instead of {want}")
    for (u, v), c in (gv.arrow_paths or {}).items():
        path = c.value
        if u != v and (len(path) < 2 or not near(path[0], pos[u]) or not near(path[-1], pos[v])):
            R.bad(f"arrow path {key}", f"arrow {u, v} from {pos[u]} to {pos[v]} is drawn along {path}")
        if u == v and (len(path) < 3 or any(not near(p, pos[u], 0.6) for p in path)):
            R.bad(f"loop {key}", f"arrow {u, v} at {pos[u]} is drawn along {path}")
    R.trans(len(gv.edge_paths) + len(want))
    R.trace()
    return gv


def objects(x):
    yield "og", x, "graph"
    for nm in ("causalflow", "gflow", "pauliflow"):
        if nm != "pauliflow" and any(isinstance(m, PauliMeasurement) for m in x.measurements.values()):
            continue
        f = getattr(x, f"to_{nm}_or_none")()
        if f is not None:
            yield "flow", f, nm
            yield "xz", f.to_xzcorrections(), f"corrections of {nm}"


def work_paths(task, R):
    _, n, shapes, kinds = task
    for shape in shapes:
        for d in og.labelled(n, shape, kinds):
            x = og.build(d)
            for i, (what, obj, nm) in enumerate(objects(x)):
                if what == "og" and any(c != kinds[0] for c in d[4].values()):
                    continue
                for dist in DIST if len(set(d[4].values())) <= 1 else DIST[i % 2 : i % 2 + 1]:
                    geometry(R, f"{og.show(d)} {nm} distance={dist}", what, obj, dist)


def work_corr(task, R):
    _, edges = task
    meas = {0: pat.meas("XY:0.37"), 1: pat.meas("X+")}
    x = OpenGraph(mkgraph(3, edges), [0], [2], meas)
    subs = {0: [frozenset(s) for s in enums.subsets([1, 2])], 1: [frozenset(s) for s in enums.subsets([2])]}
    for x0, z0, x1, z1 in itertools.product(subs[0], subs[0], subs[1], subs[1]):
        xz = XZCorrections(x, {0: x0, 1: x1}, {0: z0, 1: z1}, [{2}, {1}, {0}])
        for dist in DIST:
            geometry(R, f"E={edges} x={x0, x1} z={z0, z1} distance={dist}", "xz", xz, dist)
    # partial dictionaries
    geometry(R, f"E={edges} partial", "xz", XZCorrections(x, {0: {1}}, {1: {2}}, [{2}, {1}, {0}]))


def work_row(task, R):
    """Nodes in a row: edges and corrections have to go around the nodes between."""
    _, n = task
    meas = {v: pat.meas("XY:0.37") for v in range(n - 1)}
    layers = [{v} for v in range(n - 1, -1, -1)]
    pairs = list(itertools.combinations(range(n), 2))
    long = [p for p in pairs if p[1] - p[0] > 1]
    for k in range(0, min(len(long), 3) + 1):
        for es in itertools.combinations(long, k):
            x = OpenGraph(mkgraph(n, [*es, (0, 1)]), [0], [n - 1], meas)
            for arrow in pairs:
                for dist in DIST[:3]:
                    geometry(R, f"row n={n} E={es} arrow={arrow} distance={dist}", "xz", XZCorrections(x, {arrow[0]: {arrow[1]}}, {}, layers), dist)


def rgba(c):
    return tuple(round(v, 4) for v in mc.to_rgba(c))


def artists(R, key, what, obj, save=None, **kw):
    """Draw, then read the figure back."""
    R.state()
    R.at(key)
    plt.close("all")
    if save is None:
        gv = make(what, obj, filename=io.BytesIO(), **kw)
        gv.visualize()
        pos = gv.pos
    else:
        save(filename=io.BytesIO(), **kw)
        pos = make(what, obj, **{k: v for k, v in kw.items() if k == "node_distance"}).pos if what != "og" else None
    ax = plt.gca()
    x = obj if what == "og" else obj.og
    dist = kw.get("node_distance", (1, 1))
    nodes = [c for c in ax.collections if isinstance(c, PathCollection) and len(c.get_offsets())]
    if pos is None:  # the layout of an open graph is random
        pos = {v: tuple(c.get_offsets()[0]) for v, c in zip(x.graph.nodes, nodes, strict=False)}
    left = dict(pos)
    if len(nodes) != len(left):
        R.bad(f"drawn nodes {key}", f"{len(nodes)} markers")
        return
    for c in nodes:
        p = c.get_offsets()[0]
        v = next((v for v, q in left.items() if near(p, q)), None)
        if v is None:
            R.bad(f"drawn nodes {key}", f"marker at {p}")
            return
        del left[v]
        square = len(c.get_paths()[0].vertices) == 5
        if square != (v in x.input_nodes):
            R.bad(f"marker {key}", f"node {v} {'square' if square else 'round'}")
        pauli = kw.get("pauli_measurements", True) and isinstance(x.measurements.get(v), PauliMeasurement)
        fc = visualization.OUTPUT_NODE_FC if v in x.output_nodes else visualization.PAULI_NODE_FC if pauli else visualization.DEFAULT_NODE_FC
        if rgba(c.get_facecolor()[0]) != rgba(fc):
            R.bad(f"color {key}", f"node {v} {c.get_facecolor()[0]} instead of {fc}")
    # lines
    edge_c = rgba(visualization.EDGE_C)
    segs = [(s[0], s[-1]) for c in ax.collections if isinstance(c, LineCollection) for s in c.get_segments() if rgba(c.get_color()[0]) == edge_c]
    curves = [line for line in ax.lines if len(line.get_xdata()) > 2]
    segs += [(c.get_xydata()[0], c.get_xydata()[-1]) for c in curves if rgba(c.get_color()) == edge_c and c.get_linestyle() == "--"]
    want = [tuple(e) for e in x.graph.edges]
    for a, b in segs:
        e = next((e for e in want if (near(a, pos[e[0]]) and near(b, pos[e[1]])) or (near(b, pos[e[0]]) and near(a, pos[e[1]]))), None)
        if e is None:
            R.bad(f"drawn edge {key}", f"segment {a} {b}")
            return
        want.remove(e)
    if want:
        R.bad(f"missing edge {key}", f"{want} not drawn")
    # arrows: straight ones, then curves with a head at their end
    arrows = wanted_arrows(what, obj)
    got = [(p._posA_posB[0], p._posA_posB[1], rgba(p.get_edgecolor()), 1e-9) for p in ax.patches if isinstance(p, FancyArrowPatch)]  # noqa: SLF001
    got += [(c.get_xydata()[0], c.get_xydata()[-1], rgba(c.get_color()), 0.25) for c in curves if c.get_linestyle() != "--"]
    heads = [(t.xy, rgba(t.arrow_patch.get_edgecolor())) for t in ax.texts if isinstance(t, Annotation) and t.xycoords == "data"]
    for a, b, col, tol in got:
        m = [e for e, c in arrows.items() if rgba(c) == col and near(a, pos[e[0]], 1e-9 if e[0] != e[1] else 0.25) and near(b, pos[e[1]], tol)]
        # with small distances several arrows may match: prefer the nearest end
        m.sort(key=lambda e: np.linalg.norm(np.asarray(b) - pos[e[1]]))
        if not m:
            R.bad(f"drawn arrow {key}", f"{a} {b} {col}, expected {arrows}")
            return
        arrows.pop(m[0])
        if tol > 1e-3 and (not [h for h in heads if near(h[0], b) and h[1] == col]):
            R.bad(f"arrow head {key}", f"no head at {b}")
    if arrows:
        R.bad(f"missing arrow {key}", f"{arrows} not drawn")
    # texts
    texts = collections.Counter(t.get_text() for t in ax.texts if t.get_text())
    exp = collections.Counter()
    nl = kw.get("node_labels", True)
    if nl is True:
        exp.update(str(v) for v in pos)
    elif nl:
        exp.update(nl[v] for v in pos if v in nl)
    if kw.get("measurement_labels"):
        exp.update(m.to_plane_or_axis().name for m in x.measurements.values())
    if kw.get("local_clifford"):
        exp.update(str(c) for c in x.output_cliffords.values())
    if what != "og" and len(list(obj.partial_order_layers)):
        layers = list(obj.partial_order_layers)
        exp.update([*(str(k) for k in range(len(layers))), "Layer"])
        for k in range(len(layers)):
            if not [t for t in ax.texts if t.get_text() == str(k) and abs(t.get_position()[0] - (len(layers) - 1 - k) * dist[0]) < 1e-9]:
                R.bad(f"layer label {key}", f"no label {k} under its column")
    if texts != exp:
        R.bad(f"texts {key}", f"{dict(texts)} instead of {dict(exp)}")
    if nl:
        for v, p in pos.items():
            s = str(v) if nl is True else nl.get(v)
            if s is not None and not [t for t in ax.texts if t.get_text() == s and near(t.get_position(), p)]:
                R.bad(f"node label {key}", f"label {s} is not at {p}")
    for items, dx in ((x.measurements, "measurement_labels"), (x.output_cliffords, "local_clifford")):
        for v, m in items.items() if kw.get(dx) else ():
            s = str(m) if dx == "local_clifford" else m.to_plane_or_axis().name
            if not [t for t in ax.texts if t.get_text() == s and near(t.get_position(), pos[v], 0.5)]:
                R.bad(f"label {dx} {key}", f"label {s} is not next to {v}")
    # legend and limits
    leg = ax.get_legend()
    got = sorted(t.get_text() for t in leg.get_texts()) if leg else []
    lab = []
    if kw.get("legend", True) and pos:
        cols = set(wanted_arrows(what, obj).values())
        lab += ["Input nodes"] * bool(x.input_nodes) + ["Output nodes"] * bool(x.output_nodes) + ["Graph edge"] * bool(x.graph.edges)
        lab += ["Pauli-measured nodes"] * bool(kw.get("pauli_measurements", True) and any(isinstance(m, PauliMeasurement) for m in x.measurements.values()))
        if what == "flow":
            lab += ["Correction function"] * bool(cols)
        for c, s in ((visualization.X_C, "X corrections"), (visualization.Z_C, "Z corrections"), (visualization.XZ_C, "X and Z corrections")):
            lab += [s] * (what == "xz" and c in cols)
    if got != sorted(lab):
        R.bad(f"legend {key}", f"{got} instead of {sorted(lab)}")
    (xa, xb), (ya, yb) = ax.get_xlim(), ax.get_ylim()
    if any(not (xa < p[0] < xb and ya < p[1] < yb) for p in pos.values()):
        R.bad(f"limits {key}", f"a node is outside {xa, xb, ya, yb}")
    R.trans(len(nodes) + len(segs))
    R.trace()
    R.outcome(",".join(lab))
    plt.close("all")


def work_artists(task, R):
    _, n, shapes = task
    for edges, i, o in shapes:
        kinds = ["XY:0.37", "X+", "YZ:0.61", "XY:0.37"]
        for ks in (["XY:0.37"] * 4, kinds):
            meas = {v: pat.meas(c) for v, c in zip([v for v in range(n) if v not in o], ks, strict=False)}
            x = OpenGraph(mkgraph(n, edges), i, o, meas, {v: c for v, c in zip(o, [Clifford.H, Clifford.S, Clifford.X], strict=False)} if ks is kinds else {})
            for what, obj, nm in objects(x):
                key = f"artists n={n} E={edges} I={i} O={o} M={ks[: len(meas)]} {nm}"
                artists(R, key, what, obj, **({"local_clifford": True} if x.output_cliffords else {}))
        g = mkgraph(n, edges)
        names = {v: 300 - 101 * v for v in range(n)}
        import networkx as nx

        y = OpenGraph(nx.relabel_nodes(g, names), [names[v] for v in i], [names[v] for v in o], {names[v]: pat.meas("XY:0.37") for v in range(n) if v not in o})
        for what, obj, nm in objects(y):
            if nm in {"graph", "gflow", "corrections of causalflow"}:
                artists(R, f"artists n={n} E={edges} I={i} O={o} named {list(names.values())} {nm}", what, obj, node_distance=(2, 0.5), measurement_labels=True)


def work_options(task, R):
    _, part, parts = task
    x = OpenGraph(mkgraph(5, [(0, 1), (1, 2), (2, 3), (1, 4)]), [0, 4], [3, 4], {0: pat.meas("XY:0.37"), 1: pat.meas("X+"), 2: pat.meas("XY:0.11")}, {3: Clifford.H, 4: Clifford.S})
    f = x.to_pauliflow()
    objs = [("og", x, "graph"), ("flow", f, "flow"), ("xz", f.to_xzcorrections(), "corrections")]
    labels = [True, False, {v: f"n{v}" for v in range(5)}, {1: "a", 3: "b"}]
    combos = itertools.product([True, False], [True, False], [True, False], labels, [True, False], [None, (4, 3)], DIST[:2])
    for num, (pm, ml, lc, nl, legend, size, dist) in enumerate(combos):
        if num % parts != part:
            continue
        kw = {"pauli_measurements": pm, "measurement_labels": ml, "local_clifford": lc, "node_labels": nl, "legend": legend, "figsize": size, "node_distance": dist}
        what, obj, nm = objs[(num // parts) % 3] if num % 5 else objs[(num // parts + 1) % 3]
        artists(R, f"options {nm} {kw}", what, obj, **kw)
    if part == 0:
        for dist in DIST:
            for what, obj, nm in objs:
                artists(R, f"distance {nm} {dist}", what, obj, node_distance=dist)


def work_pattern(task, R):
    x = OpenGraph(mkgraph(4, [(0, 1), (1, 2), (2, 3)]), [0], [3], {0: pat.meas("XY:0.37"), 1: pat.meas("X+"), 2: pat.meas("XY:0.11")})
    y = OpenGraph(mkgraph(3, [(0, 1), (1, 2)]), [0], [2], {0: pat.meas("XY:0.37"), 1: pat.meas("XY:0.2")})
    for nm, z in (("pauli", x), ("causal", y)):
        p = z.to_pattern()
        for ffp in (True, False):
            f = z.to_causalflow_or_none() if nm == "causal" else z.to_pauliflow()
            artists(R, f"pattern.draw flow {nm} {ffp}", "flow", f, save=lambda **k: p.draw(flow_from_pattern=ffp, **k))
            artists(R, f"pattern.draw xz {nm} {ffp}", "xz", p.to_xzcorrections(), save=lambda **k: p.draw(annotations=DrawPatternAnnotations.XZCorrections, flow_from_pattern=ffp, **k))
            artists(R, f"pattern.draw None {nm} {ffp}", "og", p.to_opengraph(), save=lambda **k: p.draw(annotations=None, flow_from_pattern=ffp, **k))
        artists(R, f"opengraph.draw {nm}", "og", z, save=z.draw)
        f = z.to_pauliflow()
        artists(R, f"flow.draw {nm}", "flow", f, save=f.draw)
        c = f.to_xzcorrections()
        artists(R, f"xz.draw {nm}", "xz", c, save=c.draw)


def work(task, R):
    mpl.use("Agg")
    {"paths": work_paths, "corr": work_corr, "row": work_row, "artists": work_artists, "options": work_options, "pattern": work_pattern}[task[0]](task, R)

"""P04: space minimisation and rescheduling preserve meaning; the metrics are true."""

import itertools

import networkx as nx
import numpy as np
from graphix import Circuit  # noqa: F401
from graphix.optimization import StandardizedPattern
from graphix.space_minimization import SpaceMinimizationHeuristics as H

from mc import circ, og, pat, ref

META = {
    "bounds": {
        "quick": "(flow) patterns from every open graph with <=3 nodes (5 codes) and connected 4-node graphs (3 codes) with flow, generated by every kind of flow the graph has; "
        "(dom) 3 measured nodes on 3 graphs with every domain assignment; (iso) disconnected graphs, input-output nodes, other prepared states; "
        "(circ) transpiled 1- and 2-qubit circuits; (wires) up to 3 wires with every subset of cross edges consistent with a causal flow; every branch, plus brute force over all measurement orders for optimality; (peak) every labelled graph with <=6 nodes in every measurement order: peak after minimisation, placement and metric",
        "thorough": "4-node graphs with 6 codes, 5-node trees and cycles, wires of length 3",
    },
    "assumptions": ["generic angle 0.37 pi plus Pauli measurements represent the angle domain"],
}


def chunks(it, n):
    c = []
    for x in it:
        c.append(x)
        if len(c) == n:
            yield c
            c = []
    if c:
        yield c


def graphs(tier):
    for n in (1, 2, 3):
        for sh in og.shapes(n, min_out=1):
            yield from og.labelled(n, sh, ["XY:0.37", "XZ:0.37", "YZ:0.37", "X+", "Y-", "Z+"])
    for sh in og.shapes(4, connected=True, min_out=1):
        yield from og.labelled(4, sh, ["XY:0.37", "YZ:0.37", "X+"] if tier == "quick" else ["XY:0.37", "XZ:0.37", "YZ:0.37", "X+", "Y-", "Z+"])
    if tier == "thorough":
        for sh in og.shapes(5, connected=True, min_out=1, max_out=3):
            if len(sh[0]) <= 5:
                yield from og.labelled(5, sh, ["XY:0.37", "YZ:0.37", "Y+"])


def wires(tier):
    """Graphs with a causal flow: wires of given lengths plus cross edges that respect the time order of the flow."""
    lens = [(2, 2), (3, 2), (3, 1), (2, 1, 2), (3, 3), (2, 2, 1), (4, 2)] + ([(3, 3, 1), (3, 2, 2), (4, 3), (2, 2, 2)] if tier == "thorough" else [])
    for ls in lens:
        off = np.cumsum([0, *ls]).tolist()
        n = off[-1]
        path = [[off[w] + i, off[w] + i + 1] for w in range(len(ls)) for i in range(ls[w] - 1)]
        outs = [off[w + 1] - 1 for w in range(len(ls))]
        heads = [off[w] for w in range(len(ls))]
        cross = [
            [a, b]
            for w1, w2 in itertools.combinations(range(len(ls)), 2)
            for a in range(off[w1], off[w1 + 1])
            for b in range(off[w2], off[w2 + 1])
        ]
        for r in range(0, 4 if n <= 5 else 3):
            for ex in itertools.combinations(cross, r):
                for ins in ([], heads, heads[:1]):
                    yield [n, path + [list(e) for e in ex], ins, outs, {str(v): "XY:0.37" for v in range(n) if v not in outs}]


def subsets(xs):
    return [list(c) for r in range(len(xs) + 1) for c in itertools.combinations(xs, r)]


def peaks_tasks(tier):
    """Every labelled graph (so: every measurement order of every graph): the peak after minimisation, without simulation."""
    for n, outs, dom in [(4, [], []), (4, [3], []), (5, [], []), (5, [4], []), (5, [], [0, 4]), (6, [], [])] + ([(6, [5], []), (6, [], [1, 5]), (6, [4, 5], [])] if tier == "thorough" else []):
        pairs = n * (n - 1) // 2
        step = 512
        for lo in range(0, 2**pairs, step):
            yield ["peak", n, outs, dom, lo, min(2**pairs, lo + step)]


def peak(R, n, outs, dom, lo, hi):
    pairs = list(itertools.combinations(range(n), 2))
    for mask in range(lo, hi):
        edges = [e for i, e in enumerate(pairs) if mask >> i & 1]
        key = f"n={n} {edges} out={outs} dom={dom}"
        R.at(key)
        seq = [["N", v] for v in range(n)] + [["E", *e] for e in edges]
        meas = [v for v in range(n) if v not in outs]
        seq += [["M", v, "XZ:0.37", [dom[0]] if dom and v == dom[1] else [], []] for v in meas]
        p = pat.build([], seq)
        q = p.minimize_space(copy=True)
        R.state()
        R.trans(len(seq))
        q.check_runnability()
        g = nx.Graph()
        g.add_nodes_from(range(n))
        g.add_edges_from(edges)
        order = [c.node for c in q if c.kind.name == "M"]
        got = ref_spaces(q)[0]
        if sorted(order) != meas:
            R.bad(f"peak order {key}", f"{order}")
            continue
        if got != order_peak(g, [], outs, order):
            R.bad(f"peak placement {key}", f"peak {got}, the order {order} needs {order_peak(g, [], outs, order)}")
        greedy = H.greedy_degree(StandardizedPattern.from_pattern(p))
        if got > order_peak(g, [], outs, greedy.new_order):
            R.bad(f"peak greedy {key}", f"peak {got}, but the greedy order {greedy.new_order} needs only {order_peak(g, [], outs, greedy.new_order)}")
        if got > order_peak(g, [], outs, meas):
            R.bad(f"peak increased {key}", f"peak {got}, but the original order {meas} needs only {order_peak(g, [], outs, meas)}")
        if q.max_space() != got:
            R.bad(f"peak metric {key}", f"{q.max_space()} vs {got}")


def tasks(tier):
    yield from peaks_tasks(tier)
    for c in chunks(graphs(tier), 60):
        yield ["flow", *c]
    for c in chunks(wires(tier), 30):
        yield ["flow", *c]
    for g in range(3):
        for ms in itertools.product(["XY:0.37", "XZ:0.37", "Y-"], repeat=3):
            yield ["dom", g, *ms]
    for k in range(len(ISO)):
        yield ["iso", k]
    s1 = list(circ.singles(1, kinds=("H", "S", "RX", "RZ", "J", "M"))) if False else list(circ.singles(1, kinds=("H", "S", "RX", "RZ", "J")))
    s2 = list(circ.singles(2, kinds=("H", "RX"))) + list(circ.doubles(2, kinds=("CNOT", "CZ", "SWAP"))) + [["M", 0, "X"], ["M", 1, "Y"]]
    for c in chunks(circ.words(s1, 2), 40):
        yield ["circ", 1, *c]
    for c in chunks(circ.words(s2, 2 if tier == "quick" else 3), 30):
        yield ["circ", 2, *c]


EDGES = [
    [["E", 0, 1], ["E", 1, 2], ["E", 2, 3]],
    [["E", 0, 1], ["E", 0, 2], ["E", 0, 3], ["E", 1, 2]],
    [["E", 3, 0], ["E", 1, 3]],
]
# non-standard or unusual patterns: interleaving, isolated nodes, duplicated edges, other states, Cliffords, input = output
ISO = [
    ([0], [["N", 1], ["N", 2], ["E", 0, 1], ["M", 0, "XY:0.37", [], []], ["X", 1, [0]]]),
    ([0, 5], [["N", 1], ["E", 5, 1], ["E", 1, 5], ["E", 1, 0], ["M", 0, "YZ:0.37", [], []], ["Z", 5, [0]]]),
    ([], [["N", 3], ["M", 3, "XY:0.37", [], []], ["N", 1], ["N", 2], ["E", 1, 2], ["X", 1, [3]]]),
    ([], [["N", 0], ["N", 1], ["N", 2], ["M", 0, "Z+", [], []], ["M", 1, "XZ:0.37", [0], []], ["M", 2, "XY:0.37", [1], [0]]]),
    ([0], [["N", 1, "ZERO"], ["N", 2, "MINUS"], ["E", 0, 1], ["E", 1, 2], ["M", 0, "XY:0.37", [], []], ["M", 1, "XY:0.37", [0], []], ["X", 2, [1]], ["C", 2, 7]]),
    ([0], [["N", 1], ["E", 0, 1], ["M", 0, "XY:0.37", [], []], ["X", 1, [0]], ["N", 2], ["E", 1, 2], ["M", 1, "XY:0.6", [], [0]], ["X", 2, [1]], ["N", 3], ["E", 2, 3], ["M", 2, "X+", [], []], ["X", 3, [2]], ["C", 3, 13]]),
    ([4, 1], [["C", 1, 9], ["N", 0], ["E", 1, 0], ["Z", 4, []], ["M", 1, "XY:0.37", [], []], ["X", 0, [1]], ["E", 0, 4]]),
    ([], []),
    ([2], []),
    ([], [["N", 1], ["N", 2], ["E", 1, 2]]),
    ([], [["N", i] for i in range(5)] + [["E", 0, i] for i in range(1, 5)] + [["M", 0, "Y+", [], []], ["M", 4, "XY:0.37", [0], []]]),
    ([0, 1], [["N", 2], ["N", 3], ["E", 0, 2], ["E", 1, 3], ["E", 2, 3], ["M", 1, "XY:0.37", [], []], ["M", 0, "XY:0.37", [], [1]], ["X", 2, [0]], ["Z", 2, [1]], ["X", 3, [1]]]),
    # a chain measured from its far end, on a graph where the order matters
    ([], [["N", i] for i in range(6)] + [["E", i, i + 1] for i in range(5)] + [["M", 4, "YZ:0.37", [], []], ["M", 2, "YZ:0.37", [], []], ["M", 0, "XY:0.37", [], []], ["M", 3, "XY:0.37", [0, 2], [4]], ["M", 1, "YZ:0.2", [3], []]]),
]


def ref_graph(cmds, inputs):
    g = nx.Graph()
    g.add_nodes_from(inputs)
    for c in cmds:
        if c.kind.name == "N":
            g.add_node(c.node)
        elif c.kind.name == "E":
            u, v = c.nodes
            if g.has_edge(u, v):
                g.remove_edge(u, v)
            else:
                g.add_edge(u, v)
    return g


def ref_spaces(p):
    n = len(p.input_nodes)
    peak, lst = n, []
    for c in p:
        if c.kind.name == "N":
            n += 1
        elif c.kind.name == "M":
            n -= 1
        else:
            continue
        peak = max(peak, n)
        lst.append(n)
    return peak, lst


def order_peak(g, inputs, outputs, order):
    """Smallest possible peak number of live nodes for a measurement order."""
    act = set(inputs)
    peak = len(act)
    gone = 0
    for m in order:
        act |= {m, *g.neighbors(m)}
        peak = max(peak, len(act) - gone)
        gone += 1
    act |= set(g.nodes)
    return max(peak, len(act) - gone)


def metrics(R, p, key):
    peak, lst = ref_spaces(p)
    if p.max_space() != peak:
        R.bad(f"max_space {key}", f"max_space() is {p.max_space()}, executing shows {peak}")
    if list(p.space_list()) != lst:
        R.bad(f"space_list {key}", f"space_list() is {p.space_list()}, executing shows {lst}")
    nodes = {*p.input_nodes, *(c.node for c in p if c.kind.name == "N")}
    if p.n_node != len(nodes) or p.nodes() != nodes:
        R.bad(f"n_node {key}", f"n_node {p.n_node}, nodes {p.nodes()}, true nodes {nodes}")
    md = {c.node: c for c in p if c.kind.name == "M"}
    if p.measurement_commands() != md:
        R.bad(f"measurement_commands {key}", f"{p.measurement_commands()}")
    R.trans()


def deps(sp):
    d = {m.node: set(m.s_domain | m.t_domain) for m in sp.m_list}
    return d


def check(R, p, key, flowgen=False):
    snap = pat.snapshot(p)
    metrics(R, p, key)
    sp = StandardizedPattern.from_pattern(p)
    mp = pat.Meaning(p)
    R.state(2 ** len(mp.labels))
    nodes = {*p.input_nodes, *(c.node for c in p if c.kind.name == "N")}
    g = sp.graph()
    rg = ref_graph(sp.to_pattern(), p.input_nodes)
    plain = all(c.kind.name != "N" or repr(c.state) == repr(pat.command.N(0).state) for c in p)
    if plain:
        if p.max_degree() != max((d for _, d in rg.degree), default=0):
            R.bad(f"max_degree {key}", f"max_degree() is {p.max_degree()}")
        if p.isolated_nodes() != {v for v, d in rg.degree if d == 0}:
            R.bad(f"isolated_nodes {key}", f"{p.isolated_nodes()}")
    for v in sorted(nodes):
        q = p.copy()
        got = q.connected_nodes(v)
        if sorted(got) != sorted(rg.neighbors(v)):
            R.bad(f"connected_nodes {v} {key}", f"connected_nodes({v}) is {got}")
        prep = set(sorted(nodes)[::2])
        if sorted(q.connected_nodes(v, prep)) != sorted(set(rg.neighbors(v)) - prep):
            R.bad(f"connected_nodes prepared {v} {key}", f"{q.connected_nodes(v, prep)}")
    # layers: the number of layers is the longest dependency chain, each layer independent
    layers = sp.partial_order_layers()
    if p.partial_order_layers() != layers:
        R.bad(f"layers-agree {key}", f"{p.partial_order_layers()} vs {layers}")
    d = deps(sp)
    outs = set(p.output_nodes)
    meas = [m.node for m in sp.m_list]
    depth = {}
    for m in meas:
        depth[m] = 1 + max((depth[x] for x in d[m]), default=0)
    k = max(depth.values(), default=0)
    body = list(layers[1:] if outs else layers)
    if outs and (not layers or set(layers[0]) != outs):
        R.bad(f"layers {key}", f"first layer of {layers} is not the output nodes")
    elif sorted(x for la in body for x in la) != sorted(meas) or len(body) != k or not all(body):
        R.bad(f"layers {key}", f"layers {layers} do not partition the measured nodes in {k} layers")
    else:
        lev = {x: i for i, la in enumerate(reversed(body)) for x in la}
        if any(lev[x] >= lev[m] for m in meas for x in d[m]):
            R.bad(f"layers order {key}", f"layers {layers} violate dependencies {d}")
    orders = None
    results = [("min", None), ("fixed", ())]
    for h in ("causal_flow", "order_unchanged", "greedy_degree"):
        results.append((h, (getattr(H, h),)))
    done = []
    peaks = {}
    for name, hs in results:
        q = p.minimize_space(hs, copy=True)
        q.check_runnability()
        R.trans()
        if not any(list(q) == x for x in done):
            done.append(list(q))
            R.trace()
            why = pat.branch_equal(mp, q)
            if why:
                R.bad(f"{name} {key}", f"{why}: {list(q)}")
        if pat.pat_io(q) != pat.pat_io(p):
            R.bad(f"{name} io {key}", f"{pat.pat_io(q)}")
        metrics(R, q, f"{name} {key}")
        peaks[name] = ref_spaces(q)[0]
        order = [c.node for c in q if c.kind.name == "M"]
        best = order_peak(g, p.input_nodes, p.output_nodes, order)
        if peaks[name] != best:
            R.bad(f"{name} placement {key}", f"peak {peaks[name]} but the order {order} needs only {best}: {list(q)}")
        sq = sp.minimize_space(hs)
        if sq.max_space() != sq.to_space_optimal_pattern().max_space():
            R.bad(f"{name} std max_space {key}", f"{sq.max_space()}")
        if list(sq.to_space_optimal_pattern()) != list(q) or [m.node for m in sq.m_list] != order:
            R.bad(f"{name} std {key}", "StandardizedPattern.minimize_space disagrees with Pattern.minimize_space")
        if name in ("min", "fixed"):
            if peaks[name] > ref_spaces(p)[0]:
                R.bad(f"{name} increased {key}", f"peak {ref_spaces(p)[0]} became {peaks[name]}")
            q2 = p.copy()
            if q2.minimize_space(hs) is not q2 or list(q2) != list(q) or pat.pat_io(q2) != pat.pat_io(q) or q2.n_node != q.n_node:
                R.bad(f"{name} inplace {key}", "in-place minimisation differs from minimisation on a copy")
        claim = getattr(H, name)(sp) if hs and (plain or name != "causal_flow") else None
        if claim is not None and list(claim.new_order) != order:
            R.bad(f"{name} heuristic order {key}", f"the heuristic gives {claim.new_order}, the pattern measures {order}")
        if name in ("fixed", "order_unchanged") and order != meas:
            R.bad(f"{name} order {key}", f"the measurement order {meas} became {order}")
    if peaks["min"] > min(peaks["greedy_degree"], peaks["order_unchanged"]):
        R.bad(f"min not best {key}", f"{peaks}")
    res = H.causal_flow(sp) if plain else None
    if res is not None and res.known_optimal and len(meas) <= 6:
        # the result is claimed to be optimal: compare with every measurement order compatible with the dependencies
        best = min(
            order_peak(g, p.input_nodes, p.output_nodes, o)
            for o in itertools.permutations(meas)
            if all(o.index(x) < o.index(m) for m in meas for x in d[m])
        )
        R.count("optimality_checked")
        if peaks["min"] != best:
            R.bad(f"optimal {key}", f"claimed optimal with peak {peaks['min']}, but {best} is possible")
    q = p.copy()
    q.parallelize_pattern()
    q.check_runnability()
    why = pat.branch_equal(mp, q)
    if why:
        R.bad(f"parallelize {key}", f"{why}: {list(q)}")
    metrics(R, q, f"parallelize {key}")
    order = [depth[c.node] for c in q if c.kind.name == "M"]
    if not outs and layers:
        R.count("no_output_layers")
    if any(a > b for a, b in itertools.pairwise(body_level(layers, outs, [c.node for c in q if c.kind.name == "M"]))):
        R.bad(f"parallel order {key}", f"measurements of the same layer are not together: {list(q)} for layers {layers}")
    if sorted(meas) == meas and meas:
        cmds = p.sort_measurement_commands(list(reversed(meas)))
        if [c.node for c in cmds] != list(reversed(meas)):
            R.bad(f"sort {key}", f"{cmds}")
    if pat.snapshot(p) != snap:
        R.bad(f"mutated {key}", "a query or an operation on a copy changed the pattern")
    R.outcome((ref_spaces(p)[0], peaks["min"]))


def body_level(layers, outs, order):
    body = list(layers[1:] if outs else layers)
    lev = {x: i for i, la in enumerate(reversed(body)) for x in la}
    return [lev[x] for x in order if x in lev]


def work(task, R):
    kind = task[0]
    if kind == "peak":
        peak(R, *task[1:])
    elif kind == "flow":
        for dsc in task[1:]:
            g = og.build(dsc)
            flows = []
            if all(":" in m for m in dsc[4].values()):
                flows = [("causal", g.to_causalflow_or_none()), ("g", g.to_gflow_or_none())]
            flows.append(("pauli", g.to_pauliflow_or_none()))
            seen = []
            for fname, f in flows:
                if f is None:
                    continue
                key = f"{fname} {og.show(dsc)}"
                R.at(key)
                R.show(key)
                p = f.to_xzcorrections().to_pattern()
                if any(list(p) == s for s in seen):
                    continue
                seen.append(list(p))
                check(R, p, key, True)
    elif kind == "dom":
        _, gi, m0, m1, m2 = task
        for s1, t1 in itertools.product(subsets([0]), repeat=2):
            for s2, t2 in itertools.product(subsets([0, 1]), repeat=2):
                seq = [["N", 1], ["N", 2], ["N", 3], *EDGES[gi], ["M", 0, m0, [], []], ["M", 1, m1, s1, t1], ["M", 2, m2, s2, t2], ["X", 3, [2]], ["Z", 3, [0, 1]]]
                key = pat.show([0], seq)
                R.at(key)
                check(R, pat.build([0], seq), key)
    elif kind == "iso":
        inputs, seq = ISO[task[1]]
        key = pat.show(inputs, seq)
        R.at(key)
        R.show(key)
        p = pat.build(inputs, seq)
        for perm in itertools.permutations(p.output_nodes):
            p.reorder_output_nodes(perm)
            check(R, p, f"{key} out={perm}")
        # other in-place operations keep the metrics true
        for name, f in INPLACE:
            q = p.copy()
            f(q)
            metrics(R, q, f"{name} {key}")
    elif kind == "circ":
        for w in task[2:]:
            key = circ.show(w)
            R.at(key)
            p = circ.build(task[1], w).transpile().pattern
            if sum(c.kind.name == "M" for c in p) > 8:
                R.count("too_long")
                continue
            check(R, p, key)
            for name, f in INPLACE:
                q = p.copy()
                f(q)
                metrics(R, q, f"{name} {key}")


INPLACE = [
    ("standardize", lambda q: q.standardize()),
    ("shift_signals", lambda q: q.shift_signals()),
    ("shift_signals mc", lambda q: q.shift_signals(method="mc")),
    ("pauli_pushing", lambda q: q.perform_pauli_pushing()),
    ("remove_pauli", lambda q: q.remove_pauli_measurements()),
    ("remove_clifford", lambda q: q.remove_local_clifford_commands()),
    ("remove_input_nodes", lambda q: q.remove_input_nodes()),
    ("minimize", lambda q: q.minimize_space()),
    ("reindex", lambda q: q.reindex(lambda v: v + 3)),
    ("infer", lambda q: q.infer_pauli_measurements()),
]

"""F02: patterns generated from flows are deterministic and implement the all-zero projection."""

import itertools

import numpy as np
from graphix import Clifford, OpenGraph
from graphix.flow.core import CausalFlow, GFlow, PauliFlow
from graphix.opengraph import OpenGraphError

from mc import flowref, og, pat, ref
from checks.F01 import mkgraph

META = {
    "bounds": {
        "quick": "every open graph up to isomorphism with <=3 nodes x 8 measurement kinds (generic angle in each plane, signed Paulis) and with 4 nodes x 6 kinds, every flow kind found, every compatible measurement order "
        "(all permutations are classified), every branch, every input; every flow (all correction functions and layerings meeting the definition) of open graphs with <=3 nodes and 6 kinds; permuted input/output orders and sparse labels, "
        "output Cliffords; 5-node all-XY graphs; wires of 3+3 and 2+2+2 nodes joined by <=3 edges, 4+3 and 3+2+2 nodes joined by one edge, with sparse labels and all-XY, one-other and alternating measurement labels",
        "thorough": "5 nodes x 3 planes and x {XY,X,Y}; every flow of 4-node open graphs with labels XY,YZ,X,Z; 6-node all-XY graphs with |O|<=2; one more joining edge on the wires of 7 nodes, and wires of 2+2+2+2 nodes",
    },
    "assumptions": ["generic angles represent the angle domain (one per plane)"],
}

K6 = ["XY:0.37", "XZ:0.22", "YZ:0.61", "X-", "Y+", "Z-"]
K8 = [*K6, "X+", "Y-", "Z+"]
LABEL = lambda c: c.split(":")[0] if ":" in c else c[0]


def chunk(n, kinds, per, what="found", **kw):
    acc, cost = [], 0
    for s in og.shapes(n, **kw):
        acc.append(s)
        cost += len(kinds) ** (n - len(s[2]))
        if cost >= per:
            yield [what, n, kinds, acc]
            acc, cost = [], 0
    if acc:
        yield [what, n, kinds, acc]


def tasks(tier):
    for n in range(4):
        yield from chunk(n, K8, 300)
    for n in range(4):
        yield from chunk(n, K6, 60, "every")
    for n in (2, 3):
        yield from chunk(n, ["XY:0.37", "Y-", "YZ:0.61"], 200, "dressed")
    yield from chunk(4, K6, 900)
    yield from chunk(5, ["XY:0.37"], 100, max_out=3)
    for lens, cross in (((3, 3), 3), ((2, 2, 2), 3), ((4, 3), 2), ((2, 2, 2, 2), 2), ((3, 2, 2), 2)):
        if len(lens) > 3 and tier == "quick":
            continue
        for ports in ("heads", "some") if sum(lens) < 7 else ("heads",):
            for part in range(8):
                yield ["wires", lens, cross if tier == "thorough" or sum(lens) < 7 else cross - 1, ports, part]
    if tier == "thorough":
        yield from chunk(4, ["XY:0.37", "YZ:0.61", "X+", "Z-"], 80, "every")
        yield from chunk(5, K6[:3], 1500)
        yield from chunk(5, ["XY:0.37", "X+", "Y-"], 1500)
        yield from chunk(6, ["XY:0.37"], 200, max_out=2)


def projection(x):
    """Map obtained by projecting every measured node on the positive outcome (Choi vector)."""
    st = ref.BranchState(x.input_nodes)
    for v in x.graph.nodes:
        if v not in x.input_nodes:
            st.add(v, ref.PLUS)
    for a, b in x.graph.edges:
        st.gate(ref.CZ, [a, b])
    for v, m in x.measurements.items():
        st.measure(v, ref.bloch(m))
        st.prune(0)
    for v, c in x.output_cliffords.items():
        st.gate(np.asarray(c.matrix), [v])
    return st.kraus(x.output_nodes)[0]


def deterministic(R, key, p, x, proj):
    """One pattern against the projection."""
    R.state()
    p.check_runnability()
    if list(p.input_nodes) != list(x.input_nodes) or list(p.output_nodes) != list(x.output_nodes):
        R.bad(f"io {key}", f"pattern has {pat.pat_io(p)}, open graph {x.input_nodes} {x.output_nodes}")
        return False
    st = ref.run_pattern(p)
    R.trans(st.steps)
    rows = st.kraus(p.output_nodes)
    R.trace()
    k = len(x.measurements)
    if len(rows) != 2**k or set(st.outcomes) != set(x.measurements):
        R.bad(f"measured {key}", f"measured nodes {sorted(st.outcomes)}")
        return False
    if not ref.all_rows_equal(rows) or abs(np.linalg.norm(rows[0]) ** 2 - 2.0 ** (len(x.input_nodes) - k)) > 1e-8:
        R.bad(f"deterministic {key}", f"branches differ: {pat_text(p)}")
        return False
    if not ref.same_ray(rows[0], proj):
        R.bad(f"map {key}", f"the pattern does not implement the positive projection: {pat_text(p)}")
        return False
    return True


def pat_text(p):
    return " ".join(str(c) for c in p)


def rank(layers):
    return {v: i for i, lay in enumerate(layers) for v in lay}


def orders(R, key, xz, x, proj, full=True):
    """All permutations of the measured nodes: compatible ones give correct patterns, the others are refused."""
    deterministic(R, f"{key} default", xz.to_pattern(), x, proj)
    meas = list(x.measurements)
    rk = rank(xz.partial_order_layers)
    perms = itertools.permutations(meas) if full else [sorted(meas, key=lambda v: (-rk[v], v)), sorted(meas, key=lambda v: (-rk[v], -v))]
    for od in perms:
        legal = all(rk[a] >= rk[b] for a, b in itertools.pairwise(od))
        if xz.is_compatible(list(od)) != legal:
            R.bad(f"compatible {key} {od}", f"is_compatible is {not legal} for layers {xz.partial_order_layers}")
        elif legal:
            deterministic(R, f"{key} order {od}", xz.to_pattern(list(od)), x, proj)


def flows(x, labels):
    """(kind, flow) found by the library; causal and gflow on the planar version of the graph."""
    bl = x.to_bloch()
    for kind, f in (
        ("causal", bl.to_causalflow_or_none()),
        ("gflow", bl.to_gflow_or_none()),
        ("pauli", x.to_pauliflow_or_none()),
    ):
        if f is not None:
            yield kind, f


def work_found(task, R):
    _, n, kinds, shapes = task
    for edges, i, o in shapes:
        g = mkgraph(n, edges)
        nodes = [v for v in range(n) if v not in o]
        for ls in itertools.product(kinds, repeat=len(nodes)):
            ms = {v: pat.meas(c) for v, c in zip(nodes, ls, strict=True)}
            x = OpenGraph(g, i, o, ms)
            key = f"n={n} E={[tuple(e) for e in edges]} I={i} O={o} M={ls}"
            R.at(key)
            R.show(key)
            proj = None
            got = False
            for kind, f in flows(x, ls):
                if proj is None:
                    proj = projection(x)
                R.outcome(kind)
                R.count(f"flow_{kind}")
                got = got or kind == "pauli" or (kind == "causal" and all(":" in c for c in ls))
                orders(R, f"{kind} {key}", f.to_xzcorrections(), x, proj, full=len(nodes) <= 4)
            if n <= 4:
                try:
                    p = x.to_pattern()
                except OpenGraphError:
                    if got:
                        R.bad(f"to_pattern {key}", "OpenGraph.to_pattern refused a graph with flow")
                    continue
                if not got:
                    # nothing but a flow can justify a pattern, but the pattern itself decides
                    R.bad(f"to_pattern {key}", "OpenGraph.to_pattern accepted a graph without flow")
                    continue
                deterministic(R, f"to_pattern {key}", p, x, projection(x) if proj is None else proj)


def layerings(nodes):
    """All ordered set partitions of the measured nodes (last layer measured first)."""
    nodes = list(nodes)
    if not nodes:
        yield []
        return
    for r in range(1, len(nodes) + 1):
        for first in itertools.combinations(nodes, r):
            rest = [v for v in nodes if v not in first]
            for tail in layerings(rest):
                yield [set(first), *tail]


def work_every(task, R):
    """Every correction function and layering that meets a definition, not only those the finders return."""
    _, n, kinds, shapes = task
    cls = {"causal": CausalFlow, "gflow": GFlow, "pauli": PauliFlow}
    for edges, i, o in shapes:
        g = mkgraph(n, edges)
        sh = flowref.Shape(n, edges, i, o)
        nodes = sh.measured
        for ls in itertools.product(kinds, repeat=len(nodes)):
            lab = {v: LABEL(c) for v, c in zip(nodes, ls, strict=True)}
            planar = all(":" in c for c in ls)
            ms = {v: pat.meas(c) for v, c in zip(nodes, ls, strict=True)}
            x = OpenGraph(g, i, o, ms)
            if flowref.exists("pauli", sh, lab) is None:
                continue
            proj = projection(x)
            seen = set()
            for lay in layerings(nodes):
                layers = ([set(o)] if o else []) + lay
                future, acc = {}, 0
                for s in layers:
                    for u in s:
                        future[u] = acc
                    acc |= flowref.mask(s)
                for kind in ("causal", "gflow", "pauli") if planar else ("pauli",):
                    ok = flowref.OK[kind]
                    cand = [[p for p in sh.sets if ok(sh, lab, u, p, future[u])] for u in nodes]
                    for ps in itertools.product(*cand):
                        c = {u: frozenset(flowref.bits(p)) for u, p in zip(nodes, ps, strict=True)}
                        key = f"n={n} E={[tuple(e) for e in edges]} I={i} O={o} M={ls} {kind} c={ {u: sorted(s) for u, s in c.items()} } layers={[sorted(s) for s in layers]}"
                        R.at(key)
                        f = cls[kind](x, c, tuple(frozenset(s) for s in layers))
                        p = f.to_xzcorrections().to_pattern()
                        R.count(f"every_{kind}")
                        sig = tuple(map(repr, p))
                        if sig in seen:
                            continue
                        seen.add(sig)
                        deterministic(R, key, p, x, proj)


def work_dressed(task, R):
    """Permuted input and output orders, sparse labels, output Cliffords."""
    _, n, kinds, shapes = task
    names = dict(enumerate([8, 2, 5][:n]))
    for edges, i, o in shapes:
        g = mkgraph(n, edges, names)
        nodes = [v for v in range(n) if v not in o]
        for ls in itertools.product(kinds, repeat=len(nodes)):
            ms = {names[v]: pat.meas(c) for v, c in zip(nodes, ls, strict=True)}
            for ip in itertools.permutations([names[v] for v in i]):
                for op in itertools.permutations([names[v] for v in o]):
                    for cl in ({}, {op[0]: Clifford(7)}, {v: Clifford(5 + k) for k, v in enumerate(op)}) if op else ({},):
                        x = OpenGraph(g, ip, op, ms, cl)
                        key = f"E={edges} names={list(names.values())} I={ip} O={op} M={ls} C={ {k: str(v) for k, v in cl.items()} }"
                        R.at(key)
                        for kind, f in flows(x, ls):
                            orders(R, f"{kind} {key}", f.to_xzcorrections(), x, projection(x))


SPARSE = [8, 2, 11, 5, 0, 21, 4, 30]


def work_wires(task, R):
    """Larger graphs: joined wires with sparse labels, every flow the library finds, in its default order."""
    _, lens, cross, ports, part = task
    for num, (n, edges, i, o) in enumerate(og.wires(lens, cross, (ports,))):
        if num % 8 != part:
            continue
        names = dict(enumerate(SPARSE[:n]))
        g = mkgraph(n, edges, names)
        nodes = [v for v in range(n) if v not in o]
        for ls in og.labellings(len(nodes), "XY:0.37", K6[1:] if n < 7 else ["X-", "YZ:0.61"]):
            ms = {names[v]: pat.meas(c) for v, c in zip(nodes, ls, strict=True)}
            x = OpenGraph(g, [names[v] for v in i], [names[v] for v in reversed(o)], ms)
            key = f"E={[(names[a], names[b]) for a, b in edges]} I={x.input_nodes} O={x.output_nodes} M={ms}"
            R.at(key)
            proj = None
            for kind, f in flows(x, ls):
                if proj is None:
                    R.show(key)
                    proj = projection(x)
                R.outcome(kind)
                R.count(f"wires_{kind}")
                deterministic(R, f"{kind} {key}", f.to_xzcorrections().to_pattern(), x, proj)


def work(task, R):
    {"wires": work_wires, "found": work_found, "every": work_every, "dressed": work_dressed}[task[0]](task, R)

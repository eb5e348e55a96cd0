"""F04: conversions between patterns, open graphs, flows and corrections."""

import itertools

import numpy as np
from graphix import Clifford, OpenGraph
from graphix.flow.core import CausalFlow, GFlow, PauliFlow, XZCorrections
from graphix.flow.exceptions import FlowError, XZCorrectionsError
from graphix.optimization import StandardizedPattern

from checks.F01 import mkgraph
from checks.F02 import K6, LABEL, chunk, deterministic, flows, layerings, projection
from checks.F03 import gens
from mc import enums, flowref, og, pat, ref

META = {
    "bounds": {
        "quick": "round trips: every flow found on every open graph up to isomorphism with <=3 nodes (6 measurement kinds, output Cliffords) and 4 nodes (XY, YZ, X, Y), and every flow meeting a definition on <=3 nodes; the flows found on wires of 3+3 and 2+2+2 nodes joined by <=3 edges and 4+3 and 3+2+2 nodes joined by one; "
        "extraction: 3 nodes without outputs (XY, YZ, X, Y), every pair of X/Z correction maps respecting the order 0<1<2 on every labelled 3-node graph with 1-2 outputs, every input set, 6 measurement kinds, and every compatible layering; the same for 2 nodes; "
        "every branch of every deterministic pattern a flow is extracted from",
        "thorough": "4 nodes x 6 kinds round trips, every flow on 4 nodes (XY, YZ, X, Z), extraction on 3 nodes without outputs and on 4 nodes with 2 outputs (XY, Y, Z; <=5 correction edges)",
    },
    "assumptions": ["generic angles represent the angle domain (one per plane)", "extraction of causal and generalised flows reads the X-corrections only, as documented"],
}

CLS = {"causal": CausalFlow, "gflow": GFlow, "pauli": PauliFlow}


def tasks(tier):
    th = tier == "thorough"
    for n in range(4):
        yield from chunk(n, K6, 150, "found")
    for n in range(4):
        yield from chunk(n, K6, 60, "every")
    yield from chunk(4, K6 if th else ["XY:0.37", "YZ:0.61", "X-", "Y+"], 400, "found")
    for n, outs in ((1, []), (1, [0]), (2, []), (2, [1]), (2, [0, 1]), (3, [1, 2])):
        for e in enums.all_graphs(n):
            yield ["extract", n, [list(x) for x in e], outs, K6, None]
    for e in enums.all_graphs(3):
        for i in enums.subsets(range(3)):
            yield ["extract", 3, [list(x) for x in e], [2], K6, [list(i)]]
    for lens, cross in (((3, 3), 3), ((2, 2, 2), 3), ((4, 3), 2), ((3, 2, 2), 2)):
        for ports in ("heads", "some") if sum(lens) < 7 else ("heads",):
            for part in range(8):
                yield ["wires", lens, cross if th or sum(lens) < 7 else cross - 1, ports, part]
    if not th:
        for e in enums.all_graphs(3):
            yield ["extract", 3, [list(x) for x in e], [], ["XY:0.37", "YZ:0.61", "X+", "Y-"], None]
    if th:
        yield from chunk(4, ["XY:0.37", "YZ:0.61", "X+", "Z-"], 80, "every")
        for e in enums.all_graphs(3):
            yield ["extract", 3, [list(x) for x in e], [], K6, None]
        for e in enums.graph_orbits(4):
            for i in ([], [0], [1], [0, 2]):
                yield ["extract", 4, [list(x) for x in e], [2, 3], ["XY:0.37", "Y+", "Z-"], [i]]


def same_og(a, b):
    return (
        set(a.graph.nodes) == set(b.graph.nodes)
        and {frozenset(e) for e in a.graph.edges} == {frozenset(e) for e in b.graph.edges}
        and list(a.input_nodes) == list(b.input_nodes)
        and list(a.output_nodes) == list(b.output_nodes)
        and dict(a.measurements) == dict(b.measurements)
        and {k: v for k, v in a.output_cliffords.items() if v != Clifford.I} == {k: v for k, v in b.output_cliffords.items() if v != Clifford.I}
    )


def clean(m):
    return {u: set(s) for u, s in m.items() if s}


def xz_from(sh, c, kind, layers):
    """Corrections prescribed by a flow: X on c(u), Z on Odd(c(u)), restricted to the future of u."""
    future, fut = 0, {}
    for lay in layers:
        for u in lay:
            fut[u] = future
        future |= flowref.mask(lay)
    xs = {u: set(flowref.bits(flowref.mask(p) & fut[u])) for u, p in c.items()}
    zs = {u: set(flowref.bits(sh.odd[flowref.mask(p)] & fut[u])) for u, p in c.items()}
    return clean(xs), clean(zs)


def conj(cl, kind):
    """Image of X or Z under the Clifford, as sets: (has X part, has Z part)."""
    m = np.asarray(cl.matrix)
    p = ref.X if kind == "X" else ref.Z
    q = m @ p @ m.conj().T
    return abs(np.trace(q @ ref.Z)) < 1e-6, abs(np.trace(q @ ref.X)) < 1e-6


def check_extracted(R, key, kind, g, sh, lab, x, layers=None):
    """A flow returned by an extraction is a flow in the sense of the definition, on the right open graph."""
    if type(g) is not CLS[kind] or not same_og(g.og, x):
        R.bad(f"{kind} open graph {key}", f"{type(g).__name__} {g.og}")
        return False
    c = {u: set(p) for u, p in g.correction_function.items()}
    if layers is not None and [set(s) for s in g.partial_order_layers] != [set(s) for s in layers]:
        R.bad(f"{kind} layers {key}", f"{g.partial_order_layers} instead of {layers}")
        return False
    if not flowref.flow_ok(kind, sh, lab, c, g.partial_order_layers):
        R.bad(f"{kind} ill-formed {key}", f"extracted flow {c} {g.partial_order_layers} violates the definition")
        return False
    return True


def roundtrip(R, key, kind, f, x, sh, lab):
    """flow -> corrections -> pattern -> everything back."""
    R.state()
    c = {u: set(p) for u, p in f.correction_function.items()}
    layers = [set(s) for s in f.partial_order_layers]
    want = xz_from(sh, c, kind, layers)
    xz = f.to_xzcorrections()
    R.trans()
    if (clean(xz.x_corrections), clean(xz.z_corrections)) != want or [set(s) for s in xz.partial_order_layers] != layers or not same_og(xz.og, f.og):
        R.bad(f"{kind} corrections {key}", f"x={dict(xz.x_corrections)} z={dict(xz.z_corrections)}, the flow prescribes {want}")
        return
    p = xz.to_pattern()
    read = p.to_opengraph()
    sp = StandardizedPattern.from_pattern(p)
    if not same_og(read, f.og) or not same_og(sp.to_opengraph(), f.og):
        R.bad(f"{kind} opengraph {key}", f"read back {read}")
    if x.output_cliffords:
        # corrections commute through the Cliffords of the outputs
        wx, wz = ({u: set(s) for u, s in w.items()} for w in want)
        ex, ez = {}, {}
        for src, what in ((wx, "X"), (wz, "Z")):
            for u, s in src.items():
                for v in s:
                    px, pz = conj(x.output_cliffords[v], what) if v in x.output_cliffords else (what == "X", what == "Z")
                    if px:
                        ex.setdefault(u, set()).symmetric_difference_update({v})
                    if pz:
                        ez.setdefault(u, set()).symmetric_difference_update({v})
        alt = (clean(ex), clean(ez))
    else:
        alt = want
    for r, nm in ((p.to_xzcorrections(), "pattern"), (sp.to_xzcorrections(), "standardized")):
        if (clean(r.x_corrections), clean(r.z_corrections)) not in (want, alt):
            R.bad(f"{kind} read corrections {key}", f"{nm}: x={dict(r.x_corrections)} z={dict(r.z_corrections)}, pattern was made from {want}")
            return
        exp = gens(sh, clean(r.x_corrections), clean(r.z_corrections))
        for lay in (r.partial_order_layers, p.partial_order_layers(), sp.partial_order_layers()):
            if list(lay) != exp:
                R.bad(f"{kind} read layers {key}", f"{nm}: {lay}, expected {exp}")
    R.trace()
    if x.output_cliffords:
        return
    planar = f.og
    if kind == "causal":
        back = [("causal", p.to_causalflow(), None), ("causal", xz.to_causalflow(), layers), ("gflow", p.to_gflow(), None), ("gflow", xz.to_gflow(), layers)]
    elif kind == "gflow":
        back = [("gflow", p.to_gflow(), None), ("gflow", xz.to_gflow(), layers)]
    else:
        back = []
    for k2, g, lays in back:
        if check_extracted(R, key, k2, g, sh, lab, planar, lays) and {u: set(s) for u, s in g.correction_function.items()} != c:
            R.bad(f"{kind}->{k2} {key}", f"extracted {g.correction_function} from a pattern made with {c}")
    if kind == "pauli":
        g = xz.to_pauliflow()
        if check_extracted(R, key, "pauli", g, sh, lab, x, layers):
            if xz_from(sh, {u: set(s) for u, s in g.correction_function.items()}, "pauli", layers) != want:
                R.bad(f"pauli->pauli {key}", f"extracted flow {g.correction_function} prescribes other corrections than {want}")


def work_found(task, R):
    _, n, kinds, shapes = task
    for edges, i, o in shapes:
        sh = flowref.Shape(n, edges, i, o)
        for ls in itertools.product(kinds, repeat=len(sh.measured)):
            ms = {v: pat.meas(c) for v, c in zip(sh.measured, ls, strict=True)}
            lab = {v: LABEL(c) for v, c in zip(sh.measured, ls, strict=True)}
            cls = [{}]
            if o and n <= 3:
                cls += [{o[0]: Clifford(6)}, {v: Clifford(13 + 4 * k) for k, v in enumerate(o)}]
            for cl in cls:
                x = OpenGraph(mkgraph(n, edges), i, list(reversed(o)), ms, cl)
                key = f"n={n} E={[tuple(e) for e in edges]} I={i} O={o} M={ls} C={ {k: c.name if hasattr(c, 'name') else str(c) for k, c in cl.items()} }"
                R.at(key)
                R.show(key)
                for kind, f in flows(x, ls):
                    lb = {v: f.og.measurements[v].to_plane().name for v in sh.measured} if kind != "pauli" else lab
                    R.outcome(kind)
                    roundtrip(R, f"{kind} {key}", kind, f, x, sh, lb)


def work_wires(task, R):
    """Larger graphs: joined wires, every flow the library finds."""
    _, lens, cross, ports, part = task
    for num, (n, edges, i, o) in enumerate(og.wires(lens, cross, (ports,))):
        if num % 8 != part:
            continue
        sh = flowref.Shape(n, edges, i, o)
        for ls in og.labellings(len(sh.measured), "XY:0.37", K6[1:] if n < 7 else ["X-", "YZ:0.61"], ["Y+"] if n < 7 else []):
            lab = {v: LABEL(c) for v, c in zip(sh.measured, ls, strict=True)}
            x = OpenGraph(mkgraph(n, edges), i, list(reversed(o)), {v: pat.meas(c) for v, c in zip(sh.measured, ls, strict=True)})
            key = f"n={n} E={[tuple(e) for e in edges]} I={i} O={o} M={ls}"
            R.at(key)
            for kind, f in flows(x, ls):
                lb = {v: f.og.measurements[v].to_plane().name for v in sh.measured} if kind != "pauli" else lab
                R.outcome(kind)
                R.count(f"wires_{kind}")
                roundtrip(R, f"{kind} {key}", kind, f, x, sh, lb)


def work_every(task, R):
    _, n, kinds, shapes = task
    for edges, i, o in shapes:
        sh = flowref.Shape(n, edges, i, o)
        for ls in itertools.product(kinds, repeat=len(sh.measured)):
            lab = {v: LABEL(c) for v, c in zip(sh.measured, ls, strict=True)}
            planar = all(":" in c for c in ls)
            if flowref.exists("pauli", sh, lab) is None:
                continue
            x = OpenGraph(mkgraph(n, edges), i, o, {v: pat.meas(c) for v, c in zip(sh.measured, ls, strict=True)})
            for lay in layerings(sh.measured):
                layers = tuple(frozenset(s) for s in ([set(o)] if o else []) + lay)
                fut, acc = {}, 0
                for s in layers:
                    for u in s:
                        fut[u] = acc
                    acc |= flowref.mask(s)
                for kind in ("causal", "gflow", "pauli") if planar else ("pauli",):
                    ok = flowref.OK[kind]
                    cand = [[p for p in sh.sets if ok(sh, lab, u, p, fut[u])] for u in sh.measured]
                    for ps in itertools.product(*cand):
                        c = {u: frozenset(flowref.bits(p)) for u, p in zip(sh.measured, ps, strict=True)}
                        key = f"n={n} E={[tuple(e) for e in edges]} I={i} O={o} M={ls} c={ {u: sorted(s) for u, s in c.items()} } layers={[sorted(s) for s in layers]}"
                        R.at(key)
                        roundtrip(R, f"{kind} {key}", kind, CLS[kind](x, c, layers), x, sh, lab)


def work_extract(task, R):
    """Arbitrary corrections respecting the order 0 < 1 < ...: extraction is exact."""
    _, n, edges, outs, kinds, ins = task
    meas = [v for v in range(n) if v not in outs]
    pairs = [(u, v) for u in meas for v in range(u + 1, n) if v in outs or v in meas]
    if outs:
        pairs = [(u, v) for u in meas for v in range(n) if v in outs or v > u]
    g = mkgraph(n, edges)
    combos = list(itertools.product([0, 1, 2, 3], repeat=len(pairs)))
    if n == 4:
        combos = [c for c in combos if sum((0, 1, 1, 2)[t] for t in c) <= 5]
    for i in ins if ins is not None else map(list, enums.subsets(range(n))):
        sh = flowref.Shape(n, edges, i, outs)
        for ls in itertools.product(kinds, repeat=len(meas)):
            lab = {v: LABEL(c) for v, c in zip(meas, ls, strict=True)}
            x = OpenGraph(g, i, outs, {v: pat.meas(c) for v, c in zip(meas, ls, strict=True)})
            planar = all(":" in c for c in ls)
            if not planar and n >= 3 and flowref.exists("pauli", sh, lab) is None:
                continue
            if planar and n >= 3 and flowref.exists("gflow", sh, lab) is None and len(pairs) > 3:
                continue
            proj = None
            for combo in combos:
                xs, zs = {}, {}
                for (u, v), t in zip(pairs, combo, strict=True):
                    if t & 1:
                        xs.setdefault(u, set()).add(v)
                    if t & 2:
                        zs.setdefault(u, set()).add(v)
                key = f"n={n} E={[tuple(e) for e in edges]} I={i} O={outs} M={ls} x={xs} z={zs}"
                R.at(key)
                R.state()
                r = XZCorrections.from_measured_nodes_mapping(x, {u: frozenset(s) for u, s in xs.items()}, {u: frozenset(s) for u, s in zs.items()})
                exp = gens(sh, xs, zs)
                p = r.to_pattern()
                r2 = p.to_xzcorrections()
                if (clean(r2.x_corrections), clean(r2.z_corrections)) != (xs, zs) or list(r2.partial_order_layers) != exp or not same_og(r2.og, x):
                    R.bad(f"read back {key}", f"x={dict(r2.x_corrections)} z={dict(r2.z_corrections)} layers={r2.partial_order_layers} og={r2.og}")
                    continue
                det = None
                for src, layers in [(p, exp), *((XZCorrections(x, r.x_corrections, r.z_corrections, ly), ly) for ly in finer(sh, xs, zs, outs))]:
                    R.trans()
                    for kind in ("causal", "gflow", "pauli") if planar else ("pauli",):
                        try:
                            f = getattr(src, f"to_{kind}flow" if kind != "gflow" else "to_gflow")()
                        except (FlowError, XZCorrectionsError):
                            f = None
                        want = expected(sh, lab, kind, xs, zs, layers)
                        R.count(f"extract_{kind}_{'ok' if want else 'none'}")
                        if (f is not None) != want:
                            R.bad(f"{kind} {'missed' if want else 'invented'} {key} {layers}", f"extraction {'refused' if want else f'returned {f.correction_function}'}")
                            continue
                        if f is None or not check_extracted(R, key, kind, f, sh, lab, x, layers):
                            continue
                        got = xz_from(sh, {u: set(s) for u, s in f.correction_function.items()}, kind, layers)
                        if kind == "pauli" and got != (xs, zs):
                            R.bad(f"pauli corrections {key}", f"extracted flow prescribes {got}")
                        elif kind != "pauli" and got[0] != xs:
                            R.bad(f"{kind} corrections {key}", f"extracted flow prescribes {got}")
                        R.trace()
                        if det is None and src is p:
                            rows = ref.run_pattern(p).kraus(p.output_nodes)
                            det = ref.all_rows_equal(rows)
                            if det:
                                if proj is None:
                                    proj = projection(x)
                                R.count("deterministic")
                        if det and src is p:
                            deterministic(R, f"{kind} again {key}", f.to_xzcorrections().to_pattern(), x, proj)
                            if not ref.same_ray(rows[0], proj):
                                R.bad(f"branch {key}", "the deterministic pattern does not implement the positive projection")


def finer(sh, xs, zs, outs):
    """All layerings respecting the corrections."""
    for lay in layerings(sh.measured):
        layers = tuple(frozenset(s) for s in ([set(outs)] if outs else []) + lay)
        rk = {v: k for k, s in enumerate(layers) for v in s}
        if all(rk[v] < rk[u] for m in (xs, zs) for u, s in m.items() for v in s):
            yield layers


def expected(sh, lab, kind, xs, zs, layers):
    """Is there a flow of this kind with these layers whose corrections are these? (X-corrections only, unless Pauli)."""
    future, fut = 0, {}
    for s in layers:
        for u in s:
            fut[u] = future
        future |= flowref.mask(s)
    if kind == "pauli":
        return all(
            any(
                p & fut[u] == flowref.mask(xs.get(u, ())) and sh.odd[p] & fut[u] == flowref.mask(zs.get(u, ())) and flowref.pauli_ok(sh, lab, u, p, fut[u])
                for p in sh.sets
            )
            for u in sh.measured
        )
    c = {}
    for u in sh.measured:
        c[u] = set(xs.get(u, ()))
        if kind == "gflow" and lab[u] in ("XZ", "YZ"):
            c[u].add(u)
    return flowref.flow_ok(kind, sh, lab, c, layers)


def work(task, R):
    {"found": work_found, "wires": work_wires, "every": work_every, "extract": work_extract}[task[0]](task, R)

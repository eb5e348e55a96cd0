"""F03: well-formedness checks of flows and corrections."""

import contextlib
import io
import itertools

from graphix import OpenGraph
from graphix.flow.core import CausalFlow, GFlow, PauliFlow, XZCorrections
from graphix.flow.exceptions import FlowError, XZCorrectionsError

from checks.F01 import LAB, SIX, mkgraph
from checks.F02 import layerings
from mc import enums, flowref, og, pat

META = {
    "bounds": {
        "quick": "flows: every correction function (sets of nodes, inputs and an unknown node included, missing and extra keys) x every sequence of <=3 layers over the nodes (empty, repeated, unknown included) for open graphs with <=2 nodes "
        "and six labels; every correction function x every layering x labels {XY,Y,YZ} (3 nodes) or {XY,XZ,X,Z} (one or two outputs), x {XY,Y} (4 nodes, 2-3 outputs); corrections: every pair of X and Z maps with <=1 edge of each "
        "type per node (3 nodes) and every layer sequence, all maps for 2 nodes; every sequence of <=n+1 nodes as measurement order",
        "thorough": "3 nodes with six labels, 4 nodes x {XY,Y,X,YZ} with >=2 outputs, 3-node corrections with all pairs of maps",
    },
    "assumptions": ["definitions of the flows as in mc/flowref.py (P3 as in the cited papers, the docstring has a typo)"],
}

CLS = {"causal": CausalFlow, "gflow": GFlow, "pauli": PauliFlow}


def tasks(tier):
    th = tier == "thorough"
    for n in range(3):
        for k in range(1 if n < 2 else 8):
            yield ["malformed", n, k, 8]
    yield from _shapes("flows", 3, ["XY", "Y", "YZ"], 3, 0)
    yield from _shapes("flows", 3, SIX if th else ["XY", "XZ", "X", "Z"], 3, 0 if th else 1)
    yield from _shapes("flows", 4, ["XY", "Y", "X", "YZ"] if th else ["XY", "Y"], 4, 2)
    for n in range(3):
        yield from _shapes("xz", n, [], 40, 0)
    yield from _shapes("xz", 3, ["full"] if th else [], 4, 0)
    for n in range(4):
        yield from _shapes("orders", n, [], 20, 0)


def _shapes(what, n, labels, per, min_out):
    acc = []
    for s in _all(n, min_out):
        acc.append(s)
        if len(acc) >= per:
            yield [what, n, labels, acc]
            acc = []
    if acc:
        yield [what, n, labels, acc]


def _all(n, min_out):
    """Shapes up to isomorphism; also with more inputs than outputs for n <= 3."""
    if n > 3:
        yield from og.shapes(n, min_out=min_out)
        return
    for edges in enums.graph_orbits(n):
        auts = list(enums.automorphisms(n, edges))
        seen = set()
        for o in enums.subsets(range(n)):
            if len(o) < min_out:
                continue
            for i in enums.subsets(range(n)):
                key = min((tuple(sorted(pi[x] for x in i)), tuple(sorted(pi[x] for x in o))) for pi in auts)
                if key not in seen:
                    seen.add(key)
                    yield [list(e) for e in edges], list(i), list(o)


def verdict(R, key, obj, err=FlowError):
    """(accepted, error) of check_well_formed; anything but a flow error is a violation by itself."""
    try:
        obj.check_well_formed()
    except err as e:
        str(e)
        return False
    except Exception as e:  # noqa: BLE001
        R.bad(f"wrong error {key}", f"{type(e).__name__} instead of a flow error: {e}")
        return None
    return True


def one_flow(R, key, kind, x, sh, lab, c, layers):
    R.state()
    f = CLS[kind](x, c, layers)
    got = verdict(R, f"{kind} {key}", f)
    if got is None:
        return False
    want = flowref.flow_ok(kind, sh, lab, c, layers)
    R.count(f"{kind}_{'ok' if want else 'ill'}")
    if got != want:
        R.bad(f"{kind} {key}", f"{kind} flow c={c} layers={layers}: check {'accepts' if got else 'rejects'}, the definition {'accepts' if want else 'rejects'}")
    if f.is_well_formed() != got:
        R.bad(f"{kind} is_well_formed {key}", "is_well_formed disagrees with check_well_formed")
    R.trans()
    if want and got:
        focused = flowref.focused(sh, lab, c)
        R.count("focused" if focused else "unfocused")
        if f.is_focused() != focused:
            R.bad(f"{kind} is_focused {key}", f"flow c={c} is called {'un' if focused else ''}focused")
    return want and got


def runnable(R, key, f, names=None):
    """Patterns of accepted flows run."""
    p = f.to_xzcorrections().to_pattern()
    p.check_runnability()
    R.trace()


def work_malformed(task, R):
    _, n, part, parts = task
    nodes = list(range(n))
    uni = [*nodes, 9]
    subs = [frozenset(s) for s in enums.subsets(uni)]
    seqs = [list(s) for k in range(4) for s in itertools.product(subs, repeat=k)]
    for num, (edges, i, o) in enumerate(_all(n, 0)):
        if n == 2 and num % parts != part:
            continue
        sh = flowref.Shape(n, edges, i, o)
        g = mkgraph(n, edges)
        for ls in itertools.product(SIX, repeat=len(sh.measured)):
            lab = dict(zip(sh.measured, ls, strict=True))
            x = OpenGraph(g, i, o, {v: LAB[m] for v, m in lab.items()})
            base = f"n={n} E={edges} I={i} O={o} M={lab}"
            kinds = ["causal", "gflow", "pauli"] if all(m in flowref.PLANES for m in ls) else ["pauli"]
            R.at(base)
            valid = [([set(o)] if o else []) + lay for lay in layerings(sh.measured)]
            dom = [frozenset(d) for d in enums.subsets(uni)]
            # every correction function with a valid layering ...
            for d in dom:
                for ps in itertools.product(subs if len(d) <= 2 else subs[:2], repeat=len(d)):
                    c = dict(zip(sorted(d), ps, strict=True))
                    for layers in valid:
                        for kind in kinds:
                            one_flow(R, f"{base} c={c} layers={layers}", kind, x, sh, lab, c, layers)
            # ... and every sequence of layers with the correction functions that are valid for some layering
            for kind in kinds:
                good = []
                for ps in itertools.product([s for s in subs if 9 not in s], repeat=len(sh.measured)):
                    c = dict(zip(sh.measured, ps, strict=True))
                    if any(flowref.flow_ok(kind, sh, lab, c, lay) for lay in valid):
                        good.append(c)
                for c in good[:6]:
                    for layers in seqs:
                        one_flow(R, f"{base} c={c} layers={layers}", kind, x, sh, lab, c, tuple(layers))


CODE = {"XY": "XY:0.37", "XZ": "XZ:0.22", "YZ": "YZ:0.61", "X": "X-", "Y": "Y+", "Z": "Z-"}


def work_flows(task, R):
    _, n, labels, shapes = task
    subs = [frozenset(s) for s in enums.subsets(range(n))]
    for edges, i, o in shapes:
        sh = flowref.Shape(n, edges, i, o)
        g = mkgraph(n, edges)
        valid = [tuple(frozenset(s) for s in ([set(o)] if o else []) + lay) for lay in layerings(sh.measured)]
        for ls in itertools.product(labels, repeat=len(sh.measured)):
            lab = dict(zip(sh.measured, ls, strict=True))
            x = OpenGraph(g, i, o, {v: pat.meas(CODE[m]) for v, m in lab.items()})
            base = f"n={n} E={[tuple(e) for e in edges]} I={i} O={o} M={lab}"
            R.at(base)
            R.show(base)
            planar = all(m in flowref.PLANES for m in ls)
            for layers in valid:
                for ps in itertools.product(subs, repeat=len(sh.measured)):
                    c = dict(zip(sh.measured, ps, strict=True))
                    for kind in ("causal", "gflow", "pauli") if planar else ("pauli",):
                        key = f"{base} c={ {u: sorted(s) for u, s in c.items()} } layers={[sorted(s) for s in layers]}"
                        if one_flow(R, key, kind, x, sh, lab, c, layers):
                            runnable(R, key, CLS[kind](x, c, layers))


def xz_ok(sh, xc, zc, layers):
    """Definition of well-formed corrections (without the unknown-layer cases of the empty graph)."""
    if not set(xc) | set(zc) <= set(sh.measured):
        return False
    if any(v < 0 or v >= sh.n for m in (xc, zc) for s in m.values() for v in s):
        return False
    if not flowref.layering_ok(sh, layers):
        return False
    rk = {v: k for k, lay in enumerate(layers) for v in lay}
    return all(rk[v] < rk[u] for m in (xc, zc) for u, s in m.items() for v in s)


def gens(sh, xc, zc):
    """Expected layers of from_measured_nodes_mapping: longest chain of corrections ending in the node; None for a cycle."""
    meas = set(sh.measured)
    edges = {(u, v) for m in (xc, zc) for u, s in m.items() for v in s if v in meas}
    rk = {v: 0 for v in meas}
    for _ in range(len(meas) + 1):
        for u, v in edges:
            rk[v] = max(rk[v], rk[u] + 1)
    if any(rk[v] < rk[u] + 1 for u, v in edges):
        return None
    top = max(rk.values(), default=-1)
    lay = [frozenset(v for v in meas if rk[v] == top - k) for k in range(top + 1)]
    return ([frozenset(flowref.bits(sh.o))] if sh.o else []) + lay


def xz_maps(n, full, uni):
    """Correction maps: everything for two nodes, otherwise <=1 target per node unless ``full``."""
    if n <= 2:
        opts = [None, *(frozenset(s) for s in enums.subsets(uni))]
        keys = uni
    else:
        opts = [None, *(frozenset(s) for s in enums.subsets(range(n)) if full or len(s) == 1)]
        keys = range(n)
    for vs in itertools.product(opts, repeat=len(keys)):
        yield {k: v for k, v in zip(keys, vs, strict=True) if v is not None}


def work_xz(task, R):
    _, n, opts, shapes = task
    full = bool(opts)
    uni = [*range(n), 9] if n <= 2 else list(range(n))
    all_maps = list(xz_maps(n, full, uni))
    if n == 2:
        all_maps = [m for m in all_maps if len(m) <= 2]
    for edges, i, o in shapes:
        if n == 3 and (i or edges) and not full and len(i) > 1:
            continue
        sh = flowref.Shape(n, edges, i, o)
        g = mkgraph(n, edges)
        x = OpenGraph(g, i, o, {v: pat.meas("XY:0.37") for v in sh.measured})
        base = f"n={n} E={edges} I={i} O={o}"
        valid = [tuple(frozenset(s) for s in ([set(o)] if o else []) + lay) for lay in layerings(sh.measured)]
        maps = all_maps if n < 3 else [m for m in all_maps if set(m) <= set(sh.measured)]
        if n == 3 and full:
            zmaps = [m for m in maps if all(len(s) <= 1 for s in m.values())]
        else:
            zmaps = maps
        if n == 2:
            zmaps = [m for m in maps if sum(map(len, m.values())) <= 2]
        for xc in maps:
            for zc in zmaps:
                key = f"{base} x={xc} z={zc}"
                R.at(key)
                R.state()
                ok_keys = set(xc) | set(zc) <= set(sh.measured)
                ok_vals = all(0 <= v < n for m in (xc, zc) for s in m.values() for v in s)
                want = gens(sh, xc, zc) if ok_keys and ok_vals else None
                try:
                    r = XZCorrections.from_measured_nodes_mapping(x, xc, zc)
                except XZCorrectionsError:
                    r = None
                R.trans()
                if (r is None) != (want is None):
                    R.bad(f"from_mapping {key}", f"corrections {'refused' if r is None else 'accepted'}, layers should be {want}")
                elif r is not None:
                    if list(r.partial_order_layers) != want:
                        R.bad(f"layers {key}", f"layers {r.partial_order_layers}, expected {want}")
                    else:
                        if verdict(R, key, r, XZCorrectionsError) is not True:
                            R.bad(f"own {key}", "computed layers are called ill-formed")
                        od = list(r.generate_total_measurement_order())
                        rk = {v: k for k, lay in enumerate(want) for v in lay}
                        if sorted(od) != sh.measured or any(rk[a] < rk[b] for a, b in itertools.pairwise(od)):
                            R.bad(f"order {key}", f"generated order {od} for {want}")
                        if set(r.to_dag().edges) != {(u, v) for m in (xc, zc) for u, s in m.items() for v in s}:
                            R.bad(f"dag {key}", f"{r.to_dag().edges}")
                        p = r.to_pattern()
                        p.check_runnability()
                        R.trace()
                        body = pat_corr(p)
                        if body != ({u: set(s) for u, s in xc.items() if s}, {u: set(s) for u, s in zc.items() if s}):
                            R.bad(f"pattern {key}", f"pattern corrections {body}")
                lays = valid if n == 3 else [*valid, *LAYERS(n)]
                if n == 3 and not full and len(xc) + len(zc) > 2:
                    lays = lays[:3]
                if n == 2 and (sum(map(len, xc.values())) + sum(map(len, zc.values())) > 2 or 9 in xc or 9 in zc):
                    lays = valid
                for layers in lays:
                    got = verdict(R, f"xz {key} {layers}", XZCorrections(x, xc, zc, layers), XZCorrectionsError)
                    if got is None:
                        continue
                    R.state()
                    want = xz_ok(sh, xc, zc, layers)
                    R.count("xz_ok" if want else "xz_ill")
                    if got != want:
                        R.bad(f"xz {key} layers={layers}", f"check {'accepts' if got else 'rejects'} x={xc} z={zc} layers={layers}")
                    elif want:
                        XZCorrections(x, xc, zc, layers).to_pattern().check_runnability()
                        R.trace()


def LAYERS(n):
    subs = [frozenset(s) for s in enums.subsets([*range(n), 9])]
    for k in range(3 if n == 2 else 4):
        yield from itertools.product(subs, repeat=k)


def pat_corr(p):
    xs, zs = {}, {}
    for c in p:
        if c.kind.name in ("X", "Z"):
            (d,) = c.domain
            (xs if c.kind.name == "X" else zs).setdefault(d, set()).add(c.node)
    return xs, zs


def work_orders(task, R):
    """Every sequence of nodes (too short, too long, repeated, unknown) against every layering."""
    _, n, _, shapes = task
    for edges, i, o in shapes:
        if n == 3 and len(edges) not in (1, 3):
            continue
        sh = flowref.Shape(n, edges, i, o)
        x = OpenGraph(mkgraph(n, edges), i, o, {v: pat.meas("XY:0.37") for v in sh.measured})
        for lay in layerings(sh.measured):
            layers = tuple(frozenset(s) for s in ([set(o)] if o else []) + lay)
            r = XZCorrections(x, {}, {}, layers)
            rk = {v: k for k, s in enumerate(layers) for v in s}
            for k in range(n + 2):
                for od in itertools.product([*range(n), 9], repeat=k):
                    key = f"n={n} O={o} layers={layers} order={od}"
                    R.at(key)
                    R.state()
                    want = sorted(od) == sh.measured and all(rk[a] >= rk[b] for a, b in itertools.pairwise(od))
                    got = r.is_compatible(od)
                    R.trans()
                    if got != want:
                        R.bad(f"compatible {key}", f"is_compatible says {got}")
                        continue
                    if sorted(set(od)) == sh.measured:
                        try:
                            p = r.to_pattern(od)
                        except XZCorrectionsError:
                            p = None
                        if (p is not None) != want:
                            R.bad(f"to_pattern {key}", f"order {'refused' if want else 'accepted'}")
                        elif want:
                            R.trace()
                            if [c.node for c in p if c.kind.name == "M"] != list(od):
                                R.bad(f"to_pattern {key}", "measured in another order")


def work(task, R):
    with contextlib.redirect_stdout(io.StringIO()):
        {"malformed": work_malformed, "flows": work_flows, "xz": work_xz, "orders": work_orders}[task[0]](task, R)

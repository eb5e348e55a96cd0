"""P05: composition and reindexing of patterns."""

import itertools

import numpy as np
from graphix.pattern import Pattern, PatternError

from mc import pat

META = {
    "bounds": {
        "quick": "all ordered pairs of 10 small patterns (0-2 inputs, 0-2 outputs, 0-4 nodes, permuted outputs, input-output nodes, Cliffords, overlapping labels) x every partial mapping of the "
        "second pattern's nodes into the first one's nodes and two fresh labels x both orderings; every branch, every input; reindexing by every injective map of 3 nodes into 5 labels; "
        "node_mapping for every start<=3, avoids, preserves and initial mapping over 4 labels",
        "thorough": "12 patterns, four fresh labels",
    },
    "assumptions": ["generic angle 0.37 pi represents the angle domain"],
}

A = "XY:0.37"
LIB = [
    ([], [], None),
    ([0], [], None),
    ([0], [["N", 1], ["E", 0, 1], ["M", 0, A, [], []], ["X", 1, [0]]], None),
    ([1, 0], [["E", 0, 1], ["C", 0, 7]], [0, 1]),
    ([], [["N", 2], ["N", 0], ["E", 0, 2], ["Z", 0, []]], [0, 2]),
    ([3, 1], [["N", 0], ["E", 3, 0], ["E", 1, 0], ["M", 3, "YZ:0.6", [], []], ["Z", 1, [3]], ["X", 0, [3]]], [1, 0]),
    ([0, 1], [["N", 2], ["E", 0, 2], ["E", 1, 2], ["M", 1, A, [], []], ["M", 0, "XZ:0.2", [1], [1]], ["X", 2, [0]]], None),
    ([4], [["N", 2], ["N", 0], ["E", 4, 2], ["E", 2, 0], ["M", 4, A, [], []], ["X", 2, [4]], ["Z", 0, [4]]], [0, 2]),
    ([0], [["M", 0, "XZ:0.37", [], []]], None),
    ([2, 0], [["N", 5], ["E", 0, 5], ["M", 0, A, [], []], ["X", 5, [0]], ["C", 2, 9]], [5, 2]),
    ([], [["N", 1], ["M", 1, "YZ:0.37", [], []], ["N", 3], ["X", 3, [1]]], None),
    ([1, 2, 0], [["E", 0, 1], ["E", 1, 2], ["Z", 0, []], ["C", 2, 14]], [2, 0, 1]),
]


def tasks(tier):
    k = 10 if tier == "quick" else 12
    for i, j in itertools.product(range(k), repeat=2):
        yield ["compose", i, j, 2 if tier == "quick" else 4]
    for i in range(len(LIB)):
        yield ["reindex", i]
    for i in (4, 5, 7):
        yield ["node_mapping", i]


def mk(i):
    inputs, seq, outs = LIB[i]
    return pat.build(inputs, seq, outs)


def tensor(m):
    """Kraus tensors (B, out..., in...) of a Meaning."""
    no, ni = len(m.p.output_nodes), len(m.p.input_nodes)
    return m.table.reshape((-1,) + (2,) * (no + ni))


def expected(m1, m2, f, inputs, outputs):
    """Table of the composition along the relabelling f of the second pattern (by contraction of the two maps)."""
    t1, t2 = tensor(m1), tensor(m2)
    o1, i1 = list(m1.p.output_nodes), list(m1.p.input_nodes)
    o2, i2 = [f[v] for v in m2.p.output_nodes], [f[v] for v in m2.p.input_nodes]
    merged = [v for v in o1 if v in i2]
    sym = itertools.count(2)
    so1, si1 = {v: next(sym) for v in o1}, {v: next(sym) for v in i1}
    so2 = {v: next(sym) for v in o2}
    si2 = {v: (so1[v] if v in merged else next(sym)) for v in i2}
    out = {**{v: so1[v] for v in o1 if v not in merged}, **so2}
    inn = {**si1, **{v: si2[v] for v in i2 if v not in merged}}
    if set(out) != set(outputs) or set(inn) != set(inputs):
        return None
    res = np.einsum(
        t1, [0, *(so1[v] for v in o1), *(si1[v] for v in i1)],
        t2, [1, *(so2[v] for v in o2), *(si2[v] for v in i2)],
        [0, 1, *(out[v] for v in outputs), *(inn[v] for v in inputs)],
    )
    b1, b2 = t1.shape[0], t2.shape[0]
    res = res.reshape(b1 * b2, -1)
    # branches indexed by sorted labels of the composition
    l1, l2 = list(m1.labels), [f[v] for v in m2.labels]
    labels = l1 + l2
    if len(set(labels)) != len(labels):
        return None
    order = sorted(labels)
    n = len(labels)
    perm = np.zeros(2**n, dtype=int)
    for k in range(2**n):
        bits = {lab: (k >> (n - 1 - i)) & 1 for i, lab in enumerate(labels)}
        v = 0
        for lab in order:
            v = 2 * v + bits[lab]
        perm[v] = k
    return order, res[perm]


def legal(p1, p2, mapping):
    n1, n2 = p1.nodes(), p2.nodes()
    o1, i2 = set(p1.output_nodes), set(p2.input_nodes)
    if not set(mapping) <= n2 or len(set(mapping.values())) != len(mapping):
        return False
    for k, v in mapping.items():
        if v in n1 and v not in o1:
            return False
        if v in o1 and k not in i2:
            return False
    return True


def work_compose(task, R):
    _, i, j, nf = task
    p1, p2 = mk(i), mk(j)
    m1, m2 = pat.Meaning(p1), pat.Meaning(p2)
    s1, s2 = pat.snapshot(p1), pat.snapshot(p2)
    n1, n2 = sorted(p1.nodes()), sorted(p2.nodes())
    vals = [None, *n1, *[90, 6, 91, 7][:nf]]
    seen = set()
    for vs in itertools.product(vals, repeat=len(n2)):
        mapping = {k: v for k, v in zip(n2, vs, strict=True) if v is not None}
        key0 = f"P{i} then P{j} mapping {mapping}"
        R.at(key0)
        R.show(key0)
        for preserve in (False, True):
            key = f"{key0} preserve={preserve}"
            R.state()
            R.trans()
            try:
                q, full = p1.compose(p2, dict(mapping), preserve_mapping=preserve)
            except PatternError as e:
                if legal(p1, p2, mapping):
                    R.bad(f"refused {key}", f"legal composition refused: {e}")
                else:
                    R.count("illegal_refused")
                continue
            if not legal(p1, p2, mapping):
                R.bad(f"accepted {key}", "illegal mapping accepted")
                continue
            if set(full) != set(n2) or any(full[k] != v for k, v in mapping.items()) or len(set(full.values())) != len(full):
                R.bad(f"mapping {key}", f"returned mapping {full} is not a complete injective extension")
                continue
            fresh = [full[k] for k in n2 if k not in mapping]
            if set(fresh) & (set(n1) | set(mapping.values())) or fresh != sorted(fresh):
                R.bad(f"fresh {key}", f"returned mapping {full} clashes with nodes in use or is not ascending")
                continue
            f = full
            i2, o2 = [f[v] for v in p2.input_nodes], [f[v] for v in p2.output_nodes]
            merged = [v for v in p1.output_nodes if v in i2]
            ins = [*p1.input_nodes, *(v for v in i2 if v not in merged)]
            if preserve and len(merged) == len(i2) == len(o2):
                nxt = dict(zip(i2, o2, strict=True))
                outs = [nxt[v] if v in merged else v for v in p1.output_nodes]
            else:
                outs = [*(v for v in p1.output_nodes if v not in merged), *o2]
            if list(q.input_nodes) != ins or list(q.output_nodes) != outs:
                R.bad(f"io {key}", f"inputs/outputs {pat.pat_io(q)}, documented {ins} {outs}")
                continue
            if q.n_node != len(q.nodes()) or q.nodes() != set(n1) | set(f.values()):
                R.bad(f"nodes {key}", f"nodes {q.nodes()} n_node {q.n_node}")
            q.check_runnability()
            exp = expected(m1, m2, f, ins, outs)
            sig = (tuple(ins), tuple(outs), tuple(repr(c) for c in q))
            if sig in seen:
                continue
            seen.add(sig)
            mq = pat.Meaning(q)
            R.trace()
            if exp is None or mq.labels != exp[0] or not pat.rows_same_rays(mq.table, exp[1]):
                R.bad(f"map {key}", f"the composed pattern is not the composition of the maps: {list(q)}")
            R.outcome((len(merged), len(ins), len(outs)))
    if pat.snapshot(p1) != s1 or pat.snapshot(p2) != s2:
        R.bad(f"mutated {i} {j}", "composition changed an operand")


def work_reindex(task, R):
    i = task[1]
    p = mk(i)
    nodes = sorted(p.nodes())
    m = pat.Meaning(p)
    snap = pat.snapshot(p)
    labels = [0, 1, 2, 3, 4, 5][: max(5, len(nodes) + 1)]
    for im in itertools.permutations(labels, len(nodes)):
        f = dict(zip(nodes, im, strict=True))
        key = f"P{i} {f}"
        R.at(key)
        R.state()
        part = {k: v for k, v in f.items() if k != v}
        q = p.reindex(f, copy=True)
        q2 = p.reindex(lambda v, f=f: f[v], copy=True)
        q3 = p.copy()
        if q3.reindex(part) is not q3:
            R.bad(f"reindex self {key}", "in-place reindexing did not return the pattern")
        R.trans(3)
        if not (list(q) == list(q2) == list(q3) and pat.pat_io(q) == pat.pat_io(q2) == pat.pat_io(q3)):
            R.bad(f"reindex agree {key}", "mapping, function and in-place reindexing differ")
        if q.n_node != p.n_node or q3.n_node != p.n_node:
            R.bad(f"reindex n_node {key}", f"{q.n_node} {q3.n_node}")
        if list(q.input_nodes) != [f[v] for v in p.input_nodes] or list(q.output_nodes) != [f[v] for v in p.output_nodes]:
            R.bad(f"reindex io {key}", f"{pat.pat_io(q)}")
            continue
        q.check_runnability()
        mq = pat.Meaning(q)
        R.trace()
        exp = np.zeros_like(m.table)
        n = len(m.labels)
        for k in range(2**n):
            bits = {f[lab]: (k >> (n - 1 - x)) & 1 for x, lab in enumerate(m.labels)}
            v = 0
            for lab in mq.labels:
                v = 2 * v + bits.get(lab, 0)
            exp[v] = m.table[k]
        if sorted(f[v] for v in m.labels) != mq.labels or not pat.rows_same_rays(mq.table, exp):
            R.bad(f"reindex map {key}", f"reindexing changed the meaning: {list(q)}")
        back = q.reindex({v: k for k, v in f.items()}, copy=True)
        if back != p:
            R.bad(f"reindex back {key}", "reindexing back is not the original pattern")
    q = p.reindex(copy=True)
    if sorted(q.nodes()) != list(range(len(nodes))):
        R.bad(f"reindex default P{i}", f"default reindexing gives nodes {sorted(q.nodes())}")
    if pat.snapshot(p) != snap:
        R.bad(f"reindex mutated P{i}", "reindexing a copy changed the pattern")


def work_nm(task, R):
    i = task[1]
    p = mk(i)
    nodes = sorted(p.nodes())
    sub = lambda xs, k: [c for r in range(k + 1) for c in itertools.combinations(xs, r)]
    for vals in itertools.product([None, 0, 1, 3, 7], repeat=len(nodes)):
        init = {k: v for k, v in zip(nodes, vals, strict=True) if v is not None}
        for start in (0, 1, 3):
            for avoids in [None, *sub(range(5), 2)]:
                for pres in [None, *sub(nodes, 2)]:
                    key = f"P{i} {init} start={start} avoids={avoids} preserves={pres}"
                    R.at(key)
                    R.state()
                    dup = len(set(init.values())) != len(init)
                    try:
                        r = p.node_mapping(init or None, start=start, avoids=avoids, preserves=pres)
                    except ValueError:
                        if not dup:
                            R.bad(f"node_mapping refused {key}", "injective mapping refused")
                        continue
                    if dup:
                        R.bad(f"node_mapping accepted {key}", "non-injective mapping accepted")
                        continue
                    fresh = [v for v in nodes if v not in init and v not in (pres or ())]
                    got = [r.get(v) for v in fresh]
                    used = set(avoids or ()) | set(pres or ()) | set(init.values())
                    want, c = [], start
                    for _ in fresh:
                        while c in used:
                            c += 1
                        want.append(c)
                        c += 1
                    if got != want or set(r) != set(init) | set(fresh) or any(r[k] != v for k, v in init.items()):
                        R.bad(f"node_mapping {key}", f"{r}, expected fresh {dict(zip(fresh, want, strict=True))}")
                    R.trans()
    try:
        p.node_mapping({max(nodes) + 1: 0})
        R.bad(f"node_mapping unknown P{i}", "unknown node accepted")
    except ValueError:
        pass


def work(task, R):
    {"compose": work_compose, "reindex": work_reindex, "node_mapping": work_nm}[task[0]](task, R)

"""P02: signal shifting preserves states and accounts for outcomes."""

import itertools

import numpy as np
from graphix.pattern import shift_outcomes

from mc import pat, ref

META = {
    "bounds": {
        "quick": "standard and non-standard patterns with 3 measured nodes + 1 output: all plane/axis triples over 5 codes with all domain assignments (s,t subsets of earlier nodes), "
        "all output corrections; chains of 4 measured nodes with t-domains; both methods; every branch",
        "thorough": "9 measurement codes for triples; 4 measured nodes with every domain assignment over {XY,XZ}",
    },
    "assumptions": ["generic angle 0.37 pi plus Pauli measurements represent the angle domain"],
}

CODES = ["XY:0.37", "XZ:0.37", "YZ:0.37", "X+", "Z-"]
CODES9 = [*CODES, "Y+", "X-", "Z+", "Y-"]


def subsets(xs):
    return [list(c) for r in range(len(xs) + 1) for c in itertools.combinations(xs, r)]


PRE3 = [["N", 1], ["N", 2], ["N", 3], ["E", 0, 1], ["E", 1, 2], ["E", 2, 3], ["E", 0, 3], ["E", 0, 2]]


def gen(tier):
    codes = CODES if tier == "quick" else CODES9
    corr = [[], [["X", 3, [2]], ["Z", 3, [1, 2]]], [["Z", 3, [0, 2]], ["X", 3, [0, 1]]]]
    for m0, m1, m2 in itertools.product(codes, repeat=3):
        yield ["3", m0, m1, m2, corr[1]]
    for c in corr:
        yield ["3", "XY:0.37", "XY:0.37", "XZ:0.37", c]
        yield ["inter", "XY:0.37", "YZ:0.37", "X+", c]
        yield ["inter", "XZ:0.37", "XY:0.37", "XY:0.37", c]
    yield ["4", "XY:0.37"]
    yield ["4", "XZ:0.37"]
    if tier == "thorough":
        yield ["4full", "XY:0.37", "XY:0.37"]
        yield ["4full", "XZ:0.37", "YZ:0.37"]


def tasks(tier):
    yield from gen(tier)


def expand(t):
    kind = t[0]
    if kind in ("3", "inter"):
        _, m0, m1, m2, c = t
        for s1, t1 in itertools.product(subsets([0]), repeat=2):
            for s2, t2 in itertools.product(subsets([0, 1]), repeat=2):
                M = [["M", 0, m0, [], []], ["M", 1, m1, s1, t1], ["M", 2, m2, s2, t2]]
                if kind == "3":
                    yield [0], [*PRE3, *M, *c]
                else:
                    # corrections and entanglement between the measurements, Clifford at the end
                    yield [0], [["N", 1], ["E", 0, 1], M[0], ["Z", 1, [0]], ["N", 2], ["E", 1, 2], M[1], ["X", 2, [1]], ["N", 3],
                                ["E", 2, 3], ["T"], M[2], *c, ["C", 3, 6]]
    elif kind == "4":
        m = t[1]
        pre = [["N", i] for i in range(1, 5)] + [["E", i, i + 1] for i in range(4)] + [["E", 0, 4]]
        for t1, t2, t3 in itertools.product(subsets([0]), subsets([0, 1]), subsets([0, 1, 2])):
            M = [["M", 0, m, [], []]]
            if m.startswith("XY"):
                M += [["M", 1, m, [], t1], ["M", 2, m, [], t2], ["M", 3, m, [0], t3]]
            else:
                M += [["M", 1, m, t1, []], ["M", 2, m, t2, []], ["M", 3, m, t3, [0]]]
            yield [0], [*pre, *M, ["X", 4, [3]], ["Z", 4, [2, 1]]]
    elif kind == "4full":
        pre = [["N", i] for i in range(1, 5)] + [["E", i, i + 1] for i in range(4)] + [["E", 0, 4]]
        _, a, b = t
        for s1, t1 in itertools.product(subsets([0]), repeat=2):
            for s2, t2 in itertools.product(subsets([0, 1]), repeat=2):
                for s3, t3 in itertools.product(subsets([0, 1, 2]), repeat=2):
                    yield [0], [*pre, ["M", 0, a, [], []], ["M", 1, b, s1, t1], ["M", 2, a, s2, t2], ["M", 3, b, s3, t3], ["X", 4, [3]], ["Z", 4, [2, 1]]]


def gone(p):
    """No domain that signal shifting removes is left (t on XY-like, s on XZ- and YZ-like measurements)."""
    for c in p:
        if c.kind.name != "M":
            if c.kind.name == "S":
                return False
            continue
        m = c.measurement.to_bloch()
        if m.plane.name == "XY" and c.t_domain:
            return False
        if m.plane.name in ("XZ", "YZ") and c.s_domain:
            return False
    return True


def work(task, R):
    for inputs, seq in expand(task):
        key = pat.show(inputs, seq)
        R.at(key)
        R.show(key)
        p = pat.build(inputs, seq)
        snap = pat.snapshot(p)
        mp = pat.Meaning(p)
        n = len(mp.labels)
        R.state(2**n)
        R.trans(len(seq))
        dicts = {}
        for method in ("direct", "mc"):
            q = p.copy()
            sig = q.shift_signals(method=method)
            q.check_runnability()
            R.trace()
            if pat.pat_io(q) != pat.pat_io(p):
                R.bad(f"{method} io {key}", f"inputs/outputs changed to {pat.pat_io(q)}")
                continue
            mq = pat.Meaning(q)
            if mq.labels != mp.labels:
                R.bad(f"{method} nodes {key}", f"measured nodes changed to {mq.labels}")
                continue
            if not gone(q):
                R.bad(f"{method} left {key}", f"signals left: {list(q)}")
            # outcome o' in the shifted pattern <-> outcome shift_outcomes(o') in the original one
            perm = []
            for bits in itertools.product((0, 1), repeat=n):
                o = shift_outcomes(dict(zip(mp.labels, bits, strict=True)), sig)
                v = 0
                for lab in mp.labels:
                    v = 2 * v + int(o[lab])
                perm.append(v)
            if sorted(perm) != list(range(2**n)):
                R.bad(f"{method} signals {key}", f"the signals {sig} do not define a bijection of outcomes")
                continue
            if not pat.rows_same_rays(mq.table, mp.table[np.array(perm)]):
                R.bad(f"{method} {key}", f"a branch has a different state or probability with signals {sig}: {list(q)}")
            dicts[method] = {k: set(v) for k, v in sig.items() if v}
            R.outcome(sorted((k, len(v)) for k, v in sig.items()))
        if len(dicts) == 2 and dicts["direct"] != dicts["mc"]:
            R.bad(f"agree {key}", f"the two methods return different signals: {dicts}")
        if pat.snapshot(p) != snap:
            R.bad(f"mutated {key}", "shifting the signals of a copy changed the original")

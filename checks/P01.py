"""P01: standardization preserves every branch and yields standard form."""

import itertools

import networkx as nx
import numpy as np
from graphix.optimization import StandardizedPattern, remove_useless_domains, single_qubit_domains, standardize

from mc import pat, ref

META = {
    "bounds": {
        "quick": "runnable command sequences: (a) 3 nodes, 1 input, N/E/M prefix + every extension by 3 commands over E, M (3 codes, domains <=1), X, Z, "
        "C (7 classes); (b) 3 measured/2 live nodes, extensions by 2 with domains <=2 and all 24 Cliffords; (c) every sequence of <=5 commands from scratch "
        "over N, E, M, X, Z, C on 3 nodes; (d) all pairs of the 24 Cliffords before an entanglement; every branch, every input",
        "thorough": "the same with extensions one command longer",
    },
    "assumptions": ["generic angle 0.37 pi plus Pauli measurements represent the angle domain"],
}

CL7 = [1, 3, 4, 6, 9, 7, 13]
MC = ["XY:0.37", "XZ:0.37", "YZ:0.37"]
ALL6 = [*MC, "X+", "Y-", "Z+"]
KINDS = ("E", "X", "Z", "C", "M")

PREFIXES = [
    ([0], [["N", 1], ["E", 0, 1], ["M", 0, "XY:0.37", [], []], ["N", 2]]),
    ([0, 1], [["E", 0, 1], ["N", 2], ["E", 0, 2], ["M", 0, "YZ:0.37", [], []]]),
]
PREFIX2 = [
    ([0], [["N", 1], ["N", 2], ["N", 3], ["E", 0, 1], ["E", 0, 2], ["E", 1, 3], ["M", 0, "XY:0.37", [], []], ["M", 1, "XZ:0.37", [0], []]]),
]


def spaces(tier):
    d = 1 if tier == "thorough" else 0
    for ln in range(1, 3 + d):
        for inp, pre in PREFIXES:
            yield inp, pre, ln, [0, 1, 2], KINDS, MC, CL7, 1, ((),)
    for inp, pre in PREFIXES[: 1 + d]:
        yield inp, pre, 3 + d, [0, 1, 2], KINDS, ["XY:0.37"] if d else MC, [6, 9, 1] if d else CL7[1:5], 1, ((),)
    for inp, pre in PREFIX2:
        yield inp, pre, 1, [0, 1, 2, 3], KINDS, ALL6, list(range(24)), 2, ((),)
        yield inp, pre, 2, [0, 1, 2, 3], KINDS, ["XY:0.37", "Y-"], [2, 6, 8, 10] if not d else list(range(24)), 2, ((),)
    for ln in range(0, 5 + d):
        yield [0], [], ln, [0, 1, 2], ("N", "E", "M", "X", "Z", "C"), ["XY:0.37"], [6, 9], 1, ((), ("ZERO",))
    yield [], [], 4 + d, [0, 1, 2], ("N", "E", "M", "X", "Z", "C"), ["YZ:0.37"], [6, 9], 1, ((), ("MINUS_I",))


def cliffords():
    """Every pair of Cliffords before an entanglement, alone or followed by a correction on either qubit."""
    for a, b in itertools.product(range(24), repeat=2):
        pre = [["N", 2], ["E", 0, 2], ["M", 2, "XZ:0.37", [], []], ["C", 0, a], ["C", 1, b]]
        yield [[0, 1], [*pre, ["E", 0, 1]]]
        for k, v, w in itertools.product("XZ", (0, 1), (0, 1)):
            if b in (0, 1, 4, 9) or a in (0, 10, 5):
                yield [[0, 1], [*pre, [k, v, [2]], ["E", 0, 1], ["C", w, (a * 5 + b) % 24]]]


def tasks(tier):
    cl = list(cliffords())
    for k in range(0, len(cl), 60):
        yield cl[k : k + 60]
    for sp in spaces(tier):
        chunk = []
        for seq in pat.sequences(*sp):
            chunk.append([sp[0], seq])
            if len(chunk) == 60:
                yield chunk
                chunk = []
        if chunk:
            yield chunk


def standardizable(inputs, cmds):
    """Does a standard form exist by local commutation (no generic Clifford before an entanglement)?"""
    from graphix import Clifford

    c = {}
    for d in cmds:
        if d[0] == "C":
            c[d[1]] = np.asarray(Clifford(d[2]).matrix) @ c.get(d[1], np.eye(2))
        elif d[0] == "E":
            for v in d[1:]:
                m = c.get(v, np.eye(2))
                if abs(m[0, 0]) > 1e-6 and abs(m[0, 1]) > 1e-6:
                    return False
            for v, w in ((d[1], d[2]), (d[2], d[1])):
                if abs(c.get(v, np.eye(2))[0, 1]) > 1e-6:
                    c[w] = np.diag([1, -1]) @ c.get(w, np.eye(2))
    return True


ORDER = {"N": 0, "E": 1, "M": 2, "X": 3, "Z": 3, "C": 4}


def is_standard_ref(p, strict):
    ks = [ORDER[c.kind.name] - (1 if (not strict and c.kind.name == "C") else 0) for c in p]
    return all(a <= b for a, b in itertools.pairwise(ks))


def edge_parity(cmds):
    e = set()
    for d in cmds:
        if d[0] == "E":
            e ^= {frozenset(d[1:])}
    return e


def work(task, R):
    for inputs, seq in task:
        key = pat.show(inputs, seq)
        R.at(key)
        R.show(key)
        p = pat.build(inputs, seq)
        R.trans(len(seq))
        live, _ = pat.live_after(inputs, seq)
        perm = sorted(live, reverse=True)
        p.reorder_output_nodes(perm)
        snap = pat.snapshot(p)
        for strict in (False, True):
            if p.is_standard(strict=strict) != is_standard_ref(p, strict):
                R.bad(f"is_standard {strict}: {key}", "is_standard gives the wrong answer")
        try:
            sp = StandardizedPattern.from_pattern(p)
        except NotImplementedError:
            if standardizable(inputs, seq):
                R.bad(f"refused {key}", "refused to standardize although only Paulis and phase gates precede E")
            R.count("refused")
            continue
        q = sp.to_pattern()
        q.check_runnability()
        R.state(2 ** sum(1 for d in seq if d[0] == "M"))
        R.trace()
        mp, mq = pat.Meaning(p), pat.Meaning(q)
        why = pat.branch_equal(mp, mq)
        if why:
            R.bad(f"standardize {key}", f"{why}; standardized to {list(q)}")
        if not is_standard_ref(q, True) or not q.is_standard(strict=True):
            R.bad(f"standard-form {key}", f"result is not in standard form: {list(q)}")
        q2 = p.copy()
        q2.standardize()
        if pat.branch_equal(mq, q2) or not is_standard_ref(q2, True):
            R.bad(f"Pattern.standardize {key}", f"in-place standardize differs: {list(q2)}")
        q3 = standardize(p)
        if pat.branch_equal(mq, q3):
            R.bad(f"standardize() {key}", f"{list(q3)}")
        g = sp.graph()
        want = nx.Graph()
        want.add_nodes_from(set(inputs) | {d[1] for d in seq if d[0] == "N"})
        want.add_edges_from(tuple(e) for e in edge_parity(seq))
        if set(g.nodes) != set(want.nodes) or {frozenset(e) for e in g.edges} != {frozenset(e) for e in want.edges}:
            R.bad(f"graph {key}", f"graph() is {g.edges}, true graph {want.edges}")
        for name, f in (("remove_useless_domains", remove_useless_domains), ("single_qubit_domains", single_qubit_domains)):
            for base, mb in ((p, mp), (q, mq)):
                r = f(base)
                why = pat.branch_equal(mb, r)
                if why:
                    R.bad(f"{name} {key}", f"{why}: {list(r)}")
                if name == "single_qubit_domains":
                    for c in r:
                        ds = [c.s_domain, c.t_domain] if c.kind.name == "M" else [c.domain] if c.kind.name in "XZ" else []
                        if any(len(x) > 1 for x in ds):
                            R.bad(f"{name} {key}", f"domain with more than one node: {list(r)}")
        if pat.snapshot(p) != snap:
            R.bad(f"mutated {key}", "standardization changed its argument")
        R.outcome((len(sp.m_list), len(sp.x_dict), len(sp.z_dict), len(sp.c_dict), len(sp.e_set)))

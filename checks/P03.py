"""P03: Pauli pushing, Pauli removal and local Clifford removal preserve the pattern's meaning."""

import itertools

import numpy as np
from graphix.optimization import StandardizedPattern
from graphix.pattern import shift_outcomes
from graphix.remove_pauli_measurements import PauliPushingCut

from mc import circ, og, pat, ref

META = {
    "bounds": {
        "quick": "(push) 3 measured + 1 output, every domain assignment, all triples over {XY,X+,X-,Y+,Y-,Z+,Z-,XZ} restricted to >=2 Pauli, all leave_nodes; "
        "(flow) every open graph with <=3 nodes and all labels over 9 codes, and connected 4-node graphs over 4 codes, that has a Pauli flow, and wires of 6, 3+3, 2+2+2 nodes joined by <=2 edges, 5+2 and 4+3 nodes joined by <=1 edge, with one or two Pauli or all-but-one Pauli measurements; "
        "(circ) transpiled circuits: 1 qubit, 3 gates; 2 qubits, 2 gates; "
        "(state) nodes prepared in 5 basic states, 2 graphs, all measurement pairs; (cliff) all 24 Cliffords at every position of three patterns, and all pairs; every branch, every input",
        "thorough": "all 4-node graphs over 6 codes, connected 5-node graphs over 3 codes, one more gate in circuits",
    },
    "assumptions": ["generic angle 0.37 pi plus Pauli measurements represent the angle domain"],
}

PA = ["XY:0.37", "X+", "X-", "Y+", "Y-", "Z+", "Z-", "XZ:0.37"]
ALL9 = ["XY:0.37", "XZ:0.37", "YZ:0.37", "X+", "X-", "Y+", "Y-", "Z+", "Z-"]


def chunks(it, n):
    c = []
    for x in it:
        c.append(x)
        if len(c) == n:
            yield c
            c = []
    if c:
        yield c


def graphs(tier):
    for n in (1, 2, 3):
        for sh in og.shapes(n, min_out=1):
            for d in og.labelled(n, sh, ALL9 if len(sh[2]) >= n - 2 else ALL9[:1] + ALL9[2:4] + ALL9[5:8]):
                yield d
    # joined wires: several Pauli measurements among generic ones, generic ones among Pauli measurements
    for lens, cross in (((6,), 0), ((3, 3), 2), ((2, 2, 2), 2), ((5, 2), 1), ((4, 3), 1)):
        for n, edges, i, o in og.wires(lens, cross + (tier == "thorough"), ("heads",) if sum(lens) > 6 else ("heads", "none")):
            nodes = [v for v in range(n) if v not in o]
            for base, others, double in (("XY:0.37", ["X-", "Y+"], ["X-", "Y-"]), ("X+", ["XY:0.37", "Z-"], []), ("Y-", ["XY:0.37", "X+"], [])):
                for ls in dict.fromkeys(og.labellings(len(nodes), base, others, double if n < 7 else [])):
                    yield [n, edges, i, o, {str(v): m for v, m in zip(nodes, ls, strict=True)}]
    if tier == "quick":
        for sh in og.shapes(4, connected=True, min_out=1):
            for d in og.labelled(4, sh, ["XY:0.37", "X+", "Y-", "Z-"] if len(sh[2]) > 1 else ["X-", "Y+", "Z-"]):
                yield d
        # two disjoint X-measured pairs and longer chains: repeated pivots and local complementations
        for sh in og.shapes(5, connected=True, min_out=1, max_out=1):
            if len(sh[0]) <= 5 and len(sh[1]) == 1:
                for d in og.labelled(5, sh, ["X-", "Y+"]):
                    yield d
    else:
        for sh in og.shapes(4, min_out=1):
            for d in og.labelled(4, sh, ["XY:0.37", "X+", "Y-", "Z-", "X-", "YZ:0.37"]):
                yield d
        for sh in og.shapes(5, connected=True, min_out=1, max_out=2):
            for d in og.labelled(5, sh, ["X-", "Y+", "XY:0.37"]):
                yield d


def tasks(tier):
    for ms in itertools.product(PA, repeat=3):
        if sum(":" in m for m in ms) <= 1 and (tier == "thorough" or sum(m[1] == "-" for m in ms) <= 1):
            yield ["push", *ms]
    gs = [d for d in graphs(tier)]
    for c in chunks(gs, 40 if tier == "quick" else 80):
        yield ["flow", *c]
    s1 = list(circ.singles(1, kinds=("H", "S", "X", "Z", "RX", "RZ", "J", "Y")))
    s2 = list(circ.singles(2, kinds=("H", "S", "RX", "RZ"))) + list(circ.doubles(2, kinds=("CNOT", "CZ", "RZZ")))
    t = 1 if tier == "thorough" else 0
    for c in chunks(circ.words(s1, 3 + t), 40):
        yield ["circ", 1, *c]
    for c in chunks(circ.words(s2, 2 + t), 40):
        yield ["circ", 2, *c]
    if not t:
        for c in chunks(circ.words([["H", 0], ["S", 1], ["RX", 0, 0.37], ["CNOT", 0, 1], ["CNOT", 1, 0]], 3), 40):
            yield ["circ", 2, *c]
    for st in itertools.product([[], ["ZERO"], ["ONE"], ["MINUS"], ["PLUS_I"]], repeat=3):
        if any(st):
            yield ["state", *st]
    for k in range(4):
        for a in range(24):
            yield ["cliff", k, a]


def subsets(xs):
    return [list(c) for r in range(len(xs) + 1) for c in itertools.combinations(xs, r)]


# ---- pushing
PRE3 = [["N", 1], ["N", 2], ["N", 3], ["E", 0, 1], ["E", 1, 2], ["E", 2, 3], ["E", 0, 3], ["E", 0, 2]]


def is_pauli(m):
    return type(m).__name__ == "PauliMeasurement"


def check_push(R, p, key, leaves=((),)):
    mp = pat.Meaning(p)
    n = len(mp.labels)
    snap = pat.snapshot(p)
    sp = StandardizedPattern.from_pattern(p)
    for leave in leaves:
        R.state(2**n)
        cut = PauliPushingCut.from_standardizedpattern(sp, leave_nodes=set(leave))
        out = [("cut", cut.to_standardizedpattern().to_pattern())]
        out.append(("copy", p.perform_pauli_pushing(leave_nodes=set(leave), copy=True)))
        if not leave:
            out.append(("std", p.perform_pauli_pushing(copy=True, standardize=True)))
            q = p.copy()
            r = q.perform_pauli_pushing()
            if r is not q:
                R.bad(f"inplace {key}", "in-place pushing did not return the pattern itself")
            out.append(("inplace", q))
        sig = cut.shifted_domains
        perm = []
        for bits in itertools.product((0, 1), repeat=n):
            o = shift_outcomes(dict(zip(mp.labels, bits, strict=True)), sig)
            v = 0
            for lab in mp.labels:
                v = 2 * v + int(o[lab])
            perm.append(v)
        if sorted(perm) != list(range(2**n)):
            R.bad(f"signals {leave} {key}", f"shifted domains {sig} are not a bijection of outcomes")
            continue
        exp = mp.table[np.array(perm)]
        seen = []
        for name, q in out:
            R.trans()
            q.check_runnability()
            if pat.pat_io(q) != pat.pat_io(p):
                R.bad(f"{name} io {leave} {key}", f"inputs/outputs changed to {pat.pat_io(q)}")
                continue
            if not any(list(q) == s for s in seen):
                seen.append(list(q))
                mq = pat.Meaning(q)
                R.trace()
                if mq.labels != mp.labels or not pat.rows_same_rays(mq.table, exp):
                    R.bad(f"{name} {leave} {key}", f"a branch changed: {list(q)} with shifted domains {sig}")
            front = True
            for c in q:
                if c.kind.name == "M":
                    pauli = is_pauli(c.measurement) and c.node not in leave
                    if pauli and (not front or c.s_domain or c.t_domain):
                        R.bad(f"{name} pushed {leave} {key}", f"Pauli measurement not pushed: {list(q)}")
                        break
                    front = front and pauli
    if pat.snapshot(p) != snap:
        R.bad(f"mutated {key}", "pushing a copy changed the original")
    return mp


def work_push(task, R):
    ms = task[1:]
    for s1, t1 in itertools.product(subsets([0]), repeat=2):
        for s2, t2 in itertools.product(subsets([0, 1]), repeat=2):
            seq = [*PRE3, ["M", 0, ms[0], [], []], ["M", 1, ms[1], s1, t1], ["M", 2, ms[2], s2, t2], ["X", 3, [1]], ["Z", 3, [0, 2]]]
            key = pat.show([0], seq)
            R.at(key)
            R.show(key)
            p = pat.build([0], seq)
            lv = [()]
            if len(s2) == 1 and len(t2) == 2:
                lv = [(), *[(i,) for i in range(3) if ":" not in ms[i]]]
            check_push(R, p, key, lv)


# ---- removal
def removable_left(p):
    """A non-input Pauli measurement left in the (standardized) pattern that the rules can still remove."""
    sp = StandardizedPattern.from_pattern(p)
    g = sp.graph()
    ins, outs = set(sp.input_nodes), set(sp.output_nodes)
    for m in sp.m_list:
        if m.node in ins or not is_pauli(m.measurement):
            continue
        if m.measurement.axis.name in ("Y", "Z"):
            return m.node
        nb = set(g.neighbors(m.node))
        if not nb or nb - ins:  # isolated, or connected to an internal node or a non-input output
            return m.node
    return None


def check_removal(R, p, key, flow, mp=None):
    mp = mp or pat.Meaning(p)
    snap = pat.snapshot(p)
    variants = []
    q = p.remove_pauli_measurements(copy=True)
    variants.append(("copy", q))
    variants.append(("std", p.remove_pauli_measurements(copy=True, standardize=True)))
    q2 = p.copy()
    if q2.remove_pauli_measurements() is not q2:
        R.bad(f"remove inplace {key}", "in-place removal did not return the pattern itself")
    variants.append(("inplace", q2))
    if list(q2) != list(q) or pat.pat_io(q2) != pat.pat_io(q):
        R.bad(f"remove copy/inplace {key}", f"in-place removal differs from removal on a copy: {list(q2)} vs {list(q)}")
    if not variants[1][1].is_standard():
        R.bad(f"remove standard {key}", "not in standard form")
    if pat.snapshot(p) != snap:
        R.bad(f"remove mutated {key}", "removal on a copy changed the original")
    exp = mp.table[0]
    for name, r in variants[:2]:
        R.trans()
        r.check_runnability()
        if list(r.input_nodes) != list(p.input_nodes) or len(r.output_nodes) != len(p.output_nodes):
            R.bad(f"remove {name} io {key}", f"inputs/outputs {pat.pat_io(r)}")
            continue
        left = [c.node for c in r if c.kind.name == "M" and is_pauli(c.measurement) and c.node not in r.input_nodes]
        if flow and left:
            R.bad(f"remove {name} left {key}", f"non-input Pauli measurements {left} left although the pattern has flow: {list(r)}")
        elif removable_left(r) is not None:
            R.bad(f"remove {name} left {key}", f"non-input Pauli measurement of {removable_left(r)} could still be removed: {list(r)}")
        mr = pat.Meaning(r)
        R.trace()
        if np.linalg.norm(exp) < 1e-7:
            R.count("zero_branch_impossible")
            continue
        if not ref.proportional(mr.table[0], exp):
            R.bad(f"remove {name} {key}", f"the 0-branch map changed: {list(r)} outputs {r.output_nodes}")
        elif flow and not ref.all_rows_equal(mr.table):
            R.bad(f"remove {name} det {key}", f"the pattern is no longer deterministic: {list(r)}")
        R.outcome(f"removed {len(mp.labels) - len(mr.labels)} of {len(mp.labels)}")


def work_flow(task, R):
    for d in task[1:]:
        g = og.build(d)
        key = og.show(d)
        R.at(key)
        R.count("open_graphs")
        f = g.to_pauliflow_or_none() if hasattr(g, "to_pauliflow_or_none") else None
        if f is None:
            continue
        R.show(key)
        R.count("with_flow")
        p = f.to_xzcorrections().to_pattern()
        mp = check_push(R, p, key)
        if not ref.all_rows_equal(mp.table):
            R.count("nondeterministic_input")  # decided by F02
            continue
        check_removal(R, p, key, True, mp)
        # corrections from a causal flow: Pauli-measured nodes carry domains, which pushing turns into signals
        c = g.to_bloch().to_causalflow_or_none() if any(is_pauli(m) for m in g.measurements.values()) else None
        if c is not None:
            R.count("causal_flow")
            q = c.to_xzcorrections().to_pattern().infer_pauli_measurements()
            check_removal(R, q, f"causal {key}", True, check_push(R, q, f"causal {key}"))


def work_circ(task, R):
    n = task[1]
    for w in task[2:]:
        key = circ.show(w)
        R.at(key)
        R.show(key)
        p = circ.build(n, w).transpile().pattern
        if sum(c.kind.name == "M" for c in p) > 9:
            R.count("too_long")
            continue
        p.standardize()
        p = p.infer_pauli_measurements()
        mp = pat.Meaning(p)
        R.state(len(mp.table))
        check_removal(R, p, key, True, mp)
        # signal shifting first, and removal after pushing: same map
        q = p.copy()
        q.shift_signals()
        q.perform_pauli_pushing()
        check_removal(R, q, "shifted+pushed " + key, True)


def work_state(task, R):
    """Nodes prepared in other states than |+>: only the 0-branch is promised."""
    st = task[1:]
    for edges in ([[0, 1], [1, 2], [2, 3]], [[0, 1], [1, 2], [2, 3], [1, 3]]):
        for ms in itertools.product(["X+", "Y-", "Z-", "XY:0.37"], repeat=2):
            seq = [*(["N", i + 1, *s] for i, s in enumerate(st)), *(["E", *e] for e in edges), ["M", 1, ms[0], [], []], ["M", 2, ms[1], [], []]]
            key = pat.show([0], seq)
            R.at(key)
            p = pat.build([0], seq)
            mp = pat.Meaning(p)
            R.state(len(mp.table))
            r = p.remove_pauli_measurements(copy=True)
            r.check_runnability()
            mr = pat.Meaning(r)
            R.trans()
            if list(r.input_nodes) != [0] or len(r.output_nodes) != 2:
                R.bad(f"state io {key}", f"inputs/outputs {pat.pat_io(r)}")
            elif np.linalg.norm(mp.table[0]) > 1e-7 and not ref.proportional(mr.table[0], mp.table[0]):
                R.bad(f"state {key}", f"the 0-branch map changed: {list(r)}")


# ---- local Cliffords
def cliff_patterns(k, a):
    """Patterns with local Cliffords at different positions."""
    M = lambda v, s=(), t=(): ["M", v, "XY:0.37", list(s), list(t)]
    if k == 0:
        yield [0], [["C", 0, a]]
        yield [5], [["C", 5, a]]
        for b in range(24):
            yield [0], [["C", 0, a], ["C", 0, b]]
    elif k == 1:
        for b in range(24):
            yield [0], [["N", 1], ["E", 0, 1], M(0), ["X", 1, [0]], ["C", 1, a], ["Z", 1, [0]], ["C", 1, b]]
    elif k == 2:
        for b in (0, 6, 9, 13):
            # in the middle of the pattern, on nodes entangled and measured afterwards
            yield [0], [["N", 1], ["C", 0, a], ["E", 0, 1], ["C", 1, b], M(0), ["X", 1, [0]], ["N", 2], ["E", 1, 2], M(1, [], [0]), ["X", 2, [1]], ["Z", 2, [0]]]
    elif k == 3:
        for b in (0, 4, 6, 11):
            # two qubits, swapped outputs, high node labels
            yield [7, 2], [["N", 9], ["E", 7, 9], ["C", 2, a], ["E", 7, 2], M(7), ["C", 9, b], ["X", 9, [7]], ["Z", 2, [7]]]


def work_cliff(task, R):
    _, k, a = task
    for inputs, seq in cliff_patterns(k, a):
        key = pat.show(inputs, seq)
        R.at(key)
        R.show(key)
        p = pat.build(inputs, seq)
        if k == 3:
            p.reorder_output_nodes([2, 9])
        snap = pat.snapshot(p)
        mp = pat.Meaning(p)
        q2 = p.copy()
        r2 = q2.remove_local_clifford_commands()
        if r2 is not q2:
            R.bad(f"cliff inplace {key}", "in-place removal did not return the pattern itself")
        q = p.remove_local_clifford_commands(copy=True)
        R.trans()
        if list(q2) != list(q) or pat.pat_io(q2) != pat.pat_io(q):
            R.bad(f"cliff copy/inplace {key}", "in-place removal differs from removal on a copy")
        if pat.snapshot(p) != snap:
            R.bad(f"cliff mutated {key}", "removal on a copy changed the original")
        if any(c.kind.name == "C" for c in q):
            R.bad(f"cliff left {key}", "Clifford command left")
        q.check_runnability()
        if list(q.input_nodes) != list(p.input_nodes) or len(q.output_nodes) != len(p.output_nodes):
            R.bad(f"cliff io {key}", f"inputs/outputs {pat.pat_io(q)}")
            continue
        st = ref.run_pattern(q)
        rows = st.kraus(q.output_nodes)
        R.state(len(rows))
        R.trace()
        # nodes measured in the original pattern may carry a new label: they are the XY:0.37 measurements, in order
        orig = [c.node for c in p if c.kind.name == "M"]
        new = [c.node for c in q if c.kind.name == "M" and not is_pauli(c.measurement)]
        if len(orig) != len(new):
            R.bad(f"cliff meas {key}", f"non-Pauli measurements {new}, expected {len(orig)}")
            continue
        idx = np.zeros(len(rows), dtype=int)
        for lab in sorted(orig):
            idx = 2 * idx + st.outcomes[new[orig.index(lab)]]
        scale = np.sqrt(len(mp.table) / len(rows))
        if not pat.rows_same_rays(rows, mp.table[idx] * scale):
            R.bad(f"cliff {key}", f"a branch changed: {list(q)} outputs {q.output_nodes}")


def work(task, R):
    {"push": work_push, "flow": work_flow, "circ": work_circ, "state": work_state, "cliff": work_cliff}[task[0]](task, R)

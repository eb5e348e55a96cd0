"""P06: check_runnability accepts exactly the executable sequences, and accepted patterns run to completion."""

import itertools

import numpy as np
from graphix import Pattern
from graphix.branch_selector import BranchSelector
from graphix.pattern import RunnabilityError

from mc import pat, ref

META = {
    "bounds": {
        "quick": "every sequence of <=4 commands on 2 nodes (37-command alphabet with every domain over the nodes) and <=4 commands on 3 nodes (reduced alphabet, incl. 2-node domains), with 0, 1 or 2 inputs; "
        "a sequence is extended only while runnable, and every first offending command is tried, followed by every further command",
        "thorough": "5 commands",
    },
    "assumptions": ["entangling a node with itself and S commands are outside the alphabet"],
}


class Likely(BranchSelector):
    """Deterministic selector: the likelier outcome."""

    def measure(self, qubit, f_expectation0, rng=None, *, stacklevel=1):
        return 0 if f_expectation0() > 0.5 - 1e-9 else 1


def subsets(xs, m=9):
    return [list(c) for r in range(min(m, len(xs)) + 1) for c in itertools.combinations(xs, r)]


def alphabet(name):
    if name == "2":
        nodes, doms = [0, 1], [[], [0], [1]]
        a = [["N", v] for v in nodes] + [["E", 0, 1], ["E", 1, 0]]
        a += [["M", v, "XY:0.37", s, t] for v in nodes for s in doms for t in doms]
        a += [[k, v, d] for k in "XZ" for v in nodes for d in doms]
        a += [["C", v, 6] for v in nodes] + [["T"]]
        return a
    nodes = [0, 1, 2]
    a = [["N", v] for v in nodes] + [["E", 0, 1], ["E", 1, 2], ["E", 0, 2]]
    for v in nodes:
        a += [["M", v, "YZ:0.37", [], []], ["M", v, "X-", [(v + 1) % 3], []], ["M", v, "XY:0.37", [], [(v + 2) % 3]], ["M", v, "XZ:0.37", [0, 1, 2], []],
              ["M", v, "Z+", [], sorted({(v + 1) % 3, (v + 2) % 3})]]
        a += [["X", v, [(v + 1) % 3]], ["Z", v, sorted({(v + 1) % 3, (v + 2) % 3})], ["C", v, 6], ["X", v, [v]]]
    return a


def errors(cmd, active, measured):
    """Set of (node, reason) that make ``cmd`` not executable."""
    out = set()

    def need_active(v):
        if v in measured:
            out.add((v, "AlreadyMeasured"))
        elif v not in active:
            out.add((v, "NotYetActive"))

    def need_measured(dom):
        for v in dom:
            if v not in measured:
                out.add((v, "NotYetMeasured"))

    k = cmd[0]
    if k == "N":
        if cmd[1] in active:
            out.add((cmd[1], "AlreadyActive"))
        if cmd[1] in measured:
            out.add((cmd[1], "AlreadyMeasured"))
    elif k == "E":
        need_active(cmd[1])
        need_active(cmd[2])
    elif k == "M":
        need_active(cmd[1])
        for dom in (cmd[3], cmd[4]):
            if cmd[1] in dom:
                out.add((cmd[1], "DomainSelfLoop"))
            need_measured([x for x in dom if x != cmd[1]])
    elif k in "XZ":
        need_active(cmd[1])
        need_measured(cmd[2])
    elif k == "C":
        need_active(cmd[1])
    return out


def tasks(tier):
    d = 1 if tier == "thorough" else 0
    for name, inputs_list, depth in (("2", [[], [0], [0, 1], [1, 0]], 4 + d), ("3", [[0], [0, 1]], 4 + d)):
        alpha = alphabet(name)
        for inputs in inputs_list:
            for i in range(len(alpha)):
                yield [name, inputs, i, depth]


def run(p, R, key, inputs, seq):
    snap = pat.snapshot(p)
    p.check_runnability()
    live, measured = pat.live_after(inputs, seq)
    if sorted(p.output_nodes) != sorted(live):
        R.bad(f"outputs {key}", f"output nodes {p.output_nodes}, live nodes {live}")
        return
    if p.n_node != len(live) + len(measured) or p.nodes() != set(live) | set(measured):
        R.bad(f"nodes {key}", f"n_node {p.n_node}, nodes {p.nodes()}")
    state = p.simulate(branch_selector=Likely())
    if state.nqubit != len(live):
        R.bad(f"simulate {key}", f"{state.nqubit} qubits after the run, {len(live)} live nodes")
    R.trace()
    if pat.snapshot(p) != snap:
        R.bad(f"mutated {key}", "simulation changed the pattern")


def work(task, R):
    name, inputs, first, depth = task
    alpha = alphabet(name)

    def check(seq, active, measured, left):
        c = seq[-1]
        key = pat.show(inputs, seq)
        R.at(key)
        R.trans()
        errs = errors(c, active, measured)
        if errs:
            tails = [[]] + [[x] for x in alpha[:: 1 if len(seq) <= 2 else 7]]
            for tail in tails:
                s = seq + tail
                p = pat.build(inputs, s)
                R.state()
                try:
                    p.check_runnability()
                except RunnabilityError as e:
                    R.outcome(e.reason.name)
                    if e.cmd != pat.cmd(c) or (e.node, e.reason.name) not in errs:
                        R.bad(f"reason {pat.show(inputs, s)}", f"reported {e.cmd} node {e.node} {e.reason.name}; first offending command {c}: {sorted(errs)}")
                    if not str(e):
                        R.bad(f"text {key}", "empty message")
                else:
                    R.bad(f"accepted {pat.show(inputs, s)}", f"accepted although {c} is not executable: {sorted(errs)}")
            p = pat.build(inputs, seq)
            try:
                p.simulate(branch_selector=Likely())
            except RunnabilityError:
                pass
            except Exception as e:  # noqa: BLE001
                R.bad(f"simulate-error {key}", f"simulation of a non-runnable pattern raised {type(e).__name__}: {e}")
            else:
                R.bad(f"simulated {key}", "a non-runnable pattern was simulated")
            return
        p = pat.build(inputs, seq)
        R.state()
        try:
            p.check_runnability()
        except RunnabilityError as e:
            R.bad(f"rejected {key}", f"executable pattern rejected: {e}")
            return
        active, measured = set(active), set(measured)
        if c[0] == "N":
            active.add(c[1])
        elif c[0] == "M":
            active.discard(c[1])
            measured.add(c[1])
        if left == 0 or len(seq) <= 3:
            run(p, R, key, inputs, seq)
        if left:
            for x in alpha:
                check([*seq, x], active, measured, left - 1)

    check([alpha[first]], set(inputs), set(), depth - 1)
    R.show(pat.show(inputs, [alpha[first]]))

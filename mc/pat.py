"""Pattern descriptions (JSON), construction of graphix patterns, and enumeration of runnable command sequences.

Commands: ["N",v] ["N",v,"ZERO"] ["E",u,v] ["M",v,meas,s,t] ["X",v,dom] ["Z",v,dom] ["C",v,index]; measurements are coded
"X+", "Y-", ... (Pauli) or "XY:0.37" (plane and angle in units of pi).
"""

from __future__ import annotations

import itertools

import numpy as np
from graphix import Axis, BasicStates, Clifford, Measurement, Pattern, PauliMeasurement, Plane, Sign, command
from graphix.measurements import BlochMeasurement

from . import ref

G = 0.37


def meas(code):
    if ":" in code:
        plane, angle = code.split(":")
        return BlochMeasurement(float(angle), Plane[plane])
    return PauliMeasurement(Axis[code[0]], Sign.PLUS if code[1] == "+" else Sign.MINUS)


def cmd(d):
    k = d[0]
    if k == "N":
        return command.N(d[1]) if len(d) == 2 else command.N(d[1], getattr(BasicStates, d[2]))
    if k == "E":
        return command.E((d[1], d[2]))
    if k == "M":
        return command.M(d[1], meas(d[2]), set(d[3]), set(d[4]))
    if k == "X":
        return command.X(d[1], set(d[2]))
    if k == "Z":
        return command.Z(d[1], set(d[2]))
    if k == "C":
        return command.C(d[1], Clifford(d[2]))
    if k == "S":
        return command.S(d[1], set(d[2]))
    if k == "T":
        return command.T()
    raise ValueError(k)


def build(inputs, cmds, outputs=None):
    p = Pattern(input_nodes=inputs, cmds=[cmd(d) for d in cmds])
    if outputs is not None:
        p.reorder_output_nodes(outputs)
    return p


def show(inputs, cmds):
    def f(d):
        return d[0] + "(" + ",".join("{" + ",".join(map(str, x)) + "}" if isinstance(x, (list, tuple)) else str(x) for x in d[1:]) + ")"

    return f"in={list(inputs)} " + " ".join(f(d) for d in cmds)


def live_after(inputs, cmds):
    live, measured = list(inputs), []
    for d in cmds:
        if d[0] == "N":
            live.append(d[1])
        elif d[0] == "M":
            live.remove(d[1])
            measured.append(d[1])
    return live, measured


def domains(measured, maxsize=2, nonempty=False):
    for r in range(1 if nonempty else 0, min(maxsize, len(measured)) + 1):
        yield from (list(c) for c in itertools.combinations(sorted(measured), r))


def sequences(inputs, prefix, length, nodes, kinds, meas_codes, cliffs=(), maxdom=1, states=((),)):
    """All runnable extensions of ``prefix`` by ``length`` commands (deterministic order)."""

    def rec(live, measured, acc, left):
        if left == 0:
            yield list(acc)
            return
        for k in kinds:
            if k == "N":
                fresh = [v for v in nodes if v not in live and v not in measured]
                if fresh:
                    v = fresh[0]
                    for s in states:
                        acc.append(["N", v, *s])
                        yield from rec([*live, v], measured, acc, left - 1)
                        acc.pop()
            elif k == "E":
                for u, v in itertools.combinations(sorted(live), 2):
                    acc.append(["E", u, v])
                    yield from rec(live, measured, acc, left - 1)
                    acc.pop()
            elif k == "M":
                for v in live:
                    for mc in meas_codes:
                        for s in domains(measured, maxdom):
                            for t in domains(measured, maxdom):
                                acc.append(["M", v, mc, s, t])
                                yield from rec([x for x in live if x != v], [*measured, v], acc, left - 1)
                                acc.pop()
            elif k in ("X", "Z"):
                for v in live:
                    for dom in domains(measured, maxdom, nonempty=True):
                        acc.append([k, v, dom])
                        yield from rec(live, measured, acc, left - 1)
                        acc.pop()
            elif k == "C":
                for v in live:
                    for c in cliffs:
                        acc.append(["C", v, c])
                        yield from rec(live, measured, acc, left - 1)
                        acc.pop()
            else:
                raise ValueError(k)

    live, measured = live_after(inputs, prefix)
    for tail in rec(live, measured, [], length):
        yield [*prefix, *tail]


def table(st, outputs, labels):
    """Rows of Kraus operators indexed by the outcome bits of ``labels`` (every label, so one row per branch)."""
    rows = st.kraus(outputs)
    idx = np.zeros(st.nb, dtype=int)
    for lab in labels:
        idx = idx * 2 + st.outcomes[lab]
    res = np.zeros((2 ** len(labels), rows.shape[1]), dtype=complex)
    if len(labels) != len(st.outcomes):
        raise ValueError("labels must be all outcomes")
    res[idx] = rows
    return res


def rows_same_rays(a, b, tol=1e-8):
    if a.shape != b.shape:
        return False
    na, nb = np.linalg.norm(a, axis=1), np.linalg.norm(b, axis=1)
    ov = np.abs(np.einsum("ij,ij->i", a.conj(), b))
    return bool(np.max(np.abs(na - nb)) <= tol and np.max(np.abs(ov - na * nb)) <= tol)


def pat_io(p):
    return list(p.input_nodes), list(p.output_nodes)


class Meaning:
    """A pattern together with its branch table (computed once)."""

    def __init__(self, p):
        self.p = p
        st = ref.run_pattern(p)
        self.labels = sorted(st.outcomes)
        self.table = table(st, p.output_nodes, self.labels)


def branch_equal(pa, pb):
    """Same inputs/outputs order, and the same Kraus operator (up to phase) for each outcome assignment. None if equal.

    Either argument may be a pattern or its ``Meaning``.
    """
    ma = pa if isinstance(pa, Meaning) else Meaning(pa)
    pa = ma.p
    if not isinstance(pb, Meaning) and list(pa) == list(pb) and pat_io(pa) == pat_io(pb):
        return None
    mb = pb if isinstance(pb, Meaning) else Meaning(pb)
    pb = mb.p
    if list(pa.input_nodes) != list(pb.input_nodes):
        return f"input nodes {pa.input_nodes} became {pb.input_nodes}"
    if list(pa.output_nodes) != list(pb.output_nodes):
        return f"output nodes {pa.output_nodes} became {pb.output_nodes}"
    if ma.labels != mb.labels:
        return f"measured nodes {ma.labels} became {mb.labels}"
    if not rows_same_rays(ma.table, mb.table):
        return "a branch has a different state or probability"
    return None


def snapshot(p):
    """Observable value of a pattern (for mutation checks)."""
    return (tuple(p.input_nodes), tuple(p.output_nodes), tuple(repr(c) for c in p), p.n_node)

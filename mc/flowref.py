"""Definitions of causal flow, gflow and Pauli flow on bit masks, and brute-force existence.

Everything is written from the definitions (Browne et al. 2007; Backens et al. 2021), never from graphix code.
Labels: "XY", "XZ", "YZ" (planes) and "X", "Y", "Z" (axes).
"""

from __future__ import annotations

PLANES = ("XY", "XZ", "YZ")
AXES = ("X", "Y", "Z")


class Shape:
    """An open graph without labels, with odd neighbourhoods of every set of nodes (nodes are 0..n-1)."""

    def __init__(self, n, edges, inputs, outputs):
        self.n = n
        self.all = (1 << n) - 1
        self.nb = [0] * n
        for a, b in edges:
            self.nb[a] |= 1 << b
            self.nb[b] |= 1 << a
        self.i = sum(1 << v for v in inputs)
        self.o = sum(1 << v for v in outputs)
        self.odd = [0] * (1 << n)
        for p in range(1, 1 << n):
            low = p & -p
            self.odd[p] = self.odd[p ^ low] ^ self.nb[low.bit_length() - 1]
        self.sets = [p for p in range(1 << n) if not p & self.i]
        self.measured = [v for v in range(n) if not self.o >> v & 1]


def mask(xs):
    m = 0
    for x in xs:
        m |= 1 << x
    return m


def bits(m):
    return [v for v in range(m.bit_length()) if m >> v & 1]


def local_ok(label, inp, inodd):
    """Own-node condition (P4-P9, G3-G5)."""
    if label == "XY":
        return not inp and inodd
    if label == "XZ":
        return inp and inodd
    if label == "YZ":
        return inp and not inodd
    if label == "X":
        return inodd
    if label == "Z":
        return inp
    if label == "Y":
        return inp != inodd
    raise ValueError(label)


def pauli_ok(sh, labels, u, p, future):
    """Does the correction set p serve node u when exactly the nodes of ``future`` come after u?"""
    odd = sh.odd[p]
    bu = 1 << u
    if not local_ok(labels[u], bool(p & bu), bool(odd & bu)):
        return False
    rest = sh.all & ~future & ~bu
    for v in bits((p | odd) & rest):
        lab = labels[v]
        bv = 1 << v
        if p & bv and lab not in ("X", "Y"):
            return False  # P1
        if odd & bv and lab not in ("Y", "Z"):
            return False  # P2
        if lab == "Y" and bool(p & bv) != bool(odd & bv):
            return False  # P3
    return True


def planar_ok(sh, labels, u, p, future):
    """Gflow conditions G1-G5."""
    odd = sh.odd[p]
    bu = 1 << u
    return local_ok(labels[u], bool(p & bu), bool(odd & bu)) and not ((p | odd) & ~bu & ~future)


def causal_ok(sh, labels, u, p, future):
    """Causal flow conditions C0-C3 (XY measurements only)."""
    if labels[u] != "XY" or p == 0 or p & (p - 1):
        return False
    nb = sh.nb[p.bit_length() - 1]
    bu = 1 << u
    return bool(nb & bu) and not (p & ~future) and not (nb & ~bu & ~future)


OK = {"pauli": pauli_ok, "gflow": planar_ok, "causal": causal_ok}


def exists(kind, sh, labels):
    """Depth of the shallowest flow of this kind (number of measurement layers), or None when there is none.

    Backward induction: a node can be added as soon as some correction set serves it, all nodes added before being in
    its future; adding as many nodes as possible at every step is optimal since a larger future only weakens the conditions.
    """
    ok = OK[kind]
    future = sh.o
    todo = list(sh.measured)
    depth = 0
    while todo:
        now = [u for u in todo if any(ok(sh, labels, u, p, future) for p in sh.sets)]
        if not now:
            return None
        todo = [u for u in todo if u not in now]
        future |= mask(now)
        depth += 1
    return depth


def layering_ok(sh, layers):
    """A layered order: outputs exactly in layer 0 if there are any, then non-empty disjoint layers covering the rest."""
    layers = [set(x) for x in layers]
    rest = layers
    if sh.o:
        if not layers or layers[0] != set(bits(sh.o)):
            return False
        rest = layers[1:]
    seen = set()
    for x in rest:
        if not x or x & seen:
            return False
        seen |= x
    return seen == set(sh.measured)


def flow_ok(kind, sh, labels, c, layers):
    """The definition: correction function on all measured nodes, correcting with non-inputs, layered order, conditions."""
    if set(c) != set(sh.measured):
        return False
    for p in c.values():
        if any(v < 0 or v >= sh.n or sh.i >> v & 1 for v in p):
            return False
    if not layering_ok(sh, layers):
        return False
    ok = OK[kind]
    future = 0
    for x in layers:
        for u in x:
            if not sh.o >> u & 1 and not ok(sh, labels, u, mask(c[u]), future):
                return False
        future |= mask(x)
    return True


def focused(sh, labels, c):
    """Definition 4.3 of Simmons 2021."""
    for u, p in c.items():
        p = mask(p)
        odd = sh.odd[p]
        for v in sh.measured:
            if v == u:
                continue
            bv = 1 << v
            inp, inodd = bool(p & bv), bool(odd & bv)
            lab = labels[v]
            if inp and lab not in ("XY", "X", "Y"):
                return False
            if inodd and lab not in ("XZ", "YZ", "Y", "Z"):
                return False
            if lab == "Y" and inp != inodd:
                return False
    return True

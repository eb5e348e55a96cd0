"""Circuit alphabets and enumeration. A gate is a JSON list such as ["RX", 0, 0.37] or ["CNOT", 0, 1] or ["M", 1, "Y"]."""

from __future__ import annotations

import itertools

from graphix import Axis, Circuit

G = 0.37  # generic angle (units of pi)
G2 = 1.83


def singles(n, kinds=("I", "H", "S", "X", "Y", "Z", "RX", "RY", "RZ", "J"), angle=G):
    for k in kinds:
        for q in range(n):
            yield [k, q, angle] if k in ("RX", "RY", "RZ", "J") else [k, q]


def doubles(n, kinds=("CNOT", "CZ", "SWAP", "RZZ"), angle=G2):
    for k in kinds:
        pairs = itertools.permutations(range(n), 2) if k in ("CNOT", "RZZ", "CZ", "SWAP") else ()
        for a, b in pairs:
            yield [k, a, b, angle] if k == "RZZ" else [k, a, b]


def measures(n, axes="XYZ"):
    for q in range(n):
        for a in axes:
            yield ["M", q, a]


def build(n, gates):
    c = Circuit(n)
    for g in gates:
        apply(c, g)
    return c


def apply(c, g):
    k = g[0]
    if k == "M":
        c.m(g[1], Axis[g[2]])
    elif k == "CCX":
        c.ccx(g[1], g[2], g[3])
    elif k in ("RX", "RY", "RZ", "J", "RZZ", "CNOT", "CZ", "SWAP", "H", "S", "X", "Y", "Z", "I"):
        getattr(c, k.lower())(*g[1:])
    else:
        raise ValueError(k)


def legal(gates):
    """No gate acts on a measured qubit."""
    dead = set()
    for g in gates:
        qs = g[1:2] if g[0] in ("M", "RX", "RY", "RZ", "J", "H", "S", "X", "Y", "Z", "I") else (
            g[1:4] if g[0] == "CCX" else g[1:3]
        )
        if any(q in dead for q in qs):
            return False
        if g[0] == "M":
            dead.add(g[1])
    return True


def words(alphabet, length):
    alphabet = list(alphabet)
    for w in itertools.product(alphabet, repeat=length):
        if legal(w):
            yield list(w)


def show(gates):
    return " ".join(g[0] + "(" + ",".join(map(str, g[1:])) + ")" for g in gates)

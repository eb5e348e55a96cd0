"""Reference density operators and the operation alphabet shared by the dense-simulation checks (S01, S02)."""

from __future__ import annotations

import itertools

import numpy as np
from graphix.states import BasicStates, PlanarState
from graphix.fundamentals import Plane

from mc import ref


def generic_unitary(k, seed):
    """A fixed unitary in general position (no symmetry) on k qubits."""
    d = 2**k
    m = np.array([[np.exp(1j * ((a + 1.3) ** 2 * (seed + 0.7) + 2.1 * b * b * (a + 1))) * (1 + 0.1 * ((a * 5 + b * 3 + seed) % 4)) for b in range(d)] for a in range(d)])
    q, r = np.linalg.qr(m + 0.35 * np.eye(d))
    return q @ np.diag(np.diag(r) / np.abs(np.diag(r)))


U1 = generic_unitary(1, 1)
U2 = generic_unitary(2, 2)
U3 = generic_unitary(3, 3)


def vec(n, seed=0):
    v = np.array([np.exp(1.7j * (k + 1 + seed) ** 2) * (1 + 0.31 * ((k * 7 + seed) % 5)) for k in range(2**n)])
    return v / np.linalg.norm(v)


class Rho:
    """Textbook density operator: explicit Kronecker products only."""

    def __init__(self, rho):
        self.rho = np.asarray(rho, dtype=complex)
        self.n = self.rho.shape[0].bit_length() - 1

    def full(self, op, qubits):
        """The 2^n x 2^n matrix of op on the given qubits (entry by entry on bit strings)."""
        n, k = self.n, len(qubits)
        t = np.einsum("ij,kl->ikjl", np.asarray(op, dtype=complex), np.eye(2 ** (n - k))).reshape((2,) * (2 * n))
        rest = [q for q in range(n) if q not in qubits]
        order = list(qubits) + rest
        inv = [order.index(q) for q in range(n)]
        return np.transpose(t, inv + [n + i for i in inv]).reshape(2**n, 2**n)

    def unitary(self, op, qubits):
        u = self.full(op, qubits)
        return Rho(u @ self.rho @ u.conj().T)

    def kraus(self, ops, qubits):
        out = 0
        for k in ops:
            u = self.full(k, qubits)
            out = out + u @ self.rho @ u.conj().T
        return Rho(out)

    def tensor(self, other):
        return Rho(np.kron(self.rho, other))

    def trace_out(self, qubits):
        t = self.rho.reshape((2,) * (2 * self.n))
        n = self.n
        for q in sorted(qubits, reverse=True):
            t = np.trace(t, axis1=q, axis2=n + q)
            n -= 1
        return Rho(t.reshape(2**n, 2**n))

    def project(self, op, q):
        """(state without qubit q after outcome op, probability)."""
        u = self.full(op, [q])
        r = u @ self.rho @ u.conj().T
        p = np.trace(r).real
        if p < 1e-9:
            return None, p
        return Rho(r / p).trace_out([q]), p

    def permute(self, perm):
        t = self.rho.reshape((2,) * (2 * self.n))
        return Rho(np.transpose(t, list(perm) + [self.n + p for p in perm]).reshape(self.rho.shape))

    def expect(self, op, qubits):
        return complex(np.trace(self.full(op, qubits) @ self.rho))


GEN1 = [PlanarState(Plane.XY, 0.41), PlanarState(Plane.XZ, 1.23), PlanarState(Plane.YZ, -0.57)]

# name -> (number of qubits, data given to graphix (fresh on each call), ket)
ADDS = {
    "plus": (1, lambda: BasicStates.PLUS, ref.PLUS),
    "plus_eq": (1, lambda: PlanarState(Plane.XY, 0), ref.PLUS),
    "zero": (1, lambda: BasicStates.ZERO, np.array([1, 0], dtype=complex)),
    "gen": (1, lambda: GEN1[0], ref.planar_ket(GEN1[0])),
    "plus2": (2, lambda: BasicStates.PLUS, np.kron(ref.PLUS, ref.PLUS)),
    "list": (2, lambda: [GEN1[1], GEN1[2]], np.kron(ref.planar_ket(GEN1[1]), ref.planar_ket(GEN1[2]))),
    "vec": (2, lambda: vec(2, 3), vec(2, 3)),
    "one_vec": (1, lambda: [0.6, 0.8j], np.array([0.6, 0.8j])),
    "none": (0, lambda: [], np.array([1.0 + 0j])),
}

BLOCH = {"gen": (0.48, 0.6, 0.64), "z": (0.0, 0.0, 1.0), "xy": (np.cos(0.9), np.sin(0.9), 0.0)}


def projector(name, r):
    return (ref.I2 + (-1) ** r * ref.observable(BLOCH[name])) / 2


def ops(n, cap, adds=tuple(ADDS)):
    """Every operation available on n qubits (never going above cap)."""
    for a in adds:
        if n + ADDS[a][0] <= cap:
            yield ["add", a]
    for a, b in itertools.permutations(range(n), 2):
        yield ["cz", a, b]
        yield ["u2", a, b]
        if a < b:
            yield ["swap", a, b]
    for q in range(n):
        yield ["u1", q]
        for m in BLOCH:
            for r in (0, 1):
                yield ["proj", m, r, q]
    for p in itertools.permutations(range(n)):
        if n > 1:
            yield ["perm", list(p)]
    if n >= 3:
        for p in itertools.permutations(range(n), 3):
            yield ["u3", *p]


def apply_ref(rho, op):
    """Reference step: (new reference or None if impossible)."""
    k = op[0]
    if k == "add":
        v = ADDS[op[1]][2]
        return rho.tensor(np.outer(v, v.conj()))
    if k == "cz":
        return rho.unitary(ref.CZ, op[1:])
    if k == "swap":
        return rho.unitary(ref.SWAP, op[1:])
    if k == "u1":
        return rho.unitary(U1, op[1:])
    if k == "u2":
        return rho.unitary(U2, op[1:])
    if k == "u3":
        return rho.unitary(U3, op[1:])
    if k == "perm":
        return rho.permute(op[1])
    if k == "proj":
        return rho.project(projector(op[1], op[2]), op[3])[0]
    raise ValueError(k)


def apply_impl(st, op):
    k = op[0]
    if k == "add":
        nq, data, _ = ADDS[op[1]]
        st.add_nodes(nq, data())
    elif k == "cz":
        st.entangle((op[1], op[2]))
    elif k == "swap":
        st.swap((op[1], op[2]))
    elif k == "u1":
        st.evolve_single(U1, op[1])
    elif k == "u2":
        st.evolve(U2, op[1:])
    elif k == "u3":
        st.evolve(U3, op[1:])
    elif k == "perm":
        st.permute(op[1])
    elif k == "proj":
        st.project_qubit(projector(op[1], op[2]), op[3])
    else:
        raise ValueError(k)

"""Independent reference semantics (numpy only): branch-complete pattern execution, circuits, channels.

Nothing here calls graphix algorithms: only plain data is read off the graphix objects (command kinds, node labels,
planes, angles in units of pi, axes, signs, Clifford 2x2 matrices; the latter are verified by check A01).
"""

from __future__ import annotations

import functools
import math

import numpy as np

PI = math.pi
I2 = np.eye(2, dtype=complex)
X = np.array([[0, 1], [1, 0]], dtype=complex)
Y = np.array([[0, -1j], [1j, 0]], dtype=complex)
Z = np.array([[1, 0], [0, -1]], dtype=complex)
H = np.array([[1, 1], [1, -1]], dtype=complex) / math.sqrt(2)
S = np.array([[1, 0], [0, 1j]], dtype=complex)
PAULI = {"I": I2, "X": X, "Y": Y, "Z": Z}
CZ = np.diag([1, 1, 1, -1]).astype(complex)
CNOT = np.array([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]], dtype=complex)
SWAP = np.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]], dtype=complex)
CCX = np.eye(8, dtype=complex)
CCX[6:, 6:] = X
PLUS = np.array([1, 1], dtype=complex) / math.sqrt(2)


def rx(a):
    t = a * PI / 2
    return np.array([[math.cos(t), -1j * math.sin(t)], [-1j * math.sin(t), math.cos(t)]], dtype=complex)


def ry(a):
    t = a * PI / 2
    return np.array([[math.cos(t), -math.sin(t)], [math.sin(t), math.cos(t)]], dtype=complex)


def rz(a):
    t = a * PI / 2
    return np.diag([np.exp(-1j * t), np.exp(1j * t)])


def jgate(a):
    return H @ np.diag([1, np.exp(1j * a * PI)])


def rzz(a):
    t = a * PI / 2
    return np.diag([np.exp(-1j * t), np.exp(1j * t), np.exp(1j * t), np.exp(-1j * t)])


def bloch(measurement):
    """Bloch vector of the observable of a graphix measurement (PauliMeasurement or BlochMeasurement)."""
    plane = getattr(measurement, "plane", None)
    if plane is None:
        axis, sign = measurement.axis.name, measurement.sign
        v = {"X": (1.0, 0.0, 0.0), "Y": (0.0, 1.0, 0.0), "Z": (0.0, 0.0, 1.0)}[axis]
        s = 1.0 if sign.name == "PLUS" else -1.0
        return tuple(s * t for t in v)
    c, s = math.cos(float(measurement.angle) * PI), math.sin(float(measurement.angle) * PI)
    return {"XY": (c, s, 0.0), "YZ": (0.0, s, c), "XZ": (s, 0.0, c)}[plane.name]


def observable(v):
    return v[0] * X + v[1] * Y + v[2] * Z


def eigenket(obs, outcome):
    """Unit eigenvector of ``obs`` for eigenvalue (-1)^outcome (phase convention irrelevant)."""
    p = (I2 + (-1) ** outcome * obs) / 2
    col = 0 if abs(p[0, 0]) >= abs(p[1, 1]) else 1
    v = p[:, col]
    return v / np.linalg.norm(v)


@functools.lru_cache(maxsize=4096)
def all_bras(v):
    """bras[i, j, r]: eigenbra for outcome r of v.sigma conjugated by X^i Z^j."""
    obs = observable(v)
    bras = np.zeros((2, 2, 2, 2), dtype=complex)
    for i in (0, 1):
        for j in (0, 1):
            p = np.linalg.matrix_power(X, i) @ np.linalg.matrix_power(Z, j)
            o = p @ obs @ p.conj().T
            for r in (0, 1):
                bras[i, j, r] = eigenket(o, r).conj()
    bras.setflags(write=False)
    return bras


def planar_ket(state):
    """Statevector of a graphix PlanarState, computed from plane and angle."""
    plane = getattr(state, "plane", None)
    if plane is None:
        return np.asarray(state.to_statevector_numpy(), dtype=complex)
    a = float(state.angle) * PI
    if plane.name == "XY":
        return np.array([1, np.exp(1j * a)]) / math.sqrt(2)
    if plane.name == "YZ":
        return np.array([math.cos(a / 2), 1j * math.sin(a / 2)], dtype=complex)
    return np.array([math.cos(a / 2), math.sin(a / 2)], dtype=complex)


class BranchState:
    """All branches of an adaptive computation at once.

    ``psi`` has shape ``(B, 2, ..., 2)``: branch axis, then one axis per live qubit (``self.axes``), then one reference
    axis per input (so each branch holds the Kraus operator of the computation so far, as a Choi vector).
    """

    def __init__(self, inputs):
        self.inputs = list(inputs)
        n = len(self.inputs)
        self.axes = list(self.inputs)  # live qubits, in tensor order
        self.outcomes = {}  # label -> int array (B,)
        self.order = []
        d = 2**n
        self.psi = np.eye(d, dtype=complex).reshape((1,) + (2,) * (2 * n))
        self.steps = 0

    @property
    def nb(self):
        return self.psi.shape[0]

    def add(self, node, ket):
        if node in self.axes or node in self.outcomes:
            raise ValueError(f"node {node} reused")
        k = len(self.axes)
        psi = np.tensordot(self.psi, ket, axes=0)  # new axis last
        self.psi = np.moveaxis(psi, -1, 1 + k)
        self.axes.append(node)
        self.steps += self.nb

    def ax(self, node):
        return 1 + self.axes.index(node)

    def gate(self, u, nodes, mask=None):
        """Apply the unitary (or Kraus) ``u`` on ``nodes``; ``mask`` selects branches."""
        k = len(nodes)
        axs = [self.ax(n) for n in nodes]
        if len(set(axs)) != k:
            raise ValueError("repeated target")
        src = self.psi if mask is None else self.psi[mask]
        t = np.tensordot(u.reshape((2,) * (2 * k)), src, axes=(list(range(k, 2 * k)), axs))
        t = np.moveaxis(t, list(range(k)), axs)
        if mask is None:
            self.psi = t
        else:
            psi = self.psi.copy()
            psi[mask] = t
            self.psi = psi
        self.steps += self.nb

    def parity(self, domain):
        p = np.zeros(self.nb, dtype=int)
        for d in domain:
            p ^= self.outcomes[d]
        return p

    def measure(self, node, v, s=(), t=(), label=None):
        """Measure observable v.sigma conjugated by X^s Z^t; both outcomes are kept."""
        ps, pt = self.parity(s), self.parity(t)
        a = self.ax(node)
        psi = np.moveaxis(self.psi, a, 1)
        rest = psi.shape[2:]
        flat = psi.reshape(self.nb, 2, -1)
        bras = all_bras(tuple(map(float, v)))
        new = []
        for r in (0, 1):
            b = bras[ps, pt, r]  # (B,2)
            new.append(np.einsum("bi,bij->bj", b, flat))
        nb = self.nb
        self.psi = np.concatenate(new, axis=0).reshape((2 * nb,) + rest)
        self.axes.remove(node)
        for k in self.outcomes:
            self.outcomes[k] = np.concatenate([self.outcomes[k]] * 2)
        lab = node if label is None else label
        if lab in self.outcomes:
            raise ValueError("label reused")
        self.outcomes[lab] = np.concatenate([np.zeros(nb, dtype=int), np.ones(nb, dtype=int)])
        self.order.append(lab)
        self.steps += self.nb

    def prune(self, max_ones, free=()):
        """Keep only the branches with at most ``max_ones`` outcomes equal to 1 (not counting labels in ``free``)."""
        ones = np.zeros(self.nb, dtype=int)
        for k, v in self.outcomes.items():
            if k not in free:
                ones += v
        keep = ones <= max_ones
        self.psi = self.psi[keep]
        for k in self.outcomes:
            self.outcomes[k] = self.outcomes[k][keep]

    def kraus(self, outputs):
        """Matrix (B, 2^out * 2^in) of Choi vectors, output qubits in the order ``outputs``, inputs in input order."""
        if sorted(map(str, outputs)) != sorted(map(str, self.axes)):
            raise ValueError(f"outputs {outputs} are not the live qubits {self.axes}")
        k = len(self.axes)
        perm = [0] + [self.ax(n) for n in outputs] + list(range(1 + k, self.psi.ndim))
        return np.transpose(self.psi, perm).reshape(self.nb, -1)


def run_commands(st, cmds, max_ones=None, free=()):
    for cmd in cmds:
        kind = cmd.kind.name
        if kind == "N":
            st.add(cmd.node, planar_ket(cmd.state))
        elif kind == "E":
            st.gate(CZ, list(cmd.nodes))
        elif kind == "M":
            st.measure(cmd.node, bloch(cmd.measurement), cmd.s_domain, cmd.t_domain)
            if max_ones is not None:
                st.prune(max_ones, free)
        elif kind in ("X", "Z"):
            mask = st.parity(cmd.domain).astype(bool)
            if mask.any():
                st.gate(X if kind == "X" else Z, [cmd.node], mask)
        elif kind == "C":
            st.gate(np.asarray(cmd.clifford.matrix), [cmd.node])
        elif kind == "S":
            # Signal shift: the recorded outcome of ``node`` is replaced by outcome + parity(domain).
            st.outcomes[cmd.node] = st.outcomes[cmd.node] ^ st.parity(cmd.domain)
        elif kind == "T":
            pass
        else:
            raise ValueError(kind)
    return st


def run_pattern(pattern, max_ones=None, free=()):
    return run_commands(BranchState(pattern.input_nodes), pattern, max_ones, free)


def pattern_kraus(pattern):
    """(Choi rows, outcomes dict label->array, live order list) of a graphix pattern, over every branch."""
    st = run_pattern(pattern)
    return st.kraus(pattern.output_nodes), st


def run_circuit(circuit_width, instrs):
    """Run graphix instructions; returns the BranchState (live qubits are circuit wires, outcomes labelled 0,1,..)."""
    st = BranchState(range(circuit_width))
    nm = 0
    for ins in instrs:
        k = ins.kind.name
        if k == "M":
            v = {"X": (1, 0, 0), "Y": (0, 1, 0), "Z": (0, 0, 1)}[ins.axis.name]
            st.measure(ins.target, v, label=("c", nm))
            nm += 1
        elif k == "CNOT":
            st.gate(CNOT, [ins.control, ins.target])
        elif k == "CZ":
            st.gate(CZ, list(ins.targets))
        elif k == "SWAP":
            st.gate(SWAP, list(ins.targets))
        elif k == "RZZ":
            st.gate(rzz(float(ins.angle)), [ins.control, ins.target])
        elif k == "CCX":
            st.gate(CCX, [*ins.controls, ins.target])
        elif k == "I":
            pass
        elif k in ("H", "S", "X", "Y", "Z"):
            st.gate({"H": H, "S": S, "X": X, "Y": Y, "Z": Z}[k], [ins.target])
        elif k in ("RX", "RY", "RZ", "J"):
            u = {"RX": rx, "RY": ry, "RZ": rz, "J": jgate}[k](float(ins.angle))
            st.gate(u, [ins.target])
        else:
            raise ValueError(k)
    return st


TOL = 1e-8


def group_sum(rows):
    """Choi matrix of the CP map with the given Kraus Choi rows."""
    return rows.T @ rows.conj()


def same_ray(a, b, tol=TOL):
    """Are the two (unnormalised) vectors equal up to a global phase?"""
    na, nb = np.linalg.norm(a), np.linalg.norm(b)
    if abs(na - nb) > tol:
        return False
    if na < tol:
        return True
    return abs(abs(np.vdot(a, b)) - na * nb) <= tol * max(1.0, na * nb)


def proportional(a, b, tol=TOL):
    na, nb = np.linalg.norm(a), np.linalg.norm(b)
    if na < tol or nb < tol:
        return na < tol and nb < tol
    return abs(abs(np.vdot(a, b)) / (na * nb) - 1) <= tol


def all_rows_equal(rows, tol=TOL):
    """Every branch implements the same map, with the same probability."""
    n = np.linalg.norm(rows, axis=1)
    if np.max(np.abs(n - n[0])) > tol:
        return False
    if n[0] < tol:
        return True
    ov = np.abs(rows @ rows[0].conj())
    return bool(np.max(np.abs(ov - n * n[0])) <= tol)


def nonzero_rows_proportional(rows, tol=TOL):
    """Every branch of non-zero probability implements the same map (determinism up to probabilities)."""
    n = np.linalg.norm(rows, axis=1)
    nz = rows[n > 1e-7]
    if len(nz) == 0:
        return False
    nn = np.linalg.norm(nz, axis=1)
    ov = np.abs(nz @ nz[0].conj())
    return bool(np.max(np.abs(ov - nn * nn[0])) <= tol)


def channel_close(rows_a, rows_b, tol=1e-7):
    """Same channel (sum over all branches)."""
    if rows_a.shape[1] != rows_b.shape[1]:
        return False
    return bool(np.max(np.abs(group_sum(rows_a) - group_sum(rows_b))) <= tol)


def indexed_maps(st, outputs, labels):
    """CP maps (Choi matrices) of a run, indexed by the values of the outcome ``labels`` (in this order)."""
    rows = st.kraus(outputs)
    idx = np.zeros(st.nb, dtype=int)
    for lab in labels:
        idx = idx * 2 + st.outcomes[lab]
    res = []
    for v in range(2 ** len(labels)):
        sel = rows[idx == v]
        res.append(group_sum(sel) if len(sel) else np.zeros((rows.shape[1],) * 2, dtype=complex))
    return res


def maps_close(a, b, tol=1e-7):
    return len(a) == len(b) and all(x.shape == y.shape and np.max(np.abs(x - y)) <= tol for x, y in zip(a, b, strict=True))


def pauli_string(letters):
    m = np.array([[1]], dtype=complex)
    for ch in letters:
        m = np.kron(m, PAULI[ch])
    return m

"""S02: density-matrix simulation is exact; every channel is trace preserving and has its documented action."""

import copy
import itertools
import math

import numpy as np
from graphix import channels as ch
from graphix import command
from graphix import linalg_validations as lv
from graphix.channels import KrausChannel, KrausData
from graphix.clifford import Clifford
from graphix.noise_models import (
    AmplitudeDampingNoise,
    ApplyNoise,
    DepolarisingNoise,
    TwoQubitAmplitudeDampingNoise,
    TwoQubitDepolarisingNoise,
)
from graphix.sim.density_matrix import DensityMatrix, DensityMatrixBackend
from graphix.sim.statevec import Statevector
from graphix.states import BasicStates

from checks import S01 as s1
from mc import dense, ref

META = {
    "bounds": {
        "quick": "every sequence of <=2 operations (3 from registers of at most 1 qubit) from 7 pure or mixed registers of 0-3 qubits, at most 3 qubits (4 after a preparation): 9 preparations as states, vectors or matrices, "
        "CZ, CNOT, SWAP, generic 1/2/3-qubit unitaries and 1/2-qubit channels on every target, every permutation, partial trace of every subset, projections of every qubit; "
        "every sequence of <=3 backend operations on labelled nodes; every provided channel at 13 probabilities per parameter; every list of <=3 Kraus operators from a pool of 14",
        "thorough": "sequences of <=3 operations (4 from registers of at most 1 qubit), backend sequences of <=4, lists of <=4 Kraus operators",
    },
    "assumptions": ["floating-point comparisons within 1e-8", "operators in general position stand for all operators"],
}
TOL = 1e-8
PAULI = {"I": ref.I2, "X": ref.X, "Y": ref.Y, "Z": ref.Z}


def mixed(n, seed=0):
    """A full-rank density matrix in general position."""
    d = 2**n
    u = dense.generic_unitary(n, seed + 3) if n else np.eye(1)
    w = np.array([1.0 + 0.37 * k + 0.1 * ((k * 3 + seed) % 4) for k in range(d)])
    return (u * (w / w.sum())) @ u.conj().T


def pure(n, seed=0):
    v = dense.vec(n, seed)
    return np.outer(v, v.conj())


INIT = [("p", 0), ("m", 1), ("p", 1), ("m", 2), ("p", 2), ("m", 3), ("p", 3)]


def initial(i):
    k, n = INIT[i]
    return (mixed if k == "m" else pure)(n)


# A generic non-unital channel: three Kraus operators with complex coefficients.
def generic_channel(k):
    d = 2**k
    iso = dense.generic_unitary(k + 2, 5)[:, :d]
    blocks = [iso[d * j : d * (j + 1)] for j in range(4)]
    coef = [1.0, 0.5, 2j, np.exp(0.3j)]
    return [c * (b / c) for c, b in zip(coef, blocks, strict=True)], KrausChannel([KrausData(c, b / c) for c, b in zip(coef, blocks, strict=True)])


G1, CH1 = generic_channel(1)
G2, CH2 = generic_channel(2)
AD = [np.array([[1, 0], [0, math.sqrt(0.7)]]), np.array([[0, math.sqrt(0.3)], [0, 0]])]
DEPO2 = [math.sqrt(0.8) * np.eye(4)] + [math.sqrt(0.2 / 15) * np.kron(PAULI[a], PAULI[b]) for a, b in itertools.product("IXYZ", repeat=2) if a + b != "II"]
REAL2 = np.kron(np.array([[0.6, -0.8], [0.8, 0.6]]), np.array([[0, 1], [1, 0]]))

# Preparations only a density matrix accepts
MADDS = {
    "mat": (1, lambda: mixed(1, 2), mixed(1, 2)),
    "mat2": (2, lambda: [list(r) for r in mixed(2, 1)], mixed(2, 1)),
    "half": (1, lambda: np.eye(2) / 2, np.eye(2) / 2),
    "int": (1, lambda: [[0, 0], [0, 1]], np.diag([0, 1])),
    "dm": (2, lambda: DensityMatrix(mixed(2, 1)), mixed(2, 1)),
    "sv": (2, lambda: Statevector(dense.vec(2, 4)), pure(2, 4)),
}


def ops(n):
    cap = 3 if n < 3 else 4
    yield from dense.ops(n, cap)
    for a, (k, *_) in MADDS.items():
        if n + k <= cap:
            yield ["madd", a]
    for k in range(1, n + 1):
        for s in itertools.permutations(range(n), k):
            if k == 1:
                yield ["ptrace", s[0]]
            if k < 3 or s == tuple(sorted(s)):
                yield ["ptrace", list(s)]
    for q in range(n):
        yield ["ch", "gen", q]
        yield ["noise", "ad", q]
        yield ["real1", q]
        yield ["remove", q]
    for a, b in itertools.permutations(range(n), 2):
        yield ["cnot", a, b]
        yield ["ch", "gen", a, b]
        yield ["noise", "depo", a, b]
        yield ["real2", a, b]
    yield ["normalize"]


def ref_step(r, op):
    k = op[0]
    if k == "madd":
        return r.tensor(MADDS[op[1]][2])
    if k == "ptrace":
        return r.trace_out([op[1]] if isinstance(op[1], int) else op[1])
    if k == "remove":
        return r.trace_out([op[1]])
    if k == "ch":
        return r.kraus(G1 if len(op) == 3 else G2, op[2:])
    if k == "noise":
        return r.kraus(AD if op[1] == "ad" else DEPO2, op[2:])
    if k == "cnot":
        return r.unitary(np.array([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]]), op[1:])
    if k == "real1":
        return r.unitary(np.array([[0.6, -0.8], [0.8, 0.6]]), op[1:])
    if k == "real2":
        return r.unitary(REAL2, op[1:])
    if k == "normalize":
        return r
    return dense.apply_ref(r, op)


def impl_step(st, op):
    k = op[0]
    if k == "madd":
        n, data, _ = MADDS[op[1]]
        if op[1] == "dm":
            st.tensor(data())
        else:
            st.add_nodes(n, data())
    elif k == "ptrace":
        st.ptrace(op[1])
    elif k == "remove":
        st.remove_qubit(op[1])
    elif k == "ch":
        st.apply_channel(CH1 if len(op) == 3 else CH2, op[2:])
    elif k == "noise":
        st.apply_noise(op[2:], AmplitudeDampingNoise(0.3) if op[1] == "ad" else TwoQubitDepolarisingNoise(0.2))
    elif k == "cnot":
        st.cnot((op[1], op[2]))
    elif k == "real1":
        st.evolve_single(np.array([[0.6, -0.8], [0.8, 0.6]]), op[1])
    elif k == "real2":
        st.evolve(REAL2, op[1:])
    elif k == "normalize":
        st.normalize()
    else:
        dense.apply_impl(st, op)


def sane(R, st, r, tag):
    m = np.asarray(st.rho)
    if m.shape != r.rho.shape or m.dtype != np.complex128 or np.max(np.abs(m - r.rho)) > TOL:
        R.bad(tag, f"density matrix after {tag} is {m} ({m.dtype}), expected {r.rho}")
        return False
    if np.max(np.abs(m - m.conj().T)) > TOL or abs(np.trace(m) - 1) > TOL or np.linalg.eigvalsh(m)[0] < -TOL:
        R.bad(f"{tag}:state", f"after {tag} the matrix is not a density matrix: {m}")
        return False
    return True


def observe(R, st, r, tag, full):
    if not sane(R, st, r, tag):
        return False
    n = r.n
    before = st.rho.copy()
    if st.nqubit != n or st.dims() != (2**n, 2**n) or not np.array_equal(st.flatten(), before.ravel()):
        R.bad(f"{tag}:dims", f"nqubit {st.nqubit}, dims {st.dims()} after {tag}")
    if full:
        for q in range(n):
            got = st.expectation_single(dense.U1, q)
            if abs(got - r.expect(dense.U1, [q])) > TOL:
                R.bad(f"{tag}:exp:{q}", f"expectation_single on {q} = {got}, expected {r.expect(dense.U1, [q])} after {tag}")
        for s in (0, 1):
            v = dense.vec(n, s)
            try:
                f = st.fidelity(Statevector(v))
            except AssertionError:
                R.bad(f"{tag}:fidelity", f"fidelity refuses the state reached by {tag}")
                break
            if abs(f - np.vdot(v, r.rho @ v).real) > TOL:
                R.bad(f"{tag}:fidelity", f"fidelity = {f}, expected {np.vdot(v, r.rho @ v).real} after {tag}")
        try:
            again = DensityMatrix(st.rho)
            if not np.array_equal(again.rho, before):
                R.bad(f"{tag}:again", f"rebuilding the density matrix of {tag} changed it")
            again.evolve_single(ref.X, 0) if n else None
        except ValueError as e:
            R.bad(f"{tag}:again", f"the state reached by {tag} is not accepted as a density matrix: {e}")
    if not np.array_equal(before, st.rho):
        R.bad(f"{tag}:observer", f"an observer changed the state after {tag}")
        return False
    return True


def step(R, st, r, op, depth, hist):
    tag = " ".join("".join(map(str, o)).replace(" ", "") for o in [*hist, op])
    R.at(tag)
    R.state()
    R.trans()
    s2 = DensityMatrix(st)
    r2 = ref_step(r, op)
    if r2 is None:
        R.count("impossible_outcomes")
        return
    impl_step(s2, op)
    if not observe(R, s2, r2, tag, depth > 1 or len(hist) < 2):
        return
    if depth > 1:
        keep = s2.rho.copy()
        for o in ops(r2.n):
            step(R, s2, r2, o, depth - 1, [*hist, op])
        if not np.array_equal(keep, s2.rho):
            R.bad(f"{tag}:alias", f"working on a copy changed the state after {tag}")


# ---------------------------------------------------------------- agreement with the statevector


def agree(R, n, depth):
    """Unitary-and-measurement histories on both representations."""
    def rec(sv, dm, d, hist):
        for op in dense.ops(sv.nqubit, 3):
            a, b = Statevector(sv), DensityMatrix(dm)
            tag = " ".join("".join(map(str, o)).replace(" ", "") for o in [*hist, op])
            R.state()
            R.trans(2)
            try:
                dense.apply_impl(a, op)
            except RuntimeError:
                continue
            dense.apply_impl(b, op)
            v = np.asarray(a.flatten())
            if b.rho.shape != (v.size, v.size) or np.max(np.abs(np.outer(v, v.conj()) - b.rho)) > TOL:
                R.bad(f"agree:{n}:{tag}", f"density matrix and statevector differ after {tag}")
            elif d > 1:
                rec(a, b, d - 1, [*hist, op])

    v = dense.vec(n, 1)
    rec(Statevector(v), DensityMatrix(Statevector(v)), depth, [])
    R.trace()


# ---------------------------------------------------------------- channels

PROBS = [0.0, 1e-12, 1e-6, 0.01, 0.1, 0.25, 1 / 3, 0.5, 2 / 3, 0.75, 0.9, 0.999999, 1.0]


def superop(pairs):
    return sum(np.kron(c * np.asarray(k), (c * np.asarray(k)).conj()) for c, k in pairs)


def mix(terms):
    """Superoperator of sum p U . U^dagger."""
    return sum(p * np.kron(u, u.conj()) for p, u in terms)


def documented():
    """(name, parameters, channel constructor, documented superoperator, number of qubits)."""
    two = list(itertools.product("IXYZ", repeat=2))
    for p in PROBS:
        yield "dephasing", (p,), lambda p=p: ch.dephasing_channel(p), mix([(1 - p, ref.I2), (p, ref.Z)]), 1
        dep = mix([(1 - p, ref.I2)] + [(p / 3, PAULI[a]) for a in "XYZ"])
        yield "depolarising", (p,), lambda p=p: ch.depolarising_channel(p), dep, 1
        yield "depolarising noise", (p,), lambda p=p: DepolarisingNoise(p).to_krauschannel(), dep, 1
        dep2 = mix([(1 - p, np.eye(4))] + [(p / 15, np.kron(PAULI[a], PAULI[b])) for a, b in two if a + b != "II"])
        yield "two-qubit depolarising", (p,), lambda p=p: ch.two_qubit_depolarising_channel(p), dep2, 2
        yield "two-qubit depolarising noise", (p,), lambda p=p: TwoQubitDepolarisingNoise(p).to_krauschannel(), dep2, 2
        q = {"I": 1 - p, "X": p / 3, "Y": p / 3, "Z": p / 3}
        yield "two-qubit depolarising tensor", (p,), lambda p=p: ch.two_qubit_depolarising_tensor_channel(p), mix([(q[a] * q[b], np.kron(PAULI[a], PAULI[b])) for a, b in two]), 2
        k1, k2 = np.diag([1, math.sqrt(1 - p)]), np.array([[0, math.sqrt(p)], [0, 0]])
        ad, ad2 = superop([(1, k1), (1, k2)]), superop([(1, np.kron(a, b)) for a, b in itertools.product((k1, k2), repeat=2)])
        yield "amplitude damping", (p,), lambda p=p: ch.amplitude_damping_channel(p), ad, 1
        yield "amplitude damping noise", (p,), lambda p=p: AmplitudeDampingNoise(p).to_krauschannel(), ad, 1
        yield "two-qubit amplitude damping", (p,), lambda p=p: ch.two_qubit_amplitude_damping_channel(p), ad2, 2
        yield "two-qubit amplitude damping noise", (p,), lambda p=p: TwoQubitAmplitudeDampingNoise(p).to_krauschannel(), ad2, 2
    for px, py, pz in itertools.product([0.0, 1e-6, 0.1, 0.25, 0.5, 1.0], repeat=3):
        if px + py + pz <= 1:
            yield "pauli", (px, py, pz), lambda a=(px, py, pz): ch.pauli_channel(*a), mix([(1 - px - py - pz, ref.I2), (px, ref.X), (py, ref.Y), (pz, ref.Z)]), 1


def channel_space(R):
    for name, par, build, want, n in documented():
        R.state()
        R.trans()
        key = f"channel:{name}:{par}"
        R.at(key)
        try:
            c = build()
        except ValueError as e:
            R.bad(key, f"{name}{par} cannot be built: {e}")
            continue
        got = superop([(k.coef, k.operator) for k in c])
        tp = sum((k.coef * k.operator).conj().T @ (k.coef * k.operator) for k in c)
        if c.nqubit != n or np.max(np.abs(got - want)) > 1e-9:
            R.bad(key, f"{name}{par} is not the documented channel")
        if np.max(np.abs(tp - np.eye(2**n))) > 1e-9:
            R.bad(f"{key}:tp", f"{name}{par} is not trace preserving")
        # on every target of a mixed 3-qubit register, through apply_channel
        rho = mixed(3, 4)
        for t in itertools.permutations(range(3), n):
            dm = DensityMatrix(rho)
            dm.apply_channel(c, t)
            R.trans()
            r = np.array(dm.rho)
            o = np.zeros_like(rho)
            full = dense.Rho(rho)
            for k in c:
                u = full.full(k.coef * k.operator, list(t))
                o = o + u @ rho @ u.conj().T
            if np.max(np.abs(r - o)) > 1e-9:
                R.bad(f"{key}:{t}", f"{name}{par} applied to {t} is wrong")
        R.outcome(name)
    for f, name in (
        (ch.dephasing_channel, "dephasing"), (ch.depolarising_channel, "depolarising"), (ch.two_qubit_depolarising_channel, "2depo"),
        (ch.two_qubit_depolarising_tensor_channel, "2depot"), (ch.amplitude_damping_channel, "ad"), (ch.two_qubit_amplitude_damping_channel, "2ad"),
    ):
        for p in (-0.5, -1e-3, 1.001, 2.0):
            R.state()
            try:
                with np.errstate(all="ignore"):
                    f(p)
                R.bad(f"channel:{name}:{p}", f"{name} accepts probability {p}")
            except ValueError:
                R.count("bad_probabilities_refused")
    for cls in (DepolarisingNoise, TwoQubitDepolarisingNoise, AmplitudeDampingNoise, TwoQubitAmplitudeDampingNoise):
        for p in (-1e-3, 1.001, 5, -7):
            R.state()
            try:
                cls(p)
                R.bad(f"noise:{cls.__name__}:{p}", f"{cls.__name__} accepts probability {p}")
            except ValueError:
                pass
        if cls(0.5).nqubits != cls(0.5).to_krauschannel().nqubit:
            R.bad(f"noise:{cls.__name__}:n", f"{cls.__name__}.nqubits is wrong")
    for a in itertools.product((0.0, 0.4, 0.7, 1.0), repeat=3):
        if sum(a) > 1 + 1e-9:
            try:
                ch.pauli_channel(*a)
                R.bad(f"channel:pauli:{a}", f"pauli_channel{a} accepted")
            except ValueError:
                pass
    R.trace()


POOL = [
    (1, ref.I2), (0.6, ref.I2), (0.8, ref.X), (0.8j, ref.Z), (1, ref.H), (-1, ref.Y), (math.sqrt(0.5), ref.I2), (math.sqrt(0.5), ref.Z),
    (1, AD[0]), (1, AD[1]), (1, AD[1].T), (0.5, 2 * AD[1]), (1, np.eye(4)), (0.6, np.kron(ref.X, ref.Z)), (0.8, np.eye(4)), (1, np.diag([1, 0])), (1, np.diag([0, 1])), (1, 0 * ref.I2),
]


def kraus_space(R, length):
    for k in range(length + 1):
        for idx in itertools.product(range(len(POOL)), repeat=k) if k <= 2 else itertools.combinations_with_replacement(range(len(POOL)), k):
            R.state()
            R.trans()
            ops_ = [POOL[i] for i in idx]
            shapes = {np.asarray(m).shape for _, m in ops_}
            legal = len(shapes) == 1 and np.allclose(sum((c * m).conj().T @ (c * m) for c, m in ops_), np.eye(next(iter(shapes))[0]))
            try:
                c = KrausChannel(KrausData(a, np.asarray(m)) for a, m in ops_)
            except ValueError:
                if legal:
                    R.bad(f"kraus:{idx}", f"valid Kraus operators {ops_} refused")
                continue
            if not legal:
                R.bad(f"kraus:{idx}", f"Kraus operators {ops_} accepted: they do not preserve the trace")
                continue
            R.count("valid_kraus_lists")
            if len(c) != k or any(d.coef != a or not np.array_equal(d.operator, m) for d, (a, m) in zip(c, ops_, strict=True)):
                R.bad(f"kraus:{idx}:data", "the Kraus data are changed")
            n = c.nqubit
            if 2**n != next(iter(shapes))[0] or (k and c[k - 1].nqubit != n) or len(c[0:k]) != k:
                R.bad(f"kraus:{idx}:n", f"nqubit {n}")
            dm, r = DensityMatrix(mixed(2)), dense.Rho(mixed(2))
            for t in itertools.permutations(range(2), n):
                d2 = DensityMatrix(dm)
                d2.apply_channel(c, list(t))
                if np.max(np.abs(d2.rho - r.kraus([a * m for a, m in ops_], list(t)).rho)) > TOL:
                    R.bad(f"kraus:{idx}:{t}", f"channel {ops_} applied to {t} is wrong")
    # the operators are private copies
    m = np.array(ref.I2)
    d = KrausData(1, m)
    c = KrausChannel([d])
    m[0, 0] = 5
    if d.operator[0, 0] != 1 or c[0].operator[0, 0] != 1:
        R.bad("kraus:alias", "changing the array given to KrausData changes the channel")
    for bad in (np.zeros((2, 3)), np.zeros((3, 3)), np.zeros(4), np.zeros((0, 0)), np.zeros((2, 2, 2)), np.zeros((6, 6))):
        try:
            KrausData(1, bad)
            R.bad(f"kraus:shape:{bad.shape}", f"an operator of shape {bad.shape} is accepted")
        except ValueError:
            pass
    R.trace()


# ---------------------------------------------------------------- construction, validation, refusals


def refused(f):
    try:
        with np.errstate(all="ignore"):
            f()
    except (ValueError, TypeError, AssertionError, IndexError):
        return True
    return False


def init_space(R):
    st = dense.GEN1
    kets = [ref.planar_ket(s) for s in st]
    forms = []
    for k in range(4):
        full = np.array([1.0 + 0j])
        for x in kets[:k]:
            full = np.kron(full, x)
        forms.append((k, f"states{k}", lambda k=k: st[:k], np.outer(full, full.conj())))
        forms.append((k, f"statesiter{k}", lambda k=k: iter(st[:k]), np.outer(full, full.conj())))
        m = mixed(k)
        forms.append((k, f"mat{k}", lambda m=m: m, m))
        forms.append((k, f"listmat{k}", lambda m=m: [list(r) for r in m], m))
        forms.append((k, f"dm{k}", lambda m=m: DensityMatrix(m), m))
        forms.append((k, f"real{k}", lambda k=k: np.eye(2**k) / 2**k, np.eye(2**k) / 2**k))
        one = np.zeros((2**k, 2**k), dtype=int)
        one[-1, -1] = 1
        forms.append((k, f"ints{k}", lambda one=one: one, one.astype(complex)))
        forms.append((k, f"f32{k}", lambda one=one: one.astype(np.float32), one.astype(complex)))
        if k:
            v = dense.vec(k)
            forms.append((k, f"vec{k}", lambda v=v: v, pure(k)))
            forms.append((k, f"vlist{k}", lambda v=v: list(v), pure(k)))
            forms.append((k, f"sv{k}", lambda v=v: Statevector(v), pure(k)))
            forms.append((k, f"svcap{k}", lambda v=v: Statevector(v, max_qubits=5), pure(k)))
    for k, name, f, want in forms:
        for nq in [None, *range(5)]:
            R.state()
            R.trans()
            R.at(f"init {name} {nq}")
            legal = nq in (None, k)
            try:
                dm = DensityMatrix(f(), nqubit=nq)
            except ValueError as e:
                if legal:
                    R.bad(f"init:{name}:{nq}", f"DensityMatrix({name}, nqubit={nq}) was refused: {e}")
                continue
            if not legal:
                R.bad(f"init:{name}:{nq}", f"DensityMatrix({name}, nqubit={nq}) was accepted")
                continue
            if dm.nqubit != k or dm.rho.dtype != np.complex128 or np.max(np.abs(dm.rho - want)) > 1e-12:
                R.bad(f"init:{name}:{nq}", f"DensityMatrix({name}, nqubit={nq}) = {dm.rho}")
                continue
            cp = DensityMatrix(dm)
            for q in range(k):
                cp.evolve_single(dense.U1, q)
            cp.normalize()
            cp.add_nodes(1, BasicStates.ZERO)
            cp.apply_channel(CH1, [0])
            if np.max(np.abs(dm.rho - want)) > 1e-12:
                R.bad(f"init:{name}:{nq}:alias", f"changing a copy changed the original ({name})")
    for k in range(4):
        R.state()
        dm = DensityMatrix(BasicStates.ONE, nqubit=k)
        want = np.zeros((2**k, 2**k))
        want[-1, -1] = 1
        if np.max(np.abs(dm.rho - want)) > 1e-12:
            R.bad(f"init:one:{k}", f"DensityMatrix(ONE, nqubit={k}) = {dm.rho}")
    # the array given is left alone by the in-place operations
    for n in (0, 1, 2):
        m = mixed(n)
        keep = m.copy()
        dm = DensityMatrix(m)
        dm.normalize()
        for q in range(n):
            dm.evolve_single(2 * ref.X, q)
        dm.normalize()
        if not np.array_equal(m, keep):
            R.bad(f"init:array:{n}", "operations on the density matrix changed the array it was built from")
    # validation: exactly the density matrices are accepted
    for n in (1, 2):
        d = 2**n
        u = dense.generic_unitary(n, 9)
        for w in itertools.product((-0.25, 0.0, 0.25, 0.5, 1.0), repeat=d):
            m = (u * np.array(w)) @ u.conj().T
            for kind in ("h", "nh"):
                if kind == "nh":
                    m = m + 0.01j * np.triu(np.ones((d, d)), 1)
                R.state()
                R.trans()
                tr = abs(sum(w) - 1) < 1e-9
                legal = kind == "h" and tr and min(w) >= 0
                got = not refused(lambda m=m: DensityMatrix(m))
                if got != legal and not (kind == "h" and tr and min(w) == 0.0):
                    R.bad(f"validate:{n}:{w}:{kind}", f"matrix with eigenvalues {w} ({kind}): accepted={got}")
                if lv.is_unit_trace(m) != tr or lv.is_hermitian(m) != (kind == "h"):
                    R.bad(f"validate:{n}:{w}:{kind}:lv", f"is_unit_trace or is_hermitian wrong on eigenvalues {w}")
                if kind == "h" and min(w) != 0.0 and lv.is_psd(m) != (min(w) >= 0):
                    R.bad(f"validate:{n}:{w}:psd", f"is_psd wrong on eigenvalues {w}")
                if kind == "nh" and lv.is_psd(m):
                    R.bad(f"validate:{n}:{w}:psd:{kind}", "is_psd accepts a non-Hermitian matrix")
    for shape in [s for k in range(4) for s in itertools.product(range(0, 10), repeat=k) if k < 3 or max(s) < 3]:
        R.state()
        m = np.zeros(shape)
        sq = len(shape) == 2 and shape[0] == shape[1]
        if lv.is_square(m) != sq or lv.is_qubitop(m) != (sq and shape[0] in (1, 2, 4, 8)):
            R.bad(f"shape:{shape}", f"is_square/is_qubitop wrong on shape {shape}")
        if not sq and (lv.is_hermitian(m) or lv.is_psd(m) or lv.is_unit_trace(m)):
            R.bad(f"shape:{shape}:p", f"a validation accepts shape {shape}")
    for name, f in {
        "3x3": lambda: DensityMatrix(np.eye(3) / 3),
        "2x4": lambda: DensityMatrix(np.ones((2, 4))),
        "negative": lambda: DensityMatrix(BasicStates.PLUS, nqubit=-1),
        "ragged": lambda: DensityMatrix([[1, 0], 0]),
        "trace 2": lambda: DensityMatrix(np.eye(2)),
    }.items():
        R.state()
        if not refused(f):
            R.bad(f"init:{name}", f"{name} data was accepted")
    R.trace()


def bounds_space(R):
    """Operations on qubits which do not exist, or repeated ones, are refused and leave the state unchanged."""
    for n in (1, 2, 3):
        out = [n, n + 1, -1, -n]
        cases = []
        for q in out:
            cases += [("evolve_single", lambda d, q=q: d.evolve_single(dense.U1, q)), ("expectation_single", lambda d, q=q: d.expectation_single(dense.U1, q)),
                      ("project_qubit", lambda d, q=q: d.project_qubit(dense.projector("gen", 0), q)), ("ptrace", lambda d, q=q: d.ptrace(q)), ("remove_qubit", lambda d, q=q: d.remove_qubit(q)),
                      ("channel", lambda d, q=q: d.apply_channel(CH1, [q])), ("evolve", lambda d, q=q: d.evolve(dense.U1, [q]))]
            for p in ((0, q), (q, 0)):
                cases += [("cz", lambda d, p=p: d.entangle(p)), ("cnot", lambda d, p=p: d.cnot(p)), ("swap", lambda d, p=p: d.swap(p)), ("ch2", lambda d, p=p: d.apply_channel(CH2, p)), ("ptrace2", lambda d, p=p: d.ptrace(p))]
        for p in [(0, 0)]:
            cases += [("cz", lambda d, p=p: d.entangle(p)), ("cnot", lambda d, p=p: d.cnot(p)), ("swap", lambda d, p=p: d.swap(p)), ("ch2", lambda d, p=p: d.apply_channel(CH2, p)), ("evolve", lambda d, p=p: d.evolve(dense.U2, p))]
        for p in [list(range(n + 1)), list(range(n - 1)), [0] * n if n > 1 else [1]]:
            cases.append((f"permute{p}", lambda d, p=p: d.permute(p)))
        cases += [("channel arity", lambda d: d.apply_channel(CH2, [0])), ("channel arity", lambda d: d.apply_channel(CH1, [0, 0])), ("operator arity", lambda d: d.evolve(dense.U2, [0])),
                  ("single arity", lambda d: d.evolve_single(dense.U2, 0)), ("expectation arity", lambda d: d.expectation_single(dense.U2, 0)),
                  ("not square", lambda d: d.evolve(np.ones((2, 4)), [0])), ("odd", lambda d: d.evolve(np.eye(3), [0])), ("vector", lambda d: d.evolve(np.ones(2), [0])),
                  ("not a channel", lambda d: d.apply_channel("x", [0])), ("matrix as channel", lambda d: d.apply_channel([ref.I2], [0]))]
        for i, (name, f) in enumerate(cases):
            R.state()
            R.trans()
            dm = DensityMatrix(mixed(n))
            keep = dm.rho.copy()
            if not refused(lambda f=f, dm=dm: f(dm)):
                R.bad(f"bounds:{n}:{i}:{name}", f"{name} (case {i}) with {n} qubits is accepted")
            elif not np.array_equal(keep, dm.rho):
                R.bad(f"bounds:{n}:{i}:{name}", f"{name} (case {i}) with {n} qubits is refused after changing the state")
    R.trace()


# ---------------------------------------------------------------- backend


def bops(labels):
    yield from s1.bops(labels)
    for a in labels:
        yield ["K", a]
        yield ["D", a]
    for a, b in itertools.permutations(labels, 2):
        yield ["K", a, b]
    if len(labels) < 4:
        yield ["P", next(x for x in s1.LABELS if x not in labels)]


BACKEND_FIRST = [[k, op] for k in range(4) for op in bops(s1.LABELS[:k])]


def bapply(be, sel, op):
    k = op[0]
    if k == "K":
        noise = AmplitudeDampingNoise(0.3) if len(op) == 2 else TwoQubitDepolarisingNoise(0.2)
        be.apply_noise(ApplyNoise(noise=noise, nodes=op[1:]))
        return None
    if k == "D":
        be.apply_noise(ApplyNoise(noise=DepolarisingNoise(0.2), nodes=op[1:]))
        return None
    if k == "P":
        be.add_nodes([op[1]], mixed(1, 3))
        return None
    return s1.bapply(be, sel, op)


def bref(r, labels, op):
    """(reference, labels, probability of outcome 0)"""
    k, labs = op[0], list(labels)
    loc = lambda x: labs.index(x)  # noqa: E731
    if k == "N":
        return r.tensor(np.outer(ref.PLUS, ref.PLUS)), [*labs, op[1]], None
    if k == "P":
        return r.tensor(mixed(1, 3)), [*labs, op[1]], None
    if k == "NN":
        return r.tensor(pure(2, 1)), [*labs, *op[1:]], None
    if k == "E":
        return r.unitary(ref.CZ, [loc(op[1]), loc(op[2])]), labs, None
    if k == "C":
        return r.unitary(np.asarray(Clifford(op[2]).matrix), [loc(op[1])]), labs, None
    if k in ("X", "Z", "U"):
        return r.unitary({"X": ref.X, "Z": ref.Z, "U": dense.U1}[k], [loc(op[1])]), labs, None
    if k == "K":
        return r.kraus(AD if len(op) == 2 else DEPO2, [loc(x) for x in op[1:]]), labs, None
    if k == "D":
        return r.kraus([math.sqrt(0.8) * ref.I2] + [math.sqrt(0.2 / 3) * PAULI[a] for a in "XYZ"], [loc(op[1])]), labs, None
    obs = ref.observable(ref.bloch(s1.MEAS[op[2]][1]))
    q = loc(op[1])
    p0 = r.project((ref.I2 + obs) / 2, q)[1]
    r2, _ = r.project((ref.I2 + (-1) ** op[3] * obs) / 2, q)
    labs.remove(op[1])
    return r2, labs, p0


def backend(R, make, r, labels, depth, hist, first=None):
    for op in [first] if first else bops(labels):
        tag = " ".join("".join(map(str, o)) for o in [*hist, op])
        R.at(tag)
        R.state()
        r2, labs, p0 = bref(r, labels, op)
        if r2 is None:
            continue
        be, sel = make()
        for h in hist:
            bapply(be, sel, h)
        R.trans(len(hist) + 1)
        res = bapply(be, sel, op)
        if op[0] == "M" and (res != op[3] or sel.seen[0] != op[1] or abs(sel.seen[1] - p0) > TOL):
            R.bad(f"{tag}:outcome", f"outcome {res}, offered {sel.seen}, expected node {op[1]} with probability {p0}")
        if list(be.node_index) != labs or any(be.node_index.index(x) != i for i, x in enumerate(labs)) or be.nqubit != len(labs):
            R.bad(f"{tag}:index", f"node index {list(be.node_index)}, expected {labs}")
            continue
        if not sane(R, be.state, r2, tag):
            continue
        if depth > 1:
            backend(R, make, r2, labs, depth - 1, [*hist, op])
        elif len(labs) <= 3 or op[0] in "MK":
            for perm in itertools.permutations(range(len(labs))):
                if len(labs) > 3 and perm not in {(0, 1, 2, 3), (1, 2, 3, 0), (2, 0, 3, 1)}:
                    continue
                b2, sel2 = make()
                for h in [*hist, op]:
                    bapply(b2, sel2, h)
                b2.finalize([labs[i] for i in perm])
                R.trans()
                if list(b2.node_index) != [labs[i] for i in perm] or np.max(np.abs(b2.state.rho - r2.permute(perm).rho)) > TOL:
                    R.bad(f"{tag}:finalize:{perm}", f"finalize in order {[labs[i] for i in perm]} after {tag}")


def tasks(tier):
    q = tier == "quick"
    yield ["init"]
    yield ["bounds"]
    yield ["channels"]
    yield ["kraus", 3 if q else 4]
    for n in (0, 1, 2):
        yield ["agree", n, 2 if q else 3]
    for i, (_, n) in enumerate(INIT):
        for k in range(len(list(ops(n)))):
            yield ["seq", i, k, (3 if n <= 1 else 2) + (0 if q else 1)]
    for i, (k, _) in enumerate(BACKEND_FIRST):
        yield ["backend", i, (3 if k <= 1 else 2) + (0 if q else 1)]


def work(task, R):
    kind = task[0]
    if kind == "init":
        init_space(R)
    elif kind == "bounds":
        bounds_space(R)
    elif kind == "channels":
        channel_space(R)
    elif kind == "kraus":
        kraus_space(R, task[1])
    elif kind == "agree":
        agree(R, task[1], task[2])
    elif kind == "seq":
        _, i, k, depth = task
        st, r = DensityMatrix(initial(i)), dense.Rho(initial(i))
        op = list(ops(INIT[i][1]))[k]
        if not observe(R, st, r, f"start{i}", True):
            return
        step(R, st, r, op, depth, [[f"start{INIT[i][0]}{INIT[i][1]}"]])
        R.trace()
        R.outcome((INIT[i], op[0]))
        R.show([INIT[i], op])
    else:
        k, op = BACKEND_FIRST[task[1]]
        labels = s1.LABELS[:k]
        rho = mixed(k, 2)

        def make():
            sel = s1.Force()
            be = DensityMatrixBackend(branch_selector=sel)
            if k:
                be.add_nodes(labels, rho)
            return be, sel

        backend(R, make, dense.Rho(rho), labels, task[2], [], op)
        R.trace()
        R.show([labels, op])

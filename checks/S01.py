"""S01: the statevector backend applies every operation exactly, to the right qubits."""

import itertools
import json
import os
import signal
import subprocess
import sys
from pathlib import Path

import numpy as np
from graphix import command
from graphix.branch_selector import BranchSelector
from graphix.clifford import Clifford
from graphix.measurements import Measurement
from graphix.fundamentals import Axis, Sign
from graphix.measurements import PauliMeasurement
from graphix.sim.statevec import Statevector, StatevectorBackend
from graphix.states import BasicStates

from mc import dense, ref

META = {
    "bounds": {
        "quick": "every sequence of <=3 operations from 5 initial registers (0-3 qubits, exact or spare capacity), at most 4 qubits (alphabet: 9 preparations, CZ, SWAP, generic 1/2/3-qubit unitaries on every target, "
        "every permutation, projections of every qubit along 3 directions and both outcomes); every sequence of <=4 backend operations on labelled nodes; registers of 15-17 qubits for the multi-threaded kernels on every target; "
        "every iteration order of the parallel loops and pairwise independence of their iterations on <=4 qubits",
        "thorough": "sequences of <=4 operations, backend sequences of <=5",
    },
    "assumptions": ["floating-point comparisons within 1e-8", "operators in general position stand for all operators (each step is linear in the operator)"],
}
TOL = 1e-8
CAP = 4
INIT = [(0, 0), (1, 0), (2, 0), (2, 2), (3, 1)]  # qubits, spare capacity


def first_ops(n):
    return list(dense.ops(n, CAP))


def tasks(tier):
    depth = 3 if tier == "quick" else 4
    yield ["init"]
    yield ["bounds"]
    yield ["dict"]
    yield ["compare"]
    for i, (n, _) in enumerate(INIT):
        for k in range(len(first_ops(n))):
            yield ["seq", i, k, depth]
    for i in range(len(BACKEND_FIRST)):
        yield ["backend", i, 4 if tier == "quick" else 5]
    for n in (15, 16, 17):
        for q in range(0, n):
            yield ["big", n, q]
    yield ["loops"]


def rho_of(sv):
    v = np.asarray(sv.flatten())
    return np.outer(v, v.conj())


def observe(R, sv, r, tag, full=True):
    """Every observer agrees with the reference and leaves the state alone."""
    n = r.n
    v = np.array(sv.flatten())
    if sv.nqubit != n or v.shape != (2**n,) or np.max(np.abs(np.outer(v, v.conj()) - r.rho)) > TOL:
        R.bad(tag, f"state after {tag} is {v}, expected the pure state {r.rho}")
        return False
    if abs(np.linalg.norm(v) - 1) > TOL or sv.max_qubits < n or not np.array_equal(np.asarray(sv.psi), v):
        R.bad(f"{tag}:norm", f"norm {np.linalg.norm(v)}, capacity {sv.max_qubits}")
    if not full:
        return True
    for q in range(n):
        got = sv.expectation_single(dense.U1, q)
        if abs(got - r.expect(dense.U1, [q])) > TOL:
            R.bad(f"{tag}:exp1:{q}", f"expectation_single on {q} = {got}, expected {r.expect(dense.U1, [q])} after {tag}")
    for p in itertools.permutations(range(n), 2):
        got = sv.expectation_value(dense.U2, p)
        if abs(got - r.expect(dense.U2, p)) > TOL:
            R.bad(f"{tag}:exp2:{p}", f"expectation_value on {p} = {got}, expected {r.expect(dense.U2, p)} after {tag}")
    if not np.array_equal(v, np.asarray(sv.flatten())):
        R.bad(f"{tag}:observer", f"an expectation value changed the state after {tag}")
    return True


def dfs(R, sv, r, depth, trace):
    for op in dense.ops(r.n, CAP):
        step(R, sv, r, op, depth, trace)


def step(R, sv, r, op, depth, trace):
    tag = " ".join("".join(map(str, o)).replace(" ", "") for o in [*trace, op])
    R.at(tag)
    R.state()
    R.trans()
    s2 = Statevector(sv)
    r2 = dense.apply_ref(r, op)
    if r2 is None:
        try:
            dense.apply_impl(s2, op)
            R.bad(f"{tag}:impossible", f"projection on an impossible outcome was accepted: {tag}")
        except RuntimeError:
            R.count("impossible_outcomes_refused")
        return
    dense.apply_impl(s2, op)
    if not observe(R, s2, r2, tag, depth > 1):
        return
    if depth > 1:
        dfs(R, s2, r2, depth - 1, [*trace, op])
        if np.max(np.abs(rho_of(s2) - r2.rho)) > TOL:
            R.bad(f"{tag}:alias", f"working on a copy changed the state after {tag}")


def start(i):
    n, spare = INIT[i]
    v = dense.vec(n)
    return Statevector(v, max_qubits=n + spare), dense.Rho(np.outer(v, v.conj()))


class Force(BranchSelector):
    def __init__(self):
        self.next = 0
        self.seen = None

    def measure(self, qubit, f_expectation0, rng=None, *, stacklevel=1):
        self.seen = (qubit, f_expectation0())
        return self.next


LABELS = [7, 2, 40, 0, 11]
MEAS = [
    ("xy", Measurement.XY(0.31)),
    ("yz", Measurement.YZ(-0.42)),
    ("xz", Measurement.XZ(1.27)),
    ("-y", PauliMeasurement(Axis.Y, Sign.MINUS)),
]


def bops(labels):
    for lab in LABELS:
        if lab not in labels:
            if len(labels) < 4:
                yield ["N", lab]
                break
    if len(labels) <= 2:
        rest = [x for x in LABELS if x not in labels]
        yield ["NN", rest[1], rest[0]]
    for a, b in itertools.permutations(labels, 2):
        yield ["E", a, b]
    for a in labels:
        yield ["C", a, 13]
        yield ["C", a, 8]
        yield ["X", a]
        yield ["Z", a]
        yield ["U", a]
        for m in range(len(MEAS)):
            for o in (0, 1):
                yield ["M", a, m, o]


BACKEND_FIRST = [["start", k, op] for k in range(4) for op in bops(LABELS[:k])]


def bstep(R, make, r, labels, op, depth, hist):
    """Backends are not copyable, so the history is replayed from scratch for each sequence."""
    tag = " ".join("".join(map(str, o)) for o in [*hist, op])
    R.at(tag)
    be, sel = make()
    for h in hist:
        bapply(be, sel, h)
    R.state()
    R.trans(len(hist) + 1)
    k = op[0]
    labs = list(labels)
    if k == "N":
        r2 = r.tensor(np.outer(ref.PLUS, ref.PLUS))
        labs.append(op[1])
    elif k == "NN":
        v = dense.vec(2, 1)
        r2 = r.tensor(np.outer(v, v.conj()))
        labs += op[1:]
    elif k == "E":
        r2 = r.unitary(ref.CZ, [labs.index(op[1]), labs.index(op[2])])
    elif k == "C":
        r2 = r.unitary(np.asarray(Clifford(op[2]).matrix), [labs.index(op[1])])
    elif k in ("X", "Z", "U"):
        r2 = r.unitary({"X": ref.X, "Z": ref.Z, "U": dense.U1}[k], [labs.index(op[1])])
    else:
        obs = ref.observable(ref.bloch(MEAS[op[2]][1]))
        q = labs.index(op[1])
        p0 = r.project((ref.I2 + obs) / 2, q)[1]
        r2, p = r.project((ref.I2 + (-1) ** op[3] * obs) / 2, q)
        labs.remove(op[1])
        if r2 is None:
            return
    res = bapply(be, sel, op)
    if k == "M":
        if res != op[3] or sel.seen[0] != op[1] or abs(sel.seen[1] - p0) > TOL:
            R.bad(f"{tag}:outcome", f"outcome {res}, offered {sel.seen}, expected node {op[1]} with probability {p0}")
    if list(be.node_index) != labs or any(be.node_index.index(x) != i for i, x in enumerate(labs)) or len(be.node_index) != len(labs) or be.nqubit != len(labs):
        R.bad(f"{tag}:index", f"node index {list(be.node_index)}, expected {labs}")
        return
    if np.max(np.abs(rho_of(be.state) - r2.rho)) > TOL:
        R.bad(tag, f"backend state after {tag} is {be.state.flatten()}")
        return
    if depth > 1:
        for op2 in bops(labs):
            bstep(R, make, r2, labs, op2, depth - 1, [*hist, op])
    else:
        # finalisation in every order of the nodes
        for perm in itertools.permutations(range(len(labs))):
            be, sel = make()
            for h in [*hist, op]:
                bapply(be, sel, h)
            be.finalize([labs[i] for i in perm])
            R.trans()
            if list(be.node_index) != [labs[i] for i in perm] or np.max(np.abs(rho_of(be.state) - r2.permute(perm).rho)) > TOL:
                R.bad(f"{tag}:finalize:{perm}", f"finalize in order {[labs[i] for i in perm]} after {tag}")
            if len(labs) > 2:
                R.count("finalize_orders")


def bapply(be, sel, op):
    k = op[0]
    if k == "N":
        be.add_nodes([op[1]])
    elif k == "NN":
        be.add_nodes(op[1:], dense.vec(2, 1))
    elif k == "E":
        be.entangle_nodes((op[1], op[2]))
    elif k == "C":
        be.apply_clifford(op[1], Clifford(op[2]))
    elif k in ("X", "Z"):
        be.correct_byproduct(command.X(op[1]) if k == "X" else command.Z(op[1]))
    elif k == "U":
        be.apply_single(op[1], dense.U1)
    else:
        sel.next = op[3]
        return be.measure(op[1], MEAS[op[2]][1])
    return None


def big_vec(n):
    i = np.arange(2**n)
    v = np.exp(1j * (0.37 * i + 1.1e-5 * i * i)) * (1 + (i * 7 % 11) / 10)
    return v / np.linalg.norm(v)


def big(R, n, q):
    v = big_vec(n)
    t = v.reshape(2**q, 2, -1)

    def chk(name, sv, want, phase=False):
        R.state()
        R.trans()
        got = np.asarray(sv.flatten())
        want = want.reshape(-1)
        ok = got.shape == want.shape and (abs(abs(np.vdot(got, want)) - 1) < 1e-9 if phase else np.max(np.abs(got - want)) < 1e-9)
        if not ok:
            R.bad(f"big:{n}:{q}:{name}", f"{name} on qubit {q} of {n} is wrong")

    sv = Statevector(v)
    sv.evolve_single(dense.U1, q)
    chk("evolve_single", sv, np.einsum("ij,ajb->aib", dense.U1, t))
    e = Statevector(v).expectation_single(dense.U1, q)
    R.trans()
    if abs(e - np.vdot(t, np.einsum("ij,ajb->aib", dense.U1, t))) > 1e-9:
        R.bad(f"big:{n}:{q}:expectation", f"expectation_single on qubit {q} of {n} is wrong")
    for m in ("gen", "z"):
        for o in (0, 1):
            p = dense.projector(m, o)
            ket = ref.eigenket(ref.observable(dense.BLOCH[m]), o)
            w = np.einsum("j,ajb->ab", ket.conj(), t)
            sv = Statevector(v)
            sv.project_qubit(p, q)
            chk(f"project {m}{o}", sv, w / np.linalg.norm(w), phase=True)
    for q2 in {0, n - 1, (q + 5) % n} - {q}:
        sv = Statevector(v)
        sv.entangle((q, q2))
        i = np.arange(2**n)
        both = (i >> (n - 1 - q)) & (i >> (n - 1 - q2)) & 1
        chk(f"entangle {q2}", sv, v * (1 - 2 * both))
        sv = Statevector(v)
        sv.swap((q, q2))
        chk(f"swap {q2}", sv, np.swapaxes(v.reshape((2,) * n), q, q2))
    if n < 17:
        sv = Statevector(v)
        sv.add_nodes(1, BasicStates.PLUS)
        chk("add", sv, np.kron(v, ref.PLUS))


def refused(f):
    try:
        f()
    except (IndexError, ValueError, AssertionError, KeyError):
        return True
    return False


def init_space(R):
    """Every supported way of giving a state, every capacity, and every inconsistent combination."""
    st = dense.GEN1
    ket = [ref.planar_ket(s) for s in st]
    forms = []
    for k in (0, 1, 2, 3):
        full = np.array([1.0 + 0j])
        for x in ket[:k]:
            full = np.kron(full, x)
        forms.append((k, f"states{k}", lambda k=k: st[:k], full))
        forms.append((k, f"states{k}tuple", lambda k=k: tuple(st[:k]), full))
        forms.append((k, f"states{k}iter", lambda k=k: iter(st[:k]), full))
        if k:
            w = dense.vec(k)
            forms.append((k, f"vec{k}", lambda w=w: w, w))
            forms.append((k, f"list{k}", lambda w=w: list(w), w))
            forms.append((k, f"complexlist{k}", lambda w=w: [complex(z) for z in w], w))
            real = np.abs(w)
            forms.append((k, f"real{k}", lambda real=real: real, real.astype(complex)))
            forms.append((k, f"floats{k}", lambda real=real: [float(z) for z in real], real.astype(complex)))
            onehot = np.zeros(2**k)
            onehot[-1] = 1
            forms.append((k, f"ints{k}", lambda o=onehot: [int(z) for z in o], onehot.astype(complex)))
            forms.append((k, f"sv{k}", lambda w=w: Statevector(w), w))
            forms.append((k, f"svcap{k}", lambda w=w: Statevector(w, max_qubits=5), w))
    for k, name, f, want in forms:
        for nq in [None, *range(5)]:
            for cap in [None, *range(6)]:
                R.state()
                R.trans()
                R.at(f"init {name} {nq} {cap}")
                legal = nq in (None, k) and (cap is None or cap >= k)
                try:
                    sv = Statevector(f(), nqubit=nq, max_qubits=cap)
                except ValueError:
                    if legal:
                        R.bad(f"init:{name}:{nq}:{cap}", f"Statevector({name}, nqubit={nq}, max_qubits={cap}) was refused")
                    continue
                if not legal:
                    R.bad(f"init:{name}:{nq}:{cap}", f"Statevector({name}, nqubit={nq}, max_qubits={cap}) was accepted")
                    continue
                if sv.nqubit != k or np.max(np.abs(np.asarray(sv.flatten()) - want)) > 1e-12 or sv.max_qubits < max(k, cap or 0):
                    R.bad(f"init:{name}:{nq}:{cap}", f"Statevector({name}, nqubit={nq}, max_qubits={cap}) = {sv.flatten()} with capacity {sv.max_qubits}")
                # a copy is independent, whatever the capacity
                cp = Statevector(sv)
                if k:
                    cp.evolve_single(dense.U1, 0)
                cp.add_nodes(1, BasicStates.ZERO)
                if np.max(np.abs(np.asarray(sv.flatten()) - want)) > 1e-12 or sv.nqubit != k:
                    R.bad(f"init:{name}:{nq}:{cap}:alias", f"changing a copy changed the original ({name})")
    for k in range(4):
        R.state()
        sv = Statevector(BasicStates.ONE, nqubit=k)
        want = np.zeros(2**k)
        want[-1] = 1
        if np.max(np.abs(np.asarray(sv.flatten()) - want)) > 1e-12:
            R.bad(f"init:one:{k}", f"Statevector(ONE, nqubit={k}) = {sv.flatten()}")
    data = dense.vec(2)
    keep = data.copy()
    sv = Statevector(data)
    sv.evolve_single(dense.U1, 0)
    sv.entangle((0, 1))
    if not np.array_equal(data, keep):
        R.bad("init:array", "operations on the statevector changed the array it was built from")
    for name, f in {
        "unnormalised": lambda: Statevector([1, 1]),
        "length 3": lambda: Statevector([1, 0, 0]),
        "negative": lambda: Statevector(BasicStates.PLUS, nqubit=-1),
        "negative capacity": lambda: Statevector(BasicStates.PLUS, max_qubits=-1),
        "empty": lambda: Statevector([], nqubit=2),
    }.items():
        R.state()
        if not refused(f):
            R.bad(f"init:{name}", f"{name} data was accepted")
    for length in range(1, 10):
        v = [0.6j, *[0] * (length - 2), 0.8] if length > 1 else [1j]
        k = length.bit_length() - 1 if length & (length - 1) == 0 else None
        for nq in [None, *range(5)]:
            R.state()
            legal = k is not None and nq in (None, k)
            if refused(lambda v=v, nq=nq: Statevector(v, nqubit=nq)) == legal:
                R.bad(f"init:length:{length}:{nq}", f"Statevector of {length} amplitudes with nqubit={nq} was {'refused' if legal else 'accepted'}")
            sv = Statevector(dense.vec(1))
            if nq is not None:
                no = refused(lambda v=v, nq=nq, sv=sv: sv.add_nodes(nq, v))
                if no == legal:
                    R.bad(f"init:add length:{length}:{nq}", f"adding {length} amplitudes as {nq} qubits was {'refused' if no else 'accepted'}")
                want = dense.vec(1) if no else np.kron(dense.vec(1), v)
                if legal != no and np.max(np.abs(np.asarray(sv.flatten()) - want)) > 1e-12:
                    R.bad(f"init:add length:{length}:{nq}:state", f"adding {length} amplitudes as {nq} qubits gives {sv.flatten()}")
    R.trace()


def isolated(f):
    """Run f in a forked process (a missing check may corrupt memory); its answer, or how it ended."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            signal.setitimer(signal.ITIMER_REAL, 0)
            os.write(wr, f().encode())
        finally:
            os._exit(0)
    os.close(wr)
    out = b""
    while True:
        got = os.read(rd, 4096)
        if not got:
            break
        out += got
    os.close(rd)
    _, status = os.waitpid(pid, 0)
    return out.decode() or f"ended with status {status}"


def bounds_space(R):
    """Operations on qubits which do not exist are refused and leave the state unchanged."""
    cases = []
    for n in (1, 2, 3):
        for q in (n, n + 1, n + 3, -1, -n):
            for name in ("evolve_single", "expectation_single", "project_qubit"):
                cases.append((n, name, [q]))
            for name in ("swap", "entangle"):
                cases.append((n, name, [0, q]))
                cases.append((n, name, [q, 0]))
        cases.append((n, "permute", list(range(n + 1))))
        cases.append((n, "permute", list(range(n - 1))))
        cases.append((n, "permute", [0] * n if n > 1 else [1]))
    cases.append((2, "evolve", [0, 2]))
    for n, name, args in cases:
        for cap in (n, n + 2):

            def run(n=n, name=name, args=args, cap=cap):
                sv = Statevector(dense.vec(n), max_qubits=cap)
                b = np.array(sv.flatten())
                try:
                    {
                        "swap": lambda: sv.swap(tuple(args)),
                        "entangle": lambda: sv.entangle(tuple(args)),
                        "evolve_single": lambda: sv.evolve_single(dense.U1, args[0]),
                        "expectation_single": lambda: sv.expectation_single(dense.U1, args[0]),
                        "project_qubit": lambda: sv.project_qubit(dense.projector("gen", 0), args[0]),
                        "permute": lambda: sv.permute(args),
                        "evolve": lambda: sv.evolve(dense.U2, args),
                    }[name]()
                except (IndexError, ValueError, AssertionError):
                    same = sv.nqubit == n and np.array_equal(b, np.asarray(sv.flatten()))
                    return "refused" if same else "refused after changing the state"
                return "accepted"

            R.state()
            R.trans()
            got = isolated(run)
            if got != "refused":
                R.bad(f"bounds:{n}:{name}:{args}:{cap}", f"{name} on qubits {args} of a {n}-qubit register of capacity {cap}: {got}")
    R.trace()


def dict_space(R):
    for n in (0, 1, 2, 3):
        for zero in itertools.product((0, 1), repeat=2**n) if n <= 2 else [tuple((i >> k) & 1 for k in range(8)) for i in range(0, 255, 7)]:
            if all(zero):
                continue
            v = np.array(dense.vec(n)) * (1 - np.array(zero))
            v = v / np.linalg.norm(v)
            sv = Statevector(v)
            for enc in ("MSB", "LSB"):
                R.state()
                R.trans(2)
                want = {}
                for i in range(2**n):
                    if not zero[i]:
                        bits = [(i >> (n - 1 - q)) & 1 for q in range(n)]
                        want["".join(map(str, bits if enc == "MSB" else bits[::-1]))] = v[i]
                if n == 0:
                    want = {k if k else "0": w for k, w in want.items()} if "0" in sv.to_dict(enc) else want
                d, p = sv.to_dict(enc), sv.to_prob_dict(enc)
                if set(d) != set(want) or any(abs(d[k] - want[k]) > 1e-12 for k in want) or set(p) != set(want) or any(abs(p[k] - abs(want[k]) ** 2) > 1e-12 for k in want):
                    R.bad(f"dict:{n}:{zero}:{enc}", f"to_dict({enc}) = {d}, to_prob_dict = {p}, expected {want}")
    R.trace()


def compare_space(R):
    """Fidelity and closeness over all pairs of a family of states, including nearly equal ones."""
    for n in (0, 1, 2, 3):
        base = [dense.vec(n, s) for s in range(3)] + [np.eye(2**n)[i] for i in range(2**n)]
        fam = []
        for v in base:
            fam.append(v)
            fam.append(np.exp(0.7j) * v)
            fam.append(-v)
            if n:
                for eps in (1e-2, 1e-4, 1e-6):
                    w = v + eps * np.roll(v, 1) * np.array([1, 1j] * 2 ** (n - 1))
                    fam.append(w / np.linalg.norm(w))
        svs = [Statevector(v) for v in fam]
        for (a, x), (b, y) in itertools.product(zip(fam, svs, strict=True), repeat=2):
            R.state()
            R.trans(2)
            f = abs(np.vdot(a, b)) ** 2
            got = x.fidelity(y)
            if abs(got - f) > 1e-12:
                R.bad(f"fidelity:{n}:{f}", f"fidelity of {a} and {b} is {f}, got {got}")
            c = x.isclose(y)
            if abs(1 - f) < 5e-10 and not c or abs(1 - f) > 2e-9 and c:
                R.bad(f"isclose:{n}:{f}", f"isclose is {c} for fidelity {f}")
            for rtol, atol in ((0, 1e-3), (0.3, 0.0), (0, 0.5)):
                c = x.isclose(y, rtol=rtol, atol=atol)
                lim = max(rtol * max(f, 1), atol)
                if abs(abs(1 - f) - lim) > 1e-9 and c != (abs(1 - f) <= lim):
                    R.bad(f"isclose:{n}:{f}:{rtol}:{atol}", f"isclose(rtol={rtol}, atol={atol}) is {c} for fidelity {f}")
    R.trace()


def work(task, R):
    kind = task[0]
    if kind == "init":
        init_space(R)
    elif kind == "bounds":
        bounds_space(R)
    elif kind == "dict":
        dict_space(R)
    elif kind == "compare":
        compare_space(R)
    elif kind == "seq":
        _, i, k, depth = task
        sv, r = start(i)
        if not observe(R, sv, r, f"start{i}"):
            return
        step(R, sv, r, first_ops(INIT[i][0])[k], depth, [[f"start{INIT[i]}"]])
        R.trace()
        R.outcome((INIT[i], first_ops(INIT[i][0])[k][0]))
        R.show([INIT[i], first_ops(INIT[i][0])[k]])
    elif kind == "backend":
        _, k, op = BACKEND_FIRST[task[1]]
        depth = task[2] - (1 if k >= 2 else 0) - (1 if k >= 3 else 0)
        labels = LABELS[:k]
        v = dense.vec(k, 2)
        for cap in (0, 4):
            def make(cap=cap):
                sel = Force()
                be = StatevectorBackend.with_capacity(cap, branch_selector=sel)
                if k:
                    be.add_nodes(labels, v)
                return be, sel

            bstep(R, make, dense.Rho(np.outer(v, v.conj())), labels, op, max(depth, 1) if cap == 0 else 2, [])
        R.trace()
        R.show([labels, op])
    elif kind == "big":
        big(R, task[1], task[2])
        R.trace()
    elif kind == "loops":
        env = dict(os.environ, NUMBA_DISABLE_JIT="1")
        try:
            p = subprocess.run([sys.executable, str(Path(__file__).with_name("s01_loops.py"))], capture_output=True, text=True, env=env, timeout=225)
        except subprocess.TimeoutExpired:
            R.count("loops_not_explored")
            return
        lines = [json.loads(x) for x in p.stdout.splitlines() if x.startswith("{")]
        if p.returncode != 0 or not lines:
            # the kernels cannot be run in the interpreter: nothing is said about their schedules
            R.count("loops_not_explored")
            R.show(f"exploring the parallel loops failed: {p.stderr[-1500:]}")
            return
        for d in lines:
            if "bad" in d:
                R.bad(d["bad"], d["msg"])
            elif "unavailable" in d:
                R.count("loops_not_explored")
            else:
                R.state(d["states"])
                R.trans(d["orders"])
                R.count("loop_iteration_orders", d["orders"])
                R.count("loop_iterations_recorded", d["iterations"])
        R.trace()

"""Schedules of the multi-threaded statevector kernels, explored in the interpreter (NUMBA_DISABLE_JIT=1).

``numba.prange`` is replaced by a scheduler which runs the iterations in a chosen order and records, for each
iteration, which amplitudes it reads and writes. Two iterations are independent when neither writes what the other
accesses; when all pairs are independent every interleaving of the threads gives the result of any one order (the
argument of partial-order reduction), and every order of the iterations is run as well, for values carried in locals.
"""

import itertools
import json
import sys

import numba
import numpy as np

PLAN = {"order": None, "log": None, "cur": None, "max": 0, "iterations": 0}


class Sched:
    def __init__(self, *a):
        self.items = list(range(*a))

    def __iter__(self):
        PLAN["max"] = max(PLAN["max"], len(self.items))
        order = PLAN["order"](len(self.items))
        outer = PLAN["cur"]
        for i in order:
            if outer is None:
                PLAN["cur"] = i
                PLAN["log"].setdefault(i, (set(), set()))
                PLAN["iterations"] += 1
            yield self.items[i]
        PLAN["cur"] = outer


numba.prange = Sched

import graphix.sim.statevec as sv_mod  # noqa: E402
from graphix.sim.statevec import Statevector  # noqa: E402

from mc import dense, ref  # noqa: E402


class Rec(np.ndarray):
    """Array of amplitudes whose accesses are attributed to the loop iteration making them."""

    def _note(self, key, which):
        if PLAN["cur"] is not None and isinstance(key, (int, np.integer)):
            PLAN["log"][PLAN["cur"]][which].add(int(key))

    def __getitem__(self, key):
        self._note(key, 0)
        return super().__getitem__(key)

    def __setitem__(self, key, value):
        self._note(key, 1)
        super().__setitem__(key, value)


def orders(n):
    """All orders up to 4 iterations; above, all rotations of both directions and all orders differing by one move."""
    if n <= 4:
        return list(itertools.permutations(range(n)))
    out = []
    for base in (list(range(n)), list(range(n))[::-1]):
        for k in range(n):
            out.append(base[k:] + base[:k])
        for i in range(n):
            rest = base[:i] + base[i + 1 :]
            out += [rest[:j] + [base[i]] + rest[j:] for j in (0, n // 2, n - 1)]
    return out


def run(name, n, call, want, stats):
    """Run the kernel under every iteration order; compare the result and the access sets."""
    PLAN["max"] = 0
    ident = None
    k = 0
    todo = [None]
    while k < len(todo):
        order = todo[k]
        PLAN["log"] = {}
        PLAN["cur"] = None
        PLAN["order"] = lambda m, order=order: list(range(m)) if order is None or len(order) != m else order
        sv = Statevector(dense.vec(n))
        name_of_amplitudes = next((a for a in ("_psi", *getattr(sv, "__dict__", {})) if isinstance(getattr(sv, a, None), np.ndarray)), None)
        if name_of_amplitudes is None:
            print(json.dumps({"unavailable": "the amplitudes are not stored in one array"}))
            sys.exit(0)
        setattr(sv, name_of_amplitudes, getattr(sv, name_of_amplitudes).view(Rec))
        got = call(sv)
        stats["orders"] += 1
        if not want(sv, got):
            print(json.dumps({"bad": f"loops:{name}:{n}:order", "msg": f"{name} on {n} qubits gives a different result when the parallel iterations run in the order {order}"}))
            return
        if ident is None:
            ident = dict(PLAN["log"])
            for (i, (ri, wi)), (j, (rj, wj)) in itertools.combinations(ident.items(), 2):
                clash = (wi & (rj | wj)) | (wj & ri)
                if clash:
                    print(json.dumps({"bad": f"loops:{name}:{n}:race", "msg": f"{name} on {n} qubits: parallel iterations {i} and {j} both access amplitudes {sorted(clash)[:4]}"}))
                    return
            todo += orders(PLAN["max"]) if PLAN["max"] else []
        k += 1
    stats["states"] += 1


def main():
    if hasattr(sv_mod, "NUM_QUBIT_PARALLEL"):
        sv_mod.NUM_QUBIT_PARALLEL = 0  # use the multi-threaded branch on the smallest registers
    stats = {"states": 0, "orders": 0}
    close = lambda a, b: bool(np.max(np.abs(np.asarray(a) - np.asarray(b))) < 1e-9)  # noqa: E731
    for n in (1, 2, 3, 4):
        r = dense.Rho(np.outer(dense.vec(n), dense.vec(n).conj()))
        rho = lambda sv: np.outer(np.asarray(sv.flatten()), np.asarray(sv.flatten()).conj())  # noqa: E731
        for q in range(n):
            run(f"evolve_single[{q}]", n, lambda sv, q=q: sv.evolve_single(dense.U1, q), lambda sv, _, q=q, n=n: close(np.asarray(sv.flatten()), r.full(dense.U1, [q]) @ dense.vec(n)), stats)
            run(f"expectation_single[{q}]", n, lambda sv, q=q: sv.expectation_single(dense.U1, q), lambda sv, e, q=q: close(e, r.expect(dense.U1, [q])), stats)
            for o in (0, 1):
                for m in ("gen", "z"):
                    p = dense.projector(m, o)
                    run(f"project_qubit[{q},{m},{o}]", n, lambda sv, p=p, q=q: sv.project_qubit(p, q), lambda sv, _, p=p, q=q: close(rho(sv), r.project(p, q)[0].rho), stats)
            for q2 in range(n):
                if q2 != q:
                    run(f"entangle[{q},{q2}]", n, lambda sv, q=q, q2=q2: sv.entangle((q, q2)), lambda sv, _, q=q, q2=q2, n=n: close(np.asarray(sv.flatten()), r.full(ref.CZ, [q, q2]) @ dense.vec(n)), stats)
    stats["iterations"] = PLAN["iterations"]
    print(json.dumps(stats))
    sys.exit(0)


main()

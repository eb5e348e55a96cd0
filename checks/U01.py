"""U01: random objects and the linear-algebra predicates that validate them, for every explored answer of the generator."""

import collections
import itertools
import warnings

import numpy as np
from graphix import linalg_validations
from graphix.instruction import InstructionKind
from graphix.parameter import Placeholder
from graphix.random_objects import (
    rand_channel_kraus,
    rand_circuit,
    rand_dm,
    rand_gate,
    rand_gauss_cpx_mat,
    rand_herm,
    rand_pauli_channel_kraus,
    rand_state_vector,
    rand_unit,
)
from graphix.rng import ensure_rng

META = {
    "bounds": {
        "quick": "generator answers scripted: every discrete draw (shuffles: every permutation, integers: every value) of rand_circuit for 2-4 qubits, depth <=2 and every combination of the four options up to one draw off the default "
        "(all draws of single-qubit layers for 2 qubits, depth 1), with and without parameters; rand_gate for 1-4 qubits, depth <=3, 4 sets of pairs, lists and iterators, both entanglers; continuous draws on 24 deterministic lattices for "
        "matrices of dimension <=4 (states <=16), every rank; every 1x1, 2x2 matrix over 7 entries, Hermitian and almost Hermitian 3x3 matrices over 3 entries, and shapes up to 4x4 for the predicates",
        "thorough": "two draws off the default, depth 3, dimension 8, 200 lattices",
    },
    "assumptions": ["continuous distributions are represented by lattices of draws; the distribution itself (Haar measure, Ginibre ensemble) is not decided"],
}

OPTS = list(itertools.product([False, True], repeat=4))


class Script(np.random.Generator):
    """A generator whose answers are chosen by the explorer."""

    def __new__(cls, *_args, **_kw):
        return super().__new__(cls, np.random.PCG64(0))

    def __init__(self, discrete=(), salt=0):
        super().__init__(np.random.PCG64(0))
        self.discrete = list(discrete)
        self.log = []  # number of alternatives of each discrete draw
        self.salt = salt
        self.k = 0

    def choose(self, n):
        i = len(self.log)
        self.log.append(n)
        return self.discrete[i] % n if i < len(self.discrete) else 0

    def lattice(self):
        self.k += 1
        return ((self.k * 0.6180339887498949 + self.salt * 0.7548776662466927 + self.k * self.k * 0.1234567 * (1 + self.salt % 5)) % 1.0) * 0.98 + 0.01

    def fill(self, size):
        if size is None:
            return self.lattice()
        shape = (int(size),) if np.isscalar(size) else tuple(int(x) for x in size)
        n = int(np.prod(shape))
        return np.array([self.lattice() for _ in range(n)]).reshape(shape)

    def random(self, size=None, *_a, **_k):
        return self.fill(size)

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self.fill(size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * (np.asarray(self.fill(size)) * 4 - 2)

    def standard_normal(self, size=None, *_a, **_k):
        return self.normal(size=size)

    def shuffle(self, x, axis=0):
        items = list(x)
        n = len(items)
        if n <= 4:
            perm = list(itertools.permutations(range(n)))[self.choose(int(np.prod(range(1, n + 1))))]
        else:  # rotations of longer lists
            k = self.choose(n)
            perm = [(i + k) % n for i in range(n)]
        for i, j in enumerate(perm):
            x[i] = items[j]

    def permutation(self, x, axis=0):
        items = list(range(x)) if np.isscalar(x) else list(x)
        self.shuffle(items)
        return np.array(items)

    def integers(self, low, high=None, size=None, *_a, endpoint=False, **_k):
        if high is None:
            low, high = 0, low
        assert size is None
        return low + self.choose(int(high) - int(low) + (1 if endpoint else 0))

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        items = list(range(a)) if np.isscalar(a) else list(a)
        if size is None:
            return items[self.choose(len(items))]
        acc = []
        for _ in range(int(np.prod(size))):
            i = self.choose(len(items))
            acc.append(items[i])
            if not replace:
                items.pop(i)
        return np.array(acc)


def tasks(tier):
    th = tier == "thorough"
    for n in range(2, 5):
        for depth in range(4 if th else 3):
            for opts in OPTS:
                for par in (0, 2):
                    yield ["circuit", n, depth, list(opts), par, 2 if th and n < 4 else 1]
    for opts in OPTS:
        yield ["layer", list(opts)]
    yield ["families"]
    for n in range(1, 5):
        yield ["gate", n]
    for dim in [1, 2, 3, 4, 8] if th else [1, 2, 3, 4]:
        for k in range(0, 200 if th else 24, 8):
            yield ["matrix", dim, list(range(k, k + 8))]
    yield ["rng"]
    for k in range(12):
        yield ["lin2", k, 12]
    yield ["lin3"]
    yield ["shapes"]


def summary(c):
    out = []
    for instr in c.instruction:
        ops = tuple(getattr(instr, "controls", ()) or ()) + ((instr.control,) if hasattr(instr, "control") else ()) + tuple(getattr(instr, "targets", ()) or ()) + ((instr.target,) if hasattr(instr, "target") else ())
        angle = getattr(instr, "angle", None)
        out.append((instr.kind, ops, angle))
    return out


SINGLE = {
    InstructionKind.RY: [0.25],
    InstructionKind.RZ: [-0.25],
    InstructionKind.RX: [-0.25],
    InstructionKind.H: [None],
    InstructionKind.S: [None],
    InstructionKind.X: [None],
    InstructionKind.Y: [None],
    InstructionKind.Z: [None],
}


def check_circuit(R, key, c, n, depth, opts, params):
    use_j, use_cz, use_rzz, use_ccx = opts
    if c.width != n:
        R.bad(key, f"width {c.width}")
        return None
    two = {InstructionKind.CNOT, InstructionKind.SWAP} | ({InstructionKind.CZ} if use_cz else set()) | ({InstructionKind.RZZ} if use_rzz else set())
    many = two | ({InstructionKind.CCX} if use_ccx else set())
    layers = []
    prev_single = True
    for kind, ops, angle in summary(c):
        if len(set(ops)) != len(ops) or not all(0 <= q < n for q in ops):
            R.bad(key, f"operands {ops} of {kind}")
            return None
        if len(ops) > 1:
            if prev_single:
                layers.append(([], []))
            prev_single = False
            if kind not in many or len(ops) != (3 if kind == InstructionKind.CCX else 2):
                R.bad(key, f"{kind} on {ops} is not in the enabled family {sorted(k.name for k in many)}")
                return None
            if kind == InstructionKind.RZZ and abs(angle - 0.25) > 1e-12:
                R.bad(key, f"angle {angle} of RZZ")
            layers[-1][0].append((kind, ops))
        else:
            prev_single = True
            if not layers:
                R.bad(key, "a single-qubit gate before the first entangling layer")
                return None
            wanted = list(SINGLE.get(kind, ()))
            if kind == InstructionKind.J and use_j:
                wanted = [0.25]
            if kind in {InstructionKind.RX, InstructionKind.RY, InstructionKind.RZ}:
                wanted += list(params)
            if not any(angle is w or (angle is not None and w is not None and type(angle) is type(w) and (angle == w)) for w in wanted):
                R.bad(key, f"{kind} with angle {angle} is not in the documented choice")
                return None
            layers[-1][1].append((kind, ops[0], angle))
    if len(layers) != depth:
        R.bad(key, f"{len(layers)} layers instead of {depth}")
        return None
    for ent, single in layers:
        if [q for _, q, _ in single] != list(range(n)):
            R.bad(key, f"the single-qubit layer acts on {[q for _, q, _ in single]}")
        if {k for k, _ in ent} != many:
            R.bad(key, f"the entangling layer has {sorted({k.name for k, _ in ent})} instead of {sorted(k.name for k in many)}")
    return layers


def explore(build, devs):
    """Every script with at most `devs` draws off the default."""
    rng = Script()
    c = build(rng)
    yield [], c, rng
    frontier = [([], rng.log)]
    for _ in range(devs):
        new = []
        for script, log in frontier:
            for i in range(len(script), len(log)):
                for v in range(1, log[i]):
                    s = script + [0] * (i - len(script)) + [v]
                    rng = Script(s)
                    yield s, build(rng), rng
                    new.append((s, rng.log))
        frontier = new


def circuits(task, R):
    _, n, depth, opts, par, devs = task
    kw = dict(zip(("use_j", "use_cz", "use_rzz", "use_ccx"), opts, strict=True))
    params = [Placeholder(f"p{i}") for i in range(par)]
    if n == 2 and opts[3] and depth:
        R.state()
        R.at(f"{task}")
        try:
            rand_circuit(2, depth, Script(), **kw)
            R.bad(f"{task}", "a CCX gate on two qubits is produced")
        except ValueError:
            R.count("refused")
        return

    def build(rng):
        # an iterator of parameters must do as well
        return rand_circuit(n, depth, rng, parameters=iter(params) if par else None, **kw)

    pairs = collections.defaultdict(set)
    for k, (script, c, rng) in enumerate(explore(build, devs)):
        R.state()
        R.trans(len(rng.log))
        key = f"rand_circuit({n},{depth},{kw},params={par}) draws {script}"
        R.at(key)
        layers = check_circuit(R, key, c, n, depth, opts, params)
        if layers is None:
            return
        for ent, single in layers:
            for kind, ops in ent:
                pairs[kind].add(ops)
        if k % 7 == 0:
            again = build(Script(script))
            if repr(again.instruction) != repr(c.instruction):
                R.bad(key, "two runs with the same draws differ")
            R.trace()
    if depth == 1:
        if missing(n, pairs):
            for _script, c, _rng in explore(build, 2):
                for kind, ops, _ in summary(c):
                    if len(ops) > 1:
                        pairs[kind].add(ops)
                if not missing(n, pairs):
                    break
        for kind, lost in missing(n, pairs):
            R.bad(f"reach:{n}:{opts}:{kind}", f"{kind} never acts on {lost}")
    R.outcome(tuple(sorted(k.name for k in pairs)))


def missing(n, pairs):
    """Operands no explored draw leads to, per kind of gate (up to the symmetry of the gate)."""
    out = []
    for kind, seen in pairs.items():
        want = set(itertools.permutations(range(n), 3 if kind == InstructionKind.CCX else 2))
        if kind == InstructionKind.CCX:
            want = {(*sorted(x[:2]), x[2]) for x in want}
            seen = {(*sorted(x[:2]), x[2]) for x in seen}
        elif kind != InstructionKind.CNOT:
            want = {tuple(sorted(x)) for x in want}
            seen = {tuple(sorted(x)) for x in seen}
        if not want <= seen:
            out.append((kind, sorted(want - seen)))
    return out


def layer(task, R):
    """Every answer for the two single-qubit choices of 2 qubits, depth 1: the reachable gates are exactly the documented ones."""
    _, opts = task
    if opts[3]:
        n = 3
    else:
        n = 2
    kw = dict(zip(("use_j", "use_cz", "use_rzz", "use_ccx"), opts, strict=True))
    params = [Placeholder("p0"), Placeholder("p1")]
    for par, form in itertools.product((0, 1, 2), (list, iter)):
        ps = params[:par]
        base = Script()
        rand_circuit(n, 1, base, parameters=form(ps), **kw)
        spots = len(base.log) - n
        count = base.log[-1]
        reached = [set() for _ in range(n)]
        for vals in itertools.product(range(count), repeat=n) if n == 2 else [(v, (v + 1) % count, (v * 2) % count) for v in range(count)] + [(0, v, v) for v in range(count)] + [(0, 0, v) for v in range(count)]:
            s = [0] * spots + list(vals)
            R.state()
            key = f"rand_circuit({n},1,{kw},params={par}) as {form.__name__} draws {s}"
            R.at(key)
            c = rand_circuit(n, 1, Script(s), parameters=form(ps), **kw)
            layers = check_circuit(R, key, c, n, 1, opts, ps)
            if layers is None:
                return
            for kind, q, angle in layers[0][1]:
                reached[q].add((kind, str(angle)))
        want = {(k, str(a)) for k, v in SINGLE.items() for a in v} | ({(InstructionKind.J, "0.25")} if opts[0] else set())
        want |= {(k, str(p)) for k in (InstructionKind.RX, InstructionKind.RY, InstructionKind.RZ) for p in ps}
        for q in range(n):
            if reached[q] != want:
                R.bad(f"choice:{opts}:{par}:{form.__name__}:{q}", f"reachable single-qubit gates on {q} differ from the documented ones by {reached[q] ^ want}")
        R.trace()


def families(R):
    for n in range(1, 2):
        R.state()
        R.at("rand_circuit(1, 1)")
        try:
            rand_circuit(1, 1, Script())
            R.bad("one-qubit", "entangling gates on one qubit")
        except ValueError:
            R.count("refused")
        c = rand_circuit(1, 0, Script())
        if c.width != 1 or len(c.instruction):
            R.bad("one-qubit-0", "depth 0 is not the empty circuit")


def gates(task, R):
    _, n = task
    every = list(itertools.combinations(range(n), 2))
    sets = [[], every[:1], [(a, a + 1) for a in range(n - 1)], every, [(b, a) for a, b in every]]
    for depth in range(4):
        for pairs in sets:
            for rzz in (False, True):
                for form in ("list", "iter", "gen", "tuple"):
                    R.state()
                    key = f"rand_gate({n},{depth},{pairs} as {form},use_rzz={rzz})"
                    R.at(key)
                    arg = {"list": list(pairs), "iter": iter(pairs), "gen": (p for p in pairs), "tuple": tuple(pairs)}[form]
                    rng = Script()
                    c = rand_gate(n, depth, arg, rng, use_rzz=rzz)
                    want = [(InstructionKind.RX, (q,)) for q in range(n)]
                    ent = [(InstructionKind.RZZ, tuple(sorted(p))) if rzz else (InstructionKind.CNOT, p) for p in pairs]
                    want += ent
                    for _ in range(depth - 1):
                        for q in range(n):
                            want += [(InstructionKind.RX, (q,)), (InstructionKind.RZ, (q,))]
                        want += ent
                    want += [(InstructionKind.RZ, (q,)) for q in range(n)]
                    got = [(k, tuple(sorted(o)) if k == InstructionKind.RZZ else o) for k, o, _ in summary(c)]
                    if c.width != n or got != want:
                        R.bad(key, f"{got}\ninstead of {want}")
                        continue
                    angles = [a for k, _, a in summary(c) if k != InstructionKind.CNOT]
                    if len(set(angles)) != len(angles):
                        R.bad(key, f"two rotations share one drawn angle: {angles}")
                    if rng.k != len(angles):
                        R.bad(key, f"{rng.k} draws for {len(angles)} angles")
                    R.trace()
                    R.outcome(len(want))


def close(a, b, tol=1e-9):
    return np.allclose(a, b, atol=tol, rtol=0)


def completeness(ch, dim):
    return sum(np.abs(d.coef) ** 2 * d.operator.conj().T @ d.operator for d in ch)


def matrices(task, R):
    _, dim, salts = task
    for salt in salts:
        R.state()
        R.at(f"herm {dim} {salt}")
        h = rand_herm(dim, Script(salt=salt))
        if h.shape != (dim, dim) or not close(h, h.conj().T) or not (dim == 1 or np.abs(h.imag).max() > 1e-6) or np.abs(h.real).max() < 1e-6:
            R.bad(R.current, f"rand_herm {h}")
        for form in (int, np.int64):
            R.at(f"unit {dim} {salt} {form}")
            u = rand_unit(form(dim), Script(salt=salt))
            u = np.asarray(u).reshape(dim, dim) if dim == 1 else u
            if u.shape != (dim, dim) or not close(u.conj().T @ u, np.eye(dim)) or not close(u @ u.conj().T, np.eye(dim)):
                R.bad(R.current, f"rand_unit {u}")
        for rank in [None, *range(dim + 2)]:
            R.at(f"dm {dim} rank {rank} {salt}")
            R.state()
            try:
                rho = rand_dm(dim, Script(salt=salt), rank)
            except ValueError:
                if rank is None or 1 <= rank <= dim:
                    R.bad(R.current, "refused")
                R.count("refused")
                continue
            r = dim if rank is None else rank
            if rank is not None and not 1 <= rank <= dim:
                R.bad(R.current, f"rank {rank} accepted: {rho}")
                continue
            ev = np.linalg.eigvalsh((rho + rho.conj().T) / 2) if np.all(np.isfinite(rho)) else np.array([np.nan])
            if rho.shape != (dim, dim) or not close(rho, rho.conj().T) or not close(np.trace(rho), 1) or not (ev >= -1e-9).all() or int((ev > 1e-7).sum()) != r:
                R.bad(R.current, f"rand_dm with eigenvalues {ev}, trace {np.trace(rho)}")
            if not (linalg_validations.is_hermitian(rho) and linalg_validations.is_unit_trace(rho) and linalg_validations.is_psd(rho, tol=1e-9)):
                R.bad(R.current, "the predicates refuse a density matrix")
        for sig, scale in ((None, 1 / np.sqrt(2)), ("ginibre", 1 / np.sqrt(2 * dim)), (0.3, 0.3), (2.0, 2.0)):
            R.at(f"gauss {dim} {sig} {salt}")
            R.state()
            m = rand_gauss_cpx_mat(dim, Script(salt=salt), sig)
            ref = rand_gauss_cpx_mat(dim, Script(salt=salt), 1.0)
            parts = np.concatenate([m.real.ravel(), m.imag.ravel()])
            if m.shape != (dim, dim) or not close(m, ref * scale):
                R.bad(R.current, f"{m}\nis not {scale} times the standard draw\n{ref}")
            if np.unique(np.round(parts, 12)).size != parts.size:
                R.bad(R.current, f"components share a draw: {m}")
        if dim in (2, 4, 8):
            nqb = {2: 1, 4: 2, 8: 3}[dim]
            ranks = [None, 0, -1, *range(1, dim**2 + 2)] if dim < 8 else [None, 1, 2, 33, 64, 65]
            for rank in ranks:
                for what, f in (("kraus", lambda rng, rk: rand_channel_kraus(dim, rng, rk)), ("ginibre", lambda rng, rk: rand_channel_kraus(dim, rng, rk, "ginibre")), ("pauli", lambda rng, rk: rand_pauli_channel_kraus(dim, rng, rk))):
                    R.at(f"{what} {dim} rank {rank} {salt}")
                    R.state()
                    try:
                        ch = f(Script([salt], salt=salt), rank)
                    except ValueError:
                        if rank is None or 1 <= rank <= dim**2:
                            R.bad(R.current, "refused")
                        R.count("refused")
                        continue
                    if rank is not None and not 1 <= rank <= dim**2:
                        R.bad(R.current, f"rank {rank} accepted")
                        continue
                    r = dim**2 if rank is None else rank
                    if len(ch) != r or ch.nqubit != nqb or not close(completeness(ch, dim), np.eye(dim), 1e-8):
                        R.bad(R.current, f"{len(ch)} operators on {ch.nqubit} qubits; sum {completeness(ch, dim)}")
                        continue
                    flat = np.array([(d.coef * d.operator).ravel() for d in ch])
                    if np.linalg.matrix_rank(flat, tol=1e-7) != r:
                        R.bad(R.current, f"Choi rank {np.linalg.matrix_rank(flat, tol=1e-7)} instead of {r}")
                    if what == "pauli":
                        for d in ch:
                            nz = np.abs(d.operator) > 1e-12
                            if not ((nz.sum(0) == 1).all() and close(d.operator, d.operator.conj().T) and close(d.operator @ d.operator, np.eye(dim))):
                                R.bad(R.current, f"not a Pauli operator: {d.operator}")
                    R.trace()
        if dim == 3:
            R.at("pauli 3")
            try:
                rand_pauli_channel_kraus(3, Script())
                R.bad("pauli 3", "dimension 3 accepted")
            except ValueError:
                R.count("refused")
        for nq in range(dim + 1 if dim < 8 else 5):
            R.at(f"state {nq} {salt}")
            R.state()
            v = rand_state_vector(nq, Script(salt=salt))
            if v.shape != (1 << nq,) or not close(np.vdot(v, v), 1) or not np.all(np.isfinite(v)) or (np.abs(v) < 1e-12).all():
                R.bad(R.current, f"rand_state_vector {v}")


def rng_use(R):
    """The generator that is given is the one that is used; a missing one gives a warning at the caller."""
    makers = {
        "herm": lambda g: rand_herm(3, g),
        "unit": lambda g: rand_unit(3, g),
        "unit1": lambda g: rand_unit(1, g),
        "dm": lambda g: rand_dm(4, g),
        "dm2": lambda g: rand_dm(4, g, 2),
        "gauss": lambda g: rand_gauss_cpx_mat(3, g),
        "kraus": lambda g: np.array([d.operator for d in rand_channel_kraus(2, g)]),
        "pauli": lambda g: np.array([d.coef * d.operator for d in rand_pauli_channel_kraus(4, g, 3)]),
        "state": lambda g: rand_state_vector(3, g),
        "gate": lambda g: repr(rand_gate(3, 2, [(0, 1), (1, 2)], g).instruction),
        "gaterzz": lambda g: repr(rand_gate(3, 2, [(0, 1), (1, 2)], g, use_rzz=True).instruction),
        "circuit": lambda g: repr(rand_circuit(4, 3, g, use_rzz=True, use_ccx=True).instruction),
    }
    for name, f in makers.items():
        for seed in range(6):
            R.state()
            R.at(f"rng {name} {seed}")
            with warnings.catch_warnings(record=True) as caught:
                warnings.simplefilter("always")
                g = np.random.default_rng(seed)
                h = np.random.default_rng(seed)
                np.random.seed(seed + 1)
                legacy = np.random.get_state()
                a = f(g)
                same_legacy = all(np.array_equal(x, y) for x, y in zip(np.random.get_state(), legacy, strict=True))
                np.random.seed(seed + 2)
                b = f(h)
            same = a == b if isinstance(a, str) else np.array_equal(a, b)
            if not same or g.bit_generator.state != h.bit_generator.state:
                R.bad(R.current, "the same seed gives two results")
            if not same_legacy:
                R.bad(R.current, "the global generator is used")
            if g.bit_generator.state == np.random.default_rng(seed).bit_generator.state:
                R.bad(R.current, "the generator is not used")
            if any("random-number generator" in str(w.message) for w in caught):
                R.bad(R.current, "a warning although a generator is given")
            other = f(np.random.default_rng(seed + 100))
            if a == other if isinstance(a, str) else np.array_equal(a, other):
                R.bad(R.current, "another seed gives the same result")
            R.trace()
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter("always")
            x, y = f(None), f(None)
        mine = [w for w in caught if "random-number generator" in str(w.message)]
        if not mine or any(w.filename != __file__ for w in mine):
            R.bad(f"warn {name}", f"warnings without generator: {[(w.filename, w.lineno) for w in mine]}")
        if x == y if isinstance(x, str) else np.array_equal(x, y):
            R.bad(f"repeat {name}", "two objects from the default generator are equal")
    g = np.random.default_rng(3)
    if ensure_rng(g) is not g:
        R.bad("ensure", "another generator is returned")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if ensure_rng(None) is not ensure_rng(None):
            R.bad("ensure-default", "the default generator is not kept")


ENT = [0, 1, -1, 1j, -1j, 0.5, 0.5 + 0.5j]


def lin_check(R, m, key):
    """All predicates against their definition (principal minors decide semi-definiteness)."""
    m = np.asarray(m)
    R.state()
    R.at(key)
    sq = m.ndim == 2 and m.shape[0] == m.shape[1]
    herm = sq and bool(np.all(np.abs(m - m.conj().T) < 1e-6))
    n = m.shape[0] if sq else 0
    psd = herm and all(np.linalg.det(m[np.ix_(s, s)]).real >= -1e-12 for k in range(1, n + 1) for s in itertools.combinations(range(n), k))
    want = {
        "is_square": sq,
        "is_qubitop": sq and n in (1, 2, 4, 8),
        "is_hermitian": herm,
        "is_unit_trace": sq and abs(sum(m[i, i] for i in range(n)) - 1) < 1e-6,
    }
    for name, w in want.items():
        got = getattr(linalg_validations, name)(m)
        R.trans()
        if bool(got) != bool(w):
            R.bad(f"{name}:{key}", f"{name}({m.tolist()}) = {got}, expected {w}")
    # a boundary case (a zero eigenvalue) is left to the tolerance given
    got = linalg_validations.is_psd(m, tol=1e-9)
    if bool(got) != bool(psd):
        R.bad(f"is_psd:{key}", f"is_psd({m.tolist()}) = {got}, expected {psd}")
    if herm and n:
        low = np.linalg.eigvalsh(m).min()
        for tol in (0.1, 0.75, 3.0):
            if abs(low + tol) > 1e-6 and bool(linalg_validations.is_psd(m, tol=tol)) != bool(low >= -tol):
                R.bad(f"is_psd:{key}:{tol}", f"is_psd with tolerance {tol}, smallest eigenvalue {low}")
    R.outcome((sq, herm, psd))


def lin2(task, R):
    _, k, step = task
    for i, v in enumerate(itertools.product(ENT, repeat=4)):
        if i % step == k:
            lin_check(R, np.array(v).reshape(2, 2), f"2x2 {v}")
    if k == 0:
        for v in ENT:
            lin_check(R, np.array([[v]]), f"1x1 {v}")


def lin3(R):
    for diag in itertools.product([0, 1, 0.5], repeat=3):
        for off in itertools.product([0, 1, 0.5j], repeat=3):
            a = np.diag(np.array(diag, dtype=complex))
            for (i, j), v in zip(((0, 1), (0, 2), (1, 2)), off, strict=True):
                a[i, j] = v
                a[j, i] = np.conj(v)
            lin_check(R, a, f"3x3 {diag} {off}")
            b = a.copy()
            b[2, 0] += 0.25
            lin_check(R, b, f"3x3 off {diag} {off}")
    for dt in (int, float, complex, np.float32, np.complex64):
        for d in (1, 2, 4):
            lin_check(R, np.eye(d, dtype=dt), f"eye {d} {dt}")


def shapes(R):
    for shape in itertools.chain.from_iterable(itertools.product(range(5), repeat=k) for k in (2,)):
        if 0 in shape:
            continue
        lin_check(R, np.ones(shape) * 0.25, f"shape {shape}")
    for d in range(1, 18):
        m = np.eye(d)
        got = linalg_validations.is_qubitop(m)
        R.state()
        if bool(got) != (d in (1, 2, 4, 8, 16)):
            R.bad(f"qubitop {d}", f"is_qubitop on dimension {d}: {got}")
    for shape in [(), (1,), (2,), (4,), (2, 2, 2), (1, 1, 1), (4, 4, 4)]:
        for name in ("is_square", "is_qubitop", "is_hermitian", "is_psd", "is_unit_trace"):
            R.state()
            R.at(f"{name} {shape}")
            if getattr(linalg_validations, name)(np.ones(shape)):
                R.bad(f"{name} {shape}", f"{name} accepts an array of shape {shape}")
    try:
        linalg_validations.is_psd(np.eye(2), tol=-1e-3)
        R.bad("negative tol", "a negative tolerance is accepted")
    except ValueError:
        R.count("refused")


def work(task, R):
    kind = task[0]
    if kind == "circuit":
        circuits(task, R)
    elif kind == "layer":
        layer(task, R)
    elif kind == "families":
        families(R)
    elif kind == "gate":
        gates(task, R)
    elif kind == "matrix":
        matrices(task, R)
    elif kind == "rng":
        rng_use(R)
    elif kind == "lin2":
        lin2(task, R)
    elif kind == "lin3":
        lin3(R)
    else:
        shapes(R)

"""S03: pattern simulation follows the chosen branch and the Born rule on both dense backends."""

import itertools
import warnings

import numpy as np
from graphix import command
from graphix.branch_selector import BranchSelector, ConstBranchSelector, FixedBranchSelector, RandomBranchSelector
from graphix.pattern import Pattern
from graphix.noise_models import DepolarisingNoiseModel
from graphix.sim.density_matrix import DensityMatrix, DensityMatrixBackend
from graphix.sim.statevec import Statevector, StatevectorBackend
from graphix.simulator import DefaultMeasureMethod, DefaultPrepareMethod, PatternSimulator
from graphix.states import BasicStates

from mc import dense, pat, ref

META = {
    "bounds": {
        "quick": "every runnable command sequence of 5 shapes (0-2 inputs, up to 3 further commands of 6 kinds, 6 measurement kinds, domains of size <=1) and every measurement chain of 3 nodes with all domains and 6^3 kinds (3 of 6 kinds when domains are full); "
        "every branch of non-zero probability on both backends; every output order; every input-state form; five measured nodes with every domain of 3 to 5 nodes at the last measurement and at corrections; every selector configuration; seeds 0..399 for random selection, and 502 answers of the unit interval for 21 probabilities",
        "thorough": "one more command, domains of size <=2, seeds 0..3999",
    },
    "assumptions": ["floating-point comparisons within 1e-7", "the input is an entangled state in general position, given as a vector (other forms on the shapes of the 'forms' tasks)"],
}
TOL = 1e-7
CODES = ["X+", "Y-", "Z-", "XY:0.37", "YZ:-0.61", "XZ:1.21"]
ALL = ("N", "E", "M", "X", "Z", "C")

# name: inputs, prefix, length, kinds, codes
SHAPES = {
    "one": ([0], [["N", 1], ["E", 0, 1]], 3, ALL, CODES[1:5], (0, 1, 2, 3)),
    "two": ([1, 0], [["N", 2], ["E", 1, 2]], 2, ALL, CODES, (0, 1, 2, 3)),
    "noin": ([], [["N", 0, "ZERO"], ["N", 7], ["E", 0, 7]], 3, ("E", "M", "X", "Z", "C"), CODES[1:5], (0, 7)),
    "after": ([5, 2], [["E", 2, 5], ["N", 9], ["E", 9, 5], ["M", 5, "YZ:0.29", [], []]], 2, ALL, CODES, (2, 5, 9, 11)),
    "mm": ([3], [["N", 1], ["N", 0, "MINUS_I"], ["E", 1, 3], ["E", 0, 3], ["M", 3, "XY:0.21", [], []], ["M", 0, "XZ:0.7", [3], []]], 2, ALL, CODES[2:], (1, 4)),
}


class Record(BranchSelector):
    """Forces the given outcomes and records what it is offered."""

    def __init__(self, results):
        self.results, self.seen = results, []

    def measure(self, qubit, f_expectation0, rng=None, *, stacklevel=1):
        self.seen.append((qubit, f_expectation0()))
        return self.results[qubit]


class Truth:
    """Branch states and probabilities of a pattern on a given input density matrix (or ket)."""

    def __init__(self, p, rho, outs=None):
        st = ref.run_pattern(p)
        self.order = list(st.order)
        outs = list(p.output_nodes) if outs is None else outs
        rows = pat.table(st, outs, self.order)
        d_in = rho.shape[0]
        k = rows.reshape(rows.shape[0], -1, d_in)
        if rho.ndim == 1:
            v = k @ rho
            self.ket = v
            self.prob = np.sum(np.abs(v) ** 2, axis=1)
        else:
            self.ket = None
            self.rho = np.einsum("bij,jk,blk->bil", k, rho, k.conj())
            self.prob = np.einsum("bii->b", self.rho).real
        self.d_out = k.shape[1]

    def density(self, b):
        m = np.outer(self.ket[b], self.ket[b].conj()) if self.ket is not None else self.rho[b]
        return m / self.prob[b]

    def branches(self):
        m = len(self.order)
        for b in range(2**m):
            bits = [(b >> (m - 1 - i)) & 1 for i in range(m)]
            if self.prob[b] < 1e-9:
                continue
            offers = []
            for i in range(m):
                w = m - i
                lo = (b >> w) << w
                tot, zero = self.prob[lo : lo + 2**w].sum(), self.prob[lo : lo + 2 ** (w - 1)].sum()
                offers.append(zero / tot)
            yield b, dict(zip(self.order, bits, strict=True)), offers


def final(state):
    if isinstance(state, DensityMatrix):
        return np.asarray(state.rho)
    v = np.asarray(state.flatten())
    return np.outer(v, v.conj())


def run_branch(R, p, backend, data, truth, tag):
    for b, bits, offers in truth.branches():
        sel = Record(bits)
        mm = DefaultMeasureMethod()
        R.trans()
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                out = p.simulate(backend, input_state=data(), branch_selector=sel, measure_method=mm)
        except Exception as e:  # noqa: BLE001
            R.bad(f"{tag}:{backend}:{b}", f"branch {bits} cannot be simulated on {backend}: {type(e).__name__}: {e}")
            return
        if [q for q, _ in sel.seen] != truth.order or any(abs(x - y) > TOL for (_, x), y in zip(sel.seen, offers, strict=True)):
            R.bad(f"{tag}:{backend}:{b}:prob", f"offered {sel.seen}, true conditional probabilities of 0 {dict(zip(truth.order, offers, strict=True))} on branch {bits}")
        if mm.results != bits:
            R.bad(f"{tag}:{backend}:{b}:results", f"recorded results {mm.results} on branch {bits}")
        if out.nqubit != len(p.output_nodes) or np.max(np.abs(final(out) - truth.density(b))) > TOL:
            R.bad(f"{tag}:{backend}:{b}:state", f"wrong state on branch {bits} with {backend}")


def check(R, inputs, cmds, orders=True):
    p = pat.build(inputs, cmds)
    R.state()
    tag = pat.show(inputs, cmds)
    R.at(tag)
    v = dense.vec(len(inputs), 2)
    t = Truth(p, v)
    for be in ("statevector", "densitymatrix"):
        run_branch(R, p, be, lambda: v, t, tag)
    outs = list(p.output_nodes)
    if orders and len(outs) > 1:
        for perm in list(itertools.permutations(outs))[1:]:
            p2 = pat.build(inputs, cmds, list(perm))
            R.state()
            for be in ("statevector", "densitymatrix"):
                run_branch(R, p2, be, lambda: v, Truth(p2, v), f"{tag} out={perm}")
    R.outcome((len(t.order), len(outs)))


# ---------------------------------------------------------------- input forms and backend configurations


def forms_space(R):
    shapes = []
    for inputs, cmds in (
        ([], [["N", 1], ["N", 0, "ONE"], ["E", 0, 1], ["M", 1, "XY:0.3", [], []]]),
        ([4], [["N", 1], ["E", 4, 1], ["M", 4, "XZ:0.3", [], []], ["X", 1, [4]]]),
        ([4, 2], [["N", 1], ["E", 4, 1], ["E", 2, 1], ["M", 4, "YZ:0.3", [], []], ["C", 2, 13], ["Z", 1, [4]]]),
        ([4, 2], [["E", 2, 4]]),
        ([4, 2, 7], [["M", 2, "XY:-0.4", [], []], ["X", 4, [2]], ["E", 4, 7]]),
    ):
        shapes.append((inputs, cmds))
    st = [dense.GEN1[0], dense.GEN1[1], dense.GEN1[2]]
    for (inputs, cmds), flip in itertools.product(shapes, (False, True)):
        p = pat.build(inputs, cmds)
        if flip:
            p = pat.build(inputs, cmds, list(p.output_nodes)[::-1])
        n = len(inputs)
        w = dense.vec(n, 1) if n else np.array([1.0 + 0j])
        full = np.array([1.0 + 0j])
        for s in st[:n]:
            full = np.kron(full, ref.planar_ket(s))
        plus = np.full(2**n, 2 ** (-n / 2), dtype=complex)
        one = np.zeros(2**n, dtype=complex)
        one[-1] = 1
        mixed = np.outer(w, w.conj()) * 0.6 + 0.4 * np.diag(np.arange(1, 2**n + 1)) / (2**n * (2**n + 1) / 2)
        forms = [("plus", lambda: BasicStates.PLUS, plus), ("one", lambda: BasicStates.ONE, one), ("states", lambda: st[:n], full), ("iter", lambda: iter(st[:n]), full), ("tuple", lambda: tuple(st[:n]), full)]
        if n:
            forms += [("vector", lambda: w, w), ("list", lambda: list(w), w), ("statevector", lambda: Statevector(w), w), ("ints", lambda: [int(x) for x in one.real], one), ("floats", lambda: list(np.abs(w)), np.abs(w).astype(complex)),
                      ("capacity", lambda: Statevector(w, max_qubits=6), w)]
        for name, data, truth in forms:
            t = Truth(p, truth)
            for be in ("statevector", "densitymatrix"):
                R.state()
                run_branch(R, p, be, data, t, f"form:{name}:{pat.show(inputs, cmds)}:{flip}")
        for name, data in (("matrix", lambda: mixed), ("rows", lambda: [list(r) for r in mixed]), ("dm", lambda: DensityMatrix(mixed))):
            R.state()
            run_branch(R, p, "densitymatrix", data, Truth(p, mixed), f"form:{name}:{pat.show(inputs, cmds)}:{flip}")
        real = np.eye(2**n) / 2**n
        run_branch(R, p, "densitymatrix", lambda: real, Truth(p, real), f"form:real matrix:{pat.show(inputs, cmds)}:{flip}")
        # instantiated backends, with the input given or prepared beforehand
        t = Truth(p, w)
        for (b, bits, offers), pre, order in itertools.product(t.branches(), (False, True), (1, -1)):
            if order == -1 and (not pre or n < 2):
                continue
            for mk in (lambda s: StatevectorBackend.with_capacity(0, branch_selector=s), lambda s: StatevectorBackend.with_capacity(6, branch_selector=s), lambda s: DensityMatrixBackend(branch_selector=s)):
                R.state()
                R.trans()
                sel = Record(bits)
                be = mk(sel)
                if pre:
                    # nodes prepared in another order: the state follows the labels
                    labs = inputs[::order]
                    x = w if order == 1 else np.transpose(w.reshape((2,) * n)).reshape(-1)
                    if n:
                        be.add_nodes(labs, x)
                mm = DefaultMeasureMethod()
                out = p.simulate(be, input_state=None if pre else (w if n else []), measure_method=mm)
                key = f"instance:{type(be).__name__}:{pat.show(inputs, cmds)}:{flip}:{b}:{pre}:{order}"
                if out is not be.state or np.max(np.abs(final(out) - t.density(b))) > TOL or mm.results != bits or list(be.node_index) != list(p.output_nodes):
                    R.bad(key, f"simulation on an instantiated backend is wrong on branch {bits}")
                if any(abs(a - o) > TOL for (_, a), o in zip(sel.seen, offers, strict=True)):
                    R.bad(f"{key}:prob", f"offered {sel.seen}")
        # refusals
        for name, f in {
            "None without inputs prepared": (lambda: p.simulate("statevector", input_state=None)) if n else None,
            "backend not empty": lambda: p.simulate(filled(), input_state=BasicStates.PLUS),
            "too many prepared": lambda: p.simulate(filled(n + 1), input_state=None),
            "selector with instance": lambda: p.simulate(DensityMatrixBackend(), branch_selector=ConstBranchSelector(0)),
            "noise on statevector": lambda: p.simulate("statevector", noise_model=DepolarisingNoiseModel()),
            "wrong number of states": lambda: p.simulate("statevector", input_state=[BasicStates.PLUS] * (n + 1), branch_selector=ConstBranchSelector(0)),
            "wrong vector size": lambda: p.simulate("statevector", input_state=dense.vec(n + 1), branch_selector=ConstBranchSelector(0)),
            "wrong matrix size": lambda: p.simulate("densitymatrix", input_state=np.eye(2 ** (n + 1)) / 2 ** (n + 1), branch_selector=ConstBranchSelector(0)),
            "unknown backend": lambda: p.simulate("nope"),
        }.items():
            if f is None:
                continue
            R.state()
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    f()
                R.bad(f"refuse:{name}:{inputs}", f"{name}: accepted")
            except ValueError:
                R.count("refused")
    R.trace()


def filled(n=1):
    be = StatevectorBackend()
    be.add_nodes(list(range(100, 100 + n)))
    return be


# ---------------------------------------------------------------- selectors

SEL = ([0], [["N", 1], ["N", 2], ["E", 0, 1], ["E", 1, 2], ["M", 0, "XZ:0.33", [], []], ["M", 1, "YZ:0.21", [0], []], ["X", 2, [1]]])


def selector_space(R):
    p = pat.build(*SEL)
    w = dense.vec(1, 5)
    t = Truth(p, w)
    for b, bits, offers in t.branches():
        for be in ("statevector", "densitymatrix"):
            for defaults in itertools.product((None, 0, 1, "rec"), repeat=1):
                for keys in itertools.chain.from_iterable(itertools.combinations(t.order, k) for k in range(3)):
                    R.state()
                    R.trans()
                    d = defaults[0]
                    rec = Record(bits)
                    default = None if d is None else rec if d == "rec" else ConstBranchSelector(d)
                    table = {k: bits[k] for k in keys}
                    sel = FixedBranchSelector(dict(table), default=default)
                    mm = DefaultMeasureMethod()
                    want = {k: table.get(k, bits[k] if d == "rec" else d) for k in t.order}
                    key = f"fixed:{be}:{b}:{d}:{keys}"
                    try:
                        with warnings.catch_warnings():
                            warnings.simplefilter("ignore")
                            out = p.simulate(be, input_state=w, branch_selector=sel, measure_method=mm)
                    except ValueError:
                        if d is not None or len(keys) == len(t.order):
                            R.bad(key, "a fixed branch selector with all outcomes available raises")
                        continue
                    if d is None and len(keys) < len(t.order):
                        R.bad(key, "an outcome missing from a fixed branch selector without default is accepted")
                        continue
                    if mm.results != want or sel.results != table:
                        R.bad(key, f"results {mm.results}, expected {want}; table {sel.results}")
                    idx = sum(want[k] << (len(t.order) - 1 - i) for i, k in enumerate(t.order))
                    if np.max(np.abs(final(out) - t.density(idx))) > TOL:
                        R.bad(f"{key}:state", "wrong state")
                    if d == "rec" and [q for q, _ in rec.seen] != [k for k in t.order if k not in keys]:
                        R.bad(f"{key}:default", f"the default selector was asked for {rec.seen}")
        given = {17: 1}
        mm = DefaultMeasureMethod(given)
        p.simulate("statevector", input_state=w, branch_selector=Record(bits), measure_method=mm)
        if given != {17: 1} or mm.results != {**bits, 17: 1}:
            R.bad(f"results:{b}", f"initial results {given}, recorded {mm.results}")
        sim = PatternSimulator(p, branch_selector=Record(bits))
        sim.run(w)
        if sim.measure_method.results != bits or np.max(np.abs(final(sim.backend.state) - t.density(b))) > TOL:
            R.bad(f"simulator:{b}", "PatternSimulator gives another result than the branch")
    # customised methods see every command exactly once, in order
    class Prep(DefaultPrepareMethod):
        def prepare(self, backend, cmd, rng=None):
            seen.append(("N", cmd.node))
            super().prepare(backend, cmd, rng)

    class Meas(DefaultMeasureMethod):
        def store_measurement_outcome(self, node, result):
            seen.append(("M", node, result))
            super().store_measurement_outcome(node, result)

    for b, bits, _ in t.branches():
        seen = []
        p.simulate("statevector", input_state=w, branch_selector=Record(bits), prepare_method=Prep(), measure_method=Meas())
        R.state()
        if seen != [("N", 1), ("N", 2), ("M", 0, bits[0]), ("M", 1, bits[1])]:
            R.bad(f"methods:{b}", f"the prepare and measure methods saw {seen}")
    R.trace()


def random_space(R, seeds):
    """Random selection: reproducible from the seed, never impossible, and with the Born frequencies over all the seeds."""
    cases = []
    for q in (0.0, 0.07, 0.31, 0.5, 0.83, 1.0):
        a = float(2 * np.arccos(np.sqrt(q)) / np.pi)
        cases.append((q, pat.build([0], [["M", 0, f"XZ:{a!r}", [], []]]), np.array([1.0, 0.0])))
    p3 = pat.build(*SEL)
    t3 = Truth(p3, dense.vec(1, 5))
    for be in ("statevector", "densitymatrix"):
        for q, p, v in cases:
            ones = 0
            for seed in range(seeds):
                R.trans()
                got = []
                for _ in range(2 if seed % 20 == 0 else 1):
                    mm = DefaultMeasureMethod()
                    with warnings.catch_warnings(record=True) as ws:
                        warnings.simplefilter("always")
                        try:
                            p.simulate(be, input_state=v, rng=np.random.default_rng(seed), measure_method=mm)
                        except RuntimeError as e:
                            R.bad(f"random:{be}:{q}:{seed}", f"random selection failed: {e}")
                    if any("random-number" in str(x.message) for x in ws):
                        R.bad(f"random:{be}:{q}:warn", "the default generator is used although one is given")
                    got.append(mm.results.get(0))
                if len(set(got)) > 1:
                    R.bad(f"random:{be}:{q}:{seed}", f"the same seed gives {got}")
                ones += got[0] or 0
            R.state()
            sd = (seeds * q * (1 - q)) ** 0.5
            if abs(ones - seeds * (1 - q)) > 5.5 * sd + 1e-9:
                R.bad(f"random:{be}:{q}", f"outcome 1 was selected {ones} times out of {seeds} for probability {1 - q}")
        counts = np.zeros(4, dtype=int)
        for seed in range(seeds):
            outs = []
            for _ in range(2 if seed % 20 == 0 else 1):
                mm = DefaultMeasureMethod()
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    out = p3.simulate(be, input_state=dense.vec(1, 5), rng=np.random.default_rng(seed), measure_method=mm)
                R.trans()
                idx = mm.results[0] * 2 + mm.results[1]
                outs.append(idx)
                if np.max(np.abs(final(out) - t3.density(idx))) > TOL:
                    R.bad(f"random3:{be}:{seed}", f"the state is not that of the recorded results {mm.results}")
            if len(set(outs)) > 1:
                R.bad(f"random3:{be}:{seed}", f"the same seed gives branches {outs}")
            counts[outs[0]] += 1
        for i in range(4):
            R.state()
            q = t3.prob[i]
            if abs(counts[i] - seeds * q) > 5.5 * (seeds * q * (1 - q)) ** 0.5:
                R.bad(f"random3:{be}:count{i}", f"branch {i} selected {counts[i]} times out of {seeds}, probability {q}")
        # one generator for a whole series: independent draws
        rng = np.random.default_rng(7)
        seq = []
        pc = cases[3][1]
        for _ in range(seeds):
            mm = DefaultMeasureMethod()
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                pc.simulate(be, input_state=[1.0, 0.0], rng=rng, measure_method=mm)
            seq.append(mm.results[0])
            R.trans()
        if not seeds * 0.5 - 3 * seeds**0.5 < sum(a != b for a, b in zip(seq, seq[1:])) < seeds * 0.5 + 3 * seeds**0.5:
            R.bad(f"random:{be}:series", "successive draws from one generator are not independent")
    drawn_space(R)
    # the selectors themselves
    for pr in (True, False):
        for q in (0.0, 0.2, 1.0):
            n1, calls = 0, 0

            def f():
                nonlocal calls
                calls += 1
                return q

            rng = np.random.default_rng(3)
            for _ in range(seeds):
                o = RandomBranchSelector(pr_calc=pr).measure(0, f, rng)
                if o not in (0, 1):
                    R.bad(f"selector:{pr}:{q}", f"outcome {o!r}")
                n1 += int(o)
            R.state()
            want = (1 - q) if pr else 0.5
            if abs(n1 - seeds * want) > 5.5 * (seeds * want * (1 - want)) ** 0.5 + 1e-9:
                R.bad(f"selector:{pr}:{q}", f"RandomBranchSelector(pr_calc={pr}) gave 1 {n1} times out of {seeds} for probability {q} of 0")
            if not pr and calls:
                R.bad(f"selector:{pr}:{q}:calls", "the probability is computed although pr_calc is False")
    R.trace()


class Drawn(np.random.Generator):
    """A generator that answers u for a draw from the unit interval (and the item a uniform u would select)."""

    def __new__(cls, *_a):
        return super().__new__(cls, np.random.PCG64(0))

    def __init__(self, u):
        super().__init__(np.random.PCG64(0))
        self.u = u

    def random(self, *_a, **_k):
        return self.u

    def uniform(self, low=0.0, high=1.0, *_a, **_k):
        return low + (high - low) * self.u

    def integers(self, low, high=None, *_a, endpoint=False, **_k):
        low, high = (0, low) if high is None else (low, high)
        return low + int(self.u * (high - low + (1 if endpoint else 0)))

    def choice(self, a, *_a, p=None, **_k):
        items = list(range(a)) if np.isscalar(a) else list(a)
        acc = np.cumsum(p) if p is not None else np.arange(1, len(items) + 1) / len(items)
        return items[int(np.searchsorted(acc, self.u, side="right").clip(0, len(items) - 1))]

    def binomial(self, _n, p, *_a, **_k):
        return int(self.u < p)


def drawn_space(R):
    """Every answer of the generator on a grid of the unit interval with both ends: outcome 0 takes exactly its probability, impossible outcomes nothing."""
    n = 500
    grid = [0.0, *((k + 0.5) / n for k in range(n)), 1 - 2.0**-53]
    for pr in (True, False):
        for q in [k / 20 for k in range(21)]:
            outs = [int(RandomBranchSelector(pr_calc=pr).measure(0, lambda q=q: q, Drawn(u))) for u in grid]
            R.state(len(grid))
            want = q if pr else 0.5
            if abs(outs[1:-1].count(0) / n - want) > 1.5 / n:
                R.bad(f"drawn:{pr}:{q}", f"outcome 0 takes {outs[1:-1].count(0)} of {n} equal parts of the unit interval, probability {want}")
            if pr and q in (0.0, 1.0) and set(outs) != {1 - int(q)}:
                R.bad(f"drawn:{pr}:{q}:ends", f"an impossible outcome is selected for the draws {[u for u, o in zip(grid, outs) if o != 1 - int(q)]}")


CHAIN = ([0], [["N", 1], ["N", 2], ["N", 3], ["E", 0, 1], ["E", 1, 2], ["E", 2, 3]])


def chains(c1, c2, tier):
    """Measure 3 nodes of a chain with every domain assignment."""
    full = tier == "thorough"
    subsets = [[], [0], [1], [0, 1]]
    for c3 in CODES:
        for s1, t1 in itertools.product(([], [0]), repeat=2):
            for s2, t2 in itertools.product(subsets, repeat=2):
                if not full and c1 in CODES[:3] and (s2 and t2 and s1):
                    continue
                yield [*CHAIN[1], ["M", 0, c1, [], []], ["M", 1, c2, s1, t1], ["M", 2, c3, s2, t2], ["X", 3, [2]], ["Z", 3, [0, 1]]]


def seqs(name, tier):
    inputs, prefix, length, kinds, codes, nodes = SHAPES[name]
    extra = 0 if tier == "quick" else 1
    for n in range(1, length + 1 + extra):
        yield from pat.sequences(inputs, prefix, n, nodes, kinds, codes, cliffs=(13,), maxdom=1 if tier == "quick" else 2)


PARTS = 24


def wide():
    """Six nodes, five of them measured, with every domain of at least three earlier nodes at the last measurement and at the corrections."""
    pre = [["N", 1], ["N", 2], ["E", 0, 1], ["E", 1, 2], ["E", 0, 2], ["M", 0, "XZ:0.33", [], []], ["N", 3], ["E", 2, 3], ["E", 1, 3], ["M", 1, "XY:0.27", [0], []]]
    pre += [["N", 4], ["E", 3, 4], ["M", 2, "YZ:0.61", [], [0, 1]], ["N", 5], ["E", 4, 5], ["E", 3, 5], ["M", 3, "XY:-0.43", [0, 1], [2]]]
    doms = [list(c) for k in (3, 4) for c in itertools.combinations((0, 1, 2, 3), k)]
    for s, t in itertools.product([[], *doms], repeat=2):
        if s or t:
            yield [*pre, ["M", 4, "XY:0.71", s, t], ["X", 5, [4]]]
    doms += [[*d, 4] for d in doms] + [[0, 2, 4], [1, 3, 4]]
    for k, d in itertools.product("XZ", doms):
        yield [*pre, ["M", 4, "XZ:0.71", [], []], [k, 5, d]]


def tasks(tier):
    yield ["forms"]
    yield ["selectors"]
    yield ["random", 400 if tier == "quick" else 4000]
    for name in SHAPES:
        for k in range(PARTS if tier == "quick" else PARTS * 20):
            yield ["seq", name, k, PARTS if tier == "quick" else PARTS * 20, tier]
    for c1 in CODES:
        for c2 in CODES:
            yield ["chain", c1, c2, tier]
    for k in range(16):
        yield ["wide", k]


def work(task, R):
    if task[0] == "forms":
        forms_space(R)
    elif task[0] == "selectors":
        selector_space(R)
    elif task[0] == "random":
        random_space(R, task[1])
    elif task[0] == "seq":
        _, name, k, parts, tier = task
        for i, cmds in enumerate(seqs(name, tier)):
            if i % parts == k:
                check(R, SHAPES[name][0], cmds)
                if i < parts:
                    R.show(pat.show(SHAPES[name][0], cmds))
        R.trace()
    elif task[0] == "wide":
        for i, cmds in enumerate(wide()):
            if i % 16 == task[1]:
                check(R, [0], cmds)
        R.trace()
    else:
        for cmds in chains(task[1], task[2], task[3]):
            check(R, CHAIN[0], cmds)
        R.trace()

"""N01: noise models insert exactly the documented noise, and noisy simulation is the exact evolution with it."""

import itertools
import math
import warnings

import numpy as np
from graphix import command
from graphix.branch_selector import BranchSelector
from graphix.noise_models import (
    AmplitudeDampingNoise,
    AmplitudeDampingNoiseModel,
    ApplyNoise,
    ComposeNoiseModel,
    DepolarisingNoise,
    DepolarisingNoiseModel,
    NoiseModel,
    TwoQubitAmplitudeDampingNoise,
    TwoQubitDepolarisingNoise,
)
from graphix.noise_models.noise_model import NoiselessNoiseModel
from graphix.sim.density_matrix import DensityMatrixBackend
from graphix.simulator import DefaultMeasureMethod

from checks.S03 import SHAPES
from mc import dense, pat, ref

META = {
    "bounds": {
        "quick": "every runnable command sequence of 5 shapes (0-2 inputs, up to 2 further commands of 7 kinds, 4 to 6 measurement kinds) under 12 noise models and compositions (distinct parameters for every error source): inserted noise for all models; simulation of every true branch with all models for one further command, with 2 of the 12 in rotation for longer ones, "
        "with measurement errors off or on; 3 patterns with every confusion outcome of every branch; all 64 on/off assignments of the 6 parameters of each model; conditional noise with every domain",
        "thorough": "up to 3 further commands",
    },
    "assumptions": ["floating-point comparisons within 1e-7", "parameters in general position stand for all parameters (the channels themselves are checked for a grid of parameters by S02)"],
}
TOL = 1e-7
KEYS = ["prepare_error_prob", "x_error_prob", "z_error_prob", "entanglement_error_prob", "measure_channel_prob", "measure_error_prob"]
PA = dict(zip(KEYS, (0.11, 0.23, 0.17, 0.07, 0.19, 0.0), strict=True))
PB = dict(zip(KEYS, (0.31, 0.05, 0.29, 0.13, 0.37, 0.0), strict=True))
CLS = {"dep": (DepolarisingNoiseModel, DepolarisingNoise, TwoQubitDepolarisingNoise), "ad": (AmplitudeDampingNoiseModel, AmplitudeDampingNoise, TwoQubitAmplitudeDampingNoise)}


# A model description: ("dep" | "ad", parameters) or ("compose", [descriptions]) or ("none",)
def build(d):
    if d[0] == "compose":
        return ComposeNoiseModel([build(x) for x in d[1]])
    if d[0] == "none":
        return NoiselessNoiseModel()
    return CLS[d[0]][0](**d[1])


def mk(kind, base, flip=0.0, **kw):
    return (kind, {**base, "measure_error_prob": flip, **kw})


MODELS = [
    mk("dep", PA), mk("dep", PB, 1.0), mk("ad", PB), mk("ad", PA, 1.0),
    ("compose", []), ("none",),
    ("compose", [mk("dep", PA, 1.0), mk("ad", PB)]),
    ("compose", [mk("ad", PB), mk("dep", PA)]),
    ("compose", [mk("ad", PB, 1.0), mk("ad", PA, 1.0)]),
    ("compose", [("none",), ("compose", [mk("dep", PB, 1.0), mk("ad", PA)]), mk("ad", PB)]),
    mk("dep", dict.fromkeys(KEYS, 0.0)), mk("ad", dict.fromkeys(KEYS, 0.0)),
]


# ---------------------------------------------------------------- the documented insertion

# Elements: ("cmd", command) or ("noise", kind, prob, nodes, domain or None)


def expected_inputs(d, nodes):
    if d[0] == "compose":
        return [x for m in d[1] for x in expected_inputs(m, nodes)]
    if d[0] == "none":
        return []
    return [("noise", d[0], d[1]["prepare_error_prob"], [n], None) for n in nodes]


def expected(d, seq):
    """The sequence after the model: components of a composition transform the sequence in turn."""
    if d[0] == "none":
        return seq
    if d[0] == "compose":
        for m in d[1]:
            seq = expected(m, seq)
        return seq
    out = []
    p = d[1]
    for e in seq:
        if e[0] == "noise":
            out.append(e)
            continue
        c = e[1]
        k = c.kind.name
        if k == "N":
            out += [e, ("noise", d[0], p["prepare_error_prob"], [c.node], None)]
        elif k == "E":
            out += [e, ("noise", d[0], p["entanglement_error_prob"], list(c.nodes), None)]
        elif k == "M":
            out += [("noise", d[0], p["measure_channel_prob"], [c.node], None), e]
        elif k == "X":
            out += [e, ("noise", d[0], p["x_error_prob"], [c.node], set(c.domain))]
        elif k == "Z":
            out += [e, ("noise", d[0], p["z_error_prob"], [c.node], set(c.domain))]
        else:
            out.append(e)
    return out


def flips(d):
    """Parity of the certain flips of a model (probability 0 or 1)."""
    if d[0] == "compose":
        return sum(flips(m) for m in d[1]) % 2
    return int(d[1]["measure_error_prob"]) if d[0] != "none" else 0


def describe(c):
    """Plain description of an element of a transpiled sequence."""
    if isinstance(c, ApplyNoise):
        for k, (_, one, two) in CLS.items():
            if type(c.noise) in (one, two):
                if (type(c.noise) is two) != (len(c.nodes) == 2):
                    return ("noise", "wrong arity", c)
                return ("noise", k, c.noise.prob, list(c.nodes), None if c.domain is None else set(c.domain))
    return ("cmd", c)


def kraus(kind, prob, n):
    if kind == "dep":
        if n == 1:
            return [math.sqrt(1 - prob) * ref.I2] + [math.sqrt(prob / 3) * ref.PAULI[a] for a in "XYZ"]
        return [math.sqrt(1 - prob) * np.eye(4)] + [math.sqrt(prob / 15) * np.kron(ref.PAULI[a], ref.PAULI[b]) for a, b in itertools.product("IXYZ", repeat=2) if a + b != "II"]
    k = [np.diag([1, math.sqrt(1 - prob)]), np.array([[0, math.sqrt(prob)], [0, 0]])]
    return k if n == 1 else [np.kron(a, b) for a, b in itertools.product(k, repeat=2)]


# ---------------------------------------------------------------- exact noisy evolution of one branch


def evolve(elements, inputs, rho, bits, flip):
    """(final Rho, labels, recorded results, list of (node, probability of 0)) or None if the branch is impossible.

    ``bits``: true outcomes; ``flip``: node -> 0/1, whether the recorded result is wrong.
    """
    r, labs, rec, offers = dense.Rho(rho), list(inputs), {}, []

    def par(dom):
        return sum(rec[x] for x in dom) % 2

    for e in elements:
        if e[0] == "noise":
            _, kind, prob, nodes, dom = e
            if dom is None or par(dom):
                r = r.kraus(kraus(kind, prob, len(nodes)), [labs.index(x) for x in nodes])
            continue
        c = e[1]
        k = c.kind.name
        if k == "N":
            v = ref.planar_ket(c.state)
            r = r.tensor(np.outer(v, v.conj()))
            labs.append(c.node)
        elif k == "E":
            r = r.unitary(ref.CZ, [labs.index(x) for x in c.nodes])
        elif k in ("X", "Z"):
            if par(c.domain):
                r = r.unitary(ref.PAULI[k], [labs.index(c.node)])
        elif k == "C":
            r = r.unitary(np.asarray(c.clifford.matrix), [labs.index(c.node)])
        elif k == "M":
            obs = ref.observable(ref.bloch(c.measurement))
            if par(c.s_domain):
                obs = ref.X @ obs @ ref.X
            if par(c.t_domain):
                obs = ref.Z @ obs @ ref.Z
            q = labs.index(c.node)
            offers.append((c.node, r.project((ref.I2 + obs) / 2, q)[1]))
            r, _ = r.project((ref.I2 + (-1) ** bits[c.node] * obs) / 2, q)
            if r is None:
                return None
            labs.remove(c.node)
            rec[c.node] = bits[c.node] ^ flip[c.node]
    return r, labs, rec, offers


class Force(BranchSelector):
    def __init__(self, bits):
        self.bits, self.seen = bits, []

    def measure(self, qubit, f_expectation0, rng=None, *, stacklevel=1):
        self.seen.append((qubit, f_expectation0()))
        return self.bits[qubit]


def simulate(p, model, rho, bits, rng, backend="densitymatrix"):
    sel, mm = Force(bits), DefaultMeasureMethod()
    out = p.simulate(backend, input_state=rho, noise_model=model, branch_selector=sel, measure_method=mm, rng=rng)
    return np.asarray(out.rho), mm.results, sel.seen


def compare(R, p, got, want, bits, key):
    rho, res, seen = got
    r, labs, rec, offers = want
    r = r.permute([labs.index(x) for x in p.output_nodes])
    if res != rec:
        R.bad(f"{key}:results", f"recorded {res}, expected {rec} for true outcomes {bits}")
    if len(seen) != len(offers) or any(a[0] != b[0] or abs(a[1] - b[1]) > TOL for a, b in zip(seen, offers, strict=True)):
        R.bad(f"{key}:prob", f"offered {seen}, exact {offers}")
    if rho.shape != r.rho.shape or np.max(np.abs(rho - r.rho)) > TOL:
        R.bad(f"{key}:state", f"noisy state differs from the exact evolution for true outcomes {bits}, recorded {rec}")


def mixed(n):
    v = dense.vec(n, 2)
    return 0.7 * np.outer(v, v.conj()) + 0.3 * np.diag(np.arange(1, 2**n + 1)) / (2**n * (2**n + 1) / 2)


def check(R, inputs, cmds, models, sim=None):
    """Compare the inserted noise for all models and the simulation for the models of index in ``sim`` (all if None)."""
    p = pat.build(inputs, cmds)
    tag = pat.show(inputs, cmds)
    nodes = [c.node for c in p if c.kind.name == "M"]
    rho = mixed(len(inputs))
    rng = np.random.default_rng(1)
    for mi, d in models:
        R.state()
        R.at(f"{tag} model {mi}")
        key = f"{mi}:{tag}"
        model = build(d)
        before = pat.snapshot(p)
        seq = model.transpile(p, rng=rng)
        inp = model.input_nodes(p.input_nodes, rng=rng)
        want_seq, want_inp = expected(d, [("cmd", c) for c in p]), expected_inputs(d, list(p.input_nodes))
        if [describe(c) for c in inp] != want_inp:
            R.bad(f"{key}:inputs", f"noise on inputs is {inp}, expected {want_inp}")
        once = model.input_nodes(iter(p.input_nodes), rng=rng)
        if [describe(c) for c in once] != want_inp:
            R.bad(f"{key}:iterator", f"noise on inputs given as an iterator is {once}, expected {want_inp}")
        noisy = model.transpile(iter(list(p)), rng=rng)
        if [describe(c) for c in noisy] != want_seq:
            R.bad(f"{key}:seqiter", f"sequence transpiled from an iterator is {noisy}, expected {want_seq}")
        if [describe(c) for c in seq] != want_seq:
            R.bad(f"{key}:seq", f"transpiled sequence is {seq}, expected {want_seq}")
        if pat.snapshot(p) != before:
            R.bad(f"{key}:mutated", "noise insertion changed the pattern")
        if sim is not None and mi not in sim:
            continue
        f = flips(d)
        for bits in itertools.product((0, 1), repeat=len(nodes)):
            b = dict(zip(nodes, bits, strict=True))
            want = evolve(want_inp + want_seq, inputs, rho, b, dict.fromkeys(nodes, f))
            if want is None:
                continue
            R.trans()
            compare(R, p, simulate(p, model, rho, b, rng), want, b, f"{key}:{bits}")
    R.outcome((len(nodes), len(p.output_nodes)))


# ---------------------------------------------------------------- focused spaces

CONF = [
    ([0], [["N", 1], ["E", 0, 1], ["M", 0, "XZ:0.33", [], []], ["X", 1, [0]], ["Z", 1, [0]]]),
    ([0], [["N", 1], ["N", 2], ["E", 0, 1], ["E", 1, 2], ["M", 0, "XZ:0.33", [], []], ["M", 1, "YZ:0.21", [0], []], ["X", 2, [1]], ["Z", 2, [0]]]),
    ([0, 4], [["N", 1], ["E", 0, 1], ["E", 4, 1], ["M", 0, "XY:0.33", [], []], ["M", 4, "XY:0.71", [], [0]], ["X", 1, [4, 0]]]),
]


def confusion_space(R, seeds):
    """Every confusion outcome of every branch: generators of successive seeds are used until all patterns of flips have occurred."""
    for (inputs, cmds), kind in itertools.product(CONF, ("dep", "ad", "compose")):
        p = pat.build(inputs, cmds)
        nodes = [c.node for c in p if c.kind.name == "M"]
        rho = mixed(len(inputs))
        q = 0.3
        d = mk(kind, PA, q) if kind != "compose" else ("compose", [mk("dep", PA, q), mk("ad", PB)])
        model = build(d)
        el = expected_inputs(d, inputs) + expected(d, [("cmd", c) for c in p])
        counts = dict.fromkeys(itertools.product((0, 1), repeat=len(nodes)), 0)
        for bits in itertools.product((0, 1), repeat=len(nodes)):
            b = dict(zip(nodes, bits, strict=True))
            for seed in range(seeds):
                R.trans()
                key = f"confusion:{kind}:{pat.show(inputs, cmds)}:{bits}:{seed}"
                got = simulate(p, model, rho, b, np.random.default_rng(seed * 1000 + sum(x << i for i, x in enumerate(bits))))
                if set(got[1]) != set(nodes):
                    R.bad(key, f"recorded {got[1]}")
                    continue
                fl = {n: int(got[1][n]) ^ b[n] for n in nodes}
                counts[tuple(fl[n] for n in nodes)] += 1
                compare(R, p, got, evolve(el, inputs, rho, b, fl), b, key)
                if seed % 10 == 0:
                    again = simulate(p, model, rho, b, np.random.default_rng(seed * 1000 + sum(x << i for i, x in enumerate(bits))))
                    if again[1] != got[1]:
                        R.bad(f"{key}:seed", f"the same seed records {got[1]} then {again[1]}")
        total = sum(counts.values())
        for fl, n in counts.items():
            R.state()
            pr = math.prod(q if x else 1 - q for x in fl)
            if n == 0 or abs(n - total * pr) > 5.5 * math.sqrt(total * pr * (1 - pr)):
                R.bad(f"confusion:{kind}:{pat.show(inputs, cmds)}:{fl}", f"flips {fl} occurred {n} times out of {total}, expected probability {pr}")
        R.count("confusion_patterns", len(counts))
    # the flip probability alone, over its range
    cmdm = command.M(0)
    for kind, q in itertools.product(("dep", "ad"), (0.0, 0.1, 0.5, 0.9, 1.0)):
        model = build(mk(kind, PA, q))
        rng = np.random.default_rng(11)
        for o in (0, 1):
            n = sum(int(model.confuse_result(cmdm, o, rng=rng)) ^ o for _ in range(600))
            R.state()
            if abs(n - 600 * q) > 5.5 * math.sqrt(600 * q * (1 - q)) + 1e-9:
                R.bad(f"flip:{kind}:{q}:{o}", f"outcome {o} was flipped {n} times out of 600 with probability {q}")
    R.trace()


ONOFF = ([7], [["N", 1], ["N", 2, "ONE"], ["E", 7, 1], ["E", 1, 2], ["M", 7, "XY:0.33", [], []], ["X", 1, [7]], ["C", 2, 13], ["Z", 2, [7]], ["M", 1, "YZ:0.2", [7], []], ["Z", 2, [1]]])


def onoff_space(R):
    """Each error source alone and in all combinations."""
    ms = []
    for kind in CLS:
        for on in itertools.product((0, 1), repeat=6):
            ms.append((f"{kind}{on}", (kind, {k: (1.0 if k == "measure_error_prob" else PA[k]) * o for k, o in zip(KEYS, on, strict=True)})))
    check(R, *ONOFF, ms)
    # default parameters are all zero
    p = pat.build(*ONOFF)
    for kind, (cls, _, _) in CLS.items():
        if [describe(c) for c in cls().transpile(p)] != expected((kind, dict.fromkeys(KEYS, 0.0)), [("cmd", c) for c in p]):
            R.bad(f"default:{kind}", f"default parameters of the {kind} model are not zero")
        for bad in (-0.1, 1.2):
            for k in KEYS[:5]:
                R.state()
                try:
                    m = cls(**{k: bad})
                    p.simulate("densitymatrix", noise_model=m, rng=np.random.default_rng(0))
                    R.bad(f"prob:{kind}:{k}:{bad}", f"probability {bad} is accepted")
                except ValueError:
                    pass
    R.trace()


class Custom(NoiseModel):
    """Applies a noise with a given domain after the last measurement, and records the generators it is given."""

    def __init__(self, domain, after, nodes, noise):
        self.domain, self.after, self.nodes, self.noise, self.rngs = domain, after, nodes, noise, []

    def input_nodes(self, nodes, rng=None, *, stacklevel=1):
        self.rngs.append(("input", rng))
        return []

    def command(self, cmd, rng=None, *, stacklevel=1):
        self.rngs.append(("command", rng))
        if cmd.kind.name == "M" and cmd.node == self.after:
            return [cmd, ApplyNoise(noise=self.noise, nodes=self.nodes, domain=self.domain)]
        return [cmd]

    def confuse_result(self, cmd, result, rng=None, *, stacklevel=1):
        self.rngs.append(("confuse", rng))
        return result


def custom_space(R):
    inputs, cmds = CONF[1][0], CONF[1][1]
    cmds = [*cmds[:4], ["N", 3], ["E", 3, 2], *cmds[4:]]
    p = pat.build(inputs, cmds)
    nodes = [0, 1]
    rho = mixed(1)
    for dom in (None, set(), {0}, {1}, {0, 1}):
        for tn, noise, kind, prob in (([2], AmplitudeDampingNoise(0.4), "ad", 0.4), ([3, 2], TwoQubitAmplitudeDampingNoise(0.4), "ad", 0.4), ([2, 3], TwoQubitDepolarisingNoise(0.4), "dep", 0.4), ([3], DepolarisingNoise(0.4), "dep", 0.4)):
            for wrap in (False, True):
                for bits in itertools.product((0, 1), repeat=2):
                    R.state()
                    R.trans()
                    c = Custom(dom, 1, tn, noise)
                    b = dict(zip(nodes, bits, strict=True))
                    el = []
                    for x in p:
                        el.append(("cmd", x))
                        if x.kind.name == "M" and x.node == 1:
                            el.append(("noise", kind, prob, tn, dom))
                    rng = np.random.default_rng(5)
                    model = ComposeNoiseModel([c]) if wrap else c
                    key = f"custom:{dom}:{tn}:{kind}:{wrap}:{bits}"
                    compare(R, p, simulate(p, model, rho, b, rng), evolve(el, inputs, rho, b, {0: 0, 1: 0}), b, key)
                    kinds = [k for k, _ in c.rngs]
                    if kinds.count("input") != 1 or kinds.count("command") != len(list(p)) or kinds.count("confuse") != 2:
                        R.bad(f"{key}:calls", f"the model was called {kinds}")
                    lost = sorted({k for k, r in c.rngs if r is not rng})
                    if lost:
                        R.bad(f"custom:rng:{wrap}:{lost}", f"the generator given to simulate does not reach {lost} of the noise model (composed: {wrap})")
    # inputs prepared beforehand get no preparation noise
    d = mk("ad", PB)
    w = mixed(1)
    for bits in itertools.product((0, 1), repeat=2):
        b = dict(zip(nodes, bits, strict=True))
        sel = Force(b)
        be = DensityMatrixBackend(branch_selector=sel)
        be.add_nodes(inputs, w)
        mm = DefaultMeasureMethod()
        out = p.simulate(be, input_state=None, noise_model=build(d), measure_method=mm, rng=np.random.default_rng(0))
        compare(R, p, (np.asarray(out.rho), mm.results, sel.seen), evolve(expected(d, [("cmd", c) for c in p]), inputs, w, b, {0: 0, 1: 0}), b, f"prepared:{bits}")
    # ticks and noise commands pass, signals are refused
    for d in MODELS:
        m = build(d)
        for c in (command.T(), ApplyNoise(noise=DepolarisingNoise(0.3), nodes=[0]), command.C(0, pat.cmd(["C", 0, 13]).clifford)):
            R.state()
            if m.command(c, rng=np.random.default_rng(0)) != [c]:
                R.bad(f"pass:{d}:{c}", f"{c} becomes {m.command(c)}")
    for k in CLS:
        try:
            build(mk(k, PA)).command(command.S(0, {1}))
            R.bad(f"signal:{k}", "a signal command is accepted by a noise model")
        except ValueError:
            pass
    R.trace()


PARTS = 20


def tasks(tier):
    yield ["confusion", 60 if tier == "quick" else 400]
    yield ["onoff"]
    yield ["custom"]
    for name in SHAPES:
        for k in range(PARTS if tier == "quick" else PARTS * 20):
            yield ["seq", name, k, PARTS if tier == "quick" else PARTS * 20, 2 if tier == "quick" else 3]


def seqs(name, length):
    inputs, prefix, _, kinds, codes, nodes = SHAPES[name]
    for n in range(1, length + 1):
        yield from pat.sequences(inputs, prefix, n, nodes, kinds, codes, cliffs=(13,), maxdom=1)


def work(task, R):
    if task[0] == "confusion":
        confusion_space(R, task[1])
    elif task[0] == "onoff":
        onoff_space(R)
    elif task[0] == "custom":
        custom_space(R)
    else:
        _, name, k, parts, length = task
        for i, cmds in enumerate(seqs(name, length)):
            if i % parts == k:
                one = len(cmds) <= len(SHAPES[name][1]) + 1
                check(R, SHAPES[name][0], cmds, list(enumerate(MODELS)), None if one else {i // parts % 12, (i // parts + 5) % 12})
                if i < parts:
                    R.show(pat.show(SHAPES[name][0], cmds))
        R.trace()

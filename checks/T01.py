"""T01: substituting parameters gives the object built with the values."""

import itertools
import math
import warnings
from fractions import Fraction

import numpy as np
from graphix import Circuit, Clifford, OpenGraph, Pattern, Plane, command
from graphix.branch_selector import FixedBranchSelector
from graphix.flow.core import XZCorrections
from graphix.measurements import BlochMeasurement
from graphix.optimization import StandardizedPattern
from graphix.parameter import Expression, Placeholder, PlaceholderOperationError
from graphix.sim.density_matrix import DensityMatrix
from graphix.transpiler import transpile_swaps

from checks.F01 import mkgraph
from checks.F02 import projection
from mc import circ, pat, ref
from mc.symb import Var

warnings.simplefilter("ignore")

META = {
    "bounds": {
        "quick": "expressions: every affine expression tree of depth <=2 over 2 parameters and 5 constants (binary nodes over every pair of depth-1 trees, both operand orders), 12 assignments each (numbers, other parameters, shifted and swapped parameters); "
        "sites: every circuit word of <=2 gates (2 qubits, all 5 rotation gates and 4 others), every sequence of 2 measurements among 4 commands, every open graph of <=3 nodes x 3 planes or a Pauli label, their flows and corrections, each with 6 angle expressions and 8 assignments, in place, copied, sequential and parallel; "
        "commutation: every word of <=2 parametric gates on 2 qubits x 5 assignments (generic, Pauli, zero, renaming) through 17 chains of transformations; "
        "symbolic density-matrix simulation: every word of <=2 gates on <=2 qubits, every branch; substitution in every 2x2 matrix over 5 entries",
        "thorough": "expression trees of depth 3 (binary nodes of a depth-2 and a depth-0 tree); words of 3 gates; open graphs on 4 nodes; matrices over 8 entries",
    },
    "assumptions": ["constants are dyadic so that arithmetic on expressions is exact", "the library's only expressions are affine; trigonometric expressions are those of mc/symb.py, written against the library's interface"],
}
X, Y = Placeholder("x"), Placeholder("y")
NAMES = {"x": X, "y": Y}
CONST = [0, 1, -2, 0.5, 3]

# Reference: an affine form is (coefficient of x, coefficient of y, constant)


def form(e):
    if e == "x":
        return (1.0, 0.0, 0.0)
    if e == "y":
        return (0.0, 1.0, 0.0)
    return (0.0, 0.0, float(e))


def isnum(f):
    return f[0] == 0 and f[1] == 0


class Refused(Exception):
    """The operation is outside affine forms of one parameter."""


def apply_form(op, a, b=None):
    if op == "neg":
        return tuple(-t for t in a)
    if op in "+-":
        s = 1 if op == "+" else -1
        if not isnum(a) and not isnum(b) and ((a[0] != 0) != (b[0] != 0)):
            raise Refused("two parameters")
        return tuple(p + s * q for p, q in zip(a, b, strict=True))
    if op == "*":
        if not isnum(a) and not isnum(b):
            raise Refused("product")
        k, f = (a[2], b) if isnum(a) else (b[2], a)
        return tuple(k * t for t in f)
    if not isnum(b):
        raise Refused("division by an expression")
    if b[2] == 0:
        raise ZeroDivisionError
    return tuple(t / b[2] for t in a)


def apply_lib(op, a, b=None):
    return {"neg": lambda: -a, "+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b}[op]()


def agrees(v, f):
    """A library value (number or expression) denotes the affine form."""
    if isnum(f):
        return not isinstance(v, Expression) and math.isclose(float(v), f[2], abs_tol=1e-12)
    if not isinstance(v, Expression):
        return False
    for x in (0, 1, -0.75):
        for y in (0, 1, 2.5):
            w = v.with_parameters({X: x, Y: y})
            if isinstance(w, Expression) or not math.isclose(w, f[0] * x + f[1] * y + f[2], abs_tol=1e-9):
                return False
    return True


# Assignments: a list of (kind, {parameter: expression description}); a description is a number or (coefficient, parameter, constant)
ASSIGN = [
    {"x": 0.37}, {"x": 0}, {"y": -1.5}, {"x": 0.25, "y": 0}, {"x": np.float64(0.3), "y": 7}, {"x": Fraction(1, 4), "y": 1},
    {"x": (1, "y", 0)}, {"x": (1, "y", 0), "y": (1, "x", 0)}, {"x": (2, "x", 1)}, {"x": (1, "y", 1), "y": 0.5}, {"x": (-1, "y", 0.5), "y": (0.5, "x", 0)}, {},
]


def value(d):
    if isinstance(d, tuple):
        k, p, c = d
        e = NAMES[p]
        if k != 1:
            e = k * e
        return e + c if c else e
    return d


def lib_assignment(a):
    return {NAMES[k]: value(v) for k, v in a.items()}


def subst(f, a):
    """Reference substitution in an affine form, simultaneous."""
    out = [0.0, 0.0, f[2]]
    for i, n in enumerate("xy"):
        if f[i] == 0:
            continue
        d = a.get(n, (1, n, 0))
        if isinstance(d, tuple):
            out["xy".index(d[1])] += f[i] * d[0]
            out[2] += f[i] * d[2]
        else:
            out[2] += f[i] * float(d)
    return tuple(out)


def level(trees):
    """Trees one operation deeper, kept as (description, value, form); refused operations are checked on the way."""
    yield from ((("neg", t[0]), "neg", t, None) for t in trees)
    for a in trees:
        for b in trees:
            for op in "+-*/":
                yield (op, a[0], b[0]), op, a, b


def grow(R, todo):
    out = []
    for desc, op, a, b in todo:
        R.state()
        args = (a[1],) if b is None else (a[1], b[1])
        forms = (a[2],) if b is None else (a[2], b[2])
        if not any(isinstance(t, Expression) for t in args):
            continue
        R.trans()
        R.at(str(desc))
        try:
            f = apply_form(op, *forms)
        except (Refused, ZeroDivisionError):
            f = None
        try:
            v = apply_lib(op, *args)
        except (PlaceholderOperationError, TypeError, ZeroDivisionError) as ex:
            if f is not None:
                R.bad(["expression", str(desc)], f"{desc} raises {ex!r}")
            continue
        if f is None:
            R.bad(["expression", str(desc)], f"{desc} is not an affine expression in one parameter but gives {v}")
        elif not agrees(v, f):
            R.bad(["expression", str(desc)], f"{desc} gives {v}, not {f[0]}*x + {f[1]}*y + {f[2]}")
        else:
            out.append((desc, v, f))
    return out


def leaves():
    return [("x", X, form("x")), ("y", Y, form("y"))] + [(c, c, form(c)) for c in CONST]


def substitutions(R, t):
    desc, v, f = t
    if not isinstance(v, Expression):
        return
    for a in ASSIGN:
        R.trans()
        want = subst(f, a)
        amb = want[0] != 0 and want[1] != 0
        key = ["substitution", str(desc), str(a)]
        got = v.with_parameters(lib_assignment(a))
        if amb or not agrees(got, want):
            R.bad(key, f"{desc} with {a} gives {got}, not {want[0]}*x + {want[1]}*y + {want[2]}")
        if v.xreplace(lib_assignment(a)) != got:
            R.bad(key, f"{desc} with {a}: xreplace and with_parameters differ")
        if len(a) == 1:
            ((p, q),) = lib_assignment(a).items()
            if v.with_parameter(p, q) != got or v.subs(p, q) != got:
                R.bad(key, f"{desc} with {a}: with_parameter and with_parameters differ")


def expressions(R, part, deep):
    l0 = leaves()
    l1 = grow(R, level(l0))
    if part == "base":
        for t in l0 + l1:
            substitutions(R, t)
        for a, b in itertools.product(l0 + l1, repeat=2):
            if isinstance(a[1], Expression) or isinstance(b[1], Expression):
                R.state()
                if (a[1] == b[1]) != (a[2] == b[2]) or (a[1] != b[1]) == (a[2] == b[2]):
                    R.bad(["equal", str(a[0]), str(b[0])], f"{a[0]} == {b[0]} is {a[1] == b[1]}")
        for k in (np.float64(2), np.int64(3), Fraction(1, 2), True):
            for op in "+-*/":
                for side in (0, 1):
                    R.trans()
                    args = (X, k) if side == 0 else (k, X)
                    if op == "/" and side == 1:
                        continue
                    fs = [form("x"), form(float(k))]
                    want = apply_form(op, *(fs if side == 0 else fs[::-1]))
                    got = apply_lib(op, *args)
                    if not agrees(got, want):
                        R.bad(["scalar", repr(k), op, side], f"{args} {op} gives {got}")
        other = Placeholder("x")
        R.trans(3)
        if other == X or X.with_parameter(other, 1) is not X or len({X: 1, other: 2}) != 2 or str(2 * X + 1) == str(2 * Y + 1) or X.name != "x":
            R.bad(["identity"], "placeholders of the same name are identified")
        return
    trees = l0 + l1
    todo = [x for i, x in enumerate(level(trees)) if i % 16 == part]
    l2 = grow(R, todo)
    for t in l2:
        substitutions(R, t)
    if deep:
        ext = []
        for a in l2:
            ext.append((("neg", a[0]), "neg", a, None))
            for b in l0:
                for op in "+-*/":
                    ext += [((op, a[0], b[0]), op, a, b), ((op, b[0], a[0]), op, b, a)]
        grow(R, ext)
    R.trace()


# Sites of angles

ANGLES = ["x", "y", (2, "x", -0.5), (-1, "y", 0), (1, "x", 0.25), 0.37]
SITES = [
    {"x": 0.37}, {"x": 0}, {"y": 0.5}, {"x": 0.25, "y": 0.7}, {"x": 0.5, "y": 1},
    {"x": (1, "y", 0), "y": (1, "x", 0)}, {"x": (1, "x", 0.5)}, {"x": (1, "y", 0), "y": 0.3},
]


def angle(d):
    return NAMES[d] if isinstance(d, str) else value(d)


def aform(d):
    if isinstance(d, str):
        return form(d)
    if isinstance(d, tuple):
        return tuple(d[0] if n == d[1] else 0.0 for n in "xy") + (float(d[2]),)
    return form(d)


def same_angle(v, f):
    if isnum(f):
        return not isinstance(v, Expression) and math.isclose(float(v), f[2], abs_tol=1e-12)
    return isinstance(v, Expression) and agrees(v, f)


def circuits(R, first, length):
    gates = gate_letters()
    for rest in itertools.product(gates, repeat=length - 1):
        w = [gates[first], *rest]
        if not circ.legal(w):
            continue
        slots = [i for i, g in enumerate(w) if g[0] in ROT]
        for angs in itertools.product(ANGLES, repeat=len(slots)):
            word = [list(g) for g in w]
            forms = {}
            for i, d in zip(slots, angs, strict=True):
                word[i].append(angle(d))
                forms[i] = aform(d)
            for a in SITES:
                R.state()
                key = ["circuit", [[str(t) for t in g] for g in word], str(a)]
                R.at(str(key))
                c = circ.build(2, word)
                if c.is_parameterized() != any(not isnum(f) for f in forms.values()):
                    R.bad(key, f"{circ.show(word)}: is_parameterized() is {c.is_parameterized()}")
                    break
                want = {i: subst(f, a) for i, f in forms.items()}
                asg = lib_assignment(a)
                forks = [("with_parameters", c.with_parameters(asg)), ("xreplace", c.xreplace(asg))]
                if not any(isinstance(d, tuple) for d in a.values()):
                    s = c
                    for p, v in asg.items():
                        s = s.with_parameter(p, v)
                    forks.append(("one by one", s))
                inplace = circ.build(2, word)
                if inplace.replace_parameters(asg) is not inplace:
                    R.bad(key, "replace_parameters does not return the circuit")
                forks.append(("in place", inplace))
                for name, r in forks:
                    R.trans()
                    ok = len(r.instruction) == len(w) and r.width == 2
                    for i, (ins, src) in enumerate(zip(r.instruction, circ.build(2, word).instruction, strict=False)):
                        if i in want:
                            ok = ok and ins.kind is src.kind and same_angle(ins.angle, want[i]) and same_targets(ins, src)
                        else:
                            ok = ok and ins == src
                    if not ok:
                        R.bad(key, f"{circ.show(word)} with {a} ({name}) gives {r}")
                    elif r.is_parameterized() != any(not isnum(f) for f in want.values()):
                        R.bad(key, f"{circ.show(word)} with {a} ({name}): is_parameterized() is {r.is_parameterized()}")
    R.trace()


ROT = ("RX", "RY", "RZ", "J", "RZZ")


def gate_letters():
    return [["RX", 0], ["RY", 1], ["RZ", 0], ["J", 1], ["RZZ", 0, 1], ["CNOT", 1, 0], ["H", 0], ["SWAP", 0, 1], ["M", 1, "Y"]]


def same_targets(a, b):
    return all(getattr(a, n, None) == getattr(b, n, None) for n in ("target", "control", "targets", "controls", "axis"))


def patterns(R, k):
    """Sequences with two measurements whose angles are expressions, among other commands."""
    planes = list(Plane)
    for p0, p1 in itertools.product(planes, repeat=2):
        for a0, a1 in itertools.product([*ANGLES, "pauli"], repeat=2):
            if ANGLES.index(a0) % 4 != k if a0 != "pauli" else k != 0:
                continue
            ms = [pat.meas("Y-") if d == "pauli" else BlochMeasurement(angle(d), p) for d, p in ((a0, p0), (a1, p1))]
            cmds = [command.N(1), command.N(2), command.E((0, 1)), command.C(1, Clifford(6)), command.M(0, ms[0]), command.Z(1, {0}), command.E((1, 2)), command.M(1, ms[1], {0}, set()), command.X(2, {0, 1}), command.C(2, Clifford(9)), command.E((2, 3))]
            forms = {4: None if a0 == "pauli" else aform(a0), 7: None if a1 == "pauli" else aform(a1)}
            p = Pattern(input_nodes=[3, 0], cmds=cmds, output_nodes=[2, 3])
            if p.is_parameterized() != any(f is not None and not isnum(f) for f in forms.values()):
                R.bad(["pattern", str(a0), str(a1)], f"{p}: is_parameterized() is {p.is_parameterized()}")
                continue
            for a in SITES:
                R.state()
                key = ["pattern", p0.name, p1.name, str(a0), str(a1), str(a)]
                R.at(str(key))
                asg = lib_assignment(a)
                want = {i: f if f is None else subst(f, a) for i, f in forms.items()}
                forks = [("with_parameters", p.with_parameters(asg)), ("copy", p.replace_parameters(asg, copy=True))]
                if len(asg) == 1:
                    ((v, s),) = asg.items()
                    forks += [("with_parameter", p.with_parameter(v, s)), ("subs", p.subs(v, s))]
                q = p.copy()
                if q.replace_parameters(asg) is not q:
                    R.bad(key, "replace_parameters does not return the pattern")
                forks.append(("in place", q))
                for name, r in forks:
                    R.trans()
                    got = list(r)
                    ok = list(r.input_nodes) == [3, 0] and list(r.output_nodes) == [2, 3] and len(got) == len(cmds)
                    for i, (g, c) in enumerate(zip(got, cmds, strict=False)):
                        if want.get(i) is not None:
                            ok = ok and g.kind is c.kind and g.node == c.node and g.s_domain == c.s_domain and g.t_domain == c.t_domain
                            ok = ok and isinstance(g.measurement, BlochMeasurement) and g.measurement.plane is c.measurement.plane and same_angle(g.measurement.angle, want[i])
                        else:
                            ok = ok and g == c
                    if not ok:
                        R.bad(key, f"{p} with {a} ({name}) gives {r}")
                    elif r.is_parameterized() != any(f is not None and not isnum(f) for f in want.values()):
                        R.bad(key, f"{p} with {a} ({name}): is_parameterized() is {r.is_parameterized()}")
    R.trace()


def graphs(R, n, part):
    shapes = {2: [([(0, 1)], [0], [1])], 3: [([(0, 1), (1, 2)], [0], [2]), ([(0, 1), (0, 2), (1, 2)], [], [2]), ([(0, 2), (1, 2)], [0], [2])], 4: [([(0, 1), (1, 2), (2, 3)], [0], [3]), ([(0, 2), (1, 3), (0, 1)], [0, 1], [3, 2])]}[n]
    for edges, i, o in shapes:
        nodes = [v for v in range(n) if v not in o]
        labels = ["Y-", *Plane]
        for idx, labs in enumerate(itertools.product(labels, repeat=len(nodes))):
            if idx % 8 != part:
                continue
            for angs in itertools.product(ANGLES, repeat=len(nodes)):
                if any(b == "Y-" and d != "x" for b, d in zip(labs, angs, strict=True)):
                    continue
                ms = {v: pat.meas(b) if b == "Y-" else BlochMeasurement(angle(d), b) for v, b, d in zip(nodes, labs, angs, strict=True)}
                x = OpenGraph(mkgraph(n, edges), i, o, ms, {o[0]: Clifford(7)} if n < 4 else {})
                objs = [("open graph", x, lambda y: y)]
                fl = x.to_pauliflow_or_none()
                if fl is not None:
                    objs.append(("Pauli flow", fl, lambda y: y.og))
                    objs.append(("corrections", fl.to_xzcorrections(), lambda y: y.og))
                for a in SITES:
                    asg = lib_assignment(a)
                    key = ["graph", n, edges, [str(b) for b in labs], [str(d) for d in angs], str(a)]
                    R.at(str(key))
                    R.state()
                    for name, obj, og in objs:
                        R.trans()
                        forks = [obj.with_parameters(asg), obj.xreplace(asg)]
                        if len(asg) == 1:
                            ((v, s),) = asg.items()
                            forks += [obj.with_parameter(v, s), obj.subs(v, s)]
                        for r in forks:
                            y = og(r)
                            ok = type(r) is type(obj) and list(y.input_nodes) == i and list(y.output_nodes) == o and sorted(map(sorted, y.graph.edges)) == sorted(map(sorted, edges)) and set(y.graph.nodes) == set(range(n))
                            ok = ok and dict(y.output_cliffords) == dict(x.output_cliffords) and set(y.measurements) == set(nodes)
                            for v, b, d in zip(nodes, labs, angs, strict=True):
                                m = y.measurements.get(v)
                                ok = ok and (m == ms[v] if b == "Y-" else isinstance(m, BlochMeasurement) and m.plane is b and same_angle(m.angle, subst(aform(d), a)))
                            if ok and name == "Pauli flow":
                                ok = r.correction_function == obj.correction_function and tuple(map(set, r.partial_order_layers)) == tuple(map(set, obj.partial_order_layers))
                            if ok and isinstance(r, XZCorrections):
                                ok = r.x_corrections == obj.x_corrections and r.z_corrections == obj.z_corrections and tuple(map(set, r.partial_order_layers)) == tuple(map(set, obj.partial_order_layers))
                            if not ok:
                                R.bad(key, f"{name} of {key} with {a} gives {r}")
                    # the open graph itself is unchanged
                    if any(x.measurements[v] is not ms[v] for v in nodes):
                        R.bad(key, f"{key}: the open graph is modified")
    R.trace()


# Commutation with transformations

COMM = [{"x": 0.37, "y": 0.81}, {"x": 0.5, "y": -0.5}, {"x": 0, "y": 1}, {"x": (1, "y", 0), "y": 0.3}, {"x": 0, "y": 0.37}]
COMM_LETTERS = [["RX", 0], ["RY", 1], ["RZ", 0], ["J", 1], ["RZZ", 0, 1], ["CNOT", 1, 0], ["H", 0], ["S", 1], ["SWAP", 0, 1], ["CZ", 0, 1]]


def pipe_pattern(*steps):
    def f(c):
        p = c.transpile().pattern
        for s in steps:
            r = s(p)
            p = r if isinstance(r, Pattern) else p
        return p

    return f


def steps():
    infer = lambda p: p.infer_pauli_measurements()
    rem = lambda p: p.remove_pauli_measurements()
    std = lambda p: p.standardize()
    shift = lambda p: p.shift_signals()
    mini = lambda p: p.minimize_space()
    bloch = lambda p: p.to_bloch()
    return {
        "transpile": pipe_pattern(),
        "standardize": pipe_pattern(std),
        "shift": pipe_pattern(std, shift),
        "infer": pipe_pattern(infer),
        "infer remove": pipe_pattern(std, shift, infer, rem),
        "minimize": pipe_pattern(std, mini),
        "all": pipe_pattern(std, shift, infer, rem, mini),
        "standardized": pipe_pattern(lambda p: StandardizedPattern.from_pattern(p).to_pattern()),
        "bloch": pipe_pattern(bloch, std),
        "open graph": pipe_pattern(lambda p: p.to_opengraph().to_pattern()),
        "corrections": pipe_pattern(std, lambda p: p.to_xzcorrections().to_pattern()),
        "circuit": lambda c: c.transpile().pattern.to_opengraph().infer_pauli_measurements().to_circuit(),
        "swaps": lambda c: transpile_swaps(c).circuit,
        "rzh": lambda c: c.transpile_j_to_rzh(),
        "causal flow": lambda c: c.transpile_to_causalflow().flow.to_xzcorrections().to_pattern(),
        "local cliffords": pipe_pattern(std, lambda p: p.remove_local_clifford_commands(copy=True)),
        "push": pipe_pattern(std, lambda p: p.perform_pauli_pushing()),
    }


def finish(result, asg):
    return result.with_parameters(asg)


def substitute_graph(g, asg):
    return g.with_parameters(asg)


def matrix_of(r):
    """The set of Kraus operators, as a ray: every branch must be proportional to the first."""
    if isinstance(r, Circuit):
        return ref.run_circuit(r.width, r.instruction).kraus(range(r.width))
    st = ref.run_pattern(r, max_ones=None if sum(1 for c in r if c.kind.name == "M") <= 8 else 1)
    return st.kraus(r.output_nodes)


def proportional_to(rows, want):
    ok = False
    for row in rows:
        n = np.linalg.norm(row)
        if n < 1e-9:
            continue
        ok = True
        if abs(abs(np.vdot(row, want)) - n * np.linalg.norm(want)) > 1e-7 * np.linalg.norm(want):
            return False
    return ok


def commutation(R, first, length, second=None):
    for rest in itertools.product(COMM_LETTERS, repeat=length - 1):
        if second is not None and rest[0] != COMM_LETTERS[second]:
            continue
        w = [COMM_LETTERS[first], *rest]
        slots = [i for i, g in enumerate(w) if g[0] in ROT]
        if not slots:
            continue
        spots = {1: ["x"], 2: ["x", "y"], 3: ["x", "y", "x"]}[len(slots)]
        for mode in ("plain", "affine"):
            word = [list(g) for g in w]
            for i, d in zip(slots, spots, strict=True):
                word[i].append(NAMES[d] if mode == "plain" else -2 * NAMES[d] + 0.5)
            c = circ.build(2, word)
            swapped = any(g[0] == "SWAP" for g in w)
            for name, f in steps().items():
                if name == "circuit" and swapped:
                    continue
                R.at(f"{circ.show(word)} {name}")
                before = f(c)
                for a in COMM:
                    asg = lib_assignment(a)
                    R.state()
                    R.trans()
                    key = ["commutation", [[str(t) for t in g] for g in word], name, str(a)]
                    got = before.with_parameters(asg)
                    direct = c.with_parameters(asg)
                    other = f(direct)
                    # a renaming leaves y to be given a number
                    rest_asg = {X: 0.22, Y: 0.61}
                    got, direct, other = (o.with_parameters(rest_asg) for o in (got, direct, other))
                    if got.is_parameterized() or other.is_parameterized() or direct.is_parameterized():
                        R.bad(key, f"{circ.show(word)} {name} with {a} is still parameterized")
                        continue
                    want = ref.run_circuit(2, (transpile_swaps(direct).circuit if name == "swaps" else direct).instruction).kraus(range(2))[0]
                    if isinstance(got, Circuit) or not same_commands(got, other):
                        if not proportional_to(matrix_of(got), want):
                            R.bad(key, f"{circ.show(word)}: {name} then {a} does not act as {a} then simulation")
                    if not proportional_to(matrix_of(other), want):
                        R.bad(key, f"{circ.show(word)}: {a} then {name} does not act as the circuit")
    R.trace()


def same_commands(p, q):
    return list(p) == list(q) and list(p.input_nodes) == list(q.input_nodes) and list(p.output_nodes) == list(q.output_nodes)


# Symbolic simulation


def simulate(R, n, first, length):
    u, v = Var("u"), Var("v")
    letters = [["RX", 0], ["RZ", 0], ["RY", 0], ["J", 0]] if n == 1 else [["RX", 0], ["RZ", 1], ["J", 1], ["CNOT", 0, 1], ["CZ", 0, 1]]
    for rest in itertools.product(letters, repeat=length - 1):
        w = [letters[first], *rest]
        slots = [i for i, g in enumerate(w) if g[0] in ROT]
        if not slots:
            continue
        word = [list(g) for g in w]
        for i, d in zip(slots, [u, v * 2 + 0.25, u - v], strict=False):
            word[i].append(d)
        p = circ.build(n, word).transpile().pattern
        meas = [c.node for c in p if c.kind.name == "M"]
        full = len(meas) <= 5
        for bits in itertools.product((0, 1), repeat=len(meas)):
            if not full and sum(bits) > 1:
                continue
            R.state()
            key = ["symbolic", n, [g[:2] for g in w], list(bits)]
            R.at(str(key))
            bs = FixedBranchSelector(dict(zip(meas, bits, strict=True)))
            rho = p.simulate("densitymatrix", symbolic=True, branch_selector=bs)
            for a in ({u: 0.37, v: 0.81}, {u: 0.5, v: 0}):
                R.trans()
                got = rho.with_parameters(a).rho
                want = p.with_parameters(a).simulate("densitymatrix", branch_selector=bs).rho
                if got.shape != want.shape or np.max(np.abs(np.asarray(got, dtype=complex) - want)) > 1e-7:
                    R.bad(key, f"{p}, branch {bits}: symbolic simulation then substitution differs from substitution then simulation")
                    break
                one = rho.with_parameter(u, a[u])
                two = one.with_parameter(v, a[v]).rho
                if np.max(np.abs(np.asarray(two, dtype=complex) - want)) > 1e-7:
                    R.bad(key, f"{p}, branch {bits}: substituting one parameter at a time differs")
                    break
    R.trace()


def matrices(R, part, deep):
    """Substitution in density matrices whose entries are numbers or expressions."""
    u = Var("u")
    entries = [0.5, 0.25j, X, 2 * Y + 1, u * 1j]
    if deep:
        entries += [0, -X + 0.5, u + 1]
    forms = {id(e): e for e in entries}
    for m in itertools.product(entries, repeat=4):
        if entries.index(m[0]) != part:
            continue
        if not any(isinstance(e, Expression) for e in m):
            continue
        for a in ({X: 0.3}, {X: 0, Y: 0.5}, {X: 0.3, Y: 0.7, u: 0.2}, {u: 0.2}, {X: Y, Y: X}):
            R.state()
            R.trans()
            key = ["matrix", [str(entries.index(e)) for e in m], [str(p) for p in a]]
            R.at(str(key))
            d = DensityMatrix([[m[0], m[1]], [m[2], m[3]]])
            for name, r in (("with_parameters", d.with_parameters(a)), ("in place", DensityMatrix(d).replace_parameters(a)), ("one by one", None)):
                if name == "one by one":
                    if a.get(X) is Y:
                        continue
                    r = d
                    for p, s in a.items():
                        r = r.with_parameter(p, s)
                for got, src in zip(r.rho.flatten(), m, strict=True):
                    want = src.with_parameters(a) if isinstance(src, Expression) else src
                    if isinstance(want, Expression):
                        full = {X: 0.11, Y: 0.7, u: 1.3}
                        ok = isinstance(got, Expression) and abs(got.with_parameters(full) - want.with_parameters(full)) < 1e-12
                    else:
                        ok = not isinstance(got, Expression) and abs(got - want) < 1e-12
                    if not ok:
                        R.bad(key, f"entries {[str(forms[id(e)]) for e in m]} with { {str(k): str(s) for k, s in a.items()} } ({name}) give {r.rho.tolist()}")
                        break
    R.trace()


def tasks(tier):
    th = tier == "thorough"
    yield ["expressions", "base", th]
    for k in range(16):
        yield ["expressions", k, th]
    for ln in (1, 2) if not th else (1, 2, 3):
        for f in range(9):
            yield ["circuits", f, ln]
        for f in range(len(COMM_LETTERS)):
            if ln == 3:
                for g in range(len(COMM_LETTERS)):
                    yield ["commutation", f, ln, g]
            else:
                yield ["commutation", f, ln]
    for k in range(4):
        yield ["patterns", k]
    for n in (2, 3, 4) if th else (2, 3):
        for part in range(8):
            yield ["graphs", n, part]
    for ln in (1, 2):
        for f in range(4):
            yield ["simulate", 1, f, ln]
        for f in range(5):
            yield ["simulate", 2, f, ln]
    for k in range(8 if th else 5):
        yield ["matrices", k, th]


def work(task, R):
    globals()[task[0]](R, *task[1:])

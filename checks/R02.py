"""R02: drawn numbers, states, matrices, flows, corrections and explanations denote the objects they are drawn from."""

import cmath
import itertools
import math
import re

import numpy as np
from graphix import OpenGraph
from graphix.flow.core import CausalFlow, GFlow, PauliFlow, XZCorrections
from graphix.flow.exceptions import (
    FlowPropositionError,
    FlowPropositionErrorReason,
    FlowPropositionOrderError,
    FlowPropositionOrderErrorReason,
    PartialOrderLayerError,
    PartialOrderLayerErrorReason,
    XZCorrectionsOrderError,
    XZCorrectionsOrderErrorReason,
)
from graphix.circ_ext.extraction import PauliString
from graphix.fundamentals import Axis, Sign
from graphix.pretty_print import OutputFormat, complex_to_str
from graphix.sim.density_matrix import DensityMatrix
from graphix.sim.statevec import Statevector

from mc import enums, og, text

META = {
    "bounds": {
        "quick": "numbers: +-sqrt(p/q) and i times it for p,q<=40, p/q for q<=1000 and p<=3, x+iy over 21x21 roots with signs, r e^(i pi k/d) for 12 radii and d<=24, all of them shifted by 6 offsets from 1e-12 to 1e-3, 80 decimals and powers of ten, under 8 settings of the tolerances, the largest denominator and the precision; "
        "states: every vector of 2 entries over 25 amplitudes, of 4 entries over 7, of 8 entries over {0,1} and {0,1,i}, both bit orders; matrices: every mixture of 2 of 60 states with 4 weights; "
        "flows: every open graph on <=4 nodes with XY, YZ, XZ, X measurements (2 labelings on 4 nodes) with its causal flow, gflow and Pauli flow and corrections, every correction function over subsets of 3 nodes; Pauli strings of <=4 letters; every explanation of a flow error over 3 nodes",
        "thorough": "roots p,q<=120, k/d for d<=96, states of 2 entries over 49 amplitudes and of 4 entries over 11, matrices over 120 states, every labeling of open graphs on 4 nodes",
    },
    "assumptions": [
        "recognition of a root compares squares, as documented, so numbers below 3.2e-5 in modulus may be drawn as 0 (a stable test fixes this)",
        "products are read from left to right with implicit multiplication (1/4i is a quarter of i), as fixed by stable tests",
    ],
}
FORMATS = list(OutputFormat)
DEFAULT = {"max_denominator": 1000, "atol": 1e-9, "rtol": 0.0, "precision": 4}
SETTINGS = [
    {},
    {"max_denominator": 1},
    {"max_denominator": 2},
    {"max_denominator": 12},
    {"precision": 1},
    {"precision": 9},
    {"atol": 1e-12},
    {"rtol": 1e-4},
    {"atol": 1e-5, "rtol": 1e-5, "max_denominator": 50, "precision": 2},
]


def digits_ok(x, p, precision):
    """Is p the number x rounded to so many digits?"""
    if x == p:
        return True
    return abs(x - p) <= 0.5000001 * 10.0 ** (math.floor(math.log10(max(abs(x), abs(p)))) - precision + 1)


def part_ok(x, p, st, decimal):
    """Is p an acceptable rendering of the real number x?"""
    tol = 1.01 * (st["atol"] + st["rtol"] * max(abs(x), abs(p))) + 1e-14
    sq = 1.01 * (st["atol"] + st["rtol"] * max(x * x, p * p)) + 1e-14
    return abs(x - p) <= tol or (abs(x * x - p * p) <= sq and (x * p >= 0)) or (decimal and digits_ok(x, p, st["precision"]))


def number_ok(z, v, st, decimal):
    if part_ok(z.real, v.real, st, decimal) and part_ok(z.imag, v.imag, st, decimal):
        return True
    if decimal:
        return False
    # polar form: tolerances apply to the modulus and to the phase divided by pi
    turn = abs(cmath.phase(z / v)) / math.pi if v and z else 0
    big = abs(cmath.phase(z)) / math.pi if z else 0
    return part_ok(abs(z), abs(v), st, False) and turn <= 1.01 * (st["atol"] + st["rtol"] * max(big, 0)) + 1e-13


def rounded(s):
    """Numbers written with digits only may be rounded."""
    return re.fullmatch(r"-?[\d.]+(e[+-]\d+)?([+-][\d.]+(e[+-]\d+)?)?(i|\\mathrm\{i\})?", s) is not None


def draw_number(R, z, settings, exact=False):
    """Check the text of a number; exact: it must not be a decimal under the default settings."""
    R.state()
    for opt in settings:
        st = {**DEFAULT, **opt}
        for fmt in FORMATS:
            R.trans()
            s = complex_to_str(z, fmt, **opt)
            try:
                v, dec = text.read(s)
                v = complex(v)
                ok = number_ok(complex(z), v, st, rounded(s)) and not (exact and not opt and dec)
            except (text.Unreadable, TypeError, ZeroDivisionError) as e:
                ok, v = False, repr(e)
            if not ok:
                R.bad(["number", repr(z), fmt.name, str(opt)], f"{z!r} is drawn as {s} under {opt} ({fmt.name}), which reads {v}")


SQ = [0, 1, 4, 1 / 4, 1 / 2, 3 / 4, 1 / 3, 2 / 3, 2, 3, 5, 1 / 9, 4 / 9, 1 / 5, 9 / 25, 16 / 25, 1 / 8, 3 / 8, 7 / 16, 1 / 6, 12]


def offsets(z):
    for d in (1e-12, 1e-10, 1e-8, 1e-6, 1e-5, 1e-3):
        yield z + d
        yield z * (1 - d)
        yield z + d * 1j
        yield z * cmath.exp(1j * d)


AMPS = {
    "0": 0, "1": 1, "-1": -1, "i": 1j, "-i": -1j, "2": 2, "-1/2": -0.5, "r2": math.sqrt(2), "ir3": 1j * math.sqrt(3), "1+i": 1 + 1j, "1-i": 1 - 1j, "-1-2i": -1 - 2j,
    "e3": cmath.exp(1j * math.pi / 3), "e-8": cmath.exp(-1j * math.pi / 8), "2e5": 2 * cmath.exp(0.4j * math.pi), "p": 0.6 + 0.8j, "-p": -0.8 - 0.6j, "u": cmath.exp(0.3j), "-u": -cmath.exp(0.3j),
    "d": 0.123456 + 0.234567j, "-d": -0.123456 + 0.234567j, "dr": 0.123456, "-di": -0.765432j, "s": 1e-3, "t": 1e-7j, "e2": cmath.exp(0.5004j * math.pi),
}
MORE = [cmath.exp(1j * math.pi * k / 12) for k in range(1, 24, 2)] + [0.3, -0.7j, 1 / 3, 5 + 12j, math.pi, 1e-2 - 1e-2j, 0.25 + 0.1234567j, 3.2e-5, -9 + 1j, 1e-4 * cmath.exp(1j), 1e5]
FOUR = ["0", "1", "-1", "i", "p", "-d", "r2"]
FOUR_MORE = [*FOUR, "e3", "-u", "1+i", "dr"]


def state(R, amps, settings=({},), formats=FORMATS):
    vec = np.array(amps, dtype=complex)
    if not np.any(vec):
        return
    vec = vec / np.linalg.norm(vec)
    R.state()
    sv = Statevector(vec)
    n = int(math.log2(len(vec)))
    for opt in settings:
        st = {**DEFAULT, **opt}
        for fmt, enc in itertools.product(formats, ("MSB", "LSB")):
            R.trans()
            s = sv.draw(fmt, encoding=enc, **opt)
            key = ["state", [str(x) for x in amps], fmt.name, enc, str(opt)]
            try:
                v, _ = text.read(s)
                if isinstance(v, (float, int)) and v == 0:
                    v = {}
                got = np.zeros(len(vec), dtype=complex)
                for ket, a in v.items():
                    if len(ket) != n:
                        raise text.Unreadable(ket)
                    got[int(ket if enc == "MSB" else ket[::-1], 2) if n else 0] = a
            except (text.Unreadable, AttributeError, TypeError, ZeroDivisionError) as e:
                R.bad(key, f"state {vec} is drawn as {s} ({e!r})")
                continue
            # a factor and a phase are each rounded, and amplitudes below the root of the tolerance may vanish
            tol = 1.2 * 10.0 ** (1 - st["precision"]) * np.abs(vec) + 1.01 * math.sqrt(st["atol"]) + st["rtol"]
            if np.any(np.abs(got - vec) > tol):
                R.bad(key, f"state {vec} is drawn as {s}, which reads {got}")
    if str(sv) != sv.draw(OutputFormat.ASCII):
        R.bad(["state", [str(x) for x in amps], "str"], "str differs from the ASCII drawing")


def matrix(R, rho, key):
    R.state()
    dm = DensityMatrix(rho)
    for fmt in FORMATS:
        R.trans()
        s = dm.draw(fmt)
        if fmt is OutputFormat.LaTeX:
            m = re.fullmatch(r"\\begin\{pmatrix\}(.*)\\end\{pmatrix\}", s)
            rows = [r.split(" & ") for r in m[1].split(r" \\ ")] if m else []
        else:
            lines = s.split("\n")
            rows = [re.split(r"  +", line[1:-1].strip()) if line[:1] + line[-1:] == "[]" else [] for line in lines]
            if len({len(line) for line in lines}) != 1:
                rows = []
        ok = len(rows) == len(rho) and all(len(r) == len(rho) for r in rows)
        if ok:
            for want, row in zip(rho, rows):
                for z, t in zip(want, row):
                    try:
                        v, _ = text.read(t)
                        ok = ok and number_ok(complex(z), complex(v), DEFAULT, rounded(t))
                    except (text.Unreadable, TypeError):
                        ok = False
        if not ok:
            R.bad([*key, fmt.name], f"matrix {rho.tolist()} is drawn as {s}")


# Flows


def read_set(s, fmt):
    m = re.fullmatch(r"\\\{(.*)\\\}" if fmt is OutputFormat.LaTeX else r"\{(.*)\}", s)
    items = [int(x) for x in m[1].split(", ")] if m[1] else []
    if len(items) != len(set(items)):
        raise ValueError(s)
    return set(items)


def read_function(s, fmt, multiline):
    """Name and content of a correction function."""
    if not s:
        return set(), {}
    sep = (r",\\" if fmt is OutputFormat.LaTeX else "\n") if multiline else (r", \;" if fmt is OutputFormat.LaTeX else ", ")
    parts = s.split(sep + "") if fmt is OutputFormat.LaTeX or multiline else re.split(r", (?=[a-z]\()", s)
    names, out = set(), {}
    for p in parts:
        m = re.fullmatch(r"([a-z])\((\d+)\) = (.*)", p)
        names.add(m[1])
        if int(m[2]) in out:
            raise ValueError(p)
        out[int(m[2])] = read_set(m[3], fmt)
    return names, out


def read_layers(s, fmt):
    sep = {OutputFormat.ASCII: " < ", OutputFormat.Unicode: " ≺ ", OutputFormat.LaTeX: r" \prec "}[fmt]
    return [read_set(x, fmt) for x in s.split(sep)][::-1] if s else []


def functions(R, obj, prefixes, funcs, layers, key):
    """The text of a flow or of corrections lists the functions and the order."""
    R.state()
    for fmt, multiline in itertools.product(FORMATS, (False, True)):
        R.trans()
        s = {OutputFormat.ASCII: obj.to_ascii, OutputFormat.LaTeX: obj.to_latex, OutputFormat.Unicode: obj.to_unicode}[fmt](multiline)
        try:
            if multiline and fmt is not OutputFormat.LaTeX:
                lines = s.split("\n")
                *head, order = lines
                parts = []
                for p in prefixes:
                    mine = [x for x in head if x.startswith(p + "(")]
                    parts.append("\n".join(mine))
                if sum(1 for x in head if x) != sum(len(x.split("\n")) for x in parts if x):
                    raise ValueError("stray line")
            else:
                *parts, order = s.split(r";\\" if multiline else r"; \;" if fmt is OutputFormat.LaTeX else "; ")
            got = [read_function(p, fmt, multiline) for p in parts]
            ok = (
                len(got) == len(funcs)
                and all(n <= {p} and f == {k: set(v) for k, v in w.items()} for (n, f), p, w in zip(got, prefixes, funcs))
                and read_layers(order, fmt) == [set(x) for x in layers]
            )
        except (ValueError, TypeError):
            ok = False
        if not ok:
            R.bad([*key, fmt.name, multiline], f"{funcs} with order {layers} is printed as {s!r}")
    if str(obj) != obj.to_ascii():
        R.bad([*key, "str"], "str differs from the ASCII text")


def corrections(R, c, key):
    functions(R, c, ["x", "z"], [c.x_corrections, c.z_corrections], c.partial_order_layers, key)


def flow(R, f, p, key):
    functions(R, f, [p], [f.correction_function], f.partial_order_layers, key)


def tasks(tier):
    th = tier == "thorough"
    top = 120 if th else 40
    for k in range(8 if not th else 48):
        yield ["roots", top, k, 8 if not th else 48]
    yield ["fractions"]
    for k in range(4):
        yield ["sums", k, 4]
    for k in range(8 if not th else 48):
        yield ["polar", 96 if th else 24, k, 8 if not th else 48]
    yield ["decimals"]
    for k in range(4):
        yield ["two", th, k, 4]
    for k in range(8 if not th else 32):
        yield ["four", th, k, 8 if not th else 32]
    for k in range(4):
        yield ["eight", k, 4]
    for k in range(8 if not th else 32):
        yield ["matrix", 120 if th else 60, k, 8 if not th else 32]
    for k in range(8 if not th else 64):
        yield ["flows", th, k, 8 if not th else 64]
    yield ["functions"]
    yield ["errors"]


def work(task, R):
    what = task[0]
    if what == "roots":
        _, top, k, m = task
        for p in range(1, top + 1):
            if p % m != k:
                continue
            for q in range(1, top + 1):
                if math.gcd(p, q) == 1:
                    x = math.sqrt(p / q)
                    R.at(f"root of {p}/{q}")
                    for z in (x, -x, x * 1j, -x * 1j):
                        draw_number(R, z, SETTINGS if (p + q) % 4 == 0 else [{}], exact=True)
                        if p <= 12 and q <= 12:
                            for y in offsets(z):
                                draw_number(R, y, SETTINGS)
    elif what == "fractions":
        for q in range(1, 1001):
            for p in (1, 2, 3):
                for z in (p / q, -p / q, 1j * p / q):
                    draw_number(R, z, [{}], exact=True)
        for z in (0, 0.0, -0.0, True, 1, 3, np.float64(0.5), np.complex128(0.5j), np.float32(0.25)):
            draw_number(R, z, SETTINGS)
    elif what == "sums":
        for i, (a, b) in enumerate(itertools.product(SQ[1:], repeat=2)):
            if i % task[2] != task[1]:
                continue
            for s, t in itertools.product((1, -1), repeat=2):
                z = s * math.sqrt(a) + 1j * t * math.sqrt(b)
                draw_number(R, z, SETTINGS, exact=True)
                for y in offsets(z):
                    draw_number(R, y, [{}, SETTINGS[-1], SETTINGS[-2]])
    elif what == "polar":
        _, top, k, m = task
        for d in range(1, top + 1):
            if d % m != k:
                continue
            for j in range(-d, d + 1):
                if math.gcd(j, d) != 1:
                    continue
                u = cmath.exp(1j * math.pi * j / d)
                for r in (1, 2, 0.5, math.sqrt(2), 1 / 3, math.sqrt(0.75), 0.1, 7, 0.123456, 1e-3, 1.000001, 40.25):
                    draw_number(R, r * u, SETTINGS if d <= 12 else [{}], exact=r not in (0.123456, 1.000001))
                for y in offsets(u):
                    draw_number(R, y, [{}] if d > 8 else SETTINGS)
    elif what == "decimals":
        for e in range(-12, 4):
            for c in (1, 1.5, 3.1622776, 9.99995, -7.77777, 2.345678):
                for z in (c * 10.0**e, 1j * c * 10.0**e, c * 10.0**e + 0.3333j, 0.7654321 - 1j * c * 10.0**e, c * 10.0**e * (1 + 0.7071j)):
                    draw_number(R, z, SETTINGS)
    elif what == "two":
        amps = [*AMPS.values(), *(MORE if task[1] else [])]
        for i, (a, b) in enumerate(itertools.product(amps, repeat=2)):
            if i % task[3] == task[2]:
                state(R, [a, b], SETTINGS)
    elif what == "four":
        amps = [AMPS[k] for k in (FOUR_MORE if task[1] else FOUR)]
        for i, v in enumerate(itertools.product(amps, repeat=4)):
            if i % task[3] == task[2]:
                state(R, v)
    elif what == "eight":
        for i, v in enumerate(itertools.product((0, 1, 1j), repeat=8)):
            if i % task[2] == task[1]:
                state(R, v, formats=FORMATS[:1] if 1j in v else FORMATS)
    elif what == "matrix":
        _, count, k, m = task
        kets = [np.array(v, dtype=complex) for v in itertools.product(list(AMPS.values())[:20], repeat=2) if any(v)]
        kets = [v / np.linalg.norm(v) for v in kets[:: max(1, len(kets) // count)]]
        for i, (a, b) in enumerate(itertools.combinations(kets, 2)):
            if i % m != k:
                continue
            for w in (0, 0.5, 0.25, 0.1234567):
                rho = (1 - w) * np.outer(a, a.conj()) + w * np.outer(b, b.conj())
                matrix(R, rho, ["matrix", i, w])
            if i % 50 == 0:
                matrix(R, np.kron(np.outer(a, a.conj()), np.outer(b, b.conj())), ["product", i])
    elif what == "flows":
        _, th, k, m = task
        i = 0
        for n in range(1, 5):
            for shape in og.shapes(n):
                nodes = [v for v in range(n) if v not in shape[2]]
                labelings = itertools.product(["XY:0.3", "YZ:0.3", "XZ:0.3", "X+"], repeat=len(nodes)) if n <= 3 or th else [["XY:0.3"] * len(nodes), ["X+", "XY:0.3", "YZ:0.3", "XY:0.3"][: len(nodes)]]
                for lab in labelings:
                    i += 1
                    if i % m != k:
                        continue
                    d = [n, *shape, {str(v): c for v, c in zip(nodes, lab)}]
                    g = og.build(d)
                    R.at(str(d))
                    key = ["flow", d]
                    pf = g.to_pauliflow_or_none()
                    if pf is not None:
                        flow(R, pf, "p", [*key, "p"])
                        corrections(R, pf.to_xzcorrections(), [*key, "xz"])
                    b = g.to_bloch()
                    gf = b.to_gflow_or_none()
                    if gf is not None:
                        flow(R, gf, "g", [*key, "g"])
                        corrections(R, gf.to_xzcorrections(), [*key, "gxz"])
                    cf = b.to_causalflow_or_none() if all(not c.startswith(("YZ", "XZ")) for c in lab) else None
                    if cf is not None:
                        flow(R, cf, "c", [*key, "c"])
                        corrections(R, cf.to_xzcorrections(), [*key, "cxz"])
    elif what == "functions":
        # every function from two nodes to subsets of three, whether or not it is a flow
        g = og.build([13, [[0, 1], [1, 12]], [0], [12], {str(v): "XY:0.3" for v in range(12)}])
        sets = [set(s) for s in enums.subsets([0, 1, 12])]
        layers = [[{12}, {0, 1}], [{12}, {1}, {0}], [{0, 1, 12}], [{12}]]
        for a, b in itertools.product([None, *sets], repeat=2):
            cf = {v: s for v, s in ((0, a), (10, b)) if s is not None}
            for ly in layers:
                for cls, p in ((PauliFlow, "p"), (GFlow, "g"), (CausalFlow, "c")):
                    flow(R, cls(g, cf, tuple(frozenset(x) for x in ly)), p, ["function", str(cf), str(ly), p])
                for x, z in ((cf, {}), ({}, cf), (cf, dict(reversed(cf.items())))):
                    corrections(R, XZCorrections(g, x, z, tuple(frozenset(s) for s in ly)), ["corrections", str(x), str(z), str(ly)])
        if not isinstance(g, OpenGraph):
            R.bad(["functions"], "no open graph")
    elif what == "errors":
        for letters in itertools.chain.from_iterable(itertools.product("IXYZ", repeat=n) for n in range(5)):
            for sign in Sign:
                R.state()
                R.trans()
                ps = PauliString(len(letters), {i: Axis[c] for i, c in enumerate(letters) if c != "I"}, sign)
                want = ("-" if sign is Sign.MINUS else "+") + "".join(letters)
                if str(ps) != want or (letters and PauliString.from_str(str(ps)) != ps) or (letters and sign is Sign.PLUS and PauliString.from_str(want[1:]) != ps):
                    R.bad(["pauli string", want], f"Pauli string {want} is printed as {ps}")
        nodes = [0, 1, 12]
        for node in nodes:
            for cs, past in itertools.product([set(s) for s in enums.subsets(nodes)], repeat=2):
                errs = [FlowPropositionError(r, node, cs) for r in FlowPropositionErrorReason]
                errs += [FlowPropositionOrderError(r, node, cs, past) for r in FlowPropositionOrderErrorReason]
                errs += [XZCorrectionsOrderError(r, node, cs, past) for r in XZCorrectionsOrderErrorReason]
                errs += [PartialOrderLayerError(r, node, cs) for r in PartialOrderLayerErrorReason]
                for e in errs:
                    R.state()
                    R.trans()
                    s = str(e)
                    named = re.search(rf"\b{node}\b", s) or getattr(e, "reason", None) is PartialOrderLayerErrorReason.FirstLayer
                    order = not hasattr(e, "past_and_present_nodes") or str(past - {node}) in s
                    name = e.reason.name in s or e.reason.name in ("C0",) or not isinstance(e, (FlowPropositionError, FlowPropositionOrderError))
                    if not named or str(cs) not in s or not order or not name or "{self" in s:
                        R.bad(["error", type(e).__name__, e.reason.name], f"{type(e).__name__} {e.reason.name} at {node} with {cs} and {past} reads: {s}")
    R.trace()

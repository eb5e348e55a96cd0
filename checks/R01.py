"""R01: printed representations evaluate back to an equal object and texts of patterns show every command once."""

import contextvars
import dataclasses
import itertools
import math
import re

import graphix
import numpy as np
from graphix import Circuit, Clifford, Pattern, command, instruction
from graphix.command import CommandKind
from graphix.fundamentals import Axis, ComplexUnit, Plane, Sign
from graphix.measurements import BlochMeasurement, Measurement, PauliMeasurement
from graphix.parameter import Placeholder
from graphix.pauli import Pauli
from graphix.pretty_print import OutputFormat, default_output_format, pattern_to_str
from graphix.states import BasicStates, PlanarState

from mc import circ, enums, pat, text

META = {
    "bounds": {
        "quick": "every sign, unit, axis, plane, Pauli, Clifford, basic state and Pauli measurement; angles k/d for d<=24 and |k|<=2d, each with both neighbouring floats, integers, NumPy scalars, decimals and affine expressions over 9x7 coefficients; every command over 5 node labels, the measurement alphabet and domains of <=2 nodes; "
        "every runnable sequence of <=3 commands of 8 kinds after 2 prefixes, in 3 formats and both directions; 40 of them with every limit and every set of kinds; patterns of 0..45 commands with the default limit; every instruction over the angles; every circuit word of <=2 gates on <=3 qubits",
        "thorough": "d<=96; sequences of <=4 commands; circuit words of 3 gates on 2 qubits",
    },
    "assumptions": ["angles of circuit instructions are printed for humans as multiples of pi or in radians (a stable test fixes this), so they are read as such, to within 1e-9; everywhere else angles must be exact", "the state prepared by a command is shown by the representation and not by the text"],
}
A = Placeholder("alpha")
SCOPE = {
    "graphix": graphix, "Pattern": Pattern, "Measurement": Measurement, "Clifford": Clifford, "Plane": Plane, "Axis": Axis, "Sign": Sign, "ComplexUnit": ComplexUnit,
    "Pauli": Pauli, "alpha": A, **{k: getattr(command, k) for k in "NMECXZST"},
}
ISCOPE = {"Axis": Axis, "alpha": A, **{k.name: getattr(instruction, k.name) for k in instruction.InstructionKind}}


def same_angle(a, b):
    return a == b and (isinstance(a, (int, float)) is False or math.copysign(1, a) == math.copysign(1, b) or a != 0)


def roundtrip(R, obj, scope=SCOPE):
    R.trans()
    r = repr(obj)
    try:
        back = eval(r, dict(scope))
    except Exception as e:  # noqa: BLE001
        R.bad(["repr", r], f"{r} cannot be evaluated: {e!r}")
        return
    if back != obj or type(back) is not type(obj) or repr(back) != r:
        R.bad(["repr", r], f"{r} evaluates to {back!r}")


def angles(tier):
    top = 96 if tier == "thorough" else 24
    seen = set()
    for d in range(1, top + 1):
        for k in range(-2 * d, 2 * d + 1):
            x = k / d
            seen.update((x, math.nextafter(x, 9), math.nextafter(x, -9)))
    seen.update(s * v for s in (1, -1) for v in (1e-3, 1e-9, 1e-12, 1e-300, 0.123456789, math.pi, 1 / 3 + 1e-8, 1 / 999, 1 / 1001, 7.25, 1e3, 12345.678, 1e17))
    return sorted(seen)


def extra():
    return [0, 1, -1, 2, 3, np.float64(0.25), np.float32(0.5), np.int64(1), np.float64(0.123), True]


def expressions():
    for a, b in itertools.product([1, -1, 2, 0.5, -0.75, 0.123, 1 / math.pi, 3, 1e-3], [0, 1, -1, 0.5, -0.25, 0.321, 2]):
        yield A * a + b


# Reading the text of commands


def number(s, names=None):
    return text.read(s, names)[0] / math.pi


SUB = str.maketrans("₀₁₂₃₄₅₆₇₈₉", "0123456789")
SUP = str.maketrans("⁰¹²³⁴⁵⁶⁷⁸⁹", "0123456789")


def nodeset(s):
    xs = [int(x) for x in s.split(",")] if s else []
    if len(xs) != len(set(xs)):
        raise text.Unreadable(s)
    return set(xs)


def parse(s, fmt):
    """(kind, nodes, arguments, first domain, second domain) of the text of a command."""
    left = right = set()
    if fmt is OutputFormat.ASCII:
        if s == "T":
            return "T", [], [], set(), set()
        m = re.fullmatch(r"(?:\{([\d,]*)\})?(\[)?([A-Z])\((.*?)\)(\])?(?:\{([\d,]*)\})?", s)
        if not m or bool(m[2]) != bool(m[5]):
            raise text.Unreadable(s)
        left, right = nodeset(m[1] or ""), nodeset(m[6] or "")
        body = m[4]
        d = re.fullmatch(r"(.*?),\{([\d,]+)\}", body)
        if d:
            if m[3] not in "XZS" or right:
                raise text.Unreadable(s)
            body, right = d[1], nodeset(d[2])
        args = body.split(",")
        if m[3] == "E":
            return "E", [int(x) for x in args], [], left, right
        return m[3], [int(args[0])], args[1:], left, right
    if fmt is OutputFormat.Unicode:
        if s == "T":
            return "T", [], [], set(), set()
        m = re.fullmatch(r"([₀-₉₊]*)(\[)?([A-Z])([₀-₉₋]+)(?:\((.*)\))?(\])?([⁰¹²³⁴-⁹⁺]*)", s)
        if not m or bool(m[2]) != bool(m[6]):
            raise text.Unreadable(s)
        left = nodeset(m[1].replace("₊", ",").translate(SUB))
        right = nodeset(m[7].replace("⁺", ",").translate(SUP))
        nodes = [int(x.translate(SUB)) for x in m[4].split("₋")]
        return m[3], nodes, m[5].split(",") if m[5] else [], left, right
    if s == "T":
        return "T", [], [], set(), set()
    m = re.fullmatch(r"(?:\{\}_\{([\d,]+)\})?(\[)?([A-Z])_\{([\d,]+)\}(?:\^\{(.*?)\})?(\])?(?:\^\{([\d,]+)\})?", s)
    if not m or bool(m[2]) != bool(m[6]):
        raise text.Unreadable(s)
    left, right = nodeset(m[1] or ""), nodeset(m[7] or "")
    args = m[5].split(",") if m[5] else []
    if m[3] in "XZS":
        if right:
            raise text.Unreadable(s)
        right, args = nodeset(m[5] or ""), []
    return m[3], [int(x) for x in m[4].split(",")], args, left, right


AT = (0.37, 1.9)


def close(x, y):
    return math.isclose(x, y, rel_tol=1.01e-9, abs_tol=1e-12)


def matches(cmd, s, fmt):
    """Does the text say what the command is?"""
    kind, nodes, args, left, right = parse(s, fmt)
    if kind != cmd.kind.name:
        return False
    if kind == "T":
        return True
    if kind == "E":
        return nodes == list(cmd.nodes) and not args and not left and not right
    if nodes != [cmd.node]:
        return False
    if kind == "N":
        return not args and not left and not right
    if kind == "C":
        return args == [str(cmd.clifford)] and not left and not right
    if kind in "XZS":
        return not args and not left and right == cmd.domain
    if right != cmd.s_domain or left != cmd.t_domain:
        return False
    m = cmd.measurement
    if isinstance(m, PauliMeasurement):
        want = ("-" if m.sign is Sign.MINUS else "+") + m.axis.name
        return args == [want] or (want == "+X" and not args)
    if args and args[0] in Plane.__members__:
        plane, *args = args
    else:
        plane = "XY"
    if plane != m.plane.name or len(args) != 1:
        return False
    if isinstance(m.angle, (int, float, np.number)):
        return close(number(args[0]), float(m.angle))
    return all(close(number(args[0], {"alpha": v}), eval_affine(m.angle, v)) for v in AT)


def eval_affine(e, v):
    return float(e.subs(A, v))


def command_text(R, cmd):
    for fmt in OutputFormat:
        R.trans()
        s = pattern_text(Pattern(cmds=[cmd]) if cmd.kind is CommandKind.N else one(cmd), fmt)
        try:
            ok = matches(cmd, s, fmt)
        except (text.Unreadable, ValueError) as e:
            ok = False
            s += f" ({e!r})"
        if not ok:
            R.bad(["text", fmt.name, repr(cmd)], f"{cmd!r} is printed as {s}")


def one(cmd):
    """A pattern made of one command (and any number of inputs)."""
    if cmd.kind is CommandKind.T:
        return Pattern(cmds=[cmd])
    nodes = list(cmd.nodes) if cmd.kind is CommandKind.E else [cmd.node]
    return Pattern(input_nodes=sorted(set(nodes)), cmds=[cmd])


def pattern_text(p, fmt, left_to_right=False, limit=40, target=None):
    if fmt is OutputFormat.ASCII:
        s = p.to_ascii(left_to_right, limit, target)
    elif fmt is OutputFormat.Unicode:
        s = p.to_unicode(left_to_right, limit, target)
    else:
        s = p.to_latex(left_to_right, limit, target)
    if pattern_to_str(p, fmt, left_to_right=left_to_right, limit=limit, target=target) != s:
        return "functions and methods disagree"
    if fmt is OutputFormat.LaTeX:
        m = re.fullmatch(r"\\\((.*)\\\)(.*)", s)
        return m[1] + m[2] if m else "no delimiters: " + s
    return s


def pattern(R, p, key, variants):
    R.state()
    cmds = list(p)
    for fmt in OutputFormat:
        for ltr, limit, target in variants:
            R.trans()
            want = [c for c in cmds if target is None or c.kind in target]
            if not ltr:
                want.reverse()
            s = pattern_text(p, fmt, ltr, limit, target)
            body, more = s, 0
            m = re.fullmatch(r"(.*)\.\.\.\((\d+) more commands\)", s)
            if m:
                body, more = m[1], int(m[2])
            parts = [x for x in body.split(r"\," if fmt is OutputFormat.LaTeX else " ") if x]
            try:
                ok = (
                    len(parts) + more == len(want)
                    and (limit is None or len(parts) <= limit)
                    and (len(parts) == len(want) or (limit is not None and len(want) > limit and len(parts) >= limit - 1))
                    and all(matches(c, x, fmt) for c, x in zip(want, parts))
                )
            except (text.Unreadable, ValueError):
                ok = False
            if not ok:
                R.bad([*key, fmt.name, ltr, limit, sorted(k.name for k in target) if target is not None else None], f"{cmds} printed ({fmt.name}, left_to_right={ltr}, limit={limit}, target={target}) as {s}")


def tasks(tier):
    yield ["constants"]
    for k in range(8):
        yield ["angles", k, 8, tier]
    for k in range(4):
        yield ["commands", k, 4]
    length = 4 if tier == "thorough" else 3
    for k in range(24 * (16 if tier == "thorough" else 1)):
        yield ["patterns", length, k, 24 * (16 if tier == "thorough" else 1)]
    yield ["limits"]
    yield ["instructions", tier]
    for k in range(8):
        yield ["circuits", k, 8, 2]
    if tier == "thorough":
        for k in range(64):
            yield ["circuits", k, 64, 3]


PREFIXES = [([0, 1], []), ([0], [["N", 1], ["E", 0, 1], ["M", 0, "XY:0.37", [], []]])]
CODES = ["X+", "X-", "Y+", "Z-", "XY:0.25", "XZ:-0.75", "YZ:1.0", "XY:0.123"]


def sequences(length):
    for inputs, prefix in PREFIXES:
        for n in range(length + 1):
            yield from ((inputs, c) for c in pat.sequences(inputs, prefix, n, [2, 3, 10], ["N", "E", "M", "X", "Z", "C"], CODES if n < 3 else CODES[:1] + CODES[4:6], [3, 6, 14], 2, [(), ("ZERO",)] if n < 3 else [()]))


def work(task, R):
    what = task[0]
    if what == "constants":
        for o in [*Sign, *ComplexUnit, *Axis, *Plane, *Clifford, *PauliMeasurement, *Pauli]:
            R.state()
            roundtrip(R, o)
        for name in dir(BasicStates):
            if isinstance(getattr(BasicStates, name), PlanarState):
                roundtrip(R, getattr(BasicStates, name))
                roundtrip(R, command.N(3, getattr(BasicStates, name)))
        named = {"I": Clifford.I, "X": Clifford.X, "Y": Clifford.Y, "Z": Clifford.Z, "S": Clifford.S, "Sdagger": Clifford.S.conj, "H": Clifford.H}
        for c in Clifford:
            # the name of a gate is true up to a phase, although several gates share a name such as the square root of the identity
            m = re.fullmatch(r"\\sqrt\{-?i?([IXYZ])\}", str(c))
            u = c.matrix
            want = named[str(c)].matrix if str(c) in named else named[m[1]].matrix if m else np.eye(2) if str(c) == "I^{1/3}" else np.zeros((2, 2))
            got = u if str(c) in named else u @ u if m else u @ u @ u
            if not math.isclose(abs(np.trace(want.conj().T @ got)), 2, abs_tol=1e-9):
                R.bad(["clifford name", c.value], f"Clifford gate {c.value} is named {c}")
        if len({str(c) for c in Clifford if str(c) in named}) != 7:
            R.bad(["clifford names"], "names of Clifford gates are not distinct")
        if len(list(Pauli)) != 16 or len(list(Clifford)) != 24 or len(list(PauliMeasurement)) != 6:
            R.bad(["constants"], "constants missing")
        # the format chosen in the context is used
        p = Pattern(input_nodes=[0], cmds=[command.N(1), command.E((0, 1)), command.M(0, Measurement.XY(0.25)), command.X(1, {0})])
        for fmt, want in zip(OutputFormat, (p.to_ascii(), p.to_latex(), p.to_unicode())):
            ctx = contextvars.copy_context()

            def run(fmt=fmt):
                default_output_format.set(fmt)
                return str(p), pattern_to_str(p)

            if ctx.run(run) != (want, want):
                R.bad(["context", fmt.name], f"default format {fmt.name} gives {ctx.run(run)}")
        if str(p) != p.to_ascii():
            R.bad(["context"], "the default format is not ASCII")
    elif what == "angles":
        xs = [*angles(task[3]), *extra()]
        for i, x in enumerate(xs):
            if i % task[2] != task[1]:
                continue
            R.state()
            for plane in Plane:
                m = BlochMeasurement(x, plane)
                roundtrip(R, m)
                back = eval(repr(m), dict(SCOPE))
                if not same_angle(back.angle, x):
                    R.bad(["angle", repr(m)], f"{m!r} evaluates to angle {back.angle!r}")
                command_text(R, command.M(2, m, {1}, {0, 10}))
                roundtrip(R, PlanarState(plane, x))
        if task[1] == 0:
            for e in expressions():
                for plane in Plane:
                    R.state()
                    roundtrip(R, BlochMeasurement(e, plane))
                    roundtrip(R, command.M(2, BlochMeasurement(e, plane), {1}, set()))
                    command_text(R, command.M(2, BlochMeasurement(e, plane), {1}, set()))
    elif what == "commands":
        labels = [0, 1, 9, 10, 123]
        doms = [set(d) for r in range(3) for d in itertools.combinations(labels, r)]
        i = 0
        for n in labels:
            rest = [d for d in doms if n not in d]
            cmds = [command.N(n), command.T(), *(command.C(n, c) for c in Clifford), *(command.E((n, v)) for v in labels if v != n)]
            cmds += [k(n, d) for k in (command.X, command.Z, command.S) for d in rest]
            cmds += [command.M(n, pat.meas(code), s, t) for code in [*CODES, "X+", "Y-", "Z+"] for s in rest for t in rest]
            for c in cmds:
                i += 1
                if i % task[2] == task[1]:
                    R.state()
                    roundtrip(R, c)
                    command_text(R, c)
    elif what == "patterns":
        _, length, k, m = task
        basic = [(False, None, None), (True, None, None)]
        kinds = list(CommandKind)[:8]
        targets = [None, *(set(t) for t in enums.subsets(kinds))]
        for i, (inputs, cmds) in enumerate(sequences(length)):
            if i % m != k:
                continue
            p = pat.build(inputs, cmds)
            key = ["pattern", inputs, cmds]
            R.at(str(key))
            rep = i // m % 97 == 0 and len(cmds) >= 2
            variants = [(ltr, lim, t) for ltr in (False, True) for lim in (None, *range(len(cmds) + 2)) for t in targets] if rep else basic
            pattern(R, p, key, variants)
            roundtrip(R, p)
            if len(p.output_nodes) > 1:
                q = pat.build(inputs, cmds, list(reversed(p.output_nodes)))
                roundtrip(R, q)
                if repr(q) == repr(p):
                    R.bad([*key, "outputs"], "the order of the outputs is not shown")
    elif what == "limits":
        for n in range(46):
            cmds = [command.N(v) for v in range(n)]
            p = Pattern(cmds=cmds)
            pattern(R, p, ["default", n], [(ltr, lim, t) for ltr in (False, True) for lim in (40, None, 0, 1, 2, 39, 41) for t in (None, {CommandKind.N}, {CommandKind.M})])
            if str(p) != p.to_ascii() or p.to_ascii() != p.to_ascii(limit=40) or p.to_latex() != p.to_latex(limit=40) or p.to_unicode() != p.to_unicode(limit=40):
                R.bad(["default limit", n], "the default limit is not 40")
            roundtrip(R, p)
    elif what == "instructions":
        qs = [0, 1, 12]
        plain = [instruction.CCX(a, (b, c)) for a, b, c in itertools.permutations(qs)]
        plain += [k(a, b) for k in (instruction.CNOT,) for a, b in itertools.permutations(qs, 2)]
        plain += [k((a, b)) for k in (instruction.CZ, instruction.SWAP) for a, b in itertools.permutations(qs, 2)]
        plain += [k(a) for k in (instruction.H, instruction.S, instruction.X, instruction.Y, instruction.Z, instruction.I) for a in qs]
        plain += [instruction.M(a, ax) for a in qs for ax in Axis]
        for i in plain:
            R.state()
            roundtrip(R, i, ISCOPE)
        for x in [*angles(task[1]), *extra(), *expressions()]:
            R.state()
            for i in (instruction.RX(0, x), instruction.RY(1, x), instruction.RZ(12, x), instruction.J(0, x), instruction.RZZ(1, 12, x)):
                R.trans()
                if not reads_as(repr(i), i):
                    R.bad(["instruction", i.kind.name, repr(x)], f"{i.kind.name} with angle {x!r} is printed as {i!r}")
    elif what == "circuits":
        _, k, m, depth = task
        ang = circ.G
        for n in (1, 2, 3) if depth == 2 else (2,):
            alpha = [*circ.singles(n), *circ.doubles(n), *circ.measures(n), *([["CCX", *p] for p in itertools.permutations(range(3))] if n == 3 else [])]
            for i, word in enumerate(itertools.product(alpha, repeat=depth)):
                if i % m != k or not circ.legal(word):
                    continue
                R.state()
                R.trans()
                c = circ.build(n, word)
                r = repr(c)
                mt = re.fullmatch(r"Circuit\(width=(\d+), instr=\[(.*)\]\)", r)
                parts = split(mt[2]) if mt else []
                if not mt or int(mt[1]) != n or len(parts) != depth or not all(reads_as(s, g) for s, g in zip(parts, c.instruction)):
                    R.bad(["circuit", n, word], f"{word} on {n} qubits is printed as {r}")
                    continue
                d = eval(re.sub(rf"{ang * math.pi}|{circ.G2 * math.pi}|37pi/100|183pi/100", lambda t: repr(number(t[0])), r), {**ISCOPE, "Circuit": Circuit})
                if d.width != n or not all(close_instr(a, b) for a, b in zip(d.instruction, c.instruction, strict=True)):
                    R.bad(["circuit", n, word], f"{r} builds {d!r}")
    R.trace()


def split(s):
    """Items of a list, split on commas outside parentheses."""
    out, depth, cur = [], 0, ""
    for ch in s:
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
            continue
        depth += (ch == "(") - (ch == ")")
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def close_instr(a, b):
    if type(a) is not type(b):
        return False
    for f in dataclasses.fields(a):
        x, y = getattr(a, f.name), getattr(b, f.name)
        if f.name == "angle":
            if not (x == y or close(float(x), float(y))):
                return False
        elif x != y:
            return False
    return True


def reads_as(s, instr):
    """Does the printed instruction name the operands and the angle of the instruction?"""
    m = re.fullmatch(r"(\w+)\((.*)\)", s)
    if not m or m[1] != instr.kind.name:
        return False
    args = split(m[2])
    names = [f.name for f in dataclasses.fields(instr)]
    values = {}
    for i, a in enumerate(args):
        kw = re.fullmatch(r"(\w+)=(.*)", a)
        values[kw[1] if kw else names[i]] = kw[2] if kw else a
    if set(values) != set(names):
        return False
    for f in names:
        have = getattr(instr, f)
        if f != "angle":
            if eval(values[f], dict(ISCOPE)) != have:
                return False
        elif isinstance(have, (int, float, np.number)):
            try:
                got = number(values[f])
            except text.Unreadable:
                return False
            if not close(got, float(have)):
                return False
        elif eval(values[f], {"alpha": A}) != have:
            return False
    return True

"""A01: Clifford, Pauli, plane, sign and measurement algebra equals the algebra of the matrices."""

import cmath
import itertools
import math

import numpy as np
from graphix import command
from graphix.clifford import Clifford, Domains
from graphix.fundamentals import ANGLE_PI, Axis, ComplexUnit, I, IXYZ_VALUES, Plane, Sign, angle_to_rad, rad_to_angle
from graphix.measurements import BlochMeasurement, Measurement, PauliMeasurement
from graphix.ops import Ops
from graphix.pauli import Pauli
from graphix.states import BasicStates, PlanarState

from mc import ref

META = {
    "bounds": {
        "quick": "all 24 Cliffords and all 576 products, all words of length <=6 over the generators, all 16 Paulis and products, all signs/units/axes/planes, all domain pairs over 3 nodes, "
        "every measurement with angle k/16 (-2 pi..4 pi) and generic angles under every Clifford and under every product of two Cliffords, tolerances around every multiple of pi/2",
        "thorough": "words of length 9, angles k/64, products of three Cliffords",
    },
    "assumptions": ["floating-point comparisons within 1e-9"],
}
TOL = 1e-9
P = {"I": ref.I2, "X": ref.X, "Y": ref.Y, "Z": ref.Z}
VEC = {Axis.X: np.array([1.0, 0, 0]), Axis.Y: np.array([0, 1.0, 0]), Axis.Z: np.array([0, 0, 1.0])}
CL = list(Clifford)


def close(a, b, tol=TOL):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) < tol))


def phase_eq(a, b, tol=TOL):
    """Equal up to a unit factor."""
    a, b = np.asarray(a, dtype=complex), np.asarray(b, dtype=complex)
    return abs(abs(np.vdot(a, b)) - np.linalg.norm(a) * np.linalg.norm(b)) < tol and abs(np.linalg.norm(a) - np.linalg.norm(b)) < tol


def pmat(p):
    return (1j) ** {"ONE": 0, "J": 1, "MINUS_ONE": 2, "MINUS_J": 3}[p.unit.name] * P[p.symbol.name]


def bmat(m):
    return ref.observable(ref.bloch(m))


def angles(tier):
    d = 16 if tier == "quick" else 64
    return [k / d for k in range(-2 * d, 4 * d + 1)] + [0, 1, -1, 2, 3] + [0.37, 1.93, -0.61, 1e-3, 2 - 1e-3]


def tasks(tier):
    yield ["table"]
    yield ["words", 6 if tier == "quick" else 9]
    yield ["domains"]
    yield ["pauli"]
    yield ["unit"]
    yield ["plane", angles(tier)]
    yield ["ops", angles(tier)]
    yield ["frommatrix"]
    yield ["pm"]
    for c in range(24):
        yield ["bloch", c, angles(tier)]
    for c in range(24):
        yield ["bloch2", c, 2 if tier == "quick" else 3]
    yield ["tol"]
    yield ["isclose"]


def word_graph(R, depth):
    """Walk every word over the generators: the product of table entries is the product of the matrices."""
    gens = {"H": Clifford.H, "S": Clifford.S, "Z": Clifford.Z, "SDG": Clifford.SDG, "X": Clifford.X, "Y": Clifford.Y}
    mats = {"H": ref.H, "S": ref.S, "Z": ref.Z, "SDG": ref.S.conj().T, "X": ref.X, "Y": ref.Y}
    seen = set()
    for n in range(depth + 1):
        names = list(gens) if n <= 4 else ["H", "S"]
        for w in itertools.product(names, repeat=n):
            c, m = Clifford.I, ref.I2
            for g in w:
                c = gens[g] @ c
                m = mats[g] @ m
            R.trans()
            if c not in seen:
                seen.add(c)
                R.state()
            if not phase_eq(c.matrix, m):
                R.bad(f"word {w}", f"product is {c!r}, whose matrix differs")
    if len(seen) != 24:
        R.bad("words closure", f"the generators reach {len(seen)} elements")


def table(R):
    for c in CL:
        m = c.matrix
        R.state()
        if m.shape != (2, 2) or not close(m.conj().T @ m, ref.I2):
            R.bad(f"unitary {c}", f"{m}")
            continue
        # a Clifford maps Paulis to signed Paulis
        for ax in Axis:
            img = m.conj().T @ P[ax.name] @ m
            if not any(close(img, s * P[q]) for s in (1, -1) for q in "XYZ"):
                R.bad(f"not clifford {c} {ax}", f"{img}")
            got = c.measure_axis(ax)
            if not close(pmat(got), img):
                R.bad(f"measure_axis {c} {ax}", f"{got!r} is not C^dag P C")
            if P[ax.clifford(c).name] is not P[got.symbol.name]:
                R.bad(f"axis clifford {c} {ax}", f"{ax.clifford(c)}")
            R.trans()
        for p in Pauli:
            got = c.measure(p)
            if not close(pmat(got), m.conj().T @ pmat(p) @ m):
                R.bad(f"measure {c} {p}", f"{got!r}")
        for pl in Plane:
            got = pl.clifford(c)
            want = {a for a in Axis for b in pl.axes if close(np.abs(m.conj().T @ P[b.name] @ m), np.abs(P[a.name])) and any(close(m.conj().T @ P[b.name] @ m, s * P[a.name]) for s in (1, -1))}
            if set(got.axes) != want:
                R.bad(f"plane clifford {c} {pl}", f"{got}, expected the plane of {want}")
        if not phase_eq(c.conj.matrix, m.conj().T):
            R.bad(f"conj {c}", f"{c.conj!r}")
        if c.conj.conj is not c or c @ c.conj is not Clifford.I:
            R.bad(f"conj involution {c}", f"{c.conj!r}")
        prod = ref.I2
        for g in c.hsz:
            if g not in {Clifford.I, Clifford.H, Clifford.S, Clifford.Z}:
                R.bad(f"hsz gates {c}", f"{c.hsz}")
            prod = prod @ g.matrix
        if not phase_eq(prod, m):
            R.bad(f"hsz {c}", f"{c.hsz} is not a decomposition")
        q = {"id": ref.I2, "x": ref.X, "y": ref.Y, "z": ref.Z, "s": ref.S, "sdg": ref.S.conj().T, "h": ref.H}
        prod = ref.I2
        for g in c.qasm3:
            prod = q[g] @ prod
        if not phase_eq(prod, m):
            R.bad(f"qasm3 {c}", f"applying {c.qasm3} in this order is not the gate")
        for d in CL:
            got = c @ d
            R.trans()
            if not phase_eq(got.matrix, m @ d.matrix):
                R.bad(f"matmul {c} {d}", f"{got!r}")
        for d in CL:
            if (d is c) != phase_eq(d.matrix, m):
                R.bad(f"distinct {c} {d}", "two elements with the same matrix")
        for phase in (1, -1, 1j, -1j, cmath.exp(0.3j)):
            if Clifford.try_from_matrix(phase * m) is not c:
                R.bad(f"try_from_matrix {c} {phase}", f"{Clifford.try_from_matrix(phase * m)!r}")
        og = c.to_opengraph()
        st = ref.run_pattern(og.to_pattern())
        mp = st.kraus(og.to_pattern().output_nodes)
        k = np.asarray(mp).reshape(-1, 2, 2)
        R.trace()
        # rows are indexed by branch; every branch must be the Clifford up to a scalar, all equally likely
        for b in k:
            if not (phase_eq(b / np.linalg.norm(b), m / np.linalg.norm(m)) or phase_eq(b.T / np.linalg.norm(b), m / np.linalg.norm(m))) or abs(np.linalg.norm(b) - np.linalg.norm(k[0])) > TOL:
                R.bad(f"to_opengraph {c}", f"a branch of the pattern is {b}")
                break
        if not all(isinstance(x, PauliMeasurement) for x in og.measurements.values()) or og.output_cliffords:
            R.bad(f"to_opengraph form {c}", f"{og}")
    for name, m in [("I", ref.I2), ("X", ref.X), ("Y", ref.Y), ("Z", ref.Z), ("S", ref.S), ("SDG", ref.S.conj().T), ("H", ref.H)]:
        if not phase_eq(getattr(Clifford, name).matrix, m):
            R.bad(f"named {name}", f"{getattr(Clifford, name)!r}")
    for other in (ref.X, 1, "X", Pauli.X):
        try:
            _ = Clifford.X @ other
            if not isinstance(other, np.ndarray):
                R.bad(f"matmul {other!r}", "no TypeError")
        except TypeError:
            pass
        except Exception as e:  # noqa: BLE001
            if not isinstance(other, np.ndarray):
                R.bad(f"matmul {other!r}", f"{e!r}")


def frommatrix(R):
    non = [np.diag([1, np.exp(0.25j * math.pi)]), ref.rx(0.3), ref.ry(0.1), np.zeros((2, 2)), np.diag([1, 0]), np.ones((2, 2)), ref.X + ref.I2, np.array([[0, 1], [0, 0]]), ref.rz(0.01)]
    for i, m in enumerate(non):
        R.state()
        if Clifford.try_from_matrix(np.asarray(m, dtype=complex)) is not None:
            R.bad(f"non clifford {i}", f"{Clifford.try_from_matrix(m)!r} for {m}")
    for m in (np.eye(4), np.zeros((2, 3)), np.zeros((4,)), np.zeros((1, 4)), np.eye(1)):
        if Clifford.try_from_matrix(m) is not None:
            R.bad(f"shape {m.shape}", "accepted")
    # matrices with rounding noise
    for c in CL:
        for noise in (1e-17, -3e-17, 1e-16j, 1e-12):
            R.trans()
            got = Clifford.try_from_matrix(c.matrix + noise)
            if got is not c:
                R.bad(f"noise {c} {noise}", f"{got!r}")
        for d in CL:
            if Clifford.try_from_matrix(c.matrix @ d.matrix) is not c @ d:
                R.bad(f"product {c} {d}", f"{Clifford.try_from_matrix(c.matrix @ d.matrix)!r}")


def domains(R):
    nodes = [1, 2, 5]
    subs = [set(c) for r in range(4) for c in itertools.combinations(nodes, r)]
    for c in CL:
        m = c.matrix
        for s, t in itertools.product(subs, repeat=2):
            s0, t0 = set(s), set(t)
            d = Domains(s0, t0)
            got = c.commute_domains(d)
            R.state()
            R.trans()
            if (s0, t0) != (s, t) or d.s_domain is not s0 or d.t_domain is not t0 or got.s_domain is s0 or got.t_domain is t0 or got.s_domain is got.t_domain:
                R.bad(f"domains aliasing {c} {s} {t}", f"{got}")
            for bits in itertools.product((0, 1), repeat=3):
                o = dict(zip(nodes, bits, strict=True))
                a, b = sum(o[v] for v in s) % 2, sum(o[v] for v in t) % 2
                a2, b2 = sum(o[v] for v in got.s_domain) % 2, sum(o[v] for v in got.t_domain) % 2
                lhs = np.linalg.matrix_power(ref.X, a) @ np.linalg.matrix_power(ref.Z, b) @ m
                rhs = m @ np.linalg.matrix_power(ref.X, a2) @ np.linalg.matrix_power(ref.Z, b2)
                if not phase_eq(lhs, rhs):
                    R.bad(f"domains {c} s={s} t={t}", f"{got} for outcomes {o}")
                    break


def paulis(R):
    ps = list(Pauli)
    if len(ps) != 16 or len(set(ps)) != 16:
        R.bad("iterate", f"{len(ps)} Paulis")
    if [p.symbol for p in Pauli.iterate(symbol_only=True)] != list(IXYZ_VALUES) or any(p.unit is not ComplexUnit.ONE for p in Pauli.iterate(symbol_only=True)):
        R.bad("iterate symbols", "")
    for p in ps:
        R.state()
        if not close(p.matrix, pmat(p)):
            R.bad(f"matrix {p}", f"{p.matrix}")
        if not close((-p).matrix, -pmat(p)):
            R.bad(f"neg {p}", f"{-p!r}")
        for q in ps:
            R.trans()
            if not close(pmat(p @ q), pmat(p) @ pmat(q)):
                R.bad(f"matmul {p} {q}", f"{p @ q!r}")
        for u in ComplexUnit:
            if not close(pmat(p * u), complex(u) * pmat(p)) or not close(pmat(u * p), complex(u) * pmat(p)):
                R.bad(f"mul {p} {u}", f"{p * u!r}")
        for x in (1, -1, 1j, -1j, 1.0, -1.0, np.float64(-1), np.complex128(1j), 1 + 1e-12, Sign.MINUS, Sign.PLUS):
            z = complex(x)
            if not close(pmat(p * x), z * pmat(p)) or not close(pmat(x * p), z * pmat(p)):
                R.bad(f"mul {p} {x!r}", f"{p * x!r}")
        for x in (2, 0, 0.5, 1 + 1j, -1.1):
            try:
                r = p * x
                R.bad(f"mul {p} {x!r}", f"accepted: {r!r}")
            except TypeError:
                pass
        if p.symbol is I:
            try:
                _ = p.axis
                R.bad(f"axis {p}", "identity has an axis")
            except ValueError:
                pass
        elif p.axis is not p.symbol:
            R.bad(f"axis {p}", f"{p.axis}")
        for b in (0, 1):
            v = ref.planar_ket(p.eigenstate(b))
            if not phase_eq(pmat(p) @ v, v):
                R.bad(f"eigenstate {p} {b}", f"{p.eigenstate(b)} is not an eigenstate")
            if p.unit is ComplexUnit.ONE and p.symbol is not I and not close(pmat(p) @ v, (-1) ** b * v):
                R.bad(f"eigenstate sign {p} {b}", f"{p.eigenstate(b)}")
        for b in (2, -1):
            try:
                p.eigenstate(b)
                R.bad(f"eigenstate {p} {b}", "accepted")
            except ValueError:
                pass
        if eval(repr(p), {"Pauli": Pauli}) != p:
            R.bad(f"repr {p}", repr(p))
    for ax in Axis:
        if Pauli.from_axis(ax) != Pauli(ax, ComplexUnit.ONE):
            R.bad(f"from_axis {ax}", "")


def units(R):
    val = {"ONE": 1, "J": 1j, "MINUS_ONE": -1, "MINUS_J": -1j}
    for u in ComplexUnit:
        R.state()
        z = val[u.name]
        if abs(complex(u) - z) > TOL or ComplexUnit.from_properties(sign=u.sign, is_imag=u.is_imag) is not u:
            R.bad(f"unit {u}", f"{complex(u)}")
        if u.is_imag != (z in (1j, -1j)) or (u.sign is Sign.MINUS) != (z in (-1, -1j)):
            R.bad(f"unit props {u}", "")
        if abs(complex(-u) + z) > TOL or eval(str(u)) != z:
            R.bad(f"unit neg/str {u}", f"{-u} {u!s}")
        for w in ComplexUnit:
            R.trans()
            if abs(complex(u * w) - z * val[w.name]) > TOL:
                R.bad(f"unit mul {u} {w}", f"{u * w}")
        for x in (1, -1, 1j, -1j, 1.0, np.complex128(-1j)):
            if abs(complex(u * x) - z * complex(x)) > TOL or abs(complex(x * u) - z * complex(x)) > TOL:
                R.bad(f"unit mul {u} {x!r}", f"{u * x}")
        for x in (2, 0, 1 + 1j):
            try:
                r = u * x
                R.bad(f"unit mul {u} {x}", f"accepted {r}")
            except TypeError:
                pass
        for eps, ok in [(0, True), (1e-12, True), (1e-6, False), (1e-12j, True), (1e-3j, False)]:
            got = ComplexUnit.from_or_none(z + eps)
            if got is not (u if ok else None):
                R.bad(f"from_or_none {z} {eps}", f"{got}")
        if ComplexUnit.from_or_none(z + 1e-3, abs_tol=1e-2) is not u or ComplexUnit.from_or_none(z * (1 + 1e-3), rel_tol=1e-2) is not u or ComplexUnit.from_or_none(u) is not u:
            R.bad(f"from_or_none tol {u}", "")
    for a in Sign:
        ia = 1 if a is Sign.PLUS else -1
        if int(a) != ia or float(a) != ia or complex(a) != ia or str(a) != "+-"[a is Sign.MINUS] or int(-a) != -ia:
            R.bad(f"sign {a}", "")
        for b in Sign:
            if int(a * b) != ia * int(b):
                R.bad(f"sign mul {a} {b}", "")
        for x in (3, 2.5, 1 + 2j, -7):
            if a * x != ia * x or x * a != ia * x or type(a * x) is not type(x):
                R.bad(f"sign mul {a} {x}", f"{a * x}")
    for b in (True, False):
        if Sign.plus_if(b) is not (Sign.PLUS if b else Sign.MINUS) or Sign.minus_if(b) is not (Sign.MINUS if b else Sign.PLUS):
            R.bad(f"plus_if {b}", "")


def planes(R, angs):
    want = {Plane.XY: (Axis.X, Axis.Y), Plane.YZ: (Axis.Z, Axis.Y), Plane.XZ: (Axis.Z, Axis.X)}
    for pl in Plane:
        if (pl.cos, pl.sin) != want[pl] or set(pl.axes) != set(want[pl]) or pl.orth in pl.axes or pl.to_plane() is not pl or pl.to_plane_or_axis() is not pl:
            R.bad(f"plane {pl}", f"{pl.axes} {pl.cos} {pl.sin} {pl.orth}")
        for a in angs:
            R.state()
            v = np.array(pl.polar(a), dtype=float)
            w = math.cos(a * math.pi) * VEC[want[pl][0]] + math.sin(a * math.pi) * VEC[want[pl][1]]
            if not close(v, w):
                R.bad(f"polar {pl} {a}", f"{v}")
            ket = PlanarState(pl, a).to_statevector_numpy()
            obs = ref.observable(w)
            if abs(np.linalg.norm(ket) - 1) > TOL or not close(obs @ ket, ket):
                R.bad(f"planar state {pl} {a}", f"{ket}")
            if not close(PlanarState(pl, a).to_densitymatrix_numpy(), (ref.I2 + obs) / 2):
                R.bad(f"planar dm {pl} {a}", "")
            if abs(angle_to_rad(a) - a * math.pi) > TOL or abs(rad_to_angle(a * math.pi) - a) > TOL:
                R.bad(f"angle units {a}", "")
    for a, b in itertools.product(Axis, repeat=2):
        try:
            pl = Plane.from_axes(a, b)
            if a is b or set(pl.axes) != {a, b}:
                R.bad(f"from_axes {a} {b}", f"{pl}")
        except ValueError:
            if a is not b:
                R.bad(f"from_axes {a} {b}", "rejected")
        R.trans()
    bs = {"ZERO": (0, 0, 1), "ONE": (0, 0, -1), "PLUS": (1, 0, 0), "MINUS": (-1, 0, 0), "PLUS_I": (0, 1, 0), "MINUS_I": (0, -1, 0)}
    for n, v in bs.items():
        ket = getattr(BasicStates, n).to_statevector_numpy()
        if not close(ref.observable(v) @ ket, ket):
            R.bad(f"basic state {n}", f"{ket}")
    if [ANGLE_PI] != [1]:
        R.bad("ANGLE_PI", f"{ANGLE_PI}")


def ops(R, angs):
    for n, m in {"I": ref.I2, "X": ref.X, "Y": ref.Y, "Z": ref.Z, "S": ref.S, "SDG": ref.S.conj().T, "H": ref.H, "CZ": ref.CZ, "CNOT": ref.CNOT, "SWAP": ref.SWAP, "CCX": ref.CCX}.items():
        if not close(getattr(Ops, n), m):
            R.bad(f"op {n}", f"{getattr(Ops, n)}")
        try:
            getattr(Ops, n)[0, 0] = 7
            R.bad(f"op {n} writable", "")
        except ValueError:
            pass
    for a in angs:
        R.state()
        for n, f in {"rx": ref.rx, "ry": ref.ry, "rz": ref.rz, "j": ref.jgate, "rzz": ref.rzz}.items():
            R.trans()
            if not phase_eq(getattr(Ops, n)(a), f(a)):
                R.bad(f"op {n} {a}", f"{getattr(Ops, n)(a)}")
    for n in (1, 2, 3):
        got = Ops.build_tensor_pauli_ops(n)
        for k, w in enumerate(itertools.product("IXYZ", repeat=n)):
            if not close(got[k], ref.pauli_string("".join(w))):
                R.bad(f"tensor {w}", "")
    for ax in Axis:
        if not close(Ops.from_axis(ax), P[ax.name]):
            R.bad(f"from_axis {ax}", "")
    for s in IXYZ_VALUES:
        if not close(Ops.from_ixyz(s), P[s.name]):
            R.bad(f"from_ixyz {s}", "")


def pm(R):
    all_pm = list(PauliMeasurement)
    if len(set(all_pm)) != 6:
        R.bad("iter", f"{all_pm}")
    for p in all_pm:
        R.state()
        m = bmat(p)
        if not close(bmat(-p), -m) or +p != p or not close(pmat(p.to_pauli()), m) or p.to_plane_or_axis() is not p.axis:
            R.bad(f"pm {p}", f"{-p} {p.to_pauli()}")
        b = p.to_bloch()
        if not close(bmat(b), m) or b.to_pauli_or_none() != p or p.to_pauli_or_none() is not p or p.to_pauli_or_bloch() != p:
            R.bad(f"to_bloch {p}", f"{b}")
        try:
            p.downcast_bloch()
            R.bad(f"downcast {p}", "accepted")
        except TypeError:
            pass
        for q in all_pm:
            if p.isclose(q) != (p == q) or (p == q) != close(bmat(p), bmat(q)):
                R.bad(f"pm isclose {p} {q}", "")
        if p.isclose(b) or b.isclose(p):
            R.bad(f"pm isclose bloch {p}", "")
        for c in CL:
            R.trans()
            got = p.clifford(c)
            if not close(bmat(got), c.matrix.conj().T @ m @ c.matrix):
                R.bad(f"pm clifford {p} {c}", f"{got}")
            if b.clifford(c).to_pauli_or_none() != got:
                R.bad(f"pm bloch clifford {p} {c}", f"{b.clifford(c)}")
            cm = command.M(3, p, s_domain={1}, t_domain={2}).clifford(c)
            check_cmd(R, p, c, cm)
    if not (Measurement.X == PauliMeasurement(Axis.X) and Measurement.Y == PauliMeasurement(Axis.Y) and Measurement.Z == PauliMeasurement(Axis.Z)):
        R.bad("names", "")


def check_cmd(R, meas, c, cm):
    """M^m X^s Z^t C with C pushed into the measurement: the observables of all four branches agree."""
    for s, t in itertools.product((0, 1), repeat=2):
        cor = np.linalg.matrix_power(ref.X, s) @ np.linalg.matrix_power(ref.Z, t)
        # original: C applied first, then the corrections (outcomes of nodes 1 and 2 are s and t), then the measurement
        u = cor @ c.matrix
        want = u.conj().T @ bmat(meas) @ u
        o = {1: s, 2: t}
        a, b = sum(o[v] for v in cm.s_domain) % 2, sum(o[v] for v in cm.t_domain) % 2
        u2 = np.linalg.matrix_power(ref.X, a) @ np.linalg.matrix_power(ref.Z, b)
        if cm.node != 3 or not close(u2.conj().T @ bmat(cm.measurement) @ u2, want):
            R.bad(f"M.clifford {meas!r} {c}", f"{cm} for outcomes s={s} t={t}")
            return


def bloch(R, ci, angs):
    c = CL[ci]
    m = c.matrix
    for pl, a in itertools.product(Plane, angs):
        b = BlochMeasurement(a, pl)
        R.state()
        R.trans()
        got = b.clifford(c)
        if not isinstance(got, BlochMeasurement) or not close(bmat(got), m.conj().T @ bmat(b) @ m):
            R.bad(f"bloch clifford {pl} {a} {c}", f"{got}")
        if got.plane is not pl.clifford(c):
            R.bad(f"bloch plane {pl} {a} {c}", f"{got}")
        if 0 <= a < 2 and not 0 <= got.angle < 2:
            R.bad(f"bloch range {pl} {a} {c}", f"{got}")
        check_cmd(R, b, c, command.M(3, b, s_domain={1}, t_domain={2}).clifford(c))
        if ci == 0:
            pi = b.to_pauli_or_none()
            want = float(2 * a).is_integer()
            if (pi is not None) != want or (pi is not None and not close(bmat(pi), bmat(b))):
                R.bad(f"to_pauli {b!r}", f"{pi}")
            if b.to_pauli_or_bloch() != (pi if want else b) or b.to_bloch() is not b or b.downcast_bloch() is not b or b.to_plane() is not pl or b.to_plane_or_axis() is not pl:
                R.bad(f"bloch queries {b!r}", "")
            if getattr(Measurement, pl.name)(a) != b:
                R.bad(f"constructor {b!r}", "")


def bloch2(R, ci, depth):
    """Applying Cliffords one after the other is applying their product."""
    for pl, a in itertools.product(Plane, (0, 0.5, 1.0, 1.5, 0.37, 1.63)):
        b = BlochMeasurement(a, pl)
        for ds in itertools.product(range(24), repeat=depth - 1):
            got, u = b.clifford(CL[ci]), CL[ci].matrix
            for d in ds:
                got, u = got.clifford(CL[d]), u @ CL[d].matrix
            R.trans()
            if not close(bmat(got), u.conj().T @ bmat(b) @ u) or not 0 <= got.angle < 2:
                R.bad(f"bloch composition {b!r} {ci} {ds}", f"{got}")
        R.state()


def tol(R):
    for pl in Plane:
        for k in range(-4, 9):
            base = k / 2
            for eps in (0.0, 1e-12, -1e-12, 1e-10, -1e-10, 1e-7, -1e-7, 1e-3, -1e-3, 0.1):
                b = BlochMeasurement(base + eps, pl)
                for kw in ({}, {"rel_tol": 1e-6}, {"abs_tol": 1e-6}, {"rel_tol": 0.0}, {"abs_tol": 0.01, "rel_tol": 0.0}):
                    got = b.to_pauli_or_none(**kw)
                    R.state()
                    R.trans()
                    # the stated tolerance is that of math.isclose on the angle, either in units of pi or of pi/2
                    rel, ab = kw.get("rel_tol", 1e-9), kw.get("abs_tol", 0.0)
                    d = abs(eps)
                    must = d == 0 or d < 0.4 * max(rel * abs(base), ab)
                    mustnot = d > 2.5 * max(rel * abs(base), ab) and d > 1e-15
                    if got is not None:
                        exact = BlochMeasurement(base, pl)
                        if mustnot or not close(bmat(got), bmat(exact)):
                            R.bad(f"tol {b!r} {kw}", f"inferred {got}")
                    elif must:
                        R.bad(f"tol {b!r} {kw}", "not inferred")
                    if b.to_pauli_or_bloch(**kw) != (b if got is None else got):
                        R.bad(f"tol or_bloch {b!r} {kw}", "")


def isclose(R):
    for (p1, p2), a, eps in itertools.product(itertools.product(Plane, repeat=2), (0.25, 1.0, 1.7), (0.0, 1e-12, 1e-6, 0.1)):
        for kw in ({}, {"rel_tol": 1e-5}, {"abs_tol": 1e-5}):
            R.state()
            x, y = BlochMeasurement(a, p1), BlochMeasurement(a + eps, p2)
            want = p1 is p2 and math.isclose(a, a + eps, rel_tol=kw.get("rel_tol", 1e-9), abs_tol=kw.get("abs_tol", 0.0))
            if x.isclose(y, **kw) != want or y.isclose(x, **kw) != want:
                R.bad(f"isclose {x!r} {y!r} {kw}", f"{x.isclose(y, **kw)}")
    for p in Plane:
        for q in [*Plane, *Axis]:
            if p.isclose(q) != (p is q):
                R.bad(f"plane isclose {p} {q}", "")


def work(task, R):
    kind = task[0]
    R.at(kind)
    R.show(str(task)[:200])
    {
        "table": lambda: table(R), "words": lambda: word_graph(R, task[1]), "domains": lambda: domains(R), "pauli": lambda: paulis(R),
        "unit": lambda: units(R), "plane": lambda: planes(R, task[1]), "ops": lambda: ops(R, task[1]), "frommatrix": lambda: frommatrix(R),
        "pm": lambda: pm(R), "bloch": lambda: bloch(R, task[1], task[2]), "bloch2": lambda: bloch2(R, task[1], task[2]), "tol": lambda: tol(R), "isclose": lambda: isclose(R),
    }[kind]()

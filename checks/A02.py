"""A02: GF(2) linear algebra is exact, for every matrix up to the stated size and every memory layout."""

import numpy as np
from graphix._linalg import MatGF2, solve_f2_linear_system

META = {
    "bounds": {
        "quick": "every matrix of every shape (m, n) with m, n <= 4 and m*n <= 12, plus 4x4 (zero-sized shapes included), each through every memory layout (C, Fortran, transposed, strided) and every ncols; "
        "every product of shapes with at most 12 entries in total; every row-echelon system with at most 4 rows and columns with every consistent right-hand side; structured square, wide and tall matrices of 7 to 129 rows (circulants, triangles, Pascal, blocks across byte and word borders)",
        "thorough": "every matrix up to 4x5, 5x4, 2x10, 10x2; products with at most 16 entries; row-echelon systems up to 5 columns; structured matrices up to 257 rows",
    },
    "assumptions": ["brute-force enumeration of row spans and kernels is the reference"],
}


def rows_of(i, m, n):
    return [(i >> (n * r)) & ((1 << n) - 1) for r in range(m)]


def arr(i, m, n):
    a = np.zeros((m, n), dtype=np.uint8)
    for r, row in enumerate(rows_of(i, m, n)):
        for c in range(n):
            a[r, c] = row >> c & 1
    return a


def span(rows):
    s = {0}
    for r in rows:
        s |= {x ^ r for x in s}
    return s


def ints(a):
    return [sum(int(v) << c for c, v in enumerate(row)) for row in np.asarray(a)]


def par(x):
    return x.bit_count() & 1


def layouts(a):
    """The same matrix in every memory layout a caller may hold it in."""
    m, n = a.shape
    yield "C", MatGF2(a)
    yield "F", MatGF2(np.asfortranarray(a))
    yield "T", MatGF2(np.ascontiguousarray(a.T)).T
    if m and n:
        big = np.ones((2 * m, 2 * n), dtype=np.uint8)
        big[::2, ::2] = a
        yield "strided", MatGF2(big, copy=False)[::2, ::2]


def shapes(tier):
    if tier == "quick":
        s = [(m, n) for m in range(5) for n in range(5) if m * n <= 12] + [(4, 4), (1, 6), (6, 1), (2, 5), (5, 2)]
    else:
        s = [(m, n) for m in range(11) for n in range(11) if m * n <= 20]
    return sorted(set(s), key=lambda t: (t[0] * t[1], t))


CH = 2048


def tasks(tier):
    for m, n in shapes(tier):
        for lo in range(0, 1 << (m * n), CH):
            yield ["mat", m, n, lo]
    lim = 12 if tier == "quick" else 16
    for m in range(5):
        for k in range(5):
            for n in range(5):
                if m * k + k * n <= lim:
                    yield ["mul", m, k, n]
    for m in range(5):
        for n in range(5 if tier == "quick" else 6):
            yield ["solve", m, n]
    yield ["new"]
    yield ["reject"]
    yield ["wide", tier]
    for n in (7, 8, 9, 16, 17, 33, 64, 65, 129) if tier == "quick" else (7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 257):
        yield ["big", n]


def is_ref(a, ncols, full):
    """(Reduced) row echelon form on the first ncols columns."""
    last, zero = -1, False
    for row in a[:, :ncols]:
        nz = np.flatnonzero(row)
        if len(nz) == 0:
            zero = True
            continue
        if zero or nz[0] <= last:
            return False
        last = nz[0]
        if full and a[:, last].sum() != 1:
            return False
    return True


def one(R, a, tag):
    m, n = a.shape
    rows = ints(a)
    sp = span(rows)
    rank = (len(sp)).bit_length() - 1
    kernel = {x for x in range(1 << n) if all(par(r & x) == 0 for r in rows)}
    for lay, mat in layouts(a):
        k = f"{tag}:{lay}"
        R.state()

        def kept(what, k=k, mat=mat):
            if not np.array_equal(mat, a):
                R.bad(f"{k}:{what}:mutated", f"{what} changed its operand {a.tolist()} ({lay})")

        r = mat.rank()
        R.trans()
        kept("rank")
        if int(r) != rank:
            R.bad(f"{k}:rank", f"rank of {a.tolist()} ({lay}) is {rank}, got {r}")
        ns = mat.null_space()
        R.trans()
        kept("null_space")
        if ns.shape != (n - rank, n) or set(span(ints(ns))) != kernel or not isinstance(ns, MatGF2):
            R.bad(f"{k}:null", f"null space of {a.tolist()} ({lay}): got {ns.tolist()} of shape {ns.shape}, expected dimension {n - rank}")
        ri = mat.right_inverse()
        R.trans()
        kept("right_inverse")
        if rank < m:
            if ri is not None:
                R.bad(f"{k}:rinv", f"{a.tolist()} ({lay}) has no right inverse, got {ri.tolist()}")
        elif ri is None or ri.shape != (n, m) or not np.array_equal(a.astype(int) @ np.asarray(ri).astype(int) % 2, np.eye(m, dtype=int)):
            R.bad(f"{k}:rinv", f"wrong right inverse of {a.tolist()} ({lay}): {None if ri is None else ri.tolist()}")
        for full in (False, True):
            f = MatGF2.row_reduction if full else MatGF2.gauss_elimination
            name = "row_reduction" if full else "gauss_elimination"
            for nc in [None, *range(n + 1)]:
                red = f(mat, ncols=nc)
                R.trans()
                kept(name)
                v = n if nc is None else nc
                if red.shape != (m, n) or span(ints(red)) != sp or not is_ref(np.asarray(red), v, full):
                    R.bad(f"{k}:{name}:{nc}", f"{name}(ncols={nc}) of {a.tolist()} ({lay}) gave {red.tolist()}")
                if lay == "C":
                    own = MatGF2(a)
                    got = f(own, ncols=nc, copy=False)
                    if not np.array_equal(own, red) or not np.array_equal(got, red):
                        R.bad(f"{k}:{name}:{nc}:inplace", f"{name}(ncols={nc}, copy=False) of {a.tolist()} left {own.tolist()} and returned {got.tolist()}")


def rref(a):
    """Reduced row echelon form, which is unique, with Python integers."""
    m, n = a.shape
    rows = ints(a)
    done = []
    for c in range(n):
        piv = next((r for r in rows if r >> c & 1), None)
        if piv is None:
            continue
        rows.remove(piv)
        rows = [r ^ piv if r >> c & 1 else r for r in rows]
        done = [r ^ piv if r >> c & 1 else r for r in done] + [piv]
    out = np.zeros((m, n), dtype=np.uint8)
    for i, r in enumerate(done):
        out[i] = [r >> c & 1 for c in range(n)]
    return out, len(done)


def families(n):
    """Large structured matrices: circulants, triangles, Pascal's triangle, permutations, small blocks across byte and word borders."""
    r, c = np.indices((n, n))
    for k in range(1, min(n, 6)):
        yield f"circulant{k}", ((c - r) % n == 0) | ((c - r) % n == k)
    yield "ones", np.ones((n, n), dtype=bool)
    yield "lower", r >= c
    yield "upper", r <= c
    yield "anti", r + c == n - 1
    yield "antitriangle", r + c >= n - 1
    yield "pascal", (r & c) == c
    yield "chess", (r + c) % 2 == 0
    yield "last", (r == c) & (r < n - 1)
    for at in sorted({0, 6, 7, 14, 15, 30, 31, 62, 63, 126, n - 3}):
        if 0 <= at <= n - 3:
            for blk in (0b111_110_100, 0b010_001_100, 0b110_011_101, 0b111_111_111, 0, 0b100_100_011):
                e = np.eye(n, dtype=bool)
                e[at : at + 3, at : at + 3] = np.array([blk >> i & 1 for i in range(9)], dtype=bool).reshape(3, 3)
                yield f"block{at}:{blk}", e
                yield f"block{at}:{blk}:rolled", np.roll(e, 1, axis=0)


def big(R, n):
    for name, sq in families(n):
        cut = n - n // 3
        for part, a in (("", sq), (":wide", sq[:cut]), (":tall", sq[:, :cut])):
            a = np.ascontiguousarray(a).astype(np.uint8)
            m, w = a.shape
            key = f"big{n}:{name}{part}"
            R.at(key)
            R.state()
            want, rank = rref(a)
            for lay, mat in list(layouts(a))[:2]:
                R.trans(6)
                k = f"{key}:{lay}"
                if int(mat.rank()) != rank:
                    R.bad(k + ":rank", f"rank of {k}: {mat.rank()} instead of {rank}")
                if not np.array_equal(mat.row_reduction(), want):
                    R.bad(k + ":rref", f"wrong reduced echelon form of {k}")
                half = mat.row_reduction(ncols=w // 2)
                if not is_ref(np.asarray(half), w // 2, True) or not np.array_equal(rref(np.asarray(half))[0], want):
                    R.bad(k + ":rrefhalf", f"wrong reduction of {k} on its first {w // 2} columns")
                ge = mat.gauss_elimination()
                if not is_ref(np.asarray(ge), w, False) or not np.array_equal(rref(np.asarray(ge))[0], want):
                    R.bad(k + ":ge", f"wrong echelon form of {k}")
                ns = np.asarray(mat.null_space())
                if ns.shape != (w - rank, w) or (a.astype(int) @ ns.T.astype(int) % 2).any() or rref(ns)[1] != w - rank:
                    R.bad(k + ":null", f"wrong null space of {k}")
                ri = mat.right_inverse()
                if (ri is None) != (rank < m) or (ri is not None and not np.array_equal(a.astype(int) @ np.asarray(ri).astype(int) % 2, np.eye(m, dtype=int))):
                    R.bad(k + ":rinv", f"wrong right inverse of {k}")
                other = np.ascontiguousarray((sq[:, ::-1] ^ np.roll(sq, 2, axis=1))[:w]).astype(np.uint8)
                if not np.array_equal(mat.mat_mul(MatGF2(other)), a.astype(int) @ other.astype(int) % 2):
                    R.bad(k + ":mul", f"wrong product of {k}")
                if not np.array_equal(mat, a):
                    R.bad(k + ":mutated", f"{k} was changed")
                for v in range(3):
                    x0 = (np.arange(w) % (v + 2) == 0).astype(int)
                    for sysm in (want[:rank] if v else want, np.asarray(ge)):
                        b = sysm.astype(int) @ x0 % 2
                        x = solve_f2_linear_system(MatGF2(sysm), MatGF2(b))
                        R.trans()
                        if x.shape != (w,) or not np.array_equal(sysm.astype(int) @ np.asarray(x).astype(int) % 2, b):
                            R.bad(k + f":solve{v}", f"wrong solution of a system from {k}")
    R.trace()
    R.outcome(("big", n))


def ref_mats(m, n):
    """Every matrix in row echelon form."""

    def rec(r, start):
        if r == m:
            yield []
            return
        yield [0] * (m - r)
        for p in range(start, n):
            for rest in range(1 << (n - p - 1)):
                row = (1 << p) | (rest << (p + 1))
                for tail in rec(r + 1, p + 1):
                    yield [row, *tail]

    yield from rec(0, 0)


def work(task, R):
    kind = task[0]
    if kind == "mat":
        _, m, n, lo = task
        for i in range(lo, min(lo + CH, 1 << (m * n))):
            R.at(f"{m}x{n}:{i}")
            one(R, arr(i, m, n), f"{m}x{n}:{i}")
        R.trace()
        R.outcome((m, n))
        R.show(arr(lo, m, n).tolist())
    elif kind == "mul":
        _, m, k, n = task
        for i in range(1 << (m * k)):
            a = arr(i, m, k)
            la = list(layouts(a))
            for j in range(1 << (k * n)):
                b = arr(j, k, n)
                want = a.astype(int) @ b.astype(int) % 2
                R.at(f"mul {m}x{k}:{i} {k}x{n}:{j}")
                R.state()
                for (x, ma), (y, mb) in zip(la, layouts(b), strict=False):
                    got = ma.mat_mul(mb)
                    R.trans()
                    if got.shape != (m, n) or not np.array_equal(got, want) or not np.array_equal(ma, a) or not np.array_equal(mb, b) or not isinstance(got, MatGF2):
                        R.bad(f"mul:{m}{k}{n}:{i}:{j}:{x}{y}", f"{a.tolist()} @ {b.tolist()} ({x}, {y}) = {want.tolist()}, got {got.tolist()}")
        R.trace()
    elif kind == "solve":
        _, m, n = task
        for rows in ref_mats(m, n):
            a = np.array([[r >> c & 1 for c in range(n)] for r in rows], dtype=np.uint8).reshape(m, n)
            for bb in range(1 << m):
                R.at(f"solve {rows} {bb}")
                b = np.array([bb >> r & 1 for r in range(m)], dtype=np.uint8)
                if any(rows[r] == 0 and b[r] for r in range(m)):
                    continue  # inconsistent: excluded by the documented precondition
                R.state()
                for lay, mat in layouts(a):
                    R.trans()
                    vec = MatGF2(b)
                    x = solve_f2_linear_system(mat, vec)
                    if x.shape != (n,) or not np.array_equal(a.astype(int) @ np.asarray(x).astype(int) % 2, b):
                        R.bad(f"solve:{m}x{n}:{rows}:{bb}:{lay}", f"solution of {a.tolist()} x = {b.tolist()} ({lay}): got {x.tolist()}")
                    if not np.array_equal(mat, a) or not np.array_equal(vec, b):
                        R.bad(f"solve:{m}x{n}:{rows}:{bb}:{lay}:mut", "solve_f2_linear_system changed its operands")
        R.trace()
    elif kind == "new":
        for m in range(4):
            for n in range(4):
                for i in range(min(1 << (m * n), 64)):
                    a = arr(i, m, n)
                    R.state()
                    R.at(f"new {m}x{n}:{i}")
                    for src in (a, a.tolist() if m and n else a, np.asfortranarray(a), a.astype(bool), a.astype(int)):
                        mat = MatGF2(src)
                        R.trans()
                        if not np.array_equal(mat, a) or mat.dtype != np.uint8 or mat.shape != (m, n):
                            R.bad(f"new:{m}x{n}:{i}", f"MatGF2({src!r}) is {mat!r}")
                        if mat.size and isinstance(src, np.ndarray):
                            mat[0, 0] ^= 1
                            if int(src[0, 0]) != int(a[0, 0]):
                                R.bad(f"new:{m}x{n}:{i}:alias", f"MatGF2({src!r}) shares memory with its argument")
                                src[0, 0] = a[0, 0]
        R.trace()
    elif kind == "reject":
        for m, k, l, n in [(2, 3, 2, 2), (1, 2, 1, 2), (3, 3, 2, 3), (2, 2, 3, 1)]:
            R.state()
            R.trans()
            try:
                MatGF2(np.ones((m, k))).mat_mul(MatGF2(np.ones((l, n))))
                R.bad(f"reject:{m}{k}{l}{n}", "product of matrices with mismatched dimensions was accepted")
            except ValueError:
                pass
        R.state()
        for x, y in [(np.ones(2), np.ones((2, 2))), (np.ones((2, 2)), np.ones(2))]:
            try:
                MatGF2(x).mat_mul(MatGF2(y))
                R.bad("reject:vec", "one-dimensional operand was accepted")
            except ValueError:
                pass
    elif kind == "big":
        big(R, task[1])
    elif kind == "wide":
        # Structured wide and tall matrices: every pair of rows/columns patterns beyond the exhaustive sizes.
        for m, n in [(2, 70), (3, 65), (70, 2), (65, 3), (9, 9)]:
            for p in range(8):
                a = np.fromfunction(lambda r, c, p=p: ((r * (p + 1) + c * c + r * c * p) % (p + 2) == 0), (m, n)).astype(np.uint8)
                R.at(f"wide {m}x{n}:{p}")
                R.state()
                rows = ints(a)
                basis = []
                for r in rows:
                    for b in basis:
                        r = min(r, r ^ b)
                    if r:
                        basis.append(r)
                for lay, mat in layouts(a):
                    R.trans()
                    if int(mat.rank()) != len(basis):
                        R.bad(f"wide:{m}x{n}:{p}:{lay}:rank", "wrong rank")
                    ns = mat.null_space()
                    if ns.shape[0] != n - len(basis) or (a.astype(int) @ np.asarray(ns).T.astype(int) % 2).any() or int(MatGF2(ns).rank()) != ns.shape[0]:
                        R.bad(f"wide:{m}x{n}:{p}:{lay}:null", "wrong null space")
                    ri = mat.right_inverse()
                    if (ri is None) != (len(basis) < m) or (ri is not None and not np.array_equal(a.astype(int) @ np.asarray(ri).astype(int) % 2, np.eye(m))):
                        R.bad(f"wide:{m}x{n}:{p}:{lay}:rinv", "wrong right inverse")
        R.trace()

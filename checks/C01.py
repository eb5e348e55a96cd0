"""C01: transpiled patterns implement the circuit, on every measurement branch."""

import numpy as np
from graphix import Pattern  # noqa: F401

from mc import circ, ref

META = {
    "bounds": {
        "quick": "1 qubit: all words <=3 over the 13-letter gate set, plus all words <=2 with 9 special angles; "
        "2 qubits: all words <=2 over the 34-letter set, all words =3 over a 13-letter set, =4 over {H0,CNOT,SWAP,M}; "
        "3 qubits: words =2 over a 25-letter set; CCX words with <=2 non-zero outcomes; every branch up to 9 measurements, above that every branch with <= 2 non-zero inner outcomes",
        "thorough": "quick plus 1 qubit words =4; 2 qubits words =3 over the full set and =4 over the 13-letter set; "
        "3 qubits words =3 over a 25-letter set",
    },
    "assumptions": ["angles outside the alphabet behave like the generic one", "numpy arithmetic to 1e-7"],
}

FULL = 9  # up to this many measurements, every branch; above, every branch with at most two non-zero outcomes
ANGLES = [0, 0.5, 1, 1.5, -0.5, 2, 3.7, -0.13, 0.25]


def spaces(tier):
    full1 = list(circ.singles(1)) + list(circ.measures(1))
    for ln in (0, 1, 2, 3):
        yield "1q", 1, full1, ln, None
    ang = [[k, 0, a] for k in ("RX", "RY", "RZ", "J") for a in ANGLES]
    yield "ang", 1, ang, 1, None
    yield "ang", 1, ang, 2, None
    full2 = list(circ.singles(2)) + list(circ.doubles(2)) + list(circ.measures(2))
    yield "2q", 2, full2, 1, None
    yield "2q", 2, full2, 2, None
    mid2 = [["H", 0], ["S", 1], ["Y", 0], ["RX", 1, circ.G], ["RY", 0, circ.G], ["CNOT", 0, 1], ["CNOT", 1, 0], ["CZ", 0, 1],
            ["SWAP", 0, 1], ["RZZ", 0, 1, circ.G2], ["M", 0, "X"], ["M", 1, "Y"], ["I", 0]]
    yield "2q", 2, mid2, 3, None
    sw2 = [["J", 0, circ.G], ["CNOT", 0, 1], ["SWAP", 0, 1], ["M", 0, "Z"], ["M", 1, "X"]]
    yield "2q", 2, sw2, 4, None
    mid3 = [["H", 0], ["J", 1, circ.G], ["RZ", 2, circ.G2], ["CNOT", 0, 1], ["CNOT", 2, 0], ["CNOT", 1, 2], ["CZ", 0, 1], ["CZ", 1, 2],
            ["CZ", 2, 0], ["SWAP", 0, 1], ["SWAP", 1, 2], ["SWAP", 0, 2], ["RZZ", 0, 2, circ.G2], ["M", 0, "X"], ["M", 1, "Y"],
            ["M", 2, "Z"], ["M", 0, "Z"], ["I", 1], ["I", 2]]
    yield "3q", 3, mid3, 2, None
    sw3 = [["CNOT", 0, 1], ["SWAP", 0, 1], ["SWAP", 1, 2], ["J", 1, circ.G], ["M", 0, "Z"], ["M", 1, "X"], ["M", 2, "Y"]]
    yield "3q", 3, sw3, 4, None
    ccx = [["CCX", 0, 1, 2], ["CCX", 2, 0, 1], ["CCX", 1, 2, 0]]
    pre = [[], ["H", 0], ["CZ", 2, 0], ["SWAP", 0, 2], ["J", 1, circ.G], ["M", 0, "Y"], ["RY", 2, circ.G]]
    yield "ccx", 3, (pre, ccx), -1, None
    if tier == "thorough":
        yield "1q", 1, full1, 4, None
        yield "2q", 2, full2, 3, None
        yield "2q", 2, mid2, 4, None
        yield "3q", 3, mid3, 3, None
        yield "2q", 2, sw2, 6, None
        yield "3q", 3, sw3, 5, None


def tasks(tier):
    chunk = []
    for _name, n, alpha, ln, dev in spaces(tier):
        if ln == -1:
            pre, ccx = alpha
            it = (
                [x for x in (a, c, b) if x]
                for c in ccx
                for a in pre
                for b in pre
                if circ.legal([x for x in (a, c, b) if x])
            )
        else:
            it = circ.words(alpha, ln)
        for w in it:
            chunk.append([n, w, dev])
            if len(chunk) == 24:
                yield chunk
                chunk = []
    if chunk:
        yield chunk


def check_transpiled(res, n, gates, refst, R, key, dev):
    pat, cl = res.pattern, tuple(res.classical_outputs)
    nm = sum(1 for g in gates if g[0] == "M")
    if len(cl) != nm:
        R.bad(key, f"{len(cl)} classical outputs for {nm} measurements: {circ.show(gates)}")
        return
    if len(pat.input_nodes) != n:
        R.bad(key, f"pattern has {len(pat.input_nodes)} inputs: {circ.show(gates)}")
        return
    pat.check_runnability()
    if dev is None and sum(1 for cmd in pat if cmd.kind.name == "M") > FULL:
        dev = 2
    R.count("circuits_all_branches" if dev is None else "circuits_branches_up_to_2_ones")
    st = ref.run_pattern(pat, max_ones=dev, free=set(cl)) if dev is not None else ref.run_pattern(pat)
    R.trans(st.steps)
    R.state(st.nb)
    R.trace()
    if len(pat.output_nodes) != n - nm or set(pat.output_nodes) != set(st.axes):
        R.bad(key, f"output nodes {pat.output_nodes} for {circ.show(gates)}")
        return
    rows = st.kraus(pat.output_nodes)
    live = sorted(refst.axes)
    rref = refst.kraus(live)
    ridx = np.zeros(refst.nb, dtype=int)
    for i in range(nm):
        ridx = ridx * 2 + refst.outcomes["c", i]
    idx = np.zeros(st.nb, dtype=int)
    for lab in cl:
        if lab not in st.outcomes:
            R.bad(key, f"classical output {lab} is not measured: {circ.show(gates)}")
            return
        idx = idx * 2 + st.outcomes[lab]
    inner = len(st.outcomes) - nm
    want = np.zeros((2**nm, rref.shape[1]), dtype=complex)
    want[ridx] = rref
    target = want[idx]
    scale = 2.0 ** (-inner / 2)
    nr = np.linalg.norm(rows, axis=1)
    nt = np.linalg.norm(target, axis=1) * scale
    ov = np.abs(np.einsum("ij,ij->i", rows.conj(), target)) * scale
    if np.max(np.abs(nr - nt)) > 1e-7 or np.max(np.abs(ov - nr * nt)) > 1e-7:
        b = int(np.argmax(np.abs(nr - nt) + np.abs(ov - nr * nt)))
        branch = {str(k): int(v[b]) for k, v in st.outcomes.items()}
        R.bad(key, f"branch {branch} of the pattern does not implement {circ.show(gates)} (pattern {list(pat)})")
    R.outcome((inner, nm, len(live)))


def work(task, R):
    for n, gates, dev in task:
        key = f"{n}q {circ.show(gates)}"
        R.at(key)
        c = circ.build(n, gates)
        before = repr(c)
        refst = ref.run_circuit(n, c.instruction)
        variants = [("transpile", lambda: c.transpile())]
        if any(g[0] == "SWAP" for g in gates):
            variants.append(("noswap", lambda: c.transpile(transpile_swaps=False)))
        if all(g[0] != "SWAP" for g in gates):
            variants.append(("flow", lambda: _flow(c, R, key)))
        for name, f in variants:
            R.at(f"{name}: {key}")
            check_transpiled(f(), n, gates, refst, R, f"{name}: {key}", dev)
        if repr(c) != before:
            R.bad(f"mutated: {key}", f"transpile() changed the circuit {before}")
        R.show(key)


def _flow(c, R, key):
    tf = c.transpile_to_causalflow()
    tf.flow.check_well_formed()
    return tf.to_pattern()

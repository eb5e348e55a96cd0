"""A small OpenQASM 3 interpreter (the subset with qubits, bits, standard gates, measurements and conditions on bits).

Gate meanings are those of stdgates.inc, written independently of graphix.
"""

from __future__ import annotations

import math
import re

import numpy as np

from . import ref


class QasmError(Exception):
    """The text is not a legal program of the subset."""


def phase(a):
    return np.diag([1, np.exp(1j * a)])


def controlled(u):
    n = u.shape[0]
    m = np.eye(2 * n, dtype=complex)
    m[n:, n:] = u
    return m


SX = np.array([[1 + 1j, 1 - 1j], [1 - 1j, 1 + 1j]]) / 2
GATES = {
    "id": (1, 0, lambda: np.eye(2)),
    "x": (1, 0, lambda: ref.X),
    "y": (1, 0, lambda: ref.Y),
    "z": (1, 0, lambda: ref.Z),
    "h": (1, 0, lambda: ref.H),
    "s": (1, 0, lambda: phase(math.pi / 2)),
    "sdg": (1, 0, lambda: phase(-math.pi / 2)),
    "t": (1, 0, lambda: phase(math.pi / 4)),
    "tdg": (1, 0, lambda: phase(-math.pi / 4)),
    "sx": (1, 0, lambda: SX),
    "p": (1, 1, phase),
    "rx": (1, 1, lambda a: ref.rx(a / math.pi)),
    "ry": (1, 1, lambda a: ref.ry(a / math.pi)),
    "rz": (1, 1, lambda a: ref.rz(a / math.pi)),
    "cx": (2, 0, lambda: controlled(ref.X)),
    "cy": (2, 0, lambda: controlled(ref.Y)),
    "cz": (2, 0, lambda: controlled(ref.Z)),
    "ch": (2, 0, lambda: controlled(ref.H)),
    "cp": (2, 1, lambda a: controlled(phase(a))),
    "crx": (2, 1, lambda a: controlled(ref.rx(a / math.pi))),
    "cry": (2, 1, lambda a: controlled(ref.ry(a / math.pi))),
    "crz": (2, 1, lambda a: controlled(ref.rz(a / math.pi))),
    "swap": (2, 0, lambda: ref.SWAP),
    "ccx": (3, 0, lambda: controlled(controlled(ref.X))),
    "cswap": (3, 0, lambda: controlled(ref.SWAP)),
}
NAME = r"[A-Za-z_][A-Za-z0-9_]*"
TOKEN = re.compile(r"\s*(?:(\d+\.\d*(?:[eE][+-]?\d+)?|\.\d+(?:[eE][+-]?\d+)?|\d+[eE][+-]?\d+|\d+)|(pi|π)|([-+*/()]))")


def number(text):
    """Value of a constant expression."""
    toks, pos = [], 0
    text = text.strip()
    while pos < len(text):
        m = TOKEN.match(text, pos)
        if not m:
            raise QasmError(f"expression {text!r}")
        toks.append(m.group(1) or ("pi" if m.group(2) else m.group(3)))
        pos = m.end()
    toks.append("")
    i = 0

    def eat(t=None):
        nonlocal i
        if t is not None and toks[i] != t:
            raise QasmError(f"expression {text!r}")
        i += 1
        return toks[i - 1]

    def atom():
        t = toks[i]
        if t == "(":
            eat()
            v = total()
            eat(")")
            return v
        if t == "-":
            eat()
            return -atom()
        if t == "pi":
            eat()
            return math.pi
        if t == "" or t in "+*/)":
            raise QasmError(f"expression {text!r}")
        eat()
        return float(t)

    def product():
        v = atom()
        while toks[i] in ("*", "/"):
            v = v * atom() if eat() == "*" else v / atom()
        return v

    def total():
        v = product()
        while toks[i] in ("+", "-"):
            v = v + product() if eat() == "+" else v - product()
        return v

    v = total()
    eat("")
    return v


def split(program):
    """Statements of the program; an if statement is (condition, [statements])."""
    text = re.sub(r"//[^\n]*", "", program)
    text = re.sub(r"/\*.*?\*/", "", text, flags=re.S)
    out, stack, pos = [], [], 0
    cur = out
    while pos < len(text):
        if text[pos].isspace():
            pos += 1
            continue
        m = re.compile(r"if\s*\(([^{};]*)\)\s*\{").match(text, pos)
        if m:
            block = []
            cur.append((m.group(1), block))
            stack.append(cur)
            cur = block
            pos = m.end()
            continue
        if text[pos] == "}":
            if not stack:
                raise QasmError("unbalanced }")
            cur = stack.pop()
            pos += 1
            continue
        end = text.find(";", pos)
        if end < 0:
            raise QasmError(f"missing ; after {text[pos:pos + 40]!r}")
        stmt = text[pos:end].strip()
        if "{" in stmt or "}" in stmt:
            raise QasmError(f"statement {stmt!r}")
        cur.append(stmt)
        pos = end + 1
    if stack:
        raise QasmError("missing }")
    return out


class Program:
    """Executed program: ``state`` is the BranchState; qubits are named like ``q3`` or ``q[3]``, outcomes by bit name."""

    def __init__(self, text, inputs=(), free=None, gates=None):
        """``inputs``: names of the qubits whose initial state is open; others start in |0>."""
        self.gates = GATES if gates is None else gates
        self.state = ref.BranchState(list(inputs))
        self.open = set(inputs)
        self.qubits, self.regs, self.bits, self.bitregs = set(), {}, set(), {}
        self.measured = {}
        self.names = []
        self.used = []
        stmts = split(text)
        if not stmts or not re.fullmatch(r"OPENQASM\s+3(\.\d+)?", stmts[0] if isinstance(stmts[0], str) else ""):
            raise QasmError("the version line is missing")
        self.std = False
        for s in stmts[1:]:
            self.execute(s, None)
        undeclared = self.open - self.qubits
        if undeclared:
            raise QasmError(f"qubits {sorted(undeclared)} are not declared")

    def declare(self, name):
        if name in self.qubits or name in self.bits or name in self.regs or name in self.bitregs:
            raise QasmError(f"{name} is declared twice")

    def new_qubit(self, name):
        self.qubits.add(name)
        self.names.append(name)
        if name not in self.open:
            self.state.add(name, np.array([1, 0], dtype=complex))

    def condition(self, text):
        terms = [t.strip() for t in text.split("^")]
        for t in terms:
            if t not in self.bits and not self.in_register(t):
                raise QasmError(f"condition on {t!r}, which is not declared")
            if t not in self.state.outcomes:
                raise QasmError(f"condition on {t!r} before it is measured")
        return self.state.parity(terms) == 1

    def in_register(self, t):
        m = re.fullmatch(rf"({NAME})\[(\d+)\]", t)
        return bool(m) and m.group(1) in self.bitregs and int(m.group(2)) < self.bitregs[m.group(1)]

    def qubit(self, t):
        t = t.strip()
        if t not in self.qubits:
            raise QasmError(f"qubit {t!r} is not declared")
        if t in self.measured:
            raise QasmError(f"qubit {t!r} is used after its measurement")
        return t

    def execute(self, s, mask):
        if isinstance(s, tuple):
            m = self.condition(s[0])
            for x in s[1]:
                self.execute(x, m if mask is None else mask & m)
            return
        if s == 'include "stdgates.inc"':
            self.std = True
            return
        m = re.fullmatch(rf"(qubit|bit)(?:\[(\d+)\])?\s+({NAME})", s)
        if m:
            if mask is not None:
                raise QasmError("declaration inside a condition")
            kind, size, name = m.groups()
            self.declare(name)
            if size is None:
                if kind == "qubit":
                    self.new_qubit(name)
                else:
                    self.bits.add(name)
            elif kind == "qubit":
                if int(size) < 1:
                    raise QasmError("a register needs a positive size")
                self.regs[name] = int(size)
                for k in range(int(size)):
                    self.new_qubit(f"{name}[{k}]")
            else:
                if int(size) < 1:
                    raise QasmError("a register needs a positive size")
                self.bitregs[name] = int(size)
            return
        m = re.fullmatch(rf"({NAME}(?:\[\d+\])?)\s*=\s*measure\s+({NAME}(?:\[\d+\])?)", s)
        if m:
            if mask is not None:
                raise QasmError("measurement inside a condition")
            bit, q = m.groups()
            if bit not in self.bits and not self.in_register(bit):
                raise QasmError(f"bit {bit!r} is not declared")
            q = self.qubit(q)
            if bit in self.state.outcomes:
                raise QasmError(f"bit {bit} is assigned twice")
            self.state.measure(q, (0, 0, 1), label=bit)
            self.measured[q] = bit
            return
        m = re.fullmatch(rf"({NAME})\s*(?:\((.*)\))?\s+(.*)", s, flags=re.S)
        if not m:
            raise QasmError(f"statement {s!r}")
        name, args, operands = m.groups()
        if name not in self.gates or not self.std:
            raise QasmError(f"gate {name!r} is not in stdgates.inc")
        nq, na, f = self.gates[name]
        qs = [self.qubit(t) for t in operands.split(",")]
        vals = [number(a) for a in args.split(",")] if args is not None else []
        if len(qs) != nq or len(set(qs)) != nq or len(vals) != na:
            raise QasmError(f"operands of {s!r}")
        self.used.append(name)
        self.state.gate(np.asarray(f(*vals)), qs, mask)

"""Reader of printed mathematics: ASCII, Unicode and LaTeX text of angles, complex numbers and linear combinations of kets.

Products may be implicit and associate to the left with the same precedence as division, as one reads ``i*pi/3`` or
``1/4i``. Values are complex numbers, or dictionaries from ket labels to amplitudes.
"""

from __future__ import annotations

import cmath
import math
import re

TOKEN = re.compile(
    r"\s*(?:(?P<num>\d+(?:\.\d+)?(?:e[+-]\d+)?)|(?P<ket>\|[01]*[>⟩]|\\ket\{[01]*\})|(?P<frac>\\frac)|(?P<sqrt>\\sqrt|sqrt|√)"
    r"|(?P<pi>\\pi|π|pi)|(?P<i>\\mathrm\{i\}|i)|(?P<e>\\mathrm\{e\}|e)|(?P<mul>\\times|×|·|\*)|(?P<name>[a-z]+)|(?P<op>[-+/^(){}]))"
)


class Unreadable(Exception):
    pass


def tokens(text):
    pos, out = 0, []
    text = text.rstrip()
    while pos < len(text):
        m = TOKEN.match(text, pos)
        if not m:
            raise Unreadable(text[pos:])
        out.append((m.lastgroup, m.group(m.lastgroup)))
        pos = m.end()
    return out


def scale(x, y):
    if isinstance(x, dict):
        x, y = y, x
    if isinstance(x, dict):
        raise Unreadable("product of kets")
    if isinstance(y, dict):
        return {k: x * v for k, v in y.items()}
    return x * y


def add(x, y):
    if isinstance(x, dict) != isinstance(y, dict):
        raise Unreadable("a number added to kets")
    if isinstance(x, dict):
        out = dict(x)
        for k, v in y.items():
            if k in out:
                raise Unreadable("ket repeated")
            out[k] = v
        return out
    return x + y


class Reader:
    def __init__(self, text, names=None):
        self.toks = tokens(text)
        self.pos = 0
        self.names = names or {}
        self.decimal = False

    def peek(self):
        return self.toks[self.pos] if self.pos < len(self.toks) else (None, None)

    def next(self):
        t = self.peek()
        self.pos += 1
        return t

    def expect(self, op):
        if self.next() != ("op", op):
            raise Unreadable(f"{op} expected")

    def read(self):
        x = self.sum()
        if self.pos != len(self.toks):
            raise Unreadable(f"text left: {self.toks[self.pos:]}")
        return x

    def sum(self):
        x = self.signed()
        while self.peek() in (("op", "+"), ("op", "-")):
            s = 1 if self.next()[1] == "+" else -1
            x = add(x, scale(s, self.signed()))
        return x

    def signed(self):
        if self.peek() == ("op", "-"):
            self.next()
            return scale(-1, self.product())
        return self.product()

    def product(self):
        x = self.factor()
        while True:
            kind, val = self.peek()
            if kind == "mul":
                self.next()
                x = scale(x, self.factor())
            elif (kind, val) == ("op", "/"):
                self.next()
                x = scale(x, 1 / self.factor())
            elif kind in ("num", "ket", "frac", "sqrt", "pi", "i", "e", "name") or (kind, val) == ("op", "("):
                x = scale(x, self.factor())
            else:
                return x

    def braces(self):
        self.expect("{")
        x = self.sum()
        self.expect("}")
        return x

    def factor(self):
        kind, val = self.next()
        if kind == "num":
            if "." in val or "e" in val:
                self.decimal = True
            return float(val)
        if kind == "ket":
            return {val.strip("|>⟩") if val[0] == "|" else val[5:-1]: 1.0}
        if kind == "frac":
            a = self.braces()
            return scale(a, 1 / self.braces())
        if kind == "sqrt":
            if val == "\\sqrt":
                return math.sqrt(self.braces())
            if self.peek() == ("op", "("):
                self.next()
                x = self.sum()
                self.expect(")")
                return math.sqrt(x)
            return math.sqrt(self.factor())
        if kind == "pi":
            return math.pi
        if kind == "i":
            return 1j
        if kind == "e":
            self.expect("^")
            if self.peek() == ("op", "{"):
                return cmath.exp(self.braces())
            self.expect("(")
            x = self.sum()
            self.expect(")")
            return cmath.exp(x)
        if kind == "name" and val in self.names:
            return self.names[val]
        if (kind, val) == ("op", "("):
            x = self.sum()
            self.expect(")")
            return x
        raise Unreadable(f"unexpected {val}")


def read(text, names=None):
    """Value of the text and whether some number in it is a decimal."""
    r = Reader(text, names)
    return r.read(), r.decimal

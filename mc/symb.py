"""A small symbolic expression class implementing the library's expression interface with trigonometry.

The library only ships affine placeholders; expressions with trigonometry are an extension point that
the symbolic density-matrix simulation is documented to support. An expression here is a closure over
the parameters, built operation by operation, so that whatever the library does to it can be evaluated.
"""

import cmath
import numbers
import operator

import numpy as np
from graphix.parameter import Expression, ExpressionWithTrigonometry, Parameter


class Expr(ExpressionWithTrigonometry):
    """A node of an expression graph: ``f`` combines the values of ``args``; ``free`` lists the parameters.

    Values are cached per environment, since the expressions built by a simulation share most of their nodes.
    """

    def __init__(self, f, args=(), free=None):
        self.f = f
        self.args = args
        self.free = frozenset(free) if free is not None else frozenset().union(*(a.free for a in args))
        self.cache = {}

    def at(self, env):
        """Value in ``env``, a tuple of (parameter, number)."""
        v = self.cache.get(env)
        if v is None:
            v = self.cache[env] = self.f(env, *(a.at(env) for a in self.args))
        return v

    @staticmethod
    def lift(x):
        if isinstance(x, Expr):
            return x
        if isinstance(x, (numbers.Number, np.number)):
            c = complex(x)
            return Expr(lambda env: c)
        return None

    def binary(self, op, other, swap=False):
        o = Expr.lift(other)
        if o is None:
            return NotImplemented
        return Expr(lambda env, a, b: op(a, b), (o, self) if swap else (self, o))

    def unary(self, op):
        return Expr(lambda env, a: op(a), (self,))

    def __mul__(self, o):
        return self.binary(operator.mul, o)

    def __rmul__(self, o):
        return self.binary(operator.mul, o, True)

    def __add__(self, o):
        return self.binary(operator.add, o)

    def __radd__(self, o):
        return self.binary(operator.add, o, True)

    def __sub__(self, o):
        return self.binary(operator.sub, o)

    def __rsub__(self, o):
        return self.binary(operator.sub, o, True)

    def __truediv__(self, o):
        return self.binary(operator.truediv, o)

    def __rtruediv__(self, o):
        return self.binary(operator.truediv, o, True)

    def __pow__(self, o):
        return self.binary(operator.pow, o)

    def __neg__(self):
        return self.unary(operator.neg)

    def __abs__(self):
        return self.unary(abs)

    def conjugate(self):
        return self.unary(lambda z: complex(z).conjugate())

    def sqrt(self):
        return self.unary(cmath.sqrt)

    @property
    def real(self):
        return self.unary(lambda z: complex(z).real)

    @property
    def imag(self):
        return self.unary(lambda z: complex(z).imag)

    def cos(self):
        return self.unary(cmath.cos)

    def sin(self):
        return self.unary(cmath.sin)

    def exp(self):
        return self.unary(cmath.exp)

    def with_parameters(self, assignment):
        vals = {p: Expr.lift(assignment.get(p, p)) for p in sorted(self.free, key=id)}
        free = frozenset().union(*(e.free for e in vals.values()))
        bind = lambda env: tuple((p, e.at(env)) for p, e in vals.items())
        out = Expr(lambda env: self.at(bind(env)), (), free)
        return out if free else complex(out.at(()))

    def with_parameter(self, variable, substitute):
        return self.with_parameters({variable: substitute})


class Var(Expr, Parameter):
    def __init__(self, name):
        self.name = name
        super().__init__(lambda env: complex(dict(env)[self]), (), (self,))

    def __hash__(self):
        return id(self)

    def __eq__(self, other):
        return self is other

    def __repr__(self):
        return self.name


assert issubclass(Expr, Expression)

"""Analytic fields (sums of plane waves) at 50 digits: exact values, derivatives and shifted values."""
import mpmath
import sympy
from sympy.core.function import AppliedUndef

from .series import Uninterpretable
from .world import unit_hash

mpmath.mp.dps = 50


class Waves:
    """f(x, y, ..) = c + sum_j a_j sin(k_j . x + p_j), chosen by a hash of the name"""

    def __init__(self, name, n, seed, waves=3):
        h = lambda *k: mpmath.mpf(unit_hash(seed, name, n, *k))
        self.c = mpmath.mpf(1.5) + h('c')
        self.a = [0.2 + 0.4 * h('a', j) for j in range(waves)]
        self.k = [[(0.5 + 1.2 * h('k', j, i)) * (1 if unit_hash(seed, 's', j, i) > .5 else -1) for i in range(n)]
                  for j in range(waves)]
        self.p = [6 * h('p', j) for j in range(waves)]

    def __call__(self, xs, orders=None):
        orders = orders or [0] * len(xs)
        tot = self.c if not any(orders) else mpmath.mpf(0)
        m = sum(orders)
        for a, k, p in zip(self.a, self.k, self.p):
            arg = p + sum((ki * xi for ki, xi in zip(k, xs)), mpmath.mpf(0))
            f = a
            for ki, o in zip(k, orders):
                f = f * ki ** o
            tot += f * mpmath.sin(arg + m * mpmath.pi / 2)
        return tot


class Exact:
    """interprets an expression at a point, fields being Waves"""

    def __init__(self, point, seed):
        self.point = {k: mpmath.mpf(v) for k, v in point.items()}
        self.seed = seed
        self.fields = {}
        self.values = {}
        self.used = 0

    def field(self, f):
        key = (str(f.func), len(f.args))
        if key not in self.fields:
            self.fields[key] = Waves(key[0], key[1], self.seed)
        return self.fields[key]

    def ev(self, e):
        e = sympy.sympify(e)
        if e.is_Rational:
            return mpmath.mpf(int(e.p)) / int(e.q)
        if isinstance(e, sympy.Symbol):
            if e.name not in self.point:
                self.point[e.name] = mpmath.mpf(0.5) + mpmath.mpf(unit_hash(self.seed, 'const', e.name))
            return self.point[e.name]
        if e.is_Number or isinstance(e, sympy.NumberSymbol):
            return mpmath.mpmathify(sympy.N(e, 50))
        if isinstance(e, sympy.Add):
            return sum((self.ev(a) for a in e.args), mpmath.mpf(0))
        if isinstance(e, sympy.Mul):
            out = mpmath.mpf(1)
            for a in e.args:
                out *= self.ev(a)
            return out
        if isinstance(e, sympy.Pow):
            return mpmath.power(self.ev(e.base), self.ev(e.exp) if not e.exp.is_Integer else int(e.exp))
        if isinstance(e, AppliedUndef):
            self.used += 1
            return self.field(e)([self.ev(a) for a in e.args])
        if isinstance(e, sympy.Derivative):
            f = e.args[0]
            if not isinstance(f, AppliedUndef):
                raise Uninterpretable(f'{e}')
            orders = [0] * len(f.args)
            for v, k in e.variable_count:
                # d/dx of f(x + dx, ..) is the derivative in that argument
                where = [i for i, a in enumerate(f.args) if v in a.free_symbols]
                if len(where) != 1 or sympy.diff(f.args[where[0]], v) != 1:
                    raise Uninterpretable(f'{e}')
                orders[where[0]] += int(k)
            self.used += 1
            return self.field(f)([self.ev(a) for a in f.args], orders)
        for cls, fn in ((sympy.exp, mpmath.exp), (sympy.sin, mpmath.sin), (sympy.cos, mpmath.cos),
                        (sympy.log, mpmath.log), (sympy.tanh, mpmath.tanh)):
            if isinstance(e, cls):
                return fn(self.ev(e.args[0]))
        raise Uninterpretable(f'{type(e).__name__}')

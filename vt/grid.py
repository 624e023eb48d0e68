"""Reference evaluation of an expression on a regular periodic grid, with a rounding error bound."""
from fractions import Fraction
import math
import numpy as np
import sympy
from sympy.core.function import AppliedUndef

from .series import Uninterpretable


def stencil(m):
    """centred second-order stencil of the m-th derivative: odd offsets for an odd order, consecutive ones otherwise"""
    pts = [k for k in range(-m, m + 1) if k % 2] if m % 2 else list(range(-(m // 2), m // 2 + 1))
    n = len(pts)
    # sum_k w_k k^j / j! = delta_{jm}, j = 0..n-1
    A = [[Fraction(p) ** j / math.factorial(j) for p in pts] + [Fraction(1 if j == m else 0)] for j in range(n)]
    for c in range(n):
        r = next(i for i in range(c, n) if A[i][c] != 0)
        A[c], A[r] = A[r], A[c]
        A[c] = [v / A[c][c] for v in A[c]]
        for i in range(n):
            if i != c and A[i][c] != 0:
                f = A[i][c]
                A[i] = [a - f * b for a, b in zip(A[i], A[c])]
    return {p: A[i][n] for i, p in enumerate(pts) if A[i][n] != 0}


class Num:
    """array + bound of the rounding error in units of eps"""
    __slots__ = ('v', 'e')

    def __init__(self, v, e=0.0):
        self.v = np.asarray(v, dtype=float)
        self.e = np.asarray(e, dtype=float) if not np.isscalar(e) else np.full(np.shape(self.v), float(e))

    def __add__(self, o):
        v = self.v + o.v
        return Num(v, self.e + o.e + abs(v))

    def __mul__(self, o):
        v = self.v * o.v
        return Num(v, abs(self.v) * o.e + abs(o.v) * self.e + abs(v))

    def fn(self, f, df):
        v = f(self.v)
        return Num(v, abs(df(self.v)) * self.e + 2 * abs(v))


class Grid:
    """
    shape, dx: per coordinate name (in order);  fields: {applied function: array};  consts: {symbol name: number}
    """

    def __init__(self, coords, shape, dx, fields, consts):
        self.coords = list(coords)
        self.shape, self.dx = tuple(shape), dict(dx)
        self.fields, self.consts = dict(fields), dict(consts)
        self.memo = {}
        self.derivatives = 0

    def ev(self, e):
        e = sympy.sympify(e)
        if e not in self.memo:
            self.memo[e] = self._ev(e)
        return self.memo[e]

    def _shift(self, a, axis, k):
        return Num(np.roll(a.v, -k, axis), np.roll(a.e, -k, axis))

    def _ev(self, e):
        if e.is_Rational:
            return Num(float(Fraction(int(e.p), int(e.q))), 0 if e.is_Integer else 1)
        if isinstance(e, sympy.Symbol):
            if e.name in self.consts:
                return Num(self.consts[e.name])
            if e.name[:1] == 'd' and e.name[1:] in self.dx:
                return Num(self.dx[e.name[1:]], 1)
            raise Uninterpretable(f'symbol {e}')
        if e.is_Number or isinstance(e, sympy.NumberSymbol):
            return Num(float(e), 1)
        if isinstance(e, sympy.Add):
            out = self.ev(e.args[0])
            for a in e.args[1:]:
                out = out + self.ev(a)
            return out
        if isinstance(e, sympy.Mul):
            out = self.ev(e.args[0])
            for a in e.args[1:]:
                out = out * self.ev(a)
            return out
        if isinstance(e, sympy.Pow):
            b, x = self.ev(e.base), self.ev(e.exp)
            with np.errstate(all='ignore'):
                v = b.v ** x.v
                err = abs(x.v * b.v ** (x.v - 1)) * b.e + 4 * abs(v)
                if np.any(x.e != 0):
                    err = err + np.where(v == 0, 0., abs(v * np.log(abs(b.v)))) * x.e
            return Num(v, err)
        if isinstance(e, AppliedUndef):
            if e in self.fields:
                return Num(self.fields[e])
            return self.shifted(e)
        if isinstance(e, sympy.Derivative):
            f = e.args[0]
            v = self.ev(f)
            names = [a.name for a in f.args if a.name in self.dx]
            for var, k in e.variable_count:
                axis = names.index(var.name)
                out = None
                for p, w in stencil(int(k)).items():
                    c = float(w) / self.dx[var.name] ** int(k)
                    term = self._shift(v, axis, p) * Num(c, (4 + int(k)) * abs(c))
                    out = term if out is None else out + term
                v = out
            self.derivatives += 1
            return v
        for cls, f, df in ((sympy.exp, np.exp, np.exp), (sympy.sin, np.sin, np.cos), (sympy.cos, np.cos, np.sin),
                           (sympy.log, np.log, lambda z: 1 / z), (sympy.tanh, np.tanh, lambda z: 1 + 0 * z),
                           (sympy.sinh, np.sinh, np.cosh), (sympy.cosh, np.cosh, np.sinh),
                           (sympy.tan, np.tan, lambda z: 1 + np.tan(z) ** 2), (sympy.atan, np.arctan, lambda z: 1 + 0 * z)):
            if isinstance(e, cls):
                return self.ev(e.args[0]).fn(f, df)
        if isinstance(e, sympy.Abs):
            a = self.ev(e.args[0])
            return Num(abs(a.v), a.e)
        if isinstance(e, (sympy.Max, sympy.Min)):
            out = self.ev(e.args[0])
            for a in e.args[1:]:
                a = self.ev(a)
                v = (np.maximum if isinstance(e, sympy.Max) else np.minimum)(out.v, a.v)
                out = Num(v, np.maximum(out.e, a.e) + 0 * v)
            return out
        # functions with a jump: the arguments are random numbers, not within rounding of it
        if isinstance(e, sympy.sign):
            return Num(np.sign(self.ev(e.args[0]).v))
        if isinstance(e, sympy.Heaviside):
            return Num(np.heaviside(self.ev(e.args[0]).v, 0.5))
        if isinstance(e, (sympy.floor, sympy.ceiling)):
            return Num((np.floor if isinstance(e, sympy.floor) else np.ceil)(self.ev(e.args[0]).v))
        if isinstance(e, sympy.Mod):
            a, b = [self.ev(z) for z in e.args]
            return Num(np.mod(a.v, b.v), a.e + abs(np.floor(a.v / b.v)) * b.e + abs(a.v))
        if isinstance(e, sympy.atan2):
            a, b = [self.ev(z) for z in e.args]
            r2 = a.v ** 2 + b.v ** 2
            return Num(np.arctan2(a.v, b.v), (abs(a.v) * b.e + abs(b.v) * a.e) / r2 + 8)
        if isinstance(e, sympy.Piecewise):
            out = Num(np.nan)
            for value, cond in reversed(e.args):
                value, c = self.ev(value), self.test(cond)
                out = Num(np.where(c, value.v, out.v), np.where(c, value.e, out.e))
            return out
        raise Uninterpretable(f'{type(e).__name__}')

    def test(self, c):
        if c in (sympy.true, sympy.false):
            return bool(c)
        if isinstance(c, (sympy.And, sympy.Or)):
            parts = [self.test(z) for z in c.args]
            out = parts[0]
            for z in parts[1:]:
                out = np.logical_and(out, z) if isinstance(c, sympy.And) else np.logical_or(out, z)
            return out
        if isinstance(c, sympy.Not):
            return np.logical_not(self.test(c.args[0]))
        if isinstance(c, sympy.core.relational.Relational):
            f = {'<': np.less, '<=': np.less_equal, '>': np.greater, '>=': np.greater_equal}[c.rel_op]
            return f(self.ev(c.lhs).v, self.ev(c.rhs).v)
        raise Uninterpretable(f'condition {c}')

    def shifted(self, f):
        """f(x + k dx, ..) with integer k: periodic shift of the array of f(x, ..)"""
        plain, moves = [], []
        for a in f.args:
            base = [s for s in a.free_symbols if not (s.name[:1] == 'd' and any(
                s.name[1:] == b.name for b in a.free_symbols if b != s))]
            if len(base) != 1:
                raise Uninterpretable(f'{f}')
            c = base[0]
            k = sympy.expand(a - c).coeff(sympy.Symbol('d' + c.name))
            if sympy.expand(a - c - k * sympy.Symbol('d' + c.name)) != 0 or not k.is_Integer:
                raise Uninterpretable(f'{f}')
            if c.name in self.dx:
                plain.append(c)
                moves.append((c.name, int(k)))
            else:
                plain.append(a)
        g = f.func(*plain)
        if g not in self.fields:
            raise Uninterpretable(f'{f}')
        v = Num(self.fields[g])
        for axis, (name, k) in enumerate(moves):
            v = self._shift(v, axis, k)
        return v


def agree(got, ref, units=50):
    """worst (error / allowed error) of an array against a Num; inf when not comparable"""
    got = np.asarray(got, dtype=float)
    try:
        got, v, e = np.broadcast_arrays(got, ref.v, ref.e)
    except ValueError:
        return float('inf')
    allowed = units * 2.3e-16 * (e + abs(v)) + 1e-300
    with np.errstate(all='ignore'):
        r = abs(got - v) / allowed
    r = np.where(np.isfinite(v) & np.isfinite(got), r, np.where(np.isnan(v) & np.isnan(got), 0, np.inf))
    return float(np.max(r)) if r.size else 0.0

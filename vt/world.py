"""Reference semantics: a finite probability space of smooth fields.

A `World` assigns to every symbol and function of an expression a concrete
meaning at a random point of space-time: a random field is one truncated Taylor
series per outcome, the expectation operator is the average over the outcomes,
a derivative is the derivative of the series.  `World.ev` interprets a sympy
expression; it never calls sympy's or the repository's own evaluation rules.
"""
import hashlib
import itertools
import mpmath
import numpy as np
import sympy
from sympy.core.function import AppliedUndef

from .series import Ring, Val, Uninterpretable


def unit_hash(*key):
    h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
    return int.from_bytes(h, 'big') / 2.0 ** 64


def fname(func):
    return str(func)


class Renamed(Uninterpretable):
    """a bound variable whose meaning cannot be recovered"""


class World:
    """
    coords: {name: base value};  N outcomes;  seed: any string
    E_class: the repository's expectation class (the only thing taken from it)
    """

    def __init__(self, ring, coords, N, seed, E_class=None, steps=()):
        self.ring, self.coords, self.N, self.seed = ring, dict(coords), N, seed
        self.E_class = E_class
        self.steps = set(steps)         # names of displacement symbols (dx, ..) that are ring variables
        self.defs = {}                  # applied function -> Val
        self.exprs = {}                 # any expression -> Val (override, e.g. closures)
        self.consts = {}                # symbol name -> number
        self.memo = {}
        self.nodes = 0
        self.poly_degree = None         # lazily generated functions: cap on their degree
        self.omega_values = None
        self.composed = set()           # names of the functions of several quantities (see `composition`)

    # -- lazily generated meanings -------------------------------------------------
    def constant(self, name):
        if name not in self.consts:
            self.consts[name] = 0.5 + unit_hash(self.seed, 'const', name)
        return self.consts[name]

    def field(self, name, variables, random, const=(0.7, 1.5), amp=0.6, offset_row=0):
        """random series depending only on `variables`"""
        R = self.ring
        n = self.N if random else 1
        out = R.zeros(n)
        use = [v in variables for v in R.vars]
        for i, m in enumerate(R.monos):
            if any(e and not u for e, u in zip(m, use)):
                continue
            if self.poly_degree is not None and sum(m) > self.poly_degree:
                continue
            key = tuple((v, e) for v, e in zip(R.vars, m) if e)
            for row in range(n):
                z = unit_hash(self.seed, 'field', name, row + offset_row, key)
                if not key:
                    x = const[0] + (const[1] - const[0]) * z
                else:
                    x = amp * (2 * z - 1)
                out[row, i] = R.num(x)
        return Val(R, out)

    def applied(self, f):
        if f in self.defs:
            return self.defs[f]
        names, random, plain = [], False, True
        for a in f.args:
            if isinstance(a, sympy.Symbol) and a.name == 'omega':
                random = True
            elif isinstance(a, sympy.Symbol) and a.name in self.coords:
                names.append(a.name)
            else:
                plain = False
        if f.func.__name__ in self.composed:
            return self.composition(f)
        if not plain:
            return self.shifted(f)
        key = (fname(f.func), tuple(str(a) for a in f.args))
        val = self.field(key, names, random)
        self.defs[f] = val
        return val

    def composition_numbers(self, name, n):
        q = [sympy.Rational(round(1000 * unit_hash(self.seed, 'composed', name, i)), 1000) for i in range(-1, n)]
        return sympy.Rational(3, 10) + q[0], [sympy.Rational(1, 5) + z * sympy.Rational(3, 5) for z in q[1:]]

    def concrete(self, e):
        """derivatives of F with respect to its arguments: F written as the expression `composition` evaluates"""
        names = {f.func for f in e.atoms(AppliedUndef)
                 if f.args and not all(isinstance(a, sympy.Symbol) and (a.name in self.coords or a.name == 'omega') for a in f.args)}
        for func in names:
            def inst(*args, name=fname(func)):
                first, slopes = self.composition_numbers(name, len(args))
                return sympy.sin(first + sum(k * a for k, a in zip(slopes, args)))
            e = e.replace(func, inst)
        return e.doit()

    def piecewise(self, e):
        """the branch is chosen outcome by outcome at the base point"""
        out, free, valid = None, np.ones(self.N, dtype=bool), None
        for expr, cond in e.args:
            v = self.ev(expr)
            rows = np.broadcast_to(v.c, (self.N, v.c.shape[1]))
            if out is None:
                out, valid = rows.copy(), v.valid
            take = free & self.truth(cond)
            out[take] = rows[take]
            free &= ~take
            valid = tuple(min(a, b) for a, b in zip(valid, v.valid))
        if free.any():
            raise Uninterpretable('no branch')
        if (out == out[:1]).all():
            out = out[:1]
        return Val(self.ring, out, valid)

    def truth(self, cond):
        if cond in (True, False, sympy.true, sympy.false):
            return np.full(self.N, bool(cond))
        if not isinstance(cond, (sympy.Gt, sympy.Lt, sympy.Ge, sympy.Le)):
            raise Uninterpretable(f'condition {cond}')
        d = self.ev(cond.args[0]) - self.ev(cond.args[1])
        if min(d.valid) < 0:
            raise OverflowError('series order exceeded')
        d = np.broadcast_to(d.c[:, 0], (self.N,))
        if any(abs(z) < 1e-6 for z in d):
            raise Uninterpretable('on a discontinuity')
        up = isinstance(cond, (sympy.Gt, sympy.Ge))
        return np.array([(z > 0) == up for z in d])

    def composition(self, f):
        """F(a, b, ..): a fixed smooth function of the values of its arguments"""
        first, slopes = self.composition_numbers(fname(f.func), len(f.args))
        v = self.ring.const(self.number(first))
        for slope, a in zip(slopes, f.args):
            v = v + self.ev(a).scale(self.number(slope))
        out = v.sin()
        self.defs[f] = out
        return out

    def shifted(self, f):
        """f(x + c*dx, ..): composition with the field f(x, ..)"""
        plain_args, moves = [], []
        for a in f.args:
            syms = a.free_symbols
            base = [s for s in syms if s.name in self.coords]
            if isinstance(a, sympy.Symbol) and a.name == 'omega':
                plain_args.append(a)
                continue
            if len(base) != 1:
                raise Uninterpretable(f'argument {a} of {f}')
            plain_args.append(base[0])
            if a != base[0]:
                moves.append((base[0].name, self.ev(a)))
        v = self.applied(f.func(*plain_args))
        for name, arg in moves:
            v = self._compose_coord(v, name, arg)
        return v

    def _compose_coord(self, v, name, arg):
        R = self.ring
        d = arg - R.var(name, self.coords[name])     # displacement
        if np.any(d.c[:, 0] != 0):
            raise Uninterpretable('displacement with a constant part')
        out, p, der = v, None, v
        fact = 1
        for k in range(1, R.maxdeg + 1):
            der = der.diff(name)
            fact *= k
            p = d if p is None else p * d
            if not np.any(p.c != 0):
                break
            term = (der * p).scale(1)
            out = out + Val(R, term.c / R.num(fact), out.valid)
        return Val(R, out.c, v.valid)

    # -- interpretation --------------------------------------------------------------
    def ev(self, e):
        e = sympy.sympify(e)
        got = self.memo.get(e)
        if got is None:
            got = self._ev(e)
            self.memo[e] = got
            self.nodes += 1
        return got

    def number(self, e):
        R = self.ring
        if R.kind == 'mp':
            if e.is_Rational:
                return mpmath.mpf(int(e.p)) / int(e.q)
            return mpmath.mpmathify(sympy.N(e, 50))
        if e.is_Rational:
            return int(e.p) / int(e.q)
        c = complex(sympy.N(e, 30))
        if R.kind == 'complex':
            return c
        if c.imag != 0:
            raise Uninterpretable('complex number in a real world')
        return c.real

    def _ev(self, e):
        R = self.ring
        if e in self.exprs:
            return self.exprs[e]
        if isinstance(e, sympy.Symbol):
            if e.name == 'omega':
                out = R.zeros(self.N)
                for k in range(self.N):
                    out[k, 0] = R.num(0.3 + unit_hash(self.seed, 'omega', k))
                return Val(R, out)
            if e.name in self.coords:
                if e.name in R.pos:
                    return R.var(e.name, self.coords[e.name])
                return R.const(self.coords[e.name])
            if e.name in self.steps:
                return R.var(e.name, 0)
            return R.const(self.constant(e.name))
        if e.is_Number or isinstance(e, sympy.NumberSymbol):
            if e in (sympy.zoo, sympy.nan, sympy.oo, -sympy.oo):
                raise Uninterpretable(f'{e}')
            return R.const(self.number(e))
        if e is sympy.I:
            return R.const(1j)
        if self.E_class is not None and isinstance(e, self.E_class):
            return self.ev(e.args[0]).mean()
        if isinstance(e, sympy.Add):
            out = self.ev(e.args[0])
            for a in e.args[1:]:
                out = out + self.ev(a)
            return out
        if isinstance(e, sympy.Mul):
            out = self.ev(e.args[0])
            for a in e.args[1:]:
                out = out * self.ev(a)
            return out
        if isinstance(e, sympy.Pow):
            b, x = e.args
            if x.is_Integer:
                return self.ev(b).power(int(x))
            if x.is_Number:
                return self.ev(b).power(self.number(x))
            if b is sympy.E:
                return self.ev(x).exp()
            xv = self.ev(x)
            return (xv * self.ev(b).log()).exp()
        if isinstance(e, sympy.exp):
            return self.ev(e.args[0]).exp()
        if isinstance(e, AppliedUndef):
            return self.applied(e)
        if isinstance(e, sympy.Piecewise):
            return self.piecewise(e)
        if isinstance(e, sympy.Subs) or isinstance(e, sympy.Derivative) and any(not isinstance(v, sympy.Symbol) for v, _ in e.variable_count):
            e2 = self.concrete(e)
            if isinstance(e2, (sympy.Subs, sympy.Derivative)):
                raise Uninterpretable(f'{type(e).__name__}: {str(e)[:120]}')
            return self.ev(e2)
        if isinstance(e, sympy.Derivative):
            v = self.ev(e.args[0])
            for var, k in e.variable_count:
                if not (isinstance(var, sympy.Symbol) and var.name in self.coords):
                    raise Uninterpretable(f'derivative with respect to {var}')
                if not k.is_Integer:
                    raise Uninterpretable(f'symbolic order {k}')
                v = v.diff(var.name, int(k))
            if min(v.valid) < 0:
                raise OverflowError('series order exceeded')
            return v
        if isinstance(e, sympy.Integral):
            e = self.name_bound(e)
            if any(len(lim) == 2 for lim in e.limits):
                raise Uninterpretable('integral limits')
            v = self.ev(e.args[0])
            for lim in e.limits:
                name = lim[0].name
                if name not in R.pos:
                    raise Uninterpretable('integral over a foreign variable')
                F = v.integrate(name)
                if len(lim) == 1:
                    v = F
                elif len(lim) == 3:
                    b = self.coords[name]
                    ends = []
                    for z in lim[1:]:
                        z = sympy.sympify(z)
                        if z.is_number:
                            ends.append(F.subs_const(name, self.number(z) - R.num(b)))
                        else:
                            ends.append(F.subs_val(name, self.ev(z) - R.const(b)))
                    v = ends[1] - ends[0]
                else:
                    raise Uninterpretable('integral limits')
            return v
        for cls, meth in ((sympy.sin, 'sin'), (sympy.cos, 'cos'), (sympy.log, 'log'),
                          (sympy.sinh, 'sinh'), (sympy.cosh, 'cosh')):
            if isinstance(e, cls):
                return getattr(self.ev(e.args[0]), meth)()
        if isinstance(e, sympy.tan):
            v = self.ev(e.args[0])
            return v.sin() * v.cos().inv()
        if isinstance(e, sympy.tanh):
            v = self.ev(e.args[0])
            return v.sinh() * v.cosh().inv()
        if isinstance(e, sympy.Abs):
            v = self.ev(e.args[0])
            s = np.array([1 if x > 0 else -1 for x in v.c[:, 0]])
            return Val(R, v.c * (s.reshape(-1, 1) if R.kind != 'mp' else np.array([mpmath.mpf(int(z)) for z in s], dtype=object).reshape(-1, 1)), v.valid)
        raise Uninterpretable(f'{type(e).__name__}: {str(e)[:120]}')

    def name_bound(self, e):
        """sympy may rename the bound variable of an integral (`_0`): give it back the name of a coordinate"""
        for lim in e.limits:
            s = lim[0]
            if s.name in self.coords:
                continue
            cand = None
            for f in e.args[0].atoms(AppliedUndef):
                for i, a in enumerate(f.args):
                    if a == s:
                        here = {g.args[i] for g in self.defs if g.func == f.func and len(g.args) == len(f.args)}
                        cand = here if cand is None else cand & here
            if not cand:
                free = {z.name for z in e.args[0].free_symbols}
                cand = {sympy.Symbol(n) for n in self.ring.vars if n not in free} if cand is None else cand
                cand = set(sorted(cand, key=str)[:1])
            if len(cand) != 1:
                raise Renamed(f'bound variable {s} of {e}')
            e = e.xreplace({s: cand.pop()})
        return e

    def value(self, e):
        """value(s) at the base point"""
        v = self.ev(e)
        if min(v.valid) < 0:
            raise OverflowError('series order exceeded')
        return v.const_part()


def hadamard(n):
    H = np.array([[1]])
    while H.shape[0] < n:
        H = np.block([[H, H], [H, -H]])
    return H


def close(a, b, tol):
    a, b = np.broadcast_arrays(np.asarray(a), np.asarray(b))
    worst = 0.0
    for x, y in zip(a.ravel(), b.ravel()):
        d = abs(x - y)
        s = max(1, abs(x), abs(y))
        r = d / s
        if not (r == r):
            return False, float('nan')
        worst = max(worst, float(r))
    return worst <= tol, worst

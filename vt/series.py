"""Truncated multivariate power series over a finite set of outcomes.

A `Ring` fixes the variables, grouped with a truncation degree per group
(e.g. time: 1, space: 6, perturbation: 2).  A `Val` is an (n, M) array: n = 1
for a deterministic quantity, n = N for one row per outcome of the probability
space, M monomials.  Two arithmetics: float64/complex128 (fast) and mpmath (to
confirm a mismatch at 50 digits before it is reported).
"""
import itertools
import math
import numpy as np
import mpmath

mpmath.mp.dps = 50


class Uninterpretable(Exception):
    """The expression has a node that the reference semantics does not cover."""


class Ring:
    _cache = {}

    def __new__(cls, groups, kind='float'):
        # groups: tuple of (tuple_of_names, degree)
        key = (tuple((tuple(n), d) for n, d in groups), kind)
        if key in cls._cache:
            return cls._cache[key]
        self = super().__new__(cls)
        self._build(key[0], kind)
        cls._cache[key] = self
        return self

    def _build(self, groups, kind):
        self.groups = groups
        self.kind = kind
        self.dtype = {'float': np.float64, 'complex': np.complex128, 'mp': object}[kind]
        self.vars = [v for names, _ in groups for v in names]
        self.group_of = {v: g for g, (names, _) in enumerate(groups) for v in names}
        self.caps = [d for _, d in groups]
        self.pos = {v: i for i, v in enumerate(self.vars)}
        per_group = []
        for names, d in groups:
            exps = [e for e in itertools.product(range(d + 1), repeat=len(names)) if sum(e) <= d]
            exps.sort(key=lambda e: (sum(e), e))
            per_group.append(exps)
        monos = [sum(c, ()) for c in itertools.product(*per_group)]
        monos.sort(key=lambda e: (sum(e), e))
        self.monos = monos
        self.index = {m: i for i, m in enumerate(monos)}
        self.M = len(monos)
        pairs = {}
        for i, a in enumerate(monos):
            for j, b in enumerate(monos):
                k = self.index.get(tuple(p + q for p, q in zip(a, b)))
                if k is not None:
                    pairs.setdefault(k, []).append((i, j))
        I, J, starts = [], [], []
        for k in range(self.M):
            starts.append(len(I))
            for i, j in pairs[k]:
                I.append(i)
                J.append(j)
        self.I, self.J, self.starts = np.array(I), np.array(J), np.array(starts)
        self.maxdeg = sum(self.caps)
        self.diff_tables = {}

    def num(self, x):
        if self.kind == 'mp':
            if isinstance(x, (int,)):
                return mpmath.mpf(x)
            if isinstance(x, complex):
                return mpmath.mpc(x)
            return mpmath.mpmathify(x)
        if self.kind == 'complex':
            return complex(x)
        return float(x)

    def zeros(self, n):
        if self.kind == 'mp':
            out = np.empty((n, self.M), dtype=object)
            out[:] = mpmath.mpf(0)
            return out
        return np.zeros((n, self.M), dtype=self.dtype)

    def const(self, x, n=1):
        c = self.zeros(n)
        c[:, 0] = self.num(x)
        return Val(self, c)

    def var(self, name, base=0):
        c = self.zeros(1)
        c[:, 0] = self.num(base)
        e = [0] * len(self.vars)
        e[self.pos[name]] = 1
        k = self.index.get(tuple(e))
        if k is not None:
            c[:, k] = self.num(1)
        return Val(self, c)

    def _diff_table(self, name):
        if name not in self.diff_tables:
            p = self.pos[name]
            src, dst, fac = [], [], []
            for i, m in enumerate(self.monos):
                if m[p] > 0:
                    e = list(m)
                    e[p] -= 1
                    src.append(i)
                    dst.append(self.index[tuple(e)])
                    fac.append(m[p])
            self.diff_tables[name] = (np.array(src, int), np.array(dst, int), np.array(fac, int))
        return self.diff_tables[name]


class Val:
    """value = array of truncated series; `valid` = highest exact degree per group."""
    __slots__ = ('ring', 'c', 'valid')

    def __init__(self, ring, c, valid=None):
        self.ring = ring
        self.c = c
        self.valid = tuple(ring.caps) if valid is None else valid

    @property
    def n(self):
        return self.c.shape[0]

    def _v(self, other):
        return tuple(min(a, b) for a, b in zip(self.valid, other.valid))

    def __add__(self, o):
        return Val(self.ring, self.c + o.c, self._v(o))

    def __sub__(self, o):
        return Val(self.ring, self.c - o.c, self._v(o))

    def __neg__(self):
        return Val(self.ring, -self.c, self.valid)

    def __mul__(self, o):
        R = self.ring
        prod = self.c[:, R.I] * o.c[:, R.J]
        return Val(R, np.add.reduceat(prod, R.starts, axis=1), self._v(o))

    def scale(self, x):
        return Val(self.ring, self.c * self.ring.num(x), self.valid)

    def diff(self, name, k=1):
        R = self.ring
        v = self
        g = R.group_of.get(name)
        if g is None:
            # a variable this value does not depend on
            return Val(R, R.zeros(1))
        for _ in range(k):
            src, dst, fac = R._diff_table(name)
            out = R.zeros(v.n)
            if len(src):
                out[:, dst] = v.c[:, src] * (fac if R.kind != 'mp' else np.array([mpmath.mpf(int(f)) for f in fac], dtype=object))
            valid = list(v.valid)
            valid[g] -= 1
            v = Val(R, out, tuple(valid))
        return v

    def const_part(self):
        return self.c[:, 0]

    def at(self, mono):
        return self.c[:, self.ring.index[tuple(mono)]]

    def is_const(self):
        return not np.any(self.c[:, 1:] != 0)

    def mean(self):
        R = self.ring
        if R.kind == 'mp':
            s = self.c[0]
            for k in range(1, self.n):
                s = s + self.c[k]
            return Val(R, (s / mpmath.mpf(self.n)).reshape(1, -1), self.valid)
        return Val(R, self.c.mean(axis=0, keepdims=True), self.valid)

    # -- analytic composition: sum_k f_k * r^k, r nilpotent
    def compose(self, coeffs):
        """coeffs(a0_column, kmax) -> list of arrays: Taylor coefficients f^(k)(a0)/k!"""
        R = self.ring
        r = self.c.copy()
        r[:, 0] = R.num(0)
        r = Val(R, r, self.valid)
        fk = coeffs(self.c[:, 0], R.maxdeg)
        out = R.zeros(self.n)
        out[:, 0] = fk[0]
        out = Val(R, out, self.valid)
        p = None
        for k in range(1, R.maxdeg + 1):
            p = r if p is None else p * r
            if not np.any(p.c != 0):
                break
            out = out + Val(R, p.c * np.asarray(fk[k]).reshape(-1, 1), p.valid)
        return out

    def _f(self, name):
        R = self.ring
        if R.kind == 'mp':
            f = getattr(mpmath, name)
            return lambda a: np.array([f(x) for x in a], dtype=object)
        return getattr(np, name)

    def exp(self):
        def co(a, K):
            e = self._f('exp')(a)
            return [e / math.factorial(k) for k in range(K + 1)]
        return self.compose(co)

    def sin(self):
        def co(a, K):
            s, c = self._f('sin')(a), self._f('cos')(a)
            return [[s, c, -s, -c][k % 4] / math.factorial(k) for k in range(K + 1)]
        return self.compose(co)

    def cos(self):
        def co(a, K):
            s, c = self._f('sin')(a), self._f('cos')(a)
            return [[c, -s, -c, s][k % 4] / math.factorial(k) for k in range(K + 1)]
        return self.compose(co)

    def sinh(self):
        return (self.exp() - (-self).exp()).scale(0.5)

    def cosh(self):
        return (self.exp() + (-self).exp()).scale(0.5)

    def log(self):
        def co(a, K):
            out = [self._f('log')(a)]
            p = 1
            for k in range(1, K + 1):
                p = p / a if k == 1 else -p / a
                out.append(p / k)
            return out
        return self.compose(co)

    def power(self, e):
        """constant real exponent e (python int, Fraction-like or float / mpf)"""
        R = self.ring
        if isinstance(e, int):
            if e >= 0:
                out = R.const(1)
                base, k = self, e
                while k:
                    if k & 1:
                        out = out * base
                    base = base * base if k > 1 else base
                    k >>= 1
                return out
        ee = R.num(e)

        if np.any(self.c[:, 0] == 0):
            raise Uninterpretable('singular power')
        if R.kind == 'float' and ee != int(ee) and np.any(self.c[:, 0] < 0):
            raise Uninterpretable('fractional power of a negative number')

        def co(a, K):
            out = []
            b = R.num(1)
            for k in range(K + 1):
                if R.kind == 'mp':
                    pw = np.array([mpmath.power(x, ee - k) for x in a], dtype=object)
                else:
                    pw = a ** (ee - k)
                out.append(b * pw)
                b = b * (ee - k) / (k + 1)
            return out
        return self.compose(co)

    def inv(self):
        return self.power(-1)

    def integrate(self, name):
        """antiderivative in (var - base) vanishing at the base point"""
        R = self.ring
        p = R.pos[name]
        out = R.zeros(self.n)
        for i, m in enumerate(R.monos):
            e = list(m)
            e[p] += 1
            k = R.index.get(tuple(e))
            if k is not None:
                out[:, k] = self.c[:, i] / R.num(e[p])
        return Val(R, out, self.valid)

    def subs_const(self, name, delta):
        """evaluate the (polynomial) value at var - base = delta"""
        R = self.ring
        p = R.pos[name]
        out = R.zeros(self.n)
        for i, m in enumerate(R.monos):
            e = list(m)
            k = e[p]
            e[p] = 0
            j = R.index[tuple(e)]
            out[:, j] = out[:, j] + self.c[:, i] * R.num(delta) ** k
        return Val(R, out, self.valid)

    def subs_val(self, name, delta):
        """evaluate the (polynomial) value at var - base = delta, another value"""
        R = self.ring
        p = R.pos[name]
        parts = {}
        for i, m in enumerate(R.monos):
            e = list(m)
            k = e[p]
            e[p] = 0
            if k not in parts:
                parts[k] = R.zeros(self.n)
            j = R.index[tuple(e)]
            parts[k][:, j] = parts[k][:, j] + self.c[:, i]
        out = Val(R, parts[max(parts)], self.valid)
        for k in range(max(parts) - 1, -1, -1):
            out = out * delta + Val(R, parts.get(k, R.zeros(self.n)), self.valid)
        return out

    def project(self, ring, fixed=None):
        """re-express in another ring sharing variable names; drops missing monomials"""
        out = ring.zeros(self.n)
        for i, m in enumerate(ring.monos):
            e = []
            for v in self.ring.vars:
                e.append(m[ring.pos[v]] if v in ring.pos else 0)
            # monomials of `ring` with a variable unknown to self: zero
            if any(m[ring.pos[v]] and v not in self.ring.pos for v in ring.vars):
                continue
            k = self.ring.index.get(tuple(e))
            if k is not None:
                out[:, i] = self.c[:, k]
        valid = []
        for names, cap in ring.groups:
            v = cap
            for name in names:
                if name in self.ring.group_of:
                    v = min(v, self.valid[self.ring.group_of[name]])
            valid.append(v)
        return Val(ring, out, tuple(valid))

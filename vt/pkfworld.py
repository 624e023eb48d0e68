"""A concrete uncertain flow: fields with explicit errors whose true trends are known.

For a system du_i/dt = F_i(u), mean fields m_i(x) and errors e_i(x, w) (finite
probability space, zero mean) are random series.  The tangent-linear trend of the
error and the second-order trend of the mean are read off F(m + d*e) expanded in
the formal parameter d by the reference interpreter (not by sympy, not by the
repository).  Variance, normalised error, metric, aspect, diffusion and
cross-covariance then follow from their definitions, with their first time
derivative, so every equation a derivation produces can be evaluated on both
sides.
"""
import numpy as np
import sympy
from sympy.core.function import AppliedUndef

from .series import Ring, Val
from .world import World, hadamard, close, unit_hash, fname

DELTA = '_delta'
NROWS = 8


def inverse(mat, n):
    """inverse of an n x n matrix of Val (n <= 3), adjugate formula"""
    if n == 0:
        return []
    if n == 1:
        return [[mat[0][0].inv()]]
    if n == 2:
        (a, b), (c, d) = mat
        det = (a * d - b * c).inv()
        return [[d * det, -(b * det)], [-(c * det), a * det]]
    m = mat

    def minor(i, j):
        r = [k for k in range(3) if k != i]
        s = [k for k in range(3) if k != j]
        return m[r[0]][s[0]] * m[r[1]][s[1]] - m[r[0]][s[1]] * m[r[1]][s[0]]
    cof = [[minor(i, j) if (i + j) % 2 == 0 else -minor(i, j) for j in range(3)] for i in range(3)]
    det = (m[0][0] * cof[0][0] + m[0][1] * cof[0][1] + m[0][2] * cof[0][2]).inv()
    return [[cof[j][i] * det for j in range(3)] for i in range(3)]


def max_order(exprs):
    k = 0
    for e in exprs:
        for d in e.atoms(sympy.Derivative):
            # nested derivatives add up
            k = max(k, sum(int(c) for _, c in d.variable_count) +
                    max([0] + [max_order([a]) for a in d.args[0].atoms(sympy.Derivative)]))
    return k


class PKFWorld:
    def __init__(self, pkf, eqs, seed, E_class, kind='float', extra=0):
        self.pkf, self.eqs = pkf, eqs
        fields = [u for u, _ in eqs]
        self.fields = fields
        args = fields[0].args
        tname = args[0].name
        sp = [a.name for a in args[1:]]
        order = max_order([r for _, r in eqs])
        K = max(order + 4, 4) + extra
        coords = {a.name: 0.3 + 0.6 * unit_hash(seed, 'base', a.name) for a in args}
        self.tname, self.sp, self.K = tname, sp, K
        R1 = Ring(((( DELTA,), 2), (tuple(sp), K + order)), kind)
        R2 = Ring((((tname,), 1), (tuple(sp), K)), kind)
        self.ring = R2
        composed = {f.func.__name__ for _, r in eqs for f in r.atoms(AppliedUndef)
                    if not all(isinstance(a, sympy.Symbol) for a in f.args)}
        w1 = World(R1, coords, NROWS, seed, E_class)
        w1.composed = composed
        H = hadamard(NROWS)
        base, err = {}, {}
        for u in fields:
            nm = fname(u.func)
            base[u] = w1.field(('mean', nm), sp, False)
            rows = None
            for k in range(1, NROWS):
                a = w1.field(('mode', nm, k), sp, False, const=(-1, 1), amp=0.8)
                xi = H[:, k].reshape(-1, 1)
                if kind == 'mp':
                    xi = np.array([[R1.num(int(z))] for z in H[:, k]], dtype=object)
                c = a.c * xi
                rows = c if rows is None else rows + c
            err[u] = Val(R1, rows)
            w1.defs[u] = base[u] + R1.var(DELTA) * err[u]
        w2 = World(R2, coords, NROWS, seed, E_class)
        w2.composed = composed
        self.world = w2
        self.w1 = w1
        t = R2.var(tname, 0)           # t - t0
        mean, error = {}, {}
        for u, rhs in eqs:
            F = w1.ev(rhs)
            F0, F1, F2 = (self._extract(F, j, R2) for j in range(3))
            b = base[u].project(R2)
            e = err[u].project(R2)
            # F0 and F1 are not centred when the right-hand side has random functions of its own
            mean[u] = b + t * (F0.mean() + F1.mean() + F2.mean())
            error[u] = e + t * (F1 - F1.mean() + F0 - F0.mean())
        self.mean, self.error = mean, error
        self.V, self.eps, self.g = {}, {}, {}
        n = len(sp)
        for u in fields:
            mf = pkf.fields[u]
            e = error[u]
            V = (e * e).mean()
            eps = e * V.power(self._q(-1, 2))
            w2.defs[mf.value] = mean[u]
            w2.defs[mf.random] = mean[u] + e
            w2.defs[mf.error] = e
            w2.defs[mf.epsilon] = eps
            w2.defs[mf.variance] = V
            w2.defs[mf.std] = V.power(self._q(1, 2))
            d = [eps.diff(x) for x in sp]
            g = [[(d[i] * d[j]).mean() for j in range(n)] for i in range(n)]
            s = inverse(g, n)
            for i in range(n):
                for j in range(n):
                    w2.defs[mf.metric[i, j]] = g[i][j]
                    w2.defs[mf.aspect[i, j]] = s[i][j]
                    w2.defs[mf.diffusion[i, j]] = s[i][j].scale(0.5)
            self.V[u], self.eps[u], self.g[u] = V, eps, g
        for i, f1 in enumerate(fields):
            for f2 in fields[i + 1:]:
                V12 = (error[f1] * error[f2]).mean()
                for pair in ((f1, f2), (f2, f1)):
                    w2.defs[pkf.get_covariance(*pair)] = V12

    def _q(self, a, b):
        return self.ring.num(a) / self.ring.num(b)

    def _extract(self, F, j, R2):
        R1 = F.ring
        out = R2.zeros(F.n)
        for i, m in enumerate(R2.monos):
            if m[R2.pos[self.tname]]:
                continue
            e = [0] * len(R1.vars)
            e[R1.pos[DELTA]] = j
            for x in self.sp:
                e[R1.pos[x]] = m[R2.pos[x]]
            k = R1.index.get(tuple(e))
            if k is not None:
                out[:, i] = F.c[:, k]
        xv = F.valid[1]
        return Val(R2, out, (R2.caps[0], min(R2.caps[1], xv)))


class Trial:
    """Evaluate both sides of equations in a float world; confirm mismatches at 50 digits."""

    def __init__(self, pkf, eqs, seed, E_class, overrides=None):
        self.pkf, self.eqs, self.seed, self.E = pkf, eqs, seed, E_class
        self.overrides = overrides or {}
        self.cache = {}
        self.evaluated = 0

    def world(self, kind, extra):
        key = (kind, extra)
        if key not in self.cache:
            w = PKFWorld(self.pkf, self.eqs, self.seed, self.E, kind, extra)
            for term, expr in self.overrides.items():
                w.world.exprs[term] = w.world.ev(expr)
            self.cache[key] = w
        return self.cache[key]

    def value(self, e, kind='float', world=None):
        for extra in (0, 3, 8):
            try:
                w = self.world(kind, extra) if world is None else world
                return w.world.value(e)
            except OverflowError:
                if world is not None:
                    raise
        raise OverflowError('series order exceeded')

    def equal(self, a, b, b_world=None):
        """a, b expressions; returns (ok, detail)"""
        self.evaluated += 1
        x, y = self.value(a), self.value(b)
        ok, gap = close(x, y, 1e-8)
        if ok:
            return True, gap
        x, y = self.value(a, 'mp'), self.value(b, 'mp')
        ok, gap = close(x, y, 1e-18)
        return ok, {'gap': gap, 'lhs': [str(z)[:20] for z in np.ravel(x)[:2]],
                    'rhs': [str(z)[:20] for z in np.ravel(y)[:2]]}

    def equal_with(self, a, other, b):
        """value of a here == value of b in `other` (same seed, different overrides)"""
        self.evaluated += 1
        x, y = self.value(a), other.value(b)
        ok, gap = close(x, y, 1e-8)
        if ok:
            return True, gap
        x, y = self.value(a, 'mp'), other.value(b, 'mp')
        ok, gap = close(x, y, 1e-18)
        return ok, {'gap': gap, 'lhs': [str(z)[:20] for z in np.ravel(x)[:2]],
                    'rhs': [str(z)[:20] for z in np.ravel(y)[:2]]}

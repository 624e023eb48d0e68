"""finite differences: second order of consistency, on the points of the regular grid"""
import mpmath
import sympy
from sympy import Derivative, Function, Rational, Symbol
from sympy.core.function import AppliedUndef
from ..fields import Exact
from ..pkfcommon import rng_for

RULE = ('a case is a batch of expressions with derivatives of fields (orders 1 to 6, one to three coordinates, products, '
        'standard functions); non-trivial when the finite difference of an expression was compared with the exact value '
        'for two mesh sizes, on analytic fields at 50 digits; distinct by the set of derivatives')
MIN = {'checked:second order of consistency': 150, 'checked:points of the regular grid': 150}
t = Symbol('t')
COORDS = [['x'], ['x'], ['y'], ['s'], ['x', 'y'], ['y', 'x'], ['x', 'z'], ['r', 's'], ['x', 'y', 'z'], ['x', 'y', 'z', 's'],
          ['d'], ['x_1', 'x_2'], ['\\theta', 'r'], ['\\delta'], ['z', 'y', 'x'], ['x_{1,2}'], ['\\xi_{a,b}', 'x']]


def cases(tier, seed):
    n = 192 if tier == 'quick' else 1280
    return [{'seed': ['F01', seed, k], 'batch': 8, 'cpu': 60} for k in range(n)]


def derivative(rng, f, coords, maxo):
    n = rng.choice([1, 1, 2, 2, 3])
    cs = rng.sample(coords, min(n, len(coords)))
    wrt, left = [], maxo
    for c in cs:
        k = rng.choice([1, 1, 2, 2, 3, 4, 5, 6] + [7, 8, 9, 10, 11] * (maxo > 6))
        k = min(k, left)
        if k > 0:
            wrt.append((c, k))
            left -= k
    return Derivative(f, *wrt)


def expression(rng):
    coords = [Symbol(c) for c in rng.choice(COORDS)]
    time = [t] if rng.random() < 0.7 else []
    fs = [Function(n)(*time, *coords) for n in rng.sample(['u', 'v', 'h_{1}', '\\theta', 'd', 'A'], 2)]
    if rng.random() < 0.2:
        fs[1] = Function('g')(coords[0])
    maxo = rng.choice([6, 6, 6, 9, 11]) if len(coords) == 1 else 4
    e = sympy.Integer(0)
    for _ in range(rng.choice([1, 1, 2, 3])):
        term = Rational(rng.choice([-2, -1, 1, 1, 3]), rng.choice([1, 1, 2]))
        left = maxo
        for _ in range(rng.choice([1, 1, 2])):
            f = rng.choice(fs)
            cs = [c for c in coords if c in f.args]
            d = derivative(rng, f, cs, left)
            left = max(1, left - sum(int(k) for _, k in d.variable_count))
            term *= d
        if rng.random() < 0.5:
            term *= rng.choice([fs[0], fs[0] ** 2, Symbol('kappa'), sympy.sin(fs[0]), 1 / fs[1], sympy.exp(fs[1]), coords[0]])
        e += term
    return coords, time, fs, e


def steps_of(got, coords):
    """arguments of every field: coordinate + integer * its step"""
    reach = {}
    for f in got.atoms(AppliedUndef):
        for a in f.args:
            cs = [c for c in coords + [t] if c in a.free_symbols]
            if len(cs) != 1:
                return None, f'{f}: argument {a}'
            c = cs[0]
            k = (a - c).expand().coeff(Symbol('d' + c.name))
            if (a - c - k * Symbol('d' + c.name)).expand() != 0 or not k.is_Integer or (c == t and k != 0):
                return None, f'{f}: argument {a}'
            reach[c.name] = max(reach.get(c.name, 0), abs(int(k)))
    return reach, None


def error(seed, coords, e, got, h):
    w = Exact({c.name: 0.4 + 0.17 * i for i, c in enumerate(coords + [t])}, seed)
    for i, c in enumerate(coords):
        w.point['d' + c.name] = h * mpmath.mpf(1 + 0.3 * i)
    exact, approx = w.ev(e), w.ev(got)
    return abs(approx - exact), abs(exact)


def run(spec, mon):
    from sympkf.symbolic.finite_difference import (finite_difference, finite_difference_derivative,
                                                   finite_difference_system)
    from sympkf.symbolic.util import PDESystem, Eq
    rng = rng_for(*spec['seed'])
    seen = []
    mpmath.mp.dps = 110
    for n in range(spec['batch']):
        coords, time, fs, e = expression(rng)
        if not e.atoms(Derivative):
            continue
        which = n % 4
        if any(c.name == 'd' for c in coords) and which > 1:
            which = 0
        ders = sorted(e.atoms(Derivative), key=sympy.default_sort_key)
        if which == 1:
            e = rng.choice(ders)
            got = finite_difference_derivative(e)
        elif which == 2:
            u = fs[0] if time else Function('q')(t, *coords)
            eq = Eq(Derivative(u, t), e)
            out = finite_difference_system([eq])
            mon.check(len(out) == 1 and out[0].args[0] == Derivative(u, t), 'left-hand side kept', got=out)
            got = out[0].args[1]
        elif which == 3:
            u = fs[0] if time else Function('q')(t, *coords)
            out = PDESystem([Eq(Derivative(u, t), e), Eq(Derivative(Function('p')(t, *coords), t), -e)]).finite_difference
            mon.check(len(out) == 2 and out[0].args[0] == Derivative(u, t), 'left-hand side kept', got=out)
            got = out[0].args[1]
        else:
            got = finite_difference(e)
        mon.check(not got.atoms(Derivative), 'no derivative left', expr=e, got=got)
        if any(c.name == 'd' for c in coords):
            mon.observe('coordinate d')
        reach, bad = steps_of(got, coords)
        mon.check(bad is None, 'points of the regular grid', expr=e, got=got, bad=bad)
        if reach:
            need = {}
            for d in e.atoms(Derivative):
                for v, k in d.variable_count:
                    need[v.name] = max(need.get(v.name, 0), int(k))
            mon.check(all(reach.get(c, 0) <= need.get(c, 0) for c in reach), 'width of the stencil',
                      expr=e, got=got, reach=reach)
        h = mpmath.mpf(10) ** -5
        e1, scale = error(spec['seed'] + [n], coords, e, got, h)
        e2, _ = error(spec['seed'] + [n], coords, e, got, h / 10)
        # error = C h^2 + O(h^3 or h^4): divided by 100
        tiny = mpmath.mpf(10) ** -14 * (1 + scale)
        ok = e1 < 1e-5 * (1 + scale) and (e2 < tiny or e2 < e1 / 90)
        mon.check(ok, 'second order of consistency', expr=e, got=got, e1=mpmath.nstr(e1, 5), e2=mpmath.nstr(e2, 5))
        seen.append(str(sorted(str(d.variable_count) for d in ders)))
    mon.done(seen, sample=seen[:3], nontrivial=bool(seen))

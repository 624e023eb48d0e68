"""closures produced by the correlation models = derivatives of the correlation at zero separation"""
import itertools
import math
import numpy as np
import sympy
from sympy import Symbol, Function, Derivative, Rational, exp
from ..pkfcommon import rng_for
from ..series import Ring
from ..world import World, close
from .k09 import multi_indices, D

RULE = ('a case is one correlation model, coordinate system, order and history of earlier calls; non-trivial when '
        'each closed term was compared with the derivative of the correlation function at zero separation, computed '
        'by series on random tensor fields; distinct by model, coordinates, order and history')
MIN = {'checked:closure value': 20, 'checked:correlation between two points': 50, 'checked:correlation function': 40,
       'checked:Taylor coefficient': 100}
t, omega = Symbol('t'), Symbol('omega')


def cases(tier, seed):
    out = []
    rng = rng_for('K10', seed)
    one = [['x'], ['y'], ['s'], ['z']]
    two = [['x', 'y'], ['y', 'x'], ['z', 'x'], ['x_1', 'x_2']]
    q = tier == 'quick'
    for model in ('Closure', 'LocGaussian', 'LocGaussianAspect'):
        for order in ((2, 3, 4, 6) if q else (1, 2, 3, 4, 5, 6, 7)):
            for hist in range(3):
                out.append({'model': model, 'coords': rng.choice(one), 'order': order, 'history': hist,
                            'cpu': 120 if q else 900})
    for hist in range(3):
        for order in ((2, 3, 4) if q else (2, 3, 4, 5)):
            out.append({'model': 'LocGaussian', 'coords': rng.choice(two), 'order': order, 'history': hist,
                        'cpu': 120 if q else 900})
    # names of coordinates that are close to those of displacements, or that are several words for sympy
    for c in (['x', 'dx'], ['dx', 'x'], ['x_{1,1}', 'x_{1,2}'], ['x_{1,1}', 'x_{1,2}', 'x_{2,1}'], ['y:2', 'y']):
        out.append({'model': 'LocGaussian', 'coords': c, 'order': 2 if q or len(c) > 2 else 3, 'history': rng.randrange(3), 'cpu': 120 if q else 900})
    for c in ([['x_{1,2}'], ['d']] if q else [['x_{1,2}'], ['d'], ['x:3'], ['dx']]):
        out.append({'model': 'Closure', 'coords': c, 'order': 3, 'history': rng.randrange(3), 'cpu': 120 if q else 900})
    for c in two:
        out.append({'model': 'Closure', 'coords': c, 'order': 0, 'history': 0, 'cpu': 120})
    for c in one[:1] + two:
        out.append({'model': 'Closure', 'coords': c, 'order': None, 'history': 0, 'cpu': 120})
    for c in one[:1] + two[:2] + [['x', 'y', 'z']]:
        out.append({'model': 'LocGaussian', 'coords': c, 'order': None, 'history': 0, 'cpu': 120})
    if not q:
        out.append({'model': 'Closure', 'coords': ['x', 'y'], 'order': 1, 'history': 0, 'cpu': 900})
        out.append({'model': 'LocGaussian', 'coords': ['x', 'y', 'z'], 'order': 4, 'history': 0, 'cpu': 900})
        for c in two:
            out.append({'model': 'LocGaussianAspect', 'coords': c, 'order': 2, 'history': 0, 'cpu': 900})
    names = ['u', '\\theta', 'A', 'h^{a}']
    return [dict(s, seed=['K10', seed, i], field=names[i % 4]) for i, s in enumerate(out)]


def correlation_value(w, model, mf, coords, steps):
    """the correlation function rho(x, x+dx) as a series, from its definition"""
    n = len(coords)
    move = {c: c + d for c, d in zip(coords, steps)}
    dx = sympy.Matrix(steps)
    g, s = mf.metric, mf.aspect
    if model == 'LocGaussian':
        e = exp(-Rational(1, 2) * (dx.T * g * dx)[0])
    elif model == 'LocGaussianAspect':
        e = exp(-Rational(1, 2) * (dx.T * s.inv() * dx)[0])
    else:
        sy = sympy.Matrix(n, n, lambda i, j: s[i, j].func(*[move.get(a, a) for a in s[i, j].args]))
        m = (s + sy)
        e = (s.det() ** Rational(1, 4) * sy.det() ** Rational(1, 4) / (m / 2).det() ** Rational(1, 2)
             * exp(-(dx.T * m.inv() * dx)[0]))
    return w.ev(e)


def pointwise(spec, mon, c, mf, coords):
    """the correlation between two points, with random positive definite tensors at each"""
    rng = rng_for(*spec['seed'], 'pointwise')
    n = len(coords)
    for trial in range(4):
        other = tuple(Symbol(x.name + '_o') for x in coords)
        px, py = ({x: rng.uniform(-1, 1) for x in p} for p in (coords, other))
        S = []
        for _ in range(2):
            a = np.array([[rng.uniform(-.3, .3) for _ in range(n)] for _ in range(n)])
            S.append(np.eye(n) * rng.uniform(.5, 2.) + a @ a.T)
        if trial == 3:
            S[1] = S[0]
        dx = np.array([px[a] - py[b] for a, b in zip(coords, other)])
        M = S[0] + S[1]
        want = (np.linalg.det(S[0]) * np.linalg.det(S[1])) ** .25 / np.linalg.det(M / 2) ** .5 * math.exp(-dx @ np.linalg.inv(M) @ dx)
        forms = [('correlation', {}, mf.aspect, S, want), ('correlation_in_diffusion', {}, mf.diffusion, [.5 * s for s in S], want)]
        if spec['model'] == 'LocGaussian':
            # the tensor is the one of the first point
            want = math.exp(-.5 * dx @ np.linalg.inv(S[0]) @ dx)
            forms = [('correlation', {}, mf.metric, [np.linalg.inv(s) for s in S], want),
                     ('correlation', {'metric': True}, mf.metric, [np.linalg.inv(s) for s in S], want),
                     ('correlation', {'metric': False}, mf.aspect, S, want)]
        for name, kw, tensor, values, want in forms:
            e = getattr(c, name)(coords, other, **kw)
            vals = {**px, **py}
            for i in range(n):
                for j in range(n):
                    f = tensor[i, j]
                    vals[f] = values[0][i, j]
                    vals[f.func(*[dict(zip(coords, other)).get(a, a) for a in f.args])] = values[1][i, j]
            got = float(e.xreplace({k: sympy.Float(v) for k, v in vals.items()}))
            mon.check(abs(got - want) < 1e-10, 'correlation between two points', which=(name, kw), got=got, want=want)
    mon.done((spec['model'], spec['coords'], 'pointwise'), sample=got, nontrivial=True)


def run(spec, mon):
    from sympkf.symbolic.pkfcas import Closure, LocGaussianClosure, Field
    from sympkf.symbolic.random import Expectation as E
    coords = tuple(Symbol(c) for c in spec['coords'])
    n = len(coords)
    f = Function(spec['field'])(t, *coords)
    mf = Field(f)
    model, order = spec['model'], spec['order']

    class Aspect(LocGaussianClosure):
        def correlation(self, px, py, metric=True):
            return super().correlation(px, py, metric=False)
    cls = {'Closure': Closure, 'LocGaussian': LocGaussianClosure, 'LocGaussianAspect': Aspect}[model]
    c = cls(f if spec['seed'][2] % 2 else mf)
    eps = mf.epsilon
    if order is None:
        return pointwise(spec, mon, c, mf, coords)
    # world: positive definite tensors
    steps = [Symbol('h%d' % k) for k in range(n)]
    shown = [Symbol('d' + x.name) for x in coords]
    top = max(order, 2 if n > 1 else 4)
    R = Ring(((tuple(x.name for x in coords), top + 1), (tuple(s.name for s in steps), top)), 'float')
    w = World(R, {**{x.name: 0.4 for x in coords}, 't': 0.2}, 1, repr(spec['seed']), E, steps=[s.name for s in steps])
    for T in (mf.metric, mf.aspect):
        for i in range(n):
            for j in range(i, n):
                val = w.field(('tensor', str(T[i, j])), [x.name for x in coords], False,
                              const=(1.2, 1.8) if i == j else (0.2, 0.4), amp=0.3)
                w.defs[T[i, j]] = val
                if T is mf.aspect:
                    w.defs[mf.diffusion[i, j]] = val.scale(0.5)
    rho = correlation_value(w, model, mf, coords, steps)
    # the correlation function itself
    near = tuple(x + d for x, d in zip(coords, steps))
    models = [c.correlation(coords, near)]
    if model == 'Closure':
        models += [c.correlation(near, coords), c.correlation_in_diffusion(coords, near), c.correlation_in_diffusion(near, coords)]
    for k, m in enumerate(models):
        ok, gap = close(w.ev(m).c, rho.c, 1e-8)
        mon.check(ok, 'correlation function', model=model, which=k, gap=gap, value=m)
    same = c.correlation(coords, coords)
    ok, gap = close(w.value(same), 1., 1e-10)
    mon.check(ok, 'correlation is 1 at zero separation', value=same)
    if spec['history'] == 1:
        c.taylor(order + 1)
    elif spec['history'] == 2:
        c.closure(max(1, order - 1))
        if n == 1:
            c.closure(order + 1)
            c.in_metric_by_order(max(2, order - 1))
    got = c.closure(order)
    by = c.closure_by_order(order)
    want = {d: {E(eps * D(eps, coords, a)): a for a in multi_indices(n, d)} for d in range(order + 1)}
    mon.check(set(by) == set(want) and all(set(by[d]) == set(want[d]) for d in want), 'closed terms',
              got={d: list(v) for d, v in by.items()}, order=order)
    merged = {}
    for d in by:
        merged.update(by[d])
    mon.check(merged == got, 'closure merges its orders', got=got, by=by)
    for d in want:
        for term, a in want[d].items():
            if term not in got:
                continue
            e = [0] * len(R.vars)
            for s, k in zip(steps, a):
                e[R.pos[s.name]] = k
            truth = rho.at(e) * math.prod(math.factorial(k) for k in a)
            ok, gap = close(w.value(got[term]), truth, 1e-8)
            mon.check(ok, 'closure value', model=model, term=term, value=got[term], gap=gap, truth=truth)
    # the Taylor expansion: the terms of degree < order in each displacement, no other, whatever was expanded before
    for o in ([order + 1, max(1, order), order + 1] if n == 1 else [order + 1] if model == 'Closure' else [order, order + 1]):
        if o < 1 or (o > order and model == 'Closure' and n > 1 and order > 0):
            continue
        if set(shown) & set(coords):
            break           # a coordinate has the name of a displacement
        p = sympy.Poly(sympy.expand(c.taylor(o)), *shown)
        mon.check(all(k < o for m in p.monoms() for k in m), 'degree of the Taylor expansion', order=o, got=p.monoms())
        for e in itertools.product(range(min(o, top + 1)), repeat=n):
            if sum(e) > top:
                continue
            idx = [0] * len(R.vars)
            for s_, k in zip(steps, e):
                idx[R.pos[s_.name]] = k
            coeff = p.coeff_monomial(sympy.prod([s_ ** k for s_, k in zip(shown, e)]))
            ok, gap = close(w.value(coeff), rho.at(idx), 1e-8)
            mon.check(ok, 'Taylor coefficient', model=model, order=o, power=e, value=coeff, gap=gap)
    # written in metric
    if order >= 2 and (n == 1 or model == 'LocGaussian') and model != 'LocGaussianAspect':
        inm = c.in_metric_by_order(order)
        s00 = mf.aspect[0, 0]
        for d in want:
            for term, a in want[d].items():
                v = inm[d][term]
                mon.check(not v.has(type(s00)), 'closure in metric has no aspect', term=term, value=v)
                if d == 2:
                    i, j = [k for k in range(n) for _ in range(a[k])]
                    ok, gap = close(w.value(v), w.value(-mf.metric[i, j]), 1e-8)
                    mon.check(ok, 'second order gives the metric', term=term, value=v)
                elif model == 'Closure':
                    w2 = World(R, w.coords, 1, w.seed, E, steps=w.steps)
                    w2.defs[mf.metric[0, 0]] = w.ev(mf.metric[0, 0])
                    w2.defs[s00] = w.ev(mf.metric[0, 0]).inv()
                    ok, gap = close(w2.value(v), w2.value(got[term]), 1e-8)
                    mon.check(ok, 'closure in metric value', term=term, value=v, aspect=got[term])
                else:
                    ok, gap = close(w.value(v), w.value(got[term]), 1e-8)
                    mon.check(ok, 'closure in metric value', term=term, value=v, aspect=got[term])
        mon.check(c.closure(order) == got, 'closure unchanged by its metric form')
    mon.done((model, spec['coords'], order, spec['history']), sample=(model, list(got.items())[-1]), nontrivial=True)

"""the trend of a generated finite-difference model is the discretised right-hand side"""
import numpy as np
import sympy
from sympy import Derivative, Function, Symbol, Integer
from ..grid import agree
from ..models import Data, clean, exec_class, systems, LARGE, unambiguous, t
from ..pkfcommon import rng_for
from ..runtime import Inconclusive

RULE = ('a case is a random, named or PKF-closed system in one to three dimensions; non-trivial when the code generated '
        'for it was executed on random periodic data and its trend compared, point by point, with an independent '
        'evaluation of the right-hand sides by centred stencils; distinct by the system')
MIN = {'checked:trend': 60, 'trend calls': 120, 'derivatives evaluated': 100}
NAMED = ['burgers', 'kuramoto', 'diffusion', 'advection', 'advection_in_2D', 'diffusion_in_2D', 'advection_in_3D']
PKF = [('burgers', 'in_metric'), ('burgers', 'in_aspect'), ('advection1', 'in_metric'), ('advection1', 'in_aspect'),
       ('reaction', 'in_metric'), ('advection2', 'in_metric'), ('advection2', 'in_aspect'), ('diffusion', 'in_aspect'),
       ('burgers', 'in_diffusion')]


def cases(tier, seed):
    n = 240 if tier == 'quick' else 2000
    out = [{'seed': ['B01', seed, 'named', d], 'named': d, 'cpu': 60} for d in NAMED]
    out += [{'seed': ['B01', seed, 'pkf', d, s], 'pkf': [d, s], 'cpu': 90} for d, s in PKF]
    out += [{'seed': ['B01', seed, k], 'which': k % 9, 'cpu': 60} for k in range(n)]
    out += [{'seed': ['B01', seed, w, k], 'which': w, 'cpu': 60} for w in LARGE for k in range(8 if tier == 'quick' else 60)]
    out += [{'seed': ['B01', seed, 'large', n, d], 'large': n, 'dim': d, 'cpu': 90}
            for n in (127, 128, 129, 255, 256, 257, 1000, 32767, 32768, 40001, 65535, 65536, 70001) for d in (1, 2, 3)]
    if tier != 'quick':
        out += [{'seed': ['B01', seed, 'large', n, d], 'large': n, 'dim': d, 'cpu': 300} for n in (10 ** 6, 3 * 10 ** 6) for d in (1, 2)]
    return out


def pkf_system(name, form):
    from sympkf.symbolic.pkfcas import SymbolicPKF
    from sympkf.symbolic.util import Eq
    x, y, k = sympy.symbols('x y kappa')
    if name == 'advection2':
        u, a, b = Function('u')(t, x, y), Function('a')(x, y), Function('b')(x, y)
        eq = Eq(Derivative(u, t), -a * Derivative(u, x) - b * Derivative(u, y))
    else:
        u, a = Function('u')(t, x), Function('a')(x)
        eq = Eq(Derivative(u, t), {'burgers': -u * Derivative(u, x) + k * Derivative(u, x, 2),
                                   'diffusion': k * Derivative(u, x, 2),
                                   'advection1': -a * Derivative(u, x),
                                   'reaction': -u * Derivative(u, x) + k * u}[name])
    pkf = SymbolicPKF(eq)
    for term in list(pkf.unclosed_terms):
        g = pkf.fields[u].metric[0]
        s = pkf.fields[u].aspect[0]
        p18 = 3 * g ** 2 - 2 * Derivative(g, x, 2)
        if form != 'in_metric':
            p18 = p18.subs(g, 1 / s).doit().expand()
        pkf.set_closure({term: p18})
    system = getattr(pkf, form)
    return [(e.args[0].args[0], e.args[1]) for e in system], system


def closed(eqs):
    from sympkf.symbolic.random import Expectation
    return not any(r.atoms(Expectation) for _, r in eqs)


def variant(rng, state, mon):
    """the same kind of data in another guise: whole numbers, another memory layout, read only"""
    kind = rng.choice(['whole numbers', 'fortran order', 'view', 'read only'])
    mon.observe('state: ' + kind)
    if kind == 'whole numbers':
        return np.rint(state * 3).astype(rng.choice([int, np.int32]))
    if kind == 'fortran order':
        return np.asfortranarray(state)
    if kind == 'view':
        big = np.zeros((state.shape[0],) + tuple(2 * n for n in state.shape[1:]))
        out = big[(slice(None, None, -1),) + tuple(slice(None, None, 2) for _ in state.shape[1:])]
        out[...] = state
        return out
    out = state.copy()
    out.setflags(write=False)
    return out


def large(spec, mon):
    """grids with many points along one coordinate"""
    from sympkf.symbolic.util import Eq
    from sympkf.symbolic.model_builder_FD import FDModelBuilder
    rng = rng_for(*spec['seed'])
    x, y, k = sympy.symbols('x y kappa')
    n = spec['large']
    if spec['dim'] == 1:
        u = Function('u')(t, x)
        eqs, shape = [(u, -u * Derivative(u, x) + k * Derivative(u, x, 2))], (n,)
    else:
        u, a = Function('u')(t, x, y), Function('a')(x, y)
        eqs = [(u, -a * Derivative(u, x) - u * Derivative(u, y) + k * Derivative(u, x, y))]
        shape = (3, n) if spec['dim'] == 2 else (n, 3)
    lengths = tuple(rng.choice([1.0, 40.0]) for _ in shape)
    data = Data(rng, eqs, shape, lengths)
    model = exec_class(FDModelBuilder([Eq(Derivative(q, t), r) for q, r in eqs]).code, 'NumModel')(shape=shape, lengths=lengths, **data.kwargs())
    for i, (N, L) in enumerate(zip(shape, lengths)):
        mon.check(np.allclose(model.x[i], np.arange(N) * (L / N), rtol=1e-12, atol=0), 'points of a large grid', axis=i, n=N)
    got = model.trend(0.1, data.state)
    ref, g = data.reference(eqs, 0.1, data.state)
    mon.observe('trend calls')
    mon.observe('derivatives evaluated', g.derivatives)
    gap = agree(got[0], ref[0])
    mon.check(gap <= 1, 'trend', rhs=eqs[0][1], gap=gap, shape=shape, lengths=lengths)
    mon.done((n, spec['dim']), sample=f'{eqs} on {shape}')


def run(spec, mon):
    if 'large' in spec:
        return large(spec, mon)
    from sympkf.symbolic.util import PDESystem, Eq
    from sympkf.symbolic.model_builder_FD import FDModelBuilder
    import sympkf.symbolic.dynamics as dynamics
    rng = rng_for(*spec['seed'])
    arg = None
    if 'named' in spec:
        arg = getattr(dynamics, spec['named'])
        eqs = [(e.args[0].args[0], e.args[1]) for e in arg]
    elif 'pkf' in spec:
        eqs, arg = pkf_system(*spec['pkf'])
        if not closed(eqs):
            raise Inconclusive('not closed')
        # half diffusion tensor or aspect in other coordinates may be left unevaluated
    else:
        eqs = systems(rng, spec['which'])
        if not unambiguous(eqs):
            mon.observe('ambiguous names')
            eqs = systems(rng, spec['which'])
        if not unambiguous(eqs):
            raise Inconclusive('ambiguous names')
        e = [Eq(Derivative(u, t), r) for u, r in eqs]
        arg = [e, PDESystem(e, name='Model'), [sympy.Eq(*q.args) for q in e]][rng.randrange(3)]
        if len(eqs) == 1 and rng.random() < 0.3:
            arg = e[0]
    builder = FDModelBuilder(arg, class_name='Generated')
    code = builder.code
    mon.check(builder.code == code and FDModelBuilder(arg, class_name='Generated').class_name == 'Generated', 'code is stable', code='')
    base = exec_class(code, 'Generated')
    coords = [c for c in max((u.args for u, _ in eqs), key=len) if c != t]
    mon.check(tuple(base.prognostic_functions) == tuple(clean(u.func) for u, _ in eqs), 'order of the prognostic fields',
              got=base.prognostic_functions, eqs=eqs)
    mon.check(tuple(base.coordinates) == tuple(clean(c) for c in coords), 'coordinates', got=base.coordinates, eqs=eqs)
    for trial in range(2):
        lo, hi = {1: (9, 23), 2: (8, 12), 3: (5, 8), 4: (3, 6)}[len(coords)]
        shape = tuple(rng.randint(lo, hi) for _ in coords)
        if rng.random() < 0.15:
            # fewer points than the width of a stencil: the period is covered more than once
            shape = tuple(rng.choice([1, 2, 3, n]) for n in shape)
            mon.observe('small grids')
        lengths = tuple(rng.choice([1.0, 1.0, 2.5, 6.283185307179586, 40.0]) for _ in coords)
        data = Data(rng, eqs, shape, lengths)
        calls = []
        cls = data.with_exogenous(base, calls)
        model = cls(shape=shape, lengths=lengths, **data.kwargs())
        time = rng.choice([0., 0.37, 12.5])
        for rep in range(3):
            state = data.state if rep == 0 else data.state * 1.3 + 0.1
            if rep == 2:
                state = variant(rng, data.state, mon)
            keep = state.copy()
            calls.clear()
            with np.errstate(all='ignore'):
                got = model.trend(time, state)
                ref, g = data.reference(eqs, time, state)
            mon.observe('trend calls')
            mon.observe('derivatives evaluated', g.derivatives)
            mon.check(got.shape == state.shape, 'shape of the trend', got=got.shape, want=state.shape, eqs=eqs)
            for i, (u, r) in enumerate(eqs):
                gap = agree(got[i], ref[i])
                mon.check(gap <= 1, 'trend', field=u, rhs=r, gap=gap, shape=shape, lengths=lengths, code=code[-1500:])
            mon.check(np.array_equal(state, keep), 'the state is not modified', eqs=eqs)
            with np.errstate(all='ignore'):
                again = model.trend(time, state)
            mon.check(again is not got and np.array_equal(again, got, equal_nan=True), 'the trend is a function of (t, state)', eqs=eqs)
            if data.exo:
                mon.check(len(calls) == 2 and all(c[0] == time and np.array_equal(c[1], keep) for c in calls),
                          'exogenous fields computed from (t, state)', calls=[c[0] for c in calls], eqs=eqs)
        if data.const_f or data.consts:
            mon.observe('models with coefficients')
    mon.done([(str(u), str(r)) for u, r in eqs], sample=str(eqs))

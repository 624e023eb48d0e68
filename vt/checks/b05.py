"""names in the generated code"""
import ast
import keyword
import numpy as np
import sympy
from sympy import Derivative, Function, Symbol
from ..grid import agree
from ..models import Data, clean, exec_class, unambiguous, t
from ..pkfcommon import rng_for
from ..runtime import Inconclusive

RULE = ('a case is a batch of random latex names, and a system whose fields, coefficients, constants and coordinates bear '
        'such names; non-trivial when the generated class was executed and its trend compared with the reference; '
        'distinct by the names')
MIN = {'checked:valid python name': 1000, 'checked:trend': 60, 'names of the model refused': 60, 'names of the model accepted': 20}
LETTERS = ['u', 'v', 'w', 'h', 'A', 'B', 'theta', 'phi', 'rho', 'T', 'q', 'c', 'K', 'F', 'uu', 'psi', 'Q']
GREEK = ['\\theta', '\\phi', '\\kappa', '\\lambda', '\\mu', '\\nu', '\\eta', '\\Gamma', '\\sigma', '\\alpha', '\\in',
         '\\varepsilon', '\\Lambda', '\\is', '\\as', '\\or']
SUBS = ['1', '2', 'xx', 'xy', 'u', 'u,xx', 'a,b', '\\alpha', '0', '11', '\\infty', 'max', 'A,xy']
KNOWN = {'\\lambda': 'lambda_', 'lambda': 'lambda_', '\\kappa': 'kappa', '\\kappa_{11}': 'kappa_11', 'V_{u}': 'V_u',
         's_{u,xx}': 's_u_xx', 'f^u_xy': 'f_u_xy', 'u': 'u', '\\in': 'in_', '{g_{u,xx}}': 'g_u_xx', 'h^{a}': 'h_a',
         'U^{\\alpha}_{1,2}': 'U_alpha_1_2', '\\dot{\\phi}': 'dotphi', '{V_{u}}': 'V_u', '{\\nu_{u,xx}}': 'nu_u_xx',
         '{V_{{A}{B}}}': 'V_AB', 'u__b': 'u__b', 'u^{_1}': 'u__1', '\\rho_{,xx}': 'rho__xx', '{_u}': '_u', 'h_{a}^{b}': 'h_a_b', 'T_{1,,2}': 'T_1__2', 'None': 'None_', 'match': 'match'}


def cases(tier, seed):
    n = 192 if tier == 'quick' else 1280
    return [{'seed': ['B05', seed, k], 'cpu': 60} for k in range(n)]


def name(rng):
    base = rng.choice(LETTERS) if rng.random() < 0.5 else rng.choice(GREEK)
    if rng.random() < 0.1:
        base = rng.choice(['\\hat{%s}', '\\dot{%s}', '\\tilde{%s}', '\\bar{%s}']) % base
    if rng.random() < 0.5:
        s = rng.choice(SUBS)
        base += '_{%s}' % s if (len(s) > 1 or rng.random() < .5) else '_' + s
    if rng.random() < 0.25:
        s = rng.choice(SUBS)
        base += '^{%s}' % s if (len(s) > 1 or rng.random() < .5) else '^' + s
    if rng.random() < 0.15:
        base = '{%s}' % base
    if rng.random() < 0.06:         # long names
        base = rng.choice(['%s_{%s}', '%s%s', '{%s}^{%s}']) % (base, ''.join(rng.choice(['a', 'T', 'mean', ',x', 'q', '_o1']) for _ in range(rng.choice([8, 30, 60]))))
    if rng.random() < 0.12:         # names that only differ by a repeated or final separator
        base = rng.choice([base + '_', base + '__1', base + '^{_1}', base + '_{,x}', '_' + base, base + "_{1}^{,}"])
    return base


def twins(rng, mon):
    """different quantities that would have the same name are refused, or the model computes the right thing"""
    from sympkf.symbolic.util import Eq
    from sympkf.symbolic.model_builder_FD import FDModelBuilder
    x = Symbol('x')
    names = ['u', 'w', 'f', 'g', 'a', 'b']
    i, j = rng.sample(range(6), 2)
    names[i], names[j] = rng.choice([('h_{a}', 'h_a'), ('h^a', 'h_a'), ('{q}', 'q'), ('\\mu', 'mu'), ('T_{1,2}', 'T^{1_2}'),
                                     ('\\lambda', 'lambda'), ('k', '{{k}}')])
    if rng.random() < 0.3:
        names[j] = 'other'
        names[i] = rng.choice(['state', 'self', 'dstate', 'np', 'exogenous', 'Du_x_o2', 'Df_x_o1'])
    us = [Function(names[0])(t, x), Function(names[1])(t, x)]
    f, g = Function(names[2])(x), Function(names[3])(t, x)
    a, b = Symbol(names[4]), Symbol(names[5])
    eqs = [(us[0], Derivative(us[0], x, 2) * a + f * us[1]), (us[1], b * g * us[0] - us[1] * Derivative(f, x))]
    try:
        code = FDModelBuilder([Eq(Derivative(u, t), r) for u, r in eqs], class_name='Generated').code
    except ValueError as ex:
        mon.check(len(str(ex)) > 10, 'reason of a refusal', got=str(ex), names=names)
        mon.observe('names refused')
        return
    mon.check('other' in names, 'two quantities under one name', names=names, code=code[-1500:])
    cls = exec_class(code, 'Generated')
    data = Data(rng, eqs, (8,), (1.0,))
    model = data.with_exogenous(cls, [])(shape=(8,), lengths=(1.0,), **data.kwargs())
    got = model.trend(0.2, data.state)
    ref, _ = data.reference(eqs, 0.2, data.state)
    mon.check(all(agree(p, q) <= 1 for p, q in zip(got, ref)), 'trend under a name the code uses', names=names)


def attributes(rng, mon):
    """constants named as what a model has of its own, coordinates of the same name: refused, or the model works"""
    from sympkf.symbolic.util import Eq
    from sympkf.symbolic.model_builder_FD import FDModelBuilder
    from sympkf.symbolic.model_builder_manifold import ManifoldModelBuilder
    x, y = Symbol('x_{1}'), Symbol('y')
    what = rng.choice(['constant', 'constant function', 'coordinates'])
    builder = rng.choice([FDModelBuilder, FDModelBuilder, ManifoldModelBuilder])
    n = rng.choice(['dx', 'dx', 'index', 'shape', 'lengths', 'X', 'trend', 'dt', 'forecast', 'predict', 'window', 'time_scheme',
                    'coordinates', 'constants', 'constant_functions', '_index', 'set_dt', 'ensemble_{forecast}', '\\dx', '{shape}',
                    'base_{space}', 'compute_{exogenous}', 'prognostic_functions', 'd_x', 'X_1', 'shapes', 'T', 'n', 'kwargs', 'key', 'function', 'constant'])
    a, f = Symbol('a_1'), Function('f_1')(x, y)
    if what == 'constant':
        a = Symbol(n)
    elif what == 'constant function':
        f = Function(n)(x, y)
    else:
        n, y = 'x_1', rng.choice([Symbol('x_1'), Symbol('x^1'), Symbol('{x_1}')])
        f = Function('f_1')(x, y)
    u = Function('u')(t, x, y)
    eqs = [(u, a * Derivative(u, x) + f * Derivative(u, y, 2) * u)]
    try:
        code = builder([Eq(Derivative(u, t), r) for u, r in eqs], class_name='Generated').code
    except ValueError as ex:
        mon.check(len(str(ex)) > 10 and clean(n) in str(ex), 'reason of a refusal', got=str(ex), name=n)
        mon.check(n not in ('d_x', 'X_1', 'shapes', 'T', 'n'), 'name refused without a reason', got=str(ex), name=n)
        mon.observe('names of the model refused')
        return
    mon.check(what != 'coordinates', 'two coordinates under one name', names=[x, y], code=code[:1500])
    cls = exec_class(code, 'Generated')
    if builder is not FDModelBuilder:
        return
    data = Data(rng, eqs, (8, 6), (1.0, 2.0))
    model = data.with_exogenous(cls, [])(shape=(8, 6), lengths=(1.0, 2.0), time_scheme='euler', **data.kwargs())
    ok = tuple(model.shape) == (8, 6) and tuple(model.lengths) == (1.0, 2.0) and len(model.x) == 2 and len(model.X) == 2
    mon.check(ok and np.allclose(model.dx, (1 / 8, 1 / 3)) and np.allclose(model.X[1], np.arange(6) / 3) and
              list(model.coordinates) == ['x_1', 'y'], 'the grid of a model is not replaced by a constant', name=n)
    got = model.trend(0.2, data.state)
    ref, _ = data.reference(eqs, 0.2, data.state)
    mon.check(agree(got[0], ref[0]) <= 1, 'trend with a name of the model', name=n, kind_of=what)
    model.set_dt(0.01)
    traj = model.forecast(model.window(0.02), data.state)
    mon.check(len(traj) == 3 and np.allclose(model.predict(model.window(0.02), data.state), list(traj.values())),
              'forecast with a name of the model', name=n, kind_of=what)
    mon.observe('names of the model accepted')


def run(spec, mon):
    from sympkf.symbolic.tool import clean_latex_name
    from sympkf.symbolic.util import Eq
    from sympkf.symbolic.model_builder_FD import FDModelBuilder
    rng = rng_for(*spec['seed'])
    for k, v in KNOWN.items():
        mon.check(clean_latex_name(k) == v and clean_latex_name(Symbol(k)) == v, 'documented name', name=k,
                  got=clean_latex_name(k), want=v)
    for _ in range(40):
        n = name(rng)
        got = clean_latex_name(n)
        mon.check(isinstance(got, str) and got.isidentifier() and not keyword.iskeyword(got), 'valid python name', name=n, got=got)
        mon.check(got == clean(n) and clean_latex_name(Symbol(n)) == got and clean_latex_name(Function(n)) == got,
                  'documented name', name=n, got=got, want=clean(n))
        mon.check(clean_latex_name(got) == got, 'cleaning twice changes nothing', name=n, got=got)
    for _ in range(3):
        twins(rng, mon)
        attributes(rng, mon)
    for _ in range(20):
        d = rng.choice([1, 1, 2])
        coords = [Symbol(rng.choice([c, c, rng.choice(['\\theta', 'r', 's', '\\xi', 'x_{1}', 'x_1', 'x_{1,2}', '\\xi_{a,b}^{c}', 'd%s' % c, '\\lambda', 'z^{*}'.replace('*', 'a')])]))
                  for c in ['x', 'y'][:d]]
        if len({clean(c) for c in coords}) < d:
            continue
        us = [Function(name(rng))(t, *coords) for _ in range(rng.choice([1, 2]))]
        names = [name(rng) for _ in range(4)]
        if rng.random() < 0.25:         # the name a trend could have
            spare = 'd' * rng.choice([1, 1, 2]) + us[0].func.__name__
            k = rng.randrange(-1, 4)
            if k >= 0:
                names[k] = spare
            else:
                us[1:] = [Function(spare)(t, *coords)]
                if rng.random() < 0.5:  # and the next ones
                    base = us[0].func.__name__
                    us[1:] = [Function('d' * z + base)(t, *coords) for z in rng.choice([(1, 2), (2, 1), (1, 2, 3), (1, 3)])]
                    rng.shuffle(us)
        f, g = Function(names[0])(*coords), Function(names[1])(t, *coords)
        a, b = Symbol(names[2]), Symbol(names[3])
        eqs = []
        for u in us:
            r = -f * Derivative(u, coords[0]) + a * Derivative(u, coords[-1], 2) + b * g * us[-1]
            if rng.random() < 0.5:
                r += Derivative(f, coords[-1]) * us[0] ** 2
            if rng.random() < 0.3:
                r += u / g * Derivative(us[-1], *[(c, 1) for c in coords])
            if rng.random() < 0.3:
                r += Derivative(g, coords[0], 2) * a ** 2
            eqs.append((u, r))
        allnames = {clean(c) for c in coords} | {'t'}
        if unambiguous(eqs) and not any(clean(z.func if z.args else z) in allnames for z in us + [f, g, a, b]):
            break
    else:
        raise Inconclusive('ambiguous names')
    code = FDModelBuilder([Eq(Derivative(u, t), r) for u, r in eqs], class_name='Generated').code
    ast.parse(code)
    cls = exec_class(code, 'Generated')
    announced = [n for kind in ('prognostic_functions', 'constants', 'constant_functions', 'exogenous_functions',
                                'coordinates') for n in getattr(cls, kind, ())]
    mon.check(all(n.isidentifier() and not keyword.iskeyword(n) for n in announced), 'valid announced names', got=announced)
    mon.check(list(cls.coordinates) == [clean(c) for c in coords], 'announced coordinates', got=cls.coordinates, want=coords)
    shape = tuple(rng.randint(6, 9) for _ in coords)
    lengths = tuple(rng.choice([1.0, 2.0]) for _ in coords)
    data = Data(rng, eqs, shape, lengths)
    model = data.with_exogenous(cls, [])(shape=shape, lengths=lengths, **data.kwargs())
    got = model.trend(0.2, data.state)
    ref, _ = data.reference(eqs, 0.2, data.state)
    for i, (u, r) in enumerate(eqs):
        mon.check(agree(got[i], ref[i]) <= 1, 'trend', field=u, rhs=r, gap=agree(got[i], ref[i]))
    mon.done(sorted(announced), sample=sorted(announced))

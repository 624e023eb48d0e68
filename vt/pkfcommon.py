"""Shared by the derivation checks: build a random PDE, derive, compare with the reference."""
import sympy
from sympy import Derivative, Symbol

from . import gen
from .pkfworld import Trial
from .runtime import Inconclusive, rng_for
from .series import Uninterpretable

t = Symbol('t')


def api():
    import sympkf.symbolic as S
    from sympkf.symbolic.random import Expectation
    from sympkf.symbolic.pkfcas import SymbolicPKF
    from sympkf.symbolic.util import PDESystem, Eq
    return S, Expectation, SymbolicPKF, PDESystem, Eq


def build(spec):
    """(eqs, info, pkf): the system handed over in one of the accepted forms"""
    _, E, SymbolicPKF, PDESystem, Eq = api()
    if 'fixed' in spec:
        eqs, info = FIXED[spec['fixed']]()
    else:
        eqs, info = gen.pde_system(rng_for(*spec['seed']), **spec['opts'])
    pkf = make(spec, eqs)
    if not spec.get('pristine'):
        touch(spec, pkf, eqs)
    return eqs, info, pkf, E


def touch(spec, pkf, eqs):
    """what the caller reads before, which changes nothing"""
    rng = rng_for(*spec['seed'], 'touch')
    if rng.random() < 0.5:
        return
    names = ['first_order_reynolds_system', 'second_order_reynolds_system', 'expectation_system', 'expectation_system',
             'tl_expectation_system', 'error_system', 'internal_closure', 'subs_tree', 'variance_system', 'std_system', 'cross_covariance_system']
    if len(eqs) == 1 and len(eqs[0][0].args) <= 2 and spec.get('cpu', 0) <= 30 and 'fixed' not in spec:
        names += ['epsilon_system', 'metric_system', 'in_metric', 'unclosed_terms']
    for name in rng.sample(names, rng.choice([1, 1, 2, 4])):
        getattr(pkf, name)


def make(spec, eqs, closure=None):
    _, E, SymbolicPKF, PDESystem, Eq = api()
    form = spec.get('form', 0)
    if form == 0:
        arg = [Eq(Derivative(u, t), r) for u, r in eqs]
    elif form == 1:
        arg = [sympy.Eq(Derivative(u, t), r) for u, r in eqs]
    else:
        arg = PDESystem([Eq(Derivative(u, t), r) for u, r in eqs], name='dyn')
    if form == 3 and len(eqs) == 1:
        arg = Eq(Derivative(eqs[0][0], t), eqs[0][1])
    return SymbolicPKF(arg) if closure is None else SymbolicPKF(arg, closure=closure)


def upper(mat):
    n = mat.shape[0]
    return [mat[i, j] for i in range(n) for j in range(i, n)]


def pairs(fields):
    return [(a, b) for i, a in enumerate(fields) for b in fields[i + 1:]]


def expected_lhs(pkf, eqs, E, system):
    """the unknowns a system must give the trend of (as a list)"""
    fields = [u for u, _ in eqs]
    mf = {u: pkf.fields[u] for u in fields}
    mean = [E(mf[u].random) for u in fields]
    plain = [mf[u].value for u in fields]
    var = [mf[u].variance for u in fields]
    cov = [pkf.get_covariance(a, b) for a, b in pairs(fields)]
    met = [g for u in fields for g in upper(mf[u].metric)]
    dif = [g for u in fields for g in upper(mf[u].diffusion)]
    asp = [g for u in fields for g in upper(mf[u].aspect)]
    table = {
        'expectation_system': mean,
        'tl_expectation_system': mean,
        'error_system': [mf[u].error for u in fields],
        'variance_system': var,
        'std_system': [mf[u].std for u in fields],
        'epsilon_system': [mf[u].epsilon for u in fields],
        'cross_covariance_system': cov,
        'metric_system': met,
        'in_metric': plain + var + cov + met,
        'in_diffusion': plain + var + cov + dif,
        'in_aspect': plain + var + cov + asp,
    }
    return [Derivative(q, t) for q in table[system]]


def bare_random(expr, E):
    """random functions met outside every expectation"""
    out, todo = set(), [expr]
    while todo:
        e = todo.pop()
        if isinstance(e, E):
            continue
        if isinstance(e, sympy.Function) and any(a == Symbol('omega') for a in e.args):
            out.add(e)
        todo.extend(e.args)
    return out


def time_derivatives(expr):
    return [d for d in expr.atoms(Derivative) if any(v == t for v, _ in d.variable_count)]


def check_system(mon, spec, pkf, eqs, E, system, trials, random_ok=False, allowed=None):
    """one equation per unknown; rhs free of trends; both sides equal in every world"""
    got = getattr(pkf, system)
    want = expected_lhs(pkf, eqs, E, system)
    got = [] if got is None else list(got)
    lhs = [e.args[0] for e in got]
    mon.check(len(lhs) == len(want) and set(lhs) == set(want), f'unknowns of {system}',
              got=[str(z) for z in lhs], want=[str(z) for z in want], eqs=eqs)
    for e in got:
        l, r = e.args
        mon.check(not time_derivatives(r), f'trend left in {system}', eq=e, eqs=eqs)
        mon.check(not [d for d in r.atoms(Derivative) if not d.args[0].free_symbols], f'derivative of a number left in {system}', eq=e, eqs=eqs)
        if not random_ok:
            mon.check(not bare_random(r, E), f'random term left in {system}', eq=e, eqs=eqs)
        if allowed is not None:
            bad = allowed(r)
            mon.check(not bad, f'foreign term in {system}', bad=bad, eq=e, eqs=eqs)
        for tr in trials:
            try:
                ok, detail = tr.equal(l, r)
            except Uninterpretable as ex:
                mon.observe('uninterpretable')
                if spec.get('fixed'):
                    raise Inconclusive(f'uninterpretable {ex}')
                continue
            mon.check(ok, f'value of {system}', lhs=l, rhs=r, detail=detail, eqs=eqs)
    return got


def trials(pkf, eqs, spec, E, n=2, overrides=None):
    return [Trial(pkf, eqs, repr((spec.get('seed'), 'world', k)), E, overrides) for k in range(n)]


# -- named dynamics ----------------------------------------------------------------------
def _f(name, *coords):
    return sympy.Function(name)(*coords)


def _burgers():
    x, k = sympy.symbols('x kappa')
    u = _f('u', t, x)
    return [(u, -u * Derivative(u, x) + k * Derivative(u, x, 2))], {}


def _ks():
    x, k, eta = sympy.symbols('x \\kappa \\eta')
    u = _f('u', t, x)
    return [(u, -u * Derivative(u, x) - k * Derivative(u, x, 2) - eta * Derivative(u, x, 4))], {}


def _kdv():
    x = Symbol('x')
    u = _f('u', t, x)
    return [(u, -6 * u * Derivative(u, x) - Derivative(u, x, 3))], {}


def _sw():
    x, g = sympy.symbols('x g')
    u, h = _f('u', t, x), _f('h', t, x)
    return [(u, -u * Derivative(u, x) - g * Derivative(h, x)),
            (h, -u * Derivative(h, x) - h * Derivative(u, x))], {}


def _oscillator():
    x, k = sympy.symbols('x k')
    a, b = _f('A', t, x), _f('B', t, x)
    u = _f('u', x)
    return [(a, -u * Derivative(a, x) + k * b), (b, -u * Derivative(b, x) - k * a)], {}


def _lv():
    x, k = sympy.symbols('x k_1')
    a, b = _f('A', t, x), _f('B', t, x)
    u = _f('u', t, x)
    return [(a, -u * Derivative(a, x) + k * a - a * b), (b, -u * Derivative(b, x) - k * b + a * b)], {}


def _chem3():
    x, k = sympy.symbols('x k')
    a, b, c = _f('A', t, x), _f('B', t, x), _f('C', t, x)
    u = _f('u', x)
    return [(a, -u * Derivative(a, x) - k * a * b), (b, -u * Derivative(b, x) - k * a * b),
            (c, -u * Derivative(c, x) + k * a * b)], {}


def _adv2():
    x, y = sympy.symbols('x y')
    c, u, v = _f('c', t, x, y), _f('u', x, y), _f('v', x, y)
    return [(c, -u * Derivative(c, x) - v * Derivative(c, y))], {}


def _diff2():
    x, y, k = sympy.symbols('x y kappa')
    c = _f('c', t, x, y)
    return [(c, k * (Derivative(c, x, 2) + Derivative(c, y, 2)))], {}


def _adv3():
    x, y, z = sympy.symbols('x y z')
    c, u, v, w = _f('c', t, x, y, z), _f('u', x, y, z), _f('v', x, y, z), _f('w', x, y, z)
    return [(c, -u * Derivative(c, x) - v * Derivative(c, y) - w * Derivative(c, z))], {}


def _cubic():
    x = Symbol('x')
    u = _f('u', t, x)
    return [(u, Derivative(u, x, 2) + u - u ** 3)], {}


def _conv2():
    x, y, b = sympy.symbols('x y b')
    u, v = _f('u', t, x, y), _f('v', t, x, y)
    return [(u, -u * Derivative(u, x) - v * Derivative(u, y) + b * v),
            (v, -u * Derivative(v, x) - v * Derivative(v, y) - b * u)], {}


def _mixed2():
    x, y = sympy.symbols('x y')
    u = _f('u', t, x, y)
    D = _f('D', x, y)
    return [(u, D * Derivative(u, x, y) - u * Derivative(u, y))], {}


def _squares():
    x, k = sympy.symbols('x k')
    u = _f('u', t, x)
    return [(u, Derivative(u, x, 2) ** 2 - k * u)], {}


FIXED = {'squares': _squares, 'burgers': _burgers, 'ks': _ks, 'kdv': _kdv, 'sw': _sw, 'oscillator': _oscillator, 'lv': _lv,
         'chem3': _chem3, 'adv2': _adv2, 'diff2': _diff2, 'adv3': _adv3, 'cubic': _cubic,
         'conv2': _conv2, 'mixed2': _mixed2}
ONE_D = ['burgers', 'ks', 'kdv', 'sw', 'oscillator', 'lv', 'chem3', 'cubic', 'squares']


def spread(tier, seed, pid, mix, fixed=(), scale=6, quick=2):
    """mix: [(count, cpu, opts)] -> specs, interleaved so that every worker gets every kind"""
    out = [{'fixed': f, 'seed': [pid, seed, f], 'form': i % 4, 'cpu': cpu} for i, (f, cpu) in enumerate(fixed)]
    groups = []
    for g, (count, cpu, opts) in enumerate(mix):
        n = quick * count if tier == 'quick' else quick * count * scale
        groups.append([{'seed': [pid, seed, g, k], 'opts': opts, 'form': (k + g) % 4,
                        'cpu': cpu if tier == 'quick' else 3 * cpu} for k in range(n)])
    while any(groups):
        for g in groups:
            if g:
                out.append(g.pop(0))
    return out

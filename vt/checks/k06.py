"""cross-covariance dynamics of multivariate systems"""
from ..gen import shape_class
from ..pkfcommon import build, check_system, trials, spread, pairs

RULE = ('a case is one system of 1 to 4 evolution equations; non-trivial when the cross-covariance equation of '
        'every couple was evaluated on both sides in a world of 8 outcomes; distinct by shape')
MIN = {'checked:value of cross_covariance_system': 20, 'checked:refused every time': 20}


LABELS = [['C', 'OH', 'CO', 'H'], ['CO', 'H', 'OH', 'C'], ['a', 'bb', 'b', 'ab'], ['a', 'ba', 'ab'], ['ab', 'ba', 'a'],
          ['u', 'uu', 'uuu'], ['N', 'O', 'NO', 'N_2', 'NO_2'], ['u_1', 'u', '1u', '_1u'], ['h_a', 'h_{a}'], ['u', 'u^{a}', 'u_a']]


def cases(tier, seed):
    mix = [(4, 40, dict(dim=0, nfields=6, max_degree=3, nterms=(1, 3))),
           (4, 40, dict(dim=1, nfields=2, max_order=8, max_degree=1, nterms=(1, 2))),
           (12, 20, dict(dim=1, nfields=2, max_order=3, max_degree=3)),
           (10, 25, dict(dim=1, nfields=3, max_order=2, max_degree=2)),
           (4, 30, dict(dim=1, nfields=4, max_order=1, max_degree=2)),
           (8, 20, dict(dim=1, nfields=2, max_order=2, nonpoly=0.4, explicit=0.2)),
           (8, 25, dict(dim=2, nfields=2, max_order=2, nterms=(1, 2), max_degree=2)),
           (2, 40, dict(dim=2, nfields=3, max_order=1, nterms=(1, 2), max_degree=2)),
           (6, 20, dict(dim=1, nfields=2, max_order=4, linear=True)),
           (2, 20, dict(dim=1, nfields=1)),
           (8, 20, dict(dim=0, nfields=3, max_degree=3, nonpoly=0.2)),
           (6, 20, dict(dim=1, nfields=2, max_order=2, max_degree=2, forcing=0.5)),
           (3, 20, dict(dim=1, nfields=3, max_order=1, max_degree=2, forcing=0.3))]
    fixed = [(f, 60) for f in ('sw', 'lv', 'chem3', 'oscillator', 'conv2', 'burgers')]
    out = spread(tier, seed, 'K06', mix, fixed)
    for k, names in enumerate(LABELS):
        out.append({'seed': ['K06', seed, 'labels', k], 'labels': names, 'cpu': 40})
    return out + [{'seed': ['K06', seed, 'refused', k], 'refused': True, 'cpu': 20} for k in range(12 if tier == 'quick' else 60)]


def refused(spec, mon):
    """fields without the same coordinates have no cross-covariance: never equations, at whatever attempt"""
    import sympy
    from ..pkfcommon import api, t
    from ..runtime import rng_for
    _, E, SymbolicPKF, PDESystem, Eq = api()
    rng = rng_for(*spec['seed'])
    x, y = sympy.symbols('x y')
    args = rng.sample([(t, x), (t, y), (t,), (t, x, y), (t, y, x)], 2)
    args.insert(rng.randrange(3), rng.choice(args))
    fields = [sympy.Function(n)(*a) for n, a in zip(['u', 'v', 'w'], args)]
    eqs = [Eq(sympy.Derivative(u, t), -u * rng.choice(fields)) for u in fields]
    pkf = SymbolicPKF(eqs)
    names = ['cross_covariance_system', 'in_metric', 'in_diffusion', 'variance_system', 'cross_covariance_system', 'in_metric', 'unclosed_terms']
    rng.shuffle(names)
    for n in ['cross_covariance_system'] + names + names:
        try:
            got = getattr(pkf, n)
            ok = n == 'variance_system'
        except Exception:
            got, ok = None, True
        mon.check(ok, 'refused every time', system=n, got=got, fields=fields)
    mon.done((args, names), sample=eqs)


def labels(spec, mon):
    """fields whose names can be confused once they are put together"""
    import sympy
    from ..models import clean
    from ..pkfcommon import api, t
    from ..runtime import rng_for
    _, E, SymbolicPKF, PDESystem, Eq = api()
    rng = rng_for(*spec['seed'])
    x, k = sympy.symbols('x k')
    fields = [sympy.Function(n)(t, x) for n in spec['labels']]
    eqs = [(u, -k * u * fields[i - 1] - u * sympy.Derivative(u, x)) for i, u in enumerate(fields)]
    same = len({clean(n) for n in spec['labels']}) < len(fields)
    try:
        pkf = SymbolicPKF([Eq(sympy.Derivative(u, t), r) for u, r in eqs])
    except ValueError:
        if not same:
            raise
        mon.observe('fields of same name refused')
        mon.done(spec['labels'], sample=eqs)
        return
    used = [(u, getattr(pkf.fields[u], q)) for u in fields for q in ('value', 'random', 'error', 'epsilon', 'variance', 'std')]
    used += [((a, b), pkf.get_covariance(a, b)) for a, b in pairs(fields)]
    mon.check(len({q for _, q in used}) == len(used), 'one symbol per statistic', used=used)
    check_system(mon, spec, pkf, eqs, E, 'cross_covariance_system', trials(pkf, eqs, spec, E))
    if not same:
        check_system(mon, spec, pkf, eqs, E, 'expectation_system', trials(pkf, eqs, spec, E))
    # the dynamics of the statistics is not a dynamics of other fields
    again = [Eq(sympy.Derivative(q, t), -k * q) for q in rng.sample([fields[0], pkf.fields[fields[0]].variance, pkf.fields[fields[0]].metric[0]], 3)]
    try:
        got = SymbolicPKF(again).in_metric
        mon.check(len({e.args[0] for e in got}) == len(got), 'one symbol per statistic', system=again, got=got)
    except ValueError:
        mon.observe('fields of same name refused')
    # a coefficient of the system is not a statistic of its fields
    for a, b in pairs(fields)[:1]:
        W = rng.choice([pkf.get_covariance(a, b), pkf.get_covariance(a, b), pkf.fields[a].variance, pkf.fields[b].metric[0], pkf.fields[b].std])
        also = [Eq(sympy.Derivative(u, t), r + W * rng.choice(fields)) for u, r in eqs]
        try:
            new = SymbolicPKF(also)
            new.cross_covariance_system
            stats = {new.get_covariance(p, q) for p, q in pairs(fields)}
            for m in new.fields.values():
                stats |= {m.variance, m.std, *m.metric, *m.diffusion, *m.aspect}
            mon.check(W not in stats, 'one symbol per statistic', system=also, statistic=W)
        except ValueError:
            mon.observe('coefficient named as a statistic refused')
    mon.done(spec['labels'], sample=eqs)


def run(spec, mon):
    if spec.get('labels'):
        return labels(spec, mon)
    if spec.get('refused'):
        return refused(spec, mon)
    eqs, info, pkf, E = build(spec)
    tr = trials(pkf, eqs, spec, E)
    fields = [u for u, _ in eqs]
    found = set()
    for a, b in pairs(fields):
        V = pkf.get_covariance(a, b)
        mon.check(V == pkf.get_covariance(b, a), 'symmetric covariance', a=a, b=b)
        mon.check(V.args == a.args, 'coordinates of a covariance', V=V)
        found.add(V)
    mon.check(len(found) == len(pairs(fields)), 'distinct covariances', labels=found)
    if len(fields) == 1:
        mon.check(not pkf.cross_covariance_system, 'no covariance for one field')
    check_system(mon, spec, pkf, eqs, E, 'cross_covariance_system', tr)
    mon.done(shape_class(eqs), sample=eqs, nontrivial=tr[0].evaluated > 0)

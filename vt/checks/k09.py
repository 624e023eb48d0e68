"""internal closure and substitution trees are identities, and reduce everything they promise"""
import itertools
import sympy
from sympy import Derivative, Symbol, Function
from ..gen import shape_class
from ..pkfcommon import build, trials, spread, rng_for, pairs
from ..runtime import Inconclusive

RULE = ('a case is one system, or one centred normalised field in 1 to 3 dimensions, with a maximal degree; non-trivial '
        'when every entry of its internal closure and substitution trees was evaluated on both sides in a world; '
        'distinct by coordinates, degree and shape')
MIN = {'checked:internal closure identity': 50, 'checked:substitution tree identity': 50,
       'checked:system in normal form': 20, 'products of derivatives': 10}
t, omega = Symbol('t'), Symbol('omega')


def cases(tier, seed):
    mix = [(8, 40, dict(dim=1, nfields=1, max_order=4, max_degree=2)),
           (6, 40, dict(dim=1, nfields=2, max_order=3, max_degree=2, nterms=(1, 2))),
           (5, 60, dict(dim=2, nfields=1, max_order=2, max_degree=1, nterms=(1, 2))),
           (3, 60, dict(dim=2, nfields=2, max_order=1, max_degree=2, nterms=(1, 2))),
           (2, 90, dict(dim=3, nfields=1, max_order=1, max_degree=1, nterms=(1, 1)))]
    fixed = [(f, 90) for f in ('burgers', 'ks', 'kdv', 'sw', 'adv2', 'diff2', 'mixed2', 'conv2')]
    out = spread(tier, seed, 'K09', mix, fixed, scale=5)
    trees = [(('x',), 10), (('x', 'y', 'z', 's'), 3), (('y', 'x'), 4), (('x', 'y'), 5), (('x', 'y', 'z'), 4), (('z', 'x'), 4),
             (('s',), 6), (('x_1', 'x_2'), 4), (('r', 'theta'), 3), (('\\theta', 'a'), 4)]
    if tier == 'thorough':
        trees += [(('x',), 12), (('x', 'y'), 6), (('b', 'a'), 6), (('z', 'y', 'x'), 5)]
    for coords, d in trees:
        for selfsub in (True, False):
            out.append({'tree': list(coords), 'degree': d, 'selfsub': selfsub, 'seed': ['K09', seed, str(coords)],
                        'cpu': 200})
    # mean equations with products of two derivatives of any order
    for k in range(18 if tier == 'quick' else 160):
        out.append({'products': k, 'seed': ['K09', seed, 'products', k], 'cpu': 60})
    # a derivative of high order
    for k, order in enumerate((5, 7, 8) if tier == 'quick' else (5, 6, 7, 8, 9, 10, 11)):
        out.append({'long': order, 'seed': ['K09', seed, 'long', order], 'cpu': 200 if tier == 'quick' else 900})
    return out


def multi_indices(n, d):
    return [a for a in itertools.product(range(d + 1), repeat=n) if sum(a) == d]


def D(eps, coords, a):
    return Derivative(eps, *[(c, k) for c, k in zip(coords, a) if k]).doit() if sum(a) else eps


def factors(arg):
    """factors of a monomial with multiplicity"""
    out = []
    for f in sympy.Mul.make_args(arg):
        b, e = f.as_base_exp()
        if e.is_Integer and e > 0:
            out += [b] * int(e)
        else:
            out.append(f)
    return out


def normal(term, eps):
    """None when E[..] is allowed: E[eps D^gamma eps]; else a reason"""
    fs = factors(term.args[0])
    if len(fs) != 2:
        return None
    inner = [f.args[0] if isinstance(f, Derivative) else f for f in fs]
    if not all(i == eps for i in inner):
        return None
    orders = sorted(f.derivative_count if isinstance(f, Derivative) else 0 for f in fs)
    if orders[0] > 0:
        return 'two derivatives left'
    if orders[1] <= 3:
        return 'known moment left'
    return None


def expected_keys(E, eps, coords, degree):
    keys = set()
    for d in range(2, degree + 1):
        for da in range(1, d // 2 + 1):
            for a in multi_indices(len(coords), da):
                for b in multi_indices(len(coords), d - da):
                    keys.add(E(D(eps, coords, a) * D(eps, coords, b)))
    return keys


def check_tree(mon, E, tree, eps, coords, degree, evaluate, where, closed):
    want = expected_keys(E, eps, coords, degree)
    mon.check(set(tree) == want, 'terms of a substitution tree', where=where,
              missing=sorted(map(str, want - set(tree)))[:3], extra=sorted(map(str, set(tree) - want))[:3])
    for k, v in tree.items():
        ok, detail = evaluate(k, v)
        mon.check(ok, 'substitution tree identity', key=k, value=v, detail=detail, where=where)
        if closed is not None:
            for term in v.atoms(E):
                bad = normal(term, eps)
                if not closed and bad == 'known moment left':
                    bad = None
                mon.check(not bad, 'substitution in normal form', key=k, value=v, bad=bad)


def run_tree(spec, mon):
    from sympkf.symbolic.pkfcas import UnivariateTree
    from sympkf.symbolic.random import Expectation as E
    from ..series import Ring
    from ..world import World, close
    coords = tuple(Symbol(c) for c in spec['tree'])
    eps = Function('\\varepsilon')(t, *coords, omega)
    deg = spec['degree']
    tree = UnivariateTree(eps, coords, self_substitute=spec['selfsub'])
    rng = rng_for(*spec['seed'])
    names = [c.name for c in coords]
    R = Ring(((tuple(names), deg + 1),), 'float')
    w = World(R, {**{n: 0.4 for n in names}, 't': 0.2}, 5, repr(spec['seed']), E)

    def evaluate(k, v):
        return close(w.value(k), w.value(v), 1e-8)
    first = tree(deg)
    check_tree(mon, E, first, eps, coords, deg, evaluate, 'UnivariateTree', False if spec['selfsub'] else None)
    for d in rng.sample(range(1, deg + 1), min(3, deg)):
        again = tree(d)
        check_tree(mon, E, again, eps, coords, d, evaluate, f'UnivariateTree({d}) after {deg}', None)
    mon.check(tree(deg) == first, 'same tree when asked again')
    mon.done((spec['tree'], deg, spec['selfsub']), sample=list(first.items())[-1], nontrivial=True)


def left_over(mon, pkf, eqs, names, have, where):
    from sympkf.symbolic.random import Expectation as E
    for name in names:
        for e in getattr(pkf, name) or []:
            for term in e.args[1].atoms(E):
                for u, _ in eqs:
                    mf = pkf.fields[u]
                    bad = normal(term, mf.epsilon)
                    if term in have:
                        bad = 'known moment left'
                    if mf.error in term.atoms(type(mf.error)):
                        bad = 'error left'
                    mon.check(not bad, 'system in normal form', system=name, term=term, bad=bad, eqs=eqs)
            mon.check(True, 'system in normal form')


def run_products(spec, mon):
    """u_t = sum of products of two derivatives: the average holds every E[D^a eps D^b eps]"""
    from ..pkfcommon import make, rng_for
    rng = rng_for(*spec['seed'])
    dim = rng.choice([1, 1, 1, 2, 2, 2, 3])
    coords = [Symbol(c) for c in rng.choice({1: ['x', 's'], 2: ['xy', 'yx', 'zx'], 3: ['xyz', 'zyx']}[dim])]
    top = {1: 4, 2: 2, 3: 2}[dim]
    fields = [Function(n)(t, *coords) for n in ['u', 'v', 'w'][:rng.choice([1, 1, 2])]]

    def some(f):
        a = [0] * dim
        for _ in range(rng.randint(0, top)):
            a[rng.randrange(dim)] += 1
        return D(f, coords, tuple(a))
    eqs, total = [], []
    for u in fields:
        r = 0
        for _ in range(rng.choice([1, 2])):
            f = rng.choice(fields)
            g = f if rng.random() < 0.8 else rng.choice(fields)
            r += rng.choice([1, -2, Symbol('k'), rng.choice(fields)]) * some(f) * some(g)
        eqs.append((u, r))
    pkf = make(spec, eqs)
    names = ['expectation_system', 'tl_expectation_system', 'variance_system', 'cross_covariance_system', 'epsilon_system']
    left_over(mon, pkf, eqs, names, set(pkf.internal_closure), 'products')
    mon.observe('products of derivatives', len(eqs))
    mon.done(str(eqs), sample=eqs)


def run_long(spec, mon):
    """u_t = k u^(n) + ..: the metric holds terms of degree n + 2"""
    from ..pkfcommon import make, rng_for
    rng = rng_for(*spec['seed'])
    x = Symbol(rng.choice(['x', 'z', 'r']))
    u = Function(rng.choice(['u', 'A']))(t, x)
    eqs = [(u, rng.choice([1, -1, Symbol('kappa')]) * Derivative(u, x, spec['long'])
            + rng.choice([0, u * Derivative(u, x), Symbol('a') * Derivative(u, (x, 2))]))]
    pkf = make(spec, eqs)
    left_over(mon, pkf, eqs, ['expectation_system', 'variance_system', 'std_system', 'epsilon_system', 'metric_system'],
              set(pkf.internal_closure), 'long')
    mon.done(str(eqs), sample=eqs)


def run(spec, mon):
    if 'long' in spec:
        return run_long(spec, mon)
    if 'products' in spec:
        return run_products(spec, mon)
    if 'tree' in spec:
        return run_tree(spec, mon)
    eqs, info, pkf, E = build(spec)
    tr = trials(pkf, eqs, spec, E, n=1)[0]
    fields = [u for u, _ in eqs]
    coords = fields[0].args[1:]
    n = len(coords)
    # -- internal closure
    ic = pkf.internal_closure
    for k, v in ic.items():
        ok, detail = tr.equal(k, v)
        mon.check(ok, 'internal closure identity', key=k, value=v, detail=detail)
    want = set()
    for u in fields:
        mf = pkf.fields[u]
        want |= {E(mf.error), E(mf.epsilon), E(mf.error ** 2), E(mf.epsilon ** 2)}
        for d in (1, 2, 3):
            want |= {E(mf.epsilon * D(mf.epsilon, coords, a)) for a in multi_indices(n, d)}
    for a, b in pairs(fields):
        want |= {E(pkf.fields[a].error * pkf.fields[b].error), E(pkf.fields[a].epsilon * pkf.fields[b].epsilon)}
    have = set(ic) | {-k for k in ic}
    mon.check(want <= have, 'terms of the internal closure', missing=sorted(map(str, want - have))[:4])
    # -- trees
    degree = {1: 6, 2: 4, 3: 4}[n]
    before = sorted(map(str, pkf.subs_tree))
    for u in fields:
        mf = pkf.fields[u]
        check_tree(mon, E, mf.subs_tree(degree), mf.epsilon, coords, degree, tr.equal, 'field', False)
    closed = pkf.subs_tree
    for u in fields:
        eps = pkf.fields[u].epsilon
        part = {k: v for k, v in closed.items() if eps in k.atoms(type(eps))}
        check_tree(mon, E, part, eps, coords, degree, tr.equal, 'pkf', True)
    # -- the derived systems only keep what could not be reduced
    left_over(mon, pkf, eqs, ('expectation_system', 'tl_expectation_system', 'variance_system', 'metric_system',
                              'cross_covariance_system', 'epsilon_system'), have, 'systems')
    mon.done(shape_class(eqs), sample=eqs, nontrivial=tr.evaluated > 0)

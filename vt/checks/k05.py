"""metric dynamics"""
import sympy
from ..gen import shape_class
from ..pkfcommon import build, make, rng_for, check_system, trials, spread

RULE = ('a case is one system of evolution equations; non-trivial when every component of its metric equations '
        'was evaluated on both sides in a world of 8 outcomes; distinct by shape')
MIN = {'checked:value of metric_system': 20}


def cases(tier, seed):
    mix = [(2, 60, dict(dim=1, nfields=5, max_order=1, max_degree=1, nterms=(1, 2))),
           (3, 40, dict(dim=1, nfields=1, max_order=7, max_degree=1, nterms=(1, 2))),
           (10, 20, dict(dim=1, nfields=1, max_order=4, max_degree=2)),
           (8, 25, dict(dim=1, nfields=2, max_order=2, max_degree=2)),
           (2, 25, dict(dim=1, nfields=3, max_order=1, max_degree=2)),
           (6, 20, dict(dim=1, nfields=1, max_order=2, nonpoly=0.4)),
           (6, 25, dict(dim=1, nfields=2, max_order=1, nonpoly=0.3, explicit=0.3)),
           (8, 30, dict(dim=2, nfields=1, max_order=1, max_degree=2)),
           (6, 40, dict(dim=2, nfields=1, max_order=2, nterms=(1, 2), max_degree=1)),
           (3, 40, dict(dim=2, nfields=2, max_order=1, nterms=(1, 2), max_degree=2)),
           (2, 40, dict(dim=3, nfields=1, max_order=1, nterms=(1, 2), max_degree=1)),
           (6, 30, dict(dim=1, nfields=1, max_order=2, max_degree=2, forcing=0.6)),
           (3, 30, dict(dim=1, nfields=2, max_order=1, max_degree=2, forcing=0.4)),
           (2, 40, dict(dim=2, nfields=1, max_order=1, max_degree=1, nterms=(1, 2), forcing=0.6)),
           (4, 40, dict(dim=1, nfields=1, max_order=1, max_degree=2, nterms=(1, 2), abstract=0.6)),
           (2, 40, dict(dim=1, nfields=2, max_order=1, max_degree=2, nterms=(1, 2), abstract=0.4)),
           (1, 60, dict(dim=2, nfields=1, max_order=1, max_degree=1, nterms=(1, 1), abstract=0.5))]
    fixed = [(f, 90) for f in ('burgers', 'ks', 'kdv', 'sw', 'lv', 'chem3', 'adv2', 'diff2', 'cubic', 'conv2', 'mixed2', 'adv3')]
    return spread(tier, seed, 'K05', mix, fixed)


def run(spec, mon):
    eqs, info, pkf, E = build(spec)
    tr = trials(pkf, eqs, spec, E)
    check_system(mon, spec, pkf, eqs, E, 'metric_system', tr)
    for u, _ in eqs:
        for g in (pkf.fields[u].metric, pkf.fields[u].diffusion, pkf.fields[u].aspect):
            n = len(u.args) - 1
            mon.check(g.shape == (n, n) and g == g.T and all(g[i, i].args == u.args for i in range(n)), 'symmetric tensor',
                      tensor=g)
            mon.check(len({g[i, j] for i in range(n) for j in range(i, n)}) == n * (n + 1) // 2,
                      'distinct components', tensor=g)
    # names of coordinates that could be mixed up once joined
    rng = rng_for(*spec['seed'], 'names')
    cs = sympy.symbols(rng.choice(['x xx xxx', 'xx x y', 'x y x_y', 's ss sss', '1 11 111', 'x_1 x_11 x_111', 'x_{1} x_{2} x_{3}', 'a b ab bb']))
    c = sympy.Function('c')(sympy.Symbol('t'), *cs)
    mf = make(spec, [(c, -sympy.Derivative(c, cs[0]))]).fields[c]
    n = len(cs)
    for g in (mf.metric, mf.diffusion, mf.aspect):
        mon.check(g == g.T and len({g[i, j] for i in range(n) for j in range(i, n)}) == n * (n + 1) // 2, 'distinct components', tensor=g)
    mon.done(shape_class(eqs), sample=eqs, nontrivial=tr[0].evaluated > 0)

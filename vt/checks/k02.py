"""error dynamics = tangent linear of the flow around the mean"""
from ..gen import shape_class
from ..pkfcommon import build, check_system, trials, spread, expected_lhs, bare_random
from sympy import Derivative, Integer, Symbol

RULE = ('a case is one system of evolution equations; non-trivial when its error equations and the first-order '
        'mean equations were evaluated on both sides, outcome by outcome, in a world of 8 outcomes; distinct by shape')
MIN = {'checked:value of error_system': 20, 'checked:tangent-linear mean': 20, 'systems with random functions': 6}


def cases(tier, seed):
    mix = [(4, 40, dict(dim=0, nfields=6, max_degree=3, nterms=(1, 3))),
           (4, 40, dict(dim=1, nfields=1, max_order=8, max_degree=1, nterms=(1, 2))),
           (10, 20, dict(dim=1, nfields=1, max_order=4, max_degree=4)),
           (10, 20, dict(dim=1, nfields=2, max_order=3, max_degree=3)),
           (6, 20, dict(dim=1, nfields=3, max_order=2, max_degree=2)),
           (8, 20, dict(dim=1, nfields=1, max_order=2, nonpoly=0.6)),
           (6, 20, dict(dim=1, nfields=2, max_order=2, nonpoly=0.4, explicit=0.3)),
           (8, 20, dict(dim=2, nfields=1, max_order=3, max_degree=3)),
           (6, 20, dict(dim=2, nfields=2, max_order=2, max_degree=2)),
           (4, 20, dict(dim=3, nfields=1, max_order=2, max_degree=2)),
           (6, 20, dict(dim=1, nfields=2, max_order=3, linear=True)),
           (6, 20, dict(dim=0, nfields=3, max_degree=3, nonpoly=0.2)),
           (8, 20, dict(dim=1, nfields=1, max_order=2, max_degree=2, forcing=0.6)),
           (4, 20, dict(dim=1, nfields=2, max_order=1, max_degree=2, forcing=0.4, nonpoly=0.2)),
           (3, 20, dict(dim=2, nfields=1, max_order=2, max_degree=2, forcing=0.6)),
           (6, 25, dict(dim=1, nfields=1, max_order=2, max_degree=2, abstract=0.6)),
           (5, 30, dict(dim=1, nfields=2, max_order=1, max_degree=2, abstract=0.4, nonpoly=0.2)),
           (2, 30, dict(dim=2, nfields=1, max_order=1, max_degree=2, abstract=0.5)),
           (2, 20, dict(dim=0, nfields=2, max_degree=2, abstract=0.5)),
           (2, 30, dict(dim=1, nfields=1, max_order=1, max_degree=1, abstract=0.5, forcing=0.4))]
    fixed = [(f, 40) for f in ('burgers', 'ks', 'kdv', 'sw', 'lv', 'chem3', 'adv2', 'cubic', 'conv2', 'mixed2', 'adv3')]
    return spread(tier, seed, 'K02', mix, fixed)


def run(spec, mon):
    eqs, info, pkf, E = build(spec)
    tr = trials(pkf, eqs, spec, E)
    errors = {pkf.fields[u].error for u, _ in eqs}
    own = set().union(*(bare_random(r, E) for _, r in eqs))      # random functions of the right-hand sides
    mon.observe('systems with random functions', bool(own))

    def allowed(r):
        return bare_random(r, E) - errors - own
    check_system(mon, spec, pkf, eqs, E, 'error_system', tr, random_ok=True, allowed=allowed)
    # linear in the errors: r(2e) = 2 r(e), no constant part (but for random functions of the right-hand side)
    for e in pkf.error_system:
        r = e.args[1]
        doubled = r.xreplace({err: 2 * err for err in errors}).doit()
        if own:
            doubled += r.xreplace({err: Integer(0) for err in errors}).doit()
        for t_ in tr[:1]:
            ok, detail = t_.equal(doubled, 2 * r)
            mon.check(ok, 'linear in the errors', eq=e, detail=detail, eqs=eqs)
    # mean of the first-order dynamics: the deterministic flow of the mean
    got = pkf.tl_expectation_system
    mon.check(set(e.args[0] for e in got) == set(expected_lhs(pkf, eqs, E, 'tl_expectation_system')),
              'unknowns of tl_expectation_system', eqs=eqs)
    means = {u: E(pkf.fields[u].random) for u, _ in eqs}
    flow = {Derivative(means[u], 't'): r.xreplace(means) for u, r in eqs}
    if own:             # the average of the flow of the mean and of its first-order departure
        s = Symbol('_small')
        moved = {u: means[u] + s * pkf.fields[u].error for u, _ in eqs}
        flow = {Derivative(means[u], 't'): E(r.xreplace(means) + r.xreplace(moved).doit().diff(s).subs(s, 0)) for u, r in eqs}
    for e in got:
        l, r = e.args
        if l in flow:
            for t_ in tr:
                ok, detail = t_.equal(r, flow[l])
                mon.check(ok, 'tangent-linear mean', eq=e, detail=detail, eqs=eqs)
    mon.done(shape_class(eqs), sample=eqs, nontrivial=tr[0].evaluated > 0)

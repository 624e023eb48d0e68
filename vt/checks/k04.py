"""normalised error dynamics"""
from ..gen import shape_class
from ..pkfcommon import build, check_system, trials, spread, bare_random

RULE = ('a case is one system of evolution equations; non-trivial when its normalised-error equations were '
        'evaluated on both sides, outcome by outcome, in a world of 8 outcomes; distinct by shape')
MIN = {'checked:value of epsilon_system': 20}


def cases(tier, seed):
    mix = [(3, 40, dict(dim=0, nfields=6, max_degree=3, nterms=(1, 3))),
           (3, 40, dict(dim=1, nfields=1, max_order=8, max_degree=1, nterms=(1, 2))),
           (10, 20, dict(dim=1, nfields=1, max_order=4, max_degree=3)),
           (10, 25, dict(dim=1, nfields=2, max_order=2, max_degree=2)),
           (4, 25, dict(dim=1, nfields=3, max_order=1, max_degree=2)),
           (8, 20, dict(dim=1, nfields=1, max_order=2, nonpoly=0.5)),
           (6, 20, dict(dim=1, nfields=2, max_order=1, nonpoly=0.4, explicit=0.3)),
           (10, 25, dict(dim=2, nfields=1, max_order=2, max_degree=2)),
           (4, 30, dict(dim=2, nfields=2, max_order=1, nterms=(1, 2), max_degree=2)),
           (3, 30, dict(dim=3, nfields=1, max_order=1, nterms=(1, 2), max_degree=1)),
           (5, 20, dict(dim=0, nfields=2, max_degree=3, nonpoly=0.3)),
           (6, 20, dict(dim=1, nfields=1, max_order=2, max_degree=2, forcing=0.6)),
           (4, 20, dict(dim=1, nfields=2, max_order=1, max_degree=2, forcing=0.4)),
           (3, 30, dict(dim=2, nfields=1, max_order=1, max_degree=2, forcing=0.6)),
           (5, 30, dict(dim=1, nfields=1, max_order=2, max_degree=2, nterms=(1, 2), abstract=0.6)),
           (4, 30, dict(dim=1, nfields=2, max_order=1, max_degree=2, nterms=(1, 2), abstract=0.4)),
           (2, 30, dict(dim=2, nfields=1, max_order=1, max_degree=1, nterms=(1, 2), abstract=0.5)),
           (2, 20, dict(dim=0, nfields=2, max_degree=2, abstract=0.5))]
    fixed = [(f, 60) for f in ('burgers', 'ks', 'kdv', 'sw', 'lv', 'chem3', 'adv2', 'diff2', 'cubic', 'conv2', 'mixed2', 'adv3')]
    return spread(tier, seed, 'K04', mix, fixed)


def run(spec, mon):
    eqs, info, pkf, E = build(spec)
    tr = trials(pkf, eqs, spec, E)
    eps = {pkf.fields[u].epsilon for u, _ in eqs}
    own = set().union(*(bare_random(r, E) for _, r in eqs))      # random functions of the right-hand sides
    check_system(mon, spec, pkf, eqs, E, 'epsilon_system', tr, random_ok=True,
                 allowed=lambda r: bare_random(r, E) - eps - own)
    mon.done(shape_class(eqs), sample=eqs, nontrivial=tr[0].evaluated > 0)

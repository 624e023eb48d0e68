"""mean dynamics at second order"""
from ..gen import shape_class
from ..pkfcommon import build, check_system, trials, spread

RULE = ('a case is one system of evolution equations (random or a named dynamics); non-trivial when its mean '
        'equations were evaluated on both sides in a world of 8 outcomes; distinct by the shape of the system')
MIN = {'checked:value of expectation_system': 20}


def cases(tier, seed):
    mix = [(4, 40, dict(dim=0, nfields=6, max_degree=3, nterms=(1, 3))),
           (4, 40, dict(dim=1, nfields=1, max_order=8, max_degree=1, nterms=(1, 2))),
           (10, 20, dict(dim=1, nfields=1, max_order=4, max_degree=3)),
           (10, 20, dict(dim=1, nfields=2, max_order=2, max_degree=3)),
           (6, 20, dict(dim=1, nfields=3, max_order=2, max_degree=2)),
           (8, 20, dict(dim=1, nfields=1, max_order=2, nonpoly=0.6)),
           (6, 20, dict(dim=1, nfields=2, max_order=2, nonpoly=0.4, explicit=0.3)),
           (8, 20, dict(dim=2, nfields=1, max_order=3, max_degree=2)),
           (6, 20, dict(dim=2, nfields=2, max_order=2, max_degree=2)),
           (3, 20, dict(dim=3, nfields=1, max_order=2, max_degree=2)),
           (6, 20, dict(dim=0, nfields=3, max_degree=4, nonpoly=0.3)),
           (6, 20, dict(dim=1, nfields=1, max_order=2, max_degree=2, forcing=0.6)),
           (4, 20, dict(dim=1, nfields=2, max_order=1, max_degree=2, forcing=0.4, nonpoly=0.2)),
           (3, 20, dict(dim=2, nfields=1, max_order=2, max_degree=2, forcing=0.6)),
           (6, 25, dict(dim=1, nfields=1, max_order=2, max_degree=2, abstract=0.6)),
           (5, 30, dict(dim=1, nfields=2, max_order=1, max_degree=2, abstract=0.4, nonpoly=0.2)),
           (2, 30, dict(dim=2, nfields=1, max_order=1, max_degree=2, abstract=0.5)),
           (2, 20, dict(dim=0, nfields=2, max_degree=2, abstract=0.5)),
           (2, 30, dict(dim=1, nfields=1, max_order=1, max_degree=1, abstract=0.5, forcing=0.4))]
    fixed = [(f, 40) for f in ('burgers', 'ks', 'sw', 'lv', 'chem3', 'adv2', 'cubic', 'conv2', 'mixed2', 'adv3')]
    return spread(tier, seed, 'K01', mix, fixed)


def run(spec, mon):
    eqs, info, pkf, E = build(spec)
    tr = trials(pkf, eqs, spec, E)
    check_system(mon, spec, pkf, eqs, E, 'expectation_system', tr)
    mon.done(shape_class(eqs), sample=eqs, nontrivial=tr[0].evaluated > 0)

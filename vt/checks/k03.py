"""variance and standard-deviation dynamics"""
from ..gen import shape_class
from ..pkfcommon import build, check_system, trials, spread, rng_for

RULE = ('a case is one system of evolution equations; non-trivial when its variance (and standard deviation) '
        'equations were evaluated on both sides in a world of 8 outcomes; distinct by shape')
MIN = {'checked:value of variance_system': 20, 'checked:value of std_system': 20}


def cases(tier, seed):
    mix = [(3, 40, dict(dim=0, nfields=6, max_degree=3, nterms=(1, 3))),
           (3, 40, dict(dim=1, nfields=1, max_order=8, max_degree=1, nterms=(1, 2))),
           (10, 20, dict(dim=1, nfields=1, max_order=4, max_degree=3)),
           (10, 25, dict(dim=1, nfields=2, max_order=3, max_degree=2)),
           (6, 25, dict(dim=1, nfields=3, max_order=2, max_degree=2)),
           (8, 20, dict(dim=1, nfields=1, max_order=2, nonpoly=0.5)),
           (6, 20, dict(dim=1, nfields=2, max_order=1, nonpoly=0.4, explicit=0.3)),
           (10, 25, dict(dim=2, nfields=1, max_order=2, max_degree=2)),
           (4, 30, dict(dim=2, nfields=2, max_order=2, nterms=(1, 2), max_degree=2)),
           (3, 30, dict(dim=3, nfields=1, max_order=2, nterms=(1, 2), max_degree=1)),
           (6, 20, dict(dim=1, nfields=2, max_order=4, linear=True, nterms=(1, 2))),
           (5, 20, dict(dim=0, nfields=2, max_degree=3, nonpoly=0.3)),
           (6, 20, dict(dim=1, nfields=1, max_order=2, max_degree=2, forcing=0.6)),
           (4, 20, dict(dim=1, nfields=2, max_order=1, max_degree=2, forcing=0.4)),
           (3, 30, dict(dim=2, nfields=1, max_order=1, max_degree=2, forcing=0.6)),
           (5, 30, dict(dim=1, nfields=1, max_order=2, max_degree=2, nterms=(1, 2), abstract=0.6)),
           (4, 30, dict(dim=1, nfields=2, max_order=1, max_degree=2, nterms=(1, 2), abstract=0.4)),
           (2, 30, dict(dim=2, nfields=1, max_order=1, max_degree=1, nterms=(1, 2), abstract=0.5)),
           (2, 20, dict(dim=0, nfields=2, max_degree=2, abstract=0.5))]
    fixed = [(f, 60) for f in ('burgers', 'ks', 'kdv', 'sw', 'lv', 'chem3', 'adv2', 'diff2', 'cubic', 'conv2', 'mixed2', 'adv3')]
    return spread(tier, seed, 'K03', mix, fixed)


def run(spec, mon):
    eqs, info, pkf, E = build(spec)
    tr = trials(pkf, eqs, spec, E)
    var = {pkf.fields[u].variance for u, _ in eqs}
    if rng_for(*spec['seed'], 'order').random() < 0.5:
        pkf.metric_system if len(eqs) == 1 and len(eqs[0][0].args) == 2 else pkf.error_system
    check_system(mon, spec, pkf, eqs, E, 'variance_system', tr)
    check_system(mon, spec, pkf, eqs, E, 'std_system', tr,
                 allowed=lambda r: {v for v in var if r.has(v)})
    mon.done(shape_class(eqs), sample=eqs, nontrivial=tr[0].evaluated > 0)

"""the complete parametric dynamics in metric, diffusion and aspect form"""
import sympy
from ..gen import shape_class
from ..pkfcommon import build, check_system, trials, spread, bare_random, rng_for, upper

RULE = ('a case is one system of evolution equations and one order of access to the three forms; non-trivial when '
        'every equation of every form was evaluated on both sides; distinct by shape')
MIN = {'checked:value of in_metric': 20, 'checked:value of in_diffusion': 20, 'checked:value of in_aspect': 20}


def cases(tier, seed):
    mix = [(12, 30, dict(dim=1, nfields=1, max_order=2, max_degree=2)),
           (4, 40, dict(dim=1, nfields=1, max_order=4, max_degree=1, nterms=(1, 2))),
           (8, 40, dict(dim=1, nfields=2, max_order=2, max_degree=2, nterms=(1, 2))),
           (3, 60, dict(dim=1, nfields=3, max_order=1, max_degree=2, nterms=(1, 2))),
           (4, 30, dict(dim=1, nfields=1, max_order=1, nonpoly=0.5)),
           (6, 60, dict(dim=2, nfields=1, max_order=1, max_degree=2, nterms=(1, 2))),
           (5, 30, dict(dim=0, nfields=2, max_degree=3, nonpoly=0.2)),
           (5, 40, dict(dim=1, nfields=1, max_order=2, max_degree=2, nterms=(1, 2), forcing=0.6)),
           (2, 60, dict(dim=1, nfields=2, max_order=1, max_degree=2, nterms=(1, 2), forcing=0.4)),
           (2, 40, dict(dim=1, nfields=1, max_order=1, max_degree=2, nterms=(1, 2), abstract=0.6)),
           (1, 90, dict(dim=0, nfields=5, max_degree=2, nterms=(1, 2))),
           (1, 120, dict(dim=1, nfields=1, max_order=7, max_degree=1, nterms=(1, 2))),
           (2, 120, dict(dim=3, nfields=1, max_order=1, max_degree=1, nterms=(1, 1))),
           (1, 60, dict(dim=3, nfields=1, max_order=0, max_degree=1, nterms=(1, 2))),
           (2, 40, dict(dim=0, nfields=2, max_degree=2, nterms=(1, 2), abstract=0.5))]
    fixed = [(f, 90) for f in ('burgers', 'adv2', 'kdv', 'sw', 'oscillator', 'lv', 'cubic')]
    if tier == 'thorough':
        fixed += [('diff2', 900), ('chem3', 300), ('ks', 300), ('conv2', 900), ('mixed2', 900), ('adv3', 1500)]
    return spread(tier, seed, 'K07', mix, fixed)


def run(spec, mon):
    eqs, info, pkf, E = build(spec)
    fields = [u for u, _ in eqs]
    tens = {k: {z for u in fields for z in upper(getattr(pkf.fields[u], k))} for k in ('metric', 'diffusion', 'aspect')}
    means = {E(pkf.fields[u].random) for u in fields}
    tr = trials(pkf, eqs, spec, E)

    def allowed(own):
        others = set().union(*(tens[k] for k in tens if k != own))

        def f(r):
            found = {z for z in r.atoms(sympy.Function)}
            return (found & others) | (found & means)
        return f
    forms = [('in_metric', 'metric'), ('in_diffusion', 'diffusion'), ('in_aspect', 'aspect')]
    rng_for(*spec['seed'], 'order').shuffle(forms)
    for system, own in forms:
        check_system(mon, spec, pkf, eqs, E, system, tr, allowed=allowed(own))
    mon.done(shape_class(eqs) + str(forms), sample=(eqs, [f[0] for f in forms]), nontrivial=tr[0].evaluated > 0)

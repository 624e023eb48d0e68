"""One derivation in this interpreter; prints what was derived and its value in a fixed world (JSON)."""
import json
import os
import random
import sys
import warnings


def names(rng, order):
    base = ['expectation_system', 'error_system', 'variance_system', 'std_system', 'epsilon_system',
            'cross_covariance_system', 'metric_system', 'in_metric', 'in_diffusion', 'unclosed_terms']
    if order == 'forward':
        return base
    if order == 'backward':
        return base[::-1]
    rng.shuffle(base)
    return base


def earlier(kind, spec):
    """something else derived before in this interpreter, with the same names"""
    import sympy
    from sympy import Derivative, Function, Symbol
    from . import gen
    from .pkfcommon import FIXED, make, rng_for
    eqs, info = FIXED[spec['fixed']]() if 'fixed' in spec else gen.pde_system(rng_for(*spec['seed']), **spec['opts'])
    t = Symbol('t')
    if kind == 'same':              # the system itself, by another user, who closes it
        pkf = make({'form': 0}, eqs)
        pkf.set_closure({z: sympy.Integer(k) for k, z in enumerate(sorted(pkf.unclosed_terms, key=str), 2)})
        pkf.in_metric
        return
    fields = [u for u, _ in eqs]
    coords = [c for c in fields[0].args if c != t]
    if kind == 'permuted':          # the same fields with their coordinates in another order, or others
        new = coords[::-1] if len(coords) > 1 else [Symbol('x_p')]
    elif kind == 'more':            # the same names, with one more coordinate
        new = coords + [Symbol('y_p')] if len(coords) < 2 else coords[:1]
    else:
        new = coords
    fs = [Function(str(u.func))(t, *new) for u in fields]
    if kind == 'decay':
        sys_ = [(u, -u) for u in fs]
    elif kind == 'more' and len(new) > 1:
        sys_ = [(u, -Symbol('a_p') * u * fs[-1]) for u in fs]
    else:
        sys_ = [(u, -fs[-1] * Derivative(u, new[0]) + Derivative(u, new[-1], 2) if new else -u * fs[0]) for u in fs]
    pkf = make({'form': 0}, sys_)
    pkf.in_metric, pkf.expectation_system, pkf.unclosed_terms
    if kind == 'decay':
        pkf.in_diffusion, pkf.in_aspect


def main():
    warnings.simplefilter('ignore')
    sys.setrecursionlimit(20000)
    spec = json.loads(sys.argv[1])
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    from .pkfcommon import build, trials
    for other in spec.get('before', []):
        earlier(other, spec)
    eqs, info, pkf, E = build(spec)
    rng = random.Random(spec['access'])
    res = {}
    for n in names(rng, spec['access']):
        if n in spec.get('skip', []):
            continue
        v = getattr(pkf, n)
        if spec.get('touch'):
            # readers of a system do not change it
            for e in list(v or []):
                e.expand() if hasattr(e, 'expand') else None
            pkf.subs_tree
        if n == 'unclosed_terms':
            res[n] = sorted(map(str, v))
        else:
            res[n] = [(str(e.args[0]), e.args[1]) for e in (v or [])]
    tr = trials(pkf, eqs, spec, E, n=1)[0]
    final = {}
    for n, v in res.items():
        if n == 'unclosed_terms':
            final[n] = v
            continue
        final[n] = [(l, [float(z) for z in tr.value(r)]) for l, r in v]
    out.write(json.dumps(final))
    out.flush()


if __name__ == '__main__':
    main()

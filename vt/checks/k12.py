"""derivations do not depend on hash seed, sympy cache or access history"""
import json
import os
import subprocess
import tempfile
from ..pkfcommon import spread, rng_for
from ..runtime import PY, worker_env, Inconclusive

RULE = ('a case is one system derived in several fresh interpreters that differ by hash seed, by sympy cache '
        '(on, off, tiny), by the order in which the systems are read and by what was derived before with the same names; non-trivial when at least two '
        'interpreters finished and were compared equation by equation; distinct by system')
MIN = {'interpreters': 30, 'checked:same equations': 20}


def cases(tier, seed):
    mix = [(5, 60, dict(dim=1, nfields=1, max_order=2, max_degree=2)),
           (4, 60, dict(dim=1, nfields=2, max_order=2, max_degree=2, nterms=(1, 2))),
           (2, 60, dict(dim=1, nfields=1, max_order=1, nonpoly=0.5)),
           (3, 60, dict(dim=2, nfields=1, max_order=1, max_degree=2, nterms=(1, 2))),
           (2, 60, dict(dim=0, nfields=4, max_degree=2, nterms=(1, 2))),
           (1, 60, dict(dim=1, nfields=3, max_order=1, max_degree=2, nterms=(1, 1)))]
    fixed = [(f, 120) for f in ('burgers', 'sw', 'oscillator', 'kdv', 'adv2')]
    out = spread(tier, seed, 'K12', mix, fixed, scale=4, quick=1)
    return [dict(s, n=4 if tier == 'quick' else 8, wall=100 if tier == 'quick' else 600) for s in out]


def run(spec, mon):
    rng = rng_for(*spec['seed'], 'interp')
    scratch = tempfile.mkdtemp(prefix='k12-', dir='.')
    results, shift = [], rng.randrange(4)
    caches = ['yes', 'no', 'yes', '50']
    for k in range(spec['n']):
        cache = caches[k % 4]
        extra = {'SYMPY_USE_CACHE': 'no' if cache == 'no' else 'yes'}
        if cache == '50':
            extra['SYMPY_CACHE_SIZE'] = '50'
        access = ['forward', 'backward', 'a', 'b', 'c'][k % 5]
        hs = rng.randrange(2 ** 31)
        s = dict(spec, access=access, touch=k % 2 == 1, before=[[], ['permuted'], ['more', 'decay'], ['decay', 'same']][(k + shift) % 4])
        s.pop('form', None)
        s['form'] = k % 3
        env = worker_env(hs, os.path.abspath(scratch), extra)
        try:
            p = subprocess.run([PY, '-B', '-W', 'ignore', '-m', 'vt.derive_cli', json.dumps(s)], env=env,
                               capture_output=True, text=True, timeout=spec['wall'])
        except subprocess.TimeoutExpired:
            mon.observe('interpreter timed out')
            continue
        mon.observe('interpreters')
        conf = f'hash={hs} cache={cache} access={access} before={s["before"]}'
        if not mon.check(p.returncode == 0, 'derivation finishes', conf=conf, err=p.stderr[-1200:], seed=spec['seed']):
            continue
        results.append((conf, json.loads(p.stdout)))
    if len(results) < 2:
        raise Inconclusive('fewer than two interpreters finished')
    ref_conf, ref = results[0]
    for conf, other in results[1:]:
        mon.check(set(other) == set(ref) and other['unclosed_terms'] == ref['unclosed_terms'], 'same unclosed terms',
                  a=ref_conf, b=conf, ref=ref.get('unclosed_terms'), other=other.get('unclosed_terms'))
        for n in ref:
            if n == 'unclosed_terms':
                continue
            a, b = ref[n], other[n]
            ok = [l for l, _ in a] == [l for l, _ in b]
            worst = 0
            if ok:
                for (l, x), (_, y) in zip(a, b):
                    for p_, q_ in zip(x, y):
                        worst = max(worst, abs(p_ - q_) / max(1, abs(p_), abs(q_)))
            mon.check(ok and worst < 1e-6, 'same equations', system=n, a=ref_conf, b=conf, gap=worst,
                      lhs_a=[l for l, _ in a], lhs_b=[l for l, _ in b])
    mon.done((spec['seed'], len(results)), sample=[c for c, _ in results], nontrivial=True)

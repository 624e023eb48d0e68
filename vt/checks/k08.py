"""closures: what stays unclosed, and what closing does, whatever the history"""
import sympy
from sympy import Derivative, Symbol, Rational
from ..gen import shape_class
from ..pkfcommon import build, make, trials, spread, rng_for, time_derivatives, expected_lhs, upper
from ..pkfworld import Trial

RULE = ('a case is one system, one random closure of its unclosed terms and one history (closure at construction, '
        'at once, term by term, before or after reading a form); non-trivial when at least one term was closed and '
        'the closed equations were evaluated against the unclosed ones; distinct by shape and history')
MIN = {'closed terms': 10, 'checked:closed equation': 20, 'checked:unclosed terms': 20}
t = Symbol('t')
tensors = ('metric', 'diffusion', 'aspect')


def cases(tier, seed):
    mix = [(10, 30, dict(dim=1, nfields=1, max_order=3, max_degree=2)),
           (8, 40, dict(dim=1, nfields=2, max_order=2, max_degree=2, nterms=(1, 2))),
           (3, 40, dict(dim=1, nfields=3, max_order=1, max_degree=2, nterms=(1, 2))),
           (3, 60, dict(dim=2, nfields=1, max_order=1, max_degree=2, nterms=(1, 2))),
           (1, 90, dict(dim=0, nfields=5, max_degree=2, nterms=(1, 2))),
           (1, 120, dict(dim=1, nfields=1, max_order=7, max_degree=1, nterms=(1, 2))),
           (4, 40, dict(dim=0, nfields=2, max_degree=3)),
           (5, 40, dict(dim=1, nfields=1, max_order=2, max_degree=2, nterms=(1, 2), forcing=0.6)),
           (2, 60, dict(dim=1, nfields=2, max_order=1, max_degree=2, nterms=(1, 2), forcing=0.4))]
    fixed = [(f, 90) for f in ('burgers', 'kdv', 'sw', 'oscillator', 'lv', 'chem3', 'cubic', 'squares')]
    if tier == 'thorough':
        fixed += [('diff2', 900), ('ks', 300), ('conv2', 900)]
    out = []
    for s in spread(tier, seed, 'K08', mix, fixed):
        out.append(dict(s, history=len(out) % 6))
    out += [dict(s, history=(s['history'] + 2) % 6) for s in out if s.get('fixed') in ('burgers', 'sw', 'lv')]
    out += [dict(s, history=5) for s in out if s.get('fixed') in ('burgers', 'kdv') and s['history'] != 5]
    return out


def random_closure(rng, pkf, eqs, terms):
    out = {}
    for k, term in enumerate(sorted(terms, key=str)):
        u = rng.choice([f for f, _ in eqs])
        mf = pkf.fields[u]
        if len(u.args) == 1:            # a field of time only has no metric
            V = mf.variance
            out[term] = rng.choice([sympy.Integer(0), 3 * V ** 2 + u, sympy.sqrt(V), u, Symbol('c_closure') * V])
            continue
        g = mf.metric[0, 0]
        x = u.args[1]
        choices = [sympy.Integer(0), 3 * g ** 2 - 2 * Derivative(g, x, 2), g * Rational(1, 2) + 1,
                   mf.variance * g, Derivative(g, x), Symbol('c_closure') * g, u * g,
                   1 / g, sympy.sqrt(mf.variance) * g]
        if len(eqs) > 1:
            a, b = eqs[0][0], eqs[1][0]
            choices.append(pkf.get_covariance(a, b) * g)
        out[term] = rng.choice(choices)
    return out


def expectations(system, pkf, E):
    own = {E(mf.random) for mf in pkf.fields.values()}
    found = set()
    for e in system:
        found |= {z for z in e.args[1].atoms(E)}
    return found - own


def run(spec, mon):
    eqs, info, ref, E = build(dict(spec, pristine=True))
    rng = rng_for(*spec['seed'], 'closure')
    base = list(ref.in_metric)
    terms = set(ref.unclosed_terms)
    mon.check(terms == expectations(base, ref, E), 'unclosed terms', terms=terms, eqs=eqs)
    closure = random_closure(rng, ref, eqs, terms)
    history = spec['history']
    if history == 5:                    # only some of the terms
        names = sorted(closure, key=str)
        closure = {k: closure[k] for k in rng.sample(names, (len(names) + 1) // 2)}
    remaining = terms - set(closure)
    forms = ['in_metric', 'in_diffusion', 'in_aspect']
    given = dict(closure)
    if history == 0:
        # some at construction, the others later
        names = sorted(closure, key=str)
        first = {k: closure[k] for k in rng.sample(names, rng.randint(0, len(names)))}
        handed = dict(first)
        pkf = make(spec, eqs, closure=handed)
        if rng.random() < 0.5:
            getattr(pkf, rng.choice(forms))
        rest = {k: v for k, v in closure.items() if k not in first}
        if rest:
            pkf.set_closure(rest)
        mon.check(handed == first, 'caller dictionary untouched', given=handed)
    else:
        pkf = make(spec, eqs)
        if history == 2:
            rng.shuffle(forms)
            getattr(pkf, forms[0])
            pkf.unclosed_terms
        if history == 3:
            left = set(terms)
            for term in sorted(closure, key=str):
                before = {str(z) for z in pkf.unclosed_terms}
                pkf.set_closure({term: closure[term]})
                left.discard(term)
                mon.check(pkf.unclosed_terms == left, 'unclosed terms', got=pkf.unclosed_terms, want=left, eqs=eqs)
                if rng.random() < 0.5:
                    getattr(pkf, rng.choice(['in_metric', 'in_diffusion']))
        elif history == 4:
            # a first closure, then replaced
            pkf.set_closure({k: sympy.Integer(7) for k in closure})
            getattr(pkf, rng.choice(forms))
            pkf.set_closure(given)
        else:
            pkf.set_closure(given)
    mon.check(given == closure, 'caller dictionary untouched', given=given)
    other = make(spec, eqs)
    mon.check(other.closure == {}, 'closures are per object', got=other.closure)
    mon.observe('closed terms', len(closure))
    mon.check(dict(pkf.closure) == closure, 'closure readable', got=pkf.closure)
    mon.check(pkf.unclosed_terms == remaining, 'unclosed terms', got=pkf.unclosed_terms, want=remaining, eqs=eqs)
    w = [Trial(ref, eqs, repr((spec['seed'], 'world', k)), E, closure) for k in range(2)]
    worth = {e.args[0]: e.args[1] for e in base}
    got = {}
    for form in forms:
        system = list(getattr(pkf, form))
        mon.check(expectations(system, pkf, E) <= remaining and bool(remaining or not any(e.args[1].atoms(E) for e in system)),
                  'closed system without closed expectation', form=form, eqs=eqs)
        mon.check({e.args[0] for e in system} == set(expected_lhs(pkf, eqs, E, form)), 'unknowns of ' + form,
                  got=[e.args[0] for e in system], eqs=eqs)
        got[form] = {e.args[0]: e.args[1] for e in system}
        # a closure written with the metric is expressed with the tensor of the form
        own = {'in_metric': 'metric', 'in_diffusion': 'diffusion', 'in_aspect': 'aspect'}[form]
        foreign = {z for u, _ in eqs for k in tensors if k != own for z in upper(getattr(ref.fields[u], k))}
        bad = {z for e in system for z in e.args[1].atoms(sympy.Function)} & foreign
        mon.check(not bad, 'closed equation', what='foreign tensor', form=form, bad=bad, closure=closure, eqs=eqs)
    # metric form: same as the unclosed equations where each term takes the value of its closure
    for l, r in got['in_metric'].items():
        for tr in w:
            ok, detail = tr.equal(worth[l], r)
            mon.check(ok, 'closed equation', lhs=l, rhs=r, detail=detail, closure=closure, eqs=eqs)
    # diffusion and aspect forms: -2 nu g' nu and -s g' s of the closed metric trends
    for form, name, factor in (('in_diffusion', 'diffusion', -2), ('in_aspect', 'aspect', -1)):
        for u, _ in eqs:
            mf = ref.fields[u]
            T, g = getattr(mf, name), mf.metric
            n = g.shape[0]
            dg = sympy.Matrix(n, n, lambda i, j: worth[Derivative(g[min(i, j), max(i, j)], t)])
            want = factor * T * dg * T
            for i in range(n):
                for j in range(i, n):
                    r = got[form].get(Derivative(T[i, j], t))
                    if r is None:
                        continue
                    for tr in w:
                        ok, detail = tr.equal(want[i, j], r)
                        mon.check(ok, 'closed equation', form=form, lhs=T[i, j], rhs=r, detail=detail,
                                  closure=closure, eqs=eqs)
        for l, r in got[form].items():
            if l in worth:
                for tr in w:
                    ok, detail = tr.equal(worth[l], r)
                    mon.check(ok, 'closed equation', form=form, lhs=l, rhs=r, detail=detail, closure=closure, eqs=eqs)
    mon.done(shape_class(eqs) + str(history), sample=(eqs, closure, history),
             nontrivial=w[0].evaluated > 0 and closure)

"""an interrupted derivation leaves nothing half done"""
import sympy
from ..gen import shape_class
from ..interrupt import record, interrupted, points, Interrupted
from ..pkfcommon import api, build, make, trials, spread, rng_for

RULE = ('a case is one system (or one closure of Taylor type) and several histories: reading starts, an exception strikes '
        'before a statement of the code (any statement it was seen to execute), once or several times, then everything is '
        'read again; non-trivial when a crash point was reached and the equations read afterwards were compared with those of '
        'an undisturbed derivation; distinct by system')
MIN = {'crash points reached': 200, 'checked:same equations after an interruption': 1000, 'checked:same closure after an interruption': 20}

SYSTEMS = ['expectation_system', 'tl_expectation_system', 'error_system', 'variance_system', 'std_system',
           'epsilon_system', 'cross_covariance_system', 'metric_system', 'in_metric', 'in_diffusion', 'in_aspect']
ERRORS = [Interrupted, Interrupted, MemoryError, RecursionError]


def cases(tier, seed):
    mix = [(8, 60, dict(dim=1, nfields=1, max_order=2, max_degree=2)),
           (6, 60, dict(dim=1, nfields=2, max_order=1, max_degree=2, nterms=(1, 2))),
           (3, 60, dict(dim=0, nfields=2, max_degree=2)),
           (3, 60, dict(dim=1, nfields=1, max_order=3, max_degree=1, nterms=(1, 2))),
           (3, 90, dict(dim=2, nfields=1, max_order=1, max_degree=1, nterms=(1, 2)))]
    fixed = [(f, 120) for f in ('burgers', 'oscillator', 'cubic', 'adv2')]
    out = [dict(s, n=14 if tier == 'quick' else 40) for s in spread(tier, seed, 'K13', mix, fixed, quick=1)]
    out += [{'closure': c, 'seed': ['K13', seed, 'closure', c, k], 'cpu': 60, 'n': 4 if tier == 'quick' else 40}
            for c in ('Closure', 'LocGaussianClosure') for k in range(4)]
    out += [{'closure': 'LocGaussianClosure', 'plane': 1, 'seed': ['K13', seed, 'closure in the plane', k], 'cpu': 120,
             'n': 20 if tier == 'quick' else 60} for k in range(3)]
    return out


def read(pkf, names):
    for n in names:
        getattr(pkf, n)


def equations(pkf, systems):
    out = {n: [tuple(e.args) for e in (getattr(pkf, n) or [])] for n in systems}
    out['unclosed_terms'] = set(pkf.unclosed_terms)
    return out


def run(spec, mon):
    if 'closure' in spec:
        return run_closure(spec, mon)
    eqs, info, ref, E = build(dict(spec, pristine=True))
    rng = rng_for(*spec['seed'], 'crash')
    # the forms in diffusion and aspect tensors of a plane take long
    systems = SYSTEMS if len(eqs[0][0].args) < 3 else SYSTEMS[:-2]
    want = equations(ref, systems)
    tr = None
    names = rng.sample(systems, len(systems))
    fresh = make(spec, eqs)
    _, lines = record(lambda: read(fresh, names))
    chosen, distinct = points(rng, lines, spec['n'])
    mon.observe('statements seen', distinct)
    reached = 0
    while chosen:
        pkf = make(spec, eqs)
        story = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            if not chosen:
                break
            where, k = chosen.pop()
            hit = interrupted(lambda: read(pkf, names), where, k, rng.choice(ERRORS))
            reached += hit
            mon.observe('crash points reached', int(hit))
            story.append(f'{where[0].rsplit("/", 1)[-1]}:{where[1]}#{k} {hit}')
        got = equations(pkf, systems)
        mon.check(got['unclosed_terms'] == want['unclosed_terms'], 'same unclosed terms after an interruption', story=story,
                  got=got['unclosed_terms'], want=want['unclosed_terms'], eqs=eqs)
        for n in systems:
            a, b = want[n], got[n]
            if a == b:
                mon.check(True, 'same equations after an interruption')
                continue
            ok = sorted(str(l) for l, _ in a) == sorted(str(l) for l, _ in b)
            if ok:
                tr = tr or trials(ref, eqs, spec, E, n=1)[0]
                b = dict(b)
                ok = all(tr.equal(r, b[l])[0] for l, r in a)
            mon.check(ok, 'same equations after an interruption', system=n, story=story, got=got[n], want=want[n], eqs=eqs)
    mon.done(shape_class(eqs), sample=(eqs, distinct, reached), nontrivial=reached > 0)


def run_closure(spec, mon):
    from sympkf.symbolic import pkfcas
    rng = rng_for(*spec['seed'])
    t, x, y = sympy.symbols('t x y')
    u = sympy.Function('u')(t, x, y) if 'plane' in spec else sympy.Function('u')(t, x)
    cls = getattr(pkfcas, spec['closure'])
    orders = [rng.choice([2, 3, 3, 4]) for _ in range(2)] if 'plane' not in spec else [2, 1]

    def read(c):
        for k in orders:
            c.closure(k)
            c.closure_by_order(k)
            c.taylor(k)
            if spec['closure'] == 'Closure':
                c.in_metric_by_order(k)

    def values(c):
        out = {}
        asked = sorted({2, max(orders), 3} if 'plane' not in spec else {1, 2})
        for k in rng.sample(asked, len(asked)):     # in any order: what was left by the interruption may be asked first
            form = {'closure': lambda: c.closure(k), 'orders': lambda: c.closure_by_order(k), 'taylor': lambda: sympy.expand(c.taylor(k))}
            if spec['closure'] == 'Closure':
                form['metric'] = lambda: c.in_metric_by_order(k)
            for name in rng.sample(list(form), len(form)):
                out[k, name] = form[name]()
        return out
    want = values(cls(u))
    c0 = cls(u)
    _, lines = record(lambda: read(c0))
    chosen, distinct = points(rng, lines, spec['n'])
    reached = 0
    for where, k in chosen:
        c = cls(u)
        hit = interrupted(lambda: read(c), where, k, rng.choice(ERRORS))
        reached += hit
        mon.observe('crash points reached', int(hit))
        got = values(c)
        mon.check(got == want, 'same closure after an interruption', at=f'{where[1]}#{k}', got=got, want=want)
    mon.done((spec['closure'], orders, spec['seed']), sample=(spec['closure'], orders, distinct, reached), nontrivial=reached > 0)

"""the forecasts of one model are independent of one another: interleaved, nested, interrupted"""
import contextlib
import io
import numpy as np
import sympy
from sympy import Derivative
from ..interleave import interleaved
from ..interrupt import record, interrupted, points, Interrupted
from ..models import Data, systems, unambiguous, t
from ..pkfcommon import rng_for
from ..runtime import Inconclusive

RULE = ('a case is one model object (hand written, split, linear, or generated from a system) and several forecasts of it: '
        'in threads that take turns between two statements of the code according to a random schedule, inside one another, '
        'and after interruptions at random statements; non-trivial when threads did switch and every result was compared with '
        'the same forecast made alone; distinct by schedule')
MIN = {'checked:forecasts in turns': 300, 'switches': 5000, 'checked:forecast after an interruption': 200,
       'crash points reached': 200, 'checked:nested forecasts': 40, 'distinct schedules': 100}


def cases(tier, seed):
    n = 96 if tier == 'quick' else 640
    return [{'seed': ['M06', seed, k], 'which': k % 8, 'kind': ['poly', 'generated', 'linear', 'split', 'generated', 'leapfrog'][k % 6], 'cpu': 90}
            for k in range(n)]


def make(spec, rng, rs):
    """(model, random initial state, files of the model's own code)"""
    from sympkf.model import Model
    from ..numodels import Poly, Linear
    scheme = rng.choice(['euler', 'rk2', 'rk4'])
    kind = spec['kind']
    if kind == 'poly':
        shape = rng.choice([(3,), (2, 3)])
        return Poly(list(rs.uniform(-.5, .5, 4)), time_scheme=scheme), lambda: rs.uniform(-1, 1, shape), ()
    if kind == 'leapfrog':
        return Poly(list(rs.uniform(-.5, .5, 4)), time_scheme='leapfrog'), lambda: [rs.uniform(-1, 1, 3), rs.uniform(-1, 1, 3)], ()
    if kind == 'linear':
        n = rng.randint(2, 4)
        return Linear(rs.uniform(-1, 1, (n, n)), rs.uniform(-1, 1, (n, n)), time_scheme=scheme), lambda: rs.uniform(-1, 1, n), ()
    if kind == 'split':
        A, B = rs.uniform(-1, 1, (2, 3, 3))

        class Split(Model):
            trend = None

            def __init__(self):
                super().__init__(time_scheme='splitting')
                self.trend = [{'trend': lambda t, x: A @ x + np.cos(t), 'scheme': self.time_schemes[scheme]},
                              {'update': lambda t, x, dt: x + dt * np.sin(B @ x) * t},
                              {'trend': lambda t, x: -x * x, 'scheme': self.time_schemes['rk2']}]
        return Split(), lambda: rs.uniform(-1, 1, 3), ()
    from sympkf.symbolic.util import PDESystem, Eq
    from sympkf.symbolic.model_builder_FD import FDModelBuilder
    for _ in range(10):
        eqs = systems(rng, spec['which'])
        if unambiguous(eqs):
            break
    else:
        raise Inconclusive('ambiguous names')
    name = f'Turns{rng.randrange(10 ** 8)}'
    code = FDModelBuilder(PDESystem([Eq(Derivative(u, t), r) for u, r in eqs], name=name)).code
    ns, file = {}, f'<generated {name}>'
    exec(compile(code, file, 'exec'), ns)
    d = len(eqs[0][0].args) - 1
    data = Data(rng, eqs, tuple(rng.randint(5, 7) for _ in range(d)), (1.,) * d)
    cls = data.with_exogenous(ns[name], [])
    model = cls(shape=data.shape, lengths=data.lengths, time_scheme=scheme, **data.kwargs())
    return model, lambda: rs.uniform(.6, 1.6, data.state.shape), (file,)


def same(a, b):
    return list(a) == list(b) and all(np.array_equal(np.array(a[z]), np.array(b[z]), equal_nan=True) for z in a)


def run(spec, mon):
    rng = rng_for(*spec['seed'])
    rs = np.random.RandomState(rng.randrange(2 ** 31))
    schedules = set()
    with contextlib.redirect_stdout(io.StringIO()), np.errstate(all='ignore'):
        model, draw, files = make(spec, rng, rs)
        dt = 1e-5 if spec['kind'] == 'generated' else 0.05
        jobs = []
        for _ in range(rng.choice([2, 3, 4])):
            window = list(rng.choice([0., 1.]) + np.cumsum([dt * rng.choice([1, 2]) for _ in range(rng.randint(2, 5))]))
            jobs.append((window, draw(), rng.choice([None, [window[-1]], window[::2]])))
        keep = [np.array(x).copy() for _, x, _ in jobs]
        alone = [model.forecast(*j) for j in jobs]
        # in turns
        for n in range(4):
            out, switches, trace = interleaved([lambda j=j: model.forecast(*j) for j in jobs], (spec['seed'], n),
                                               rng.choice([0.05, 0.3, 0.8]), files)
            mon.observe('switches', switches)
            schedules.add(str(trace[:60]))
            for k, (value, error) in enumerate(out):
                mon.check(error is None and same(value, alone[k]), 'forecasts in turns', error=repr(error), job=k, kind=spec['kind'],
                          switches=switches)
        # one inside the other: the trend of a forecast looks ahead with the same model
        if spec['kind'] in ('poly', 'linear', 'leapfrog'):
            inner = model.trend
            ahead = []

            def trend(time, x):
                if len(ahead) < 3:
                    ahead.append(None)
                    ahead[-1] = model.forecast(*jobs[-1])
                return inner(time, x)
            model.trend = trend
            got = model.forecast(*jobs[0])
            model.trend = inner
            mon.check(same(got, alone[0]) and all(same(z, alone[-1]) for z in ahead if z is not None), 'nested forecasts', kind=spec['kind'])
        # after interruptions
        _, lines = record(lambda: model.forecast(*jobs[0]))
        for where, k in points(rng, lines, 4)[0]:
            hit = interrupted(lambda: model.forecast(*jobs[0]), where, k, rng.choice([Interrupted, MemoryError]))
            mon.observe('crash points reached', int(hit))
            for j, want in zip(jobs, alone):
                mon.check(same(model.forecast(*j), want), 'forecast after an interruption', at=f'{where[1]}#{k}', kind=spec['kind'])
        mon.check(all(np.array_equal(np.array(x), z) for (_, x, _), z in zip(jobs, keep)), 'initial states not modified', kind=spec['kind'])
    mon.observe('distinct schedules', len(schedules))
    mon.done((spec['kind'], sorted(schedules)), sample=(spec['kind'], len(jobs), sorted(schedules)[:1]))

"""time splitting = composition of the fractional steps, in order"""
import numpy as np
from ..pkfcommon import rng_for
from ..schemes import STEP

RULE = ('a case is a random list of fractional steps (trends with a scheme, exact updates) that do not commute; '
        'non-trivial when every step and every call of the fractions was compared with the reference composition; '
        'distinct by the list')
MIN = {'checked:split step': 200, 'checked:order of the fractions': 200}


def cases(tier, seed):
    n = 288 if tier == 'quick' else 1920
    return [{'seed': ['M02', seed, k], 'cpu': 60} for k in range(n)]


def run(spec, mon):
    from sympkf.model import Model
    rng = rng_for(*spec['seed'])
    rs = np.random.RandomState(rng.randrange(2 ** 31))
    n = rng.randint(1, 4)
    shape = rng.choice([(n,), (n, 2)])
    parts, ref, log, forcings = [], [], [], []
    nparts = rng.choice([1, 2, 3, 4, 5, 5, 9, 16])
    kinds = []
    for k in range(nparts):
        A, b = rs.uniform(-1, 1, (n, n)), rs.uniform(-1, 1, shape)
        kind = rng.choice(['euler', 'rk2', 'rk4', 'update', 'own'])
        stored = rng.random() < .2      # the trend of this fraction is an array that the model keeps
        forcing = b
        kinds.append(kind)
        c = rng.uniform(-1, 1)
        if stored:
            forcings.append((forcing, forcing.copy()))

        def f(t, x, A=A, b=b, c=c, k=k, stored=stored, forcing=forcing):
            log.append((k, t))
            if stored:
                return forcing
            return A @ x + b * np.cos(t) + c * np.sin(x)

        def up(t, x, dt, A=A, b=b, k=k):
            log.append((k, t, dt))
            return x + dt * (A @ x) + b * t * dt ** 2

        def own(trend, t, x, dt):
            return x + dt * trend(t + dt / 3, x)
        if kind == 'update':
            parts.append({'update': up})
            ref.append(lambda t, x, dt, up=up: up(t, x, dt))
        elif kind == 'own':
            parts.append({'trend': f, 'scheme': own})
            ref.append(lambda t, x, dt, f=f: own(f, t, x, dt))
        else:
            parts.append({'trend': f, 'scheme': kind})
            ref.append(lambda t, x, dt, f=f, kind=kind: STEP[kind](f, t, x, dt))

    class M(Model):
        trend = None

        def __init__(self):
            super().__init__(time_scheme='splitting')
            for p in parts:
                if isinstance(p.get('scheme'), str):
                    p['scheme'] = self.time_schemes[p['scheme']]
            self.trend = parts
    m = M()
    window = [0.3]
    for _ in range(rng.choice([1, 2, 3, 4, 6, 40])):
        window.append(window[-1] + rng.choice([0.1, 0.05, 0.2]))
    if rng.random() < 0.3:
        window.reverse()        # a forecast backward in time: the same fractions, in the same order
    x0 = rs.uniform(-1, 1, shape)
    keep = x0.copy()
    log.clear()
    out = m.forecast(window, x0)
    got_log = list(log)
    log.clear()
    x = x0.copy()
    mon.check(np.array_equal(x0, keep), 'initial state not modified')
    mon.check(all(np.array_equal(p, q) for p, q in forcings), 'arrays of the trend not modified', kinds=kinds)
    mon.check(list(out) == window, 'saved times', got=list(out))
    for a, b in zip(window[:-1], window[1:]):
        for r in ref:
            x = r(a, x, b - a)
        mon.check(np.allclose(out[b], x, rtol=1e-10, atol=1e-12), 'split step', kinds=kinds, time=b,
                  gap=np.max(abs(out[b] - x)))
    same = [z[0] for z in got_log] == [z[0] for z in log]
    mon.check(same, 'order of the fractions', got=got_log[:20], want=log[:20], kinds=kinds)
    for a, b in zip(got_log, log):
        if a[0] == b[0]:
            mon.check(np.allclose(a[1:], b[1:], atol=1e-12), 'order of the fractions', got=a, want=b, kinds=kinds)
    mon.observe('fraction calls', len(got_log))
    mon.done([kinds, window, spec['seed']], sample=kinds)

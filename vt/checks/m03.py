"""forecasts: what is returned, at which times, from which steps"""
import numpy as np
from ..pkfcommon import rng_for
from ..schemes import STEP

RULE = ('a case is a model, a scheme and a random window (regular, irregular, backward, repeated restarts) with random '
        'saved times; non-trivial when the trajectory was compared with the reference composition of steps; distinct by '
        'the scheme, window and saved times')
MIN = {'checked:trajectory': 300, 'checked:restart': 100, 'checked:window': 100}


def cases(tier, seed):
    n = 192 if tier == 'quick' else 1280
    return [{'seed': ['M03', seed, k], 'batch': 4, 'cpu': 60} for k in range(n)]


def leapfrog(trend, t, xs, dt):
    return [xs[1], xs[0] + 2 * dt * trend(t, xs[1])]


def reference(model, scheme, window, x0):
    step = STEP.get(scheme, leapfrog)
    out, x = [x0], x0
    for a, b in zip(window[:-1], window[1:]):
        x = step(model.trend, a, x, b - a)
        out.append(x)
    return out


def like(a, b):
    return np.allclose(np.array(a), np.array(b), rtol=1e-9, atol=1e-11)


def run(spec, mon):
    from ..numodels import Poly, Identity
    rng = rng_for(*spec['seed'])
    seen = []
    for n in range(spec['batch']):
        rs = np.random.RandomState(rng.randrange(2 ** 31))
        shape = rng.choice([(1,), (4,), (2, 3), (2, 3, 2), (), (2, 40, 30)])
        scheme = rng.choice(['euler', 'rk2', 'rk4', 'leapfrog'])
        model = Poly(list(rs.uniform(-.5, .5, 4)), time_scheme=scheme)
        steps = rng.choice([1, 2, 5, 12, 150])
        kind = rng.choice(['regular', 'irregular', 'backward', 'window', 'integers', 'late', 'fine'])
        q = 1
        if steps > 12:           # as long, in more steps
            q, kind = 16, rng.choice(['regular', 'irregular', 'backward', 'window', 'fine'])
        if kind == 'regular':
            window = list(0.5 + 0.05 / q * np.arange(steps + 1))
        elif kind == 'irregular':
            window = list(np.cumsum([rng.choice([0.01, 0.05, 0.12]) / q for _ in range(steps + 1)]))
        elif kind == 'backward':
            window = list(1.0 - np.cumsum([rng.choice([0.01, 0.05]) / q for _ in range(steps + 1)]))
        elif kind == 'late':
            # times that are large compared with the steps: seconds since an epoch
            window = list(rng.choice([1e6, 1.7e9, -3.2e7]) + rng.choice([0.0625, 0.25]) * np.arange(steps + 1))
        elif kind == 'fine':
            window = list(0.25 + 2. ** -rng.choice([20, 30]) * np.arange(steps + 1))
        elif kind == 'integers':
            window = list(range(0, min(steps, 3) + 1))
        else:
            model.set_dt(0.05 / q)
            window = model.window(0.05 / q * steps)
        if rng.random() < 0.5:
            window = np.array(window)
        x0 = rs.uniform(-1, 1, shape) * (0.3 if kind == 'integers' else 1)
        if scheme == 'leapfrog':
            x0 = [x0, x0 + 0.01 * rs.uniform(-1, 1, shape)]
        keep = np.array(x0).copy()
        traj = reference(model, scheme, window, x0)
        times = list(window)
        saved = rng.choice(['all', 'last', 'some', 'float', 'npfloat', 'array', 'first'])
        if saved == 'all':
            arg, want = None, list(range(len(times)))
        elif saved == 'last':
            arg, want = [times[-1]], [len(times) - 1]
        elif saved == 'first':
            arg, want = [times[0]], [0]
        elif saved in ('float', 'npfloat'):
            k = rng.randrange(len(times))
            arg, want = (float(times[k]) if saved == 'float' else np.float64(times[k])), [k]
        else:
            want = sorted(rng.sample(range(len(times)), rng.randint(1, len(times))))
            arg = [times[k] for k in want]
            if saved == 'some':
                arg = arg[::-1]
            else:
                arg = np.array(arg)
        out = model.forecast(window, x0, arg) if arg is not None else model.forecast(window, x0)
        say = dict(scheme=scheme, kind=kind, saved=saved, window=times)
        mon.check(list(out) == [times[k] for k in want], 'saved times', got=list(out), **say)
        for k in want:
            mon.check(like(out[times[k]], traj[k]), 'trajectory', k=k, **say)
        mon.check(np.array_equal(np.array(x0), keep), 'initial state not modified', **say)
        if 0 in want:
            mon.check(np.array_equal(np.array(out[times[0]]), keep), 'starts from the initial state', **say)
        arr = model.predict(window, x0, arg) if arg is not None else model.predict(window, x0)
        mon.check(isinstance(arr, np.ndarray) and arr.shape[0] == len(want) and
                  np.array_equal(arr, np.array([out[times[k]] for k in want])), 'predict = forecast', **say)
        again = model.forecast(window, x0)
        mon.check(list(again) == times and all(np.array_equal(np.array(again[times[k]]), np.array(out[times[k]])) for k in want),
                  'repeatable', **say)
        # times that are not in the window are ignored
        extra = np.float64(7.7e3)
        mixed = model.forecast(window, x0, [times[0], extra, times[-1]])
        mon.check(list(mixed) == [times[0], times[-1]] and all(np.array_equal(np.array(mixed[z]), np.array(again[z])) for z in mixed),
                  'saved times', what='a time outside the window', got=list(mixed), **say)
        # stopping and starting again gives the same trajectory
        if len(times) > 2:
            cut = rng.randrange(1, len(times) - 1)
            first = model.forecast(window[:cut + 1], x0)
            second = model.forecast(window[cut:], first[times[cut]])
            mon.check(all(np.array_equal(np.array(second[z]), np.array(again[z])) for z in times[cut:]) and
                      all(np.array_equal(np.array(first[z]), np.array(again[z])) for z in times[:cut + 1]), 'restart', **say)
        # window
        dt = rng.choice([0.1, 0.05, 0.3, 1.0, 0.01])
        k = rng.choice([1, 2, 3, 7, 10, 30])
        start = rng.choice([0., 0.5, -1., 3.3])
        model.set_dt(dt)
        w = model.window(start + k * dt, start) if start or rng.random() < .5 else model.window(k * dt)
        mon.check(model.dt == dt and len(w) == k + 1 and np.allclose(w, start + dt * np.arange(k + 1), rtol=0, atol=1e-10 * (1 + abs(start) + k * dt)),
                  'window', start=start, k=k, dt=dt, got=w)
        # any end, long windows, a negative time step: multiples of the step from the start, up to the end
        dt = rng.choice([0.1, 0.05, 0.3, 1.0, 0.01, 0.25, 1 / 3, 2., -0.1, -0.25])
        k, part = rng.choice([3, 10, 99, 150, 700, 4000]), rng.choice([0., 0., .1, .25, .4, .55, .8, .9])
        start = rng.choice([0., 0., 0.5, -1., 3.3])
        end = start + (k + part) * dt
        model.set_dt(dt)
        w = np.asarray(model.window(end, start) if start else model.window(end))
        gap = (end - w[-1]) / dt if len(w) else None
        mon.check(len(w) > 1 and np.allclose(w, start + dt * np.arange(len(w)), rtol=0, atol=1e-9 * (1 + abs(start) + k * abs(dt))) and -.5 < gap < .9,
                  'window', start=start, k=k, part=part, dt=dt, got=(len(w), w[:3], w[-3:]))
        if scheme != 'leapfrog':
            spin = Poly(list(rs.uniform(-.5, .5, 4)), time_scheme=scheme)
            spin.n, spin.nstart = rng.randint(1, 5), rng.randint(1, 12)
            spin.set_dt(0.05)
            starts = []
            inner = spin.trend
            spin.trend = lambda t, x: (starts.append(np.array(x)), inner(t, x))[1]
            got = spin.randstate()
            first = starts[0] if starts else got
            spin.trend = inner
            mon.check(np.shape(first) == (spin.n,) and
                      like(got, reference(spin, scheme, 0.05 * np.arange(spin.nstart), first)[-1]), 'random state after spin-up',
                      n=spin.n, nstart=spin.nstart, scheme=scheme)
            mon.check(not np.array_equal(spin.randstate(), spin.randstate()), 'random states differ', n=spin.n)
        ident = Identity(time_scheme=rng.choice(['euler', 'rk2', 'rk4']))
        x1 = rs.uniform(-1, 1, shape)
        fixed = ident.forecast(ident.window(4.), x1)
        mon.check(len(fixed) == 5 and all(np.array_equal(v, x1) for v in fixed.values()), 'identity model', got=list(fixed))
        seen.append((scheme, kind, saved, len(times), shape))
    mon.done(seen, sample=seen)

"""tangent-linear forecast and propagator of a linear model"""
import numpy as np
from ..pkfcommon import rng_for
from ..schemes import STEP

RULE = ('a case is a linear or nonlinear model with random perturbations; non-trivial when every tangent forecast was '
        'compared with the derivative of the flow (complex step through the reference scheme) and the propagator with '
        'forecasts; distinct by the model')
MIN = {'checked:tangent forecast': 100, 'checked:propagator': 50}


def cases(tier, seed):
    n = 120 if tier == 'quick' else 800
    return [{'seed': ['M05', seed, k], 'cpu': 60} for k in range(n)]


def flow(model, scheme, window, x):
    out = [x]
    for a, b in zip(window[:-1], window[1:]):
        out.append(STEP[scheme](model.trend, a, out[-1], b - a))
    return out


def run(spec, mon):
    from ..numodels import Linear, Poly
    rng = rng_for(*spec['seed'])
    rs = np.random.RandomState(rng.randrange(2 ** 31))
    n = rng.randint(2, 5)
    scheme = rng.choice(['euler', 'rk2', 'rk4'])
    window = list(np.cumsum([rng.choice([0.02, 0.05, 0.1]) for _ in range(rng.choice([2, 4, 7]))]))
    # nonlinear
    shape = rng.choice([(n,), (2, n)])
    model = Poly(list(rs.uniform(-.8, .8, 4)), time_scheme=scheme)
    x = rs.uniform(-1, 1, shape)
    keep = x.copy()
    P = [rs.uniform(-1, 1, shape) for _ in range(rng.choice([1, 2, 5]))]
    if rng.random() < 0.2:
        x = np.zeros(shape)
        keep = x.copy()
    elif rng.random() < 0.3:
        x = rs.randint(-1, 2, shape).astype(rng.choice([int, np.int32, np.int8]))
        keep = x.copy()
    elif rng.random() < 0.2:
        P[0] = rs.randint(-1, 2, shape)
    if rng.random() < 0.4:
        P[rng.randrange(len(P))] = np.zeros(shape) if rng.random() < 0.5 else 1.0 * P[0]
    kP = [p.copy() for p in P]
    saved = rng.choice([None, [window[-1]], window[::2], [window[-1], window[0], window[-1]], tuple(window[1:]) + tuple(window[1:])])
    want = sorted(set(window if saved is None else saved))
    exact = [[z.imag / 1e-30 for z in flow(model, scheme, window, x + 1e-30j * p)] for p in P]
    gaps = []
    for h in (None, 1e-3, 1e-5):
        kw = {} if h is None else {'h': h}
        given = rng.choice([P, P, tuple(P), np.array(P), (p for p in P), iter(P)])
        ref, tl = model.forecast_tl(window, x, given, saved, **kw)
        hh = 1e-4 if h is None else h
        own = model.forecast(window, x, saved)
        mon.check(list(ref) == list(want) and all(np.array_equal(ref[z], own[z]) for z in want), 'reference trajectory', h=h)
        mon.check(sorted(tl) == sorted(want) and all(len(tl[z]) == len(P) for z in want), 'one tangent per perturbation', h=h)
        worst = 0
        for z in want:
            k = window.index(z)
            for j, p in enumerate(P):
                gap = np.max(abs(tl[z][j] - exact[j][k]))
                worst = max(worst, gap)
                mon.check(gap < 20 * hh + 1e-9, 'tangent forecast', h=hh, gap=gap, member=j, scheme=scheme)
        gaps.append(worst)
        mon.check(np.array_equal(x, keep) and all(np.array_equal(a, b) for a, b in zip(P, kP)), 'arguments not modified')
    # first order in the amplitude: a hundred times smaller from 1e-3 to 1e-5
    mon.check(gaps[2] < gaps[1] / 20 + 1e-9, 'tangent forecast', what='convergence in h', gaps=gaps)
    # linear model
    lin = Linear(rs.uniform(-1, 1, (n, n)), rs.uniform(-1, 1, (n, n)), time_scheme=scheme)
    M = lin.make_M(window)
    mon.check(np.shape(M) == (n, n), 'propagator', what='shape', got=np.shape(M))
    for _ in range(3):
        v = rs.uniform(-1, 1, n)
        end = lin.forecast(window, v)[window[-1]]
        mon.check(np.allclose(M @ v, end, rtol=1e-9, atol=1e-12), 'propagator', gap=np.max(abs(M @ v - end)), scheme=scheme)
    # the same in other units: the coefficients are of any size
    units = np.array([10.0 ** rng.choice([-9, -4, 0, 3, 8]) for _ in range(n)])
    other = Linear(lin.A * units[:, None] / units, lin.B * units[:, None] / units, time_scheme=scheme)
    U = other.make_M(window)
    mon.check(np.allclose(np.asarray(U) * units / units[:, None], M, rtol=1e-9, atol=1e-12), 'propagator', what='units', units=units)
    _, tl = lin.forecast_tl(window, rs.uniform(-1, 1, n), [rs.uniform(-1, 1, n) * 0 + e for e in np.eye(n)])
    for j in range(n):
        mon.check(np.allclose(tl[window[-1]][j], M[:, j], atol=1e-9), 'tangent forecast', what='linear model', member=j)
    # perturbations of any size
    for j in range(n):
        size = 10.0 ** rng.choice([-5, -2, 1.3, 2, 3, 5]) * rng.choice([-1, 1])
        _, tl = lin.forecast_tl(window, rs.uniform(-1, 1, n), [size * np.eye(n)[j], np.eye(n)[j]], [window[-1]])
        mon.check(np.allclose(tl[window[-1]][0] / size, M[:, j], rtol=1e-6, atol=1e-10 + 1e-10 / abs(size)), 'tangent forecast', what='size', size=size,
                  gap=np.max(abs(tl[window[-1]][0] / size - M[:, j])))
        mon.check(np.allclose(tl[window[-1]][1], M[:, j], atol=1e-9), 'tangent forecast', what='beside a large one', size=size)
    if len(window) > 2:
        c = len(window) // 2
        mon.check(np.allclose(lin.make_M(window[c:]) @ lin.make_M(window[:c + 1]), M, atol=1e-10), 'propagator', what='composition')
    mon.done([scheme, shape, window, spec['seed']], sample=[scheme, shape, window])

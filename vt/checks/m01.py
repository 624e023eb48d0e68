"""order of accuracy of the time schemes"""
import mpmath
import numpy as np
from ..pkfcommon import rng_for

RULE = ('a case is a random non-autonomous nonlinear system with a known solution; non-trivial when the local error of '
        'every scheme was measured at 100 digits for several steps; distinct by the system')
MIN = {'checked:order of euler': 40, 'checked:order of rk2': 40, 'checked:order of rk4': 40, 'checked:order of leapfrog': 40,
       'checked:step with stored slopes': 400}
ORDER = {'euler': 1, 'rk2': 2, 'rk4': 4, 'leapfrog': 2}


def cases(tier, seed):
    n = 192 if tier == 'quick' else 1280
    return [{'seed': ['M01', seed, k], 'cpu': 60} for k in range(n)]


def run(spec, mon):
    from sympkf.model import Model
    rng = rng_for(*spec['seed'])
    mpmath.mp.dps = 100
    mp = mpmath.mpf
    shape = rng.choice([(1,), (3,), (2, 2), (2, 3)])
    size = int(np.prod(shape))
    # exact solution g_i(t), stiffness J, quadratic and cubic couplings
    par = [(mp(rng.uniform(.5, 1.5)), mp(rng.uniform(.5, 2)), mp(rng.uniform(0, 6))) for _ in range(size)]
    J = [[mp(rng.uniform(-1, 1)) for _ in range(size)] for _ in range(size)]
    J1 = [[mp(rng.uniform(-1, 1)) for _ in range(size)] for _ in range(size)]
    q = [mp(rng.uniform(-1, 1)) for _ in range(size)]
    c = [mp(rng.uniform(-1, 1)) for _ in range(size)]

    def g(t, d=0):
        out = np.empty(size, dtype=object)
        for i, (a, w, p) in enumerate(par):
            out[i] = a * w ** d * mpmath.sin(w * t + p + d * mpmath.pi / 2)
        return out.reshape(shape)

    log = []

    class M(Model):
        def trend(self, t, x):
            log.append((t, x.copy()))
            r = (x - g(t)).ravel()
            out = g(t, 1).ravel().copy()
            for i in range(size):
                out[i] = out[i] + sum((J[i][j] + t * J1[i][j]) * r[j] for j in range(size)) \
                    + q[i] * r[i] * r[(i + 1) % size] + c[i] * r[i] ** 3
            return out.reshape(shape)
    t0 = mp(rng.uniform(-1, 2))
    sign = rng.choice([1, 1, -1])
    for name, p in ORDER.items():
        m = M(time_scheme=name) if name != 'rk4' or rng.random() < .5 else M()
        if rng.random() < .3:
            m = M(time_scheme='euler')
            m.set_time_scheme(name)
        errs, hs = [], [mp(sign) / 10 ** 6, mp(sign) / (2 * 10 ** 6)]
        for h in hs:
            x = g(t0) if name != 'leapfrog' else [g(t0 - h), g(t0)]
            keep = [z.copy() for z in (x if name == 'leapfrog' else [x])]
            log.clear()
            out = m.forecast([t0, t0 + h], tuple(x) if name == 'leapfrog' and len(errs) else x)
            mon.observe('steps of ' + name)
            y = out[t0 + h]
            if name == 'leapfrog':
                mon.check(len(y) == 2 and np.all(y[0] == g(t0)), 'leapfrog keeps the last state')
                y = y[1]
            mon.check(all(np.all(a == b) for a, b in zip(keep, x if name == 'leapfrog' else [x])), 'initial state not modified',
                      scheme=name)
            lo, hi = min(t0, t0 + h), max(t0, t0 + h)
            tiny = abs(h) * mp(10) ** -80
            mon.check(all(lo - tiny <= z <= hi + tiny for z, _ in log) and log[0][0] == t0, 'trend evaluated within the step',
                      scheme=name, times=[mpmath.nstr(z - t0, 10) for z, _ in log], h=h)
            errs.append(max(abs(z) for z in (y - g(t0 + h)).ravel()))
        ratio = errs[0] / errs[1] if errs[1] else mp('inf')
        # local error C h^(p+1); an accidental cancellation only raises the ratio
        mon.check(ratio > mp(2) ** (p + 1) * mp('0.98'), f'order of {name}', ratio=mpmath.nstr(ratio, 8),
                  want=2 ** (p + 1), errors=[mpmath.nstr(z, 5) for z in errs])
        mon.check(errs[0] < 1000 * abs(hs[0]) ** (p + 1), f'size of the error of {name}', errors=[mpmath.nstr(z, 5) for z in errs])
    stored_results(mon, rng)
    mon.done(spec['seed'], sample=f'shape {shape}, step sign {sign}')


def stored_results(mon, rng):
    """a trend may return its argument, a view of it, or an array the model keeps: none of them is written to"""
    from sympkf.model import Model
    from ..schemes import STEP
    rs = np.random.RandomState(rng.randrange(2 ** 31))
    n = rng.randint(1, 4)
    force = rs.uniform(-1, 1, (n, n))
    table = {k: rs.uniform(-1, 1, (n, n)) for k in range(3)}
    kinds = {'its argument': lambda t, x: x, 'a view': lambda t, x: x[::-1], 'transposed': lambda t, x: x.T,
             'forcing kept': lambda t, x: force, 'table of forcings': lambda t, x: table[int(np.floor(abs(t) * 20)) % 3]}
    for kind, f in kinds.items():
        for name in ('euler', 'rk2', 'rk4', 'leapfrog'):
            m = Model(time_scheme=name)
            m.trend = f
            keep = force.copy(), {k: v.copy() for k, v in table.items()}
            x0 = rs.uniform(-1, 1, (n, n))
            window = [0.3 + 0.125 * k for k in range(rng.randint(2, 5))]
            if name == 'leapfrog':
                x0 = [x0, rs.uniform(-1, 1, (n, n))]
                before = [z.copy() for z in x0]
                out = m.forecast(window, rng.choice([list, tuple, lambda z: z])(x0))
                got = {k: v[1] for k, v in out.items()}
                want, last = {window[0]: before[1]}, list(before)
                for a, b in zip(window[:-1], window[1:]):
                    last = [last[1], last[0] + 2 * (b - a) * f(a, last[1])]
                    want[b] = last[1]
            else:
                before = [x0.copy()]
                got = m.forecast(window, x0)
                x0 = [x0]
                want, x = {window[0]: before[0]}, before[0].copy()
                for a, b in zip(window[:-1], window[1:]):
                    x = STEP[name](f, a, x, b - a)
                    want[b] = x
            same = np.array_equal(force, keep[0]) and all(np.array_equal(v, keep[1][k]) for k, v in table.items())
            mon.check(same, 'arrays of the trend not modified', scheme=name, trend=kind)
            mon.check(all(np.array_equal(p, q) for p, q in zip(x0, before)), 'initial state not modified', scheme=name, trend=kind)
            mon.check(all(np.allclose(got[w], want[w], rtol=1e-11, atol=1e-12) for w in window),
                      'step with stored slopes', scheme=name, trend=kind, got=got, want=want)


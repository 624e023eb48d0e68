"""generated manifold model: the right-hand side with the derivatives of the base space"""
import numpy as np
import sympy
from sympy import Derivative
from ..grid import Grid, agree, stencil
from ..models import Data, clean, exec_class, systems, LARGE, unambiguous, t
from ..pkfcommon import rng_for
from ..runtime import Inconclusive
from ..schemes import STEP

RULE = ('a case is a random or named system; non-trivial when the model generated for a base space (a monitor recording '
        'and answering every derivative request) had its trend compared with an independent evaluation; distinct by the '
        'system')
MIN = {'checked:trend': 60, 'derivative requests': 100}
NAMED = ['burgers', 'kuramoto', 'diffusion', 'advection', 'advection_in_2D', 'diffusion_in_2D', 'advection_in_3D']


def cases(tier, seed):
    n = 216 if tier == 'quick' else 1800
    out = [{'seed': ['B03', seed, 'named', d], 'named': d, 'cpu': 60} for d in NAMED]
    out += [{'seed': ['B03', seed, w, k], 'which': w, 'cpu': 60} for w in LARGE for k in range(6 if tier == 'quick' else 60)]
    return out + [{'seed': ['B03', seed, k], 'which': k % 8, 'cpu': 60} for k in range(n)]


class BaseSpace:
    def __init__(self, names, shape, lengths):
        self.names, self.shape = list(names), shape
        self.dx = [L / n for L, n in zip(lengths, shape)]
        self.dimension = len(names)
        self.requests = []

    def diff(self, field, *spec):
        assert len(spec) % 2 == 0 and len(spec) >= 2
        self.requests.append(tuple(str(z) for z in spec))
        out = np.asarray(field, dtype=float)
        for c, k in zip(spec[::2], spec[1::2]):
            ax, k = self.names.index(c), int(k)
            out = sum(np.roll(out, -p, ax) * (float(w) / self.dx[ax] ** k) for p, w in stencil(k).items())
        return out


def run(spec, mon):
    from sympkf.symbolic.util import PDESystem, Eq
    from sympkf.symbolic.model_builder_manifold import ManifoldModelBuilder
    import sympkf.symbolic.dynamics as dynamics
    rng = rng_for(*spec['seed'])
    if 'named' in spec:
        arg = getattr(dynamics, spec['named'])
        eqs = [(e.args[0].args[0], e.args[1]) for e in arg]
    else:
        for _ in range(10):
            eqs = systems(rng, spec['which'])
            if unambiguous(eqs):
                break
        else:
            raise Inconclusive('ambiguous names')
        arg = [Eq(Derivative(u, t), r) for u, r in eqs]
        if rng.random() < 0.5:
            arg = PDESystem(arg, name='Model')
    cls = exec_class(ManifoldModelBuilder(arg, class_name='Generated').code, 'Generated')
    coords = [c for c in max((u.args for u, _ in eqs), key=len) if c != t]
    names = [clean(c) for c in coords]
    mon.check(tuple(cls.prognostic_functions) == tuple(clean(u.func) for u, _ in eqs), 'order of the prognostic fields',
              got=cls.prognostic_functions, eqs=eqs)
    for trial in range(2):
        lo, hi = {1: (9, 23), 2: (8, 12), 3: (5, 8), 4: (3, 6)}[len(coords)]
        shape = tuple(rng.randint(lo, hi) for _ in coords)
        lengths = tuple(rng.choice([1.0, 2.5, 40.0]) for _ in coords)
        data = Data(rng, eqs, shape, lengths)
        calls = []
        space = BaseSpace(names, shape, lengths)
        scheme = rng.choice(['rk4', 'euler', 'rk2'])
        model = data.with_exogenous(cls, calls)(space, time_scheme=scheme, **data.kwargs())
        time = rng.choice([0., 2.5])
        keep = data.state.copy()
        with np.errstate(all='ignore'):
            got = model.trend(time, data.state)
            ref, g = data.reference(eqs, time, data.state)
        for i, (u, r) in enumerate(eqs):
            gap = agree(got[i], ref[i])
            mon.check(gap <= 1, 'trend', field=u, rhs=r, gap=gap, requests=space.requests)
        mon.check(np.array_equal(data.state, keep), 'the state is not modified', eqs=eqs)
        mon.observe('derivative requests', len(space.requests))
        with np.errstate(all='ignore'):
            out = model.forecast([time, time + 1e-3], data.state)
            want = STEP[scheme](model.trend, time, data.state, time + 1e-3 - time)
        mon.check(np.allclose(out[time + 1e-3], want, rtol=1e-9, atol=1e-12, equal_nan=True), 'time scheme', want=scheme)
        bad = BaseSpace(names + ['extra'], shape + (4,), lengths + (1.,))
        try:
            data.with_exogenous(cls, calls)(bad, **data.kwargs())
            refused = False
        except Exception:
            refused = True
        mon.check(refused, 'base space of another dimension is refused', eqs=eqs)
    mon.done([str(e) for e in eqs], sample=str(eqs))

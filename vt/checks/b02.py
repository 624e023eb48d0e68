"""generated model on its grid: geometry of the mesh, and second-order convergence to the PDE"""
import numpy as np
import sympy
from sympy import Derivative, Symbol
from ..grid import Grid, Num, agree
from ..models import Data, clean, classify, exec_class, systems, unambiguous, t
from ..pkfcommon import rng_for
from ..runtime import Inconclusive
from ..world import unit_hash

RULE = ('a case is a random system in one to three dimensions, or the Burgers demonstrator; non-trivial when the model '
        'built on two meshes, with fields set from its own grid coordinates, had its trend compared with the exact '
        'right-hand side; distinct by the system')
MIN = {'checked:converges at second order': 60, 'checked:grid': 60, 'checked:Burgers demonstrator': 3}
ASSUMPTIONS = ['the error ratio between two meshes is asserted above 3.2 (4 at second order) once the error is above rounding']


def cases(tier, seed):
    n = 192 if tier == 'quick' else 1600
    out = [{'seed': ['B02', seed, 'burgers', k], 'burgers': 30 + 7 * k, 'cpu': 90} for k in range(3)]
    out += [{'seed': ['B02', seed, w, k], 'which': w, 'cpu': 120} for w in ('fields', 'dimension', 'terms', 'parameters')
            for k in range(3 if tier == 'quick' else 30)]
    return out + [{'seed': ['B02', seed, k], 'which': k % 8, 'cpu': 60} for k in range(n)]


class Fourier:
    """smooth periodic field with exact derivatives"""

    def __init__(self, key, lengths):
        self.c = 1.4 + 0.5 * unit_hash(key, 'c')
        self.lengths = lengths
        self.modes = []
        for j in range(2):
            k = [1 if unit_hash(key, j, i) < .5 else -1 for i in range(len(lengths))]
            self.modes.append((0.15 + 0.1 * unit_hash(key, 'a', j), k, 6 * unit_hash(key, 'p', j)))

    def __call__(self, X, orders=None):
        orders = orders or [0] * len(X)
        out = self.c * (not any(orders)) + 0 * X[0]
        for a, k, p in self.modes:
            w = [2 * np.pi * ki / L for ki, L in zip(k, self.lengths)]
            arg = p + sum(wi * Xi for wi, Xi in zip(w, X))
            f = a
            for wi, o in zip(w, orders):
                f *= wi ** o
            out = out + f * np.sin(arg + sum(orders) * np.pi / 2)
        return out


class ExactGrid(Grid):
    """derivatives are those of the analytic fields"""

    def __init__(self, coords, X, fields, consts):
        self.X, self.analytic = X, fields
        super().__init__(coords, X[0].shape, {c: 1. for c in coords}, {f: v(X) for f, v in fields.items()}, consts)

    def _ev(self, e):
        if isinstance(e, sympy.Derivative):
            f = e.args[0]
            names = [a.name for a in f.args if a.name in self.dx]
            orders = [0] * len(names)
            for var, k in e.variable_count:
                orders[names.index(var.name)] += int(k)
            return Num(self.analytic[f](self.X, orders), 1)
        return super()._ev(e)


def check_grid(mon, model, coords, shape, lengths, default=False):
    ok = tuple(model.shape) == tuple(shape) and tuple(model.lengths) == tuple(lengths)
    for k, (c, n, L) in enumerate(zip(coords, shape, lengths)):
        want = np.arange(n) * (L / n)
        ok = ok and len(model.x[k]) == n and abs(model.dx[k] - L / n) < 1e-14 * L and np.allclose(model.x[k], want, rtol=1e-13, atol=0)
        ix = [0] * len(shape)
        ok = ok and np.shape(model.X[k]) == tuple(shape)
        if ok:
            view = np.moveaxis(model.X[k], k, 0)
            ok = np.allclose(view, want.reshape((-1,) + (1,) * (len(shape) - 1)), rtol=1e-13, atol=0)
        for step in (0, 1, -1, 3, -n, n + 2):
            ok = ok and np.array_equal(model.index(clean(c), step), (np.arange(n) + step) % n)
    mon.check(ok, 'grid', shape=shape, lengths=lengths, dx=model.dx, X=[np.shape(z) for z in model.X], default=default)


def burgers(spec, mon):
    from sympkf.dynamics.burgers import Burgers
    b = Burgers(spec['burgers']) if spec['burgers'] != 30 else Burgers()
    n = spec['burgers'] if spec['burgers'] != 30 else 241
    m = b.model
    check_grid(mon, m, ['x'], (n,), (1.0,))
    m.kappa = kap = 0.0025 * (1 + len(spec['seed']))
    names = tuple(m.prognostic_functions)
    mon.check(names == ('u', 'V_u', 's_u_xx'), 'Burgers demonstrator: fields', got=names)
    rs = np.random.RandomState(spec['burgers'])
    u, V, s = rs.uniform(.5, 1.5, (3, n))
    dx = 1.0 / n
    d = lambda f: (np.roll(f, -1) - np.roll(f, 1)) / (2 * dx)
    d2 = lambda f: (np.roll(f, -1) - 2 * f + np.roll(f, 1)) / dx ** 2
    du = kap * d2(u) - u * d(u) - d(V) / 2
    dV = -u * d(V) - 2 * V * d(u) + kap * d2(V) - kap * d(V) ** 2 / (2 * V) - 2 * kap * V / s
    ds = (-u * d(s) + 2 * s * d(u) + 4 * kap + kap * d2(s) - 2 * kap * d(s) ** 2 / s - 2 * kap * s * d2(V) / V
          + kap * d(V) * d(s) / V + 2 * kap * s * d(V) ** 2 / V ** 2)
    got = m.trend(0., np.array([u, V, s]))
    for k, ref in enumerate((du, dV, ds)):
        scale = np.max(abs(ref)) + kap / dx ** 2
        mon.check(np.max(abs(got[k] - ref)) < 1e-10 * scale, 'Burgers demonstrator', field=names[k],
                  gap=np.max(abs(got[k] - ref)) / scale)
    mon.done(f'burgers {n}', sample='Burgers demonstrator')


def run(spec, mon):
    if 'burgers' in spec:
        return burgers(spec, mon)
    from sympkf.symbolic.util import Eq
    from sympkf.symbolic.model_builder_FD import FDModelBuilder
    rng = rng_for(*spec['seed'])
    for _ in range(10):
        eqs = systems(rng, spec['which'])
        if unambiguous(eqs):
            break
    else:
        raise Inconclusive('ambiguous names')
    base = exec_class(FDModelBuilder([Eq(Derivative(u, t), r) for u, r in eqs], class_name='Generated').code, 'Generated')
    c = classify(eqs)
    coords = c['coords']
    d = len(coords)
    lengths = tuple(rng.choice([1.0, 2.5, 6.283185307179586]) for _ in coords)
    key = repr(spec['seed'])
    fields = {f: Fourier((key, str(f)), lengths) for f in
              list(c['prognostic']) + sorted(c['constant_functions'], key=str) + sorted(c['exogenous'], key=str)}
    consts = {s.name: 0.3 + unit_hash(key, s.name) for s in c['constants']}
    shapes = {1: [(96,), (192,)], 2: [(40, 48), (80, 96)], 3: [(20, 24, 28), (40, 48, 56)], 4: [(9, 10, 11, 12), (18, 20, 22, 24)]}[d]
    if any(k > 2 for _, r in eqs for dd in r.atoms(Derivative) for _, k in dd.variable_count) and d > 1:
        shapes = [(72, 80), (144, 160)]
    if d > 1 and rng.random() < 0.3:
        shapes = [(s[0],) * d for s in shapes]
    errs, size = [], []
    by_name = {clean(f.func): f for f in c['exogenous']}
    for shape in shapes:
        kw = {clean(s): consts[s.name] for s in c['constants']}
        X = {}

        class Model(base):
            def compute_exogenous(self, time, state):
                return [fields[by_name[n]](self.X) for n in self.exogenous_functions]
        model = Model(shape=shape, lengths=lengths, **kw)
        check_grid(mon, model, coords, shape, lengths)
        for f in c['constant_functions']:
            setattr(model, clean(f.func), fields[f](model.X))
        state = np.array([fields[u](model.X) for u, _ in eqs])
        got = model.trend(0., state)
        # own mesh
        own = np.meshgrid(*[np.arange(n) * (L / n) for n, L in zip(shape, lengths)], indexing='ij')
        ref = ExactGrid([z.name for z in coords], own, fields, consts)
        e = [ref.ev(r) for _, r in eqs]
        errs.append([float(np.max(abs(got[i] - np.broadcast_to(e[i].v, shape)))) for i in range(len(eqs))])
        size.append([float(np.max(abs(e[i].v))) + 1 for i in range(len(eqs))])
    h = [max(L / n for L, n in zip(lengths, s)) for s in shapes]
    order = max([1] + [int(sum(k for _, k in dd.variable_count)) for _, r in eqs for dd in r.atoms(Derivative)])
    for i in range(len(eqs)):
        noise = 1e-14 * size[1][i] * (1 / min(L / n for L, n in zip(lengths, shapes[1]))) ** order * 20 + 1e-12
        e1, e2 = errs[0][i], errs[1][i]
        ok = e2 < noise or e2 < e1 / 3.2
        mon.check(ok, 'converges at second order', field=eqs[i][0], rhs=eqs[i][1], errors=(e1, e2), size=size[0][i],
                  shapes=shapes, lengths=lengths)
        mon.observe('errors above rounding' if e2 >= noise else 'errors at rounding level')
    # other meshes: the same number of points everywhere, any number of points, lengths that are integers
    for _ in range(6):
        shape = tuple(rng.randint(3, 250 if d == 1 else 60 if d == 2 else 16 if d == 3 else 8) for _ in coords)
        if rng.random() < 0.5:
            shape = shape[:1] * d
        lens = tuple(rng.choice([1.0, 2.0, 1, 3, 10, 0.1, 2.5, 6.283185307179586, 40000.0, 1e-3]) for _ in coords)
        kind = rng.choice([tuple, tuple, list])
        check_grid(mon, base(shape=kind(shape), lengths=kind(lens), **kw), coords, shape, lens)
    if d <= 2 and rng.random() < 0.4:
        m = base(**kw)
        check_grid(mon, m, coords, (100,) * d, (1.0,) * d, default=True)
    mon.done([str(e) for e in eqs], sample=str(eqs))

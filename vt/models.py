"""Generated models: build the class of a system, give it data, reference trend."""
import keyword
import numpy as np
import sympy
from sympy import Derivative, Function, Symbol
from sympy.core.function import AppliedUndef

from . import gen
from .grid import Grid
from .pkfcommon import rng_for

t = Symbol('t')


def clean(name):
    """python name of a (latex) symbol, as documented: no backslash nor brace, ^ and , become _"""
    out = str(name).replace('\\', '').replace('{', '').replace('}', '').replace('^', '_').replace(',', '_')
    return out + '_' if keyword.iskeyword(out) else out


def exec_class(code, name):
    ns = {}
    exec(compile(code, f'<generated {name}>', 'exec'), ns)
    return ns[name]


def classify(eqs):
    """reference classification of the functions and constants of a system [(u, rhs)]"""
    prog = [u for u, _ in eqs]
    coords = [c for c in max((u.args for u in prog), key=len) if c != t]
    funcs = set()
    for u, r in eqs:
        funcs |= {f for f in r.atoms(AppliedUndef)}
    funcs -= set(prog)
    const_f = {f for f in funcs if t not in f.free_symbols}
    exo = funcs - const_f
    consts = set()
    for u, r in eqs:
        consts |= r.free_symbols
    consts -= set(coords) | {t}
    return {'prognostic': prog, 'coords': coords, 'constant_functions': const_f, 'exogenous': exo,
            'constants': consts}


def unambiguous(eqs):
    """distinct symbols have distinct python names, also once derivatives are named D<f>_<x>_o<k>"""
    c = classify(eqs)
    names = [clean(f.func) for f in list(c['prognostic']) + list(c['constant_functions']) + list(c['exogenous'])]
    names += [clean(s) for s in c['constants']] + ['np', 'self', 'state', 't', 'dstate', 'exogenous']
    return len(set(names)) == len(names)


class Data:
    """random periodic data for a system"""

    def __init__(self, rng, eqs, shape, lengths, uniform_coeff=False):
        self.c = classify(eqs)
        rs = np.random.RandomState(rng.randrange(2 ** 31))
        self.shape, self.lengths = shape, lengths
        self.state = rs.uniform(0.6, 1.6, (len(eqs),) + tuple(shape))
        self.consts = {s: 0.3 + rs.rand() for s in sorted(self.c['constants'], key=str)}
        self.const_f = {f: rs.uniform(0.5, 1.5, shape) for f in sorted(self.c['constant_functions'], key=str)}
        self.exo = {f: (rs.uniform(0.5, 1.5, shape), rs.uniform(-.3, .3, shape)) for f in sorted(self.c['exogenous'], key=str)}

    def kwargs(self):
        out = {clean(s): v for s, v in self.consts.items()}
        out.update({clean(f.func): v for f, v in self.const_f.items()})
        return out

    def exogenous(self, f, time, state):
        a, b = self.exo[f]
        return a + b * time * state[0]

    def grid(self, time, state):
        fields = {u: state[i] for i, u in enumerate(self.c['prognostic'])}
        fields.update(self.const_f)
        fields.update({f: self.exogenous(f, time, state) for f in self.exo})
        names = [c.name for c in self.c['coords']]
        dx = {n: L / s for n, L, s in zip(names, self.lengths, self.shape)}
        return Grid(names, self.shape, dx, fields, {s.name: v for s, v in self.consts.items()})

    def reference(self, eqs, time, state):
        g = self.grid(time, state)
        return [g.ev(r) for _, r in eqs], g

    def with_exogenous(self, cls, calls):
        """subclass giving the exogenous fields, in the order announced by the class"""
        if not self.exo:
            return cls
        data = self
        by_name = {clean(f.func): f for f in self.exo}

        class WithExogenous(cls):
            def compute_exogenous(self, time, state):
                calls.append((time, state.copy()))
                return [data.exogenous(by_name[n], time, state) for n in self.exogenous_functions]
        return WithExogenous


ROUGH = 8
LARGE = ['fields', 'order', 'dimension', 'terms', 'parameters']


def parameters(rng, eqs):
    """the system with many constants and coefficient functions"""
    u = eqs[0][0]
    xs = [z for z in u.args if z != t]
    ks = [Symbol(f'p_{{{i}}}' if rng.random() < .5 else f'p{i}') for i in range(rng.choice([10, 14, 21]))]
    fs = [sympy.Function(f'G{i}')(*xs) for i in range(rng.choice([4, 9, 12]))]
    rng.shuffle(ks)
    out = []
    for i, (v, r) in enumerate(eqs):
        for j, k in enumerate(ks):
            if j % len(eqs) == i:
                r = r + k * rng.choice([u, v, Derivative(v, xs[0]), u * v, Derivative(u, xs[-1], 2)]) * rng.choice([1, -2])
        for j, f in enumerate(fs):
            if j % len(eqs) == i:
                r = r - f * rng.choice([v, u ** 2, Derivative(u, xs[0])])
        out.append((v, r))
    return out


def rough(rng, eqs):
    """functions that are not smooth: limiters, thresholds, upwinding, cases"""
    k = Symbol(rng.choice(['u_c', 'q_{max}', 'L']))
    out = []
    for u, r in eqs:
        v = rng.choice(eqs)[0]
        c = rng.choice([z for z in u.args if z != t])
        ux, vx = Derivative(u, c), Derivative(v, c)
        a, b = rng.choice([u, ux, v - u / 2]), rng.choice([k, vx, v, sympy.Integer(1)])
        cases = rng.choice([lambda: ((a, u > k), (b, True)), lambda: ((a, sympy.And(u > k, vx < 0)), (u, sympy.Or(u < k / 2, vx > 1)), (b, True)),
                            lambda: ((a * v, ux >= 0), (-b, True)), lambda: ((a, k > 1), (0, True)), lambda: ((u, v > k), (a * b, u < v + k), (1, True))])
        term = rng.choice([lambda: sympy.Max(a, b), lambda: sympy.Min(a, b, u), lambda: sympy.Max(a, b, u, v / 2, 1 + k), lambda: sympy.Min(u, ux, a * b, k), lambda: sympy.Max(u, v + k, vx, b, 1, evaluate=False), lambda: sympy.Max(0, u - k) * vx, lambda: sympy.Min(sympy.Max(u, k), 2 * k),
                           lambda: sympy.Piecewise(*cases()), lambda: sympy.Piecewise(*cases()), lambda: sympy.sign(a) * b, lambda: sympy.Abs(a) * vx,
                           lambda: sympy.Heaviside(u - k) * vx, lambda: sympy.Mod(u, k), lambda: sympy.atan2(a, v), lambda: sympy.tan(u / 4) * b,
                           lambda: sympy.floor(3 * u) * a, lambda: sympy.ceiling(v / k), lambda: sympy.tanh(a) * b, lambda: sympy.log(u + k), lambda: sympy.atan(a),
                           lambda: sympy.Max(u, k, evaluate=True) ** 2, lambda: sympy.pi * sympy.cosh(u) - sympy.E * a, lambda: sympy.Max(a, k) - sympy.Min(b, k)])()
        out.append((u, rng.choice([r + term, term - r, r + 2 * term])))
    return out


def systems(rng, which):
    """[(u, rhs)] of one of several families"""
    opts = {
        0: dict(dim=1, nfields=1, nterms=(1, 3), max_order=4, max_degree=3, nonpoly=0.4),
        1: dict(dim=1, nfields=2, nterms=(1, 3), max_order=3, max_degree=2, nonpoly=0.2),
        2: dict(dim=2, nfields=1, nterms=(1, 3), max_order=3, max_degree=2, nonpoly=0.2),
        3: dict(dim=2, nfields=2, nterms=(1, 2), max_order=2, max_degree=2),
        4: dict(dim=3, nfields=1, nterms=(1, 3), max_order=2, max_degree=2),
        5: dict(dim=1, nfields=3, nterms=(1, 2), max_order=2, max_degree=2),
        # large in one respect
        'fields': dict(dim=1, nfields=rng.choice([5, 8, 11, 13]), nterms=(1, 2), max_order=2, max_degree=2),
        'order': dict(dim=1, nfields=rng.choice([1, 2]), nterms=(1, 3), max_order=rng.choice([6, 8, 11]), max_degree=2),
        'dimension': dict(dim=4, nfields=rng.choice([1, 2]), nterms=(1, 3), max_order=2, max_degree=2),
        'terms': dict(dim=1, nfields=rng.choice([1, 2]), nterms=(12, 25), max_order=4, max_degree=4, nonpoly=0.2),
    }
    if which == ROUGH:
        eqs = rough(rng, systems(rng, rng.choice([0, 1, 2, 3])))
    elif which == 'parameters':
        eqs = parameters(rng, systems(rng, rng.choice([0, 1, 2])))
    elif which in opts:
        eqs, _ = gen.pde_system(rng, **opts[which])
    else:
        eqs = conservative(rng, 1 + which % 2)
    return eqs


def conservative(rng, dim):
    """flux form, coefficients inside the derivatives, derivatives of coefficients"""
    coords = [Symbol(c) for c in rng.choice({1: gen.COORDS_1D, 2: gen.COORDS_2D}[dim])]
    u = Function(rng.choice(['u', 'c', '\\theta']))(t, *coords)
    D = Function(rng.choice(['D', '\\kappa_{11}']))(*coords)
    W = Function(rng.choice(['W', 'U^{0}']))(t, *coords)
    r = sympy.Integer(0)
    for c in coords:
        r += rng.choice([Derivative(D * Derivative(u, c), c), -Derivative(W * u, c), -Derivative(u ** 2 / 2, c),
                         Derivative(u, c, 2) * Symbol('\\nu'), -Derivative(D * W * u, c), u * Derivative(W, c, 2)])
    return [(u, r.doit().expand() if rng.random() < 0.5 else r.doit())]

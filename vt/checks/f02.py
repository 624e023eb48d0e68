"""code rendered from a finite-difference expression: periodic shifts on the grid"""
import numpy as np
import sympy
from sympy import Function, Integer, Rational, Symbol
from ..grid import Grid, agree
from ..pkfcommon import rng_for

RULE = ('a case is a batch of finite-difference expressions (shifts in one to three coordinates and in time, products, '
        'powers, steps); non-trivial when the rendered text was evaluated on periodic random arrays and compared with '
        'the interpretation of the expression; distinct by the shifts')
MIN = {'checked:rendered code': 300, 'checked:half-points are refused': 50}
t, dt = sympy.symbols('t dt')
NAMES = [('u', 'u'), ('v', 'v'), ('h', 'h'), ('u_{1}', 'u_1'), ('h^{a}', 'h_a'), ('\\theta', 'theta'), ('uu', 'uu'),
         ('u_x', 'u_x'), ('s_{u,xx}', 's_u_xx'), ('g_{A,xy}', 'g_A_xy'), ('d', 'd'), ('dxu', 'dxu'), ('x', 'x'),
         ('dx_u', 'dx_u'), ('\\dot{u}', 'dotu')]
COORDS = [[('x', 'x')], [('y', 'y')], [('s', 's')], [('x_{1}', 'x_1')], [('\\theta', 'theta')], [('d', 'd')],
          [('x', 'x'), ('y', 'y')], [('y', 'y'), ('x', 'x')], [('x', 'x'), ('z', 'z')], [('x_1', 'x_1'), ('x_2', 'x_2')],
          [('x', 'x'), ('xx', 'xx')], [('\\delta', 'delta'), ('r', 'r')], [('x', 'x'), ('y', 'y'), ('z', 'z')],
          [('z', 'z'), ('y', 'y'), ('x', 'x')], [('dy', 'dy')], [('x', 'x'), ('y', 'y'), ('z', 'z'), ('s', 's')], [('x_{1,2}', 'x_1_2')], [('x_{1,1}', 'x_1_1'), ('x_{1,2}', 'x_1_2')]]


def cases(tier, seed):
    n = 144 if tier == 'quick' else 960
    return [{'seed': ['F02', seed, k], 'batch': 10, 'cpu': 60} for k in range(n)]


class Host:
    """what the rendered code finds as `self`: same interface as a generated model"""

    def __init__(self, names, shape, dx):
        self.names, self.shape = names, shape
        self.coordinates = tuple(names)
        self.dx = dict(zip(names, dx))
        self.asked = []

    def index(self, coord, step):
        self.asked.append((coord, int(step)))
        return (np.arange(self.shape[self.names.index(coord)]) + int(step)) % self.shape[self.names.index(coord)]


def build(rng):
    coords = rng.choice(COORDS)
    syms = [Symbol(c) for c, _ in coords]
    time = rng.random() < 0.6
    names = [nm for nm in rng.sample(NAMES, 5) if nm[1] not in [c for _, c in coords]][:2]
    shape = tuple(rng.randint(5, 9) for _ in coords)
    dx = [0.3 + 0.5 * rng.random() for _ in coords]
    state = np.random.RandomState(rng.randrange(2 ** 31))
    fields, space, plain = {}, {}, []
    for sym, clean in names:
        F = Function(sym)
        for k in ([0, 1, -1, 2, -2, 11, -10] if time else [0]):
            f = F(*([t + k * dt] if time else []), *syms)
            arr = state.uniform(0.5, 1.5, shape)
            fields[f] = arr
            tag = '' if k == 0 else ('p%d' % k if k > 0 else 'm%d' % -k)
            space[clean + tag] = arr
        plain.append((F, sym))
    # names that begin or end as the ones of the steps
    consts = {'a': 0.7, 'kappa': 1.3}
    taken = {n for nm in names for n in nm} | {n for nm in coords for n in nm} | {'d' + n for nm in coords for n in nm}
    for s in syms:
        for j, nm in enumerate((f'd{s.name}_0', f'd{s.name}2', f'ad{s.name}', f'd{s.name}x')):
            if nm.isidentifier() and nm not in taken:
                consts[nm] = 0.4 + 0.3 * j
    return coords, syms, time, plain, shape, dx, fields, space, consts


def shifted(rng, F, syms, time, half=False):
    args = []
    if time:
        k = rng.choice([0, 0, 0, 1, -1, 2, -2, 11, -10])
        args.append(t + k * dt)
    ks = [rng.choice([-5, -2, -1, 0, 0, 1, 2, 3, 7, 10, -12, 25]) for _ in syms]
    if half:
        ks[rng.randrange(len(ks))] = Rational(rng.choice([1, -1, 3]), 2)
    return F(*args, *[s + k * Symbol('d' + s.name) for s, k in zip(syms, ks)])


def run(spec, mon):
    from sympkf.symbolic.finite_difference import Code, code_finite_difference, code_regular_function
    rng = rng_for(*spec['seed'])
    seen = []
    for n in range(spec['batch']):
        coords, syms, time, plain, shape, dx, fields, space, consts = build(rng)
        ref = Grid([s.name for s in syms], shape, {s.name: d for s, d in zip(syms, dx)}, fields, consts)
        host = Host([c for _, c in coords], shape, dx)
        e = Integer(0)
        for _ in range(rng.choice([1, 2, 3, 4])):
            term = Rational(rng.choice([-2, -1, 1, 3]), rng.choice([1, 2, 12]))
            for _ in range(rng.choice([1, 1, 2])):
                term *= shifted(rng, rng.choice(plain)[0], syms, time) ** rng.choice([1, 1, 1, 2, -1])
            for s in syms:
                term /= Symbol('d' + s.name) ** rng.choice([0, 1, 2])
            if rng.random() < 0.4:
                term *= Symbol(rng.choice(sorted(consts)))
            e += term
        if rng.random() < 0.3:
            e = e.simplify() if rng.random() < 0.5 else e.expand()
        if not e.atoms(sympy.Function):
            continue
        if n % 2:
            code = Code(e).code
            mon.check(repr(Code(e)) == code, 'repr is the code', code=code)
        else:
            code = code_finite_difference(e, lambda c, k: f'self.index({c},{k})', lambda c: f"self.dx['{c}']")
        env = {'np': np, 'self': host, **space, **consts}
        try:
            got = eval(compile(code, 'rendered', 'eval'), env)
        except Exception as ex:
            mon.check(False, 'rendered code', expr=e, code=code, error=f'{type(ex).__name__}: {ex}')
            continue
        gap = agree(got, ref.ev(e))
        mon.check(gap <= 1, 'rendered code', expr=e, code=code, gap=gap)
        mon.observe('index requests', len(host.asked))
        # a single function
        F = rng.choice(plain)[0]
        f = shifted(rng, F, syms, time)
        code = code_regular_function(f, lambda c, k: f'self.index({c},{k})')
        try:
            got = eval(compile(code, 'rendered', 'eval'), env)
            ok = np.array_equal(got, ref.ev(f).v)
        except Exception as ex:
            ok, got = False, f'{type(ex).__name__}: {ex}'
        mon.check(ok, 'rendered function', function=f, code=code, got=got)
        h = shifted(rng, F, syms, time, half=True)
        try:
            code = Code(1 + h).code
            bad = True
        except Exception:
            bad = False
        mon.check(not bad, 'half-points are refused', function=h, code=code)
        seen.append(str([f.args for f in e.atoms(sympy.Function)]))
    mon.done(seen, sample=seen[:3], nontrivial=bool(seen))

"""coordinate systems and the helpers that read derivatives, displacements and common terms"""
import sympy
from sympy import Derivative, Function, Integer, Rational, Symbol
from ..pkfcommon import rng_for
from ..fields import Exact
import mpmath

RULE = ('a case is a batch of random fields, derivatives, shifted functions, pairs of expressions and matrices; non-trivial '
        'when the answers of the helpers were compared with those read directly on the arguments; distinct by the inputs')
MIN = {'checked:gradient': 100, 'checked:divergence': 100, 'checked:orders of a derivative': 200, 'checked:displacement': 200,
       'checked:common and specific terms': 100, 'checked:evaluated derivative': 100, 'checked:evaluated derivatives': 100}
t = Symbol('t')
NAMES = ['x', 'y', 'z', 's', 'r', 'd', '\\theta', 'x_1', '\\delta', 'e', 'dd', 'x_{1,2}', '\\xi_{a,b}']


def cases(tier, seed):
    n = 96 if tier == 'quick' else 640
    return [{'seed': ['S03', seed, k], 'batch': 12, 'cpu': 60} for k in range(n)]


def raises(f, *a):
    try:
        f(*a)
    except ValueError:
        return True
    except Exception:
        return False
    return False


def value(e, seed):
    w = Exact({'t': .2, 'x': .3, 'y': .5, 'z': .7, 's': .9, 'r': 1.1, 'd': 1.3, '\\theta': .4, 'x_1': .6, '\\delta': .8,
               'e': .35, 'dd': .45}, seed)
    return w.ev(e)


def near(a, b, seed):
    a, b = value(a, seed), value(b, seed)
    return abs(a - b) < mpmath.mpf(10) ** -30 * (1 + abs(a))


def run(spec, mon):
    from sympkf.symbolic.util import (CoordinateSystem, get_trend, get_total_order, get_derivative_partial_orders,
                                      get_function_coordinates, get_coordinates, remove_eval_derivative, CompareExpression,
                                      CompareEquation, upper_triangle, Matrix, Eq)
    from sympkf.symbolic.finite_difference import get_displacement
    from sympkf.symbolic.random import Expectation
    rng = rng_for(*spec['seed'])
    seen = []
    for n in range(spec['batch']):
        seed = repr((spec['seed'], n))
        pool = [z for z in NAMES if z != 'dd']
        coords = [Symbol(c) for c in rng.sample(pool, rng.choice([1, 2, 3, min(5, len(pool))]))]
        cs = CoordinateSystem(tuple(coords))
        mon.check(list(cs) == coords, 'iteration', got=list(cs))
        u = Function('u')(t, *coords)
        v = Function('v')(*coords)
        e = u * v + Rational(1, 2) * v ** 2
        e += rng.choice([0, 0, sympy.sin(u) * v, sympy.exp(-v), sympy.sqrt(2 + sympy.cos(u * v)), sympy.sin(coords[0]) * u, u * sympy.exp(Symbol('k'))])
        G = cs.gradient(e)
        mon.check(G.shape == (len(coords), 1) and all(near(G[i].doit(), sympy.diff(e, c), seed) for i, c in enumerate(coords)),
                  'gradient', got=G, coords=coords)
        vec = sympy.Matrix([u * (i + 1) + Function('w%d' % i)(t, *coords) for i in range(len(coords))])
        if rng.random() < .5:
            vec = Matrix(vec)
        D = cs.div(vec)
        want = sum(sympy.diff(vec[i], c) for i, c in enumerate(coords))
        mon.check(near(sympy.sympify(D).doit(), want, seed), 'divergence', got=D, coords=coords)
        lap = cs.div(cs.gradient(u))
        mon.check(near(lap.doit(), sum(sympy.diff(u, c, 2) for c in coords), seed), 'divergence', got=lap)
        f = Function('p')(*rng.sample(coords, max(1, len(coords) - 1)), t)
        ok = set(coords) <= set(f.args)
        mon.check(bool(cs.is_compatible(f)) == ok and cs.is_compatible(u) and cs.is_compatible(v), 'compatibility', f=f, coords=coords)
        err = Function('e_r')(t, *coords, Symbol('omega'))
        mean = Expectation(err ** 2)
        G = cs.gradient(mean * v)
        mon.check(all(sympy.expand(G[i].doit() - sympy.diff(v, c) * mean - v * Derivative(mean, c)) == 0 for i, c in enumerate(coords)),
                  'gradient', got=G, what='of a statistic')
        if not ok:
            mon.check(raises(cs.gradient, sympy.exp(f) + u) and raises(cs.gradient, u * sympy.sin(1 + f ** 2)), 'incompatible fields are refused', f=f)
            mon.check(raises(cs.gradient, f * u) and raises(cs.div, [f] * len(coords)), 'incompatible fields are refused', f=f)

        # derivatives
        k = rng.randint(1, len(coords))
        orders = [(c, rng.randint(1, 4)) for c in rng.sample(coords, k)]
        d = Derivative(u, *orders)
        got = get_derivative_partial_orders(d)
        mon.check({c: int(o) for c, o in got.items()} == dict(orders) and get_total_order(d) == sum(o for _, o in orders),
                  'orders of a derivative', d=d, got=got)
        d1 = Derivative(u, coords[0])
        mon.check({c: int(o) for c, o in get_derivative_partial_orders(d1).items()} == {coords[0]: 1} and get_total_order(d1) == 1,
                  'orders of a derivative', d=d1)
        eqn = Eq(Derivative(u, t), d * v + u)
        mon.check(get_trend(eqn) == Derivative(u, t), 'trend', got=get_trend(eqn))
        mon.check(get_trend(Eq(d * 2 + Derivative(u, t) * v, u)) == Derivative(u, t), 'trend', got='lhs')
        late = Eq(Derivative(u, t), u + rng.choice([Derivative(u, t, 2), Derivative(u, t, coords[0]), Derivative(u, t, 3), Derivative(v, coords[0]),
                                                    Derivative(u, t, coords[0], coords[0])]) * v)
        mon.check(get_trend(late) == Derivative(u, t), 'trend', eq=late, got=get_trend(late))
        two = get_trend(Eq(Derivative(u, t), Derivative(v * 0 + Function('q')(t, *coords), t)))
        mon.check(set(two) == {Derivative(u, t), Derivative(Function('q')(t, *coords), t)}, 'trend', got=two)

        # displaced functions
        steps = [Symbol('d' + str(z)) for z in [t] + coords]
        ks = [rng.choice([0, 1, -1, 2, -3, Rational(1, 2), Rational(-3, 2)]) for _ in steps]
        if rng.random() < .5:
            ks[0] = 0
        g = Function('g')(*[z + q * dz for z, q, dz in zip([t] + coords, ks, steps)])
        for helper in (get_function_coordinates, get_coordinates):
            xs, dxs = helper(g)
            mon.check(list(xs) == [t] + coords and list(dxs) == steps, 'coordinates of a displaced function', g=g, got=(xs, dxs))
        mon.check(tuple(get_displacement(g)) == tuple(ks), 'displacement', g=g, got=get_displacement(g), want=ks)
        mon.check(raises(get_function_coordinates, Symbol('a')), 'a symbol has no coordinates')
        mon.check(raises(get_function_coordinates, Function('g')(coords[0] + Symbol('alpha') + Symbol('beta'))),
                  'too many symbols are refused')

        # evaluated derivatives
        a, b = Symbol('a'), coords[0]
        F = Function('F')
        base = F(a, *coords[1:])
        m = rng.choice([1, 2, 3])
        S = sympy.Subs(Derivative(base, a, m), a, b)
        expr = S * u + rng.choice([0, 1]) * S ** 2 + v
        got = remove_eval_derivative(expr)
        plain = Derivative(F(b, *coords[1:]), b, m)
        want = (plain * u + (expr - S * u - v).subs(S, plain) + v)
        mon.check(not got.atoms(sympy.Subs) and near(got, want, seed), 'evaluated derivative', expr=expr, got=got)

        # several variables evaluated at once, several evaluated derivatives in one expression
        p_, q_ = Symbol('p_'), Symbol('q_')
        c0, c1 = coords[0], coords[-1]
        H = Function('H')
        i, j = rng.choice([(1, 1), (2, 1), (1, 3)])
        sub2 = sympy.Subs(Derivative(H(p_, q_), (p_, i), (q_, j)), (p_, q_), (c0, t))
        sub3 = sympy.Subs(Derivative(H(p_, q_), (p_, j)), (p_, q_), (t, c1))
        sub4 = sympy.Subs(Derivative(H(p_, c1) * u, (p_, i)), p_, t if rng.random() < .5 else c0)
        expr = rng.choice([sub2, 3 * sub2 * u + v, sub2 + sub3 * v, sub2 * sub3, sub4 + sub2, S * sub3 - sub2 ** 2])
        got = remove_eval_derivative(expr)
        plain = {sub2: Derivative(H(c0, t), (c0, i), (t, j)), sub3: Derivative(H(t, c1), (t, j)), S: Derivative(F(b, *coords[1:]), b, m)}
        if sub4.point[0] != c1 and not sub4.point[0] in u.args:
            plain[sub4] = Derivative(H(sub4.point[0], c1) * u, (sub4.point[0], i))
        if not expr.atoms(sympy.Subs) <= set(plain):
            plain = None
        if plain is not None:
            mon.check(not got.atoms(sympy.Subs) and near(got, expr.xreplace(plain), seed), 'evaluated derivatives', expr=expr, got=got)

        # comparison
        terms = [Rational(rng.choice([-2, -1, 1, 2, 3])) * rng.choice([u, v, u * v, u ** 2, d1, d, v * d1, a, a * u]) for _ in range(6)]
        e1 = sum(terms[:4])
        e2 = sum(terms[2:]) + rng.choice([0, u ** 3])
        if rng.random() < .3:       # many terms
            more = [Symbol('c%d' % i) * rng.choice([1, u, v, -2]) for i in range(rng.choice([5, 12, 25, 60]))]
            e1, e2 = e1 + sum(more[:-2]), e2 + sum(more[rng.randrange(3):])
        if rng.random() < .3:
            e1, e2 = (e1 * (u + a)), (e2 * (u + a)) + v
        cmp_ = CompareExpression(e1, e2)
        s1, s2 = ({z for z in sympy.Add.make_args(z.expand())} for z in (e1, e2))
        ok = set(cmp_.common) == s1 & s2 and [set(z) for z in cmp_.specific] == [s1 - s2, s2 - s1]
        mon.check(ok, 'common and specific terms', e1=e1, e2=e2, common=cmp_.common, specific=cmp_.specific)
        q1, q2 = sympy.Eq(Function('l')(t), e1 + a ** 5, evaluate=False), sympy.Eq(Function('l')(t) + v, e2 + a ** 5, evaluate=False)
        ce = CompareEquation(q1, q2)
        mon.check(set(ce.lhs.common) == {Function('l')(t)} and [set(z) for z in ce.lhs.specific] == [set(), {v}] and
                  a ** 5 in ce.rhs.common, 'common and specific terms', q1=q1, q2=q2)

        # matrices
        n_ = rng.choice([1, 2, 3, 4, 9])
        M = [[Symbol('m%d_%d' % (i, j)) for j in range(n_)] for i in range(n_)]
        want = [M[i][j] for i in range(n_) for j in range(i, n_)]
        r_, c_ = rng.choice([1, 2, 3, 4, 8]), rng.choice([1, 2, 3, 4, 5, 11])
        N = sympy.Matrix(r_, c_, lambda i, j: Symbol('n%d_%d' % (i, j)))
        mon.check(list(upper_triangle(N)) == [N[i, j] for i in range(r_) for j in range(i, c_)] == list(Matrix(N).upper_triangle),
                  'upper triangle', shape=(r_, c_))
        mon.check(list(upper_triangle(sympy.Matrix(M))) == want and list(Matrix(M).upper_triangle) == want, 'upper triangle', n=n_)
        seen.append(str((coords, orders, ks)))
    mon.done(seen, sample=seen[:3])

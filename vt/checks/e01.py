"""the expectation operator is the ensemble average"""
import sympy
from sympy import Symbol, Function, Integer, Rational
from ..exprs import Maker, t, x, y, omega
from ..pkfcommon import rng_for
from ..runtime import Inconclusive
from ..series import Ring, Uninterpretable
from ..world import World, Renamed, close, hadamard

RULE = ('a case is a batch of random expressions (sums, products, powers, derivatives in several variables, '
        'integrals, nested expectations, standard functions, matrices, equations); non-trivial when the expectation '
        'of an expression that varies between outcomes was compared with the average over the outcomes of a random '
        'finite probability space; distinct by the expression')
MIN = {'checked:ensemble average': 300, 'random expressions': 200, 'checked:normal form': 200,
       'checked:average of quantities of any sign': 150}


def cases(tier, seed):
    n = 96 if tier == 'quick' else 800
    return [{'seed': ['E01', seed, k], 'batch': 25, 'depth': 2 + k % 3, 'dim': 1 + (k // 3) % 2, 'cpu': 60}
            for k in range(n)] + [{'seed': ['E01', seed, 'signs', k], 'signs': k, 'cpu': 60} for k in range(n // 8)]


def values(seed, E, e, coords, deg=9):
    R = Ring(((tuple(c.name for c in coords), deg),), 'float')
    w = World(R, {c.name: 0.25 + 0.1 * i for i, c in enumerate(coords)}, 5, repr(seed), E)
    w.poly_degree = 3
    w.composed = {'F', 'G'}
    return w, w.ev(e)


def mp_equal(seed, E, a, e, coords):
    R = Ring(((tuple(c.name for c in coords), 7),), 'mp')
    w = World(R, {c.name: 0.25 + 0.1 * i for i, c in enumerate(coords)}, 5, repr(seed), E)
    w.poly_degree = 3
    w.composed = {'F', 'G'}
    lhs, rhs = w.ev(a), w.ev(e).mean()
    if min(lhs.valid) < 0 or min(rhs.valid) < 0:
        raise OverflowError
    return close(lhs.const_part(), rhs.const_part(), 1e-15)


def has_integral(e):
    return bool(e.atoms(sympy.Integral))


def israndom_ref(e, E):
    """reference: omega occurs outside every expectation"""
    if isinstance(e, E):
        return False
    if e == omega:
        return True
    return any(israndom_ref(a, E) for a in e.args)


def normal_form(a, E):
    """what is left inside expectations: no sum, no derivative, no deterministic factor, nothing deterministic"""
    for term in a.atoms(E):
        arg = term.args[0]
        if isinstance(arg, sympy.Integral) and any(israndom_ref(c, E) for p in arg.atoms(sympy.Piecewise) for _, c in p.args):
            continue        # sympy distributes an integral over cases, which are random here
        if isinstance(arg, sympy.Add) or isinstance(arg, (sympy.Derivative, sympy.Integral)) \
                and not any(israndom_ref(v, E) for v in arg.args[1:]):
            return f'{type(arg).__name__} inside {term}'
        if not israndom_ref(arg, E):
            return f'expectation of a deterministic quantity {term}'
        if isinstance(arg, (sympy.Mul, sympy.Pow)) and arg.expand() != arg and isinstance(arg.expand(), sympy.Add):
            return f'sum to distribute inside {term}'
        if isinstance(arg, sympy.Mul):
            for f in arg.args:
                if not israndom_ref(f, E):
                    return f'deterministic factor {f} inside {term}'
    return None


SCALARS = [Rational(-3, 2), Rational(2, 3), Rational(-1, 4), Integer(2), Integer(-1), Rational(5, 4)]


def run_signs(spec, mon):
    """roots, logarithms, .. of products whose factors have any sign: average of the (complex) values over the outcomes"""
    from sympkf.symbolic.random import Expectation as E
    rng = rng_for(*spec['seed'])
    X, Y = (Function(n)(*rng.choice([(t, x), (x,), ()]), omega) for n in 'XY')
    f, g = Function('f')(t, x), Function('g')(x)
    a, b = Symbol('a'), Symbol('b')
    third = Rational(1, 3)
    seen = []
    pool = [sympy.sqrt(a * X), sympy.sqrt(f * X * Y), (X * Y) ** third, (a * f * X) ** third * Y, sympy.sqrt(X ** 2), sympy.sqrt(X ** 2 * f),
            sympy.log(a * X), sympy.log(X * Y), sympy.log(X ** 2), sympy.log(X / f), a * sympy.log(f * X ** 3), (X ** 2) ** a, (X ** a) ** b,
            (f * X) ** a, (X * Y) ** (a + 1), sympy.exp(a * X + b), sympy.exp(X + Y), (a * X) ** (b + 1), f ** (X + a), (f * g) ** X,
            sympy.Abs(X), sympy.Abs(a * X), sympy.sign(X) * f, sympy.Abs(f) * X ** 2, sympy.sqrt(X) * sympy.sqrt(Y), sympy.sqrt(X) * sympy.sqrt(f),
            1 / sympy.sqrt(f * X), sympy.sqrt(X / f), sympy.sqrt(a * X + f * X), ((a * X) ** 2) ** Rational(3, 2), sympy.Max(X, f), sympy.Min(X * f, Y),
            sympy.sin(X + a), sympy.cos(2 * X), sympy.tan(X * f), sympy.sqrt(E(X) * X), E(X) ** third * sympy.sqrt(a * Y), sympy.log(E(X) * X),
            sympy.sqrt(-X), sympy.log(-X), (-f * X) ** third, sympy.sqrt(f ** 2 * X ** 2), sympy.sqrt((X + f) ** 2)]

    def at(e, k, table):
        """value for the outcome k (the deterministic quantities have one)"""
        if isinstance(e, E):
            return sum(at(e.args[0], j, table) for j in range(4)) / 4
        if isinstance(e, sympy.core.function.AppliedUndef):
            return table[e][k if omega in e.args else 0]
        if e.is_Symbol:
            return table[e][0]
        return e.func(*[at(z, k, table) for z in e.args]) if e.args else e
    for e in rng.sample(pool, 14):
        e = e * rng.choice([1, 1, a, f, X]) + rng.choice([0, 0, f, X * Y])
        got = E(e)
        for trial in range(2):
            table = {z: [rng.choice(SCALARS) for _ in range(4)] for z in (X, Y, f, g, a, b)}
            try:
                want = complex(sympy.N(sum(at(e, k, table) for k in range(4)) / 4, 20))
                value = complex(sympy.N(at(got, 0, table), 20))
            except (TypeError, ValueError, ZeroDivisionError):
                continue
            if want != want or abs(want) > 1e9:
                continue
            mon.check(abs(value - want) <= 1e-9 * (1 + abs(want)), 'average of quantities of any sign', expr=e, got=got, want=want, value=value)
        seen.append(str(e))
    mon.done(hash(tuple(seen)), sample=seen[:2], nontrivial=bool(seen))


def run(spec, mon):
    if 'signs' in spec:
        return run_signs(spec, mon)
    from sympkf.symbolic.random import Expectation as E
    from sympkf.symbolic.util import Eq
    rng = rng_for(*spec['seed'])
    coords = (t, x) if spec['dim'] == 1 else (t, x, y)
    mk = Maker(rng, E, coords, spec['depth'], odd=0.08 if spec['seed'][-1] % 2 else 0.0)
    shapes = []
    for k in range(spec['batch']):
        e = mk.expr()
        if e.atoms(sympy.core.numbers.ComplexInfinity, sympy.core.numbers.NaN):
            continue
        if sympy.count_ops(e) > 60:
            continue
        seed = (spec['seed'], k)
        # integrals of series converge only for polynomial integrands
        if has_integral(e) and any(i.args[0].atoms(sympy.exp, sympy.sin, sympy.cos, sympy.tanh) or
                                   any(p.exp.is_negative for p in i.args[0].atoms(sympy.Pow))
                                   for i in e.atoms(sympy.Integral)):
            continue
        try:
            w, v = values(seed, E, e, coords)
            if min(v.valid) < 0:
                continue
            mean = v.mean()
            if not abs(mean.const_part()[0]) < 1e12:
                continue
        except (Uninterpretable, OverflowError, FloatingPointError):
            mon.observe('uninterpretable')
            continue
        a = E(e)
        mon.observe('expressions')
        varies = v.n > 1 and abs(v.const_part() - mean.const_part()).max() > 1e-9
        if varies:
            mon.observe('random expressions')
            shapes.append(str(e))
        try:
            got = w.ev(a)
        except Renamed:
            mon.observe('renamed bound variable')
            continue
        except Uninterpretable as ex:
            mon.check(False, 'expectation is an ordinary expression', expr=e, got=a, why=ex)
            continue
        except OverflowError:
            continue
        if min(got.valid) < 0:
            continue
        ok, gap = close(got.const_part(), mean.const_part(), 1e-8)
        if not ok and not has_integral(e):
            try:
                ok, gap = mp_equal(seed, E, a, e, coords)
            except OverflowError:
                ok = True
        elif not ok and has_integral(e):
            ok, gap = close(got.const_part(), mean.const_part(), 1e-6)
        mon.check(ok, 'ensemble average', expr=e, got=a, gap=gap)
        bad = normal_form(a, E)
        mon.check(bad is None, 'normal form', expr=e, got=a, bad=bad)
        mon.check(not israndom_ref(a, E), 'expectation is deterministic', expr=e, got=a)
        mon.check(E(a) == a.expand() or close(w.ev(E(a)).const_part(), mean.const_part(), 1e-6)[0], 'idempotent',
                  expr=e, got=a, again=E(a))
        if not israndom_ref(e, E):
            mon.check((a - e).expand() == 0 or a == e or close(got.const_part(), v.const_part(), 1e-6)[0], 'deterministic unchanged', expr=e, got=a)
        if k % 5 == 0:
            e2 = mk.expr(1)
            m = sympy.Matrix([[e, e2], [e2 * 2, e + e2]])
            em = E(m)
            mon.check(em.shape == (2, 2) and all(em[i, j] == E(m[i, j]) for i in range(2) for j in range(2)),
                      'matrix, entry by entry', m=m, got=em)
            q = Eq(e, e2 + Symbol('q0'))
            eq = E(q)
            mon.check(eq.args == (E(e), E(e2 + Symbol('q0'))), 'equation, side by side', eq=q, got=eq)
    mon.done(hash(tuple(shapes)), sample=shapes[:2], nontrivial=bool(shapes))

"""equations: every operation acts on both sides"""
import sympy
from sympy import Derivative, Function, Integer, Rational, Symbol
from ..exprs import t, x, y
from ..pkfcommon import rng_for
from ..series import Ring, Uninterpretable
from ..world import World, close

RULE = ('a case is a batch of random equations and chains of operations on them (sum, difference, negation, products, '
        'subs, doit, expand, isolate); non-trivial when the two sides of the result were compared, by value, with the '
        'operation applied to each side; distinct by the chain')
MIN = {'checked:sides': 1000, 'checked:isolate': 100, 'checked:isolated value solves the equation': 100, 'operations': 1000}
SYM = sympy.symbols('a b c d')
a, b, c, d = SYM


def cases(tier, seed):
    n = 96 if tier == 'quick' else 640
    return [{'seed': ['S02', seed, k], 'batch': 20, 'cpu': 60} for k in range(n)]


def expr(rng, depth=2):
    if depth == 0:
        r = rng.random()
        u = Function(rng.choice('uvw'))(t, x)
        if r < .4:
            return rng.choice(SYM)
        if r < .6:
            return u
        if r < .8:
            return Derivative(u, rng.choice([x, t]), rng.choice([1, 2]))
        if r < .9:
            return Derivative(u * Function('v')(t, x), x)
        return Integer(rng.choice([-1, 1, 2, 3]))
    op = rng.choice([sympy.Add, sympy.Mul, sympy.Mul, sympy.Add])
    return op(*[expr(rng, depth - rng.choice([1, 1, 2]) if depth > 1 else 0) for _ in range(2)])


def same(mon, seed, got, want, what, **say):
    """equality by value at a random point"""
    if got == want:
        mon.check(True, what)
        return
    R = Ring((('t', 'x'), 6), ) if False else Ring(((('t', 'x'), 6),), 'float')
    w = World(R, {'t': 0.2, 'x': 0.4}, 1, seed)
    try:
        ok, gap = close(w.value(got), w.value(want), 1e-9)
    except (Uninterpretable, OverflowError):
        mon.observe('uninterpretable')
        return
    if not ok:      # rounding: exact comparison
        ok = sympy.simplify((got - want).doit()) == 0
    mon.check(ok, what, got=got, want=want, gap=gap, **say)


def run(spec, mon):
    from sympkf.symbolic.util import Eq
    rng = rng_for(*spec['seed'])
    seen = []
    for n in range(spec['batch']):
        l, r = expr(rng) + Symbol('p'), expr(rng) + Symbol('q')
        if rng.random() < 0.3:
            # sides that are a product, a power or a function of a sum
            wrap = lambda e: rng.choice([lambda: e ** 2, lambda: sympy.exp(e), lambda: e * (a + Symbol('p')), lambda: sympy.sin(e * (a + b)),
                                         lambda: Derivative(e * Function('v')(t, x), x), lambda: (e + a) ** 3, lambda: e])()
            l, r = wrap(expr(rng, 1) + Symbol('p')), wrap(expr(rng, 1) + Symbol('q'))
        eq = Eq(l, r)
        if not isinstance(eq, Eq):
            continue
        chain = []
        seed = repr((spec['seed'], n))
        for step in range(rng.choice([1, 2, 3, 4])):
            op = rng.choice(['+', '-', 'neg', 'right', 'left', 'imul', 'subs', 'doit', 'expand', 'subsdict', 'imuleq', 'iadd', 'subsall'])
            e2 = Eq(expr(rng, 1) + Symbol('p1'), expr(rng, 1) + Symbol('q1'))
            k = rng.choice([Integer(2), Integer(-3), Rational(1, 2), a, Derivative(Function('u')(t, x), x), b * c, 3, -2, 0.5])
            keep = eq
            before = (eq.args, e2.args)
            old = rng.choice(SYM)
            new = rng.choice([expr(rng, 1), Integer(0), d + 1])
            if op == '+':
                got, want = eq + e2, (l + e2.args[0], r + e2.args[1])
            elif op == 'iadd':
                got = eq
                got += e2
                want = (l + e2.args[0], r + e2.args[1])
            elif op == '-':
                got, want = eq - e2, (l - e2.args[0], r - e2.args[1])
            elif op == 'neg':
                got, want = -eq, (-l, -r)
            elif op == 'right':
                got, want = eq * k, (l * k, r * k)
            elif op == 'left':
                got, want = (sympy.sympify(k) if rng.random() < .5 else k) * eq, (k * l, k * r)
            elif op == 'imul':
                got = eq
                got *= k
                want = (l * k, r * k)
            elif op == 'imuleq':
                got = eq
                got *= e2
                want = (l * e2.args[0], r * e2.args[1])
            elif op == 'subs':
                got, want = eq.subs(old, new), (l.subs(old, new), r.subs(old, new))
            elif op == 'subsdict':
                got, want = eq.subs({old: new, d: a}), (l.subs({old: new, d: a}), r.subs({old: new, d: a}))
            elif op == 'subsall':
                pairs = rng.choice([{a: b, b: a}, {a: b + c, b: a, c: old}, [(c, d), (d, c)], {old: new, d: a}])
                got = eq.subs(pairs, simultaneous=True)
                want = (l.subs(pairs, simultaneous=True), r.subs(pairs, simultaneous=True))
            elif op == 'doit':
                got, want = eq.doit(), (l.doit(), r.doit())
            else:
                got, want = eq.expand(), (l.expand(), r.expand())
            chain.append(op)
            mon.observe('operations')
            if got in (sympy.true, sympy.false) or got in (True, False):
                truth = sympy.simplify((want[0] - want[1]).doit())
                mon.check(bool(got) == (truth == 0), 'truth value', got=got, want=want)
                break
            mon.check(isinstance(got, Eq), 'result is an equation of the same class', op=op, got=type(got))
            mon.check(before == (keep.args, e2.args), 'operands unchanged', op=op)
            for side in (0, 1):
                if op in ('expand', 'doit'):
                    act = lambda z: getattr(z, op)()
                    mon.check(act(want[side]) != want[side] or act(got.args[side]) == got.args[side], 'nothing left to ' + op,
                              got=got.args[side], want=want[side])
                same(mon, seed, got.args[side], sympy.sympify(want[side]), 'sides', op=op, side=side, eq=keep, chain=chain)
            eq = got
            l, r = eq.args
        # isolate
        who = rng.choice([a, b, Derivative(Function('u')(t, x), t), Derivative(Function('u')(t, x), x), Function('v')(t, x)])
        others = [z for z in SYM if z != who]
        A = sympy.Add(*[rng.choice([1, -1, 2]) * z for z in rng.sample(others, 2)]) * rng.choice([1, Function('w')(t, x)])
        B = rng.choice(others) * rng.choice([2, -1, 1]) + (Function('g')(x) * rng.choice([0, 1]))
        coef = rng.choice([1, 1, -1, 2, others[0], Function('w')(t, x)])
        form = rng.randrange(3)
        q = [Eq(coef * who + A, B), Eq(B, A + coef * who), Eq(coef * who + A - B, 0)][form]
        got = q.isolate(who)
        mon.check(isinstance(got, Eq) and got.args[0] == who, 'isolate', what='left-hand side', got=got, eq=q)
        same(mon, repr((spec['seed'], n, 'iso')), got.args[1], (B - A) / coef, 'isolate', eq=q, who=who)
        mon.check(not got.args[1].has(who), 'isolate', what='gone from the right-hand side', got=got, eq=q)
        # an equation that is not linear: what is isolated is a solution
        p, m, k = rng.randint(1, 3), rng.randint(1, 4), rng.randint(0, 5)
        q = rng.choice([lambda: Eq(sympy.sqrt(p * who + m ** 2), who - k), lambda: Eq(who ** 2 + p * who, m),
                        lambda: Eq(sympy.sqrt(who + m) + who, k + 3), lambda: Eq(m / who, k + p),
                        lambda: Eq((who ** 2 - m ** 2) / (who - m), k), lambda: Eq(sympy.sqrt(who) * p + m * who, k + 1),
                        lambda: Eq(sympy.Abs(who - k), m) if who.is_Symbol else Eq(who ** 3, m)])()
        try:
            got = q.isolate(who)
        except (IndexError, NotImplementedError):       # no solution (reported by sympy)
            mon.observe('nothing to isolate')
            seen.append(str(chain))
            continue
        root = got.args[1]
        gap = (q.args[0] - q.args[1]).subs(who, root).evalf(30)
        mon.check(got.args[0] == who and not root.has(who) and gap.is_number and abs(gap) < 1e-15, 'isolated value solves the equation',
                  eq=q, got=got, gap=gap)
        seen.append(str(chain))
    mon.done(seen, sample=seen[:4])

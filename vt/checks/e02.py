"""israndom is exact"""
import sympy
from sympy import Symbol
from ..exprs import Maker, t, x, y, omega
from ..pkfcommon import rng_for
from ..series import Ring, Uninterpretable
from ..world import World
from .e01 import israndom_ref

RULE = ('a case is a batch of random expressions, equations and matrices with expectations nested at any depth; '
        'non-trivial when the answer was compared with the outcomes of a random probability space and with the '
        'definition (omega outside every expectation); distinct by the expressions')
MIN = {'checked:definition': 400, 'answered random': 100, 'answered deterministic with expectations': 40,
       'checked:no outcome dependence': 50, 'checked:outcome dependence': 50}


def cases(tier, seed):
    n = 144 if tier == 'quick' else 800
    return [{'seed': ['E02', seed, k], 'batch': 40, 'depth': 1 + k % 4, 'cpu': 60} for k in range(n)]


def run(spec, mon):
    from sympkf.symbolic.random import Expectation as E, israndom
    from sympkf.symbolic.util import Eq
    rng = rng_for(*spec['seed'])
    mk = Maker(rng, E, (t, x), spec['depth'], odd=0.08 if spec['seed'][-1] % 2 else 0.0)
    seen = []
    for k in range(spec['batch']):
        e = mk.expr()
        if k % 3 == 0:
            e = e + E(mk.expr(2)) * mk.field()
        if k % 7 == 0:
            e = sympy.sin(E(mk.random_field() * mk.field())) * mk.expr(1)
        if e.atoms(sympy.core.numbers.ComplexInfinity, sympy.core.numbers.NaN) or sympy.count_ops(e) > 80:
            continue
        want = israndom_ref(e, E)
        got = israndom(e)
        mon.check(got is want or got == want, 'definition', expr=e, got=got, want=want)
        mon.check(isinstance(got, bool), 'boolean answer', got=repr(got))
        mon.observe('answered random' if got else 'answered deterministic')
        if not got and e.atoms(E):
            mon.observe('answered deterministic with expectations')
        seen.append(str(e))
        mon.check(israndom(E(e)) is False, 'expectation is deterministic', expr=e)
        other = mk.expr(1)
        mon.check(israndom(sympy.Eq(e, other + Symbol('q0'))) == (want or israndom_ref(other, E)), 'equation', expr=(e, other))
        mon.check(israndom(Eq(e, other + Symbol('q0'))) == (want or israndom_ref(other, E)), 'equation', expr=(e, other))
        M = sympy.Matrix([[other, e], [Symbol('q0'), 1]])
        mon.check(israndom(M) == (want or israndom_ref(other, E)), 'matrix', expr=M)
        # of any shape, random in any entry
        sh = rng.choice([(1, 5), (6, 1), (4, 4), (3, 7), (5, 5)])
        big = sympy.Matrix(*sh, lambda i, j: Symbol(f'q{i}_{j}') * (i - j))
        at = (rng.randrange(sh[0]), rng.randrange(sh[1]))
        big[at] = e
        mon.check(israndom(big) == israndom(sympy.ImmutableMatrix(big)) == want, 'matrix', shape=sh, at=at, expr=e)
        mon.check(israndom(sympy.ImmutableMatrix(M)) == (want or israndom_ref(other, E)), 'matrix', expr=M)
        try:
            R = Ring(((('t', 'x'), 6),), 'float')
            w = World(R, {'t': 0.2, 'x': 0.35}, 5, repr((spec['seed'], k)), E)
            w.poly_degree = 3
            w.composed = {'F', 'G'}
            v = w.ev(e)
            if min(v.valid) < 0:
                continue
            c = v.const_part()
            if not abs(c).max() < 1e9:
                continue
        except (Uninterpretable, OverflowError):
            continue
        spreads = abs(c - c[0]).max() > 1e-7 * max(1, abs(c).max())
        if not got:
            mon.check(not spreads, 'no outcome dependence', expr=e, values=c)
        if spreads:
            mon.check(got, 'outcome dependence', expr=e, values=c)
    mon.done(hash(tuple(seen)), sample=seen[:2], nontrivial=bool(seen))

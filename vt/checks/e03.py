"""what is displayed is what was computed"""
import re
import sympy
from sympy import Symbol, Function, Integer, Rational
from ..exprs import Maker, t, x, y, omega
from ..pkfcommon import rng_for, make
from .. import gen

RULE = ('a case is a batch of random expressions of expectations (powers, inverses, roots, derivatives, matrices and '
        'equations of them), or the systems derived from a random system; non-trivial when the latex form of an expression '
        'that holds an expectation was compared with the one where every expectation is an ordinary function; distinct by '
        'the expressions')
MIN = {'checked:latex form': 400, 'powers of expectations': 100, 'checked:told apart': 100, 'checked:read back': 100,
       'equations of derived systems': 60}
PLAIN = Function('Expectation', nargs=1)


def cases(tier, seed):
    n = 48 if tier == 'quick' else 400
    out = [{'seed': ['E03', seed, k], 'batch': 20, 'depth': 2 + k % 3, 'cpu': 60} for k in range(n)]
    out += [{'seed': ['E03', seed, 'system', k], 'system': k, 'cpu': 90} for k in range(16 if tier == 'quick' else 96)]
    out += [{'seed': ['E03', seed, 'summary', k], 'summary': k, 'cpu': 60} for k in range(8 if tier == 'quick' else 48)]
    return out


def plain(e, E):
    """the same expression where the expectations are ordinary functions"""
    if isinstance(e, E):
        return PLAIN(plain(e.args[0], E))
    if isinstance(e, sympy.MatrixBase):
        return e.applyfunc(lambda a: plain(a, E))
    if not e.args:
        return e
    if isinstance(e, sympy.Eq):
        return sympy.Eq(*[plain(a, E) for a in e.args], evaluate=False)
    return e.func(*[plain(a, E) for a in e.args])


def bare(text):
    """without spaces nor braces, the expectation under its symbol"""
    text = text.replace('\\operatorname{Expectation}', '\\mathbb{E}')
    return re.sub(r'[{}\s]', '', text)


def forms(rng, a, b):
    k = Symbol('k')
    return [a, a ** 2, a ** 3 * b, 1 / a, a ** Rational(1, 2), a ** k, a ** (-2) * k, (a + b) ** 2, a ** 2 - b ** 2, a ** b,
            sympy.Derivative(a ** 2, x), sympy.exp(a ** 2), sympy.Matrix([[a ** 2, b], [k, a * b]]), -a ** 2 / 2,
            sympy.sqrt(a ** 2 + b ** 2), a ** Rational(3, 2), k ** a, Function('F')(a ** 2, b), sympy.Integral(a ** 2, (x, 0, k))]


SETTINGS = [{}, {}, {'mul_symbol': 'dot'}, {'symbol_names': {x: 'ZZ', Symbol('a'): 'AA'}},
            {'fold_frac_powers': True}, {'ln_notation': True}, {'root_notation': False}]


def shown(mon, e, E, kw=None):
    """latex form of an expression, compared with the one of sympy"""
    for name, f in (('str', str), ('srepr', sympy.srepr), ('pretty', sympy.pretty)):
        try:
            f(e)
            mon.check(True, 'displayed')
        except Exception as ex:
            mon.check(False, 'displayed', how=name, error=repr(ex), expr=str(e) if name != 'str' else type(e))
    kw = kw or {}
    try:
        got = sympy.latex(e, **kw)
    except Exception as ex:
        mon.check(False, 'displayed', how='latex', error=repr(ex), expr=e)
        return None
    want = sympy.latex(plain(e, E), **kw)
    mon.check(bare(got) == bare(want), 'latex form', expr=e, got=bare(got), want=bare(want), settings=kw)
    mon.check(got.count('{') == got.count('}') and got.count('\\left') == got.count('\\right'), 'balanced latex', got=got)
    return got


def named(mon, text, functions):
    for f in functions:
        mon.check(re.search(r'(?<![\w}\\])' + re.escape(str(f)), text), 'summary of a system', got=text, missing=f)


def run_summary(spec, mon):
    """systems with coefficients of any set of variables"""
    from sympkf.symbolic.util import PDESystem, Eq
    rng = rng_for(*spec['seed'])
    seen = []
    for _ in range(10):
        coords = rng.choice([[], [x], [x], [x, y], [x, y, Symbol('z')]])
        fields = [Function(n)(t, *coords) for n in rng.sample(['u', '\\theta', 'h', 'V_u', 'c'], rng.choice([1, 2, 3]))]
        eqs, coeffs = [], []
        for u in fields:
            rhs = Symbol(rng.choice(['a', '\\kappa'])) * rng.choice(fields)
            for _ in range(rng.choice([1, 2, 3])):
                args = [c for c in [t] + coords if rng.random() < .5] or [rng.choice([t] + coords)]
                f = Function(rng.choice(['f', 'g', 'F_0', '\\beta', 'q']))(*args)
                if rng.random() < .3 and len(args) > 1 and args[-1] != t:
                    rhs += sympy.Derivative(f, args[-1]) * u
                else:
                    rhs += f * rng.choice([u, u ** 2, 1])
            eqs.append(Eq(sympy.Derivative(u, t), rhs))
        system = PDESystem(eqs, name=rng.choice(['', 'System']))
        want = {f for e in eqs for f in e.atoms(sympy.core.function.AppliedUndef)}
        named(mon, repr(system), want)
        mon.check(repr(system) == repr(system) and (system.name in repr(system)), 'summary of a system', got=repr(system))
        seen.append(str(eqs))
    mon.done(hash(tuple(seen)), sample=seen[:1])


def run_system(spec, mon):
    from sympkf.symbolic.random import Expectation as E
    from sympkf.symbolic.util import PDESystem
    rng = rng_for(*spec['seed'])
    eqs, _ = gen.pde_system(rng, dim=1, nfields=rng.choice([1, 1, 2]), nterms=(1, 2), max_order=2, max_degree=3)
    u = eqs[0][0]
    if rng.random() < 0.7:
        eqs[0] = (u, eqs[0][1] - Symbol('mu') * u ** rng.choice([3, 3, 4]))
    pkf = make(spec, eqs)
    some = 0
    for name in ('first_order_reynolds_system', 'expectation_system', 'tl_expectation_system', 'error_system', 'variance_system',
                 'cross_covariance_system', 'epsilon_system', 'std_system'):
        for eq in getattr(pkf, name) or []:
            if sympy.count_ops(eq) > 400:
                continue
            shown(mon, eq, E)
            mon.observe('equations of derived systems')
            some += bool(eq.atoms(E))
    system = pkf.pde_system
    text = repr(system)
    for kind in ('prognostic_functions', 'exogenous_functions', 'constant_functions'):
        named(mon, text, getattr(system, kind))
    mon.done(str(eqs), sample=eqs, nontrivial=some > 0)


def run(spec, mon):
    if 'summary' in spec:
        return run_summary(spec, mon)
    if 'system' in spec:
        return run_system(spec, mon)
    from sympkf.symbolic.random import Expectation as E
    from sympkf.symbolic.util import Eq
    rng = rng_for(*spec['seed'])
    mk = Maker(rng, E, (t, x) if spec['seed'][-1] % 2 else (t, x, y), spec['depth'])
    names = {'Expectation': E}
    exec('from sympy import *', names)
    names['Expectation'] = E
    seen, texts = [], {}
    for k in range(spec['batch']):
        a, b = E(mk.expr()), E(mk.random_field() * mk.leaf())
        if a.atoms(sympy.core.numbers.ComplexInfinity, sympy.core.numbers.NaN) or sympy.count_ops(a) > 40 or not a.atoms(E) or not b.atoms(E):
            continue
        pool = forms(rng, a, b)
        e = rng.choice(pool[1:]) if k % 4 else a
        if rng.random() < 0.2:
            e = Eq(e if not isinstance(e, sympy.MatrixBase) else a, mk.expr(1) + Symbol('q0'))
            if not isinstance(e, sympy.Eq):
                continue
        if k % 7 == 0:
            e = E(mk.random_field() * mk.field() + mk.random_field() ** 2, evaluate=False) ** rng.choice([1, 2])
        mon.observe('powers of expectations', sum(isinstance(p.base, E) for p in (e.atoms(sympy.Pow) if hasattr(e, 'atoms') else ())))
        got = shown(mon, e, E, rng.choice(SETTINGS))
        seen.append(str(e))
        # the arguments are not lost: what differs is displayed differently
        X = mk.random_field()
        f, n = mk.field(), rng.choice([2, 3, Rational(1, 2), -1])
        several = [E(X) ** n, E(X ** n), E(f * X ** 2), f * E(X) ** 2, E(X) * E(f * X), sympy.Derivative(E(X), x) ** 2, E(X) ** (n + 4)]
        several = list(dict.fromkeys(several))
        try:
            different = [sympy.latex(z) for z in several]
            mon.check(len(set(different)) == len(different), 'told apart', exprs=several, got=different)
        except TypeError as ex:
            mon.check(False, 'displayed', how='latex', error=repr(ex), expr=several)
        # exact textual form
        if not isinstance(e, (sympy.MatrixBase, sympy.Eq)) and k % 7 and not e.atoms(sympy.Dummy):
            again = eval(sympy.srepr(e), names)
            mon.check(again == e, 'read back', expr=e, got=again)
    mon.done(hash(tuple(seen)), sample=seen[:2], nontrivial=bool(seen))

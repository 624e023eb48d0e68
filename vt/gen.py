"""Random systems of evolution equations (sympy only; nothing from the repository)."""
import random
import sympy
from sympy import Symbol, Function, Derivative, Rational, Integer, sin, cos, exp, sqrt

t = Symbol('t')

FIELD_NAMES = ['u', 'v', 'c', 'h', 'A', 'B', 'T', 'q', 'w', '\\theta', 'u_{1}', 'h^{a}', '\\phi', 'rho']
COORDS_1D = [('x',), ('x',), ('x',), ('y',), ('z',), ('s',), ('r',), ('\\xi_{1,2}',)]
COORDS_2D = [('x', 'y'), ('x', 'y'), ('x', 'z'), ('y', 'x'), ('z', 'x'), ('x_1', 'x_2'), ('r', 's'), ('x_{1,1}', 'x_{1,2}')]
COORDS_0D = [()]
COORDS_3D = [('x', 'y', 'z'), ('x', 'y', 'z'), ('x', 'xx', 'xxx'), ('x_1', 'x_2', 'x_3'), ('x_{1,1}', 'x_{1,2}', 'x_{2,1}')]
COORDS_4D = [('x', 'y', 'z', 's'), ('z', 'y', 'x', 'r'), ('x_1', 'x_2', 'x_3', 'x_4')]
CONSTS = ['a', 'b', 'kappa', '\\kappa', 'nu', 'alpha', 'mu', 'k_{0}', '\\varepsilon', 'epsilon', 'e_u']
RANDOM_FUNCS = ['W', 'Z', '\\xi', 'R_{0}']
COEFF_FUNCS = ['f', 'g', 'F', 'K', 'D', 'U_{0}', '\\kappa_{11}']


def derivative(rng, u, coords, max_order):
    order = rng.choice([0] + list(range(1, max_order + 1)) * 2)
    if order == 0 or not coords:
        return u, 0
    counts = {}
    for _ in range(order):
        c = rng.choice(coords)
        counts[c] = counts.get(c, 0) + 1
    return Derivative(u, *[(c, k) for c, k in counts.items()]), order


def pde_system(rng, dim=1, nfields=1, nterms=(1, 3), max_order=2, max_degree=2, coeffs=True,
               exogenous=True, nonpoly=0.0, explicit=0.0, plain_names=False, linear=False,
               coords=None, forcing=0.0, abstract=0.0):
    """[(u_i, rhs_i)], info"""
    if coords is None:
        coords = rng.choice({0: COORDS_0D, 1: COORDS_1D, 2: COORDS_2D, 3: COORDS_3D, 4: COORDS_4D}[dim])
    coords = [Symbol(c) for c in coords]
    names = ['u', 'v', 'w'][:nfields] if plain_names else rng.sample(FIELD_NAMES, nfields)
    fields = [Function(n)(t, *coords) for n in names]
    consts = [Symbol(c) for c in rng.sample(CONSTS, 2)]
    cf = rng.sample(COEFF_FUNCS, 2)
    noise = rng.sample(RANDOM_FUNCS, 2) if forcing else []
    eqs = []
    for u in fields:
        rhs = Integer(0)
        for _ in range(rng.randint(*nterms)):
            term = Rational(rng.choice([-3, -2, -1, -1, 1, 1, 2, 3]), rng.choice([1, 1, 1, 2, 3]))
            r = rng.random()
            if coeffs and r < 0.35:
                term *= rng.choice(consts)
            elif coeffs and r < 0.5:
                term *= Function(cf[0])(*(coords or [t]))
            elif exogenous and coeffs and r < 0.6:
                term *= Function(cf[1])(t, *coords)
            if rng.random() < explicit:
                term *= rng.choice([t] + coords)
            deg = 1 if linear else rng.choice([1, 1] + list(range(1, max_degree + 1)))
            left = max_order
            for _ in range(deg):
                who = rng.choice(fields)
                d, o = derivative(rng, who, coords, left)
                left = max(0, left - o)
                term *= d
            if rng.random() < nonpoly:
                who = rng.choice(fields)
                if rng.random() < 0.6:
                    term *= rng.choice([1 / who, exp(who), sin(who), cos(who), sqrt(who), 1 / (1 + who ** 2)])
                else:
                    k, other = rng.choice(consts), rng.choice(fields)
                    term *= rng.choice([exp(-k * who), sin(k * who + other), who ** Rational(3, 2), (who + k) ** 2,
                                        (who - other / 2) * (who + k), 1 / (k + other * who), sqrt(1 + who * other)]
                                       + ([cos(Derivative(who, coords[-1])), 1 / (2 + Derivative(who, coords[0]) ** 2)] if coords else []))
            if rng.random() < abstract:
                term = unspecified(rng, term, fields, coords, consts)
            if forcing and rng.random() < forcing:
                w = Function(rng.choice(noise))(t, *coords, Symbol('omega'))
                if coords and rng.random() < 0.3:
                    w = Derivative(w, rng.choice(coords))
                term = rng.choice([term * w, term + w, term + consts[0] * w, term + w ** 2, term * (1 + w)])
            rhs += term
        eqs.append((u, rhs))
    # every field must have a non-trivial equation
    eqs = [(u, r if r != 0 else -Derivative(u, coords[0]) if coords else -u) for u, r in eqs]
    eqs = assumptions(eqs)
    return eqs, {'coords': [c.name for c in coords], 'fields': [str(u) for u in fields]}


def assumptions(eqs):
    """the same system, at times with fields, constants or coordinates declared real or positive"""
    rng = random.Random('assumptions ' + str(eqs))
    kind = rng.choice([None, None, None, None, 'fields', 'constants', 'coefficients', 'coordinates'])
    if kind is None:
        return eqs
    swap = {}
    fields = [u for u, _ in eqs]
    coords = [c for c in fields[0].args if c != t]
    funcs = set().union(*[r.atoms(sympy.core.function.AppliedUndef) for _, r in eqs])

    def sign():
        return rng.choice([dict(real=True), dict(positive=True), dict(real=True), {}])
    if kind == 'fields':
        swap = {u: Function(u.func.__name__, **sign())(*u.args) for u in fields}
    elif kind == 'coefficients':
        swap = {f: Function(f.func.__name__, **sign())(*f.args) for f in sorted(funcs - set(fields), key=str)
                if f.args and all(a.is_Symbol for a in f.args) and not f.has(Symbol('omega'))}
    elif kind == 'constants':
        symbols = set().union(*[r.free_symbols for _, r in eqs]) - set(coords) - {t, Symbol('omega')}
        swap = {s: Symbol(s.name, **sign()) for s in sorted(symbols, key=str)}
    else:
        swap = {c: Symbol(c.name, **sign()) for c in coords}
    return [(u.xreplace(swap), r.xreplace(swap)) for u, r in eqs]


def unspecified(rng, term, fields, coords, consts):
    """a term with a function of the fields that is not specified (flux, diffusivity, reaction), or given by cases"""
    who, other = rng.choice(fields), rng.choice(fields)
    F = Function(rng.choice(['Phi', '\\Psi']))
    # (sympy itself differentiates F(u, u) wrongly)
    two = F(who, other) if who != other else F(2 * who)
    cases = [F(who), term * F(who), term * two, term + F(who + other), term * F(consts[0] * who),
             sympy.Piecewise((term, who > consts[0]), (rng.choice([Integer(0), who, who ** 2]), True)),
             sympy.Piecewise((who ** 2, who < other / 2 + consts[0]), (other * consts[1], True))]
    if coords:
        c = rng.choice(coords)
        flux = [-Derivative(F(who), c), Derivative(F(who) * Derivative(other, c), c), -Derivative(F(who) * other, c),
                Derivative(F(who), c, 2), term * F(Derivative(who, c)), -Derivative(who * sin(other), c)]
        return rng.choice(rng.choice([flux, flux, cases]))
    return rng.choice(cases)


def shape_class(eqs):
    """coarse description of a system, to count distinct structures"""
    out = []
    for u, r in eqs:
        ders = sorted(str(sorted((str(v), int(k)) for v, k in d.variable_count)) for d in r.atoms(Derivative))
        out.append((len(u.args), len(sympy.Add.make_args(r)), tuple(ders)))
    return str(out)

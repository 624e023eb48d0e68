"""the roles of the symbols of a system"""
import sympy
from sympy import Derivative, Function, Symbol, sin, exp, sqrt
from ..models import classify, systems, t, conservative, rough
from ..pkfcommon import rng_for
from .. import gen

RULE = ('a case is a batch of random systems handed over as lists, single equations, sympy or sympkf equations; '
        'non-trivial when the classification was compared with the one read on the equations; distinct by the systems')
MIN = {'checked:prognostic functions': 300, 'checked:constants': 300, 'systems with coefficients': 100,
       'time derivative in a right-hand side': 100}


def cases(tier, seed):
    n = 144 if tier == 'quick' else 960
    return [{'seed': ['S01', seed, k], 'batch': 10, 'cpu': 60} for k in range(n)]


def textbook(name):
    x, y, z = sympy.symbols('x y z')
    kappa, eta = sympy.symbols('\\kappa \\eta')
    F = Function
    if name in ('burgers', 'kuramoto', 'diffusion'):
        u = F('u')(t, x)
        r = {'burgers': -u * u.diff(x) + kappa * u.diff(x, 2), 'diffusion': kappa * u.diff(x, 2),
             'kuramoto': -u * u.diff(x) - kappa * u.diff(x, 2) - eta * u.diff(x, 4)}[name]
    elif name == 'diffusion_in_2D':
        u = F('u')(t, x, y)
        k11, k12, k22 = (F('\\kappa_{%s}' % n)(x, y) for n in ('11', '12', '22'))
        r = (k11 * u.diff(x) + k12 * u.diff(y)).diff(x) + (k12 * u.diff(x) + k22 * u.diff(y)).diff(y)
    else:
        xs = {'advection': (x,), 'advection_in_2D': (x, y), 'advection_in_3D': (x, y, z)}[name]
        u = F('c')(t, *xs)
        r = -sum(F(n)(*xs) * u.diff(z_) for n, z_ in zip('uvw', xs))
    return Derivative(u, t), r


def run(spec, mon):
    from sympkf.symbolic.util import PDESystem, Eq, TrainableScalar
    import sympkf.symbolic.dynamics as dynamics
    rng = rng_for(*spec['seed'])
    seen = []
    for n in range(spec['batch']):
        dim = rng.choice([1, 1, 2, 3, 4])
        if rng.random() < 0.25:
            eqs = conservative(rng, 1 + dim % 2)
        else:
            eqs, _ = gen.pde_system(rng, dim=dim, nfields=rng.choice([1, 2, 3, 3, 5, 12]), max_order=rng.choice([1, 2, 4, 9]),
                                    max_degree=3, nonpoly=0.4, explicit=0.1)
        if rng.random() < 0.15:
            eqs = rough(rng, eqs)
            mon.observe('limiters, thresholds, cases')
        if rng.random() < 0.4:
            sub = rng.choice([[t], [z for z in eqs[0][0].args if z != t][-1:], [eqs[0][0].args[-1], eqs[0][0].args[1]],
                              [t, eqs[0][0].args[-1]], [eqs[0][0].args[-1], t], list(eqs[0][0].args[::-1])])
            sub = list(dict.fromkeys(sub))
            f = Function(rng.choice(['N', 'M_1']))(*sub)
            if rng.random() < 0.15:        # a function of a field, which depends on time through it
                f = f.func(sub[-1], rng.choice(eqs)[0])
                sub = [z for z in sub if z != t][-1:] or [t]
            k = rng.randrange(len(eqs))
            eqs[k] = (eqs[k][0], eqs[k][1] + rng.choice([f * eqs[0][0], f ** 2, Derivative(f, sub[-1]) if sub != [t] else sin(f)]))
        if rng.random() < 0.2:
            # fields that do not live on the same domain
            u, here = rng.choice(eqs)[0], [z for z in eqs[0][0].args if z != t]
            few = Function(rng.choice(['m', 'A_0']))(t, *here[:rng.randrange(len(here))])
            eqs.insert(rng.choice([0, 0, 1, len(eqs)]), (few, rng.choice([-few, few ** 2 * Symbol('r_1'), few * sympy.Integral(u, *[(z, 0, 1) for z in here if z not in few.args])])))
            mon.observe('fields of different domains')
        late = False
        if rng.random() < 0.25:
            # a time derivative in a right-hand side makes nobody prognostic
            late = True
            k = rng.randrange(len(eqs))
            f = Function(rng.choice(['N', 'M_1', 'f_2']))(*eqs[0][0].args)
            eqs[k] = (eqs[k][0], eqs[k][1] + rng.choice([1, eqs[0][0]]) * Derivative(rng.choice([f, f, eqs[-1][0]]), t))
            mon.observe('time derivative in a right-hand side')
        if rng.random() < 0.15:
            s_, k = Symbol(rng.choice(['s_1', "x'"])), rng.randrange(len(eqs))
            m = Function('M_3')(s_)
            eqs[k] = (eqs[k][0], eqs[k][1] + sympy.Integral(m * rng.choice([1, s_, eqs[0][0]]), (s_, 0, rng.choice([1, eqs[0][0].args[-1], Symbol('L_1')]))))
        if rng.random() < 0.3:
            # constants of any name, the ones of the steps or of nothing in particular
            c0 = Symbol(rng.choice(['d' + eqs[0][0].args[-1].name, 'd' + eqs[0][0].args[-1].name, 'dt', 'omega', 'du', 'e_1', 'C', 'T', 'x_o1', 'D', '_c']))
            k = rng.randrange(len(eqs))
            if c0 not in eqs[0][0].args:
                eqs[k] = (eqs[k][0], eqs[k][1] + rng.choice([c0 * eqs[k][0], eqs[k][0] ** c0, sympy.Piecewise((eqs[k][0], eqs[k][0] > c0), (1, True)),
                                                              sin(eqs[0][0] / c0), c0]))
        train = set()
        if rng.random() < 0.3:
            a = TrainableScalar('a_%d' % rng.randrange(3), init_value=rng.choice([None, 0.5]))
            train.add(a)
            eqs[0] = (eqs[0][0], eqs[0][1] + a * eqs[0][0])
        c = classify(eqs)
        form = rng.randrange(3)
        e = [(sympy.Eq if form == 1 else Eq)(Derivative(u, t), r) for u, r in eqs]
        name = rng.choice(['', 'dyn'])
        s = PDESystem(e[0] if len(e) == 1 and form == 2 else e, name=name)
        say = dict(eqs=eqs)
        mon.check(list(s.prognostic_functions) == [u for u, _ in eqs], 'prognostic functions', got=s.prognostic_functions, **say)
        mon.check(set(s.functions) == set(c['prognostic']) | c['constant_functions'] | c['exogenous'], 'functions',
                  got=s.functions, **say)
        mon.check(set(s.constant_functions) == c['constant_functions'], 'constant functions', got=s.constant_functions, **say)
        mon.check(set(s.exogenous_functions) == c['exogenous'], 'exogenous functions', got=s.exogenous_functions, **say)
        mon.check(set(s.constants) == c['constants'] - train, 'constants', got=s.constants, **say)
        mon.check(set(s.trainable_scalars) == train, 'trainable scalars', got=s.trainable_scalars, **say)
        mon.check(s.time_coordinate == t and list(s.coordinates) == [t] + c['coords'] and
                  list(s.spatial_coordinates) == c['coords'], 'coordinates', got=s.coordinates, **say)
        ders = set()
        for _, r in eqs:
            ders |= r.atoms(Derivative)
        space = {d for d in ders if not any(v == t for v, _ in d.variable_count)}
        mon.check(space <= set(s.spatial_derivatives) <= ders, 'spatial derivatives', got=s.spatial_derivatives, **say)
        if late:
            seen.append(str(eqs))
            continue
        top = max([0] + [sum(int(k) for _, k in d.variable_count) for d in ders])
        mon.check(s.derivative_max_order == top, 'highest order', got=s.derivative_max_order, want=top, **say)
        mon.check([q for q in s] == e and len(e) == len(list(s.equations)) and all(s[k] == e[k] for k in range(len(e))),
                  'equations kept in order', got=list(s), **say)
        mon.check(s.name == name, 'name', got=s.name)
        text = repr(s)
        mon.check(all(str(u) in text for u, _ in eqs), 'summary names the fields', got=text)
        # not changed by the order of the questions, nor by another system
        if c['constant_functions'] or c['exogenous'] or c['constants']:
            mon.observe('systems with coefficients')
        if train:
            a = train.pop()
            mon.check(a.init_value in (None, 0.5) and a.mean == 0. and a.stddev == 1. and a.seed is None and a.wl2 is None,
                      'options of a trainable scalar', got=a)
        seen.append(str(eqs))
    if spec['seed'][2] == 0:
        roles = {'burgers': (1, 0, 0, 1), 'kuramoto': (1, 0, 0, 2), 'diffusion': (1, 0, 0, 1), 'advection': (1, 1, 0, 0),
                 'advection_in_2D': (1, 2, 0, 0), 'diffusion_in_2D': (1, 3, 0, 0), 'advection_in_3D': (1, 3, 0, 0)}
        for n, want in roles.items():
            s = getattr(dynamics, n)
            got = tuple(len(z) for z in (s.prognostic_functions, s.constant_functions, s.exogenous_functions, s.constants))
            names = [str(f.func) for f in s.functions] + [str(c) for c in s.constants] + [str(c) for c in s.coordinates]
            mon.check(len(set(names)) == len(names), 'one name per role in a named dynamics', name=n, got=names)
            mon.check(got == want, 'roles in a named dynamics', name=n, got=got, want=want)
            (e,) = s.equations
            right = textbook(n)
            mon.check(e.args[0] == right[0] and (e.args[1] - right[1]).doit().expand() == 0, 'equation of a named dynamics',
                      name=n, got=e, want=right)
    mon.done(seen, sample=seen[:2])

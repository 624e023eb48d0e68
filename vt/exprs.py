"""Random expressions over random fields, deterministic fields, constants and expectations."""
import sympy
from sympy import (Symbol, Function, Derivative, Integral, Rational, Integer, Pow, sin, cos, exp, sqrt, log, tanh)

t, x, y = sympy.symbols('t x y')
omega = Symbol('omega')


class Maker:
    def __init__(self, rng, E, coords=(t, x), depth=3, integrals=True, standard=True, expectations=True,
                 odd=0.0):
        self.rng, self.E, self.coords, self.depth = rng, E, list(coords), depth
        self.integrals, self.standard, self.expectations = integrals, standard, expectations
        self.odd = odd

    def random_field(self):
        name = self.rng.choice(['X', 'Y', '\\varepsilon', 'e_u'])
        args = self.coords if self.rng.random() < 0.7 else [self.rng.choice(self.coords)]
        if self.rng.random() < 0.15:
            args = []
        return Function(name)(*args, omega)

    def field(self):
        name = self.rng.choice(['f', 'g', 'u', 'V'])
        args = self.coords if self.rng.random() < 0.6 else [self.rng.choice(self.coords)]
        return Function(name)(*args)

    def leaf(self):
        r = self.rng.random()
        if r < 0.4:
            return self.random_field()
        if r < 0.65:
            return self.field()
        if r < 0.8:
            return self.rng.choice([Symbol('a'), Symbol('b'), Symbol('\\kappa')])
        if r < 0.88:
            return self.rng.choice(self.coords)
        return Rational(self.rng.choice([-2, -1, 1, 2, 3, 5]), self.rng.choice([1, 1, 2, 3]))

    def expr(self, d=None):
        rng = self.rng
        d = self.depth if d is None else d
        if d <= 0:
            return self.leaf()
        if self.odd and rng.random() < self.odd:
            return self.unusual(d)
        r = rng.random()
        if r < 0.27:
            return sympy.Add(*[self.expr(d - 1) for _ in range(rng.choice([2, 2, 3]))])
        if r < 0.57:
            return sympy.Mul(*[self.expr(d - 1) for _ in range(rng.choice([2, 2, 3]))])
        if r < 0.6 and self.expectations:
            return self.nearly(d)
        if r < 0.63:
            return self.expr(d - 1) ** rng.choice([2, 2, 3, -1])
        if r < 0.66:
            return self.power(d)
        if r < 0.82:
            return self.derivative(d)
        if r < 0.88 and self.expectations:
            return self.E(self.expr(d - 1))
        if r < 0.93 and self.integrals:
            return self.integral(d)
        if r < 0.955 and self.standard:
            return self.several(d)
        if r < 0.97 and self.standard:
            return rng.choice([sin, cos, exp, tanh])(self.expr(min(d - 1, 1)))
        return self.leaf()

    def nearly(self, d):
        """random quantities that would cancel if expectations were taken for something else"""
        a, b = self.expr(min(d - 1, 2)), self.random_field()
        e, g = self.E(b), self.E(self.expr(min(d - 1, 1)))
        return self.rng.choice([a - a * e, a * e - a * g, a - self.E(a), a * (e - 1), b - b * e, b - e, (b - e) ** 2,
                                a * b - a * e, b * e - b * self.E(b ** 2), b * e ** 2 - b])

    def power(self, d):
        """an exponent that is not a number, possibly random, over a base that may be deterministic"""
        base = self.rng.choice([self.field(), self.field(), Symbol('a'), Integer(2), self.random_field()])
        return base ** self.expr(min(d - 1, 1))

    def several(self, d):
        """a function of several quantities, the random ones at any place"""
        args = [self.leaf() for _ in range(self.rng.choice([1, 1, 2]))]
        args.insert(self.rng.randrange(len(args) + 1), self.expr(min(d - 1, 1)))
        return Function(self.rng.choice(['F', 'G']))(*args)

    def derivative(self, d):
        rng = self.rng
        inner = self.expr(d - 1) if rng.random() < 0.5 else self.random_field()
        n = rng.choice([1, 1, 1, 2])
        wrt = [(c, rng.choice([1, 1, 2])) for c in rng.sample(self.coords, min(n, len(self.coords)))]
        return Derivative(inner, *wrt)

    def integral(self, d):
        rng = self.rng
        inner = self.expr(d - 2)
        c = rng.choice(self.coords[1:])
        if rng.random() < 0.75:
            return Integral(inner, (c, 0, Rational(rng.choice([1, 1, 2]), 2)))
        if rng.random() < 0.4:      # a random bound, over a quantity that may be deterministic
            return Integral(inner if rng.random() < 0.5 else self.field(),
                            rng.choice([(c, 0, self.random_field()), (c, self.random_field(), 1), (c, self.field(), self.leaf())]))
        cs = rng.choice([self.coords[:2], self.coords[-2:], self.coords, self.coords[::-1]])
        return Integral(inner, *[(z, 0, Rational(1, 2)) for z in cs])

    def unusual(self, d):
        """quantities by cases, derivatives with respect to a field, quantities evaluated at another one, random bounds"""
        rng, z = self.rng, Symbol('zeta')
        F = Function(rng.choice(['F', 'G']))
        k = rng.random()
        any_field = self.random_field() if rng.random() < 0.6 else self.field()
        if k < 0.3:
            cond = rng.choice([self.field() > Rational(1, 2), self.field() < Symbol('a'), self.field() < self.field(),
                               self.random_field() > Rational(1, 2), self.random_field() < self.field(), self.leaf() > self.random_field(),
                               self.random_field() ** 2 > Symbol('a')])
            if rng.random() < 0.3:      # only the case is random
                return sympy.Piecewise((self.field(), cond), (self.leaf(), True))
            if cond in (sympy.true, sympy.false):
                return self.leaf()
            return sympy.Piecewise((self.expr(min(d - 1, 1)), cond), (self.expr(min(d - 1, 1)), True))
        if k < 0.6:
            order = rng.choice([1, 1, 2])
            got = Derivative(F(any_field), any_field, order)
            return got if rng.random() < 0.6 else self.leaf() * got
        if k < 0.8:
            return sympy.Subs(Derivative(F(z), z, rng.choice([1, 1, 2])), z, self.leaf() if rng.random() < 0.5 else any_field)
        c = self.coords[-1]
        bound = any_field if rng.random() < 0.7 else self.leaf()
        lims = rng.choice([(c, 0, bound), (c, bound, 1), (c, bound)])
        return Integral(self.field() if rng.random() < 0.6 else self.leaf(), lims)

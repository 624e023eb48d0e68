"""multi-indices of partial derivatives"""
import itertools
from sympy import Symbol, Derivative, Function
from ..pkfcommon import rng_for
from .k09 import multi_indices

RULE = ('a case is one coordinate system and degree: every multi-index of that degree is enumerated and converted; '
        'non-trivial when at least one multi-index was checked; distinct by coordinates and degree')
MIN = {'checked:enumeration': 20, 'checked:conversions': 100}


def cases(tier, seed):
    out = []
    names = [['x'], ['t'], ['x', 'y'], ['y', 'x'], ['z', 'x'], ['x', 'y', 'z'], ['t', 'x', 'y'],
             ['x0', 'x1', 'x2', 'x3'], ['\\theta', 'x'], ['r', '\\phi', 'z'], ['x', 'x_1', 'x_2', 'a', 'b']]
    for c in names:
        top = {1: 14, 2: 13, 3: 8, 4: 6, 5: 5}[len(c)] + (3 if tier == 'thorough' else 0)
        for d in range(top):
            out.append({'coords': c, 'degree': d, 'seed': ['K11', seed, str(c), d]})
    return out


def run(spec, mon):
    from sympkf.symbolic.pkfcas import PartialOrderDerivative as P
    coords = tuple(Symbol(c) for c in spec['coords'])
    n, d = len(coords), spec['degree']
    want = multi_indices(n, d)
    made = list(P.all_of_degree(coords, d))
    got = [p.as_tuple for p in made]
    mon.check(sorted(got) == sorted(want), 'enumeration', got=got, want=want)
    # several coordinate systems of the same dimension, enumerated in the same process
    for other in (coords, coords[::-1], tuple(Symbol(f'{c}_other') for c in coords), coords[1:] + coords[:1],
                  tuple(Symbol(str(c), real=True) for c in coords), coords):
        made = list(P.all_of_degree(other, d))
        mon.check(sorted(p.as_tuple for p in made) == sorted(want) and all(
            tuple(p.coordinates) == other and p.as_couples == list(zip(other, p.as_tuple))
            and list(p.as_sequence) == [c for c, k in zip(other, p.as_tuple) for _ in range(k)] for p in made),
                  'enumeration', coords=other, got=[(p.coordinates, p.as_couples) for p in made][:5])
        if made:        # what a caller does with one of them changes no other enumeration
            made[0].as_couples.clear()
            made.clear()
    rng = rng_for(*spec['seed'])
    f = Function('f')(*coords)
    for a in want:
        seq = [c for c, k in zip(coords, a) for _ in range(k)]
        shuffled = list(seq)
        rng.shuffle(shuffled)
        forms = [tuple(a), [(c, k) for c, k in zip(coords, a)], seq, shuffled]
        nz = [(c, k) for c, k in zip(coords, a) if k]
        if nz:
            rng.shuffle(nz)
            forms.append(nz)
            # a coordinate given in two pieces
            c, k = nz[0]
            if k > 1:
                forms.append([(c, 1)] + nz[1:] + [(c, k - 1)])
        if len(nz) == 1:
            forms.append(nz[0])
        made = [P(coords, form) for form in forms]
        ok = all(p.as_tuple == tuple(a) and p.as_couples == [(c, k) for c, k in zip(coords, a)]
                 and list(p.as_sequence) == seq and p.coordinates == coords for p in made)
        mon.check(ok, 'conversions', forms=forms, got=[(p.as_tuple, p.as_couples, p.as_sequence) for p in made])
        p = made[0]
        mon.check(all(q == p for q in made) and p.copy() == p and p.new(seq) == p and p.new(p.as_couples) == p,
                  'equality', a=a)
        b = rng.choice(want)
        mon.check((P(coords, tuple(b)) == p) == (a == b), 'equality', a=a, b=b)
        if n > 1:
            rev = P(coords[::-1], tuple(a)[::-1])
            mon.check((rev == p) is False, 'other coordinates differ', a=a)
        mon.check(Derivative(f, *p.as_couples).doit() == Derivative(f, *seq).doit() if d else True, 'derivative', a=a)
        p.as_sequence.append('junk')
        p.as_couples.append('junk')
        mon.check(list(p.as_sequence) == seq and p.as_tuple == tuple(a), 'views are independent', a=a)
    foreign = Symbol('foreign')
    for bad in ((1,) * (n + 1), [foreign], [(foreign, 1)], (foreign, 1) if n != 2 else (1, 2, 3),
                tuple([1.5] * n), [(coords[0], 1.5)], list(coords) + [foreign]):
        try:
            P(coords, bad)
            raised = False
        except TypeError:
            raised = True
        mon.check(raised, 'invalid order rejected', bad=bad)
    mon.done((spec['coords'], d), sample=(spec['coords'], got[:5]), nontrivial=bool(want))

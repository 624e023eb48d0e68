"""an interrupted code generation leaves nothing half done"""
import contextlib
import io
import os
import numpy as np
import sympy
from sympy import Derivative
from ..gen import shape_class
from ..interrupt import record, interrupted, points, Interrupted
from ..models import Data, exec_class, systems, t, classify
from ..pkfcommon import rng_for

RULE = ('a case is a random system; its model is generated, read and written to disk while an exception strikes before a '
        'statement of the code (any statement it was seen to execute), then generation is asked again from the same objects; '
        'non-trivial when a crash point was reached and the code and the module were compared with those of an undisturbed '
        'generation; distinct by the shape of the system')
MIN = {'crash points reached': 300, 'checked:same code after an interruption': 300, 'checked:same module after an interruption': 300,
       'checked:same discretisation after an interruption': 50}
ERRORS = [Interrupted, Interrupted, MemoryError, OSError]


def cases(tier, seed):
    n = 48 if tier == 'quick' else 320
    return [{'seed': ['B06', seed, k], 'which': k % 8, 'cpu': 90, 'n': 16 if tier == 'quick' else 40} for k in range(n)]


def quiet(f):
    with contextlib.redirect_stdout(io.StringIO()):
        return f()


def run(spec, mon):
    from sympkf.symbolic.util import PDESystem, Eq
    from sympkf.symbolic.model_builder_FD import FDModelBuilder
    from sympkf.symbolic.finite_difference import finite_difference
    rng = rng_for(*spec['seed'])
    eqs = systems(rng, spec['which'])
    name = f'Crash{rng.randrange(10 ** 8)}'
    e = [Eq(Derivative(u, t), r) for u, r in eqs]

    def whole(keep):
        keep['pde'] = PDESystem(e, name='dyn')
        b = keep['builder'] = FDModelBuilder(keep['pde'], class_name=name)
        b.code
        b.write_module()

    keep = {}
    quiet(lambda: whole(keep))
    code = keep['builder'].code
    path = keep['builder'].module_file
    module = open(path).read()
    os.unlink(path)
    _, lines = quiet(lambda: record(lambda: whole({})))
    os.unlink(path)
    chosen, distinct = points(rng, lines, spec['n'])
    mon.observe('statements seen', distinct)
    reached = 0
    ref = None

    def same(text, at):
        """the code, or code doing the same"""
        nonlocal ref
        if text == code:
            return True
        data = Data(rng, eqs, (5,) * len(classify(eqs)['coords']), (1.,) * len(classify(eqs)['coords']))
        out = []
        for z in (code, text):
            try:
                m = data.with_exogenous(exec_class(z, name), [])(shape=data.shape, lengths=data.lengths, **data.kwargs())
                with np.errstate(all='ignore'):
                    out.append(m.trend(0.3, data.state))
            except Exception as ex:
                return False
        return np.allclose(*out, rtol=1e-9, equal_nan=True)

    for where, k in chosen:
        keep = {}
        hit = quiet(lambda: interrupted(lambda: whole(keep), where, k, rng.choice(ERRORS)))
        reached += hit
        mon.observe('crash points reached', int(hit))
        at = f'{os.path.basename(where[0])}:{where[1]}#{k}'
        pde = keep.get('pde') or PDESystem(e, name='dyn')
        builders = [FDModelBuilder(pde, class_name=name)]
        if 'builder' in keep:
            builders.insert(0, keep['builder'])
        for b in builders:
            mon.check(quiet(lambda: same(b.code, at)), 'same code after an interruption', at=at, got=b.code[-600:], want=code[-600:], eqs=eqs)
            quiet(b.write_module)
            got = open(b.module_file).read()
            mon.check(b.module_file == path and (got == module or quiet(lambda: same(got, at))), 'same module after an interruption', at=at, eqs=eqs)
        os.unlink(path)
    # discretisation of the right-hand sides
    rhs = rng.choice(eqs)[1].doit()
    if rhs.atoms(Derivative):
        want = finite_difference(rhs)
        _, lines = record(lambda: finite_difference(rhs))
        for where, k in points(rng, lines, 4)[0]:
            hit = interrupted(lambda: finite_difference(rhs), where, k, rng.choice(ERRORS))
            reached += hit
            mon.observe('crash points reached', int(hit))
            got = finite_difference(rhs)
            mon.check(sympy.expand(got - want) == 0, 'same discretisation after an interruption', got=got, want=want)
    mon.done(shape_class(eqs) + name, sample=(eqs, distinct, reached), nontrivial=reached > 0)

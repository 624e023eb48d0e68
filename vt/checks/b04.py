"""configuration of a generated model, and the module written to disk"""
import contextlib
import importlib.util
import io
import os
import subprocess
import sys
import tempfile
import numpy as np
import sympy
from sympy import Derivative, Symbol
from ..models import LARGE, Data, clean, classify, exec_class, systems, unambiguous, t
from ..pkfcommon import rng_for
from ..runtime import Inconclusive
from ..schemes import STEP

RULE = ('a case is a random system; non-trivial when models of its generated class were configured with several '
        'combinations of arguments and the module written to disk was imported (in a fresh interpreter for some) and '
        'compared with the code; distinct by the system')
MIN = {'checked:configured values reach the trend': 40, 'checked:written module': 40, 'checked:time scheme': 40, 'special values': 40,
       'module of that name existed': 40}


def cases(tier, seed):
    n = 168 if tier == 'quick' else 1120
    out = [{'seed': ['B04', seed, k], 'which': k % 8, 'fresh': k % 7 == 0, 'cpu': 90} for k in range(n)]
    out += [{'seed': ['B04', seed, w, k], 'which': w, 'fresh': k == 0, 'cpu': 120} for w in LARGE for k in range(4 if tier == 'quick' else 40)]
    return out


def quiet(f, /, *a, **k):
    out = io.StringIO()
    with contextlib.redirect_stdout(out), np.errstate(all='ignore'):
        r = f(*a, **k)
    return r, out.getvalue()


def refused(f, /, *a, **k):
    try:
        quiet(f, *a, **k)
    except Exception:
        return True
    return False


def run(spec, mon):
    from sympkf.symbolic.util import PDESystem, Eq
    from sympkf.symbolic.model_builder_FD import FDModelBuilder
    from sympkf.model import Model
    rng = rng_for(*spec['seed'])
    for _ in range(10):
        eqs = systems(rng, spec['which'])
        if unambiguous(eqs):
            break
    else:
        raise Inconclusive('ambiguous names')
    c = classify(eqs)
    d = len(c['coords'])
    e = [Eq(Derivative(u, t), r) for u, r in eqs]
    tag = f"Gen{rng.randrange(10 ** 8)}"
    how = rng.randrange(3)
    if how == 0:
        b = FDModelBuilder(PDESystem(e, name=tag))
    elif how == 1:
        b = FDModelBuilder(PDESystem(e, name='Other'), class_name=tag)
    else:
        b = FDModelBuilder(e, class_name=tag)
    mon.check(b.class_name == tag, 'class name', got=b.class_name, want=tag)
    mon.check(FDModelBuilder(e).class_name not in ('', None) and FDModelBuilder(e).class_name.isidentifier(), 'default class name')
    code = b.code
    cls = exec_class(code, tag)
    mon.check(issubclass(cls, Model), 'is a Model')
    got_consts = sorted(getattr(cls, 'constants', ()))
    got_cf = sorted(getattr(cls, 'constant_functions', ()))
    got_exo = sorted(getattr(cls, 'exogenous_functions', ()))
    mon.check(got_consts == sorted(clean(s) for s in c['constants']), 'announced constants', got=got_consts, eqs=eqs)
    mon.check(got_cf == sorted(clean(f.func) for f in c['constant_functions']), 'announced constant functions', got=got_cf, eqs=eqs)
    mon.check(got_exo == sorted(clean(f.func) for f in c['exogenous']), 'announced exogenous functions', got=got_exo, eqs=eqs)

    shape = tuple(rng.randint(5, 9) for _ in range(d))
    lengths = tuple(rng.choice([1.0, 3.0]) for _ in range(d))
    data = Data(rng, eqs, shape, lengths)
    kw = data.kwargs()
    full = data.with_exogenous(cls, [])
    if data.exo:
        bare, _ = quiet(cls, shape=shape, lengths=lengths, **kw)
        mon.check(refused(bare.trend, 0.3, data.state), 'exogenous fields that are not provided are refused', eqs=eqs)
    ref, _ = quiet(full, shape=shape, lengths=lengths, **kw)
    for n, v in kw.items():
        mon.check(np.array_equal(getattr(ref, n), v), 'configured value is kept', name=n)
    tr, _ = quiet(ref.trend, 0.3, data.state)
    # attributes set afterwards are the same as arguments; order of the arguments does not matter
    m2, said = quiet(full, lengths=lengths, shape=shape)
    for n in kw:
        unset = getattr(m2, n)
        mon.check(np.isscalar(unset) and np.isnan(unset) and f'`{n}`' in said, 'a missing value is announced and is nan', name=n, said=said)
        setattr(m2, n, kw[n])
    tr2, _ = quiet(m2.trend, 0.3, data.state)
    mon.check(np.array_equal(tr, tr2, equal_nan=True), 'configured values reach the trend', eqs=eqs)
    # changing one value changes what depends on it only through the right-hand side
    if kw:
        n = rng.choice(sorted(kw))
        data2 = Data.__new__(Data)
        data2.__dict__.update(data.__dict__)
        data2.consts, data2.const_f = dict(data.consts), dict(data.const_f)
        for s in data2.consts:
            if clean(s) == n:
                data2.consts[s] = data.consts[s] * 1.7
        for f in data2.const_f:
            if clean(f.func) == n:
                data2.const_f[f] = data.const_f[f] * 1.7
        m3, _ = quiet(full, shape=shape, lengths=lengths, **{**kw, n: kw[n] * 1.7})
        tr3, _ = quiet(m3.trend, 0.3, data.state)
        from ..grid import agree
        want, _ = data2.reference(eqs, 0.3, data.state)
        mon.check(all(agree(tr3[i], want[i]) <= 1 for i in range(len(eqs))), 'configured values reach the trend',
                  changed=n, eqs=eqs)
        back, _ = quiet(ref.trend, 0.3, data.state)
        mon.check(np.array_equal(tr, back, equal_nan=True), 'two models do not share their values', changed=n)
    # values that are false or not plain floats: zero, whole numbers, numpy scalars, other arrays
    for n in sorted(kw):
        special = rng.choice([0, 0., -0.5, 2, True, np.float64(0.), np.float32(0.5), np.int64(3)])
        if n in got_cf:
            special = rng.choice([np.zeros(shape), np.ones(shape, dtype=int), np.asfortranarray(kw[n])])
        m, said = quiet(full, shape=shape, lengths=lengths, **{**kw, n: special})
        mon.check(np.array_equal(getattr(m, n), special), 'configured value is kept', name=n, value=special, got=getattr(m, n))
        mon.check(f'`{n}`' not in said, 'a given value is not announced as missing', name=n, said=said)
        by_hand, _ = quiet(full, shape=shape, lengths=lengths, **kw)
        setattr(by_hand, n, special)
        a, _ = quiet(m.trend, 0.3, data.state)
        b_, _ = quiet(by_hand.trend, 0.3, data.state)
        mon.check(np.array_equal(a, b_, equal_nan=True), 'configured values reach the trend', name=n, value=special)
        mon.observe('special values')
    # time schemes
    for scheme in ('euler', 'rk2', 'rk4'):
        m, _ = quiet(full, shape=shape, lengths=lengths, time_scheme=scheme, **kw)
        m.set_dt(1e-3)
        small = data.state
        out, _ = quiet(m.forecast, [0., 1e-3], small)
        with np.errstate(all='ignore'):
            want = STEP[scheme](m.trend, 0., small, 1e-3)
        mon.check(np.allclose(out[1e-3], want, rtol=1e-9, atol=1e-12, equal_nan=True), 'time scheme', scheme=scheme)
    dflt, _ = quiet(full, shape=shape, lengths=lengths, **kw)
    out, _ = quiet(dflt.forecast, [0., 1e-3], data.state)
    with np.errstate(all='ignore'):
        want = STEP['rk4'](dflt.trend, 0., data.state, 1e-3)
    mon.check(np.allclose(out[1e-3], want, rtol=1e-9, atol=1e-12, equal_nan=True), 'time scheme', scheme='default')
    for wrong in ('nonsense', rng.choice(['', 'RK4', 'Euler', 'rk', 'rk3', 'rk44', 'trend', None, 'rk4 '])):
        mon.check(refused(full, shape=shape, lengths=lengths, time_scheme=wrong, **kw), 'unknown time scheme is refused', scheme=wrong)
        mon.check(refused(dflt.set_time_scheme, wrong), 'unknown time scheme is refused', scheme=wrong, set=True)
    again, _ = quiet(dflt.forecast, [0., 1e-3], data.state)
    mon.check(np.array_equal(again[1e-3], out[1e-3], equal_nan=True), 'time scheme', scheme='default, after a refusal')
    for kind in (tuple, list):
        for wrong in [shape + (4,), (), shape + shape] + ([shape[:1], shape[1:]] if d > 1 else []):
            mon.check(refused(full, shape=kind(wrong), **kw), 'shape of another dimension is refused', shape=kind(wrong))
        for wrong in [lengths + (1.,), (), lengths + lengths] + ([lengths[:1], lengths[1:]] if d > 1 else []):
            mon.check(refused(full, shape=shape, lengths=kind(wrong), **kw), 'lengths of another dimension are refused', lengths=kind(wrong))
            mon.check(refused(full, lengths=kind(wrong), **kw), 'lengths of another dimension are refused', lengths=kind(wrong))

    # module on disk
    here = os.getcwd()
    with tempfile.TemporaryDirectory(dir=here) as tmp:
        os.chdir(tmp)
        try:
            if rng.random() < 0.6:     # a module of that name exists: an older system, or anything else
                stale = rng.choice(['older', 'junk', 'same', 'longer'])
                if stale == 'older':
                    old = Eq(Derivative(eqs[0][0], t), -Symbol('stale') * eqs[0][0])
                    quiet(FDModelBuilder(old, class_name=tag).write_module)
                elif stale == 'same':
                    quiet(FDModelBuilder(e, class_name=tag).write_module)
                else:
                    open(tag.lower() + '.py', 'w').write('raise SystemExit(7)\n' * (3 if stale == 'junk' else 20000))
                mon.observe('module of that name existed')
            quiet(b.write_module)
            names = sorted(os.listdir('.'))
            mon.check(names == [tag.lower() + '.py'] and b.module_file == tag.lower() + '.py' and
                      b.module_name == tag.lower(), 'written file', got=names)
            path = os.path.join(tmp, names[0])
            text = open(path).read()
            mon.check('SystemExit' not in text and 'stale' not in text, 'written module', what='text')
            if spec['fresh']:
                np.savez('in.npz', state=data.state, **{'kw_' + k: v for k, v in kw.items()})
                prog = ('import numpy as np, sys\n'
                        f'from {b.module_name} import {tag}\n'
                        'z = np.load("in.npz")\n'
                        'kw = {k[3:]: z[k] for k in z.files if k.startswith("kw_")}\n'
                        f'm = {tag}(shape={shape!r}, lengths={lengths!r}, **kw)\n'
                        'np.save("out.npy", m.trend(0.3, z["state"]) if not hasattr(m, "exogenous_functions") else np.zeros(1))\n')
                r = subprocess.run([sys.executable, '-B', '-W', 'ignore', '-c', prog], capture_output=True, text=True,
                                   env={**os.environ, 'PYTHONPATH': tmp + os.pathsep + os.environ.get('PYTHONPATH', '')})
                mon.check(r.returncode == 0, 'written module', what='fresh interpreter', err=r.stderr[-500:])
                if r.returncode == 0 and not data.exo:
                    mon.check(np.allclose(np.load('out.npy'), tr, rtol=1e-10, atol=1e-300, equal_nan=True), 'written module', what='fresh trend')
                    mon.observe('fresh interpreters')
            sp = importlib.util.spec_from_file_location(b.module_name, path)
            mod = importlib.util.module_from_spec(sp)
            sp.loader.exec_module(mod)
            cls2 = data.with_exogenous(getattr(mod, tag), [])
            m, _ = quiet(cls2, shape=shape, lengths=lengths, **kw)
            tr4, _ = quiet(m.trend, 0.3, data.state)
            mon.check(np.array_equal(tr, tr4, equal_nan=True), 'written module', what='trend')
        finally:
            os.chdir(here)
    mon.done([str(q) for q in eqs], sample=str(eqs))

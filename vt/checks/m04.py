"""ensemble forecasts: parallel = serial = one by one, whatever the schedule"""
import json
import multiprocessing
import os
import signal
import time
import numpy as np
from ..pkfcommon import rng_for

RULE = ('a case is an ensemble of members marked by their own value, forecast serially and by pools of several sizes, with '
        'delays injected in some members; an event log (process, member, time) is written by the trends; non-trivial when '
        'at least two processes were seen to interleave members; distinct by the observed completion order')
MIN = {'checked:member by member': 100, 'parallel ensembles': 20, 'trend events': 1000,
       'members finishing out of order': 20, 'checked:a failing member is not silent': 50, 'checked:a member that dies is not silent': 20}


def cases(tier, seed):
    n = 72 if tier == 'quick' else 480
    return [{'seed': ['M04', seed, k], 'cpu': 60} for k in range(n)]


def in_a_child(f, seconds):
    """'returned', 'raised' or 'hangs': the call is made by a child of its own group, which is ended with its processes"""
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.setpgid(0, 0)
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 2)
            f()
            code = 4
        except Exception:
            code = 5
        finally:
            os._exit(code)
    end = time.monotonic() + seconds
    status = None
    while time.monotonic() < end:
        done, status = os.waitpid(pid, os.WNOHANG)
        if done:
            break
        time.sleep(0.01)
    else:
        done = 0
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    if not done:
        os.waitpid(pid, 0)
        return 'hangs'
    return {4: 'returned', 5: 'raised'}.get(os.waitstatus_to_exitcode(status), 'other')


def run(spec, mon):
    from ..numodels import Nonlinear, FAULTS
    rng = rng_for(*spec['seed'])
    rs = np.random.RandomState(rng.randrange(2 ** 31))
    n = rng.choice([4, 9])
    members = rng.choice([1, 2, 3, 5, 9, 17, 40])
    scheme = rng.choice(['euler', 'rk2', 'rk4'])
    states = []
    for k in range(members):
        s = rs.uniform(-1, 1, n + 1)
        s[-1] = k
        states.append(s)
    if members > 2 and rng.random() < .3:
        states[1][:-1] = states[0][:-1]
    keep = [s.copy() for s in states]
    window = list(np.cumsum([rng.choice([0.05, 0.1]) for _ in range(rng.choice([2, 4]))]))
    saved = rng.choice(['all', 'last', 'some', 'backward', 'foreign', 'repeated', 'array', 'one'])
    want = {'all': window, 'last': window[-1:], 'some': window[::2], 'backward': [window[-1], window[0]], 'foreign': window[1:],
            'repeated': window[:2], 'array': window[::2], 'one': window[-1:]}[saved]
    arg = {'all': None, 'foreign': [window[0] - 1.0] + list(want) + [window[-1] + 1.0], 'repeated': [window[0]] + list(want),
           'array': np.array(want), 'one': rng.choice([float, np.float64])(want[0])}.get(saved, list(want))
    plain = Nonlinear(n, time_scheme=scheme)
    alone = [plain.forecast(window, s.copy(), arg) for s in states]

    def compare(out, what):
        mon.check(sorted(q for q in out if len(out[q])) == sorted(want), 'saved times', what=what, got=list(out), want=want)
        for t in want:
            got = out.get(t, [])
            mon.check(len(got) == members, 'every member once', what=what, got=len(got), want=members)
            for k, s in enumerate(got):
                mon.check(np.array_equal(s, alone[k][t]), 'member by member', what=what, member=k, carried=float(s[-1]), time=t)
        mon.check(all(np.array_equal(a, b) for a, b in zip(states, keep)), 'initial states not modified', what=what)

    compare(plain.ensemble_forecast(window, states, arg, parallel=False), 'serial')
    orders = set()
    for pool in rng.sample([1, 2, 3, 4, 8, 12, 20], 2) + ['default']:
        log = os.path.abspath(f'events-{rng.randrange(10 ** 9)}.jsonl')
        delays = {k: rng.choice([0.002, 0.01]) for k in range(members) if rng.random() < .4}
        if members > 1:
            delays[0] = 0.01            # the first member is late
        model = Nonlinear(n, time_scheme=scheme, delays=delays, log=log)
        kw = {} if pool == 'default' else {'nb_pool': pool}
        given = states if rng.random() < .5 else (s for s in states)
        if pool == 'default' and rng.random() < .5:
            out = model.ensemble_forecast(window, given, arg)
        else:
            out = model.ensemble_forecast(window, given, saved_times=arg, parallel=True, **kw)
        compare(out, f'pool {pool}')
        mon.check(not multiprocessing.active_children(), 'no process is left behind', pool=pool)
        events = [json.loads(z) for z in open(log)]
        os.unlink(log)
        mon.observe('parallel ensembles')
        mon.observe('trend events', len(events))
        stages = {'euler': 1, 'rk2': 2, 'rk4': 4}[scheme]
        by = {}
        for pid, member, tt, when in sorted(events, key=lambda e: e[3]):
            by.setdefault(member, []).append((pid, tt, when))
        mon.check(sorted(by) == list(range(members)) and
                  all(len(v) == stages * (len(window) - 1) for v in by.values()), 'every member computed exactly once',
                  counts={k: len(v) for k, v in by.items()}, pool=pool)
        pids = {p for v in by.values() for p, _, _ in v}
        mon.observe('ensembles computed outside the caller', os.getpid() not in pids)
        if pool != 'default':
            mon.check(len(pids) <= pool, 'size of the pool', got=len(pids), want=pool)
        order = sorted(by, key=lambda m: by[m][-1][2])
        late = sum(1 for a, b in zip(order, order[1:]) if a > b)
        mon.observe('members finishing out of order', late)
        mon.observe('processes seen', len(pids))
        orders.add((len(pids), tuple(order)))
    mon.observe('distinct schedules', len(orders))
    # faults
    kinds = sorted(FAULTS)
    for parallel, fault in [(False, rng.choice(kinds)), (True, rng.choice(kinds)), (True, rng.choice(['floating', 'division', 'stop', 'memory', 'custom']))]:
        bad = Nonlinear(n, time_scheme=scheme, fail=(rng.randrange(members), window[rng.randrange(len(window) - 1)]), fault=fault)
        try:
            bad.ensemble_forecast(window, states, arg, parallel=parallel, nb_pool=3)
            loud = None
        except Exception as e:
            loud = e
        mon.check(loud is not None, 'a failing member is not silent', parallel=parallel, fault=fault)
        if loud is not None and fault not in ('stop',):
            mon.check(isinstance(loud, FAULTS[fault]) and 'injected' in str(loud), 'the error is that of the member', fault=fault, got=repr(loud))
        mon.check(not multiprocessing.active_children(), 'no process is left behind', parallel=parallel)
        compare(plain.ensemble_forecast(window, states, arg, parallel=parallel, nb_pool=2), 'after a fault')
    # a process that dies; an error that cannot cross processes: loud, and not for ever
    fault = rng.choice(['killed', 'exit', 'two'])
    bad = Nonlinear(n, time_scheme=scheme, fail=(rng.randrange(members), window[rng.randrange(len(window) - 1)]), fault=fault)

    def attempt():
        bad.home = os.getpid()
        bad.ensemble_forecast(window, states, arg, nb_pool=rng.choice([1, 2, 5]))
    mon.check(in_a_child(attempt, 90) == 'raised', 'a member that dies is not silent', fault=fault, members=members)
    # equal members (copies, and the same array handed over again) are members all the same
    order = rng.choices(range(members), k=members + rng.randint(1, 4))
    twins = [states[k] if rng.random() < .5 else states[k].copy() for k in order]
    for parallel in (False, True):
        out = plain.ensemble_forecast(window, twins, arg, parallel=parallel, nb_pool=rng.choice([2, 3]))
        mon.check(all(len(out[t]) == len(order) and all(np.array_equal(g, alone[k][t]) for g, k in zip(out[t], order)) for t in want),
                  'equal members', parallel=parallel, order=order)
    # a member that blows up without an error is still there
    wild = [s.copy() for s in states]
    k = rng.randrange(members)
    wild[k][0] = rng.choice([np.nan, np.inf, 1e308])
    with np.errstate(all='ignore'):
        each = [plain.forecast(window, s.copy(), arg) for s in wild]
        for parallel in (False, True):
            out = plain.ensemble_forecast(window, wild, arg, parallel=parallel, nb_pool=2)
            mon.check(all(len(out[t]) == members and all(np.array_equal(g, e[t], equal_nan=True) for g, e in zip(out[t], each)) for t in want),
                      'a member that is not finite', parallel=parallel, member=k)
    mon.done(sorted(orders), sample=sorted(orders)[:2], nontrivial=any(len(o[1]) >= 1 for o in orders))

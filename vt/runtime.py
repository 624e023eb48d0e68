"""Case runner: workers in fresh processes, a monitor per case, evidence and verdict."""
import importlib
import json
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback
from queue import Queue

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SYMPKF_VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
# against a scratch copy of the repository, evidence and replays go elsewhere
OUT = VERIF if REPO == '/repo' else os.path.join(tempfile.gettempdir(), 'sympkf-verif-out')
NWORK = 8


class CaseTimeout(BaseException):
    pass


class Inconclusive(Exception):
    """The case could not be decided (harness side)."""


class Monitor:
    """What a case reports: events observed, conditions checked, violations found."""

    def __init__(self, spec):
        self.spec = spec
        self.counts = {}
        self.violations = []
        self.sample = None
        self.key = None
        self.nontrivial = False

    def observe(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def check(self, ok, kind, /, **detail):
        self.observe('checked:' + kind)
        if not ok:
            self.violations.append({'kind': kind, 'detail': {k: str(v)[:600] for k, v in detail.items()}})
        return ok

    def done(self, key, sample=None, nontrivial=True):
        self.key, self.nontrivial = str(key), bool(nontrivial)
        if sample is not None:
            self.sample = str(sample)[:500]


def load(pid):
    return importlib.import_module('vt.checks.' + pid.lower())


def rng_for(*key):
    return random.Random(repr(key))


def run_case(mod, spec):
    mon = Monitor(spec)
    status = 'ok'
    t0 = time.process_time()

    def onalarm(*_):
        raise CaseTimeout()
    signal.signal(signal.SIGPROF, onalarm)
    signal.setitimer(signal.ITIMER_PROF, spec.get('cpu', 60))
    try:
        mod.run(spec, mon)
    except CaseTimeout:
        status = 'timeout'
        if spec.get('must'):
            mon.violations.append({'kind': 'no-result', 'detail': {
                'msg': f"no result within {spec.get('cpu', 60)} s of CPU time"}})
    except Inconclusive as e:
        status = 'inconclusive'
        mon.counts['inconclusive:' + str(e)[:80]] = 1
    except Exception as e:
        tb = traceback.format_exc()
        mon.violations.append({'kind': 'raised', 'detail': {
            'error': f'{type(e).__name__}: {str(e)[:400]}', 'trace': tb[-2500:]}})
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    return {'status': status, 'counts': mon.counts, 'violations': mon.violations, 'sample': mon.sample,
            'key': mon.key, 'nontrivial': mon.nontrivial, 'cpu': round(time.process_time() - t0, 3)}


def worker_main(pid):
    import warnings
    warnings.simplefilter('ignore')
    out = os.fdopen(os.dup(1), 'w')
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)          # the code under test prints
    import sympkf
    root = os.path.realpath(REPO) + os.sep
    if not os.path.realpath(sympkf.__file__).startswith(root):
        raise SystemExit(f'wrong sympkf: {sympkf.__file__}')
    sys.setrecursionlimit(20000)
    mod = load(pid)
    out.write(json.dumps({'ready': True}) + '\n')
    out.flush()
    for line in sys.stdin:
        spec = json.loads(line)
        res = run_case(mod, spec)
        out.write(json.dumps(res) + '\n')
        out.flush()


def worker_env(hashseed, pyc, extra=None):
    env = {k: v for k, v in os.environ.items() if not k.startswith(('PYTHON', 'SYMPY'))}
    env.update(PYTHONPATH=os.path.join(REPO, 'src') + os.pathsep + VERIF, PYTHONHASHSEED=str(hashseed),
               PYTHONPYCACHEPREFIX=pyc, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', LANG='C.UTF-8',
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', SYMPKF_VERIF_REPO=REPO)
    env.update(extra or {})
    return env


class Worker:
    def __init__(self, pid, hashseed, pyc, cwd):
        self.pid, self.hashseed, self.pyc, self.cwd = pid, hashseed, pyc, cwd
        self.proc = None
        self.history = []

    def start(self):
        self.err = tempfile.TemporaryFile('w+')
        self.proc = subprocess.Popen([PY, '-B', '-W', 'ignore', '-c',
                                      f'from vt.runtime import worker_main; worker_main({self.pid!r})'],
                                     stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, text=True,
                                     cwd=self.cwd, env=worker_env(self.hashseed, self.pyc),
                                     start_new_session=True)
        self.history = []
        line = self.proc.stdout.readline()
        if not line:
            self.proc.wait()
            self.err.seek(0)
            raise RuntimeError('worker did not start: ' + self.err.read()[-3000:])

    def stop(self):
        if self.proc and self.proc.poll() is None:
            try:
                os.killpg(self.proc.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            self.proc.wait()

    def run(self, spec, wall):
        """one case, killed after `wall` seconds (inconclusive)"""
        if self.proc is None or self.proc.poll() is not None:
            self.start()
        timer = threading.Timer(wall, self.stop)
        timer.start()
        try:
            self.proc.stdin.write(json.dumps(spec) + '\n')
            self.proc.stdin.flush()
            line = self.proc.stdout.readline()
        except BrokenPipeError:
            line = ''
        finally:
            timer.cancel()
        if not line:
            self.stop()
            self.err.seek(0)
            return {'status': 'killed', 'counts': {}, 'violations': [], 'sample': None, 'key': None,
                    'nontrivial': False, 'cpu': 0, 'stderr': self.err.read()[-2000:]}
        self.history.append(spec)
        return json.loads(line)


def known_findings(pid):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return {}
    out = {}
    for f in json.load(open(path)):
        if f.get('property') == pid and f.get('status') == 'known':
            out[f['key']] = f
    return out


def hashseeds(seed):
    return [0] + [rng_for('hash', seed, k).randrange(1, 2 ** 31) for k in range(NWORK - 1)]


def run_check(pid, tier, seed):
    t0 = time.time()
    mod = load_meta(pid)
    specs = list(mod.cases(tier, seed))
    budget = getattr(mod, 'WALL', {'quick': 240, 'thorough': 3000})[tier]
    scratch = tempfile.mkdtemp(prefix='sympkf-verif-')
    pyc = os.path.join(scratch, 'pyc')
    results = [None] * len(specs)
    queues = [[i for i in range(len(specs)) if i % NWORK == w] for w in range(NWORK)]
    seeds = hashseeds(seed)
    harness_errors = []

    def loop(w):
        cwd = os.path.join(scratch, f'w{w}')
        os.makedirs(cwd, exist_ok=True)
        wk = Worker(pid, seeds[w], pyc, cwd)
        try:
            for i in queues[w]:
                if time.time() - t0 > budget and not specs[i].get('must'):
                    continue
                spec = specs[i]
                r = wk.run(spec, wall=6 * spec.get('cpu', 60) + 60)
                r['hashseed'] = seeds[w]
                r['history'] = len(wk.history)
                if r['violations']:
                    r['prior'] = list(wk.history[:-1])
                results[i] = r
        except Exception as e:
            harness_errors.append(f'{type(e).__name__}: {e}')
        finally:
            wk.stop()
    threads = [threading.Thread(target=loop, args=(w,)) for w in range(NWORK) if queues[w]]
    for th in threads:
        th.start()
    for th in threads:
        th.join()
    shutil.rmtree(scratch, ignore_errors=True)

    counts, keys, samples = {}, set(), []
    ran = timeouts = inconcl = 0
    violations, known_hit = [], {}
    known = known_findings(pid)
    for spec, r in zip(specs, results):
        if r is None:
            continue
        ran += 1
        if r['status'] == 'timeout':
            timeouts += 1
        if r['status'] in ('inconclusive', 'killed'):
            inconcl += 1
        for k, n in r['counts'].items():
            counts[k] = counts.get(k, 0) + n
        if r['nontrivial'] and r['status'] == 'ok':
            keys.add(r['key'])
            if r['sample'] and len(samples) < 6 and (len(samples) < 3 or hash(r['sample']) % 7 == 0):
                samples.append(r['sample'])
        for v in r['violations']:
            if spec.get('finding') and spec['finding'] in known and v['kind'] == spec['finding']:
                known_hit[spec['finding']] = v
            else:
                violations.append((spec, r, v))
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': ran, 'distinct_nontrivial': len(keys), 'rule': mod.RULE,
            'samples': samples or ['(none)'],
            'cases_planned': len(specs), 'cases_timed_out': timeouts, 'cases_inconclusive': inconcl,
            'monitor_events': counts,
            'interpreter_hash_seeds': len([q for q in queues if q]),
            'known_findings_reproduced': sorted(known_hit),
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
    }
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    with open(os.path.join(OUT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
    for key in sorted(known_hit):
        print(f'KNOWN-FINDING: property={pid} {known[key]["what"]}')
    print(f'{pid} tier={tier} seed={seed}: {ran}/{len(specs)} cases, {len(keys)} distinct, '
          f'{timeouts} timed out, {inconcl} inconclusive, {evidence["wall_s"]} s')
    slow = sorted(((r['cpu'], i) for i, r in enumerate(results) if r), reverse=True)[:4]
    print('   slowest:', '; '.join(f'{c} s {json.dumps(specs[i])[:150]}' for c, i in slow))
    for k in sorted(counts):
        print(f'   {k}: {counts[k]}')
    if violations:
        rep = os.path.join(OUT, 'replays')
        os.makedirs(rep, exist_ok=True)
        seen = set()
        for n, (spec, r, v) in enumerate(violations):
            if v['kind'] in seen and n > 0:
                continue
            seen.add(v['kind'])
            path = os.path.join(rep, f'{pid}-{tier}-{seed}-{n}.json')
            with open(path, 'w') as f:
                json.dump({'property': pid, 'spec': spec, 'hashseed': r['hashseed'], 'violation': v,
                           'prior': r.get('prior', [])}, f, indent=1)
            print(f'VIOLATION property={pid} replay={path}')
            print('   ', json.dumps(v)[:1800])
        return 1
    if harness_errors:
        print('INCONCLUSIVE: harness error', harness_errors[0])
        return 2
    need = getattr(mod, 'MIN', {})
    short = [f'{k}={counts.get(k, 0)}<{n}' for k, n in need.items() if counts.get(k, 0) < n]
    if short or not keys:
        print('INCONCLUSIVE: monitors observed too little:', ', '.join(short) or 'nothing')
        return 2
    print(f'HELD property={pid} on what was observed')
    return 0


def load_meta(pid):
    """the parent only needs `cases`, RULE, MIN: check modules import sympkf lazily"""
    sys.path.insert(0, VERIF)
    return load(pid)


def replay(path):
    d = json.load(open(path))
    scratch = tempfile.mkdtemp(prefix='sympkf-verif-')
    try:
        for prior in ([], d.get('prior', [])):
            wk = Worker(d['property'], d['hashseed'], os.path.join(scratch, 'pyc'), scratch)
            try:
                for s in prior:
                    wk.run(s, 600)
                r = wk.run(d['spec'], 600)
            finally:
                wk.stop()
            if r['violations']:
                print(json.dumps(r['violations'], indent=1))
                print(f'VIOLATION property={d["property"]} replay={path}')
                return 1
            if not d.get('prior'):
                break
        print('not reproduced:', r['status'])
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main(argv):
    if argv and argv[0] == '--replay':
        return replay(argv[1])
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    return run_check(pid, tier, seed)

"""Runner: generated cases -> oracle -> evidence / replay / VIOLATION lines."""
import hashlib
import ctypes
import importlib
import json
import multiprocessing
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
OUT = os.environ.get('VF_OUT', VERIF)                  # where evidence and replays go
FAILFAST = os.environ.get('VF_FAILFAST') == '1'        # for trials against planted bugs: stop at the first violation, do not shrink
HYP_DIRS = [os.path.join(VERIF, '.deps'), '/opt/veriftools/pyvenv/lib/python3.12/site-packages']


def bootstrap():
    """Make the working tree of /repo and Hypothesis importable."""
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    for d in HYP_DIRS:
        if os.path.isdir(os.path.join(d, 'hypothesis')) and d not in sys.path:
            sys.path.append(d)
            break
    import factorio_sat
    where = os.path.realpath(list(factorio_sat.__path__)[0])
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f'factorio_sat imported from {where}, not from {REPO}')


class Violation(Exception):
    """The code under test broke the property on this case."""


class Rec:
    """What one sub-check covered."""

    def __init__(self):
        self.evaluations = 0
        self.seen = set()
        self.samples = []
        self.events = {}

    def nontrivial(self, key, sample=None):
        h = hashlib.blake2b(repr(key).encode(), digest_size=10).digest()
        if h not in self.seen:
            self.seen.add(h)
            if len(self.samples) < 3:
                self.samples.append(sample if sample is not None else key)
            return True
        return False

    def event(self, label, n=1):
        self.events[label] = self.events.get(label, 0) + n


class Sub:
    """One generated check.

    gen: callable(tier) -> hypothesis strategy producing JSON-serialisable cases, or
    cases: callable(tier) -> iterable of JSON-serialisable cases (run in order, sharded).
    check: callable(case, rec) raising Violation.
    """

    def __init__(self, name, check, gen=None, cases=None, quick=100, thorough=1000, shards=1,
                 tshards=None, budget=150, tbudget=1500, hang=None):
        self.name = name
        self.check = check if hang is None else limited(check, hang)
        self.gen = gen
        self.cases = cases
        self.n = {'quick': quick, 'thorough': thorough}
        self.shards = {'quick': shards, 'thorough': tshards if tshards is not None else max(shards, 4)}
        self.budget = {'quick': budget, 'thorough': tbudget}


def limited(check, seconds):
    """For cases that take milliseconds: not coming to an end within this time is a violation."""
    def handler(*_):
        raise Violation(f'still running after {seconds} s of processor time')

    def run_limited(case, rec):
        old = signal.signal(signal.SIGPROF, handler)
        signal.setitimer(signal.ITIMER_PROF, seconds)  # of processor time: other load does not matter
        try:
            check(case, rec)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.signal(signal.SIGPROF, old)
    return run_limited


LIBC = ctypes.CDLL(None)


def die_with_parent():
    LIBC.prctl(1, int(signal.SIGKILL), 0, 0, 0)


MEMORY = 3 << 30


def in_repo(tb):
    root = os.path.realpath(REPO) + os.sep
    for frame, _ in traceback.walk_tb(tb):
        if os.path.realpath(frame.f_code.co_filename).startswith(root):
            return True
    return False


# An exception that comes out of the code under test, on an input inside the property's domain, is a
# failure of the property; an exception raised by the harness itself is an error of the check.
def classify(exc):
    if isinstance(exc, Violation):
        return 'violation', str(exc)
    if type(exc).__name__ == 'Timeout':  # of tools.run, where the check does not expect one
        return 'violation', 'the tool did not come to an end'
    if isinstance(exc, KeyboardInterrupt):
        return 'error', repr(exc)
    if isinstance(exc, MemoryError):
        return 'violation', f'needs more than {MEMORY >> 30} GB of memory'
    if in_repo(exc.__traceback__):
        last = traceback.format_exception(type(exc), exc, exc.__traceback__)[-3:]
        return 'violation', 'unexpected exception: ' + ''.join(last).strip()
    if uninterpretable(exc):
        last = traceback.format_exception(type(exc), exc, exc.__traceback__)[-3:]
        return 'violation', 'the result cannot be interpreted: ' + ''.join(last).strip()
    return 'error', ''.join(traceback.format_exception(type(exc), exc, exc.__traceback__))


def uninterpretable(exc):
    """An exception of the harness while reading what the code under test returned or printed: malformed output.

    Names that are gone and calls that do not fit (a change of internal interfaces) are errors of the check."""
    if isinstance(exc, TypeError):
        return 'argument' not in str(exc)
    if isinstance(exc, AttributeError):
        return not isinstance(exc.obj, (type, type(os)))
    return isinstance(exc, (ValueError, LookupError, ArithmeticError, AssertionError, zlib.error, EOFError))


class Failed(Exception):
    pass


def _child(mod_name, sub_index, shard, shards, tier, seed, out_path, t_limit):
    die_with_parent()
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    rec = Rec()
    res = {'name': '', 'violation': None, 'error': None, 'timeout': False}
    try:
        mod = importlib.import_module(mod_name)
        sub = mod.SUBS[sub_index]
        res['name'] = sub.name
        t_end = time.time() + t_limit
        best = {}

        def note(case, kind, msg, tb_exc):
            if kind == 'error':
                res['error'] = f'{msg}\ncase: {json.dumps(case)[:2000]}'
                raise tb_exc
            size = len(json.dumps(case))
            if 'size' not in best or size <= best['size']:
                best.update(size=size, case=case, msg=msg)
                with open(out_path + '.best', 'w') as f:
                    json.dump({'sub': sub.name, 'case': case, 'msg': msg}, f)

        cur = open(out_path + '.cur', 'w')

        def mark(case):
            cur.seek(0)
            cur.truncate()
            json.dump({'sub': sub.name, 'case': case, 'msg': 'the process died while running this case'}, cur)
            cur.flush()

        if sub.cases is not None:
            for i, case in enumerate(sub.cases(tier)):
                if i % shards != shard:
                    continue
                if time.time() > t_end:
                    res['timeout'] = True
                    break
                rec.evaluations += 1
                mark(case)
                try:
                    sub.check(case, rec)
                except Exception as exc:
                    kind, msg = classify(exc)
                    note(case, kind, msg, exc)
                    break
        else:
            import hypothesis
            from hypothesis import HealthCheck, Phase, settings

            first_fail = []

            def body(case):
                now = time.time()
                if now > t_end:
                    res['timeout'] = True
                    return
                if first_fail and now > first_fail[0] + 45:
                    return
                if not first_fail:
                    rec.evaluations += 1
                mark(case)
                try:
                    sub.check(case, rec)
                except (hypothesis.errors.UnsatisfiedAssumption, hypothesis.errors.StopTest):
                    raise
                except Exception as exc:
                    kind, msg = classify(exc)
                    if not first_fail:
                        first_fail.append(now)
                    note(case, kind, msg, exc)
                    raise Failed(msg)

            n = max(1, -(-sub.n[tier] // shards))
            test = hypothesis.given(sub.gen(tier))(body)
            test = settings(max_examples=n, deadline=None, database=None, derandomize=False,
                            suppress_health_check=list(HealthCheck), print_blob=False,
                            report_multiple_bugs=False,
                            phases=(Phase.generate,) if FAILFAST else (Phase.generate, Phase.shrink))(test)
            test = hypothesis.seed(seed * 1000003 + sub_index * 1009 + shard)(test)
            try:
                test()
            except BaseException:
                if not first_fail or res['error']:
                    raise
        if best:
            res['violation'] = {'sub': sub.name, 'case': best['case'], 'msg': best['msg']}
    except BaseException as exc:
        if not res['error']:
            res['error'] = ''.join(traceback.format_exception(type(exc), exc, exc.__traceback__))
    res.update(evaluations=rec.evaluations, seen=[h.hex() for h in rec.seen], samples=rec.samples,
               events=rec.events)
    tmp = out_path + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(res, f, default=str)
    os.replace(tmp, out_path)


def run(prop, tier, seed):
    t0 = time.time()
    mod_name = 'vf.props.' + prop.lower()
    mod = importlib.import_module(mod_name)
    scratch = tempfile.mkdtemp(prefix=f'vf-{prop}-')
    os.environ['TMPDIR'] = scratch
    tempfile.tempdir = scratch
    ctx = multiprocessing.get_context('fork')
    jobs = []
    for i, sub in enumerate(mod.SUBS):
        shards = sub.shards[tier]
        for s in range(shards):
            jobs.append((i, s, shards, sub.budget[tier]))
    jobs.sort(key=lambda j: -j[3])
    running, results, timeouts = [], [], 0
    hard_total = 780 if tier == 'quick' else 6 * 3600
    devnull = open(os.devnull, 'w')
    try:
        while (jobs or running) and not (FAILFAST and any(r['violation'] for r in results)):
            while jobs and len(running) < int(os.environ.get('VF_JOBS', '8')):
                i, s, shards, budget = jobs.pop(0)
                left = hard_total - (time.time() - t0)
                if left < 5:
                    timeouts += 1
                    continue
                limit = min(budget, left)
                out = os.path.join(scratch, f'res-{i}-{s}.json')
                p = ctx.Process(target=_child, args=(mod_name, i, s, shards, tier, seed, out, limit))
                p.start()
                running.append((p, out, time.time() + limit + 75, mod.SUBS[i].name))
            time.sleep(0.02)
            for item in list(running):
                p, out, kill_at, name = item
                if p.is_alive() and time.time() < min(kill_at, t0 + hard_total + 60):
                    continue
                killed = p.is_alive()
                if killed:
                    p.kill()
                p.join()
                running.remove(item)
                if os.path.exists(out):
                    with open(out) as f:
                        results.append(json.load(f))
                elif os.path.exists(out + '.best'):
                    with open(out + '.best') as f:
                        v = json.load(f)
                    results.append({'name': v['sub'], 'violation': v, 'error': None, 'timeout': True,
                                    'evaluations': 1, 'seen': [], 'samples': [], 'events': {}})
                elif killed:
                    timeouts += 1
                elif p.exitcode in (-4, -6, -8, -11) and os.path.exists(out + '.cur'):
                    with open(out + '.cur') as f:
                        v = json.load(f)
                    results.append({'name': name, 'violation': v, 'error': None, 'timeout': False,
                                    'evaluations': 1, 'seen': [], 'samples': [], 'events': {}})
                else:
                    results.append({'name': name, 'violation': None,
                                    'error': f'worker died with exit code {p.exitcode}',
                                    'timeout': False, 'evaluations': 0, 'seen': [], 'samples': [],
                                    'events': {}})
    finally:
        for item in running:
            item[0].kill()
        devnull.close()
        shutil.rmtree(scratch, ignore_errors=True)

    violations = [r['violation'] for r in results if r['violation']]
    errors = [r['error'] for r in results if r['error']]
    per_sub = {}
    seen = set()
    samples = []
    for r in sorted(results, key=lambda r: r['name']):
        d = per_sub.setdefault(r['name'], {'evaluations': 0, 'distinct_nontrivial': set(), 'events': {}, 'timeout': False})
        d['evaluations'] += r['evaluations']
        d['timeout'] = d['timeout'] or r['timeout']
        keys = {r['name'] + h for h in r['seen']}
        d['distinct_nontrivial'] |= keys
        seen |= keys
        for k, v in r['events'].items():
            d['events'][k] = d['events'].get(k, 0) + v
        if r['samples'] and sum(s['sub'] == r['name'] for s in samples) == 0:
            samples.append({'sub': r['name'], 'case': r['samples'][0]})
    for d in per_sub.values():
        d['distinct_nontrivial'] = len(d['distinct_nontrivial'])
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'exploration'),
        'coverage': {
            'evaluations': sum(r['evaluations'] for r in results),
            'distinct_nontrivial': len(seen),
            'rule': mod.RULE,
            'samples': samples,
            'sub_checks': per_sub,
            'workers_timed_out': timeouts,
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
    }
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    with open(os.path.join(OUT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, default=str)

    for line in getattr(mod, 'KNOWN', []):
        print(f'KNOWN-FINDING: property={prop} {line}')
    if violations:
        os.makedirs(os.path.join(OUT, 'replays'), exist_ok=True)
        done = set()
        for v in violations:
            if v['sub'] in done:
                continue
            done.add(v['sub'])
            path = os.path.join(OUT, 'replays', f"{prop}-{v['sub']}.json")
            with open(path, 'w') as f:
                json.dump({'property': prop, 'sub': v['sub'], 'case': v['case'], 'msg': v['msg'], 'seed': seed}, f, indent=1)
            print(f"# {v['sub']}: {v['msg'][:1500]}")
            print(f'VIOLATION property={prop} replay={path}')
        return 1
    if errors:
        for e in errors[:3]:
            print('CHECK ERROR', e[:4000])
        return 2
    print(f"{prop}: held on {evidence['coverage']['evaluations']} cases, {len(seen)} distinct non-trivial, {evidence['wall_s']} s" + (f', {timeouts} workers timed out' if timeouts else ''))
    return 0


def replay(path):
    with open(path) as f:
        r = json.load(f)
    mod = importlib.import_module('vf.props.' + r['property'].lower())
    sub = next(s for s in mod.SUBS if s.name == r['sub'])
    scratch = tempfile.mkdtemp(prefix='vf-replay-')
    tempfile.tempdir = scratch
    os.environ['TMPDIR'] = scratch
    try:
        sub.check(r['case'], Rec())
    except Exception as exc:
        kind, msg = classify(exc)
        if kind == 'error':
            print(msg)
            return 2
        print('#', msg)
        print(f"VIOLATION property={r['property']} replay={path}")
        return 1
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    print('replay passes')
    return 0


def selftest():
    """Everything the checks need is importable, from the working tree."""
    import hypothesis
    import pysat
    import factorio_sat.solver
    import factorio_sat.belt_balancer
    for f in sorted(os.listdir(os.path.join(VERIF, 'vf', 'props'))):
        if f.endswith('.py') and f != '__init__.py':
            importlib.import_module('vf.props.' + f[:-3])
    print('hypothesis', hypothesis.__version__, 'ready')
    return 0

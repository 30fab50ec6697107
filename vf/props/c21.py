import functools
import json
import os
import subprocess
import sys
import tempfile

from hypothesis import strategies as st

from .. import core, optdb, tools
from ..core import Sub, Violation

RULE = ('A case is a set of networks with answers and a history of compute runs, each stopped (killed before or after an '
        'operation on the database directory, a write cut in half, an interrupt) or failing (one operation, or the disk '
        'full) at a generated operation, and a final undisturbed run. Non-trivial: at least one run was stopped or '
        'failed while saving; distinct by networks, history and position.')
ASSUMPTIONS = ['Stopping means that the process ends; data the process has handed to the system is kept (no power loss).',
               'A result counts as recorded by a finished save when the search has gone on to ask the next question '
               'about the same network.']

LEVEL = 'fault_enumeration'


@functools.lru_cache(None)
def server():
    d = tempfile.mkdtemp(prefix='shim-')
    so = os.path.join(d, 'crash.so')
    subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-w', '-U_FORTIFY_SOURCE', '-o', so,
                    os.path.join(core.VERIF, 'vf', 'crash.c'), '-ldl'], check=True)
    env = dict(os.environ, LD_PRELOAD=so)
    p = subprocess.Popen([sys.executable, os.path.join(core.VERIF, 'vf', 'crashd.py')], stdin=subprocess.PIPE,
                         stdout=subprocess.PIPE, text=True, env=env)
    return p


@st.composite
def histories(draw):
    nets = draw(optdb.problems(2))
    runs = draw(st.lists(st.fixed_dictionaries({
        'u': st.integers(3, 9), 'objective': st.sampled_from(['area', 'length']),
        'mode': st.sampled_from(['kill', 'torn', 'torn', 'fail', 'full', 'interrupt']),
        'k': st.integers(0, 40)}), min_size=1, max_size=3))
    away = {name: {k: n[k] for k in ('text', 'truth', 'facts')} for name, n in draw(optdb.problems(2)).items()
            if name not in nets} if draw(st.booleans()) else {}
    return {'nets': nets, 'runs': runs, 'db': draw(st.sampled_from(['missing', 'given', 'given', 'empty'])), 'away': away}


def faulted(world, run):
    for suffix in ('', '.at', '.out', '.err'):
        if os.path.exists(world.log + suffix):
            os.unlink(world.log + suffix)
    p = server()
    p.stdin.write(json.dumps({'nets': world.nets, 'by_key': world.by_key, 'log': world.log, 'cwd': world.s.join('work'),
                              'argv': world.argv + ['compute', str(run['u']), run['objective'], '--threads', '1'],
                              'k': run['k'], 'mode': run['mode'], 'timeout': 20}) + '\n')
    p.stdin.flush()
    line = p.stdout.readline()
    if not line:
        raise RuntimeError('the crash server died')
    reply = json.loads(line)
    at = None
    if os.path.exists(world.log + '.at'):
        with open(world.log + '.at') as f:
            at = int(f.read().split()[0])
    if reply['status'] is None:
        reply['hung'] = True
    elif at is None and reply['status'] != 0:
        err = ''
        if os.path.exists(world.log + '.err'):
            with open(world.log + '.err') as f:
                err = f.read()[-1500:]
        raise Violation(f'compute failed without a fault: {err}')
    return reply, at


def saved(world, before, at):
    """Answers that a finished save recorded before the fault: all but the last per network."""
    calls = []
    try:
        with open(world.log) as f:
            text = f.read()
    except FileNotFoundError:
        text = ''
    if at is not None:
        text = text[:at]
    for line in text.splitlines():
        name, size = json.loads(line)
        calls.append((name, tuple(size)))
    done = []
    for i, (name, size) in enumerate(calls):
        if at is None or any(n == name for n, _ in calls[i + 1:]):
            done.append((name, size))
    return calls, done


def check(c, rec):
    if not c['nets']:
        return
    with tools.Scratch() as s:
        db = optdb.database(c['nets']) if c['db'] == 'given' else {}
        # results of networks whose files are elsewhere for now
        away = {name: d for name, d in optdb.database(c.get('away', {})).items() if c['db'] == 'given' and name not in c['nets']}
        db.update(away)
        world = optdb.World(s, c['nets'], None if c['db'] == 'missing' else db)
        faults = 0
        known = {n: (dict(e), set(so)) for n, (e, so) in optdb.parse(db).items()}
        for i, run in enumerate(c['runs']):
            reply, at = faulted(world, run)
            if reply.get('hung'):
                rec.event('run did not end after the fault (stopped by the harness)')
            calls, done = saved(world, known, at)
            if at is not None:
                faults += 1
                rec.event(run['mode'])
            else:
                rec.event('finished before the fault')
            must_exist = any(done) or (i == 0 and c['db'] != 'missing') or any(e for e, _ in known.values())
            if must_exist and not os.path.exists(world.path):
                raise Violation(f'the database is gone after {run}')
            after = world.read()
            for name, d in away.items():
                if after.get(name) != optdb.parse({name: d})[name]:
                    raise Violation(f'{name}: the results of a network that is not in the folder are lost or changed after {run}')
                rec.event('results of an absent network kept')
            for name, n in world.nets.items():
                e, so = known.setdefault(name, ({}, set()))
                for nm, size in done:
                    if nm == name:
                        e[size] = optdb.holds(n['truth'], size)
                        if e[size]:
                            so.add(size)
                exist, sols = after.get(name, ({}, {}))
                for size, v in exist.items():
                    if v != optdb.holds(n['truth'], size):
                        raise Violation(f'{name}: the database says {v} for {size} after {run}')
                for size in optdb.box(world.nets, list(e)):
                    want = optdb.infer(e, size)
                    if want is not None and optdb.infer(exist, size) != want:
                        raise Violation(f'{name}: the answer {want} for {size}, recorded by a finished save, is lost after {run}')
                if not so <= set(sols) or any(sols[z] != optdb.solution(optdb.Net(n['text']).key, z) for z in sols):
                    raise Violation(f'{name}: a solution recorded by a finished save is lost or changed after {run}')
                e.update(exist)
                so |= set(sols)
        from . import c20
        last = c['runs'][-1]
        again = c20.compute(world, {'u': last['u'], 'objective': last['objective'], 'threads': 1})
        c20.query(world, {'op': 'query', 'u': last['u'], 'objective': last['objective'], 'imperfect': False, 'blueprints': False}, True)
        rec.event('questions left for the final run', len(again))
        if faults:
            rec.nontrivial(c, {'truth': {k: v['truth'] for k, v in c['nets'].items()}, 'runs': c['runs'], 'database': c['db']})


def check_missing(c, rec):
    """A missing database, an empty one and one that lacks this network mean the same."""
    if not c['nets']:
        return
    seen = []
    for db in (None, {}, {'other': {'exist': {}, 'solutions': {}}}, {next(iter(c['nets'])): {}}):
        with tools.Scratch() as s:
            world = optdb.World(s, c['nets'], db)
            q = ['query', c['u'], c['objective'], '--allow-imperfect']
            first = tools.need_ok(world.run(q), 'calculate_optimal query').out
            tools.need_ok(world.run(['compute', c['u'], c['objective'], '--threads', 1]), 'calculate_optimal compute')
            calls = sorted(world.calls())
            last = tools.need_ok(world.run(q), 'calculate_optimal query').out
            seen.append((first, calls, last))
    if any(x != seen[0] for x in seen) or seen[0][0]:
        raise Violation('a missing database does not behave like an empty one')
    if len(seen[0][1]) >= 2:
        rec.nontrivial(c)


def every(tier):
    """Every file operation of two small searches, in every way of failing."""
    a = {'3x2': {'text': '0 0 1 2\n1 0 2 2\n', 'truth': [[2, 6, 3]], 'facts': [[4, 9, 3], [4, 4, 3]]}}
    b = {'2x2': {'text': '0 0 2 2\n', 'truth': [[3, 4, 2]], 'facts': []}, '4x4': {'text': '0 0 1 1\n1 1 2 2\n0 0 2 2\n', 'truth': [[1, 5, 4]], 'facts': []}}
    away = {'5x5': {'text': '0 0 1 1\n1 1 2 2\n', 'truth': [[2, 5, 5]], 'facts': [[4, 6, 5], [4, 4, 5]]}}
    for k in range(45 if tier == 'quick' else 120):
        for mode in ('kill', 'torn', 'fail', 'full', 'interrupt'):
            yield {'nets': a, 'runs': [{'u': 4, 'objective': 'length', 'mode': mode, 'k': k}], 'db': 'given', 'away': away if k % 3 == 0 else {}}
            if tier != 'quick' or k % 2:
                yield {'nets': b, 'runs': [{'u': 5, 'objective': 'area', 'mode': mode, 'k': k}], 'db': 'missing'}


SUBS = [
    Sub('every', check, cases=every, shards=4, tshards=8, budget=250),
    Sub('crash', check, gen=lambda tier: histories(), quick=500, thorough=15000, shards=7, tshards=8, budget=250),
    Sub('missing', check_missing, gen=lambda tier: st.fixed_dictionaries({
        'nets': optdb.problems(2), 'u': st.integers(3, 9), 'objective': st.sampled_from(['area', 'length'])}), quick=40, thorough=800),
]

import json
import os

from hypothesis import strategies as st

from .. import balancer, conv, corpus, optdb, tools
from ..core import REPO, Sub, Violation

RULE = ('A case is a set of networks, for each a monotone pattern of the sizes that admit a balancer and some earlier '
        'answers, and a history of compute and query runs of the command line tool with a stand-in for the SAT search. '
        'Non-trivial: a run asked at least two questions; distinct by networks, patterns and history. The "real" '
        'cases run the real search on shipped networks.')
ASSUMPTIONS = ['Admissible sizes are those the tool considers: height from max(inputs, outputs) (for length: exactly '
               'that, for area: up to twice that), interior area of at least two tiles per splitter.',
               'A balancer exists at the minimum height with at most the requested underground length (otherwise the '
               'search has no end).']
REAL_KNOWN = {(name, u, w, h): f'the search rejects width {w} for {name} at underground length {u}, where a balancer exists'
              for name, us, w, h in [('3x1', (2, 3, 4, 6), 8, 3), ('3x2', (6,), 10, 3), ('4x3', (4, 6), 11, 4), ('4x4', (3, 4, 6), 9, 4),
                                     ('5x1', (1, 2, 3, 4, 6), 8, 5), ('6x1', (1, 2, 3, 4, 6), 6, 6)] for u in us}
KNOWN = list(REAL_KNOWN.values())


@st.composite
def histories(draw):
    nets = draw(optdb.problems())
    ops = draw(st.lists(st.one_of(
        st.fixed_dictionaries({'op': st.just('compute'), 'u': st.integers(3, 9), 'objective': st.sampled_from(['area', 'length']), 'threads': st.sampled_from([1, 1, 2, 3])}),
        st.fixed_dictionaries({'op': st.just('query'), 'u': st.integers(1, 9), 'objective': st.sampled_from(['area', 'length']), 'imperfect': st.booleans(), 'blueprints': st.booleans()}),
    ), min_size=1, max_size=4))
    out = []
    for op in ops:
        out.append(op)
        if op['op'] == 'compute':
            out.append({'op': 'query', 'u': op['u'], 'objective': op['objective'], 'imperfect': False, 'blueprints': False})
    return {'nets': nets, 'ops': out}


def compute(world, op):
    before = world.read()
    res = world.run(['compute', op['u'], op['objective'], '--threads', op['threads']])
    calls = world.calls()
    if len(calls) > 1500:
        raise Violation('compute asks without end')
    tools.need_ok(res, 'calculate_optimal compute')
    known = {name: dict(before.get(name, ({}, {}))[0]) for name in world.nets}
    for name, size in calls:
        net = optdb.Net(world.nets[name]['text'])
        if size[0] != op['u']:
            raise Violation(f"{name}: asked about underground length {size[0]} in a search for {op['u']}")
        if not net.admissible(op['objective'], size[1], size[2]):
            raise Violation(f'{name}: tried the inadmissible size {size}')
        if optdb.infer(known[name], size) is not None:
            raise Violation(f'{name}: tried {size}, which is already decided')
        known[name][size] = optdb.holds(world.nets[name]['truth'], size)
    after = optdb.check_database(world, before, calls)
    for name, n in world.nets.items():
        net = optdb.Net(n['text'])
        best = optdb.true_best(net, n['truth'], op['objective'], op['u'])
        found = [optdb.loss(op['objective'], w, h) for (u, w, h) in after.get(name, ({}, {}))[1] if u <= op['u']]
        if not found or min(found) > best:
            raise Violation(f"{name}: best {op['objective']} is {best}, found {min(found) if found else None}")
    return calls


def query(world, op, after_compute):
    with open(world.path, 'rb') if world_has(world) else open('/dev/null', 'rb') as f:
        raw = f.read()
    data = world.read()
    argv = ['query', op['u'], op['objective']] + ['--allow-imperfect'] * op['imperfect'] + ['--export-blueprints'] * op['blueprints']
    res = tools.need_ok(world.run(argv), 'calculate_optimal query')
    if world.calls():
        raise Violation('a query started a search')
    if world_has(world):
        with open(world.path, 'rb') as f:
            if f.read() != raw:
                raise Violation('a query changed the database')
    expect = []          # (name, must, acceptable solutions)
    for name in sorted(world.nets, key=optdb.order_key):
        n = world.nets[name]
        net = optdb.Net(n['text'])
        exist, sols = data.get(name, ({}, {}))
        usable = [(optdb.loss(op['objective'], s[1], s[2]), s) for s in sols if s[0] <= op['u']]
        if not usable:
            continue
        low = min(usable)[0]
        good = [s for l, s in usable if l == low]
        if op['imperfect']:
            expect.append((name, True, good))
            continue
        limit = max(s[1] for s in list(exist) + [(0, 3, 0)]) * 3 + 12
        status = optdb.status(net, exist, op['objective'], op['u'], limit)
        if status[0] == 'open':
            continue
        best = optdb.true_best(net, n['truth'], op['objective'], op['u'])
        if low > best:
            raise Violation(f'{name}: the database shows {low} as best, but {best} is possible')
        expect.append((name, status[2] or after_compute, good))
    lines = res.lines
    i = 0
    for name, must, good in expect:
        ok = i < len(lines) and any(same(lines[i], name, world.nets[name], s, op) for s in good)
        if ok:
            i += 1
        elif must:
            raise Violation(f"{name}: query {op} should print the solution of {good}, line {i} is {describe(lines[i], op) if i < len(lines) else 'missing'}")
    if i != len(lines):
        raise Violation(f"query {op} printed {describe(lines[i], op)}, expected only {[(n, g) for n, _, g in expect]}")
    return len(lines)


def world_has(world):
    return os.path.exists(world.path)


def describe(line, op):
    try:
        if op['blueprints']:
            b = corpus.decode(line)['blueprint']
            return f"a blueprint {b.get('label')!r} with {len(b['entities'])} entities"
        return f"a solution of {json.loads(line)[0][0].get('mark')}"
    except Exception:
        return line[:80]


def same(line, name, n, size, op):
    want = optdb.solution(optdb.Net(n['text']).key, size)
    if not op['blueprints']:
        try:
            return json.loads(line) == want
        except ValueError:
            return False
    b = corpus.decode(line)['blueprint']
    label = ' to '.join(name.split('x'))
    prefix = next((p for length, _, p in optdb.LEVELS if op['u'] <= length), 'express-')
    rows = corpus.entities_to_rows(b['entities'])
    return (b.get('label') == label and {e['name'] for e in b['entities']} == {prefix + 'transport-belt'}
            and len(rows) == size[2] and all(len(r) == size[1] for r in rows)
            and all(t is not None and t[0] == 'belt' for r in rows for t in r))


def check_history(c, rec):
    if not c['nets']:
        return
    with tools.Scratch() as s:
        db = optdb.database(c['nets'])
        world = optdb.World(s, c['nets'], db if db else None)
        asked, done = 0, set()
        for i, op in enumerate(c['ops']):
            if op['op'] == 'compute':
                n = len(compute(world, op))
                asked = max(asked, n)
                rec.event('questions asked', n)
                done.add((op['u'], op['objective']))
            else:
                printed = query(world, op, (op['u'], op['objective']) in done)
                rec.event('query printed something' if printed else 'query printed nothing')
        if asked >= 2:
            rec.nontrivial(c, {'nets': {k: {'truth': v['truth'], 'earlier answers': v['facts']} for k, v in c['nets'].items()}, 'ops': c['ops']})


REAL = [(n, u, w, h) for n, sizes in {
    '1x2': [(3, 2), (4, 2), (3, 4)], '2x1': [(3, 2), (4, 3)], '2x2': [(3, 2), (3, 3)], '1x4': [(4, 4), (5, 4)], '4x1': [(4, 4), (5, 4)],
    '1x3': [(4, 3), (5, 3), (6, 3), (7, 3), (8, 3), (4, 4), (5, 4)], '3x1': [(5, 3), (6, 3), (7, 3), (8, 3), (9, 3), (6, 4)],
    '2x3': [(6, 3), (7, 3), (8, 3), (6, 4)], '3x2': [(6, 3), (7, 3), (8, 3), (9, 3)], '2x4': [(4, 4), (5, 4)], '4x2': [(4, 4), (5, 4)],
    '4x4': [(5, 4), (6, 4), (7, 4), (9, 4)]}.items() for w, h in sizes for u in (1, 2, 4)]
# Sizes (width, height) at which the search finds a balancer and no smaller size of the scan has one, with the underground lengths:
# here a search that rejects too much shows first.
SMALLEST = {
    '1x2': {(3, 2): (1, 2, 3, 4, 6)},
    '1x3': {(6, 4): (1, 2, 3, 4, 6), (9, 3): (2, 3, 4, 6)},
    '1x4': {(4, 4): (1, 2, 3, 4, 6)},
    '1x5': {(8, 5): (1, 2, 3, 4, 6)},
    '1x6': {(6, 6): (1, 2, 3, 4, 6)},
    '2x1': {(3, 2): (1, 2, 3, 4, 6)},
    '2x2': {(3, 2): (1, 2, 3, 4, 6)},
    '2x3': {(7, 5): (1, 2, 3, 4, 6), (8, 4): (2, 3, 4, 6), (11, 3): (6,)},
    '2x4': {(4, 4): (1, 2, 3, 4, 6)},
    '3x1': {(6, 5): (1, 2, 3, 4, 6), (7, 4): (1, 2, 3, 4, 6), (9, 3): (2, 3, 4, 6)},
    '3x2': {(8, 4): (2, 3, 4, 6), (8, 5): (1,), (11, 3): (6,)},
    '3x3': {(10, 4): (4, 6)},
    '4x1': {(4, 4): (1, 2, 3, 4, 6)},
    '4x2': {(4, 4): (1, 2, 3, 4, 6)},
    '4x4': {(10, 4): (3, 4, 6)},
    '6x1': {(7, 6): (1, 2, 3, 4, 6)},
    '6x2': {(7, 6): (1, 2, 3, 4, 6)},
}
REAL += [(n, u, w, h) for n, sizes in SMALLEST.items() for (w, h), us in sizes.items() for u in us if (n, u, w, h) not in REAL]
REAL += [c for c in REAL_KNOWN if c not in REAL]


def check_real(c, rec):
    """The search itself, on shipped networks: right answers, and no size rejected that is possible."""
    from factorio_sat import calculate_optimal, network
    name, u, w, h = c
    if not hasattr(calculate_optimal, 'solve_balancer'):
        rec.event('skipped: the search function has another name')
        return
    path = os.path.join(REPO, 'networks', name)
    net = corpus.read_network(path)

    def search():
        r = calculate_optimal.solve_balancer(network.open_network(path), (u, w, h), 'g4')
        return r

    try:
        found = tools.forked(search, 100)
        if found is not None:
            rows = conv.rows_of_solution(found)
            bad = balancer.problem(rows, net, w, h, u, 'aligned')
            if bad:
                raise Violation(f'{name}: the search for {(u, w, h)} returned a wrong layout: {bad}')
            rec.event('found')
            rec.nontrivial(c)
            return
        res = tools.need_ok(tools.run('belt_balancer', [path, w, h, '--aligned', '--underground-length', u, '--solver', 'g4'], timeout=100), 'belt_balancer')
    except tools.Timeout:
        rec.event('inconclusive (time)')
        return
    possible = bool(res.lines)
    if possible and tuple(c) not in REAL_KNOWN:
        raise Violation(f'{name}: the search rejects {(u, w, h)}, but a balancer of that size exists')
    rec.event('rejected though possible (known)' if possible else 'rejected, rightly')
    rec.nontrivial(c)


SUBS = [
    Sub('real', check_real, cases=lambda tier: REAL, shards=4, budget=250),
    Sub('history', check_history, gen=lambda tier: histories(), quick=1500, thorough=12000, shards=6, tshards=8, budget=250, hang=60),
]

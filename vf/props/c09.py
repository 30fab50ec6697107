import functools
import json
import random

from hypothesis import strategies as st

from .. import conv, corpus, phys, tools
from ..core import Sub, Violation
from ..phys import EMPTY

RULE = ('A case is a request to one of the four tools with --partial together with a partial layout: some tiles of one of '
        'the layouts the request has without --partial, sometimes with a tile changed, moved or marked as occupied by '
        'something else, written as a blueprint string or as solver output (full size, cropped, current or older cells). '
        'The layouts printed with --partial --all are compared with those printed without it that contain the partial. '
        'Non-trivial: the partial has at least one tile and excludes or keeps at least one layout; distinct by case.')
ASSUMPTIONS = ['A tile marked as occupied (filler) is an area the result leaves empty.',
               'The partial lies within the requested area.',
               'A blueprint has no place of its own: its occupied rectangle starts at the top left tile.']

NETS = {
    '2-2': '0 0 1 1\n', '1-2': '0 -1 1 1\n', '2-1': '0 0 1 -1\n', '4-4': '0 0 1 2\n0 0 1 2\n1 1 3 3\n2 2 3 3\n',
    '1-4': '0 -1 1 1\n1 -1 2 2\n1 -1 2 2\n', '3-3': '0 0 1 3\n1 0 3 3\n', 'loop': '0 1 1 2\n',
}
REQUESTS = [
    *(('belt_balancer', n, a) for n, a in (
        ('2-2', [3, 2]), ('2-2', [4, 3]), ('2-2', [5, 3]), ('2-2', [5, 3, '--use-ends']), ('1-2', [5, 3]), ('2-2', [6, 3]), ('1-2', [6, 3]),
        ('2-2', [5, 4]), ('2-2', [5, 4, '--use-ends']), ('2-2', [4, 4, '--use-ends']), ('1-2', [4, 4]), ('2-2', [4, 4, '--90']),
        ('2-2', [5, 4, '--90', '--use-ends']), ('2-2', [3, 5, '--180']), ('1-2', [4, 4, '--180']), ('2-2', [3, 2, '--custom', '--underground-length=1']),
        ('2-2', [3, 3, '--custom']), ('4-4', [8, 4]), ('4-4', [7, 5, '--fast']), ('1-4', [5, 4]), ('3-3', [6, 3]), ('3-3', [6, 4, '--expand-underground']),
        ('loop', [5, 4]), ('2-2', [3, 4, '--edge-splitters']), ('2-2', [3, 4, '--edge-belts']), ('2-1', [4, 3, '--underground-length=2']),
        ('2-2', [6, 3, '--prevent-bad-patterns', '--break-symmetry']), ('2-1', [5, 4, '--underground-length=-1', '--aligned']))),
    *(('belt_balancer_net_free', None, a) for a in ([3, 4, 2, 2], [4, 3, 2, 1], [5, 4, 1, 2], [5, 4, 2, 2], [6, 4, 1, 4], [5, 4, 2, 1, '--aligned'], [5, 3, 1, 2, '--underground-length=1'])),
    *(('belt_balancer_net_free_power_of_2', None, a) for a in ([8, 4], [9, 4], [9, 4, '--underground-length=2'])),
    *(('interchange', None, a) for a in ([6, 2], [6, 4], [7, 4], [7, 4, '--alternating'], [8, 4, '--alternating'], [9, 4, '--rot-symmetry'], [7, 4, '--underground-length=3'])),
]
LIMIT = 4000


@functools.lru_cache(None)
def unconstrained(i):
    """All layouts of request i (reference rows), or None if there are too many."""
    tool, net, argv = REQUESTS[i]
    with tools.Scratch() as s:
        full = ([s.file('net', NETS[net])] if net else []) + argv
        try:
            r = tools.run(tool, full + ['--all'], timeout=60, max_lines=LIMIT)
        except tools.Timeout:
            return None
    if r.exc == 'Enough':
        return None
    tools.need_ok(r, tool)
    return [(conv.tup(conv.rows_of_solution(json.loads(l))), l) for l in r.lines]


@st.composite
def cases(draw):
    return {'req': draw(st.sampled_from(range(len(REQUESTS)))), 'pick': draw(st.integers(0, 10 ** 6)), 'keep': draw(st.sampled_from([5, 15, 30, 50, 80, 100])),
            'seed': draw(st.integers(0, 10 ** 6)), 'form': draw(st.sampled_from(['blueprint', 'blueprint', 'plain', 'crop', 'solver', 'old'])),
            'change': draw(st.sampled_from(['', '', '', 'tile', 'filler', 'shift'])), 'newline': draw(st.booleans())}


FACTORIO = {1: 0, 0: 2, 3: 4, 2: 6}


def entities(rows):
    res = []
    for y, row in enumerate(rows):
        for x, t in enumerate(row):
            p = {'x': x + 0.5, 'y': y + 0.5}
            if t[0] == 'belt':
                res.append({'name': 'transport-belt', 'position': p, 'direction': FACTORIO[t[2]]})
            elif t[0] == 'ug':
                res.append({'name': 'underground-belt', 'position': p, 'direction': FACTORIO[t[1]], 'type': 'input' if t[2] else 'output'})
            elif t[0] == 'filler':
                res.append({'name': 'wooden-chest', 'position': p})
            elif t[0] == 'split' and t[2]:
                vx, vy = phys.VEC[(t[1] + 1) % 4]
                res.append({'name': 'splitter', 'position': {'x': x + 0.5 + vx / 2, 'y': y + 0.5 + vy / 2}, 'direction': FACTORIO[t[1]]})
    for i, e in enumerate(res):
        e['entity_number'] = i + 1
    return res


def blueprint(es):
    return corpus.encode({'blueprint': {'icons': [{'signal': {'type': 'item', 'name': 'splitter'}, 'index': 1}], 'entities': es, 'item': 'blueprint', 'version': 281474976710656}})


def old_cell(t):
    """The cell format of outputs without a tile entry."""
    c = {'input_direction': None, 'output_direction': None, 'is_splitter': False, 'is_splitter_head': None}
    if t[0] == 'belt':
        c.update(input_direction=t[1], output_direction=t[2])
    elif t[0] == 'ug':
        c.update({'input_direction' if t[2] else 'output_direction': t[1]})
    elif t[0] == 'split':
        c.update(input_direction=t[1], output_direction=t[1], is_splitter=True, is_splitter_head=t[2])
    return c


def check(c, rec):
    tool, net, argv = REQUESTS[c['req']]
    base = unconstrained(c['req'])
    if not base:
        rec.event('no layouts' if base is not None else 'too many layouts')
        return
    r = random.Random(c['seed'])
    rows, line = base[c['pick'] % len(base)]
    h, w = len(rows), len(rows[0])
    part = [[EMPTY] * w for _ in range(h)]
    for y in range(h):
        for x in range(w):
            t = rows[y][x]
            if t == EMPTY or r.randrange(100) >= c['keep']:
                continue
            part[y][x] = t
            if t[0] == 'split' and c['form'] == 'blueprint':    # whole splitters only
                vx, vy = phys.VEC[(t[1] + 1) % 4]
                q = (x + vx, y + vy) if t[2] else (x - vx, y - vy)
                part[q[1]][q[0]] = rows[q[1]][q[0]]
    if c['change'] == 'tile':
        x, y = r.randrange(w), r.randrange(h)
        part[y][x] = r.choice([t for t in phys.ALL_TILES if t != EMPTY and t[0] != 'split'])
    elif c['change'] == 'filler' and c['form'] != 'old':
        for _ in range(r.randint(1, 2)):
            x, y = r.randrange(w), r.randrange(h)
            part[y][x] = ('filler',)
    elif c['change'] == 'shift':
        part = [row[1:] + [EMPTY] for row in part] if r.randrange(2) else part[1:] + [[EMPTY] * w]
    # a changed tile may have cut a splitter in half
    form = c['form']
    if form == 'blueprint':
        for y in range(h):
            for x in range(w):
                t = part[y][x]
                if t[0] != 'split':
                    continue
                vx, vy = phys.VEC[(t[1] + 1) % 4]
                qx, qy = (x + vx, y + vy) if t[2] else (x - vx, y - vy)
                if not (0 <= qx < w and 0 <= qy < h and part[qy][qx] == ('split', t[1], not t[2])):
                    part[y][x] = EMPTY
    cells = json.loads(line)
    if form == 'blueprint':
        es = entities(part)
        r.shuffle(es)
        text = blueprint(es)
        want_rows = corpus.entities_to_rows(es)
        if not want_rows:
            rec.event('nothing left')
            return
    else:
        want_rows = part
        if form == 'crop':
            ys = [y for y in range(h) if any(t != EMPTY for t in part[y])]
            xs = [x for x in range(w) if any(part[y][x] != EMPTY for y in range(h))]
            if ys:
                want_rows = [row[:max(xs) + 1] for row in part[:max(ys) + 1]]
        out = []
        for y, row in enumerate(want_rows):
            o = []
            for x, t in enumerate(row):
                if form == 'solver' and t == rows[y][x]:
                    o.append(cells[y][x])
                elif form == 'old':
                    o.append(old_cell(t))
                else:
                    o.append({'tile': conv.to_json_tile(t)})
            out.append(o)
        text = json.dumps(out)
    if c['newline']:
        text += '\n'

    def contains(u):
        for y, row in enumerate(want_rows):
            for x, t in enumerate(row):
                if t != EMPTY and u[y][x] != (EMPTY if t == ('filler',) else t):
                    return False
        return True

    want = {repr(u) for u, _ in base if contains(u)}
    what = f"{tool} {' '.join(map(str, argv))} --partial ({form})\n{conv.show(want_rows)}"
    with tools.Scratch() as s:
        full = ([s.file('net', NETS[net])] if net else []) + argv + ['--partial', s.file('part', text)]
        try:
            res = tools.need_ok(tools.run(tool, full + ['--all'], timeout=60), tool)
            one = tools.need_ok(tools.run(tool, full, timeout=60), tool)
        except tools.Timeout:
            rec.event('time limit')
            return
    got = {}
    for rows2 in tools.parse_layouts(res.out):
        rows2 = conv.tup(rows2)
        got[repr(rows2)] = rows2
    for k, u in got.items():
        if k not in want:
            raise Violation(f"{what}\n{'a printed layout does not contain the partial' if not contains(u) else 'a printed layout is not a solution without --partial'}\n{conv.show(u)}")
    if set(got) != want:
        raise Violation(f'{what}\n{len(got)} layouts printed, {len(want)} of the {len(base)} without --partial contain it')
    if len(one.lines) != (1 if want else 0):
        raise Violation(f'{what}\n{len(one.lines)} layouts printed without --all, {len(want)} exist')
    rec.event('form ' + form)
    rec.event('tool ' + tool)
    rec.event('kept some' if want else 'kept none')
    if any(t != EMPTY for row in want_rows for t in row):
        rec.nontrivial((c['req'], text), {'request': f"{tool} {argv}", 'form': form, 'kept': len(want), 'of': len(base)})


SUBS = [Sub('partial', check, gen=lambda tier: cases(), quick=1500, thorough=12000, shards=8, tshards=8, budget=120, tbudget=3000)]

import json

from hypothesis import strategies as st

from .. import conv, flow, phys, tools
from ..core import Sub, Violation

RULE = ('A case is a request (width, height, underground limit, --alternating, --rot-symmetry, solver, perhaps a random '
        'routing as the partial layout) to the interchange tool. Non-trivial: it printed a layout and every belt was '
        'traced; distinct by layout.')
ASSUMPTIONS = ['A run that exceeds its time limit decides nothing (counted as an event).']


def problem(rows, c):
    w, h = c['w'], c['h']
    if len(rows) != h or any(len(r) != w for r in rows):
        return f'the layout is not {w}x{h}'
    if any(t[0] == 'split' for r in rows for t in r):
        return 'the layout has a splitter'
    bad = phys.base_violation(rows, c['ul'], (False, False), (False, True, False, True), (True,) * 4)
    if bad:
        return 'illegal layout: ' + bad
    g = flow.Graph(rows)
    dest = {}
    for wire in g.wires:
        if wire['src'][0] != 'edge' or wire['dst'][0] != 'edge':
            continue
        _, x0, y0, d0 = wire['src'][:4]
        _, x1, y1, d1 = wire['dst'][:4]
        if (x0, d0) != (0, 0) or (x1, d1) != (w - 1, 0):
            return f"a belt runs from {wire['src']} to {wire['dst']}"
        dest[y1] = y0
    if sorted(dest) != list(range(h)):
        return f'only rows {sorted(dest)} of the right edge are reached from the left edge'
    half = [dest[y] >= h // 2 for y in range(h)]
    for y in range(0, h, 2):
        if half[y] == half[y + 1]:
            return f'output rows {y} and {y + 1} come from the same half'
    if c['alternating']:
        for y in range(h):
            if half[y] != (y % 2 == 1):
                return f'output row {y} breaks the alternating pattern'
    if c['rot']:
        for y in range(h):
            for x in range(w):
                t = rows[y][x]
                want = t
                if t[0] == 'belt':
                    want = ('belt', t[2], t[1])
                elif t[0] == 'ug':
                    want = ('ug', t[1], not t[2])
                if rows[h - 1 - y][w - 1 - x] != want:
                    return f'not symmetric at {(x, y)}'
    return None


def check(c, rec, timeout=25):
    argv = [c['w'], c['h'], f"--underground-length={c['ul']}", '--solver', c['solver']]
    if c['alternating']:
        argv.append('--alternating')
    if c['rot']:
        argv.append('--rot-symmetry')
    if c['limit'] > 1:
        argv.append('--all')
    with tools.Scratch() as s:
        if c.get('partial'):
            argv += ['--partial', s.file('partial', json.dumps([[{'tile': conv.to_json_tile(tuple(t))} for t in r] for r in c['partial']]))]
        try:
            res = tools.run('interchange', argv, timeout=timeout, max_lines=c['limit'] if c['limit'] > 1 else None)
        except tools.Timeout:
            rec.event('time limit')
            return
    tools.need_ok(res, 'interchange ' + ' '.join(map(str, argv)), ('Enough',))
    layouts = tools.parse_layouts(res.out)
    if not layouts:
        rec.event('no layout')
    if c['limit'] == 1 and len(layouts) > 1:
        raise Violation(f'{len(layouts)} layouts printed without --all')
    for rows in layouts:
        bad = problem(rows, c)
        if bad:
            raise Violation(f"{bad}\ninterchange {' '.join(map(str, argv))}\n{conv.show(rows)}")
        for row, part in zip(rows, c.get('partial') or []):
            for t, q in zip(row, part):
                if tuple(q) != phys.EMPTY and t != tuple(q):
                    raise Violation(f"the partial layout was not kept\n{conv.show(rows)}")
        if rec.nontrivial((rows, c['alternating'], c['rot']), {'argv': argv, 'layout': conv.show(rows).split('\n')}):
            rec.event(f"height {c['h']}" + (' alternating' if c['alternating'] else '') + (' rot' if c['rot'] else ''))


@st.composite
def requests(draw):
    h = draw(st.sampled_from([2, 4, 4, 6, 6, 8, 8, 10, 12]))
    w = draw({2: st.integers(1, 5), 4: st.integers(2, 8), 6: st.integers(4, 10), 8: st.integers(5, 11), 10: st.integers(6, 11), 12: st.integers(7, 11)}[h])
    c = {'w': w, 'h': h, 'ul': draw(st.sampled_from([1, 2, 3, 4, 4, 6])), 'alternating': draw(st.booleans()),
         'rot': draw(st.integers(0, 2)) == 0, 'limit': draw(st.sampled_from([1, 10, 30])),
         'solver': draw(st.sampled_from(['g4', 'cadical153', 'Glucose3', 'm22']))}
    if draw(st.integers(0, 2)) == 0:
        # pin a few tiles, often on the border and often pointing out of the layout
        rows = [[phys.EMPTY] * w for _ in range(h)]
        tiles = [t for t in phys.ALL_TILES if t[0] in ('belt', 'ug')]
        for _ in range(draw(st.integers(1, 3))):
            x, y = draw(st.integers(0, w - 1)), draw(st.one_of(st.integers(0, h - 1), st.sampled_from([0, h - 1])))
            rows[y][x] = draw(st.sampled_from(tiles))
        c['partial'] = rows
    return c


SUBS = [
    Sub('random', lambda c, rec: check(c, rec, 15), gen=lambda tier: requests(), quick=900, thorough=12000, shards=8, tshards=8, budget=100, tbudget=3000),
]

import json

from hypothesis import strategies as st

from .. import conv, phys, tools
from ..core import Sub, Violation
from .c03 import layout_uneven

RULE = ('A case is a request (size, numbers of inputs and outputs, underground limit, --aligned, solver) to the '
        'network-free tool. Non-trivial: it printed a layout with a splitter, whose steady flow was solved exactly; '
        'distinct by layout.')
ASSUMPTIONS = ['A run that exceeds its time limit decides nothing (counted as an event).',
               'Flow model: every splitter passes its total input in equal parts to its connected outputs.']


@st.composite
def requests(draw, big=False):
    n = draw(st.integers(1, 4))
    m = draw(st.one_of(st.just(n), st.integers(1, 4 if n > 1 or big else 6)))
    h = max(n, m) + draw(st.sampled_from([0, 0, 1, 2]))
    lo, hi = (3, 9 if big else 7) if h <= 4 else (3, 7 if big else 6)
    if n == m == 4 and h == 4:
        hi = 10
    return {'w': draw(st.integers(lo, hi)), 'h': h, 'n': n, 'm': m, 'ul': draw(st.sampled_from([1, 2, 3, 4, 4, 6, -1])),
            'aligned': draw(st.booleans()), 'limit': draw(st.sampled_from([1, 5, 20])),
            'solver': draw(st.sampled_from(['g4', 'cadical153', 'Glucose3']))}


def fixed(tier):
    """Sizes for which the tool is known to find layouts."""
    for n, m, w, h in ((1, 2, 4, 2), (1, 2, 5, 3), (2, 1, 4, 2), (2, 2, 3, 2), (3, 3, 8, 5), (2, 3, 8, 5), (3, 2, 8, 5), (3, 3, 10, 4),
                       (4, 4, 9, 4), (4, 4, 10, 4), (1, 3, 7, 4), (3, 1, 7, 4), (1, 4, 6, 4), (4, 1, 6, 4), (2, 4, 7, 4),
                       (4, 2, 7, 4), (1, 5, 8, 5), (5, 1, 8, 5), (1, 6, 8, 6), (6, 1, 8, 6), (3, 3, 12, 4), (2, 3, 9, 5), (3, 2, 9, 5)):
        for ul in (2, 4, -1):
            for aligned in (False, True):
                yield {'w': w, 'h': h, 'n': n, 'm': m, 'ul': ul, 'aligned': aligned, 'limit': 40, 'solver': 'cadical153'}


def ends_problem(rows, n, m, aligned):
    h, w = len(rows), len(rows[0])
    pos = []
    for x, k in ((0, n), (w - 1, m)):
        col = [rows[y][x] for y in range(h)]
        used = [y for y, t in enumerate(col) if t != phys.EMPTY]
        if used != list(range(used[0], used[0] + len(used))) if used else True:
            return f'the belts of column {x} are not contiguous'
        if len(used) != k:
            return f'column {x} has {len(used)} belts instead of {k}'
        if any(col[y] != ('belt', 0, 0) for y in used):
            return f'column {x} has something other than straight belts'
        pos.append(used[0])
    if aligned:
        i, j = pos
        if not (i <= j and j + m <= i + n if n >= m else j <= i and i + n <= j + m):
            return 'inputs and outputs are not aligned'
    return None


def problem(rows, c):
    w, h, n, m = c['w'], c['h'], c['n'], c['m']
    if len(rows) != h or any(len(r) != w for r in rows):
        return f'the layout is not {w}x{h}'
    bad = phys.base_violation(rows, 10 ** 9 if c['ul'] == -1 else c['ul'], (False, False), (False, True, False, True), (True,) * 4)
    if bad:
        return 'illegal layout: ' + bad
    bad = ends_problem(rows, n, m, c['aligned'])
    if bad:
        return bad
    return layout_uneven(rows, n, m)


@st.composite
def lane_requests(draw):
    """Straight lanes with splitters across them (mostly not balancers), given as the partial layout."""
    n = draw(st.sampled_from([2, 3, 4, 4, 4, 5]))
    w = draw(st.integers(4, 8))
    rows = [[('belt', 0, 0)] * w for _ in range(n)]
    for x in range(1, w - 1):
        y = 0
        while y < n - 1:
            if draw(st.integers(0, 3)):
                rows[y][x] = ('split', 0, False)
                rows[y + 1][x] = ('split', 0, True)
                y += 2
            else:
                y += 1
    drop = draw(st.sampled_from([0, 0, 0, 20]))
    for y in range(n):
        for x in range(w):
            if drop and draw(st.integers(0, 99)) < drop:
                rows[y][x] = phys.EMPTY
    return {'w': w, 'h': n, 'n': n, 'm': n, 'ul': 4, 'aligned': False, 'limit': 6, 'solver': 'cadical153', 'partial': rows}


def check(c, rec, timeout=12):
    argv = [c['w'], c['h'], c['n'], c['m'], f"--underground-length={c['ul']}", '--solver', c['solver']]
    if 'partial' in c:
        with tools.Scratch() as s:
            p = s.file('partial', json.dumps([[{'tile': conv.to_json_tile(tuple(t))} for t in r] for r in c['partial']]))
            return check_argv(c, rec, timeout, argv + ['--partial', p])
    return check_argv(c, rec, timeout, argv)


def check_argv(c, rec, timeout, argv):
    if c['aligned']:
        argv.append('--aligned')
    if c['limit'] > 1:
        argv.append('--all')
    try:
        res = tools.run('belt_balancer_net_free', argv, timeout=timeout, max_lines=c['limit'] if c['limit'] > 1 else None)
    except tools.Timeout:
        rec.event('time limit')
        return
    tools.need_ok(res, 'belt_balancer_net_free ' + ' '.join(map(str, argv)), ('Enough',))
    layouts = tools.parse_layouts(res.out)
    if not layouts:
        rec.event('no layout')
    if c['limit'] == 1 and len(layouts) > 1:
        raise Violation(f'{len(layouts)} layouts printed without --all')
    for rows in layouts:
        bad = problem(rows, c)
        if bad:
            raise Violation(f"{bad}\nbelt_balancer_net_free {' '.join(map(str, argv))}\n{conv.show(rows)}")
        if any(t[0] == 'split' for r in rows for t in r):
            if rec.nontrivial(rows, {'argv': argv, 'layout': conv.show(rows).split('\n')}):
                rec.event(f"{c['n']} to {c['m']}")


SUBS = [
    Sub('lanes', check, gen=lambda tier: lane_requests(), quick=300, thorough=15000, shards=4, tshards=8, budget=90, tbudget=2000),
    Sub('random', check, gen=lambda tier: requests(tier != 'quick'), quick=700, thorough=8000, shards=8, tshards=8, budget=90, tbudget=3000),
    Sub('fixed', lambda c, rec: check(c, rec, 15), cases=fixed, shards=4, tshards=8, budget=90, tbudget=3000),
]

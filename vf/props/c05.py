from hypothesis import strategies as st

from .. import conv, phys, tools
from ..core import Sub, Violation
from .c03 import layout_uneven

RULE = ('A case is a request (width, size, underground limit, solver, how many layouts) to the power-of-two tool. '
        'Non-trivial: it printed a layout, whose steady flow with the missing first and last splitter columns was '
        'solved exactly; distinct by layout.')
ASSUMPTIONS = ['A run that exceeds its time limit decides nothing (counted as an event).']


def capped(rows):
    """Add a column of splitters before and after (with belts outside so that the ends are plain belts)."""
    h = len(rows)
    split = [('split', 0, y % 2 == 1) for y in range(h)]
    belt = ('belt', 0, 0)
    return [[belt, split[y]] + list(rows[y]) + [split[y], belt] for y in range(h)]


def problem(rows, c):
    if len(rows) != c['n'] or any(len(r) != c['w'] for r in rows):
        return f"the layout is not {c['w']}x{c['n']}"
    bad = phys.base_violation(rows, 10 ** 9 if c['ul'] == -1 else c['ul'], (False, False), (False, True, False, True), (True,) * 4)
    if bad:
        return 'illegal layout: ' + bad
    for row in rows:
        if row[0] != ('belt', 0, 0) or row[-1] != ('belt', 0, 0):
            return 'an end tile is not a straight belt'
    full = capped(rows)
    bad = phys.base_violation(full, 10 ** 9, (False, False), (False, True, False, True), (True,) * 4)
    if bad:
        return 'illegal once capped: ' + bad
    return layout_uneven(full, c['n'], c['n'])


def check(c, rec, timeout=60):
    argv = [c['w'], c['n'], f"--underground-length={c['ul']}", '--solver', c['solver'], '--all']
    try:
        res = tools.run('belt_balancer_net_free_power_of_2', argv, timeout=timeout, max_lines=c['limit'])
    except tools.Timeout:
        rec.event('time limit')
        return
    tools.need_ok(res, 'power of two ' + ' '.join(map(str, argv)), ('Enough',))
    layouts = tools.parse_layouts(res.out)
    if not layouts:
        rec.event('no layout')
    for rows in layouts:
        bad = problem(rows, c)
        if bad:
            raise Violation(f"{bad}\nbelt_balancer_net_free_power_of_2 {' '.join(map(str, argv))}\n{conv.show(rows)}")
        if rec.nontrivial(rows, {'argv': argv, 'layout': conv.show(rows).split('\n')}):
            rec.event(f"size {c['n']}")


@st.composite
def requests(draw):
    n = draw(st.sampled_from([4, 8, 8, 8]))
    w = draw(st.integers(4, 9) if n == 4 else st.integers(9, 14))
    return {'w': w, 'n': n, 'ul': draw(st.sampled_from([3, 4, 4, 5, 6, -1])), 'limit': draw(st.sampled_from([1, 10, 40])),
            'solver': draw(st.sampled_from(['g4', 'cadical153', 'Glucose3', 'm22']))}


SUBS = [
    Sub('random', lambda c, rec: check(c, rec, 20), gen=lambda tier: requests(), quick=160, thorough=3000, shards=8, tshards=8, budget=120, tbudget=3000),
]

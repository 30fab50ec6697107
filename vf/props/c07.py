from hypothesis import strategies as st

from .. import conv, flow, phys, tools
from ..core import Sub, Violation

RULE = ('A case is a request (size, --tile, --allow-empty, --underground-length, --no-parallel, --single-loop, --all, '
        'output file, solver) to make_block. Non-trivial: a printed block with at least one belt; distinct by block and options.')
ASSUMPTIONS = ['A run that exceeds its time limit decides nothing (counted as an event).']


def tunnel_cells(rows, wrap):
    """{(x, y): set of axes along which a tunnel passes under that tile}"""
    L = phys.Layout(rows, wrap)
    res = {}
    for x, y, t in L.cells():
        if t[0] == 'ug' and t[2]:
            st_, n, q = phys.ug_walk(L, x, y)
            for i in range(n):
                res.setdefault(L.step(x, y, t[1], i + 1), set()).add(t[1] % 2)
    return res


def small_loop(rows):
    L = phys.Layout(rows)
    for y in range(L.h - 1):
        for x in range(L.w - 1):
            a, b, c, d = L.at((x, y)), L.at((x + 1, y)), L.at((x + 1, y + 1)), L.at((x, y + 1))
            if (a, b, c, d) == (('belt', 1, 0), ('belt', 0, 3), ('belt', 3, 2), ('belt', 2, 1)):
                return x, y
            if (a, b, c, d) == (('belt', 2, 3), ('belt', 1, 2), ('belt', 0, 1), ('belt', 3, 0)):
                return x, y
    return None


def problem(rows, c):
    w, h = c['w'], c['h']
    wrap = (c['tile'], c['tile'])
    if len(rows) != h or any(len(r) != w for r in rows):
        return f'the block is not {w}x{h}'
    if any(t[0] == 'split' for r in rows for t in r):
        return 'the block has a splitter'
    if not c['empty'] and any(t == phys.EMPTY for r in rows for t in r):
        return 'the block has an empty tile'
    block = (not c['tile'],) * 4
    if c['ul'] == 0 and any(t[0] == 'ug' for r in rows for t in r):
        return 'the block has an underground belt'
    bad = phys.base_violation(rows, c['ul'], wrap, block, block)
    if bad:
        return 'illegal: ' + bad
    at = small_loop(rows)
    if at:
        return f'2x2 loop at {at}'
    if c['no_parallel']:
        tc = tunnel_cells(rows, wrap)
        L = phys.Layout(rows, wrap)
        for (x, y), axes in tc.items():
            for axis in axes:
                n = L.step(x, y, (axis + 1) % 4)
                if n is not None and axis in tc.get(n, ()):
                    return f'parallel tunnels at {(x, y)} and {n}'
    if c['single']:
        g = flow.Graph(rows, wrap)
        if len(g.wires) != 1 or len(g.wires[0]['cells']) != w * h:
            return f'{len(g.wires)} belts instead of one loop through all tiles'
    return None


def check(c, rec, timeout=12):
    argv = [c['w'], c['h'], f"--underground-length={c['ul']}", '--solver', c['solver']]
    for k, o in (('tile', '--tile'), ('empty', '--allow-empty'), ('no_parallel', '--no-parallel'), ('single', '--single-loop')):
        if c[k]:
            argv.append(o)
    if c['limit'] > 1:
        argv.append('--all')
    with tools.Scratch() as s:
        out = s.join('out.json')
        if c['output']:
            argv += ['--output', out]
            if c['limit'] > 1:
                argv.remove('--all')
        try:
            res = tools.run('make_block', argv, timeout=timeout, max_lines=c['limit'] if c['limit'] > 1 else None)
        except tools.Timeout:
            rec.event('time limit')
            return
        tools.need_ok(res, 'make_block ' + ' '.join(map(str, argv)), ('Enough',))
        text = res.out
        if c['output']:
            if text.strip():
                raise Violation('something was printed although an output file was given')
            with open(out) as f:
                text = f.read()
            if text and not text.endswith('\n'):
                raise Violation('the last line of the output file is not ended')
    blocks = tools.parse_layouts(text)
    if not blocks:
        rec.event('no block')
    if (c['limit'] == 1 or c['output']) and len(blocks) > 1:
        raise Violation(f'{len(blocks)} blocks without --all')
    for rows in blocks:
        bad = problem(rows, c)
        if bad:
            raise Violation(f"{bad}\nmake_block {' '.join(map(str, argv))}\n{conv.show(rows)}")
        if any(t != phys.EMPTY for r in rows for t in r):
            if rec.nontrivial((rows, c['tile'], c['single'], c['no_parallel']), {'argv': argv, 'block': conv.show(rows).split('\n')}):
                for k in ('tile', 'empty', 'no_parallel', 'single', 'output'):
                    if c[k]:
                        rec.event(k)


@st.composite
def requests(draw, top=6):
    w, h = draw(st.integers(2, top)), draw(st.integers(2, top))
    c = {'w': w, 'h': h, 'ul': draw(st.integers(0, 5)), 'tile': draw(st.booleans()), 'empty': draw(st.booleans()),
         'no_parallel': draw(st.booleans()), 'single': draw(st.booleans()), 'limit': draw(st.sampled_from([1, 10, 40])),
         'output': draw(st.integers(0, 4)) == 0, 'solver': draw(st.sampled_from(['g4', 'cadical153', 'Glucose3', 'm22']))}
    if c['single']:
        c['empty'] = False
    return c


SUBS = [
    Sub('random', check, gen=lambda tier: requests(6 if tier == 'quick' else 8), quick=1400, thorough=20000, shards=8, tshards=8, budget=100, tbudget=3000),
]

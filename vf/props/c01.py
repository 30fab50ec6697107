from hypothesis import strategies as st

from .. import conv, corpus, gen, phys, pin
from ..core import Sub, Violation

RULE = ('A case is a fully specified arrangement (belt paths, rings, lanes with splitters, tunnels, then 0-2 '
        'random tile replacements; exhaustive one-dimensional lines; shipped balancers with mutations) with a '
        'grid configuration. Non-trivial: it has at least two connected tiles or an underground end or a '
        'splitter; distinct by configuration and arrangement.')
ASSUMPTIONS = ['The reference rules in vf/phys.py state what is legal.',
               'Splitter halves may face the side or back of an underground end (as the shipped tests state).']

B = st.booleans()
NO = (False,) * 4
FLAGS = st.one_of(st.just(NO), st.tuples(B, B, B, B), st.just((True,) * 4))
cache = pin.Cache(pin.make_grid)


def ref(rows, c):
    return phys.base_violation(rows, 10 ** 9 if c['ul'] == -1 else c['ul'], tuple(c['wrap']), tuple(c['bb']), tuple(c['bu']))


def nontrivial(rec, rows, c, tag):
    kinds = [t[0] for r in rows for t in r if t[0] not in ('empty', 'filler')]
    if len(kinds) >= 2 or 'ug' in kinds:
        if rec.nontrivial((rows, c['ul'], c['wrap'], c['bb'], c['bu']), {'layout': conv.show(rows).split('\n'), **{k: c[k] for k in ('ul', 'wrap', 'bb', 'bu')}}):
            rec.event(tag)
            if 'split' in kinds:
                rec.event(tag + ' with splitter')
            if 'ug' in kinds:
                rec.event(tag + ' with tunnel')


@st.composite
def cases(draw, maxw=6, maxh=6):
    w = draw(st.integers(1, maxw))
    h = draw(st.integers(1, maxh))
    ul = draw(st.sampled_from([1, 2, 3, 4, -1]))
    wrap = (draw(B), draw(B))
    rows = draw(gen.layouts(w, h, ul, wrap))
    return {'w': w, 'h': h, 'ul': ul, 'wrap': wrap, 'bb': draw(FLAGS), 'bu': draw(FLAGS), 'rows': rows}


def check_pin(c, rec):
    rows = conv.tup(c['rows'])
    p = cache.get(c['w'], c['h'], c['ul'], tuple(c['wrap']), tuple(c['bb']), tuple(c['bu']))
    got = p.accepts(rows)
    why = ref(rows, c)
    nontrivial(rec, rows, c, 'accepted' if got else 'rejected')
    if got != (why is None):
        raise Violation(f"arrangement {'accepted although illegal: ' + why if got else 'rejected although legal'}; ul={c['ul']} wrap={c['wrap']} blocked belts={c['bb']} undergrounds={c['bu']}\n{conv.show(rows)}")


@st.composite
def tunnel_cases(draw):
    """One or two rows/columns of tunnels with gaps around the limit."""
    ul = draw(st.sampled_from([1, 2, 3, 4, 5, 6, 8, -1]))
    n = draw(st.integers(1, 12))
    k = draw(st.integers(1, 2))
    line = []
    for _ in range(k):
        row = []
        d = draw(st.sampled_from([0, 2]))
        while len(row) < n:
            op = draw(st.integers(0, 5))
            if op <= 2:
                g = draw(st.integers(0, 9) if ul == -1 else st.integers(max(0, ul - 2), ul + 1))
                mid = [draw(st.sampled_from([('empty',), ('empty',), ('belt', 1, 1), ('belt', 3, 3), ('ug', 1, True)])) if i < 2 else ('empty',) for i in range(g)]
                seg = [('ug', d, True)] + mid + [('ug', d, False)]
                row += seg if d == 0 else seg[::-1]
            elif op == 3:
                row += [('belt', d, d)] * draw(st.integers(1, 3))
            elif op == 4:
                row += [('empty',)] * draw(st.integers(1, 3))
            else:
                row += [draw(st.sampled_from(phys.ugs() + [('belt', 0, 0), ('belt', 2, 2)]))]
        a = draw(st.integers(0, len(row) - n))
        line.append(row[a:a + n])
    rows = line
    turn = draw(st.integers(0, 3))
    for _ in range(turn):
        rows = phys.rot90(rows)
    if draw(B):
        rows = phys.flip_x(rows)
    h, w = len(rows), len(rows[0])
    return {'w': w, 'h': h, 'ul': ul, 'wrap': (draw(B), draw(B)), 'bb': draw(FLAGS), 'bu': draw(FLAGS), 'rows': rows}


def line_cases(tier):
    T = phys.ALL_TILES
    n = len(T)
    configs = []
    for wrap in ((False, False), (True, True), (True, False), (False, True)):
        for bb in (NO, (True, False, False, False), (False, True, False, False), (False, False, True, False), (False, False, False, True)):
            for bu in (NO, (True, False, False, False), (False, True, False, False), (False, False, True, False), (False, False, False, True)):
                configs.append((wrap, bb, bu))
    for i, (wrap, bb, bu) in enumerate(configs):
        for (w, h) in ((2, 1), (1, 2)):
            yield {'w': w, 'h': h, 'ul': 1 + i % 3, 'wrap': wrap, 'bb': bb, 'bu': bu, 'stride': 1, 'off': 0}
        for (w, h) in ((3, 1), (1, 3)) if tier == 'quick' else ((3, 1), (1, 3), (2, 2)):
            stride = (17 if tier == 'quick' else 1) if w * h == 3 else 37
            yield {'w': w, 'h': h, 'ul': 1 + i % 3, 'wrap': wrap, 'bb': bb, 'bu': bu, 'stride': stride, 'off': i % stride}


def check_lines(c, rec):
    if 'rows' in c:
        return check_pin(c, rec)
    T = phys.ALL_TILES
    w, h = c['w'], c['h']
    p = pin.Pin(pin.make_grid(w, h, c['ul'], tuple(c['wrap']), tuple(c['bb']), tuple(c['bu'])))
    total = len(T) ** (w * h)
    try:
        for k in range(c['off'], total, c['stride']):
            cells = []
            for _ in range(w * h):
                cells.append(T[k % len(T)])
                k //= len(T)
            rows = [cells[y * w:(y + 1) * w] for y in range(h)]
            got = p.accepts(rows)
            why = ref(rows, c)
            rec.evaluations += 1
            if got:
                nontrivial(rec, rows, c, 'line accepted')
            if got != (why is None):
                raise Violation(f"arrangement {'accepted although illegal: ' + why if got else 'rejected although legal'}; ul={c['ul']} wrap={c['wrap']} blocked belts={c['bb']} undergrounds={c['bu']}\n{conv.show(rows)}")
    finally:
        p.close()


@st.composite
def solve_cases(draw):
    c = draw(cases(7, 6))
    c['keep'] = draw(st.lists(st.booleans(), min_size=c['w'] * c['h'], max_size=c['w'] * c['h']))
    c['solver'] = draw(st.sampled_from(['g3', 'Glucose3', 'g4', 'cadical153', 'm22', 'lgl']))
    c['form'] = draw(st.integers(0, 2))
    return c


def edge_arg(flags, form):
    """The same choice of edges in the shortest of the accepted argument forms."""
    flags = tuple(flags)
    if form >= 1 and flags[:2] == flags[2:]:
        if form == 2 and len(set(flags)) == 1:
            return flags[0]
        return flags[:2]
    return flags


def check_solve(c, rec):
    """Pin a subset: a solution must be legal and keep the pins; a legal completion must be found."""
    from factorio_sat.solver import Grid
    from factorio_sat.template import EdgeMode
    rows = conv.tup(c['rows'])
    m = {False: EdgeMode.NO_WRAP, True: EdgeMode.WRAP}
    wrap = tuple(c['wrap'])
    mode = m[wrap[0]] if wrap[0] == wrap[1] and c['form'] else (m[wrap[0]], m[wrap[1]])
    grid = Grid(c['w'], c['h'], None, pin.ulen(c['ul']), edge_mode=mode)
    grid.enforce_maximum_underground_length()
    grid.block_belts_through_edges(edge_arg(c['bb'], c['form']))
    grid.block_underground_through_edges(edge_arg(c['bu'], c['form']))
    grid.prevent_bad_undergrounding()
    grid.prevent_intersection()
    pinned = {}
    for y, row in enumerate(rows):
        for x, t in enumerate(row):
            if c['keep'][y * c['w'] + x] and t != phys.EMPTY:
                pinned[x, y] = t
                grid.set_tile(x, y, conv.to_tile(t))
    why = ref(rows, c)
    sol = grid.solve(c['solver'])
    if sol is None:
        if why is None:
            raise Violation(f'no solution although this arrangement is legal and contains the pinned tiles {pinned}\n{conv.show(rows)}')
        rec.event('unsatisfiable')
        return
    got = conv.rows_of_solution(sol)
    if len(got) != c['h'] or any(len(r) != c['w'] for r in got):
        raise Violation('solution has the wrong size')
    bad = ref(got, c)
    if bad:
        raise Violation(f"illegal layout returned: {bad}; ul={c['ul']} wrap={c['wrap']} blocked belts={c['bb']} undergrounds={c['bu']}\n{conv.show(got)}")
    for (x, y), t in pinned.items():
        if got[y][x] != t:
            raise Violation(f'pinned tile {t} at {(x, y)} came back as {got[y][x]}\n{conv.show(got)}')
    nontrivial(rec, got, c, 'solved')


def book_cases(tier):
    seen = 0
    for i, (book, lvl, n, m, rows) in enumerate(corpus.books()):
        if len(rows) * len(rows[0]) > (70 if tier == 'quick' else 400):
            continue
        seen += 1
        if tier == 'quick' and seen % 3:
            continue
        need = max([phys.ug_walk(phys.Layout(rows), x, y)[1] for x, y, t in phys.Layout(rows).cells() if t[0] == 'ug'] or [1])
        for ul in {need, max(1, need - 1), need + 2}:
            yield {'w': len(rows[0]), 'h': len(rows), 'ul': ul, 'wrap': (False, False), 'bb': (False, True, False, True), 'bu': (True,) * 4, 'rows': rows}


def check_book(c, rec):
    rows = conv.tup(c['rows'])
    p = pin.Pin(pin.make_grid(c['w'], c['h'], c['ul'], tuple(c['wrap']), tuple(c['bb']), tuple(c['bu'])))
    try:
        variants = [rows]
        # deterministic single-tile mutations: drop, reverse, flip underground kind
        for y, row in enumerate(rows):
            for x, t in enumerate(row):
                v = [list(r) for r in rows]
                if t[0] == 'empty':
                    v[y][x] = ('belt', 0, 0)
                elif t[0] == 'ug':
                    v[y][x] = ('ug', t[1], not t[2])
                elif t[0] == 'split':
                    v[y][x] = ('split', t[1], not t[2])
                else:
                    v[y][x] = phys.EMPTY
                variants.append(v)
        for v in variants:
            rec.evaluations += 1
            got = p.accepts(v)
            why = ref(v, c)
            nontrivial(rec, v, c, 'book accepted' if got else 'book rejected')
            if got != (why is None):
                raise Violation(f"arrangement {'accepted although illegal: ' + why if got else 'rejected although legal'}; ul={c['ul']}\n{conv.show(v)}")
    finally:
        p.close()


SUBS = [
    Sub('pin', check_pin, gen=lambda tier: cases(6, 6) if tier == 'quick' else cases(8, 8), quick=6000, thorough=120000, shards=6, tshards=8, hang=60),
    Sub('tunnels', check_pin, gen=lambda tier: tunnel_cases(), quick=2500, thorough=40000, shards=3, tshards=8, hang=60),
    Sub('lines', check_lines, cases=line_cases, shards=4, tshards=8),
    Sub('solve', check_solve, gen=lambda tier: solve_cases(), quick=1500, thorough=30000, shards=4, tshards=8),
    Sub('books', check_book, cases=book_cases, shards=2, tshards=8),
]

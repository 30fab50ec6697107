import itertools
import random

from hypothesis import strategies as st
from pysat.solvers import Solver

from .. import conv, flow, patterns, phys, pin, tools
from ..core import Sub, Violation
from . import c10

RULE = ('A case is (a) a balancer request whose complete result with --break-symmetry is compared with the complete result '
        'without it, (b) a layout of a generated size (legal, or damaged) and its mirror image, both offered to the grid '
        'with the rule applied, or (c) two literal vectors for the ordering clauses. Non-trivial: (a) the request has '
        'layouts, (b) the layout differs from its mirror image, (c) the vectors have at least two literals; distinct by case.')
ASSUMPTIONS = ['In (b) layouts with a splitter side at an open edge are only checked for one image being kept.']


@st.composite
def option_cases(draw, big=False):
    c = draw(c10.option_cases(big))
    c['options'] = draw(st.sampled_from([[], [], [], ['--glue-splitters'], ['--expand-underground'], ['--edge-belts']]))
    if c['mode'] == '90':
        c['mode'] = ''
    return c


def mirror_key(key, w):
    f = {None: None, 0: 0, 1: 3, 2: 2, 3: 1}
    rows = [key[i:i + w] for i in range(0, len(key), w)]
    res = []
    for row in rows[::-1]:
        for t, i, o in row:
            res.append((phys.flip_y([[t]])[0][0], f[i], f[o]))
    return tuple(res)


def check_options(c, rec):
    if c['net'] is None:
        rec.event('no network')
        return
    net = [(tuple(a), tuple(b)) for a, b in c['net']]
    w, h, ul = c['w'], c['h'], c['ul']
    (_, n), = flow.io_colours(net)[0]
    (_, m), = flow.io_colours(net)[1]
    if n > h or m > h:
        rec.event('does not fit')
        return
    argv = [f'--underground-length={ul}']
    if c['mode']:
        argv.append('--' + c['mode'])
    if c['use_ends']:
        argv.append('--use-ends')
    with tools.Scratch() as s:
        argv = [s.file('net', tools.network_text(net)), w, h] + argv + ['--all'] + c['options']
        try:
            a = tools.run('belt_balancer', argv, timeout=25, max_lines=3000)
            if a.exc == 'Enough':
                rec.event('too many layouts')
                return
            tools.need_ok(a, 'belt_balancer')
            b = tools.need_ok(tools.run('belt_balancer', argv + ['--break-symmetry'], timeout=25), 'belt_balancer --break-symmetry')
        except tools.Timeout:
            rec.event('time limit')
            return
    A, B = c10.solutions(a.out), c10.solutions(b.out)
    what = f"belt_balancer {' '.join(map(str, argv[1:]))} --break-symmetry network {net}"
    for key, rows in B.items():
        if key not in A:
            raise Violation(f'{what}: a layout is printed that is not an answer without --break-symmetry\n{conv.show(rows)}')
    pairs = 0
    for key, rows in A.items():
        other = mirror_key(key, w)
        if key not in B and other not in B:
            raise Violation(f"{what}: neither this layout nor its mirror image is printed ({'the mirror image answers' if other in A else 'the mirror image does not answer'} the request)\n{conv.show(rows)}")
        outer = lambda k: [k[i * w:i * w + w] for i in range(h) if not (h % 2 and i == h // 2)]
        if outer(key) != outer(other):
            pairs += 1
            if key in B and other in B:
                raise Violation(f'{what}: both images are printed\n{conv.show(rows)}')
    if A:
        rec.nontrivial(what, {'request': what, 'layouts': len(A), 'kept': len(B)})
        rec.event('layouts', len(A))
        rec.event('different from the mirror image', pairs)
        rec.event('mode ' + c['mode'])


def build(rule, w, h, ul, bounds):
    from factorio_sat import optimisations
    g = pin.make_grid(w, h, ul, block_ug=(True,) * 4)
    optimisations.break_vertical_symmetry(g)
    return g


CACHE = pin.Cache(build, 40)


@st.composite
def grid_cases(draw, big=False):
    w, h = draw(st.integers(1, 6 if big else 5)), draw(st.integers(1, 7 if big else 6))
    return {'rule': draw(st.sampled_from([n for n in c10.NAMES if n != 'prevent_double_edge_belts' or w > 1])), 'w': w, 'h': h, 'ul': draw(st.sampled_from([1, 2, 3, 4, -1])), 'seed': draw(st.integers(0, 10 ** 9)),
            'damage': draw(st.integers(0, 9)) == 0, 'near': draw(st.booleans())}


def check_grid(c, rec):
    w, h, ul = c['w'], c['h'], c['ul']
    rows = conv.tup(c['rows']) if 'rows' in c else c10.sample(c)
    if rows is None:
        rec.event('nothing sampled')
        return
    limit = 10 ** 9 if ul == -1 else ul
    if c['near'] and 'rows' not in c:
        # nearly symmetric layouts: the images differ in few tiles
        m = phys.flip_y(rows)
        half = rows[:h // 2] + ([rows[h // 2]] if h % 2 else []) + m[h - h // 2:]
        r = random.Random(c['seed'] + 1)
        for _ in range(r.randint(0, 2)):
            half[r.randrange(h)] = list(rows[r.randrange(h)])
        if phys.base_violation(half, limit, block_ug=(True,) * 4) is None:
            rows = half
            rec.event('nearly symmetric')
    pinned = CACHE.get('', w, h, ul, None)
    mirror = phys.flip_y(rows)
    illegal = phys.base_violation(rows, limit, block_ug=(True,) * 4)
    a, b = pinned.accepts(rows), pinned.accepts(mirror)
    _, free = patterns.cells_of(rows)
    c_rows = [list(r) for r in rows]
    if illegal and (a or b):
        c['rows'] = c_rows
        raise Violation(f'an illegal layout ({illegal}) is accepted with symmetry breaking\n{conv.show(rows)}')
    if not illegal:
        if not a and not b:
            c['rows'] = c_rows
            raise Violation(f'neither image of this layout is accepted with symmetry breaking\n{conv.show(rows)}')
        outer = lambda k: [k[i] for i in range(h) if not (h % 2 and i == h // 2)]
        if a and b and not free and outer(rows) != outer(mirror):
            c['rows'] = c_rows
            raise Violation(f'both images of this layout are accepted with symmetry breaking\n{conv.show(rows)}')
        if rows != mirror:
            rec.nontrivial((rows, ul), {'layout': conv.show(rows), 'kept': 'both' if a and b else 'this' if a else 'mirror image'})
    rec.event('illegal' if illegal else 'legal')


def order_cases(tier):
    for n in range(0, 6 if tier == 'quick' else 8):
        for signs in range(2 if n else 1):
            yield {'n': n, 'signs': signs, 'shared': 0}
    for n in range(2, 5):
        yield {'n': n, 'signs': 0, 'shared': 1}
        yield {'n': n, 'signs': 1, 'shared': 1}


def check_order(c, rec):
    """The ordering clauses keep exactly one of two different vectors (l, r), (r, l), and equal ones."""
    from factorio_sat import util
    n = c['n']
    left, right = list(range(1, n + 1)), list(range(n + 1, 2 * n + 1))
    if c['shared']:        # as for a middle row: the same variables in another order
        right = left[::-1]
    if c['signs']:
        left = [-v if i % 2 else v for i, v in enumerate(left)]
        right = [-v if i % 2 else v for i, v in enumerate(right)]
    top = [3 * n + 3]

    def alloc():
        top[0] += 1
        return top[0]

    clauses = util.break_symmetry(left, right, alloc)
    variables = sorted({abs(v) for v in left + right})
    accepted = set()
    val = lambda m, l: m[abs(l)] == (l > 0)
    with Solver('m22', bootstrap_with=[list(cl) for cl in clauses]) as s:
        for bits in itertools.product((False, True), repeat=len(variables)):
            m = dict(zip(variables, bits))
            if s.solve(assumptions=[v if b else -v for v, b in m.items()]):
                accepted.add((tuple(val(m, l) for l in left), tuple(val(m, l) for l in right)))
    for bits in itertools.product((False, True), repeat=len(variables)):
        m = dict(zip(variables, bits))
        l, r = tuple(val(m, x) for x in left), tuple(val(m, x) for x in right)
        if l == r and (l, r) not in accepted:
            raise Violation(f'equal vectors {l} are rejected')
        if l != r and not c['shared'] and ((l, r) in accepted) == ((r, l) in accepted):
            raise Violation(f"vectors {l} and {r}: {'both orders' if (l, r) in accepted else 'neither order'} accepted")
        if l != r and c['shared'] and not ((l, r) in accepted or (r, l) in accepted):
            raise Violation(f'vectors {l} and {r}: neither order accepted')
    if n >= 2:
        rec.nontrivial(repr(c), c)


SUBS = [
    Sub('options', check_options, gen=lambda tier: option_cases(tier != 'quick'), quick=700, thorough=8000, shards=8, tshards=8, budget=120, tbudget=3000),
    Sub('grid', check_grid, gen=lambda tier: grid_cases(tier != 'quick'), quick=4000, thorough=100000, shards=6, tshards=8, budget=100, tbudget=2500),
    Sub('order', check_order, cases=order_cases, shards=1, tshards=2, budget=100),
]

import json
import os
import random

from hypothesis import strategies as st

from .. import balancer, brute, conv, corpus, flow, gen, netfree, phys, tools
from ..core import Sub, Violation
from ..phys import DOWN, EMPTY, LEFT, RIGHT, UP
from . import c07

RULE = ('A case is a small request run with --all to the end and compared with an independent exhaustive enumeration '
        '(belt_balancer without pruning, make_block), or, for the always-pruning tools, checked for repetition and '
        'against the run without --all. Non-trivial: the tool printed at least one layout; distinct by request.')
ASSUMPTIONS = ['Tunnels under empty tiles only are always skipped (they can be replaced by belts).',
               'With --custom, splitters that face out of the area are outside the tool\'s scope.',
               'A run or enumeration that exceeds its limit decides nothing (counted as an event).']

EDGES = ((0, LEFT), (1, UP), (2, RIGHT), (3, DOWN))


def signature(line):
    return tuple((c['input_direction'], c['output_direction'], bool(c['is_splitter'])) for row in json.loads(line) for c in row)


def no_repeats(lines):
    seen = {}
    for i, line in enumerate(lines):
        s = signature(line)
        if s in seen:
            raise Violation(f'layouts {seen[s]} and {i} are the same\n' + conv.show(tools.parse_layouts(line)[0]))
        seen[s] = i


def allowed_balancer(w, h, n, m, mode, use_ends):
    def crossing_ok(t, x, y):
        for e, out in EDGES:
            if not (x == 0, y == 0, x == w - 1, y == h - 1)[e]:
                continue
            if brute.toward(t, out):
                return False
            if t[0] == 'split' and t[1] == out:
                return False
            i = brute._in(t, phys.rev(out)) is True
            o = brute._out(t, out) is True
            if mode == 'custom':
                continue
            if i and out != LEFT:
                return False
            if o and out != {'90': DOWN, '180': LEFT}.get(mode, RIGHT):
                return False
        return True

    def allowed(x, y):
        ts = [t for t in phys.ALL_TILES if crossing_ok(t, x, y)]
        if mode in ('', 'aligned', '90') and not use_ends:
            left = x == 0
            end = (y == h - 1) if mode == '90' else x == w - 1
            if left and n < h:
                ts = [t for t in ts if t == EMPTY or t[0] == 'belt' and t[1] == RIGHT]
            if end:
                d = DOWN if mode == '90' else RIGHT
                full = m == (w if mode == '90' else h)
                ts = [t for t in ts if t == EMPTY and not full or t[0] == 'belt' and t[2] == d or (mode == '90' and left and t[0] == 'belt')]
        return ts
    return allowed


@st.composite
def balancer_requests(draw, big=False):
    net = draw(gen.networks(2, 2 if not big else 3, 3))
    mode = draw(st.sampled_from(['', '', 'aligned', '90', '180', 'custom']))
    c = {'net': net, 'mode': mode, 'use_ends': draw(st.integers(0, 2)) == 0 and mode != 'custom', 'ul': draw(st.sampled_from([1, 2, 4, -1]))}
    if net is None:
        return c
    i, o = flow.io_colours(net)
    n, m = i[0][1], o[0][1]
    need = n + m if mode == '180' else n if mode == '90' else max(n, m)
    c['h'] = max(2, need) + draw(st.sampled_from([0, 0, 1]))
    cells = 18 if big else 16
    if mode == 'custom' or (c['use_ends'] or mode == '180'):
        cells = 12 if big else 10
    hi = max(2, min(6, cells // c['h']))
    c['w'] = draw(st.integers(2, hi))
    return c


def check_balancer(c, rec):
    if c['net'] is None:
        rec.event('no network')
        return
    net = [(tuple(a), tuple(b)) for a, b in c['net']]
    w, h, ul = c['w'], c['h'], c['ul']
    (_, n), = flow.io_colours(net)[0]
    (_, m), = flow.io_colours(net)[1]
    if (n > h or m > (w if c['mode'] == '90' else h)):
        rec.event('does not fit')
        return
    want = {}
    try:
        for rows in brute.enumerate_layouts(w, h, 10 ** 9 if ul == -1 else ul, allowed_balancer(w, h, n, m, c['mode'], c['use_ends']), splitters=len(net), limit=c.get('limit', 1_500_000)):
            if balancer.covered_tunnel(rows) is None and balancer.problem(rows, net, w, h, ul, c['mode'], c['use_ends']) is None:
                want[repr(rows)] = rows
    except brute.TooMany:
        rec.event('too many')
        return
    argv = ['--underground-length', str(ul)] if ul != -1 else ['--underground-length=-1']
    if c['mode']:
        argv.append('--' + c['mode'])
    if c['use_ends']:
        argv.append('--use-ends')
    with tools.Scratch() as s:
        p = s.file('net', tools.network_text(net))
        argv = [p, w, h] + argv
        try:
            one = tools.need_ok(tools.run('belt_balancer', argv, timeout=20), 'belt_balancer')
            res = tools.need_ok(tools.run('belt_balancer', argv + ['--all'], timeout=40, max_lines=len(want) * 9 ** len(net) + 10), 'belt_balancer --all', ('Enough',))
        except tools.Timeout:
            rec.event('time limit')
            return
    what = f"belt_balancer {' '.join(map(str, argv[1:]))} network {net}"
    compare(what, one.lines, res.lines, want, rec)
    if want:
        rec.nontrivial(('balancer', what), {'request': what, 'layouts': len(want)})
        rec.event('layouts', len(want))
        rec.event('mode ' + c['mode'])


def compare(what, one, lines, want, rec, repeats=True):
    if repeats:
        no_repeats(lines)
    got = {}
    for rows in tools.parse_layouts('\n'.join(lines)):
        got[repr(conv.tup(rows))] = rows
    for k, rows in want.items():
        if k not in got:
            raise Violation(f'{what}: this layout is missing ({len(got)} of {len(want)} printed)\n{conv.show(rows)}')
    for k, rows in got.items():
        if k not in want:
            raise Violation(f'{what}: this layout does not satisfy the request\n{conv.show(rows)}')
    if len(one) != (1 if want else 0):
        raise Violation(f'{what}: {len(one)} layouts without --all, {len(want)} exist')
    if one and repr(conv.tup(tools.parse_layouts(one[0])[0])) not in want:
        raise Violation(f'{what}: the layout printed without --all is not among those of --all')


@st.composite
def block_requests(draw, big=False):
    w, h = draw(st.sampled_from([(2, 2), (2, 3), (3, 2), (3, 3), (2, 4), (4, 2), (3, 4), (4, 3), (5, 2), (2, 5), (6, 2), (2, 6)] + ([(4, 4), (5, 3), (3, 5), (5, 4)] if big else [])))
    c = {'w': w, 'h': h, 'ul': draw(st.integers(0, 4)), 'tile': draw(st.integers(0, 2)) == 0, 'empty': draw(st.booleans()),
         'no_parallel': draw(st.booleans()), 'single': draw(st.integers(0, 2)) == 0}
    if c['tile'] and w * h > (6 if c['empty'] else 9):
        c['w'], c['h'] = draw(st.sampled_from([(2, 2), (2, 3), (3, 2)]))
    if c['single']:
        c['empty'] = False
        c['tile'] = False   # with --tile, loops whose first tile is an underground exit are outside the numbering scheme
    return c


def check_block(c, rec):
    w, h = c['w'], c['h']
    wrap = (c['tile'],) * 2

    def allowed(x, y):
        for t in phys.ALL_TILES:
            if t[0] == 'split' or (t == EMPTY and not c['empty']) or (t[0] == 'ug' and c['ul'] == 0):
                continue
            if not c['tile'] and any(brute.crosses(t, out) for e, out in EDGES if (x == 0, y == 0, x == w - 1, y == h - 1)[e]):
                continue
            yield t
    want = {}
    try:
        for rows in brute.enumerate_layouts(w, h, c['ul'], allowed, wrap=wrap, limit=1_500_000):
            if c07.problem(rows, c) is None and empty_tunnel(rows, c) is None:
                want[repr(rows)] = rows
    except brute.TooMany:
        rec.event('too many')
        return
    argv = [w, h, f"--underground-length={c['ul']}"]
    for k, o in (('tile', '--tile'), ('empty', '--allow-empty'), ('no_parallel', '--no-parallel'), ('single', '--single-loop')):
        if c[k]:
            argv.append(o)
    if len(want) > 6000:
        rec.event('too many')
        return
    try:
        one = tools.need_ok(tools.run('make_block', argv, timeout=20), 'make_block')
        res = tools.need_ok(tools.run('make_block', argv + ['--all'], timeout=60, max_lines=len(want) + 10), 'make_block --all', ('Enough',))
    except tools.Timeout:
        rec.event('time limit')
        return
    what = 'make_block ' + ' '.join(map(str, argv))
    compare(what, one.lines, res.lines, want, rec)
    if want:
        rec.nontrivial(('block', what), {'request': what, 'blocks': len(want)})
        rec.event('blocks', len(want))


def empty_tunnel(rows, c):
    """A tunnel under empty tiles only; also when it wraps around."""
    L = phys.Layout(rows, (c['tile'],) * 2)
    for x, y, t in L.cells():
        if t[0] == 'ug' and t[2]:
            st_, n, q = phys.ug_walk(L, x, y)
            if st_ == 'pair' and all(L.at(L.step(x, y, t[1], i + 1)) == EMPTY for i in range(n)):
                return x, y
    return None


SMALL_NETS = [
    [((0, 0), (1, None))], [((0, None), (1, 1))], [((0, 0), (1, 1))], [((0, 1), (1, 2))], [((0, 0), (1, 2)), ((1, 2), (3, 3))],
    [((0, 0), (1, None)), ((1, 0), (2, None))], [((0, None), (1, 2)), ((2, None), (1, 1))], [((0, 2), (1, 3)), ((1, None), (2, 3))],
]


def matrix(tier):
    """Every option of the ends, with and without spare rows, for networks with few and many ways to lay them out."""
    out = []
    for k, net in enumerate(SMALL_NETS):
        n, m = flow.io_colours(net)[0][0][1], flow.io_colours(net)[1][0][1]
        for mode in ('aligned', '', '90', '180', 'custom'):
            need = n + m if mode == '180' else n if mode == '90' else max(n, m)
            for use_ends in ((False,) if mode == 'custom' else (False, True)):
                for h in range(max(2, need), need + 3):
                    for w in range(max(2, m) if mode == '90' else 2, 6):
                        room = 12 if mode == 'custom' or mode == '180' or use_ends else 20
                        if w * h <= room + (0 if tier == 'quick' else 3):
                            ul = (1, 4, -1, 2)[(k + w + h) % 4]
                            out.append((w * h, {'net': net, 'mode': mode, 'use_ends': use_ends, 'ul': ul, 'w': w, 'h': h, 'limit': 400_000 if tier == 'quick' else 2_000_000}))
    out.sort(key=lambda t: t[0])
    return [c for _, c in out]


@st.composite
def pruned_requests(draw):
    tool = draw(st.sampled_from(['belt_balancer_net_free', 'belt_balancer_net_free_power_of_2', 'interchange']))
    ul = draw(st.integers(1, 5))
    if tool == 'belt_balancer_net_free':
        n, m = draw(st.sampled_from([(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (1, 4), (4, 1), (2, 4), (4, 4)]))
        h = max(n, m) + (draw(st.integers(0, 1)) if max(n, m) < 4 else 0)
        argv = [draw(st.integers(3, 6 if max(n, m) < 4 else 9)), h, n, m] + (['--aligned'] if draw(st.booleans()) else [])
    elif tool == 'interchange':
        argv = [*draw(st.sampled_from([(1, 2), (2, 2), (3, 2), (4, 2), (4, 4), (5, 4), (6, 4), (5, 6)]))]
        argv += draw(st.sampled_from([[], ['--alternating'], ['--rot-symmetry'], ['--alternating', '--rot-symmetry']]))
    else:
        argv = [draw(st.integers(2, 7)), 4]
    return {'tool': tool, 'argv': [*argv, f'--underground-length={ul}'], 'solver': draw(st.sampled_from(['g4', 'cadical153', 'Glucose3', 'm22', 'lgl']))}


def check_pruned(c, rec):
    solver = ['--solver', c['solver']]
    try:
        a = tools.need_ok(tools.run(c['tool'], c['argv'], timeout=20), c['tool'])
        b = tools.need_ok(tools.run(c['tool'], c['argv'] + solver + ['--all'], timeout=40, max_lines=3000), c['tool'], ('Enough',))
        no_repeats(b.lines)
        d = tools.need_ok(tools.run(c['tool'], c['argv'] + ['--all'], timeout=40, max_lines=3000), c['tool'], ('Enough',))
        no_repeats(d.lines)
    except tools.Timeout:
        rec.event('time limit')
        return
    if b.exc or d.exc:
        rec.event('too many')
        return
    what = f"{c['tool']} {' '.join(map(str, c['argv']))}"
    sa, sb, sd = ({signature(x) for x in r.lines} for r in (a, b, d))
    if sb != sd:
        raise Violation(f"{what}: {len(sb)} layouts with {c['solver']}, {len(sd)} with the default solver")
    if len(a.lines) != (1 if sb else 0) or not sa <= sb:
        raise Violation(f'{what}: {len(a.lines)} layouts without --all, {len(sb)} with it')
    if '--alternating' not in c['argv']:
        rows = {x: turned(conv.tup(tools.parse_layouts(x)[0]), 0, True) for x in b.lines}
        have = {repr(conv.tup(tools.parse_layouts(x)[0])) for x in b.lines}
        for x, mirrored in rows.items():
            if repr(mirrored) not in have:
                raise Violation(f'{what}: this layout is printed, its mirror image (top to bottom) is not\n{conv.show(turned(mirrored, 0, True))}')
    if sb:
        rec.nontrivial(('pruned', what, c['solver']), {'request': what, 'layouts': len(sb)})


def turn_tile(t, f):
    if t[0] == 'belt':
        return ('belt', f(t[1]), f(t[2]))
    if t[0] in ('ug', 'split'):
        return (t[0], f(t[1]), t[2])
    return t


def turned(rows, quarter, flip):
    """The layout turned anticlockwise by quarters, then mirrored top to bottom."""
    for _ in range(quarter):
        w = len(rows[0])
        rows = [[turn_tile(row[w - 1 - x], lambda d: (d + 1) % 4) for row in rows] for x in range(w)]
    if flip:
        rows = [[turn_tile(t, lambda d: -d % 4) for t in row] for row in reversed(rows)]
        # mirrored splitters have their head on the other half
        rows = [[('split', t[1], not t[2]) if t[0] == 'split' else t for t in row] for row in rows]
    return rows


def network_of(g, r):
    """A network the layout forms (colours drawn from r), or why there is none the tool accepts."""
    if any(w['optional'] for w in g.wires):
        return None, 'splitter on the edge'
    if not g.splitters or not g.inputs() or not g.outputs():
        return None, 'no splitters, inputs or outputs'
    if set(g.inputs()) & set(g.outputs()):
        return None, 'belt without splitter'
    if any((s['ins'] + s['outs']).count(None) > 1 for s in g.splitters):
        return None, 'splitter with two unused sides'
    ids = r.sample(range(len(g.wires) * 2 + 2), len(g.wires) + 2)
    cin, cout, *ids = ids
    share = r.choice([0, 0, 20, 50, 90])
    colour = {}
    for i, w in enumerate(g.wires):
        if w['src'][0] == 'edge':
            colour[i] = cin
        elif w['dst'][0] == 'edge':
            colour[i] = cout
        elif w['src'][0] != 'loop':
            colour[i] = r.choice(sorted(set(colour.values())) or ids[:1]) if r.randrange(100) < share else ids[i]
    net = []
    for s in g.splitters:
        sides = []
        for side in (s['ins'], s['outs']):
            side = [None if k is None else colour[k] for k in side]
            r.shuffle(side)
            sides.append(tuple(side))
        net.append(tuple(sides))
    r.shuffle(net)
    i, o = flow.io_colours(net)
    if len(i) != 1 or len(o) != 1:
        return None, 'no input or output colour'
    return net, ''


@st.composite
def rebuild_cases(draw, big=False):
    cells = 120 if big else 64
    c = {'turn': draw(st.integers(0, 7)), 'flip': draw(st.booleans()), 'seed': draw(st.integers(0, 10 ** 6)), 'solver': draw(st.sampled_from(['g4', 'cadical153', 'Glucose3']))}
    if draw(st.integers(0, 2)) == 0:
        w, h = draw(st.integers(2, 10)), draw(st.integers(2, 8))
        c['rows'] = draw(gen.layouts(w, h, ul=draw(st.integers(1, 6)), mutate=False))
    else:
        fit = [i for i, b in enumerate(corpus.books()) if len(b[4]) * len(b[4][0]) <= cells]
        if not fit:
            c['rows'] = [[EMPTY]]
        else:
            c['rows'] = corpus.books()[draw(st.sampled_from(fit))][4]
    return c


def tunnels(L):
    return [n for x, y, t in L.cells() if t[0] == 'ug' and t[2] for st_, n, q in [phys.ug_walk(L, x, y)] if st_ == 'pair']


def check_rebuild(c, rec):
    rows = turned(conv.tup(c['rows']), c['turn'] % 4, c['flip'])
    if c['turn'] >= 4:      # inputs to the left
        for _ in range(3):
            L = phys.Layout(rows)
            if any(rows[y][0][0] == 'belt' and rows[y][0][1] == RIGHT for y in range(L.h)):
                break
            rows = turned(rows, 1, False)
    h, w = len(rows), len(rows[0])
    r = random.Random(c['seed'])
    if phys.base_violation(rows, 10 ** 9, (False, False), (False,) * 4, (True,) * 4):
        rec.event('not a legal layout')
        return
    net, why = network_of(flow.Graph(rows), r)
    if net is None:
        rec.event(why)
        return
    if balancer.covered_tunnel(rows) is not None:
        rec.event('tunnel under empty tiles')
        return
    long = max(tunnels(phys.Layout(rows)), default=1)
    modes = ['', 'aligned', '90', '180', 'custom']
    r.shuffle(modes)
    modes.sort(key=lambda m: m == 'custom')
    for mode in modes:
        for use_ends in (r.sample([False, True], 2) if mode != 'custom' else [False]):
            if balancer.problem(rows, net, w, h, long, mode, use_ends) is None:
                break
        else:
            continue
        break
    else:
        rec.event('no request has this layout as an answer')
        return
    ul = r.choice([max(1, long), max(1, long), long + 1, -1])
    argv = [w, h, f'--underground-length={ul}', '--solver', c['solver'], '--all'] + (['--' + mode] if mode else []) + (['--use-ends'] if use_ends else [])
    part = json.dumps([[{'tile': conv.to_json_tile(('filler',) if t == EMPTY else t)} for t in row] for row in rows])
    what = f"belt_balancer {' '.join(map(str, argv))} network {net}"
    with tools.Scratch() as s:
        try:
            res = tools.need_ok(tools.run('belt_balancer', [s.file('net', tools.network_text(net)), *argv, '--partial', s.file('part', part)], timeout=60, max_lines=3), what, ('Enough',))
        except tools.Timeout:
            rec.event('time limit')
            return
    got = [conv.tup(x) for x in tools.parse_layouts(res.out)]
    got = [[[EMPTY if t == ('filler',) else t for t in row] for row in x] for x in got]
    if got != [rows]:
        raise Violation(f'{what}: {len(got)} layouts printed where every tile is given and only this one exists\n{conv.show(rows)}')
    rec.event('mode ' + mode + (' use-ends' if use_ends else ''))
    rec.nontrivial(('rebuild', repr(rows), mode, use_ends, repr(net)), {'request': what, 'layout': conv.show(rows)})


# --- the tools that always prune: what is free of the pruned patterns must be found ---

def pinned(tool, argv, rows, timeout=60):
    """The layouts printed when every tile is given."""
    part = json.dumps([[{'tile': conv.to_json_tile(('filler',) if t == EMPTY else t)} for t in row] for row in rows])
    with tools.Scratch() as s:
        res = tools.need_ok(tools.run(tool, [*argv, '--partial', s.file('part', part)], timeout=timeout, max_lines=3), tool, ('Enough',))
    got = [conv.tup(x) for x in tools.parse_layouts(res.out)]
    return [[[EMPTY if t == ('filler',) else t for t in row] for row in x] for x in got]


def free_allowed(w, h, n, m):
    def allowed(x, y):
        if x in (0, w - 1):
            full = (n if x == 0 else m) == h
            return [t for t in (EMPTY, ('belt', 0, 0)) if t != EMPTY or not full]
        return [t for t in phys.ALL_TILES if not any(brute.crosses(t, out) for e, out in EDGES if (x == 0, y == 0, x == w - 1, y == h - 1)[e])]
    return allowed


def free_cases(tier):
    out = []
    for n, m in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 3), (1, 3), (3, 1), (2, 3), (3, 2)):
        for h in range(max(n, m), max(n, m) + 2):
            for w in range(3, 7):
                if (w - 2) * h <= (9 if tier == 'quick' else 12):
                    ul = (1, 2, 4, -1)[(n + m + w + h) % 4]
                    out.append({'w': w, 'h': h, 'n': n, 'm': m, 'ul': ul, 'aligned': (n + w + h) % 3 == 0, 'limit': 400_000 if tier == 'quick' else 3_000_000})
    return out


def check_free(c, rec):
    w, h, n, m, ul = c['w'], c['h'], c['n'], c['m'], c['ul']
    want = {}
    try:
        for rows in brute.enumerate_layouts(w, h, 10 ** 9 if ul == -1 else ul, free_allowed(w, h, n, m), limit=c['limit']):
            if netfree.acceptable(rows, n, m, ul, c['aligned']) is None:
                want[repr(rows)] = rows
    except brute.TooMany:
        rec.event('too many')
        return
    argv = [w, h, n, m, f'--underground-length={ul}'] + (['--aligned'] if c['aligned'] else [])
    what = 'belt_balancer_net_free ' + ' '.join(map(str, argv))
    try:
        res = tools.need_ok(tools.run('belt_balancer_net_free', argv + ['--all'], timeout=40, max_lines=len(want) + 3000), what, ('Enough',))
    except tools.Timeout:
        rec.event('time limit')
        return
    no_repeats(res.lines)
    got = {repr(conv.tup(rows)) for rows in tools.parse_layouts(res.out)}
    for k, rows in want.items():
        if k not in got:
            raise Violation(f'{what}: this layout is missing ({len(got)} printed, at least {len(want)} exist)\n{conv.show(rows)}')
    if want:
        rec.nontrivial(('free', what), {'request': what, 'layouts': len(want)})
        rec.event('layouts', len(want))


def slide(rows):
    """Move every splitter back as far as the straight belts before it allow (not onto an end column)."""
    rows = [list(r) for r in rows]
    L = phys.Layout(rows)
    again = True
    while again:
        again = False
        for x, y, t in L.cells():
            if t[0] == 'split' and t[2] and rows[y][x] == t:
                ps = [(x, y), L.step(x, y, (t[1] + 1) % 4)]
                bs = [L.step(*p, phys.rev(t[1])) for p in ps]
                if all(q is not None and L.at(q) == ('belt', t[1], t[1]) and q[0] not in (0, L.w - 1) for q in bs):
                    for (px, py), (bx, by) in zip(ps, bs):
                        rows[by][bx], rows[py][px] = rows[py][px], rows[by][bx]
                    again = True
    return rows


def stretch(rows, ul):
    """Lengthen every tunnel over the straight belts before and after it, within the limit."""
    rows = [list(r) for r in rows]
    again = True
    while again:
        again = False
        for x, y, t in phys.Layout(rows).cells():
            if t[0] == 'ug' and rows[y][x] == t:
                q = phys.Layout(rows).step(x, y, phys.rev(t[1]) if t[2] else t[1])
                if q is not None and 0 < q[0] < len(rows[0]) - 1 and rows[q[1]][q[0]] == ('belt', t[1], t[1]):
                    new = [list(r) for r in rows]
                    new[q[1]][q[0]], new[y][x] = t, EMPTY
                    if phys.base_violation(new, ul, (False, False), (False, True, False, True), (True,) * 4) is None:
                        rows = new
                        again = True
    return rows


def refree_cases(tier):
    """Shipped balancers as they are, and with splitters and tunnels moved the way the tool prefers."""
    seen = set()
    k = 0
    for i, (_, _, n, m, rows) in enumerate(corpus.books()):
        if len(rows) * len(rows[0]) > (150 if tier == 'quick' else 400) or repr(rows) in seen:
            continue
        seen.add(repr(rows))
        for moved in (False, True):
            for flip in (False, True):
                for above, below, longer in ((0, 0, 0), (1, 0, 0), (0, 1, 1), (0, 0, 2)):
                    k += 1
                    if tier != 'quick' or (flip == (n % 2 == 0) and longer < 2 and above + below == (i % 3 == 0)):
                        yield {'book': i, 'moved': moved, 'flip': flip, 'above': above, 'below': below, 'longer': longer, 'solver': ('cadical153', 'g4', 'Glucose3')[k % 3]}


def check_refree(c, rec):
    if c['book'] >= len(corpus.books()):
        rec.event('no shipped layouts')
        return
    _, _, n, m, rows = corpus.books()[c['book']]
    rows = conv.tup(rows)
    from . import c04
    for _ in range(4):
        if c04.ends_problem(rows, n, m, False) is None:
            break
        rows = turned(rows, 1, False)
    rows = turned(rows, 0, c['flip'])
    w = len(rows[0])
    rows = [[EMPTY] * w] * c['above'] + rows + [[EMPTY] * w] * c['below']
    ul = max(max(tunnels(phys.Layout(rows)), default=1), 1) + c['longer']
    why = phys.base_violation(rows, ul, (False, False), (False, True, False, True), (True,) * 4)
    if c['moved'] and why is None:
        plain = rows
        rows = stretch(slide(stretch(slide(rows), ul)), ul)
        if rows == plain:
            rec.event('nothing to move')
            return
    why = 'not legal' if why else netfree.acceptable(rows, n, m, ul)
    if why is not None:
        rec.event(str(why[0] if isinstance(why, tuple) else why))
        return
    argv = [w, len(rows), n, m, f'--underground-length={ul}', '--solver', c['solver'], '--all']
    if c04.ends_problem(rows, n, m, True) is None:
        argv.append('--aligned')
    what = 'belt_balancer_net_free ' + ' '.join(map(str, argv))
    try:
        got = pinned('belt_balancer_net_free', argv, rows)
    except tools.Timeout:
        rec.event('time limit')
        return
    if got != [rows]:
        raise Violation(f'{what}: {len(got)} layouts printed where every tile is given and this one is an answer\n{conv.show(rows)}')
    rec.event(f'{n} to {m}')
    rec.nontrivial(('refree', repr(rows), ul), {'request': what, 'layout': conv.show(rows)})


def parse_known(text):
    a = '>^<v'
    res = []
    for row in text.split(' / '):
        o = []
        for t in row.split(' '):
            d = [a.index(ch) for ch in t[1:] if ch in a]
            o.append(EMPTY if t == '.' else ('belt', *d) if t[0] == 'b' else ('split', d[0], t[2] == 'h') if t[0] == 'S' else ('ug', d[0], t[0] == 'I'))
        res.append(o)
    return res


def known(tier):
    """Layouts these tools are known to find (each an answer by C04, C05 or C06), and their mirror images."""
    with open(os.path.join(os.path.dirname(__file__), '..', 'known.jsonl')) as f:
        for i, line in enumerate(f):
            c = json.loads(line)
            for flip in ((False, True) if '--alternating' not in c['options'] else (False,)):
                if tier != 'quick' or (i + flip) % 2 == 0:
                    yield {**c, 'flip': flip, 'solver': ('cadical153', 'g4', 'Glucose3')[i % 3]}


def check_known(c, rec):
    rows = turned(parse_known(c['layout']), 0, c['flip'])
    argv = [*c['argv'], *c['options'], f"--underground-length={c['ul']}", '--solver', c['solver'], '--all']
    what = c['tool'] + ' ' + ' '.join(map(str, argv))
    try:
        got = pinned(c['tool'], argv, rows)
    except tools.Timeout:
        rec.event('time limit')
        return
    if got != [rows]:
        raise Violation(f'{what}: {len(got)} layouts printed where every tile is given and this one is an answer\n{conv.show(rows)}')
    rec.event(c['tool'])
    rec.nontrivial(('known', what, c['layout'], c['flip']), {'request': what, 'layout': conv.show(rows)})


SUBS = [
    Sub('balancer', check_balancer, gen=lambda tier: balancer_requests(tier != 'quick'), quick=1800, thorough=12000, shards=8, tshards=8, budget=120, tbudget=3000),
    Sub('matrix', check_balancer, cases=matrix, shards=8, tshards=8, budget=120, tbudget=3000),
    Sub('block', check_block, gen=lambda tier: block_requests(tier != 'quick'), quick=200, thorough=2000, shards=6, tshards=8, budget=100, tbudget=3000),
    Sub('pruned', check_pruned, gen=lambda tier: pruned_requests(), quick=240, thorough=2500, shards=4, tshards=8, budget=100, tbudget=3000),
    Sub('rebuild', check_rebuild, gen=lambda tier: rebuild_cases(tier != 'quick'), quick=900, thorough=6000, shards=8, tshards=8, budget=80, tbudget=2000),
    Sub('free', check_free, cases=free_cases, shards=8, tshards=8, budget=80, tbudget=2000),
    Sub('refree', check_refree, cases=refree_cases, shards=8, tshards=8, budget=80, tbudget=2000),
    Sub('known', check_known, cases=known, shards=8, tshards=8, budget=80, tbudget=1500),
]

import itertools
import json
import random

from hypothesis import strategies as st

from .. import conv, flow, gen, patterns, phys, pin, tools
from ..core import Sub, Violation
from ..phys import EMPTY

RULE = ('A case is (a) a pruning rule with a grid size, underground limit and bounds, and a layout built around the rule\'s '
        'pattern or a near miss of it (drawn in one of eight orientations at a generated place, completed to a legal '
        'layout), or a damaged such layout; the rule\'s verdict is compared with an independent search for the pattern; '
        'or (b) a balancer request with a set of pruning options, whose complete result is compared with the complete '
        'result without them, filtered. Non-trivial: (a) the layout contains at least three non-empty tiles, (b) the request '
        'has layouts without the options; distinct by case.')
ASSUMPTIONS = ['Tunnels do not cross the edges of the area; belts and splitters may.',
               'A splitter side at an open edge may be read as used or unused; a rule must accept if one reading is free of its pattern.']


def build(rule, w, h, ul, bounds):
    from factorio_sat import belt_balancer, optimisations
    g = pin.make_grid(w, h, ul, block_ug=(True,) * 4)
    if rule == 'apply_generic_optimisations':
        optimisations.apply_generic_optimisations(g)
    elif rule == 'prevent_double_edge_belts':
        belt_balancer.prevent_double_edge_belts(g)
    elif rule == 'expand_underground' and bounds:
        names = ('min_x', 'min_y', 'max_x', 'max_y')
        optimisations.expand_underground(g, **{n: b for n, b in zip(names, bounds)})
    elif rule:
        getattr(optimisations, rule)(g)
    return g


CACHE = pin.Cache(build, 40)
NAMES = list(patterns.RULES) + ['apply_generic_optimisations']


def expected(rows, rule, ul, bounds):
    """None when the rule must accept the (legal) layout, else the pattern found."""
    names = patterns.GENERIC if rule == 'apply_generic_optimisations' else [rule]
    ulen = 10 ** 9 if ul == -1 else ul
    cells, free = patterns.cells_of(rows)
    hit = None
    if len(free) > 6:
        return 'too free'
    for choice in itertools.product((False, True), repeat=len(free)):
        for (x, y, side), c in zip(free, choice):
            setattr(cells[y][x], side, rows[y][x][1] if c else None)
        if any(cells[y][x].inn is None and cells[y][x].out is None for x, y, _ in free):
            continue
        hit = next((f for f in (patterns.find(cells, n, ulen, bounds) for n in names) if f), None)
        if hit is None:
            return None
    return hit


def candidates(f, back, mirror):
    """Tiles that can satisfy a condition of a drawing, in the frame of the layout."""
    res = []
    for t in phys.ALL_TILES:
        if t[0] == 'belt':
            c = patterns.Cell('belt', t[1], t[2], False, set())
        elif t[0] == 'ug':
            c = patterns.Cell('in' if t[2] else 'out', t[1] if t[2] else None, None if t[2] else t[1], False, set())
        elif t[0] == 'split':
            c = patterns.Cell('split', t[1], t[1], t[2], set())
        else:
            c = patterns.Cell('empty', None, None, False, set())
        ends = {(c.inn, c.out)} if t[0] != 'split' else {(t[1], t[1]), (None, t[1]), (t[1], None)}
        for und, (c.inn, c.out) in itertools.product(((), (0,), (1,), (2,), (3,)), ends):
            c.under = set(und)
            if f(patterns.turned(c, back, mirror)):
                res.append(t)
                break
    return res


def sample(c):
    """A legal layout near an occurrence of the rule's pattern."""
    r = random.Random(c['seed'])
    w, h, ul = c['w'], c['h'], c['ul']
    base = CACHE.get('', w, h, ul, None)
    names = patterns.GENERIC if c['rule'] == 'apply_generic_optimisations' else [c['rule']]
    rule = patterns.RULES[r.choice(names)]
    drawings = list(rule.patterns(w, h, 10 ** 9 if ul == -1 else ul))
    pins = {}
    groups = []

    def ok():
        return base.solver.solve(assumptions=groups + [base.selector(x, y, t) for (x, y), t in pins.items()])

    def try_pin(p, options, tries=6):
        if p in pins or not (0 <= p[0] < w and 0 <= p[1] < h):
            return
        options = list(options)
        r.shuffle(options)
        for t in options[:tries]:
            pins[p] = t
            if ok():
                return
            del pins[p]

    def one_of(p, options):
        """From now on the tile at p is one of the options (if that is possible at all)."""
        if not (0 <= p[0] < w and 0 <= p[1] < h):
            return False
        key = ('group', p, tuple(options))
        g = base.sel.get(key)
        if g is None:
            g = base.sel[key] = base.grid.allocate_variable()
            base.solver.add_clause([-g] + [base.selector(*p, t) for t in options])
        groups.append(g)
        if not ok():
            groups.pop()
            return False
        return True

    if drawings and r.randrange(8):
        d = r.choice(drawings)
        move, back, fwd, mirror = r.choice(rule.orientations)
        pos = [move(*k) for k in d]
        xs = [p[0] for p in pos]
        ys = [p[1] for p in pos]
        ox = r.randint(-min(xs), max(-min(xs), w - 1 - max(xs)))
        oy = r.randint(-min(ys), max(-min(ys), h - 1 - max(ys)))
        if r.randrange(4) == 0:
            ox = r.choice([-min(xs), w - 1 - max(xs)])

        def place(dx, dy):
            q = move(dx, dy)
            return q[0] + ox, q[1] + oy

        blank = lambda u: patterns.Cell('empty', None, None, False, u)
        tunnel = {}
        for (dx, dy), f in d.items():
            anything = len(candidates(f, back, mirror)) >= len(phys.ALL_TILES) - 1
            for e in (phys.RIGHT, phys.LEFT):
                if (anything or f(blank({e}))) and not f(blank(set())) and f(blank({e})):
                    tunnel[dx, dy] = e
        for (dx, dy), e in sorted(tunnel.items()):
            # the ends of the tunnel that runs below these tiles
            if (dx - 1, dy) not in tunnel:
                one_of(place(dx - 1, dy), [('ug', fwd(e), e == phys.RIGHT)])
            if (dx + 1, dy) not in tunnel:
                extra = 0 if (dx + 1, dy) in d else r.randint(0, 2)
                one_of(place(dx + 1 + extra, dy), [('ug', fwd(e), e != phys.RIGHT)])
        miss = r.choice(sorted(d)) if r.randrange(5) < 2 else None
        for key, f in sorted(d.items(), key=lambda i: r.random()):
            if key == miss:
                continue
            if miss is None and r.randrange(100) < 10:
                try_pin(place(*key), phys.ALL_TILES, 4)
                continue
            opts = candidates(f, back, mirror)
            if key in tunnel and len(opts) > 3:
                opts = [t for t in opts if t[0] != 'ug' or t[1] % 2 != fwd(phys.RIGHT) % 2]
            if len(opts) < len(phys.ALL_TILES) - 1:
                one_of(place(*key), opts)
        if miss is not None:
            # exactly one condition of the drawing fails, by a tile of some kind
            opts = set(candidates(d[miss], back, mirror))
            kinds = ['split', 'split', 'belt', 'ug', 'empty']
            r.shuffle(kinds)
            for kind in kinds:
                others = [t for t in phys.ALL_TILES if t not in opts and t[0] == kind]
                if others and one_of(place(*miss), others):
                    break
        if r.randrange(4) == 0:
            # a tunnel that crosses the drawing
            x, y = place(*r.choice(sorted(d)))
            e = (fwd(phys.RIGHT) + r.choice([1, 3])) % 4
            before, after = r.randint(1, 2), r.randint(1, 2)
            vx, vy = phys.VEC[e]
            if one_of((x - before * vx, y - before * vy), [('ug', e, True)]) and not one_of((x + after * vx, y + after * vy), [('ug', e, False)]):
                groups.pop()
    cells = [(x, y) for y in range(h) for x in range(w)]
    r.shuffle(cells)
    for p in cells[:r.randint(0, len(cells))]:
        weights = r.choice([phys.ALL_TILES, phys.belts(), phys.belts(), phys.ugs(), phys.splits(), [EMPTY]])
        try_pin(p, weights, 3)
    if not ok():
        return None
    rows = conv.tup(conv.rows_of_solution(base.grid.parse_solution(base.solver.get_model())))
    if c['damage']:
        for _ in range(r.randint(1, 2)):
            rows[r.randrange(h)][r.randrange(w)] = r.choice(phys.ALL_TILES)
    return rows


@st.composite
def rule_cases(draw, big=False):
    rule = draw(st.sampled_from(NAMES))
    long_rules = ('expand_underground', 'prevent_mergeable_underground', 'prevent_empty_along_underground')
    if rule in long_rules:
        a, b = draw(st.one_of(st.integers(4, 8), st.integers(4, 8), st.integers(9, 13))), draw(st.integers(1, 3))
    elif rule in ('glue_partial_splitters', 'prevent_underground_hook'):
        a, b = draw(st.integers(4, 6)), draw(st.integers(3, 4))
    else:
        a, b = draw(st.integers(2, 6 if big else 5)), draw(st.integers(2, 4))
    w, h = (a, b) if draw(st.booleans()) else (b, a)
    if rule == 'prevent_double_edge_belts':
        w = max(w, 2)
    ul = draw(st.sampled_from([1, 2, 3, 4, 5, 6, -1]))
    if a > 8:
        ul = draw(st.sampled_from([5, 6, 7, 8, 9, 10, 11, -1]))
    c = {'rule': rule, 'w': w, 'h': h, 'ul': ul, 'seed': draw(st.integers(0, 10 ** 9)),
         'damage': draw(st.integers(0, 9)) == 0, 'bounds': None}
    if rule == 'expand_underground':
        k = draw(st.integers(0, 3))
        if k == 1:
            c['bounds'] = [1, 0, w - 2, h - 1]
        elif k == 2:
            c['bounds'] = [draw(st.integers(0, 2)), draw(st.integers(0, 1)), draw(st.integers(max(0, w - 3), w - 1)), draw(st.integers(max(0, h - 2), h - 1))]
    return c


def check_rule(c, rec):
    w, h, ul = c['w'], c['h'], c['ul']
    rows = conv.tup(c['rows']) if 'rows' in c else sample(c)
    if rows is None:
        rec.event('nothing sampled')
        return
    bounds = tuple(c['bounds']) if c['bounds'] else None
    illegal = phys.base_violation(rows, 10 ** 9 if ul == -1 else ul, block_ug=(True,) * 4)
    want = illegal or expected(rows, c['rule'], ul, bounds)
    if want == 'too free':
        rec.event('too many open splitter sides')
        return
    got = CACHE.get(c['rule'], w, h, ul, bounds).accepts(rows)
    if got != (want is None):
        c['rows'] = rows
        raise Violation(f"{c['rule']} on {w}x{h}, underground length {ul}, bounds {bounds}: the layout was {'accepted' if got else 'rejected'}, "
                        f"but {'it is illegal: ' + illegal if illegal else 'it contains the pattern at ' + str(want) if want else 'it does not contain the pattern'}\n{conv.show(rows)}")
    rec.event(('illegal ' if illegal else 'pattern ' if want else 'clean ') + c['rule'])
    if sum(t != EMPTY for row in rows for t in row) >= 3:
        rec.nontrivial((c['rule'], rows, ul, bounds), {'rule': c['rule'], 'layout': conv.show(rows), 'pattern': bool(want)})


# --- complete results with and without the options ---

OPTIONS = ['--edge-belts', '--edge-splitters', '--glue-splitters', '--expand-underground', '--prevent-mergeable-underground', '--prevent-bad-patterns', '--fast']


KNOWN_NETS = [
    [[[0, 0], [1, 1]]], [[[0, None], [1, 1]]], [[[0, 0], [1, None]]], [[[0, 0], [1, 2]], [[1, 2], [3, 3]]], [[[0, 1], [1, 2]]],
    [[[0, None], [1, 1]], [[1, None], [2, 2]], [[1, None], [2, 2]]], [[[0, 0], [1, 3]], [[1, 0], [3, 3]]],
    [[[0, 0], [1, 1]], [[1, 1], [2, 2]]], [[[0, 0], [0, 1]]], [[[0, 1], [1, 1]]], [[[0, 0], [0, 1]], [[0, 1], [1, 1]]], [[[0, 0], [2, 2]], [[0, 2], [0, 1]], [[2, 0], [1, 1]]], [[[0, 0], [0, 2]], [[0, 2], [1, 1]]], [[[0, 0], [1, 2]], [[0, 0], [1, 2]], [[1, 1], [3, 3]], [[2, 2], [3, 3]]],
]


@st.composite
def option_cases(draw, big=False):
    net = draw(st.one_of(gen.networks(3, 3, 4), st.sampled_from(KNOWN_NETS), st.sampled_from(KNOWN_NETS)))
    mode = draw(st.sampled_from(['', '', '', '', 'aligned', '90', '180', 'custom']))
    c = {'net': net, 'mode': mode, 'use_ends': draw(st.integers(0, 2)) == 0 and mode != 'custom', 'ul': draw(st.sampled_from([1, 2, 3, 4, 6, -1])),
         'options': draw(st.sampled_from([[o] for o in OPTIONS] * 3 + [['--edge-belts', '--glue-splitters'], ['--edge-belts', '--fast'], ['--expand-underground', '--prevent-bad-patterns'], ['--fast', '--prevent-mergeable-underground'], ['--edge-splitters', '--glue-splitters', '--prevent-bad-patterns']]))}
    if net is None:
        return c
    i, o = flow.io_colours(net)
    n, m = i[0][1], o[0][1]
    need = n + m if mode == '180' else n if mode == '90' else max(n, m)
    c['h'] = max(2, need) + draw(st.sampled_from([0, 0, 1, 1, 2]))
    cells = 30 if big else 24
    if mode in ('custom', '180') or c['use_ends']:
        cells = 16 if big else 12
        if mode == 'custom':
            cells = 9
    hi = max(3, min(9, cells // c['h']))
    c['w'] = draw(st.integers(max(2, hi - 3), hi))
    return c


def solutions(text):
    res = {}
    for line in text.splitlines():
        cells = json.loads(line)
        rows = conv.tup(conv.rows_of_solution(cells))
        key = tuple((t, c['input_direction'], c['output_direction']) for cr, tr in zip(cells, rows) for c, t in zip(cr, tr))
        res[key] = rows
    return res


def check_options(c, rec):
    if c['net'] is None:
        rec.event('no network')
        return
    net = [(tuple(a), tuple(b)) for a, b in c['net']]
    w, h, ul = c['w'], c['h'], c['ul']
    (ci, n), = flow.io_colours(net)[0]
    (co, m), = flow.io_colours(net)[1]
    if n > h or m > (w if c['mode'] == '90' else h):
        rec.event('does not fit')
        return
    if w < 3 and ('--edge-splitters' in c['options'] or '--fast' in c['options']):
        rec.event('too narrow')
        return
    argv = [f'--underground-length={ul}']
    if c['mode']:
        argv.append('--' + c['mode'])
    if c['use_ends']:
        argv.append('--use-ends')
    with tools.Scratch() as s:
        p = s.file('net', tools.network_text(net))
        argv = [p, w, h] + argv + ['--all']
        try:
            a = tools.run('belt_balancer', argv, timeout=25, max_lines=3000)
            if a.exc == 'Enough':
                rec.event('too many layouts')
                return
            tools.need_ok(a, 'belt_balancer')
            b = tools.need_ok(tools.run('belt_balancer', argv + c['options'], timeout=25), f"belt_balancer {c['options']}")
        except tools.Timeout:
            rec.event('time limit')
            return
    names = []
    opts = set(c['options'])
    fast = '--fast' in opts
    if '--edge-belts' in opts:
        names.append('prevent_double_edge_belts')
    if '--glue-splitters' in opts or fast:
        names += ['glue_splitters', 'glue_partial_splitters']
    if '--expand-underground' in opts or fast:
        names.append('expand_underground')
    if '--prevent-mergeable-underground' in opts or fast:
        names.append('prevent_mergeable_underground')
    if '--prevent-bad-patterns' in opts or fast:
        names += patterns.BAD
    edge = '--edge-splitters' in opts or fast
    recirculated = {'ins': any(ci in y for _, y in net), 'outs': any(co in x for x, _ in net)}
    A, B = solutions(a.out), solutions(b.out)
    what = f"belt_balancer {' '.join(map(str, argv[1:] + c['options']))} network {net}"
    for key, rows in B.items():
        if key not in A:
            raise Violation(f'{what}: a layout is printed that is not an answer without the options\n{conv.show(rows)}')
    dropped = 0
    for key, rows in A.items():
        cells, _ = patterns.cells_of(rows)
        for i, (t, inn, out) in enumerate(key):
            if t[0] == 'split':
                cells[i // w][i % w].inn, cells[i // w][i % w].out = inn, out
        hit = next((f for f in (patterns.find(cells, nm, 10 ** 9 if ul == -1 else ul, (1, 0, w - 2, h - 1)) for nm in names) if f), None)
        if hit is None and edge:
            sides = misplaced(rows, cells, w)
            hit = next((v for k, v in sides.items() if not recirculated[k]), None)
            if hit is None and sides:   # belts led back to that end: which splitters have to be there is left open
                rec.event('open')
                continue
        if (hit is None) != (key in B):
            raise Violation(f"{what}: this layout is {'kept although it contains the pattern at ' + str(hit) if hit else 'dropped although it contains none of the patterns'}\n{conv.show(rows)}")
        dropped += hit is not None
    if A:
        rec.nontrivial(what, {'request': what, 'layouts': len(A), 'dropped': dropped})
        rec.event('layouts', len(A))
        rec.event('dropped', dropped)
        rec.event('mode ' + c['mode'])
        for o in c['options']:
            rec.event('option ' + o)
            if dropped:
                rec.event('dropped by ' + o)


def misplaced(rows, cells, w):
    """{side: a splitter joined to two balancer inputs (outputs) that is not on that edge, facing right}"""
    g = flow.Graph(rows)
    res = {}
    for s in g.splitters:
        for side, col, end, attr in (('ins', 1, 'src', 'inn'), ('outs', w - 2, 'dst', 'out')):
            if all(getattr(cells[y][x], attr) is not None and s[side][k] is not None and g.wires[s[side][k]][end][0] == 'edge' for k, (x, y) in enumerate(s['pos'])):
                if s['dir'] != phys.RIGHT or any(x != col for x, _ in s['pos']):
                    res[side] = (f'splitter {side}', s['pos'])
    return res


SUBS = [
    Sub('rules', check_rule, gen=lambda tier: rule_cases(tier != 'quick'), quick=9000, thorough=200000, shards=8, tshards=8, budget=100, tbudget=2500),
    Sub('options', check_options, gen=lambda tier: option_cases(tier != 'quick'), quick=1600, thorough=10000, shards=8, tshards=8, budget=120, tbudget=3000),
]

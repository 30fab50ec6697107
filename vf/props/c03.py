import hashlib
import itertools
import os
import random

from hypothesis import strategies as st

from .. import balancer, conv, corpus, flow, phys, tools
from ..core import REPO, Sub, Violation

RULE = ('A case is (a) a balancer size for the network generator with a random wiring of equally coloured belts, '
        '(b) a shipped network with a random wiring, (c) a shipped blueprint, or (d) a layout printed for a '
        'balancing network under random options. Non-trivial: the steady flow of all inputs was solved exactly '
        'and there are at least two outputs; distinct by network and wiring, or by layout.')
ASSUMPTIONS = ['Flow model: every splitter passes its total input in equal parts to its connected outputs, no belt is saturated.',
               'The shipped 7 to 4 blueprints listed in KNOWN_FINDINGS are uneven; every other blueprint must be even.']

P = (1 << 61) - 1


def modular_shares(nodes, n, inputs, outputs):
    """As flow.shares, modulo a large prime (for big networks); exact enough to compare with 1/m."""
    feeds = [dict() for _ in range(n)]
    for ins, outs in nodes:
        if not outs:
            continue
        k = pow(len(outs), P - 2, P)
        for o in outs:
            for i in ins:
                feeds[o][i] = (feeds[o].get(i, 0) + k) % P
    M = [{c: (-v) % P for c, v in f.items()} for f in feeds]
    for i in range(n):
        M[i][i] = (M[i].get(i, 0) + 1) % P
    R = [{} for _ in range(n)]
    for j, w in enumerate(inputs):
        R[w][j] = 1
    cols = [set() for _ in range(n)]
    for r in range(n):
        for c in M[r]:
            cols[c].add(r)
    done = [False] * n
    order = sorted(range(n), key=lambda i: len(M[i]))
    for col in order:
        r = col
        if not M[r].get(col):
            return None
        inv = pow(M[r][col], P - 2, P)
        M[r] = {c: v * inv % P for c, v in M[r].items()}
        R[r] = {c: v * inv % P for c, v in R[r].items()}
        for q in list(cols[col]):
            if q == r:
                continue
            k = M[q].pop(col, 0)
            cols[col].discard(q)
            if not k:
                continue
            for c, v in M[r].items():
                if c == col:
                    continue
                nv = (M[q].get(c, 0) - k * v) % P
                if nv:
                    M[q][c] = nv
                    cols[c].add(q)
                else:
                    M[q].pop(c, None)
                    cols[c].discard(q)
            for c, v in R[r].items():
                R[q][c] = (R[q].get(c, 0) - k * v) % P
    return {o: [R[o].get(j, 0) for j in range(len(inputs))] for o in outputs}


def network_uneven(net, seed):
    rng = random.Random(seed)

    def order(c, n):
        p = list(range(n))
        if seed:
            rng.shuffle(p)
        return p
    nodes, n, ins, outs = flow.wire_up(net, order)
    if n <= 60:
        return flow.uneven(flow.shares(nodes, n, ins, outs), len(outs))
    sh = modular_shares(nodes, n, ins, outs)
    if sh is None:
        return 'flow is trapped in a loop'
    want = pow(len(outs), P - 2, P)
    for o, row in sh.items():
        if any(v != want for v in row):
            return 'an input is not divided evenly over the outputs'
    return None


def counts(net):
    i, o = flow.io_colours(net)
    if len(i) != 1 or len(o) != 1:
        raise Violation(f'the network has {len(i)} input colours and {len(o)} output colours: {net[:20]}')
    return i[0][1], o[0][1]


def sizes(tier):
    top = 48 if tier == 'quick' else 160
    for n in range(2, top + 1):
        for seed in range(3 if n <= 24 else 1):
            yield {'n': n, 'seed': seed}
    for n in (63, 64, 65, 96, 127, 128) if tier == 'quick' else (255, 256, 257):
        yield {'n': n, 'seed': 1}


def check_create(c, rec):
    with tools.Scratch() as s:
        p = s.join('net')
        tools.need_ok(tools.run('network', ['create', p, c['n']], timeout=120), f"network create {c['n']}")
        net = corpus.read_network(p)
    if counts(net) != (c['n'], c['n']):
        raise Violation(f"network create {c['n']} made a {counts(net)} network")
    bad = network_uneven(net, c['seed'])
    if bad:
        raise Violation(f"network create {c['n']}: {bad} (wiring {c['seed']})\n{net[:60]}")
    rec.nontrivial(('create', c['n'], c['seed']), c)


def shipped(tier):
    for name in sorted(os.listdir(os.path.join(REPO, 'networks'))):
        for seed in range(4 if tier == 'quick' else 40):
            yield {'name': name, 'seed': seed}


def check_shipped(c, rec):
    net = corpus.networks()[c['name']]
    n, m = map(int, c['name'].split('x'))
    if counts(net) != (n, m):
        raise Violation(f"networks/{c['name']} is a {counts(net)} network")
    bad = network_uneven(net, c['seed'])
    if bad:
        raise Violation(f"networks/{c['name']}: {bad} (wiring {c['seed']})")
    if m > 1:
        rec.nontrivial(('shipped', c['name'], c['seed']), c)


def digest(rows):
    return hashlib.sha256(repr(conv.tup(rows)).encode()).hexdigest()[:16]


# shipped blueprints recorded as known findings, by book, label and layout
KNOWN_BOOKS = {
    ('blue_area.txt', 7, 4), ('blue_narrow.txt', 7, 4), ('red_area.txt', 7, 4), ('red_narrow.txt', 7, 4),
    ('yellow_area.txt', 7, 4),
}
KNOWN_DIGESTS = {'e2cd185ffbb2928f', 'de686e37012ac7a3', '6087ff131cf35b08'}
KNOWN = [f'books/{b}: the blueprint "{n} to {m}" does not divide its inputs evenly (inputs 4 to 6 never reach two of the outputs)' for b, n, m in sorted(KNOWN_BOOKS)]


def books(tier):
    for i, (book, lvl, n, m, rows) in enumerate(corpus.books()):
        yield {'i': i, 'book': book, 'n': n, 'm': m}


def layout_uneven(rows, n, m):
    """None when even (for some choice of which splitter halves on the edge are in use)."""
    g = flow.Graph(rows)
    for x, y, t in g.L.cells():
        if t[0] == 'ug' and phys.ug_walk(g.L, x, y)[0] != 'pair':
            return 'a tunnel leaves the layout'

    def choices(wires, k):
        fixed = [w for w in wires if not g.wires[w]['optional']]
        free = [w for w in wires if g.wires[w]['optional']]
        return [fixed + list(x) for x in itertools.islice(itertools.combinations(free, k - len(fixed)), 64)] if 0 <= k - len(fixed) <= len(free) else []
    bad = f'{len(g.inputs())} inputs and {len(g.outputs())} outputs do not allow {n} and {m}'
    for ins in choices(g.inputs(), n):
        for outs in choices(g.outputs(), m):
            live = set(ins) | set(outs) | {i for i, w in enumerate(g.wires) if not w['optional']}
            nodes = [([w for w in s['ins'] if w in live], [w for w in s['outs'] if w in live]) for s in g.splitters]
            bad = flow.uneven(flow.shares(nodes, len(g.wires), ins, outs), m)
            if bad is None:
                return None
    return bad


def check_book(c, rec):
    book, lvl, n, m, rows = corpus.books()[c['i']]
    bad = phys.base_violation(rows, corpus.LEVEL_UL[lvl], (False, False), (False, True, False, True), (True,) * 4)
    if bad:
        raise Violation(f'{book} "{n} to {m}" is illegal: {bad}\n{conv.show(rows)}')
    bad = layout_uneven(rows, n, m)
    if bad:
        if (book, n, m) in KNOWN_BOOKS and digest(rows) in KNOWN_DIGESTS:
            rec.event('known finding')
            return
        raise Violation(f'{book} "{n} to {m}": {bad}\n{conv.show(rows)}')
    if m > 1:
        rec.nontrivial(('book', book, n, m), {'book': book, 'label': f'{n} to {m}', 'layout': conv.show(rows).split('\n')})


@st.composite
def layout_requests(draw):
    nets = corpus.networks()
    small = [(book, lvl, n, m, len(rows[0]), len(rows)) for book, lvl, n, m, rows in corpus.books() if len(rows) * len(rows[0]) <= 42 and f'{n}x{m}' in nets and m > 1]
    kind = draw(st.integers(0, 3))
    if kind < 3:
        book, lvl, n, m, w, h = small[draw(st.integers(0, len(small) - 1))]
        name = f'{n}x{m}'
        mode = draw(st.sampled_from(['', '', 'aligned', 'custom']))
        w += draw(st.integers(0, 1))
    else:
        n = m = draw(st.integers(2, 4))
        name = f'create {n}'
        mode = draw(st.sampled_from(['', '90', '180']))
        w, h = draw(st.sampled_from([(4, 4), (5, 4), (6, 4), (5, 5), (4, 6), (5, 8)]))
        h = max(h, n)
    return {'name': name, 'n': n, 'm': m, 'w': w, 'h': h, 'mode': mode, 'use_ends': draw(st.booleans()),
            'prune': draw(st.sampled_from([[], [], ['--fast'], ['--glue-splitters'], ['--expand-underground'], ['--prevent-bad-patterns', '--break-symmetry'] if mode != '90' else []])),
            'ul': draw(st.sampled_from([3, 4, 6, 8, -1])), 'limit': draw(st.integers(1, 20)), 'solver': draw(st.sampled_from(['g4', 'cadical153', 'Glucose3']))}


def check_layout(c, rec):
    from .c02 import options
    with tools.Scratch() as s:
        if c['name'].startswith('create'):
            p = s.join('net')
            tools.need_ok(tools.run('network', ['create', p, c['n']], timeout=60), 'network create')
        else:
            p = os.path.join(REPO, 'networks', c['name'])
        argv = [p, c['w'], c['h'], '--all'] + options(c['mode'], c['use_ends'], c['prune'], c['ul'], c['solver'])
        try:
            res = tools.run('belt_balancer', argv, timeout=12, max_lines=c['limit'])
        except tools.Timeout:
            rec.event('time limit')
            return
    tools.need_ok(res, 'belt_balancer', ('Enough',))
    for rows in tools.parse_layouts(res.out):
        try:
            bad = layout_uneven(rows, c['n'], c['m'])
        except ValueError as e:
            bad = f'belts do not connect: {e}'
        if bad:
            raise Violation(f"{bad}\nbelt_balancer {' '.join(map(str, argv))}\n{conv.show(rows)}")
        rec.nontrivial(('layout', rows), {'argv': argv[1:], 'name': c['name'], 'layout': conv.show(rows).split('\n')})


SUBS = [
    Sub('create', check_create, cases=sizes, shards=3, tshards=8, budget=120, tbudget=3000),
    Sub('shipped', check_shipped, cases=shipped, shards=2),
    Sub('books', check_book, cases=books, shards=2),
    Sub('layouts', check_layout, gen=lambda tier: layout_requests(), quick=500, thorough=10000, shards=8, tshards=8, budget=100, tbudget=3000),
]

import json

from hypothesis import strategies as st

from .. import conv, corpus, flow, gen, iso, phys, tools
from ..core import Sub, Violation
from ..phys import EMPTY, VEC

RULE = ('A case is a legal layout (generated, shipped or a shipped one with other tiles in its free places, turned and '
        'mirrored), parsed with and without --assume-valid-output. Non-trivial: at least one splitter with a '
        'connection; distinct by layout and option.')
ASSUMPTIONS = ['No tunnel leaves the layout.',
               'Belts of one splitter that lead on inside the layout may share a colour, all inputs share one and all outputs share one.']


def reference(rows, assume):
    """[((in, in), (out, out))] with symbolic colours."""
    g = flow.Graph(rows)

    def colour(w, is_in):
        if w is None:
            return None
        wire = g.wires[w]
        if wire['optional'] and not assume:
            return None
        if wire['src'][0] == 'edge':
            return 'in'
        if wire['dst'][0] == 'edge':
            return 'out'
        return ('s', wire['src'][1])
    return [(tuple(colour(w, True) for w in s['ins']), tuple(colour(w, False) for w in s['outs'])) for s in g.splitters], g


def compare(rows, got, want, what):
    if len(got) != len(want):
        raise Violation(f'{what}: {len(got)} nodes for {len(want)} splitters\n{conv.show(rows)}')
    number = {}
    for n in want:
        for s in n:
            for c in s:
                if c is not None:
                    number.setdefault(c, len(number))
    ref = [tuple(tuple(None if c is None else number[c] for c in s) for s in n) for n in want]
    r = iso.isomorphic([tuple(map(tuple, n)) for n in got], ref)
    if r is False:
        raise Violation(f'{what}: the network {got} is not that of the layout, {want}\n{conv.show(rows)}')
    return r


@st.composite
def cases(draw):
    src = draw(st.integers(0, 3))
    if src == 0:
        items = [b for b in corpus.books() if len(b[4]) * len(b[4][0]) <= 120]
        rows = [list(r) for r in items[draw(st.integers(0, len(items) - 1))][4]]
    else:
        w, h = draw(st.integers(1, 9)), draw(st.integers(2, 8))
        rows = draw(gen.layouts(w, h, 4, mutate=False, max_paths=7))
    if draw(st.booleans()):
        for y, r in enumerate(rows):
            for x, t in enumerate(r):
                if t == EMPTY and draw(st.integers(0, 2)) == 0:
                    r[x] = draw(st.sampled_from([phys.FILLER, ('ins', 0, 0), ('ins', 3, 1), ('asm', 1, 1)]))
    for _ in range(draw(st.integers(0, 3))):
        rows = phys.rot90(rows)
    if draw(st.booleans()):
        rows = phys.flip_x(rows)
    return {'rows': rows, 'assume': draw(st.booleans())}


def prepare(c, rec):
    rows = conv.tup(c['rows'])
    plain = [[t if t[0] in ('belt', 'ug', 'split') else EMPTY for t in r] for r in rows]
    if phys.base_violation(plain, 10 ** 9, block_ug=(True,) * 4):
        rec.event('not legal')
        return None
    return rows, reference(plain, c['assume'])


def note(rec, rows, want, c):
    if any(x is not None for n in want for s in n for x in s):
        rec.nontrivial((rows, c['assume']), {'layout': conv.show(rows).split('\n'), 'assume': c['assume']})
        rec.event(f'splitters {min(len(want), 8)}')
        if any(x not in ('in', 'out', None) for n in want for s in n for x in s):
            rec.event('splitter to splitter')
        if any(x is None for n in want for s in n for x in s):
            rec.event('unused side')


def check_functions(c, rec):
    import numpy as np
    from factorio_sat import network
    p = prepare(c, rec)
    if p is None:
        return
    rows, (want, g) = p
    tiles = np.full((len(rows), len(rows[0])), None, dtype=object)
    for y, r in enumerate(rows):
        for x, t in enumerate(r):
            tiles[y, x] = conv.to_tile(t)
    got = network.parse_network(tiles, c['assume'])
    r = compare(rows, got, want, 'parsing')
    rec.event('isomorphism undecided') if r is None else None
    note(rec, rows, want, c)


def check_tool(c, rec):
    p = prepare(c, rec)
    if p is None:
        return
    rows, (want, g) = p
    text = json.dumps([[{'tile': conv.to_json_tile(t)} for t in r] for r in rows]) + '\n'
    with tools.Scratch() as s:
        tools.need_ok(tools.run('network', ['parse', s.join('net')] + (['--assume-valid-output'] if c['assume'] else []), text), 'network parse')
        got = corpus.read_network(s.join('net'))
    compare(rows, got, want, 'network parse')
    cols = iso.colours(got)
    if cols != set(range(len(cols))):
        raise Violation(f'the colours are {sorted(cols)}\n{conv.show(rows)}')
    ins = {x for n in got for x in n[0]} - {None}
    outs = {x for n in got for x in n[1]} - {None}
    if ins - outs and ins - outs != {0} or outs - ins and outs - ins != {len(cols) - 1}:
        raise Violation(f'inputs {ins - outs} and outputs {outs - ins} are not the first and last of {len(cols)} colours\n{conv.show(rows)}')
    note(rec, rows, want, c)


def check_long(c, rec):
    """A long belt between two splitters."""
    from factorio_sat import network
    import numpy as np
    n = c['n']
    rows = [[('belt', 0, 0)] * n, [('belt', 0, 0)] * n]
    for x in (1, n - 2):
        rows[1][x], rows[0][x] = ('split', 0, True), ('split', 0, False)
    for _ in range(c['turn']):
        rows = phys.rot90(rows)
    tiles = np.full((len(rows), len(rows[0])), None, dtype=object)
    for y, r in enumerate(rows):
        for x, t in enumerate(r):
            tiles[y, x] = conv.to_tile(t)
    want, _ = reference(rows, False)
    compare([r[:20] for r in rows[:20]], network.parse_network(tiles), want, f'parsing a belt of {n} tiles')
    rec.nontrivial(c, c)


SUBS = [
    Sub('functions', check_functions, gen=lambda tier: cases(), quick=9000, thorough=80000, shards=6, tshards=8, hang=60),
    Sub('tool', check_tool, gen=lambda tier: cases(), quick=200, thorough=3000, shards=4, tshards=8, hang=60),
    Sub('long', check_long, cases=lambda tier: [{'n': n, 'turn': t} for n in (40, 999, 1003, 2500) for t in (range(4) if tier != 'quick' else (0, 1))], shards=2, hang=60),
]

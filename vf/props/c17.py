import json

from hypothesis import strategies as st

from .. import conv, flow, gen, phys, tools
from ..core import Sub, Violation

RULE = ('A case is a stream of one to three layouts (whole entities of every kind, single tiles of every value, or '
        'legal working layouts) with extra data in every cell, and a sequence of rotate operations. Non-trivial: at '
        'least two different non-empty tiles; distinct by layouts and operations.')
ASSUMPTIONS = ['A quarter turn is counter-clockwise for rot_90 and clockwise for rot_270, as the grid turn does.']

OPS = ['no_op', 'rot_90', 'rot_180', 'rot_270', 'flip_x', 'flip_y']


def reference(op, rows):
    """rows of (tile, extra) pairs"""
    def part(i):
        return [[c[i] for c in r] for r in rows]
    tiles, extra = part(0), part(1)
    n = {'rot_90': 1, 'rot_180': 2, 'rot_270': 3}.get(op)
    if n is not None:
        for _ in range(n):
            tiles = phys.rot90(tiles)
            extra = phys.rot90([[('x', e) for e in r] for r in extra])
            extra = [[c[1] for c in r] for r in extra]
    elif op == 'flip_x':
        tiles = phys.flip_x(tiles)
        extra = [r[::-1] for r in extra]
    elif op == 'flip_y':
        tiles = phys.flip_y(tiles)
        extra = extra[::-1]
    return [list(zip(a, b)) for a, b in zip(tiles, extra)]


TILES = phys.ALL_TILES + [phys.FILLER] + [('ins', d, k) for d in range(4) for k in (0, 1)] + [('asm', x, y) for x in range(3) for y in range(3)]


@st.composite
def cases(draw):
    lay = st.one_of(gen.entity_rows(7, 7, ('belt', 'ug', 'split', 'ins', 'asm', 'filler')), gen.any_rows(4, 4, TILES), st.integers(1, 7).flatmap(lambda w: st.integers(1, 7).flatmap(lambda h: gen.layouts(w, h, mutate=False))))
    lay = gen.mostly(lay, gen.large_rows(30, ('belt', 'ug', 'split', 'ins', 'asm', 'filler')), 20)
    ls = draw(st.lists(lay, min_size=1, max_size=3))
    ops = draw(st.one_of(st.lists(st.sampled_from(OPS), min_size=1, max_size=3), st.sampled_from([['rot_90'] * 4, ['flip_x'] * 2, ['flip_y'] * 2, ['rot_180'] * 2, ['rot_270', 'rot_90'], ['flip_x', 'flip_y', 'rot_180']])))
    return {'layouts': ls, 'ops': ops, 'extra': draw(st.sampled_from(['none', 'index', 'json'])), 'blob': draw(gen.JSON)}


def check(c, rec):
    cur = []
    for rows in c['layouts']:
        rows = conv.tup(rows)
        w = len(rows[0])
        cur.append([[(t, {} if c['extra'] == 'none' else {'colour': y * w + x} if c['extra'] == 'index' else {'id': [x, y], 'blob': c['blob']}) for x, t in enumerate(r)] for y, r in enumerate(rows)])
    first = cur
    for op in c['ops']:
        text = ''.join(json.dumps([[{'tile': conv.to_json_tile(t), **e} for t, e in r] for r in rows]) + '\n' for rows in cur)
        argv = [op] if not (op == 'rot_90' and c['extra'] == 'none') else []     # a quarter turn is the default
        res = tools.need_ok(tools.run('rotate', argv, text), 'rotate ' + op, ('EOFError',))
        got = []
        for line in res.lines:
            got.append([[(conv.from_json_tile(cell['tile']), {k: v for k, v in cell.items() if k != 'tile'}) for cell in r] for r in json.loads(line)])
        want = [reference(op, rows) for rows in cur]
        if len(got) != len(want):
            raise Violation(f'{op}: {len(want)} layouts in, {len(got)} out')
        for a, b, src in zip(got, want, cur):
            ta, tb = ([[x[0] for x in r] for r in g] for g in (a, b))
            if ta != tb:
                raise Violation(f'{op} of\n{conv.show([[x[0] for x in r] for r in src])}\ngives\n{conv.show(ta)}\ninstead of\n{conv.show(tb)}\n{[[x, y] for p, q in zip(ta, tb) for x, y in zip(p, q) if x != y][:3]}')
            if a != b:
                raise Violation(f'{op}: the other data of a cell did not travel with it')
        for src, a in zip(cur, got):
            s, t = ([[x[0] for x in r] for r in g] for g in (src, a))
            legal = phys.base_violation(s, 10 ** 9) is None
            if legal != (phys.base_violation(t, 10 ** 9) is None):
                raise Violation(f'{op} changed the legality of\n{conv.show(s)}')
            if legal and any(x[0] == 'split' for r in s for x in r):
                rec.event('legal with splitters')
        cur = got
    if tuple(c['ops']) in (('rot_90',) * 4, ('flip_x',) * 2, ('flip_y',) * 2, ('rot_180',) * 2, ('rot_270', 'rot_90'), ('flip_x', 'flip_y', 'rot_180')):
        rec.event('group law')
        if cur != first:
            raise Violation(f"{c['ops']} does not give the original back")
    for rows in c['layouts']:
        if len({tuple(t) for r in rows for t in r} - {phys.EMPTY}) >= 2:
            rec.nontrivial((rows, c['ops']), {'ops': c['ops'], 'layout': conv.show(conv.tup(rows)).split('\n')})


SUBS = [Sub('rotate', check, gen=lambda tier: cases(), quick=1200, thorough=20000, shards=8, tshards=8, hang=60)]

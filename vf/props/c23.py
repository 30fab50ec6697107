import itertools
import json

from hypothesis import strategies as st

from .. import conv, corpus, gen, iso, phys, pin, tools
from ..core import Sub, Violation
from ..phys import EMPTY
from .c13 import crop

RULE = ('A case is (a) a tile value written and read back, (b) a layout solved by the encoder with or without colours and '
        'passed on to the other tools with and without its tile entries, or (c) a layout in one of the two older cell '
        'formats. Non-trivial: the layout has at least two different non-empty tiles; distinct by layout and format.')
ASSUMPTIONS = ['Older cells: either direction and splitter fields only, or is_empty/is_belt/... flags with directions as numbers.']

TILES = phys.ALL_TILES + [phys.FILLER] + [('ins', d, k) for d in range(4) for k in (0, 1)] + [('asm', x, y) for x in range(3) for y in range(3)]


def check_tiles(c, rec):
    from factorio_sat.blueprint import read_tile, write_tile
    from factorio_sat.tile import BaseTile
    t = tuple(c)
    tile = conv.to_tile(t)
    j = json.loads(json.dumps(tile.write()))
    if conv.from_json_tile(j) != t:
        raise Violation(f'{t} is written as {j}')
    back = BaseTile.read(j)
    if back != tile or type(back) is not type(tile) or conv.from_tile(back) != t:
        raise Violation(f'{t} reads back as {back}')
    ref = BaseTile.read(conv.to_json_tile(t))
    if ref != tile:
        raise Violation(f'the written form {conv.to_json_tile(t)} is read as {ref}')
    cell = json.loads(json.dumps(write_tile(tile)))
    if read_tile(cell) != tile or read_tile({**cell, 'colour': 3, 'input_direction': 2, 'output_direction': 2, 'is_splitter': None}) != tile:
        raise Violation(f'a cell holding {t} is read as {read_tile(cell)}')
    rec.nontrivial(t)


def note(rec, rows, fmt):
    if len({t for r in rows for t in r} - {EMPTY}) >= 2:
        rec.nontrivial((rows, fmt), {'format': fmt, 'layout': conv.show(rows).split('\n')})


@st.composite
def solved(draw):
    w, h = draw(st.integers(1, 6)), draw(st.integers(1, 6))
    return {'rows': draw(gen.layouts(w, h, 4, mutate=False)), 'colours': draw(st.sampled_from([None, None, 1, 3])), 'solver': draw(st.sampled_from(['g3', 'cadical153', 'm22']))}


def consume(rows, text, rec, what):
    """Every reader sees the same layout."""
    st_ = tools.need_ok(tools.run('stringifier', ['encode'], text), f'stringifier encode of {what}', ('EOFError',))
    dec = tools.need_ok(tools.run('stringifier', ['decode'], st_.out), 'stringifier decode', ('EOFError',))
    if tools.parse_layouts(dec.out) != [rows]:
        raise Violation(f'{what}: the text picture shows another layout\n{conv.show(rows)}\n{st_.out}')
    bp = tools.need_ok(tools.run('blueprint', ['encode'], text), f'blueprint encode of {what}', ('EOFError',))
    ents = corpus.decode(bp.lines[0])['blueprint']['entities']
    if corpus.entities_to_rows(ents) != crop(corpus.bend(rows)):
        raise Violation(f'{what}: the blueprint shows another layout\n{conv.show(rows)}')
    from factorio_sat.blueprint import convert_to_tiles
    got = [[conv.from_tile(t) for t in r] for r in convert_to_tiles(text.strip())]
    if got != rows:
        raise Violation(f'{what}: read as a partial layout it is\n{conv.show(got)}\ninstead of\n{conv.show(rows)}')


def check_solved(c, rec):
    from factorio_sat.solver import Grid
    rows = conv.tup(c['rows'])
    if phys.base_violation(rows, 4, block_ug=(True,) * 4):
        rec.event('not legal')
        return
    grid = pin.make_grid(len(rows[0]), len(rows), 4, block_ug=(True,) * 4, colours=c['colours'])
    for y, r in enumerate(rows):
        for x, t in enumerate(r):
            grid.set_tile(x, y, conv.to_tile(t))
    sol = grid.solve(c['solver'])
    if sol is None:
        raise Violation(f'no solution for a legal layout\n{conv.show(rows)}')
    text = json.dumps(sol.tolist())
    if conv.rows_of_solution(json.loads(text)) != rows:
        raise Violation(f'the solver output shows another layout\n{conv.show(rows)}')
    consume(rows, text + '\n', rec, 'solver output')
    rot = tools.need_ok(tools.run('rotate', ['no_op'], text + '\n'), 'rotate', ('EOFError',))
    if json.loads(rot.lines[0]) != json.loads(text):
        raise Violation('rotate no_op changed the solver output')
    # the same layout in the two older forms
    for style in ('plain', 'flags', 'flags2'):
        cells = [[old_cell(t, style, (x + y) % 4) for x, t in enumerate(r)] for y, r in enumerate(rows)]
        consume(rows, json.dumps(cells) + '\n', rec, f'older output ({style})')
        with tools.Scratch() as s:
            outs = []
            for i, t in enumerate((text, json.dumps(cells))):
                tools.need_ok(tools.run('network', ['parse', s.join(str(i))], t + '\n'), 'network parse')
                outs.append(corpus.read_network(s.join(str(i))))
            if iso.isomorphic(*outs) is False:
                raise Violation(f'network parse reads the two forms differently\n{conv.show(rows)}')
    note(rec, rows, 'solved')


@st.composite
def flagged(draw):
    rows = draw(st.one_of(gen.entity_rows(5, 5, ('belt', 'ug', 'split', 'ins', 'asm'), bent=False), gen.any_rows(4, 4, [t for t in TILES if t != phys.FILLER])))
    style = draw(st.sampled_from(['plain', 'flags', 'flags2']))
    if style == 'plain':
        rows = [[t if t[0] not in ('ins', 'asm') else EMPTY for t in r] for r in rows]
    picks = draw(st.lists(st.integers(0, 3), min_size=1, max_size=8))
    return {'rows': rows, 'style': style, 'picks': picks}


def old_cell(t, style, k):
    """t as an older tool wrote it; k selects among equivalent forms."""
    k0 = t[0]
    if style == 'plain':
        c = {'input_direction': None, 'output_direction': None, 'is_splitter': False, 'is_splitter_head': False}
        if k0 == 'belt':
            c.update(input_direction=t[1], output_direction=t[2])
        elif k0 == 'ug':
            c['input_direction' if t[2] else 'output_direction'] = t[1]
        elif k0 == 'split':
            c.update(is_splitter=True, is_splitter_head=t[2])
            if k != 1:
                c['input_direction'] = t[1]
            if k != 2:
                c['output_direction'] = t[1]
        return c
    c = {'input_direction': None, 'output_direction': None, 'is_empty': False, 'is_belt': False, 'is_underground_in': False, 'is_underground_out': False,
         'is_splitter': None if k % 2 else False, 'is_inserter': None, 'is_assembling_machine': False, 'colour_direction': None}
    if style == 'flags2':
        del c['colour_direction']
    if k0 == 'empty':
        c['is_empty'] = True
    elif k0 == 'belt':
        c.update(is_belt=True, input_direction=t[1], output_direction=t[2])
        if style == 'flags' and k == 1:
            c.update(input_direction=None, colour_direction=t[1])
        elif style == 'flags' and k == 2:
            c.update(output_direction=None, colour_direction=t[2])
    elif k0 == 'ug':
        c['is_underground_in' if t[2] else 'is_underground_out'] = True
        c['input_direction' if t[2] else 'output_direction'] = t[1]
    elif k0 == 'split':
        if style == 'flags':
            c.update(is_splitter=int(t[2]), colour_direction=t[1])
        else:
            c.update(is_splitter=True, splitter_direction=t[1], splitter_side=int(t[2]))
    elif k0 == 'ins':
        c.update(is_inserter=t[2], inserter_direction=t[1])
    elif k0 == 'asm':
        c.update(is_assembling_machine=True, assembling_x=t[1], assembling_y=t[2])
    return c


def check_old(c, rec):
    from factorio_sat.blueprint import convert_to_tiles
    rows = conv.tup(c['rows'])
    n = 0
    cells = []
    for r in rows:
        cells.append([])
        for t in r:
            cells[-1].append(old_cell(t, c['style'], c['picks'][n % len(c['picks'])]))
            n += 1
    tiles = convert_to_tiles(json.dumps(cells))
    got = [[conv.from_tile(t) if not isinstance(getattr(t, 'direction', None), int) else ('number',) for t in r] for r in tiles]
    if got != rows:
        bad = next((c_, a, b) for cr, ar, br in zip(cells, rows, got) for c_, a, b in zip(cr, ar, br) if a != b)
        raise Violation(f'the older cell {bad[0]} of {bad[1]} is read as {bad[2]}')
    again = [[conv.from_json_tile(t.write()) for t in r] for r in tiles]
    if again != rows:
        raise Violation('rewriting an older layout changes it')
    note(rec, rows, c['style'])


def check_impossible(c, rec):
    """A belt that enters and leaves on the same side is no tile, in whatever form it comes."""
    from factorio_sat.blueprint import convert_to_tiles
    i, o = c['in'], c['out']
    cell = {'tile': {'type': 'belt', 'input_direction': i, 'output_direction': o}}
    if c['form'] == 'older':
        cell = {'input_direction': i, 'output_direction': o, 'is_splitter': False, 'is_splitter_head': False}
    rows = [[cell if (x, y) == (c['x'], c['y']) else {'tile': {'type': 'empty'}} for x in range(3)] for y in range(2)]
    try:
        tiles = convert_to_tiles(json.dumps(rows))
    except Exception:
        if o != (i + 2) % 4:
            raise
        tiles = None
    if o == (i + 2) % 4 and tiles is not None:
        raise Violation(f'a belt that enters and leaves on the same side is read as {tiles[c["y"], c["x"]]}')
    if tiles is not None and conv.from_tile(tiles[c['y'], c['x']]) != ('belt', i, o):
        raise Violation(f'belt ({i}, {o}) is read as {tiles[c["y"], c["x"]]}')
    rec.nontrivial(repr(c))


def impossible(tier):
    for i, o, form, x, y in itertools.product(range(4), range(4), ('tile', 'older'), range(3), range(2)):
        yield {'in': i, 'out': o, 'form': form, 'x': x, 'y': y}


SUBS = [
    Sub('impossible', check_impossible, cases=impossible, hang=60),
    Sub('tiles', check_tiles, cases=lambda tier: TILES, hang=60),
    Sub('solved', check_solved, gen=lambda tier: solved(), quick=160, thorough=3000, shards=8, tshards=8),
    Sub('older', check_old, gen=lambda tier: flagged(), quick=3000, thorough=30000, shards=4, tshards=8, hang=60),
]

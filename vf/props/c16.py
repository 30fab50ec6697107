import json

from hypothesis import strategies as st

from .. import conv, gen, phys, tools
from ..core import Sub, Violation

RULE = ('A case is one or several layouts of empty, filler, belt, underground and splitter tiles (every tile value '
        'anywhere, or a working layout), drawn and read back by the functions or the command line tool. Non-trivial: '
        'a layout with at least two different non-empty tiles; distinct by layout.')
ASSUMPTIONS = ['Inserters and machines have no character of their own and are outside the domain.']

DOMAIN = phys.ALL_TILES + [phys.FILLER]


def grid(rows):
    import numpy as np
    tiles = np.full((len(rows), len(rows[0])), None, dtype=object)
    for y, r in enumerate(rows):
        for x, t in enumerate(r):
            tiles[y, x] = conv.to_tile(t)
    return tiles


_chars = {}


def chars():
    """The character of each tile, from pictures of single tiles."""
    if not _chars:
        from factorio_sat import stringifier
        for t in DOMAIN:
            pic = stringifier.encode(grid([[t]])).split('\n')
            if len(pic) != 3 or any(len(line) != 3 for line in pic):
                raise Violation(f'the picture of a single tile is not 3 by 3: {pic}')
            _chars[t] = pic[1][1]
        if len(set(_chars.values())) != len(_chars):
            dup = [t for t in DOMAIN if list(_chars.values()).count(_chars[t]) > 1]
            raise Violation(f'tiles share a character: {dup}')
    return _chars


def check_picture(rows, pic):
    ch = chars()
    h, w = len(rows), len(rows[0])
    if len(pic) != h + 2:
        raise Violation(f'{len(pic)} lines for {h} rows')
    if any(len(line) != 2 * w + 1 for line in pic):
        raise Violation(f'lines of {set(map(len, pic))} characters for {w} columns')
    frame = set(''.join(pic[0] + pic[-1]) + ''.join(line[0] + line[-1] for line in pic))
    if frame & (set(ch.values())):
        raise Violation('the picture is not framed')
    # one picture looks like the next: the same corners, and the same line all along an edge
    for name, marks in {'top': pic[0][1:-1], 'bottom': pic[-1][1:-1], 'left': [line[0] for line in pic[1:-1]], 'right': [line[-1] for line in pic[1:-1]],
                        'horizontal': pic[0][1] + pic[-1][1], 'vertical': pic[1][0] + pic[1][-1]}.items():
        if len(set(marks)) != 1:
            raise Violation(f'the {name} edge of the frame has gaps: {marks!r}')
    corners = [pic[0][0], pic[0][-1], pic[-1][0], pic[-1][-1]]
    if len(set(corners) | {pic[0][1], pic[1][0]}) != 6:
        raise Violation(f'the corners of the frame are not all different: {corners}')
    for y, r in enumerate(rows):
        if [pic[y + 1][1 + 2 * x] for x in range(w)] != [ch[t] for t in r]:
            raise Violation(f'row {y} is drawn as {pic[y + 1]!r}\n{conv.show(rows)}')
        if any(pic[y + 1][2 * x] != ' ' for x in range(1, w)):
            raise Violation(f'row {y} has marks between its tiles: {pic[y + 1]!r}')


def note(rec, rows):
    if len({t for r in rows for t in r} - {phys.EMPTY}) >= 2:
        rec.nontrivial(rows, conv.show(rows).split('\n'))


LAYOUT = gen.mostly(st.one_of(gen.any_rows(9, 9, DOMAIN), gen.entity_rows(8, 8, ('belt', 'ug', 'split', 'filler'))),
                    gen.large_rows(36, ('belt', 'ug', 'split', 'filler'), bent=False), 20)


def check_functions(c, rec):
    from factorio_sat import stringifier
    rows = conv.tup(c)
    pic = stringifier.encode(grid(rows)).split('\n')
    check_picture(rows, pic)
    back = [[conv.from_tile(t) for t in r] for r in stringifier.decode(pic)]
    if back != rows:
        raise Violation(f'decoding gives another layout\n{conv.show(rows)}\n--\n{conv.show(back)}')
    note(rec, rows)


def check_tool(c, rec):
    layouts = [conv.tup(r) for r in c]
    text = ''.join(json.dumps([[{'tile': conv.to_json_tile(t), 'colour': x + y} for x, t in enumerate(r)] for y, r in enumerate(rows)]) + '\n' for rows in layouts)
    enc = tools.need_ok(tools.run('stringifier', ['encode'], text), 'stringifier encode', ('EOFError',))
    lines = enc.lines
    for rows in layouts:
        check_picture(rows, lines[:len(rows) + 2])
        lines = lines[len(rows) + 2:]
    if lines:
        raise Violation(f'{len(lines)} extra lines')
    dec = tools.need_ok(tools.run('stringifier', ['decode'], enc.out), 'stringifier decode', ('EOFError',))
    got = tools.parse_layouts(dec.out)
    if got != layouts:
        raise Violation(f'decoding {len(layouts)} pictures gives {len(got)} layouts, not the original ones in order')
    for rows in layouts:
        note(rec, rows)


SUBS = [
    Sub('functions', check_functions, gen=lambda tier: LAYOUT, quick=3000, thorough=40000, shards=6, tshards=8, hang=60),
    Sub('tool', check_tool, gen=lambda tier: st.lists(LAYOUT, min_size=1, max_size=4), quick=200, thorough=3000, shards=4, tshards=8, hang=60),
]

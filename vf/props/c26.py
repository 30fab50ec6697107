import json
import os
import re

from hypothesis import strategies as st

from .. import conv, corpus, gen, glfake, phys, tools
from ..core import REPO, Sub, Violation
from .c23 import old_cell

RULE = ('A case is a stream of layouts (every tile kind, colours, tunnels) with display options and either --export-all or a sequence of keys, '
        'run through the render tool with stand-ins for OpenGL, pygame and ffmpeg that record sprites, tints, lines and exported frames. '
        'Non-trivial: at least two different non-empty tiles are drawn; distinct by stream and options.')
ASSUMPTIONS = ['What is judged is the list of drawing operations (sprite, place, tint), not pixels; the stand-ins in vf/glfake.py follow OpenGL, pygame and ffmpeg.',
               'Sprite sheets are laid out as the game lays them out.', 'Exact offsets of splitter, inserter and machine sprites are not pinned.']

# rows of the belt sheet in the order in which the game has them
BELT_ROWS = ['east', 'west', 'north', 'south', 'east_to_north', 'north_to_east', 'west_to_north', 'north_to_west', 'south_to_east', 'east_to_south',
             'south_to_west', 'west_to_south', 'starting_south', 'ending_south', 'starting_west', 'ending_west', 'starting_north', 'ending_north', 'starting_east', 'ending_east']
SIDE = ['east', 'north', 'west', 'south']
DOMAIN = phys.ALL_TILES + [phys.FILLER] + [('ins', d, k) for d in range(4) for k in (0, 1)] + [('asm', x, y) for x in range(3) for y in range(3)]
BELT = 'hr-transport-belt.png'
WORD = re.compile(r'[\w.-]+')
UNDER = 'hr-underground-belt-structure.png'
_loaded = []


def load():
    if not _loaded:
        glfake.install(REPO)
        import factorio_sat.render
        glfake.image(BELT)
        _loaded.append(factorio_sat.render)


def near(a, b, eps=1e-3):
    return all(abs(x - y) <= eps for x, y in zip(a, b))


def belt_row(t):
    if t[0] == 'belt':
        i, o = t[1], t[2]
        return SIDE[i] if i == o else SIDE[phys.rev(i)] + '_to_' + SIDE[o]
    if t[0] == 'ug':
        return 'ending_' + SIDE[t[1]] if t[2] else 'starting_' + SIDE[phys.rev(t[1])]
    return SIDE[t[1]]


def frame(sheet, col, row):
    w, h, _, _ = glfake.SHEETS[sheet]
    return (col * w, row * h, col * w + w, row * h + h)


def check_tile(t, quads, a, x, y):
    """quads: what was drawn for this tile, in order."""
    def fail(why):
        raise Violation(f'{t} at {(x, y)} in frame {a}: {why}; drawn {[(q.sheet, q.rect()) for q in quads]}')
    want = {'belt': [BELT], 'ug': [BELT, UNDER]}.get(t[0])
    if t[0] == 'split':
        d, head = t[1], t[2]
        patch = '-top_patch' if d in (0, 2) and (head == (d == 2)) else ''
        want = [BELT, f'hr-splitter-{SIDE[d]}{patch}.png']
    if want is not None:
        if [q.sheet for q in quads] != want:
            fail(f'sheets should be {want}')
        if any(q.rect() is None for q in quads):
            fail('turned or mirrored')
        src, dst = quads[0].rect()
        if not near(src, frame(BELT, a % 16, BELT_ROWS.index(belt_row(t)))) or not near(dst, (x - 0.5, y - 0.5, x + 1.5, y + 1.5)):
            fail('wrong belt picture')
        if t[0] == 'ug':
            src, dst = quads[1].rect()
            # columns north, east, south, west; an exit is drawn from the side it comes from; upper row exits
            facing = t[1] if t[2] else phys.rev(t[1])
            if not near(src, frame(UNDER, [1, 0, 3, 2][facing], 1 if t[2] else 0)) or not near(dst, (x - 1, y - 1, x + 2, y + 2)):
                fail('wrong tunnel picture')
        if t[0] == 'split':
            src, dst = quads[1].rect()
            full = frame(want[1], a % 8, a // 8 % 4)
            if d in (0, 2):
                if not near(src, full):
                    fail('wrong splitter picture')
            else:
                left = head == (d == 3)
                if not near((src[1], src[3]), (full[1], full[3])) or not near([src[0 if left else 2]], [full[0 if left else 2]]):
                    fail('wrong part of the splitter picture')
                share = (src[2] - src[0]) / (full[2] - full[0])
                if not 0.35 < share < 0.65:
                    fail('half a splitter is not about half the picture')
            if not near([(src[2] - src[0]) / 64, (src[3] - src[1]) / 64], [dst[2] - dst[0], dst[3] - dst[1]]):
                fail('stretched')
            if not (x - 0.25 < (dst[0] + dst[2]) / 2 < x + 1.25 and y - 0.25 < (dst[1] + dst[3]) / 2 < y + 1.25):
                fail('beside its tile')
    elif t[0] == 'ins':
        kind = 'inserter' if t[2] == 0 else 'long-handed-inserter'
        base = ['hr-' + kind + '-platform.png', 'hr-' + kind + '-hand-base.png']
        if [q.sheet for q in quads[:2]] != base or len(quads) != 3 or not quads[2].sheet.startswith('hr-' + kind + '-hand-'):
            fail('wrong inserter pictures')
        if quads[0].rect() is None or abs((quads[0].rect()[1][0] + quads[0].rect()[1][2]) / 2 - x - 0.5) > 0.6 or abs((quads[0].rect()[1][1] + quads[0].rect()[1][3]) / 2 - y - 0.5) > 0.6:
            fail('platform beside its tile')
    else:
        if [q.sheet for q in quads] != ['hr-assembling-machine-1.png'] or quads[0].rect() is None:
            fail('wrong machine picture')
        src, dst = quads[0].rect()
        full = frame('hr-assembling-machine-1.png', a % 8, a // 8 % 4)
        for i, part in ((0, t[1]), (1, t[2])):
            lo, hi = (src[i] - full[i]) / (full[i + 2] - full[i]), (src[i + 2] - full[i]) / (full[i + 2] - full[i])
            if abs((lo + hi) / 2 - [1 / 6, 1 / 2, 5 / 6][part]) > 0.1:
                fail('wrong part of the machine')
            if abs((dst[i] + dst[i + 2]) / 2 - (x, y)[i] - 0.5) > 0.3:
                fail('beside its tile')


LAST = ('split', 0, True)
_singles = {}


def quads_of(content):
    return [v for k, v in content.items if k == 'quad']


def singles():
    """What each tile looks like on its own at the top left, for each of 32 frames (judged by check_tile)."""
    if not _singles:
        tiles = [t for t in DOMAIN if t not in (phys.EMPTY, phys.FILLER)]
        S, _ = render([[[cell(t, 0)] + [cell(phys.EMPTY, 0)] * 3 + [cell(LAST, 0)]] for t in [LAST] + tiles], ['--export-all'], None)
        check_exports(S, len(tiles) + 1)
        ends = [{q.moved(4, 0) for q in quads_of(c) if min(w[0] for _, w in q.corners) > 2} for c in S['exports'][0]['contents']]
        for t, e in zip([LAST] + tiles, S['exports']):
            pics = []
            for a, c in enumerate(e['contents']):
                quads = [q for q in quads_of(c) if q.moved(4, 0) not in ends[a]]
                check_tile(t, quads, a, 0, 0)
                pics.append([q.moved(0, 0) for q in quads])
            _singles[t] = pics
        try:
            check_inserters()
        except Violation:
            _singles.clear()
            raise
        seen = {}
        for t, pics in _singles.items():
            if str(pics) in seen:
                raise Violation(f'{t} looks like {seen[str(pics)]}')
            seen[str(pics)] = t
    return _singles


def check_inserters():
    """Inserters of the four directions are turns of one another: the arm swings from the front (open) to the back and returns closed."""
    for k in (0, 1):
        for d in range(4):
            for a in range(32):
                platform, arm, hand = _singles['ins', d, k][a]
                where = f'inserter {(d, k)} in frame {a}'
                col = platform[1][0][0][0]
                w = glfake.SHEETS[platform[0]][0]
                if not near([min(s[0] for s, _ in platform[1])], [(1 - d) % 4 * w]):   # clockwise in the sheet
                    raise Violation(f'{where}: wrong platform ({col})')
                if a != 16 and not hand[0].endswith('-hand-closed.png' if a > 16 else '-hand-open.png'):
                    raise Violation(f'{where}: the hand is {hand[0]}')
                for pic, ref in zip((arm, hand), _singles['ins', 0, k][a][1:]):
                    for (s0, w0), (s1, w1) in zip(ref[1], pic[1]):
                        for _ in range(d):
                            w0 = (w0[1], 1 - w0[0])
                        if not near(s0, s1) or not near(w0, w1):
                            raise Violation(f'{where}: the arm is not turned with the inserter')
                ahead = [(sum(w[0] for _, w in p[1]) / 4 - 0.5) for p in (arm, hand)] if d == 0 else []
                if d == 0 and a in (0, 16) and not all(v > 0.1 if a == 0 else v < -0.1 for v in ahead):
                    raise Violation(f'{where}: the arm points the wrong way {ahead}')


def check_exports(S, n):
    if len(S['exports']) != n:
        raise Violation(f'{len(S["exports"])} files exported for {n} layouts')


def shift(pic, dx, dy):
    return pic[0], tuple((s, (glfake.r(w[0] + dx), glfake.r(w[1] + dy))) for s, w in pic[1])


def cell(t, colour):
    return {'tile': conv.to_json_tile(t), 'colour': colour}


def check_content(content, layout, a, opts):
    """One drawn frame against one layout (list of rows of cells) in animation frame a; returns a reason or None, and the tints."""
    single = singles()
    h, w = len(layout), len(layout[0])
    pad, size = opts['padding'], opts['cell']
    pixels = round(2 * pad * size)
    if tuple(content.viewport) != (0, 0, max(w * size + pixels, 1), max(h * size + pixels, 1)):
        return f'window of {content.viewport} for {w} by {h} tiles', None
    left, right, bottom, top = content.ortho
    for v, lo, hi, n in ((0, left, right, w), (w, left, right, w), (0, top, bottom, h), (h, top, bottom, h)):
        # where a tile boundary comes to lie, in pixels
        if abs((v - lo) / (hi - lo) * (n * size + pixels) - (v + pad) * size) > 1:
            return f'tiles are not {size} pixels large: {content.ortho}', None
    drawn = {}
    texts = []
    for q in quads_of(content):
        if q.text is not None:
            texts.append(q)
            continue
        if q.sheet is None:
            return 'a quad without a picture', None
        drawn.setdefault(q.moved(0, 0), []).append(q.colour)
    tints = {}
    want = 0
    for y, row in enumerate(layout):
        for x, cel in enumerate(row):
            t = conv.from_json_tile(cel['tile'])
            if t in (phys.EMPTY, phys.FILLER):
                continue
            for pic in single[t][a]:
                pic = shift(pic, x, y)
                if len(drawn.get(pic, ())) != 1:
                    return f'{t} at {(x, y)} is not drawn as it is elsewhere', None
                tints.setdefault(colour_of(cel), set()).add(drawn[pic][0])
                want += 1
    if want != sum(map(len, drawn.values())):
        return f'{sum(map(len, drawn.values()))} pictures drawn instead of {want}', None
    order = [q.sheet for q in quads_of(content) if q.sheet is not None]
    if BELT in order:
        above = [i for i, s in enumerate(order) if s == UNDER or s.startswith('hr-splitter')]
        if above and above[0] < len(order) - order[::-1].index(BELT) - 1:
            return 'belts are drawn over splitters or tunnel entrances', None
    # lines: the grid at whole numbers, tunnels at halves
    grid, tunnels = set(), {}
    for k, v in content.items:
        if k != 'line':
            continue
        (x0, y0), (x1, y1), colour = v
        if x0 == x1 and x0 == int(x0):
            grid.add(('v', x0, min(y0, y1) <= 0 and max(y0, y1) >= h))
        elif y0 == y1 and y0 == int(y0):
            grid.add(('h', y0, min(x0, x1) <= 0 and max(x0, x1) >= w))
        else:
            if y0 == y1:
                key = ('h', min(x0, x1), y0, max(x0, x1))
            else:
                key = ('v', x0, min(y0, y1), max(y0, y1)) if x0 == x1 else None
            tunnels.setdefault(key, set()).add(colour)
    if not {('v', float(x), True) for x in range(w)} | {('h', float(y), True) for y in range(h)} <= grid:
        return 'the grid has gaps', None
    expect = {}
    if opts['underground']:
        for y, row in enumerate(layout):
            for x, cel in enumerate(row):
                u = cel.get('underground')
                if u and (u[0] or u[2]):
                    expect['h', float(x), y + 0.5, x + 1.0] = colour_of(cel, 'colour_ux')
                if u and (u[1] or u[3]):
                    expect['v', x + 0.5, float(y), y + 1.0] = colour_of(cel, 'colour_uy')
    if set(expect) != set(tunnels):
        return f'tunnels are shown at {sorted(map(str, tunnels))[:4]}... instead of {sorted(map(str, expect))[:4]}...', None
    for key, colour in expect.items():
        tints.setdefault(colour, set()).update(tunnels[key])
    if opts['hide']:
        if any(v != {(1.0, 1.0, 1.0)} for v in tints.values()):
            return f'coloured although colours are hidden: {tints}', None
        tints = {}
    for colour, v in tints.items():
        if len(v) != 1:
            return f'colour {colour} is drawn in {len(v)} tints', None
    if len({next(iter(v)) for v in tints.values()}) != len(tints):
        return f'colours share a tint: {tints}', None
    # overlaid attributes
    for y, row in enumerate(layout):
        for x, cel in enumerate(row):
            here = [q for q in texts if x - 1e-3 <= q.corners[0][1][0] < x + 1 - 1e-3 and y - 1e-3 <= q.corners[0][1][1] < y + 1 - 1e-3]
            for q in here:
                if q.rect() is None or not near(q.rect()[0], (0, 0, 1, 1)):
                    return f'text {q.text!r} is turned or cut', None
                if any(not (x - 1e-3 <= wx <= x + 1 + 1e-3 and y - 1e-3 <= wy <= y + 1 + 1e-3) for _, (wx, wy) in q.corners):
                    return f'text {q.text!r} sticks out of its tile', None
            here.sort(key=lambda q: q.corners[0][1][1])
            got = ' '.join(q.text for q in here)
            exp = ' '.join(shown(value(cel, name)) for name in opts['raw'])
            if WORD.findall(got) != WORD.findall(exp):
                return f'tile {(x, y)} shows {got!r} instead of {exp!r}', None
    return None, {c: next(iter(v)) for c, v in tints.items()}


def value(cel, name):
    for piece in name.split('.'):
        cel = cel[int(piece)] if piece.lstrip('-').isdigit() else cel.get(piece)
    return cel


def shown(v):
    if isinstance(v, list):
        return '[' + ' '.join(map(str, v)) + ']'
    return str(v)


def cells(c):
    rows = conv.tup(c['rows'])
    out = []
    for y, row in enumerate(rows):
        line = []
        for x, t in enumerate(row):
            n = (x * 7 + y * 3 + c['salt']) % 97
            cell = {'tile': conv.to_json_tile(t)}
            if c['colours'] == 'scalar':
                cell['colour'] = n % c['ncol']
            elif c['colours'] == 'gaps':
                cell['colour'] = None if n % 4 == 0 else 3 * (n % c['ncol']) + 2
            elif c['colours'] == 'list':
                cell['colour'] = [n % c['ncol'], n % c['ncol']]
            if c['tunnels'] and not (c.get('partly') and n % 3 == 0):
                cell['underground'] = [n % 5 == 0, n % 7 == 1, n % 5 == 1, n % 7 == 2]
                if c['colours'] != 'none':
                    cell['colour_ux'] = (n // 2) % c['ncol']
                    cell['colour_uy'] = (n // 3) % c['ncol'] if c['colours'] != 'gaps' else None
            line.append(cell)
        out.append(line)
    return out


def sent(layouts, c):
    """The layouts as the tool is given them."""
    if not c.get('older'):
        return layouts
    return [[[dict({k: v for k, v in cel.items() if k != 'tile'}, **old_cell(conv.from_json_tile(cel['tile']), 'plain', 0)) for cel in row] for row in layout] for layout in layouts]


def colour_of(cell, key='colour'):
    v = cell.get(key, 0)
    return v[0] if isinstance(v, list) else v


def render(layouts, args, keys, text=None):
    load()
    stdin = ''.join(json.dumps(cells_) + '\n' for cells_ in layouts) if text is None else text

    def setup(mod):
        glfake.reset()
        glfake.Script.keys = keys
        glfake.Script.wait = 0
        glfake.Script.frames = 0

    def collect():
        import numpy as np
        S = glfake.S
        exports = []
        for name, out, inp, data, overwrite, closed in S.exports:
            size = tuple(map(int, str(inp.get('s', '0x0')).split('x')))
            per = size[0] * size[1] * 3
            e = {'name': name, 'out': out, 'in': inp, 'size': size, 'rest': len(data) % per if per else -1, 'overwrite': overwrite, 'closed': closed, 'contents': [], 'upright': True}
            for i in range(len(data) // per if per else 0):
                f = np.frombuffer(data[i * per:(i + 1) * per], np.uint8).reshape(size[1], size[0], 3)
                n = int(f[0, 0, 0]) + 256 * int(f[0, 0, 1])
                e['contents'].append(S.by_number[n - 1] if n else None)
                # the picture comes from the bottom row up, the video has its top row first
                e['upright'] &= bool((f[:, 0, 2] == (np.arange(size[1])[::-1] % 251)).all())
            exports.append(e)
        return {'exports': exports, 'shown': S.shown, 'contents': S.by_number, 'problems': S.problems, 'modes': S.modes, 'stack': len(S.stack)}

    with tools.Scratch() as s:
        res = tools.run('render', args, stdin, cwd=s.path, setup=setup, collect=collect)
        tools.need_ok(res, 'render ' + ' '.join(args))
        left = os.listdir(s.path)
        if left:
            raise Violation(f'render left {left}')
    if res.extra['problems']:
        raise Violation(f'drawing: {res.extra["problems"][0]}')
    return res.extra, res


@st.composite
def streams(draw, keys):
    n = draw(st.integers(1, 3))
    fixed = draw(st.booleans())
    small = draw(gen.any_rows(4, 4, DOMAIN)) if fixed else None
    layouts = []
    whole = keys and draw(st.booleans())   # can be exported as blueprints
    for _ in range(n):
        entities = gen.entity_rows(5, 5, ('belt', 'ug', 'split', 'ins', 'filler'))
        rows = draw(entities if whole else st.one_of(gen.any_rows(4, 4, DOMAIN), gen.any_rows(4, 4, phys.ALL_TILES), entities))
        if fixed and not whole:
            rows = [row[:len(small[0])] + [phys.EMPTY] * (len(small[0]) - len(row)) for row in (rows + [[phys.EMPTY]] * len(small))[:len(small)]]
        layouts.append({'rows': rows, 'salt': draw(st.integers(0, 96)), 'colours': draw(st.sampled_from(['scalar', 'scalar', 'scalar', 'gaps', 'list', 'none'])),
                        'ncol': draw(st.sampled_from([1, 2, 3, 4, 7, 9, 12])), 'tunnels': draw(st.booleans())})
    c = {'layouts': layouts, 'hide': draw(st.sampled_from([False, False, True])), 'underground': draw(st.booleans()), 'cell': draw(st.sampled_from([2, 4, 7])),
         'padding': draw(st.sampled_from([0, 0, 0.5, 1, 2.5])), 'raw': [], 'count': draw(st.sampled_from([None, None, 12, 40])),
         'gif': draw(st.booleans()), 'keys': None}
    if draw(st.integers(0, 3)) == 0:
        c['raw'] = draw(st.lists(st.sampled_from(['colour', 'tile.type', 'tile', 'underground', 'underground.1', 'colour_ux', 'underground.3', 'underground.-1']), unique=True, min_size=1, max_size=3))
        if 'tile' in c['raw']:
            c['raw'].remove('tile')
        if any(not l['tunnels'] for l in layouts):
            c['raw'] = [r for r in c['raw'] if '.' not in r or r.startswith('tile')]
    if c['count'] == 12 and any(l['colours'] == 'gaps' for l in layouts):
        c['count'] = 40   # colours are numbers below the count
    for l in layouts:
        l['partly'] = not c['raw'] and draw(st.booleans())   # some cells say nothing of tunnels
    # cells as tools before the tile entry wrote them
    c['older'] = draw(st.sampled_from([False, False, True])) and not any(r.startswith('tile') for r in c['raw']) and all(
        t in phys.ALL_TILES for l in layouts for row in l['rows'] for t in row)
    if keys:
        c['keys'] = draw(st.lists(st.tuples(st.sampled_from([0, 0, 1, 3, 70]), st.sampled_from(['K_i', 'K_i', 'K_i', 'K_k', 'K_k', 'K_s', 'K_e' if whole else 'K_x', 'K_x', None])), min_size=1, max_size=8))
    return c


def options(c):
    args = ['--cell-size', c['cell']] + (['--hide-colour'] if c['hide'] else []) + (['--show-underground'] if c['underground'] else [])
    args += ['--padding', c['padding']] if c['padding'] else []
    args += ['--colour-count', c['count']] if c['count'] else []
    args += ['--export-format', 'gif'] if c['gif'] else []
    for r in c['raw']:
        args += ['--show-raw', r]
    return list(map(str, args))


def length(layout):
    return 32 if any(cel['tile']['type'] == 'splitter' for row in layout for cel in row) else 16


def check_film(e, i, layout, c, tints):
    """An exported animation of layout number i."""
    if e['name'] != f'{i}.' + ('gif' if c['gif'] else 'mp4'):
        raise Violation(f'layout {i} is saved as {e["name"]}')
    if not e['overwrite'] or not e['closed'] or e['rest'] or e['in'].get('pix_fmt') != 'rgb24' or e['in'].get('format') != 'rawvideo':
        raise Violation(f'the film is not written as a whole: {e["in"]} {e["rest"]} {e["overwrite"]}')
    if len(e['contents']) != length(layout):
        raise Violation(f'layout {i} has {len(e["contents"])} frames instead of {length(layout)}')
    if not e['upright']:
        raise Violation('the film is upside down')
    for a, content in enumerate(e['contents']):
        if content is None:
            raise Violation('an empty frame')
        why, tint = check_content(content, layout, a, c)
        if why:
            raise Violation(f'layout {i}, frame {a}: {why}\n{conv.show(conv.rows_of_solution(layout))}')
        if c['count'] and tint:
            # with a fixed number of colours each has its tint in every layout
            for k, v in tint.items():
                if tints.setdefault(k, v) != v:
                    raise Violation(f'colour {k} has two tints although the number of colours is given')


def note(c, rec):
    if c.get('older'):
        rec.event('older cells')
    for l in c['layouts']:
        kinds = {t for row in conv.tup(l['rows']) for t in row} - {phys.EMPTY, phys.FILLER}
        if len(kinds) >= 2:
            rec.nontrivial(c, conv.show(conv.tup(l['rows'])).split('\n'))
            return


def check_export(c, rec):
    layouts = [cells(l) for l in c['layouts']]
    S, res = render(sent(layouts, c), ['--export-all'] + options(c), None)
    check_exports(S, len(layouts))
    tints = {}
    for i, (layout, e) in enumerate(zip(layouts, S['exports'])):
        if e['size'] != (max(len(layout[0]) * c['cell'] + round(2 * c['padding'] * c['cell']), 1), max(len(layout) * c['cell'] + round(2 * c['padding'] * c['cell']), 1)):
            raise Violation(f'layout {i} is exported in size {e["size"]}')
        check_film(e, i, layout, c, tints)
        rec.event(f'{len(e["contents"])} frames')
    note(c, rec)


def check_keys(c, rec):
    layouts = [cells(l) for l in c['layouts']]
    S, res = render(sent(layouts, c), options(c), [tuple(k) for k in c['keys']])
    # model: the layouts read so far, and which one is shown
    known, index, closed = 1, 0, False
    films, prints = [], []
    saving = False
    frames_of = []
    exports = list(S['exports'])
    tints = {}
    matched = {}
    for kind, v in S['shown']:
        if kind == 'key':
            if v in ('K_i', 'K_k'):
                index += 1 if v == 'K_i' else -1
                while not closed and index >= known:
                    if known < len(layouts):
                        known += 1
                    else:
                        closed = True
                index %= known
                frames_of = []
                rec.event('layout changed')
            elif v == 'K_e':
                prints.append(index)
            elif v == 'K_s':
                saving = True
            continue
        if not v:
            raise Violation('nothing is shown')
        if (v, index) not in matched:
            for a in range(length(layouts[index])):
                why, _ = check_content(S['contents'][v - 1], layouts[index], a, c)
                if not why:
                    matched[v, index] = a
                    break
            else:
                raise Violation(f'after {c["keys"]} layout {index} is not what is shown: {check_content(S["contents"][v - 1], layouts[index], 0, c)[0]}')
        frames_of.append(matched[v, index])
        if saving and len(frames_of) >= 2 * length(layouts[index]) + 2:
            # by now every frame has been shown, so it must have been saved
            films.append(index)
            saving = False
        if len(frames_of) >= 2 * length(layouts[index]) + 2 and len({str(singles_key(layouts[index], a)) for a in frames_of[-2 * length(layouts[index]):]}) != len(
                {str(singles_key(layouts[index], a)) for a in range(length(layouts[index]))}):
            raise Violation('the animation does not run through all its frames')
    # a film that was asked for shortly before a change or the end may or may not be there
    for e in exports:
        i = int(e['name'].split('.')[0])
        if i >= len(layouts):
            raise Violation(f'{e["name"]} for {len(layouts)} layouts')
        check_film(e, i, layouts[i], c, tints)
    saved = [int(e['name'].split('.')[0]) for e in exports]
    for i in films:
        if i not in saved:
            raise Violation(f'layout {i} was not saved')
    if len(saved) > sum(k == 'K_s' for _, k in c['keys']):
        raise Violation('more films than asked for')
    strings = [line for line in res.lines if line.startswith('0')  and len(line) > 30]
    if len(strings) != len(prints):
        raise Violation(f'{len(strings)} blueprints printed instead of {len(prints)}')
    for s, i in zip(strings, prints):
        want = entity_set(conv.rows_of_solution(layouts[i]))
        got = entity_set(corpus.entities_to_rows(corpus.decode(s)['blueprint'].get('entities', [])) or [[phys.EMPTY]])
        if got != want:
            raise Violation(f'the blueprint is not layout {i}\n{conv.show(conv.rows_of_solution(layouts[i]))}')
        rec.event('blueprint compared')
    if closed and 'All solutions found' not in res.out:
        raise Violation('the end of the stream is not announced')
    rec.event('films saved', len(saved))
    note(c, rec)


def singles_key(layout, a):
    s = singles()
    return [s[conv.from_json_tile(cel['tile'])][a] for row in layout for cel in row if cel['tile']['type'] not in ('empty', 'filler')]


def entity_set(rows):
    """Tiles by kind and direction relative to the first one (bends follow from the neighbours)."""
    cells_ = {(x, y): (t[0], t[2] if t[0] == 'belt' else t[1:]) for y, row in enumerate(rows) for x, t in enumerate(row) if t[0] in ('belt', 'ug', 'split', 'ins')}
    if not cells_:
        return {}
    x0, y0 = min(x for x, _ in cells_), min(y for _, y in cells_)
    return {(x - x0, y - y0): v for (x, y), v in cells_.items()}


def check_nothing(c, rec):
    S, res = render([], options(c) + (['--export-all'] if c['gif'] else []), [], text='')
    if S['exports'] or S['modes'] or 'No solutions' not in res.out:
        raise Violation(f'an empty stream gives {res.out!r} {S["modes"]}')


def check_singles(c, rec):
    singles()
    rec.event('single tiles judged', len(_singles))
    for t in _singles:
        rec.nontrivial([t])


def palettes(tier):
    for given in (False, True):
        for first in range(1, 49 if tier == 'quick' else 161, 8):
            yield {'first': first, 'given': given}


def check_palette(c, rec):
    """A row of n belts of n colours, for each n: every colour has a tint of its own."""
    sizes = range(c['first'], c['first'] + 8)
    layouts = [[[cell(('belt', 0, 0), i) for i in range(n)]] for n in sizes]
    opts = {'hide': False, 'underground': False, 'cell': 2, 'padding': 0, 'raw': [], 'count': sizes[-1] if c['given'] else None, 'gif': True}
    S, _ = render(layouts, ['--export-all'] + options(opts), None)
    check_exports(S, len(layouts))
    tints = {}
    for i, (layout, e) in enumerate(zip(layouts, S['exports'])):
        check_film(e, i, layout, opts, tints)
        rec.nontrivial([len(layout[0]), c['given']])


SUBS = [
    Sub('palette', check_palette, cases=palettes),
    Sub('tiles', check_singles, cases=lambda tier: [{}]),
    Sub('export', check_export, gen=lambda tier: streams(False), quick=120, thorough=2000, shards=8, tshards=8),
    Sub('keys', check_keys, gen=lambda tier: streams(True), quick=120, thorough=2000, shards=8, tshards=8),
    Sub('nothing', check_nothing, gen=lambda tier: streams(False), quick=3, thorough=10, shards=1, tshards=1),
]

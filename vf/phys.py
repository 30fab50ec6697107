"""Independent reference model of belt layouts.

Nothing in here uses the clauses of the code under test.  A layout is a plain list of rows; every
cell is a tuple:

    ('empty',)  ('filler',)
    ('belt', in_dir, out_dir)          directions 0 right, 1 up, 2 left, 3 down
    ('ug', dir, is_input)
    ('split', dir, is_head)
    ('ins', dir, kind)  ('asm', x, y)
"""
from fractions import Fraction

RIGHT, UP, LEFT, DOWN = range(4)
VEC = ((1, 0), (0, -1), (-1, 0), (0, 1))
EMPTY = ('empty',)
FILLER = ('filler',)


def rev(d):
    return (d + 2) % 4


def belts():
    return [('belt', i, o) for i in range(4) for o in range(4) if (i + 2) % 4 != o]


def ugs():
    return [('ug', d, i) for d in range(4) for i in (True, False)]


def splits():
    return [('split', d, h) for d in range(4) for h in (True, False)]


ALL_TILES = [EMPTY] + belts() + ugs() + splits()


class Layout:
    def __init__(self, rows, wrap=(False, False)):
        self.rows = rows
        self.h = len(rows)
        self.w = len(rows[0])
        self.wrap = wrap

    def step(self, x, y, d, n=1):
        x += VEC[d][0] * n
        y += VEC[d][1] * n
        if not 0 <= x < self.w:
            if not self.wrap[0]:
                return None
            x %= self.w
        if not 0 <= y < self.h:
            if not self.wrap[1]:
                return None
            y %= self.h
        return x, y

    def at(self, p):
        return self.rows[p[1]][p[0]]

    def cells(self):
        for y in range(self.h):
            for x in range(self.w):
                yield x, y, self.rows[y][x]


def is_ug_on_axis(t, axis):
    return t[0] == 'ug' and t[1] % 2 == axis


def ug_walk(L, x, y):
    """Follow the underground run that starts at the underground tile (x, y).

    Returns (status, between, partner): status 'pair' (partner found), 'edge' (left the grid) or
    'bad' (another underground end on the same axis is in the way, or none was found)."""
    t = L.rows[y][x]
    d = t[1] if t[2] else rev(t[1])
    want = ('ug', t[1], not t[2])
    between = 0
    pos = (x, y)
    for _ in range(2 * max(L.w, L.h) + 2):
        nxt = L.step(pos[0], pos[1], d)
        if nxt is None:
            return 'edge', between, None
        if nxt == (x, y):
            return 'bad', between, None
        c = L.at(nxt)
        if c == want:
            return 'pair', between, nxt
        if is_ug_on_axis(c, t[1] % 2):
            return 'bad', between, None
        between += 1
        pos = nxt
    return 'bad', between, None


def base_violation(rows, ul, wrap=(False, False), block_belts=(False,) * 4, block_ug=(False,) * 4):
    """None when the fully specified arrangement obeys the belt rules, else a reason.

    Open edges (neither wrapped nor blocked) may be crossed by belts and by underground runs.
    block_* are (min_x, min_y, max_x, max_y)."""
    L = Layout(rows, wrap)

    def may_out(t, d):  # True, False, or None = either
        if t[0] == 'belt':
            return t[2] == d
        if t[0] == 'ug':
            return (not t[2]) and t[1] == d
        if t[0] == 'split':
            return None if t[1] == d else False
        return False

    def may_in(t, d):
        if t[0] == 'belt':
            return t[1] == d
        if t[0] == 'ug':
            return t[2] and t[1] == d
        if t[0] == 'split':
            return None if t[1] == d else False
        return False

    half_in = {}   # splitter halves: True / False / None when free
    half_out = {}
    for x, y, t in L.cells():
        for d in range(4):
            n = L.step(x, y, d)
            if n is None:
                if t[0] == 'split' and t[1] == d:
                    half_out[x, y] = None
                continue
            nt = L.at(n)
            out = may_out(t, d)
            inn = may_in(nt, d)
            if out is None and inn is None:
                # splitter facing splitter in the same direction: physically joined
                half_out[x, y] = True
                half_in[n] = True
            elif out is None:
                half_out[x, y] = inn
                if nt[0] == 'belt' and not inn:
                    return f'splitter half {(x, y)} faces the side or front of belt {n}'
            elif inn is None:
                half_in[n] = out
            elif out != inn:
                return f'connection mismatch {(x, y)} -> {n}'
    for x, y, t in L.cells():
        if t[0] != 'split':
            continue
        if L.step(x, y, rev(t[1])) is None:
            half_in[x, y] = None
        if half_in.get((x, y)) is False and half_out.get((x, y)) is False:
            return f'splitter half {(x, y)} has no connection'
        side = (t[1] + 1) % 4 if t[2] else (t[1] + 3) % 4
        n = L.step(x, y, side)
        if n is None or L.at(n) != ('split', t[1], not t[2]):
            return f'splitter half {(x, y)} has no partner'

    crossing = {}   # outward direction -> cells from which a run leaves the grid that way
    for x, y, t in L.cells():
        if t[0] != 'ug':
            continue
        status, between, _ = ug_walk(L, x, y)
        d = t[1] if t[2] else rev(t[1])
        pos = (x, y)
        for _i in range(between + 1):
            nx, ny = pos[0] + VEC[d][0], pos[1] + VEC[d][1]
            if not (0 <= nx < L.w and 0 <= ny < L.h):
                # leaves the grid here; on a wrapped axis it re-enters through the opposite edge
                crossing.setdefault(d, set()).add((*pos, d % 2))
                n = L.step(pos[0], pos[1], d)
                if n is None:
                    break
                crossing.setdefault(rev(d), set()).add((*n, d % 2))
            pos = L.step(pos[0], pos[1], d)
        if status == 'bad':
            return f'underground end {(x, y)} has no partner'
        if status == 'pair' and between == 0:
            return f'underground run at {(x, y)} has length zero'
        if between > ul:
            return f'underground run at {(x, y)} longer than {ul}'

    min_x, min_y, max_x, max_y = range(4)
    # (edge index, direction pointing out of the grid)
    for edge, outward in ((0, LEFT), (1, UP), (2, RIGHT), (3, DOWN)):
        for x, y, t in L.cells():
            on = (x == 0, y == 0, x == L.w - 1, y == L.h - 1)[edge]
            if not on:
                continue
            inward = rev(outward)
            if block_belts[edge]:
                if t[0] == 'belt' and (t[1] == inward or t[2] == outward):
                    return f'belt crosses blocked edge at {(x, y)}'
                if t[0] == 'ug' and t[1] % 2 == outward % 2:
                    # whichever end it is, it either feeds from/into outside or tunnels outside
                    if (t[2] and t[1] == inward) or (not t[2] and t[1] == outward):
                        return f'belt crosses blocked edge at {(x, y)}'
                    return f'underground crosses blocked edge at {(x, y)}'
                if t[0] == 'split' and t[1] % 2 == outward % 2:
                    return f'splitter on blocked edge at {(x, y)}'
            if block_ug[edge] and (x, y, outward % 2) in crossing.get(outward, ()):
                return f'underground crosses blocked edge at {(x, y)}'
    return None


# --- physical turns of a layout (independent of the code under test) ---

def _turn(t, f, mirror):
    k = t[0]
    if k == 'belt':
        return ('belt', f(t[1]), f(t[2]))
    if k == 'ug':
        return ('ug', f(t[1]), t[2])
    if k == 'split':
        return ('split', f(t[1]), (not t[2]) if mirror else t[2])
    if k == 'ins':
        return ('ins', f(t[1]), t[2])
    return t


def rot90(rows):
    """Quarter turn counter-clockwise: what pointed right points up."""
    h, w = len(rows), len(rows[0])
    out = [[None] * h for _ in range(w)]
    for y in range(h):
        for x in range(w):
            t = rows[y][x]
            t = ('asm', t[2], 2 - t[1]) if t[0] == 'asm' else _turn(t, lambda d: (d + 1) % 4, False)
            out[w - 1 - x][y] = t
    return out


def flip_x(rows):
    """Mirror left to right."""
    def f(t):
        if t[0] == 'asm':
            return ('asm', 2 - t[1], t[2])
        return _turn(t, lambda d: rev(d) if d % 2 == 0 else d, True)
    return [[f(t) for t in row[::-1]] for row in rows]


def flip_y(rows):
    def f(t):
        if t[0] == 'asm':
            return ('asm', t[1], 2 - t[2])
        return _turn(t, lambda d: rev(d) if d % 2 == 1 else d, True)
    return [[f(t) for t in row] for row in rows[::-1]]

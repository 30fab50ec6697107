"""Exhaustive backtracking enumeration of small layouts (independent of the code under test)."""
from . import phys
from .phys import DOWN, EMPTY, LEFT, RIGHT, UP, rev


class TooMany(Exception):
    pass


def _out(t, d):
    if t[0] == 'belt':
        return t[2] == d
    if t[0] == 'ug':
        return (not t[2]) and t[1] == d
    if t[0] == 'split':
        return None if t[1] == d else False
    return False


def _in(t, d):
    if t[0] == 'belt':
        return t[1] == d
    if t[0] == 'ug':
        return t[2] and t[1] == d
    if t[0] == 'split':
        return None if t[1] == d else False
    return False


def _meet(a, b, d):
    """May b lie next to a in direction d?"""
    for s, t, e in ((a, b, d), (b, a, rev(d))):
        o, i = _out(s, e), _in(t, e)
        if o is None:
            if i is False and t[0] == 'belt':
                return False
        elif i is not None and o != i:
            return False
    # splitter halves
    for s, t, e in ((a, b, d), (b, a, rev(d))):
        if s[0] == 'split':
            side = (s[1] + 1) % 4 if s[2] else (s[1] + 3) % 4
            if side == e and t != ('split', s[1], not s[2]):
                return False
    return True


MEET = {}
for _d in (RIGHT, DOWN):
    for _a in phys.ALL_TILES:
        for _b in phys.ALL_TILES:
            MEET[_a, _b, _d] = _meet(_a, _b, _d)


def toward(t, d):
    """Does the tunnel of this underground end go in direction d?"""
    return t[0] == 'ug' and (t[1] if t[2] else rev(t[1])) == d


def enumerate_layouts(w, h, ul, allowed, splitters=None, wrap=(False, False), open_tunnels=False, limit=2_000_000):
    """Yield all layouts whose neighbours fit and whose tunnels (on non-wrapped axes) pair up.

    allowed(x, y) -> iterable of tiles; splitters: exact number of splitters or None.
    The caller applies the full legality check."""
    rows = [[EMPTY] * w for _ in range(h)]
    cand = [[list(allowed(x, y)) for x in range(w)] for y in range(h)]
    steps = [0]

    def fits(x, y, t, heads):
        if x and not MEET[rows[y][x - 1], t, RIGHT]:
            return False
        if y and not MEET[rows[y - 1][x], t, DOWN]:
            return False
        if t[0] == 'split':
            side = (t[1] + 1) % 4 if t[2] else (t[1] + 3) % 4
            nx, ny = x + phys.VEC[side][0], y + phys.VEC[side][1]
            if not (0 <= nx < w or wrap[0]) or not (0 <= ny < h or wrap[1]):
                return False
            if splitters is not None and t[2] and heads >= splitters:
                return False
        if not wrap[0]:
            if t[0] == 'ug' and t[1] % 2 == 0:
                prev = None
                for k in range(x - 1, -1, -1):
                    if phys.is_ug_on_axis(rows[y][k], 0):
                        prev = k
                        break
                is_open = prev is not None and toward(rows[y][prev], RIGHT)
                if toward(t, LEFT):
                    if not is_open:
                        return False
                    p = rows[y][prev]
                    if p != ('ug', t[1], not t[2]) or not 1 <= x - prev - 1 <= ul:
                        return False
                elif is_open:
                    return False
            if x == w - 1:
                row = rows[y]
                last = t
                if not phys.is_ug_on_axis(t, 0):
                    last = next((row[k] for k in range(x - 1, -1, -1) if phys.is_ug_on_axis(row[k], 0)), EMPTY)
                if toward(last, RIGHT):
                    return False
        if not wrap[1]:
            if t[0] == 'ug' and t[1] % 2 == 1:
                prev = None
                for k in range(y - 1, -1, -1):
                    if phys.is_ug_on_axis(rows[k][x], 1):
                        prev = k
                        break
                is_open = prev is not None and toward(rows[prev][x], DOWN)
                if toward(t, UP):
                    if not is_open:
                        return False
                    p = rows[prev][x]
                    if p != ('ug', t[1], not t[2]) or not 1 <= y - prev - 1 <= ul:
                        return False
                elif is_open:
                    return False
            if y == h - 1:
                last = t
                if not phys.is_ug_on_axis(t, 1):
                    last = next((rows[k][x] for k in range(y - 1, -1, -1) if phys.is_ug_on_axis(rows[k][x], 1)), EMPTY)
                if toward(last, DOWN):
                    return False
        return True

    def rec(i, heads):
        if i == w * h:
            if splitters is None or heads == splitters:
                yield [list(r) for r in rows]
            return
        x, y = i % w, i // w
        for t in cand[y][x]:
            steps[0] += 1
            if steps[0] > limit:
                raise TooMany()
            if fits(x, y, t, heads):
                rows[y][x] = t
                yield from rec(i + 1, heads + (t[0] == 'split' and t[2]))
        rows[y][x] = EMPTY

    yield from rec(0, 0)


def crosses(t, outward, tunnels=True):
    """Does this tile, lying on that edge, carry something (or point) across the edge?"""
    return _out(t, outward) is not False or _in(t, rev(outward)) is not False or toward(t, outward)

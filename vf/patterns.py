"""Reference descriptions of the search-pruning patterns, each drawn once.

A pattern is a dict {(dx, dy): condition}; it is drawn for a belt that runs to the right and is
looked for in all eight orientations.  A condition is a function of a Cell whose directions are
given in the frame of the drawing (0 right, 1 up, 2 left, 3 down)."""
from . import phys
from .phys import DOWN as D, LEFT as L, RIGHT as R, UP as U, VEC


class Cell:
    __slots__ = ('kind', 'inn', 'out', 'head', 'under')

    def __init__(self, kind, inn, out, head, under):
        self.kind, self.inn, self.out, self.head, self.under = kind, inn, out, head, under

    def __repr__(self):
        return f'{self.kind}({self.inn}>{self.out} {self.head} {sorted(self.under)})'


def cells_of(rows, wrap=(False, False), sides=None):
    """[[Cell]] of a legal layout; sides: {(x, y): (inn, out)} for splitter halves at open edges."""
    lay = phys.Layout(rows, wrap)
    res = []
    free = []
    for y, row in enumerate(rows):
        out_row = []
        for x, t in enumerate(row):
            k = t[0]
            if k == 'belt':
                c = Cell('belt', t[1], t[2], False, set())
            elif k == 'ug':
                c = Cell('in' if t[2] else 'out', t[1] if t[2] else None, None if t[2] else t[1], False, set())
            elif k == 'split':
                a, b = lay.step(x, y, phys.rev(t[1])), lay.step(x, y, t[1])
                inn = t[1] if a is not None and _gives(lay.at(a), t[1]) else None
                out = t[1] if b is not None and _takes(lay.at(b), t[1]) else None
                if a is None:
                    free.append((x, y, 'inn'))
                if b is None:
                    free.append((x, y, 'out'))
                c = Cell('split', inn, out, t[2], set())
            else:
                c = Cell('empty', None, None, False, set())
            out_row.append(c)
        res.append(out_row)
    for x, y, t in lay.cells():
        if t[0] == 'ug' and t[2]:
            status, n, _ = phys.ug_walk(lay, x, y)
            if status == 'pair':
                for i in range(1, n + 1):
                    p = lay.step(x, y, t[1], i)
                    res[p[1]][p[0]].under.add(t[1])
    return res, free


def _gives(t, d):
    return t[0] in ('belt',) and t[2] == d or t[0] == 'ug' and not t[2] and t[1] == d or t[0] == 'split' and t[1] == d


def _takes(t, d):
    return t[0] in ('belt',) and t[1] == d or t[0] == 'ug' and t[2] and t[1] == d or t[0] == 'split' and t[1] == d


# --- the eight orientations: (map of offsets, map of directions back to the drawing, mirrored) ---

def _orientations():
    res = []
    for mirror in (False, True):
        for k in range(4):
            def fwd(d, k=k, mirror=mirror):      # drawing direction -> layout direction
                if mirror and d % 2 == 1:
                    d = phys.rev(d)
                return (d + k) % 4

            back = {fwd(d): d for d in range(4)}
            ax, ay = VEC[fwd(R)], VEC[fwd(D)]

            def move(dx, dy, ax=ax, ay=ay):
                return ax[0] * dx + ay[0] * dy, ax[1] * dx + ay[1] * dy
            res.append((move, back, fwd, mirror))
    return res


ORIENT = _orientations()


def turned(c, back, mirror):
    return Cell(c.kind, None if c.inn is None else back[c.inn], None if c.out is None else back[c.out],
                c.head != mirror if c.kind == 'split' else False, {back[d] for d in c.under})


def straight(c):
    return c.kind == 'belt' and c.inn == R and c.out == R


def empty(c):
    return c.kind == 'empty'


def inn(*d):
    return lambda c: c.inn in d


def out(*d):
    return lambda c: c.out in d


def _all(*fs):
    return lambda c: all(f(c) for f in fs)


def under(d):
    return lambda c: d in c.under


def not_under(d):
    return lambda c: d not in c.under


def not_split(c):
    return c.kind != 'split'


class Rule:
    """patterns(w, h, ul) -> list of drawings; exempt(positions, direction, w, h, bounds) -> bool"""

    def __init__(self, patterns, exempt=None, orientations=ORIENT):
        self.patterns = patterns
        self.exempt = exempt
        self.orientations = orientations


def _empty_tunnels(w, h, ul):
    for g in range(1, min(ul, max(w, h)) + 1):
        p = {(0, 0): lambda c: c.kind == 'in' and c.inn == R, (g + 1, 0): lambda c: c.kind == 'out' and c.out == R}
        for i in range(1, g + 1):
            p[i, 0] = empty
        yield p


def _loops(w, h, ul):
    yield {(0, 0): _all(inn(L), out(D)), (0, 1): _all(inn(D), out(R)), (1, 1): _all(inn(R), out(U)), (1, 0): _all(inn(U), out(L))}


def _glue(w, h, ul):
    yield {(0, 0): lambda c: c.kind == 'split' and c.head and c.inn == R, (-1, 0): straight, (-1, -1): straight}


def _glue_partial(w, h, ul):
    yield {(0, 0): lambda c: c.kind == 'split' and c.head and c.inn == R, (0, -1): lambda c: c.kind == 'split' and c.inn is None,
           (1, 0): straight, (1, -1): straight}


def _expand(w, h, ul):
    if ul > 10 ** 6:
        yield {(0, 0): straight, (1, 0): lambda c: c.kind == 'in' and c.inn == R}
        yield {(0, 0): lambda c: c.kind == 'out' and c.out == R, (1, 0): straight}
        return
    for g in range(1, min(ul, max(w, h) + 1)):
        tunnel = {(0, 0): not_under(R), (g + 1, 0): not_under(R), **{(i, 0): under(R) for i in range(1, g + 1)}}
        yield {**tunnel, (-1, 0): straight}
        yield {**tunnel, (g + 2, 0): straight}


def _hooks(w, h, ul):
    yield {(0, 0): lambda c: c.kind == 'belt' and c.out == R and c.inn in (R, U), (1, 0): out(U), (1, -1): out(L),
           (0, -1): lambda c: c.kind == 'belt' and c.out in (U, L)}


def _mergeable(w, h, ul):
    for total in range(4, min(ul, max(w, h) - 2) + 1):
        for a in range(1, total - 2):
            b = total - a - 2
            run = [False] + [True] * a + [False, False] + [True] * b + [False]
            yield {(i, 0): under(R) if u else not_under(R) for i, u in enumerate(run)}


def _semicircles(w, h, ul):
    yield {(0, 0): lambda c: c.inn == R or c.inn == U and c.kind != 'split', (1, 0): empty,
           (2, 0): lambda c: c.inn == D and (c.out == R or c.out == D and c.kind != 'split'),
           (0, -1): inn(U), (1, -1): _all(inn(R), not_split), (2, -1): inn(R)}


def _underground_hooks(w, h, ul):
    yield {(0, 0): not_under(R), (1, 0): _all(empty, under(R)), (-1, 0): inn(U), (-1, 1): inn(L), (0, 1): _all(inn(L, U), not_split)}
    yield {(0, 0): not_under(L), (1, 0): _all(empty, under(L)), (-1, 0): out(D), (-1, 1): out(R), (0, 1): _all(out(R, D), not_split)}


def _zigzags(w, h, ul):
    yield {(0, 0): _all(inn(R), out(U)), (1, 0): empty, (0, -1): out(R), (1, -1): out(U)}


def _parallel(w, h, ul):
    yield {(0, 0): lambda c: c.out == R and (c.inn == R and c.kind != 'split' or c.inn == U), (0, -1): out(U),
           (1, -1): lambda c: c.kind == 'split' and c.head}


def _double_edge(w, h, ul):
    s = lambda c: c.inn == R and c.out == R and c.kind != 'split'
    yield {(0, 0): s, (0, 1): s}


def _glue_exempt(ps, p0, d, w, h, b):
    return d == R and p0[0] in (1, w - 2)


def _partial_exempt(ps, p0, d, w, h, b):
    return any(x > w - 2 for x, _ in ps)


def _expand_exempt(ps, p0, d, w, h, b):
    x0, y0, x1, y1 = b or (0, 0, w - 1, h - 1)
    return any(not (x0 <= x <= x1 and y0 <= y <= y1) for x, y in ps)


def _edge_exempt(ps, p0, d, w, h, b):
    return p0[0] not in (1, max(w - 2, 1))


RULES = {
    'prevent_empty_along_underground': Rule(_empty_tunnels),
    'prevent_small_loops': Rule(_loops),
    'glue_splitters': Rule(_glue, _glue_exempt),
    'glue_partial_splitters': Rule(_glue_partial, _partial_exempt),
    'expand_underground': Rule(_expand, _expand_exempt),
    'prevent_belt_hooks': Rule(_hooks),
    'prevent_mergeable_underground': Rule(_mergeable),
    'prevent_semicircles': Rule(_semicircles),
    'prevent_underground_hook': Rule(_underground_hooks),
    'prevent_zigzags': Rule(_zigzags),
    'prevent_belt_parallel_splitter': Rule(_parallel),
    'prevent_double_edge_belts': Rule(_double_edge, _edge_exempt, ORIENT[:1]),
}
GENERIC = ['prevent_small_loops', 'prevent_empty_along_underground', 'glue_splitters', 'prevent_belt_hooks', 'prevent_mergeable_underground',
           'prevent_semicircles', 'prevent_underground_hook', 'prevent_zigzags', 'prevent_belt_parallel_splitter', 'glue_partial_splitters']
BAD = ['prevent_belt_hooks', 'prevent_semicircles', 'prevent_small_loops', 'prevent_underground_hook', 'prevent_zigzags', 'prevent_belt_parallel_splitter']


def find(cells, rule, ul, bounds=None):
    """The first place where the rule's pattern occurs, as (rule, position, orientation), or None."""
    h, w = len(cells), len(cells[0])
    r = RULES[rule]
    drawings = list(r.patterns(w, h, ul))
    for o, (move, back, fwd, mirror) in enumerate(r.orientations):
        view = [[turned(c, back, mirror) for c in row] for row in cells]
        for p in drawings:
            items = [(move(*k), f) for k, f in p.items()]
            for y in range(h):
                for x in range(w):
                    ok = True
                    for (dx, dy), f in items:
                        px, py = x + dx, y + dy
                        if not (0 <= px < w and 0 <= py < h) or not f(view[py][px]):
                            ok = False
                            break
                    if ok:
                        ps = [(x + dx, y + dy) for (dx, dy), _ in items]
                        if r.exempt is None or not r.exempt(ps, (x, y), fwd(R), w, h, bounds):
                            return rule, (x, y), o
    return None

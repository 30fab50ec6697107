"""Hypothesis generators of layouts."""
import random

from hypothesis import strategies as st

from . import phys
from .phys import EMPTY, VEC, rev

TILES = phys.ALL_TILES


@st.composite
def layouts(draw, w, h, ul=4, wrap=(False, False), mutate=True, max_paths=5, kinds=None):
    """Rows of a w x h layout, built from belt paths, tunnels and splitters, then perhaps mutated."""
    rows = [[EMPTY] * w for _ in range(h)]
    L = phys.Layout(rows, wrap)
    maxul = 6 if ul == -1 else ul
    # where a new path may start: (cell, direction of travel)
    dead_out = []

    def free(p):
        return p is not None and rows[p[1]][p[0]] == EMPTY

    def axis_clear(p, d, n):
        """cells strictly between p and its exit n+1 further along d: inside, no tunnel end on the axis"""
        q = p
        for _ in range(n):
            q = L.step(q[0], q[1], d)
            if q is None or phys.is_ug_on_axis(L.at(q), d % 2):
                return None
        return L.step(q[0], q[1], d)

    def walk(p, d):
        # p: cell to fill, d: direction of travel into it
        for _ in range(4 * (w + h)):
            if not free(p):
                return
            acts = []
            for o in (d, (d + 1) % 4, (d + 3) % 4):
                n = L.step(p[0], p[1], o)
                ok = n is None or free(n) or L.at(n) == ('split', o, True) or L.at(n) == ('split', o, False)
                if ok:
                    acts.append(('b', o))
            for n in range(1, maxul + 2):
                q = axis_clear(p, d, n)
                if q is None:
                    break
                if q != p and free(q):
                    acts.append(('u', n))
            if not acts:
                acts = [('b', d)]
            a = acts[draw(st.integers(0, len(acts) - 1))]
            if a[0] == 'b':
                rows[p[1]][p[0]] = ('belt', d, a[1])
                p = L.step(p[0], p[1], a[1])
                d = a[1]
            else:
                q = axis_clear(p, d, a[1])
                rows[p[1]][p[0]] = ('ug', d, True)
                rows[q[1]][q[0]] = ('ug', d, False)
                p = L.step(q[0], q[1], d)
            if p is None:
                return
            if p == start and d == sd:
                return

    edges = []
    if not wrap[0]:
        for y in range(h):
            edges += [((0, y), 0), ((w - 1, y), 2)]
    if not wrap[1]:
        for x in range(w):
            edges += [((x, 0), 3), ((x, h - 1), 1)]

    def lanes():
        # two or three parallel straight belts with splitters across them
        d = draw(st.integers(0, 3))
        side = 3 if d % 2 == 0 else 0          # lanes are stacked down or to the right
        length, breadth = (w, h) if d % 2 == 0 else (h, w)
        if breadth < 2:
            return
        k = draw(st.integers(2, min(3, breadth)))
        a = draw(st.integers(0, breadth - k))
        cells = [[(i, a + j) if d % 2 == 0 else (a + j, i) for i in range(length)] for j in range(k)]
        for lane in cells:
            for c in lane:
                if free(c):
                    rows[c[1]][c[0]] = ('belt', d, d)
        for i in range(length):
            j = draw(st.integers(-2, k - 2))
            if j < 0:
                continue
            p, q = cells[j][i], cells[j + 1][i]
            if L.at(p) == L.at(q) == ('belt', d, d):
                # q lies towards `side`; the head's partner lies towards d + 1
                head, tail = (p, q) if (d + 1) % 4 == side else (q, p)
                rows[head[1]][head[0]] = ('split', d, True)
                rows[tail[1]][tail[0]] = ('split', d, False)
                cut = draw(st.integers(0, 7))
                if cut < 4:
                    # leave one side of the splitter unused: remove that lane before or after it
                    lane = cells[j + cut % 2]
                    rng = range(0, i) if (cut // 2 == 0) == (d in (0, 3)) else range(i + 1, length)
                    for m in rng:
                        c = lane[m]
                        if L.at(c) == ('belt', d, d):
                            rows[c[1]][c[0]] = EMPTY

    def ring():
        # a closed belt: around the torus, or around a rectangle
        kinds = [k for k, ok in (('r', w >= 2 and h >= 2), ('h', wrap[0]), ('v', wrap[1])) if ok]
        if not kinds:
            return
        kind = kinds[draw(st.integers(0, len(kinds) - 1))]
        if kind == 'r':
            x0 = draw(st.integers(0, w - 2))
            x1 = draw(st.integers(x0 + 1, w - 1))
            y0 = draw(st.integers(0, h - 2))
            y1 = draw(st.integers(y0 + 1, h - 1))
            cells = ([((x, y0), 0) for x in range(x0, x1)] + [((x1, y), 3) for y in range(y0, y1)]
                     + [((x, y1), 2) for x in range(x1, x0, -1)] + [((x0, y), 1) for y in range(y1, y0, -1)])
        elif kind == 'h':
            y = draw(st.integers(0, h - 1))
            cells = [((x, y), 0) for x in range(w)]
        else:
            x = draw(st.integers(0, w - 1))
            cells = [((x, y), 3) for y in range(h)]
        if not all(free(c) for c, _ in cells):
            return
        ring_tiles = [('belt', cells[i - 1][1], cells[i][1]) for i in range(len(cells))]
        if draw(st.booleans()):
            ring_tiles = [('belt', rev(o), rev(i)) for _, i, o in ring_tiles]
        for (c, _), t in zip(cells, ring_tiles):
            rows[c[1]][c[0]] = t
        # replace a straight stretch by a tunnel
        if draw(st.booleans()):
            d = draw(st.integers(0, 3))
            run = [c for (c, _), t in zip(cells, ring_tiles) if t == ('belt', d, d)]
            run.sort(key=lambda c: (c[0] * VEC[d][0] + c[1] * VEC[d][1]))
            if len(run) >= 3:
                a = draw(st.integers(0, len(run) - 3))
                b = draw(st.integers(a + 2, min(len(run) - 1, a + maxul + 2)))
                if run[b] == L.step(run[a][0], run[a][1], d, b - a):
                    for c in run[a:b + 1]:
                        rows[c[1]][c[0]] = EMPTY
                    rows[run[a][1]][run[a][0]] = ('ug', d, True)
                    rows[run[b][1]][run[b][0]] = ('ug', d, False)
    for _ in range(draw(st.integers(0, max_paths))):
        op = draw(st.sampled_from([0, 0, 0, 1, 2, 3, 3, 4, 4]))
        if op == 1 or (op == 0 and not edges):
            ring()
        elif op == 0 or (op == 2 and not dead_out and edges):
            start, sd = edges[draw(st.integers(0, len(edges) - 1))]
            walk(start, sd)
        elif op == 4:
            lanes()
        elif op == 2 and dead_out:
            start, sd = dead_out.pop(draw(st.integers(0, len(dead_out) - 1)))
            walk(start, sd)
        elif op == 3:
            # turn a straight belt and the cell beside it into a splitter
            cand = []
            for x, y, t in L.cells():
                if t[0] == 'belt' and t[1] == t[2]:
                    for side in ((t[1] + 1) % 4, (t[1] + 3) % 4):
                        q = L.step(x, y, side)
                        if q is not None and q != (x, y) and L.at(q) in (EMPTY, t):
                            cand.append(((x, y), q, t[1], side))
            if not cand:
                continue
            p, q, d, side = cand[draw(st.integers(0, len(cand) - 1))]
            was = L.at(q)
            head, tail = (p, q) if side == (d + 1) % 4 else (q, p)
            rows[head[1]][head[0]] = ('split', d, True)
            rows[tail[1]][tail[0]] = ('split', d, False)
            if was == EMPTY:
                f = L.step(q[0], q[1], d)
                if f is not None and free(f):
                    dead_out.append((f, d))
                    if draw(st.integers(0, 3)):
                        start, sd = dead_out.pop()
                        walk(start, sd)
    if mutate:
        for _ in range(draw(st.sampled_from([0, 0, 0, 1, 1, 2]))):
            x = draw(st.integers(0, w - 1))
            y = draw(st.integers(0, h - 1))
            rows[y][x] = TILES[draw(st.integers(0, len(TILES) - 1))]
    return rows



@st.composite
def networks(draw, max_in=3, max_split=4, max_out=4, renumber=True):
    """A random splitter network: [((in, in), (out, out))] with None for unused sides.

    One input colour (net positive), one output colour (net negative), every other colour balanced;
    loops, shared colours and single-sided splitters included."""
    n_in = draw(st.integers(1, max_in))
    IN, OUT = 'in', 'out'
    pending = [IN] * n_in          # wires that still need a consumer
    owed = []                      # wires consumed already, still to be produced
    nodes = []
    fresh = iter(range(1000))
    for _ in range(draw(st.integers(1, max_split))):
        kind = draw(st.sampled_from(['22', '22', '22', '12', '21']))
        ins = []
        for _ in range(2 if kind[0] == '2' else 1):
            if len(pending) > 0 and (draw(st.integers(0, 7)) or len(owed) >= 2):
                ins.append(pending.pop(draw(st.integers(0, len(pending) - 1))))
            else:
                c = draw(st.sampled_from(['out', 'fresh', 'fresh', 'in'])) if len(owed) < 2 else None
                if c is None:
                    break
                c = ('w', next(fresh)) if c == 'fresh' else c
                owed.append(c)
                ins.append(c)
        if not ins:
            break
        outs = []
        for _ in range(2 if kind[1] == '2' and (len(ins) == 2 or True) else 1):
            if owed and draw(st.integers(0, 1)):
                outs.append(owed.pop(draw(st.integers(0, len(owed) - 1))))
            else:
                outs.append(('w', next(fresh)))
                pending.append(outs[-1])
        if len(ins) == 1 and len(outs) == 1:
            outs.append(('w', next(fresh)))
            pending.append(outs[-1])
        if len(outs) == 2 and outs[0] in pending and outs[1] in pending and draw(st.booleans()):
            # interchangeable belts: one colour
            pending[pending.index(outs[1])] = outs[0]
            outs[1] = outs[0]
        nodes.append([ins, outs])
    # settle what is owed, and make the rest outputs
    for c in owed:
        if c == IN:
            # consumed as an input without having been there: just another input
            n_in += 1
            continue
        if not pending:
            return None
        p = pending.pop(0)
        if p == c:
            continue
        _rename(nodes, pending, p, c)
    pending = [p for p in pending]
    for p in list(dict.fromkeys(pending)):
        _rename(nodes, pending, p, OUT)
    if not nodes:
        return None
    net = [((i + [None])[:2], (o + [None])[:2]) for i, o in nodes]
    i, o = _io(net)
    if len(i) != 1 or len(o) != 1 or i[0][1] > max_in + 1 or o[0][1] > max_out:
        return None
    cols = list(dict.fromkeys(c for n in net for s in n for c in s if c is not None))
    if draw(st.booleans()):
        perm = draw(st.permutations(range(len(cols) + draw(st.integers(0, 2)))))
    else:
        cols.sort(key=lambda c: (c != i[0][0], c == o[0][0]))
        perm = range(len(cols))
    m = dict(zip(cols, perm))
    m[None] = None
    res = []
    for a, b in net:
        if draw(st.booleans()):
            a = a[::-1]
        if draw(st.booleans()):
            b = b[::-1]
        res.append(((m[a[0]], m[a[1]]), (m[b[0]], m[b[1]])))
    return draw(st.permutations(res))


def _rename(nodes, pending, a, b):
    for n in nodes:
        for s in n:
            for k, c in enumerate(s):
                if c == a:
                    s[k] = b
    pending[:] = [b if c == a else c for c in pending]


def _io(net):
    bal = {}
    for ins, outs in net:
        for c in ins:
            if c is not None:
                bal[c] = bal.get(c, 0) + 1
        for c in outs:
            if c is not None:
                bal[c] = bal.get(c, 0) - 1
    return [(c, n) for c, n in bal.items() if n > 0], [(c, -n) for c, n in bal.items() if n < 0]


@st.composite
def entity_rows(draw, maxw=7, maxh=7, kinds=('belt', 'ug', 'split', 'ins', 'filler'), bent=True, dense=True):
    """Rows of arbitrary non-overlapping whole entities (not necessarily a working layout).

    With bent, belts take the shape their surroundings give them in the game."""
    w = draw(st.integers(1, maxw))
    h = draw(st.integers(1, maxh))
    fill = draw(st.sampled_from([0, 1, 2, 4, 8])) if dense else 2
    return _fill(w, h, kinds, bent, fill, lambda a, b: draw(st.integers(a, b)))


@st.composite
def large_rows(draw, maxn=36, kinds=('belt', 'ug', 'split', 'ins', 'filler'), bent=True):
    """Large ones of the same sort, filled from one drawn number."""
    long, other = draw(st.integers(10, maxn)), draw(st.integers(1, maxn))
    w, h = (long, other) if draw(st.booleans()) else (other, long)
    r = random.Random(draw(st.integers(0, 1 << 30)))
    return _fill(w, h, kinds, bent, r.choice([1, 4, 8, 9]), r.randint)


def mostly(small, large, of=12):
    """One case in `of` from the second strategy."""
    return st.integers(0, of - 1).flatmap(lambda i: large if i == of - 1 else small)


def _fill(w, h, kinds, bent, fill, pick):
    from . import corpus
    rows = [[EMPTY] * w for _ in range(h)]
    for y in range(h):
        for x in range(w):
            if rows[y][x] != EMPTY or pick(0, 9) >= fill + 1:
                continue
            k = kinds[pick(0, len(kinds) - 1)]
            d = pick(0, 3)
            if k == 'belt':
                rows[y][x] = ('belt', d, d) if bent else phys.belts()[pick(0, len(phys.belts()) - 1)]
            elif k == 'ug':
                rows[y][x] = ('ug', d, bool(pick(0, 1)))
            elif k == 'filler':
                rows[y][x] = phys.FILLER
            elif k == 'ins':
                rows[y][x] = ('ins', d, pick(0, 1))
            elif k == 'split':
                head = bool(pick(0, 1))
                s = (d + 1) % 4 if head else (d + 3) % 4
                nx, ny = x + VEC[s][0], y + VEC[s][1]
                if 0 <= nx < w and 0 <= ny < h and rows[ny][nx] == EMPTY:
                    rows[y][x] = ('split', d, head)
                    rows[ny][nx] = ('split', d, not head)
            elif k == 'asm':
                if x + 3 <= w and y + 3 <= h and all(rows[y + j][x + i] == EMPTY for i in range(3) for j in range(3)):
                    for i in range(3):
                        for j in range(3):
                            rows[y + j][x + i] = ('asm', i, j)
    return corpus.bend(rows) if bent else rows


@st.composite
def any_rows(draw, maxw=7, maxh=7, tiles=None):
    """Rows of arbitrary tiles, every tile value possible anywhere."""
    tiles = tiles or (phys.ALL_TILES + [phys.FILLER])
    w = draw(st.integers(1, maxw))
    h = draw(st.integers(1, maxh))
    return [[tiles[draw(st.integers(0, len(tiles) - 1))] for _ in range(w)] for _ in range(h)]


JSON_LEAF = st.one_of(st.none(), st.booleans(), st.integers(-5, 10 ** 6), st.text(max_size=6), st.floats(allow_nan=False, allow_infinity=False, width=32))
JSON = st.recursive(JSON_LEAF, lambda c: st.one_of(st.lists(c, max_size=3), st.dictionaries(st.text(max_size=5), c, max_size=3)), max_leaves=6)

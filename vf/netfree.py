"""Which layouts the always-pruning tools have to print (independent of the code under test)."""
from fractions import Fraction
from math import gcd, lcm

from . import flow, patterns, phys

OPEN = 'open'       # the description does not settle this layout


def pattern(rows, names, ul, bounds=None):
    cells, free = patterns.cells_of(rows)
    if free:
        return OPEN
    return next((f for f in (patterns.find(cells, n, 10 ** 9 if ul == -1 else ul, bounds) for n in names) if f), None)


def wire_flows(g, sources, reverse=False):
    """[flow vector of each wire], one unit entering at each source; None when it is not determined."""
    n = len(g.wires)
    A = [{i: Fraction(1)} for i in range(n)]
    B = [[Fraction(0)] * len(sources) for _ in range(n)]
    for j, w in enumerate(sources):
        B[w][j] = Fraction(1)
    for s in g.splitters:
        ins, outs = (s['outs'], s['ins']) if reverse else (s['ins'], s['outs'])
        ins, outs = [w for w in ins if w is not None], [w for w in outs if w is not None]
        for o in outs:
            for i in ins:
                A[o][i] = A[o].get(i, Fraction(0)) - Fraction(1, len(outs))
    return flow.solve_linear(A, B)


def acceptable(rows, n, m, ul, aligned=False):
    """None when the network-free tool has to find this layout; otherwise why not."""
    from .props import c04
    h, w = len(rows), len(rows[0])
    bad = phys.base_violation(rows, 10 ** 9 if ul == -1 else ul, (False, False), (False, True, False, True), (True,) * 4)
    if bad:
        return 'not legal'
    bad = c04.ends_problem(rows, n, m, aligned) or flow_problem(rows, n, m)
    if bad:
        return bad
    return pattern(rows, patterns.GENERIC + ['expand_underground', 'prevent_double_edge_belts'], ul, (1, 0, w - 2, h - 1))


def power(x):
    return 1 << max(x - 1, 0).bit_length()


def ordered(g, wires, end):
    return sorted(wires, key=lambda w: g.wires[w][end][2])


def flow_problem(rows, n, m):
    """Why the flow numbers of a layout cannot be written down the way the tool counts, or None, or OPEN."""
    g = flow.Graph(rows)
    if any(w['optional'] for w in g.wires):
        return OPEN
    ins, outs = ordered(g, g.inputs(), 'src'), ordered(g, g.outputs(), 'dst')
    if len(ins) != n or len(outs) != m:
        return 'number of belts'
    for s in g.splitters:
        missing = (s['ins'] + s['outs']).count(None)
        if missing > (0 if n == m else 1):
            return 'unused sides'
    fwd = wire_flows(g, ins)
    if fwd is None:
        return OPEN
    if n == m:
        d = power(n)
        d //= gcd(d, n)
        full = n * d
        if any(v * full % 1 for f in fwd for v in f):
            return 'fractions'
        if any(fwd[o][j] * n != 1 for o in outs for j in range(n)):
            return 'uneven'
        # which input is left out depends on its row
        for s in g.splitters:
            a, b = s['ins']
            if fwd[a] == fwd[b]:
                return 'splitter without effect'
            ys = [g.wires[i]['src'][2] % n for i in ins]
            if all(fwd[a][j] == fwd[b][j] for j in range(n) if ys[j] != n - 1):
                return 'splitter without effect'
        return None
    bwd = wire_flows(g, outs, True)
    if bwd is None:
        return OPEN
    top = lcm(power(min(n, m)), 2, n, m)
    total = top * min(n, m)
    f_in, b_in = total // n, total // m
    bit = 1 << (top.bit_length() - 1)
    F = [[v * f_in for v in f] for f in fwd]
    B = [[v * b_in for v in f] for f in bwd]
    for X in (F, B):
        for f in X:
            if any(v % 1 for v in f):
                return 'fractions'
            if any(v > top for v in f):
                return 'too much'
            if sum(v >= bit for v in f) > 1:
                return 'two large parts'
    if any(v != f_in // m for o in outs for v in F[o]) or f_in % m:
        return 'uneven'
    if any(v != b_in // n for i in ins for v in B[i]) or b_in % n:
        return 'uneven'
    for s in g.splitters:
        if None not in s['ins'] + s['outs']:
            a, b = s['ins']
            if F[a] == F[b] and B[a] == B[b]:
                return 'splitter without effect'
    return None

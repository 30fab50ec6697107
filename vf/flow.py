"""Wires, splitter graphs and steady flow of a legal layout (independent of the code under test)."""
from fractions import Fraction

from pysat.card import CardEnc, EncType
from pysat.formula import IDPool
from pysat.solvers import Solver

from . import phys
from .phys import VEC, rev


class Graph:
    """splitters: list of dicts {'pos','dir','ins':[wire|None]*2,'outs':[wire|None]*2}
    wires: list of dicts {'src','dst'}; src/dst: ('edge', x, y, dir) | ('s', i, half) | ('loop',)
    optional: wires that only touch a splitter half facing an open edge (live or dead)."""

    def __init__(self, rows, wrap=(False, False)):
        L = phys.Layout(rows, wrap)
        self.L = L
        self.splitters = []
        self.half = {}
        self.wires = []
        for x, y, t in L.cells():
            if t[0] == 'split' and t[2]:
                n = L.step(x, y, (t[1] + 1) % 4)
                i = len(self.splitters)
                self.splitters.append({'pos': [(x, y), n], 'dir': t[1], 'ins': [None, None], 'outs': [None, None]})
                self.half[x, y] = (i, 0)
                self.half[n] = (i, 1)
        visited = set()

        def follow(p, src):
            """Follow the belt whose first tile is p (a tile with a live input from src)."""
            cells = []
            while True:
                if p in visited:
                    raise ValueError(f'belt {p} reached twice')
                t = L.at(p)
                if t[0] == 'split':
                    dst = ('s',) + self.half[p]
                    break
                visited.add(p)
                cells.append(p)
                if t[0] == 'belt':
                    o = t[2]
                elif t[0] == 'ug' and t[2]:
                    st, _, q = phys.ug_walk(L, *p)
                    if st == 'edge':
                        dst = ('edge', p[0], p[1], t[1], 'ug')
                        break
                    if st != 'pair':
                        raise ValueError('unpaired underground')
                    p = q
                    continue
                elif t[0] == 'ug':
                    o = t[1]
                else:
                    raise ValueError(f'belt runs into {t} at {p}')
                n = L.step(p[0], p[1], o)
                if n is None:
                    dst = ('edge', p[0], p[1], o)
                    break
                p = n
            w = len(self.wires)
            self.wires.append({'src': src, 'dst': dst, 'cells': cells, 'optional': False})
            if src[0] == 's':
                self.splitters[src[1]]['outs'][src[2]] = w
            if dst[0] == 's':
                self.splitters[dst[1]]['ins'][dst[2]] = w
            return w

        def live_in(t, d):
            return (t[0] == 'belt' and t[1] == d) or (t[0] == 'ug' and t[2] and t[1] == d) or (t[0] == 'split' and t[1] == d)

        # wires that start at a splitter output
        for i, s in enumerate(self.splitters):
            for k, (x, y) in enumerate(s['pos']):
                n = L.step(x, y, s['dir'])
                if n is None:
                    w = len(self.wires)
                    self.wires.append({'src': ('s', i, k), 'dst': ('edge', x, y, s['dir']), 'cells': [], 'optional': True})
                    s['outs'][k] = w
                elif live_in(L.at(n), s['dir']):
                    follow(n, ('s', i, k))
        # wires that start at the boundary
        for x, y, t in L.cells():
            for d in range(4):
                if L.step(x, y, rev(d)) is not None:
                    continue
                if live_in(t, d):
                    if t[0] == 'split':
                        i, k = self.half[x, y]
                        w = len(self.wires)
                        self.wires.append({'src': ('edge', x, y, d), 'dst': ('s', i, k), 'cells': [], 'optional': True})
                        self.splitters[i]['ins'][k] = w
                    else:
                        follow((x, y), ('edge', x, y, d))
            if t[0] == 'ug' and not t[2] and phys.ug_walk(L, x, y)[0] == 'edge':
                follow((x, y), ('edge', x, y, t[1], 'ug'))
        # whatever is left is closed belts
        for x, y, t in L.cells():
            if t[0] in ('belt', 'ug') and (x, y) not in visited:
                p = (x, y)
                cells = []
                while p not in visited:
                    visited.add(p)
                    cells.append(p)
                    t = L.at(p)
                    if t[0] == 'ug' and t[2]:
                        st, _, q = phys.ug_walk(L, *p)
                        if st != 'pair':
                            raise ValueError('unpaired underground')
                        p = q
                    else:
                        o = t[2] if t[0] == 'belt' else t[1]
                        p = L.step(p[0], p[1], o)
                        if p is None or L.at(p)[0] not in ('belt', 'ug'):
                            raise ValueError('dangling belt')
                self.wires.append({'src': ('loop',), 'dst': ('loop',), 'cells': cells, 'optional': False})

    def inputs(self):
        return [i for i, w in enumerate(self.wires) if w['src'][0] == 'edge']

    def outputs(self):
        return [i for i, w in enumerate(self.wires) if w['dst'][0] == 'edge']


def io_colours(network):
    net = {}
    for ins, outs in network:
        for c in ins:
            if c is not None:
                net[c] = net.get(c, 0) + 1
        for c in outs:
            if c is not None:
                net[c] = net.get(c, 0) - 1
    i = [(c, n) for c, n in net.items() if n > 0]
    o = [(c, -n) for c, n in net.items() if n < 0]
    return i, o


def realises(g, network, n_in=None, n_out=None, colours_of=None):
    """Does the splitter graph g form exactly the given network?

    Optional wires (splitter halves on an open edge) may count as live or dead."""
    i, o = io_colours(network)
    assert len(i) == 1 and len(o) == 1
    (cin, n_in0), (cout, n_out0) = i[0], o[0]
    n_in = n_in0 if n_in is None else n_in
    n_out = n_out0 if n_out is None else n_out
    if len(g.splitters) != len(network):
        return False, f'{len(g.splitters)} splitters instead of {len(network)}'

    def side_key(side):
        return tuple(sorted(-1 if c is None else c for c in side))
    types = {}
    for ins, outs in network:
        k = (side_key(ins), side_key(outs))
        types[k] = types.get(k, 0) + 1
    colours = sorted({c for node in network for side in node for c in side if c is not None})
    pool = IDPool()
    cnf = []
    # colour -1 stands for 'not live', only for optional wires
    W = []
    for wi, w in enumerate(g.wires):
        if w['src'][0] == 'loop':
            W.append(None)
            continue
        opts = list(colours)
        if w['optional']:
            opts.append(-1)
        if w['src'][0] == 'edge':
            opts = [c for c in opts if c in (cin, -1)]
        if w['dst'][0] == 'edge':
            opts = [c for c in opts if c in (cout, -1)]
        v = {c: pool.id(('w', wi, c)) for c in opts}
        W.append(v)
        cnf.append(list(v.values()))
        vs = list(v.values())
        cnf += [[-a, -b] for k, a in enumerate(vs) for b in vs[:k]]
    T = []
    for si, s in enumerate(g.splitters):
        v = {k: pool.id(('t', si, k)) for k in types}
        T.append(v)
        vs = list(v.values())
        cnf.append(vs)
        cnf += [[-a, -b] for k, a in enumerate(vs) for b in vs[:k]]
        for (ins, outs), tv in v.items():
            for side, wires in ((ins, s['ins']), (outs, s['outs'])):
                def lit(wire, c):
                    if wire is None:
                        return True if c == -1 else False
                    return W[wire].get(c, False)
                alts = []
                for a, b in {side, side[::-1]}:
                    la, lb = lit(wires[0], a), lit(wires[1], b)
                    if la is False or lb is False:
                        continue
                    av = pool.id(('alt', si, ins, outs, side is ins, a, b, id(wires)))
                    alts.append(av)
                    for l in (la, lb):
                        if l is not True:
                            cnf.append([-av, l])
                cnf.append([-tv] + alts)
    for k, count in types.items():
        lits = [T[si][k] for si in range(len(g.splitters))]
        cnf += CardEnc.equals(lits, count, vpool=pool, encoding=EncType.seqcounter).clauses
    for count, wires in ((n_in, g.inputs()), (n_out, g.outputs())):
        fixed = sum(not g.wires[w]['optional'] for w in wires)
        opt = [-W[w][-1] for w in wires if g.wires[w]['optional']]
        need = count - fixed
        if need < 0 or need > len(opt):
            return False, f'{fixed} (+{len(opt)} possible) boundary belts instead of {count}'
        if opt:
            cnf += CardEnc.equals(opt, need, vpool=pool, encoding=EncType.seqcounter).clauses
    with Solver(name='cadical153', bootstrap_with=cnf) as s:
        if not s.solve():
            return False, 'the splitters do not form the requested network'
        return True, ''


def solve_linear(A, b):
    """Exact Gaussian elimination; A: list of dict rows {col: Fraction}; b: list of lists.
    Returns (solution by column, singular?)."""
    n = len(A)
    m = len(b[0])
    M = [dict(r) for r in A]
    B = [list(r) for r in b]
    where = {}
    used = [False] * n
    for col in range(n):
        piv = None
        for r in range(n):
            if not used[r] and M[r].get(col, 0) != 0:
                piv = r
                break
        if piv is None:
            return None
        used[piv] = True
        where[col] = piv
        f = M[piv][col]
        M[piv] = {c: v / f for c, v in M[piv].items() if v != 0}
        B[piv] = [v / f for v in B[piv]]
        for r in range(n):
            if r != piv:
                k = M[r].get(col, 0)
                if k:
                    for c, v in M[piv].items():
                        nv = M[r].get(c, 0) - k * v
                        if nv:
                            M[r][c] = nv
                        else:
                            M[r].pop(c, None)
                    B[r] = [x - k * y for x, y in zip(B[r], B[piv])]
    return [B[where[c]] for c in range(n)]


def shares(nodes, n_wires, inputs, outputs):
    """nodes: [(in wires, out wires)] with None removed; returns {output: [share of input 0, 1, ...]}
    or None when flow can get trapped."""
    n = n_wires
    # what no input reaches carries nothing
    reach = set(inputs)
    todo = True
    while todo:
        todo = False
        for ins, outs in nodes:
            if any(i in reach for i in ins) and not all(o in reach for o in outs):
                reach.update(outs)
                todo = True
    nodes = [(ins, outs) for ins, outs in nodes if any(i in reach for i in ins)]
    A = [{i: Fraction(1)} for i in range(n)]
    B = [[Fraction(0)] * len(inputs) for _ in range(n)]
    for j, w in enumerate(inputs):
        B[w][j] = Fraction(1)
    for ins, outs in nodes:
        for o in outs:
            for i in ins:
                A[o][i] = A[o].get(i, Fraction(0)) - Fraction(1, len(outs))
    X = solve_linear(A, B)
    if X is None:
        return None
    return {o: X[o] for o in outputs}


def layout_shares(g, optional_live=True):
    nodes = []
    for s in g.splitters:
        def keep(w):
            return w is not None and (optional_live or not g.wires[w]['optional'])
        nodes.append(([w for w in s['ins'] if keep(w)], [w for w in s['outs'] if keep(w)]))
    ins = [w for w in g.inputs() if optional_live or not g.wires[w]['optional']]
    outs = [w for w in g.outputs() if optional_live or not g.wires[w]['optional']]
    return ins, outs, shares(nodes, len(g.wires), ins, outs)


def uneven(sh, n_out):
    """None when every input is divided evenly over all outputs."""
    if sh is None:
        return 'flow is trapped in a loop'
    want = Fraction(1, n_out)
    for o, row in sh.items():
        for j, v in enumerate(row):
            if v != want:
                return f'input {j} gives {v} of its flow to an output instead of {want}'
    return None


def network_shares(network):
    """Steady flow of an abstract network: belts of the same colour are wired up in file order.
    For a balancing network every wiring must be even; see wirings()."""
    i, o = io_colours(network)
    (cin, n_in), (cout, n_out) = i[0], o[0]
    prod = {}
    cons = {}
    for k, (ins, outs) in enumerate(network):
        for c in outs:
            if c is not None:
                prod.setdefault(c, []).append(k)
        for c in ins:
            if c is not None:
                cons.setdefault(c, []).append(k)
    for _ in range(n_in):
        prod.setdefault(cin, []).append('in')
    for _ in range(n_out):
        cons.setdefault(cout, []).append('out')
    return prod, cons, n_in, n_out


def wire_up(network, order):
    """order(colour, n) -> permutation of range(n) saying which producer feeds which consumer."""
    prod, cons, n_in, n_out = network_shares(network)
    nodes = [([], []) for _ in network]
    inputs, outputs = [], []
    w = 0
    for c in sorted(prod):
        ps, cs = prod[c], cons.get(c, [])
        if len(ps) != len(cs):
            raise ValueError(f'colour {c} does not add up')
        perm = order(c, len(ps))
        for a, b in zip(range(len(ps)), perm):
            src, dst = ps[a], cs[b]
            if src == 'in':
                inputs.append(w)
            else:
                nodes[src][1].append(w)
            if dst == 'out':
                outputs.append(w)
            else:
                nodes[dst][0].append(w)
            w += 1
    return nodes, w, inputs, outputs

"""Fast 'is this pinned arrangement accepted?' queries against a real encoder grid."""
import collections

from pysat.solvers import Solver

from . import conv


class Pin:
    """grid: an encoder grid with its rule clauses already added (and nothing pinned).

    Pinning goes through the grid's own set_tile; each pinned tile is guarded by a selector so that
    one incremental solver answers many queries."""

    def __init__(self, grid, solver='cadical153'):
        self.grid = grid
        self.sel = {}
        self.solver = Solver(name=solver, bootstrap_with=list(grid.clauses))

    def selector(self, x, y, t):
        key = (x, y, t)
        v = self.sel.get(key)
        if v is None:
            grid = self.grid
            n = len(grid.clauses)
            grid.set_tile(x, y, conv.to_tile(t))
            tail = [list(c) for c in grid.clauses[n:]]
            del grid.clauses[n:]
            v = self.sel[key] = grid.allocate_variable()
            for c in tail:
                self.solver.add_clause([-v] + c)
        return v

    def accepts(self, rows, skip=()):
        a = [self.selector(x, y, t) for y, row in enumerate(rows) for x, t in enumerate(row) if (x, y) not in skip]
        return self.solver.solve(assumptions=a)

    def close(self):
        if self.solver is not None:
            self.solver.delete()
            self.solver = None


class Cache:
    """Small LRU of Pin objects, keyed by the configuration."""

    def __init__(self, build, size=60):
        self.build = build
        self.size = size
        self.d = collections.OrderedDict()

    def get(self, *key):
        if key in self.d:
            self.d.move_to_end(key)
            return self.d[key]
        while len(self.d) >= self.size:
            self.d.popitem(last=False)[1].close()
        p = Pin(self.build(*key))
        self.d[key] = p
        return p


def ulen(ul):
    return float('inf') if ul == -1 else ul


def make_grid(w, h, ul, wrap=(False, False), block_belts=(False,) * 4, block_ug=(False,) * 4,
              colours=None):
    from factorio_sat.solver import Grid
    from factorio_sat.template import EdgeMode
    m = {False: EdgeMode.NO_WRAP, True: EdgeMode.WRAP}
    grid = Grid(w, h, colours, ulen(ul), edge_mode=(m[bool(wrap[0])], m[bool(wrap[1])]))
    grid.prevent_intersection()
    grid.prevent_bad_undergrounding()
    grid.enforce_maximum_underground_length()
    if any(block_belts):
        grid.block_belts_through_edges(tuple(block_belts))
    if any(block_ug):
        grid.block_underground_through_edges(tuple(block_ug))
    return grid

"""Conversions between the reference model's tuples and the code's tiles."""
from factorio_sat.direction import Direction
from factorio_sat.tile import (AssemblingMachine, BaseTile, Belt, EmptyTile, FillerTile, Inserter,
                               Splitter, UndergroundBelt)

from .core import Violation


def to_tile(t):
    k = t[0]
    if k == 'empty':
        return EmptyTile()
    if k == 'filler':
        return FillerTile()
    if k == 'belt':
        return Belt(Direction(t[1]), Direction(t[2]))
    if k == 'ug':
        return UndergroundBelt(Direction(t[1]), bool(t[2]))
    if k == 'split':
        return Splitter(Direction(t[1]), bool(t[2]))
    if k == 'ins':
        return Inserter(Direction(t[1]), t[2])
    if k == 'asm':
        return AssemblingMachine(t[1], t[2])
    raise ValueError(t)


def from_tile(t):
    if isinstance(t, EmptyTile):
        return ('empty',)
    if isinstance(t, FillerTile):
        return ('filler',)
    if isinstance(t, Belt):
        return ('belt', t.input_direction.value, t.output_direction.value)
    if isinstance(t, UndergroundBelt):
        return ('ug', t.direction.value, bool(t.is_input))
    if isinstance(t, Splitter):
        return ('split', t.direction.value, bool(t.is_head))
    if isinstance(t, Inserter):
        return ('ins', t.direction.value, t.type)
    if isinstance(t, AssemblingMachine):
        return ('asm', t.x, t.y)
    raise Violation(f'unknown tile {t!r}')


def from_json_tile(j):
    """The reference reading of one serialised tile (does not go through the code's reader)."""
    k = j['type']
    if k in ('empty', 'filler'):
        return (k,)
    if k == 'belt':
        return ('belt', j['input_direction'], j['output_direction'])
    if k == 'underground_belt':
        return ('ug', j['direction'], bool(j['is_input']))
    if k == 'splitter':
        return ('split', j['direction'], bool(j['is_head']))
    if k == 'inserter':
        return ('ins', j['direction'], j['insert_type'])
    if k == 'assembling_machine':
        return ('asm', j['x'], j['y'])
    raise Violation(f'unknown serialised tile {j!r}')


def to_json_tile(t):
    k = t[0]
    if k in ('empty', 'filler'):
        return {'type': k}
    if k == 'belt':
        return {'type': 'belt', 'input_direction': t[1], 'output_direction': t[2]}
    if k == 'ug':
        return {'type': 'underground_belt', 'direction': t[1], 'is_input': bool(t[2])}
    if k == 'split':
        return {'type': 'splitter', 'direction': t[1], 'is_head': bool(t[2])}
    if k == 'ins':
        return {'type': 'inserter', 'direction': t[1], 'insert_type': t[2]}
    if k == 'asm':
        return {'type': 'assembling_machine', 'x': t[1], 'y': t[2]}
    raise ValueError(t)


def rows_of_solution(solution):
    """Solver output (2D array / nested list of cells, each with a 'tile' entry) -> reference rows."""
    out = []
    for row in (solution.tolist() if hasattr(solution, 'tolist') else solution):
        out.append([from_json_tile(cell['tile']) for cell in row])
    return out


def tup(rows):
    return [[tuple(c) for c in row] for row in rows]


def show(rows):
    a = '>^<v'
    def f(t):
        k = t[0]
        if k == 'empty':
            return ' .  '
        if k == 'filler':
            return ' #  '
        if k == 'belt':
            return f'b{a[t[1]]}{a[t[2]]} '
        if k == 'ug':
            return ('I' if t[2] else 'O') + a[t[1]] + '  '
        if k == 'split':
            return 'S' + a[t[1]] + ('h ' if t[2] else 't ')
        return 'x   '
    return '\n'.join(''.join(f(t) for t in row) for row in rows)

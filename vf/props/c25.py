from hypothesis import strategies as st

from ..core import Sub, Violation

RULE = ('A case is (a) a template (flags, one-hot and many-hot choices, numbers, arrays, nested groups, derived fields) with '
        'a grid size and a value for every field, or (b) a grid size, edge mode, direction, block size and bounds for '
        'the neighbour, line and block lookups. Non-trivial: the template has at least two parts, or the lookup '
        'crosses an edge or a bound; distinct by case.')
ASSUMPTIONS = ['One-hot fields are decoded from models that set at most one of their literals.',
               'The two directions of a block are perpendicular, as in every caller.']

LEAF = st.one_of(
    st.just({'t': 'bool'}),
    st.integers(1, 5).map(lambda n: {'t': 'one', 'n': n}),
    st.integers(1, 5).map(lambda n: {'t': 'many', 'n': n}),
    st.tuples(st.integers(2, 5), st.booleans()).map(lambda a: {'t': 'num', 'n': a[0], 'signed': a[1]}),
)


@st.composite
def group(draw, child, alias=True):
    n = draw(st.integers(1, 4))
    fields = [[f'f{i}', draw(child)] for i in range(n)]
    if alias:
        for j in range(draw(st.integers(0, 2))):
            kind = draw(st.sampled_from(['ref', 'pair', 'kwargs', 'array']))
            a, b = draw(st.integers(0, len(fields) - 1)), draw(st.integers(0, len(fields) - 1))
            fields.append([f'd{j}', {'t': 'alias', 'kind': kind, 'a': fields[a][0], 'b': fields[b][0]}])
    order = draw(st.permutations(fields)) if draw(st.booleans()) else fields
    # a derived field may only use derived fields that come before it
    seen = {n for n, s in order if s['t'] != 'alias'}
    res = []
    for name, s in order:
        if s['t'] == 'alias':
            if s['a'] not in seen or s['b'] not in seen:
                continue
            seen.add(name)
        res.append([name, s])
    return {'t': 'group', 'fields': res}


def specs():
    array = lambda c: st.tuples(c, st.lists(st.integers(1, 3), min_size=1, max_size=3)).map(lambda a: {'t': 'arr', 'of': a[0], 'shape': a[1]})
    inner = st.recursive(LEAF, lambda c: st.one_of(array(c), group(c)), max_leaves=4)
    return st.one_of(group(inner), group(inner), inner)


def variables(s):
    if s['t'] == 'bool':
        return 1
    if s['t'] == 'arr':
        n = 1
        for k in s['shape']:
            n *= k
        return n * variables(s['of'])
    if s['t'] == 'group':
        return sum(variables(f) for _, f in s['fields'] if f['t'] != 'alias')
    return s['n']


def make(s):
    from factorio_sat import template as T
    import numpy as np
    k = s['t']
    if k == 'bool':
        return T.BoolTemplate()
    if k == 'one':
        return T.OneHotTemplate(s['n'])
    if k == 'many':
        return T.ManyHotTemplate(s['n'])
    if k == 'num':
        return T.NumberTemplate(s['n'], s['signed'])
    if k == 'arr':
        return T.ArrayTemplate(make(s['of']), tuple(s['shape']))
    return T.CompositeTemplate(params(s))


def params(s):
    import numpy as np
    d = {}
    for name, f in s['fields']:
        if f['t'] == 'alias':
            a, b = f['a'], f['b']
            if f['kind'] == 'ref':
                d[name] = eval(f'lambda {a}: {a}')
            elif f['kind'] == 'pair':
                d[name] = eval(f'lambda {a}, {b}: [{a}, {b}]') if a != b else eval(f'lambda {a}: [{a}, {a}]')
            elif f['kind'] == 'kwargs':
                d[name] = (lambda a, b: lambda **kw: [kw[b], kw[a]])(a, b)
            else:
                d[name] = eval(f'lambda {a}: np.array([5, 6])', {'np': np})
        elif f['t'] == 'group' and f.get('plain', True):
            d[name] = params(f)          # nested groups are given as dictionaries
        else:
            d[name] = make(f)
    return d


def collect(s, inst, out):
    """The literals of every field of an instance, checking its structure."""
    k = s['t']
    if k == 'bool':
        if not isinstance(inst, int):
            raise Violation(f'a flag is {inst!r}')
        out.append(inst)
    elif k in ('one', 'many', 'num'):
        if not isinstance(inst, list) or len(inst) != s['n']:
            raise Violation(f'{s} has the variables {inst!r}')
        out += inst
    elif k == 'arr':
        def rec(v, shape):
            if not shape:
                collect(s['of'], v, out)
                return
            if not isinstance(v, list) or len(v) != shape[0]:
                raise Violation(f'array {s} is laid out as {inst!r}')
            for x in v:
                rec(x, shape[1:])
        rec(inst, s['shape'])
    else:
        for name, f in s['fields']:
            if not hasattr(inst, name):
                raise Violation(f'no field {name}')
            if f['t'] != 'alias':
                collect(f, getattr(inst, name), out)
        for name, f in s['fields']:
            if f['t'] == 'alias':
                v = getattr(inst, name)
                a, b = getattr(inst, f['a']), getattr(inst, f['b'])
                want = {'ref': a, 'pair': [a, b], 'kwargs': [b, a], 'array': [5, 6]}[f['kind']]
                if v != want or type(v) is not type(want):
                    raise Violation(f'derived field {name} is {v!r}, not the {want!r} it names')


def decode(s, inst, m):
    k = s['t']
    if k == 'bool':
        return m[inst]
    if k == 'one':
        on = [i for i, v in enumerate(inst) if m[v]]
        return on[0] if on else None
    if k == 'many':
        return [i for i, v in enumerate(inst) if m[v]]
    if k == 'num':
        v = sum(1 << i for i, x in enumerate(inst) if m[x])
        return v - (1 << s['n']) if s['signed'] and m[inst[-1]] else v
    if k == 'arr':
        def rec(v, shape):
            return decode(s['of'], v, m) if not shape else [rec(x, shape[1:]) for x in v]
        return rec(inst, s['shape'])
    return {name: decode(f, getattr(inst, name), m) for name, f in s['fields'] if f['t'] != 'alias'}


def one_hots(s, inst):
    k = s['t']
    if k == 'one':
        yield inst
    elif k == 'arr':
        def rec(v, shape):
            if not shape:
                yield from one_hots(s['of'], v)
            else:
                for x in v:
                    yield from rec(x, shape[1:])
        yield from rec(inst, s['shape'])
    elif k == 'group':
        for name, f in s['fields']:
            if f['t'] != 'alias':
                yield from one_hots(f, getattr(inst, name))


@st.composite
def template_cases(draw):
    s = draw(specs())
    w, h = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    n = variables(s) * w * h
    return {'spec': s, 'w': w, 'h': h, 'start': draw(st.integers(0, 5)), 'bits': draw(st.integers(0, (1 << min(n, 400)) - 1)), 'mode': draw(st.integers(0, 3))}


def check_template(c, rec):
    from pysat.formula import IDPool
    from factorio_sat import template as T
    s = c['spec']
    t = make(s)
    n = variables(s)
    if t.variable_count != n:
        raise Violation(f'{s} announces {t.variable_count} variables instead of {n}')
    pool = IDPool()
    for _ in range(c['start']):
        pool._next()
    grid = T.BaseGrid(t, c['w'], c['h'], pool=pool if c['start'] else None)
    if grid.total_variables != n * c['w'] * c['h'] or grid.tile_size != n:
        raise Violation(f'the grid announces {grid.total_variables} variables')
    lits = []
    insts = {}
    for y in range(c['h']):
        for x in range(c['w']):
            inst = grid.get_tile_instance(x, y)
            insts[x, y] = inst
            own = []
            collect(s, inst, own)
            if len(own) != n:
                raise Violation(f'a tile of {s} has {len(own)} variables')
            lits += own
            flat = T.flatten(inst)
            if not set(own) <= set(flat):
                raise Violation(f'flatten misses variables of {inst}')
            if not has_alias(s) and sorted(flat) != sorted(own):
                raise Violation(f'flatten of {inst} gives {flat}')
    if len(set(lits)) != len(lits):
        raise Violation(f'tiles or fields of {s} share variables')
    if any(v <= c['start'] for v in lits):
        raise Violation('a variable that was taken before is used again')
    extra = grid.allocate_variable()
    if extra in lits or extra <= 0:
        raise Violation('a new variable is not new')
    seen = [i for i in grid.iterate_tiles()]
    if sorted(map(id, seen)) != sorted(map(id, (grid.tiles[y, x] for x in range(c['w']) for y in range(c['h'])))):
        raise Violation('iterating over the tiles does not give each once')
    m = {v: bool(c['bits'] >> (i % 400) & 1) for i, v in enumerate(lits)}
    for inst in insts.values():
        for g in one_hots(s, inst):
            on = [v for v in g if m[v]]
            for v in on[1:]:
                m[v] = False
    m[extra] = True
    model = [v if m[v] else -v for v in m]
    if c['mode'] % 2:
        model = model[::-1]
    sol = grid.parse_solution(model)
    if sol.shape != (c['h'], c['w']):
        raise Violation(f'the solution has shape {sol.shape}')
    for (x, y), inst in insts.items():
        want = decode(s, inst, m)
        if sol[y, x] != want:
            raise Violation(f'tile {(x, y)} of {s} decodes to {sol[y, x]} instead of {want}')
    if s['t'] == 'arr' or s['t'] == 'group' and len(s['fields']) > 1:
        rec.nontrivial((s, c['w'], c['h'], c['bits']), {'spec': s, 'grid': [c['w'], c['h']]})
    rec.event('derived fields' if has_alias(s) else 'no derived fields')


def has_alias(s):
    if s['t'] == 'arr':
        return has_alias(s['of'])
    if s['t'] == 'group':
        return any(f['t'] == 'alias' or has_alias(f) for _, f in s['fields'])
    return False


DIRS = [(1, 0), (0, -1), (-1, 0), (0, 1)]


@st.composite
def lookup_cases(draw):
    w, h = draw(st.integers(1, 5)), draw(st.integers(1, 5))
    d = draw(st.integers(0, 3))
    r = (d + draw(st.sampled_from([1, 3]))) % 4
    B = st.one_of(st.none(), st.integers(-1, 5))
    return {'w': w, 'h': h, 'wrap': [draw(st.booleans()), draw(st.booleans())], 'cdir': d, 'rdir': r, 'cols': draw(st.integers(1, 4)), 'rows': draw(st.integers(1, 4)),
            'bounds': [draw(B), draw(B), draw(B), draw(B)], 'both': draw(st.booleans())}


def check_lookup(c, rec):
    from factorio_sat import template as T
    mode = {False: T.EdgeMode.NO_WRAP, True: T.EdgeMode.WRAP}
    wrap = c['wrap']
    em = mode[wrap[0]] if wrap[0] == wrap[1] and c['both'] else (mode[wrap[0]], mode[wrap[1]])
    w, h = c['w'], c['h']
    grid = T.BaseGrid(T.BoolTemplate(), w, h, edge_mode=em)
    num = {(x, y): grid.get_tile_instance(x, y) for x in range(w) for y in range(h)}
    if len(set(num.values())) != w * h:
        raise Violation('tiles share variables')

    def at(x, y):
        if not 0 <= x < w:
            if not wrap[0]:
                return None
            x %= w
        if not 0 <= y < h:
            if not wrap[1]:
                return None
            y %= h
        return num[x, y]
    for (x, y) in num:
        for dx in range(-w - 1, w + 2):
            for dy in range(-h - 1, h + 2):
                if grid.get_tile_instance_offset(x, y, dx, dy) != at(x + dx, y + dy):
                    raise Violation(f'the tile {dx, dy} away from {x, y} in {w}x{h} wrap {wrap} is {grid.get_tile_instance_offset(x, y, dx, dy)}, not {at(x + dx, y + dy)}')
    dx, dy = DIRS[c['cdir']]
    got = sorted((tuple(line) for line in grid.iterate_tile_lines((dx, dy), c['cols'])), key=repr)
    want = sorted((tuple(at(x + dx * i, y + dy * i) for i in range(c['cols'])) for x, y in num), key=repr)
    if got != want:
        raise Violation(f'lines of {c["cols"]} towards {dx, dy} in {w}x{h} wrap {wrap} differ: {got} instead of {want}')
    rx, ry = DIRS[c['rdir']]
    lo_x, lo_y, hi_x, hi_y = c['bounds']
    want = []
    for x, y in num:
        cells = [[(x + rx * r + dx * k, y + ry * r + dy * k) for k in range(c['cols'])] for r in range(c['rows'])]
        flat = [p for row in cells for p in row]
        if any(lo_x is not None and px < lo_x or hi_x is not None and px > hi_x or lo_y is not None and py < lo_y or hi_y is not None and py > hi_y for px, py in flat):
            continue
        want.append(tuple(tuple(at(*p) for p in row) for row in cells))
    got = [tuple(tuple(r) for r in b.tolist()) for b in grid.iterate_tile_blocks((dx, dy), c['cols'], (rx, ry), c['rows'], lo_x, lo_y, hi_x, hi_y)]
    if sorted(got, key=repr) != sorted(want, key=repr):
        raise Violation(f'blocks of {c["cols"]} towards {dx, dy} by {c["rows"]} towards {rx, ry} in {w}x{h} wrap {wrap} bounds {c["bounds"]}: {len(got)} instead of {len(want)}, or other tiles')
    if any(b is not None for b in c['bounds']) or any(wrap) or c['cols'] > 1:
        rec.nontrivial(c, c)
    if want and len(want) < w * h:
        rec.event('bounds exclude some')


@st.composite
def grid_cases(draw):
    return {'tool': draw(st.sampled_from(['solver', 'belt_balancer', 'net_free', 'block', 'interchange'])), 'w': draw(st.integers(1, 5)), 'h': draw(st.integers(1, 5)), 'colours': draw(st.one_of(st.none(), st.integers(1, 6))), 'start': draw(st.integers(0, 2))}


def check_grid(c, rec):
    """Two real grids on one pool never share a variable."""
    from pysat.formula import IDPool
    from factorio_sat import template as T
    from factorio_sat.solver import Grid
    pool = IDPool()
    a = Grid(c['w'], c['h'], c['colours'], 4, pool=pool)
    extra = a.allocate_variable()
    b = Grid(c['h'], c['w'], None, float('inf'), pool=pool)
    va = [{abs(v) for v in T.flatten(t) if v} for t in a.iterate_tiles()]
    vb = [{abs(v) for v in T.flatten(t) if v} for t in b.iterate_tiles()]
    allv = va + vb + [{extra}]
    if sum(len(s) for s in allv) != len(set().union(*allv)):
        raise Violation('tiles of two grids on one pool share variables')
    for g, vs in ((a, va), (b, vb)):
        if sum(len(s) for s in vs) != g.total_variables:
            raise Violation(f'{g.total_variables} variables announced, {sum(len(s) for s in vs)} used')
    rec.nontrivial((c['w'], c['h'], c['colours']))


SUBS = [
    Sub('templates', check_template, gen=lambda tier: template_cases(), quick=3000, thorough=40000, shards=6, tshards=8, hang=60),
    Sub('lookups', check_lookup, gen=lambda tier: lookup_cases(), quick=3000, thorough=40000, shards=4, tshards=8, hang=60),
    Sub('grids', check_grid, gen=lambda tier: grid_cases(), quick=150, thorough=1000, shards=2, tshards=4, hang=60),
]

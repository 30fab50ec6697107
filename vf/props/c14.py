import random
import json

from hypothesis import strategies as st

from .. import conv, corpus, gen, phys, tools
from ..core import Sub, Violation
from ..phys import EMPTY, VEC

RULE = ('A case is a list of supported entities without overlap, in random order, tier, spelling of the direction and '
        'offset (or a list with one unsupported entity or a string of another version). Non-trivial: at least two '
        'entities; distinct by entity list.')
ASSUMPTIONS = ['Entities lie on the tile grid; directions are multiples of two (format version 0).']

FACTORIO = {0: 2, 1: 0, 2: 6, 3: 4}
PREFIX = ('', 'fast-', 'express-')
INSERTERS = ('burner-inserter', 'inserter', 'fast-inserter', 'filter-inserter', 'stack-inserter', 'stack-filter-inserter')


@st.composite
def cases(draw):
    kinds = draw(st.sampled_from([('belt', 'ug', 'split', 'ins', 'filler', 'asm'), ('belt', 'belt', 'belt', 'belt', 'ug', 'split'), ('split', 'asm', 'belt'), ('belt',)]))
    large = draw(st.integers(0, 29)) == 29
    rows = draw(gen.large_rows(36, kinds) if large else gen.entity_rows(9, 9, kinds))
    r = random.Random(draw(st.integers(0, 1 << 30))) if large else None
    pick = r.randint if large else lambda a, b: draw(st.integers(a, b))
    ents = []
    for y, row in enumerate(rows):
        for x, t in enumerate(row):
            e, px, py = {}, x + .5, y + .5
            d = 1
            pre = PREFIX[pick(0, 2)] if t[0] in ('belt', 'ug', 'split') else ''
            if t[0] == 'belt':
                e['name'], d = pre + 'transport-belt', t[2]
            elif t[0] == 'ug':
                e['name'], d, e['type'] = pre + 'underground-belt', t[1], 'input' if t[2] else 'output'
            elif t[0] == 'split' and t[2]:
                e['name'], d = pre + 'splitter', t[1]
                px += VEC[(d + 1) % 4][0] / 2
                py += VEC[(d + 1) % 4][1] / 2
            elif t[0] == 'ins':
                e['name'], d = (INSERTERS[pick(0, len(INSERTERS) - 1)] if t[2] == 0 else 'long-handed-inserter'), (t[1] + 2) % 4
            elif t == ('asm', 1, 1):
                e['name'] = f'assembling-machine-{pick(1, 3)}'
            elif t == phys.FILLER:
                e['name'] = 'wooden-chest'
            else:
                continue
            f = FACTORIO[d]
            if f or pick(0, 1):
                e['direction'] = f
            e['position'] = {'x': px, 'y': py}
            ents.append(e)
    if large:
        r.shuffle(ents)
    else:
        ents = draw(st.permutations(ents))
    big = draw(st.integers(0, 3)) == 0
    ox = draw(st.integers(-3000, 3000) if big else st.integers(-9, 9))
    oy = draw(st.integers(-3000, 3000) if big else st.integers(-9, 9))
    for i, e in enumerate(ents):
        e['position']['x'] += ox
        e['position']['y'] += oy
        if pick(0, 3) == 0:
            e['position'] = {k: int(v) if v == int(v) else v for k, v in e['position'].items()}
        e['entity_number'] = i + 1
    c = {'entities': ents, 'rows': rows}
    if draw(st.integers(0, 11)) == 0:
        bad = {'entity_number': len(ents) + 1, 'name': draw(st.sampled_from(['pipe', 'small-lamp', 'stone-wall', 'roboport', 'linked-belt', 'splitter-x', 'iron-chest', 'loader'])), 'position': {'x': ox + .5, 'y': oy + .5}}
        c['bad'] = draw(st.sampled_from(['version', 'entity']))
        if c['bad'] == 'entity':
            ents.insert(draw(st.integers(0, len(ents))), bad)
        else:
            c['version'] = draw(st.sampled_from('123456789aA'))
    return c


def reference(c):
    from .c13 import crop
    rows = conv.tup(c['rows'])
    if all(t == EMPTY for r in rows for t in r):
        return []
    # filler is an entity here
    ys = [y for y, r in enumerate(rows) if any(t != EMPTY for t in r)]
    xs = [x for x in range(len(rows[0])) if any(r[x] != EMPTY for r in rows)]
    return [r[xs[0]:xs[-1] + 1] for r in rows[ys[0]:ys[-1] + 1]]


def text_of(c):
    s = corpus.encode({'blueprint': {'entities': c['entities'], 'item': 'blueprint', 'version': 281474976710656}})
    if c.get('bad') == 'version':
        s = c['version'] + s[1:]
    return s


def note(rec, c):
    if len(c['entities']) >= 2:
        rec.nontrivial(c['entities'], {'entities': c['entities'][:4], 'count': len(c['entities'])})
    if c.get('bad'):
        rec.event('rejected ' + c['bad'])
    elif any(t[0] == 'belt' and t[1] != t[2] for r in c['rows'] for t in r):
        rec.event('with a curve')


def check_functions(c, rec):
    from factorio_sat import blueprint
    s = text_of(c)
    if c.get('bad'):
        try:
            got = blueprint.import_blueprint(blueprint.decode_blueprint(s))
        except Exception:
            note(rec, c)
            return
        raise Violation(f"an unsupported {c['bad']} was accepted, giving {got.shape}")
    data = blueprint.decode_blueprint(s)
    got = [[conv.from_tile(t) for t in r] for r in blueprint.import_blueprint(data)]
    want = reference(c)
    if got != want:
        raise Violation(f"imported layout differs\nwanted\n{conv.show(want)}\ngot\n{conv.show(got) if got else '(nothing)'}\nentities {json.dumps(c['entities'])[:600]}")
    if want and corpus.entities_to_rows(c['entities']) != want:
        raise RuntimeError('the two reference importers differ')
    note(rec, c)


def check_tool(c, rec):
    cs = c['list']
    text = ''.join(text_of(k) + '\n' for k in cs)
    res = tools.run('blueprint', ['decode'], text)
    good = []
    for k in cs:
        if k.get('bad'):
            break
        good.append(k)
    if len(good) < len(cs):
        if res.exc in (None, 'EOFError') or res.exc == 'SystemExit' and not res.code:
            raise Violation(f"an unsupported {cs[len(good)]['bad']} ended without an error")
    else:
        tools.need_ok(res, 'blueprint decode', ('EOFError',))
    if len(res.lines) != len(good):
        raise Violation(f'{len(good)} good blueprints, {len(res.lines)} layouts printed')
    for k, line in zip(good, res.lines):
        got = [[conv.from_json_tile(cell['tile']) for cell in r] for r in json.loads(line)]
        if got != reference(k):
            raise Violation(f"imported layout differs\nwanted\n{conv.show(reference(k))}\ngot\n{conv.show(got) if got else '(nothing)'}")
    for k in cs:
        note(rec, k)


SUBS = [
    Sub('functions', check_functions, gen=lambda tier: cases(), quick=4000, thorough=60000, shards=6, tshards=8, hang=60),
    Sub('tool', check_tool, gen=lambda tier: st.fixed_dictionaries({'list': st.lists(cases(), min_size=1, max_size=4)}), quick=200, thorough=4000, shards=4, tshards=8, hang=60),
]

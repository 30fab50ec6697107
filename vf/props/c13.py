import json

from hypothesis import strategies as st

from .. import conv, corpus, gen, phys, tools
from ..core import Sub, Violation
from ..phys import EMPTY, VEC

RULE = ('A case is a layout of whole entities (belts bent as their neighbours dictate) with a belt level and a label, '
        'encoded and decoded by the functions or by the command line tool. Non-trivial: at least two entities of '
        'which one is not a straight belt; distinct by layout, level and label.')
ASSUMPTIONS = ['Empty and filler tiles leave no entity; assembling machines cannot be encoded.']

NAMES = {'normal': ('transport-belt', 'underground-belt', 'splitter'),
         'fast': ('fast-transport-belt', 'fast-underground-belt', 'fast-splitter'),
         'express': ('express-transport-belt', 'express-underground-belt', 'express-splitter')}
FACTORIO = {0: 2, 1: 0, 2: 6, 3: 4}


def crop(rows):
    """The occupied rectangle; filler counts as empty."""
    rows = [[EMPTY if t == phys.FILLER else t for t in r] for r in rows]
    ys = [y for y, r in enumerate(rows) if any(t != EMPTY for t in r)]
    if not ys:
        return []
    xs = [x for x in range(len(rows[0])) if any(r[x] != EMPTY for r in rows)]
    return [r[xs[0]:xs[-1] + 1] for r in rows[ys[0]:ys[-1] + 1]]


def expected_entities(rows, level):
    belt, ug, split = NAMES[level]
    res = []
    for y, row in enumerate(rows):
        for x, t in enumerate(row):
            pos, d, typ, name = (x + .5, y + .5), None, None, None
            if t[0] == 'belt':
                name, d = belt, t[2]
            elif t[0] == 'ug':
                name, d, typ = ug, t[1], 'input' if t[2] else 'output'
            elif t[0] == 'split' and t[2]:
                name, d = split, t[1]
                v = VEC[(d + 1) % 4]
                pos = (x + .5 + v[0] / 2, y + .5 + v[1] / 2)
            elif t[0] == 'ins':
                name, d = ('inserter', 'long-handed-inserter')[t[2]], (t[1] + 2) % 4
            if name:
                res.append((name, *pos, FACTORIO[d], typ))
    return sorted(res, key=repr)


def check_string(rows, s, level, label):
    data = corpus.decode(s)
    bp = data['blueprint']
    if bp.get('label') != label:
        raise Violation(f'label {bp.get("label")!r} instead of {label!r}')
    if label is None and 'label' in bp:
        raise Violation('a label although none was asked for')
    ents = bp['entities']
    numbers = [e['entity_number'] for e in ents]
    if len(set(numbers)) != len(numbers):
        raise Violation(f'entity numbers repeat: {numbers}')
    got = [(e['name'], e['position']['x'], e['position']['y'], e.get('direction', 0), e.get('type')) for e in ents]
    # positions only matter relative to each other
    want = expected_entities(rows, level)

    def norm(es):
        if not es:
            return []
        ox, oy = min(e[1] for e in es), min(e[2] for e in es)
        return sorted([(e[0], e[1] - ox, e[2] - oy, *e[3:]) for e in es], key=repr)
    if norm(got) != norm(want):
        raise Violation(f'the entities are not those of the layout\n{conv.show(rows)}\nonly in the string: {[e for e in norm(got) if e not in norm(want)][:4]}\nonly in the layout: {[e for e in norm(want) if e not in norm(got)][:4]}')
    if bp.get('item') != 'blueprint':
        raise Violation('not a blueprint')


def note(rec, rows, level, label):
    es = expected_entities(rows, level)
    if len(es) >= 2 and any(t[0] in ('ug', 'split', 'ins') or t[0] == 'belt' and t[1] != t[2] for r in rows for t in r):
        rec.nontrivial((rows, level, label), {'layout': conv.show(rows).split('\n'), 'level': level, 'label': label})
    if not es:
        rec.event('nothing to encode')
    if any(t[0] == 'belt' and t[1] != t[2] for r in rows for t in r):
        rec.event('with a curve')


def cases():
    label = st.one_of(st.none(), st.text(max_size=8))
    rows = st.one_of(gen.entity_rows(9, 9), gen.entity_rows(3, 3), gen.entity_rows(6, 6, ('belt', 'belt', 'belt', 'ug', 'split')))
    rows = gen.mostly(rows, gen.large_rows(), 30)
    return st.fixed_dictionaries({'rows': rows, 'level': st.sampled_from(sorted(NAMES)), 'label': label})


def check_functions(c, rec):
    import numpy as np
    from factorio_sat import blueprint
    rows = conv.tup(c['rows'])
    tiles = np.full((len(rows), len(rows[0])), None, dtype=object)
    for y, r in enumerate(rows):
        for x, t in enumerate(r):
            tiles[y, x] = conv.to_tile(t)
    before = tiles.copy()
    s = blueprint.encode_blueprint(blueprint.make_blueprint(tiles, c['label'], blueprint.TransportBeltLevel[c['level'].upper()]))
    if not (before == tiles).all():
        raise Violation('encoding changed its input')
    check_string(rows, s, c['level'], c['label'])
    back = blueprint.import_blueprint(blueprint.decode_blueprint(s))
    got = [[conv.from_tile(t) for t in r] for r in back]
    if got != crop(rows):
        raise Violation(f"the decoded layout differs\n{conv.show(rows)}\n--\n{conv.show(got) if got else '(nothing)'}")
    if crop(rows):
        again = blueprint.convert_to_tiles(s)
        if [[conv.from_tile(t) for t in r] for r in again] != got:
            raise Violation('convert_to_tiles and import_blueprint differ')
    note(rec, rows, c['level'] or 'normal', c['label'])


def stream_cases():
    label = st.one_of(st.none(), st.text(st.characters(blacklist_categories=('Cs', 'Cc'), blacklist_characters='-'), max_size=8))
    return st.fixed_dictionaries({'layouts': st.lists(gen.mostly(st.one_of(gen.entity_rows(7, 7), gen.entity_rows(5, 5, ('belt', 'belt', 'ug', 'split'))), gen.large_rows()), min_size=1, max_size=4), 'level': st.sampled_from([None, *sorted(NAMES)]), 'label': label})


def check_tool(c, rec):
    layouts = [conv.tup(r) for r in c['layouts']]
    text = ''.join(json.dumps([[{'tile': conv.to_json_tile(t)} for t in r] for r in rows]) + '\n' for rows in layouts)
    argv = ['encode'] + (['--label', c['label']] if c['label'] is not None else []) + (['--level', c['level']] if c['level'] else [])
    enc = tools.need_ok(tools.run('blueprint', argv, text), 'blueprint encode', ('EOFError',))
    if len(enc.lines) != len(layouts):
        raise Violation(f'{len(layouts)} layouts in, {len(enc.lines)} blueprints out')
    for rows, s in zip(layouts, enc.lines):
        check_string(rows, s, c['level'] or 'normal', c['label'])
    dec = tools.need_ok(tools.run('blueprint', ['decode'], enc.out), 'blueprint decode', ('EOFError',))
    got = [[[conv.from_json_tile(cell['tile']) for cell in r] for r in json.loads(line)] for line in dec.lines]
    if len(got) != len(layouts):
        raise Violation(f'{len(layouts)} blueprints in, {len(got)} layouts out')
    for rows, g in zip(layouts, got):
        if g != crop(rows):
            raise Violation(f"the decoded layout differs\n{conv.show(rows)}\n--\n{conv.show(g) if g else '(nothing)'}")
        note(rec, rows, c['level'] or 'normal', c['label'])


SUBS = [
    Sub('functions', check_functions, gen=lambda tier: cases(), quick=4000, thorough=60000, shards=6, tshards=8, hang=60),
    Sub('tool', check_tool, gen=lambda tier: stream_cases(), quick=240, thorough=4000, shards=4, tshards=8, hang=60),
]

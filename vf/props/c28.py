import importlib.util
import io
import json
import os
import shutil
import sys

from hypothesis import strategies as st

from .. import glfake, tools
from ..core import REPO, Sub, Violation

RULE = ('A case is a game installation (sprite sheets with random content, recipe files in the forms the game uses, written with random spacing, quotes, comments and '
        'field order), fetched by the tool into a scratch directory. Non-trivial: at least two recipes that are kept; distinct by the recipes.')
ASSUMPTIONS = ['Recipe files are one data:extend({...}) each, as the game ships them.', 'The tool runs from a copy of factorio_sat/assets, because it writes beside itself.']

GRAPHICS = {
    'assembling-machine-1': ['hr-assembling-machine-1.png', 'hr-assembling-machine-1-shadow.png'],
    'burner-inserter': ['hr-burner-inserter-hand-base-shadow.png', 'hr-burner-inserter-hand-closed-shadow.png', 'hr-burner-inserter-hand-open-shadow.png'],
    'inserter': ['hr-inserter-hand-base.png', 'hr-inserter-hand-closed.png', 'hr-inserter-hand-open.png', 'hr-inserter-platform.png'],
    'long-handed-inserter': ['hr-long-handed-inserter-hand-base.png', 'hr-long-handed-inserter-hand-closed.png', 'hr-long-handed-inserter-hand-open.png', 'hr-long-handed-inserter-platform.png'],
    'splitter': ['hr-splitter-east-top_patch.png', 'hr-splitter-east.png', 'hr-splitter-north.png', 'hr-splitter-south.png', 'hr-splitter-west-top_patch.png', 'hr-splitter-west.png'],
    'transport-belt': ['hr-transport-belt.png', 'transport-belt.png'],
    'underground-belt': ['hr-underground-belt-structure.png', 'hr-underground-belt-structure-back-patch.png'],
    'fast-splitter': ['hr-splitter-east.png'],
}
WORDS = ['iron-plate', 'copper-cable', 'steel-plate', 'wood', 'stone-brick', 'gear', 'it s', 'a"b', 'x--y']
AMOUNT = st.one_of(st.integers(1, 20), st.sampled_from([1, 2, 100]))
TIME = st.sampled_from([0.5, 1, 2, 2.5, 10, 0.25])
ITEM = st.fixed_dictionaries({'name': st.sampled_from(WORDS), 'amount': AMOUNT, 'short': st.booleans()})


@st.composite
def bodies(draw):
    kind = draw(st.sampled_from(['result', 'result', 'count', 'results']))
    return {'time': draw(st.one_of(st.none(), TIME)), 'ingredients': draw(st.lists(ITEM, max_size=4)), 'kind': kind,
            'results': draw(st.lists(ITEM, min_size=1, max_size=1 if kind != 'results' else 3))}


@st.composite
def recipes(draw):
    form = draw(st.sampled_from(['flat', 'flat', 'both', 'both', 'normal']))
    return {'form': form, 'category': draw(st.sampled_from([None, None, None, 'crafting', 'advanced-crafting', 'smelting', 'chemistry', 'crafting-with-fluid'])),
            'time': draw(st.one_of(st.none(), TIME)), 'a': draw(bodies()), 'b': draw(bodies()), 'name': draw(st.sampled_from(WORDS)), 'salt': draw(st.integers(0, 999))}


@st.composite
def cases(draw):
    return {'files': draw(st.lists(st.lists(recipes(), max_size=5), min_size=1, max_size=3)), 'salt': draw(st.integers(0, 10**6))}


def lua_string(s, salt):
    if '"' in s:
        return "'" + s + "'"
    return ('"' + s + '"') if salt % 3 else ("'" + s + "'")


def lua_table(fields, salt):
    """fields: list of (key or None, text)"""
    pieces = []
    for i, (k, v) in enumerate(fields):
        n = salt + 7 * i
        key = '' if k is None else (f'["{k}"] = ' if False else f'{k} = ' if n % 2 else f'{k}=')
        pieces.append(key + v)
    sep = [', ', ',\n  ', ',', ' ,  -- a comment, with } and "\n'][salt % 4]
    return '{' + ['', ' ', '\n'][salt % 3] + sep.join(pieces) + (',' if pieces and salt % 5 == 0 else '') + ['', '\n'][salt % 2] + '}'


def lua_items(items, salt, fluid=False):
    out = []
    for i, it in enumerate(items):
        n = salt + i
        if it['short']:
            out.append((None, lua_table([(None, lua_string(it['name'], n)), (None, str(it['amount']))], n)))
        else:
            f = [('type', lua_string('item', n)), ('name', lua_string(it['name'], n)), ('amount', str(it['amount']))]
            out.append((None, lua_table(f[n % 3:] + f[:n % 3], n)))
    if fluid:
        out.append((None, lua_table([('type', '"fluid"'), ('name', '"water"'), ('amount', '30')], salt)))
    return lua_table(out, salt)


def lua_body(b, salt, fluid):
    f = [('ingredients', lua_items(b['ingredients'], salt, fluid))]
    if b['time'] is not None:
        f.append(('energy_required', str(b['time'])))
    r = b['results'][0]
    if b['kind'] == 'results':
        f.append(('results', lua_items([dict(x, short=False) for x in b['results']], salt + 1)))
    else:
        f.append(('result', lua_string(r['name'], salt)))
        if b['kind'] == 'count':
            f.append(('result_count', str(r['amount'])))
    return f


def lua_recipe(rc):
    salt = rc['salt']
    fluid = rc['category'] in ('chemistry', 'crafting-with-fluid')
    f = [('type', '"recipe"'), ('name', lua_string(rc['name'], salt))]
    if rc['category'] is not None:
        f.append(('category', lua_string(rc['category'], salt)))
    if salt % 2:
        f.append(('enabled', ['true', 'false'][salt % 4 // 2]))
    if salt % 3 == 0:
        f.append(('crafting_machine_tint', '{ primary = {r = 0.1, g = 0.5, b = 1, a = 0.5}, secondary = {0, 1, 1} }'))
    if rc['form'] == 'flat':
        body = lua_body(rc['a'], salt, fluid)
        if rc['a']['time'] is None and rc['time'] is not None:
            body.append(('energy_required', str(rc['time'])))
        f += body
    else:
        if rc['time'] is not None:
            f.append(('energy_required', str(rc['time'])))
        f.append(('normal', lua_table(lua_body(rc['a'], salt, fluid), salt)))
        if rc['form'] == 'both':
            f.append(('expensive', lua_table(lua_body(rc['b'], salt + 1, fluid), salt + 1)))
    k = salt % len(f)
    return lua_table(f[k:] + f[:k], salt)


def expected(rc, variant):
    if rc['category'] not in (None, 'crafting', 'advanced-crafting'):
        return None
    b = rc['b'] if rc['form'] == 'both' and variant == 'expensive' else rc['a']
    time = b['time'] if b['time'] is not None else rc['time'] if rc['time'] is not None else 0.5
    results = [{'name': x['name'], 'amount': x['amount'] if b['kind'] != 'result' else 1} for x in b['results']]
    return {'time': time, 'ingredients': [{'name': x['name'], 'amount': x['amount']} for x in b['ingredients']], 'results': results}


def fetch(install, copy):
    """Run the tool from a copy of its directory."""
    def body():
        name = 'factorio_sat.assets.fetch'
        spec = importlib.util.spec_from_file_location(name, os.path.join(copy, 'fetch.py'))
        mod = importlib.util.module_from_spec(spec)
        out = io.StringIO()
        sys.argv = ['fetch_assets', install]
        sys.stdout = out
        try:
            spec.loader.exec_module(mod)
            mod.main()
        except BaseException as e:
            import traceback
            return ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-3:])
        return None
    return tools.forked(body, 120)


def sheets_used():
    """The files the renderer opens."""
    def body():
        glfake.install(REPO)
        from factorio_sat import tilemaps
        glfake.reset()
        from PIL import Image
        opened = []
        Image.open = lambda f, *a, **k: opened.append(str(f)) or glfake.image(f)
        tilemaps.init()
        return opened, os.path.dirname(tilemaps.__file__)
    return tools.forked(body, 120)


_used = []


def check(c, rec):
    if not _used:
        _used.append(sheets_used())
    opened, package = _used[0]
    with tools.Scratch() as s:
        copy = s.join('assets')
        os.mkdir(copy)
        shutil.copy(os.path.join(REPO, 'factorio_sat', 'assets', 'fetch.py'), copy)
        base = s.join('Factorio/data/base')
        content = {}
        for d, names in GRAPHICS.items():
            os.makedirs(os.path.join(base, 'graphics', 'entity', d))
            for n in names:
                data = f'{c["salt"]} {d} {n}'.encode() * 3 + bytes(range(256))
                content[d, n] = data
                with open(os.path.join(base, 'graphics', 'entity', d, n), 'wb') as f:
                    f.write(data)
        os.makedirs(os.path.join(base, 'prototypes', 'recipe'))
        for i, file in enumerate(c['files']):
            text = ['', '-- recipes\n'][i % 2] + 'data:extend(' + ['', '\n'][c['salt'] % 2] + lua_table([(None, lua_recipe(rc)) for rc in file], c['salt']) + ')\n'
            with open(os.path.join(base, 'prototypes', 'recipe', f'recipes-{i}.lua'), 'w') as f:
                f.write(text)
        error = fetch(s.join('Factorio'), copy)
        if error is not None:
            raise Violation(f'fetch_assets failed: {error}\n{text}')
        for p in opened:
            if os.path.dirname(p) != os.path.join(package, 'assets'):
                raise Violation(f'the renderer looks for {p}, outside the assets')
            n = os.path.basename(p)
            got = os.path.join(copy, n)
            if not os.path.exists(got):
                raise Violation(f'{n} is needed by the renderer and was not fetched')
            own = [d for d, names in GRAPHICS.items() if n in names][0]
            if open(got, 'rb').read() != content[own, n]:
                raise Violation(f'{n} is not a copy of the sheet of {own}')
        for variant in ('normal', 'expensive'):
            want = [e for file in c['files'] for rc in file for e in [expected(rc, variant)] if e is not None]
            with open(os.path.join(copy, f'{variant}-recipes.json')) as f:
                got = json.load(f)
            key = lambda e: json.dumps(e, sort_keys=True)
            norm = lambda l: sorted(key({**e, 'time': float(e['time'])}) for e in l)
            if norm(got) != norm(want):
                a, b = norm(got), norm(want)
                raise Violation(f'{variant}: only fetched {[x for x in a if x not in b][:2]}, only in the game {[x for x in b if x not in a][:2]}, {len(a)} of {len(b)}\n{text}')
            rec.event('recipes compared', len(want))
        if len(want) >= 2:
            rec.nontrivial(c['files'])


SUBS = [Sub('fetch', check, gen=lambda tier: cases(), quick=320, thorough=6000, shards=8, tshards=8)]

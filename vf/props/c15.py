import copy

from hypothesis import strategies as st

from .. import corpus, gen, tools
from ..core import Sub, Violation

RULE = ('A case is a sequence of blueprints (real ones from generated layouts, arbitrary blueprint data, or nested books) '
        'with a label, packed and unpacked by the functions or the command line tool. Non-trivial: at least two '
        'entries; distinct by sequence and label.')
ASSUMPTIONS = ['Entries are equal when they agree in everything except the position number ("index").']

ENTRY = st.one_of(
    st.fixed_dictionaries({'blueprint': st.dictionaries(st.text(max_size=5), gen.JSON, max_size=4)}),
    st.fixed_dictionaries({'blueprint': st.fixed_dictionaries({'item': st.just('blueprint'), 'label': st.text(max_size=5), 'entities': st.lists(st.fixed_dictionaries({'name': st.just('splitter'), 'entity_number': st.integers(1, 9)}), max_size=3)})}),
    st.fixed_dictionaries({'blueprint': st.just({'item': 'blueprint'}), 'index': st.integers(0, 9)}),
    st.fixed_dictionaries({'deconstruction_planner': gen.JSON}),
)
NESTED = st.recursive(ENTRY, lambda c: st.fixed_dictionaries({'blueprint_book': st.fixed_dictionaries({'item': st.just('blueprint-book'), 'blueprints': st.lists(c, max_size=3), 'active_index': st.just(0)})}), max_leaves=5)
TEXT = st.text(st.characters(blacklist_categories=('Cs', 'Cc'), blacklist_characters='-'), max_size=8)


def cases():
    few = st.lists(NESTED, max_size=14)
    many = st.tuples(st.lists(NESTED, min_size=1, max_size=5), st.integers(4, 40)).map(lambda v: copy.deepcopy(v[0] * v[1]))
    return st.fixed_dictionaries({'entries': gen.mostly(few, many, 20), 'label': st.one_of(st.none(), TEXT)})


def bare(e):
    return {k: v for k, v in e.items() if k != 'index'}


def check_book(book, c):
    if set(book) != {'blueprint_book'}:
        raise Violation(f'not a book: {sorted(book)}')
    b = book['blueprint_book']
    if b.get('label') != c['label'] or (c['label'] is None and 'label' in b):
        raise Violation(f"book label {b.get('label')!r} instead of {c['label']!r}")
    if [bare(e) for e in b['blueprints']] != [bare(e) for e in c['entries']]:
        raise Violation(f"the book holds {len(b['blueprints'])} entries that are not the {len(c['entries'])} packed ones in order")
    idx = [e.get('index') for e in b['blueprints']]
    if idx != list(range(len(idx))):
        raise Violation(f'position numbers are {idx}')


def note(rec, c):
    if len(c['entries']) >= 2:
        rec.nontrivial(c, {'entries': [sorted(e) for e in c['entries']], 'label': c['label']})
    if any('blueprint_book' in e for e in c['entries']):
        rec.event('with a nested book')


def check_functions(c, rec):
    from factorio_sat import blueprint, blueprint_book
    entries = copy.deepcopy(c['entries'])
    book = blueprint_book.pack_book(entries, c['label'])
    if entries != c['entries']:
        raise Violation('packing altered its inputs')
    check_book(book, c)
    s = blueprint.encode_blueprint(book)
    if corpus.decode(s) != book or blueprint.decode_blueprint(s) != book:
        raise Violation('the encoded book decodes to something else')
    if blueprint.decode_blueprint(corpus.encode(book)) != book:
        raise Violation('a book encoded elsewhere decodes to something else')
    back = blueprint_book.unpack_book(blueprint.decode_blueprint(s))
    if [bare(e) for e in back] != [bare(e) for e in c['entries']]:
        raise Violation('unpacking does not give the packed entries in order')
    # the second book is not influenced by the first
    second = blueprint_book.pack_book(entries[:1])
    check_book(second, {'entries': c['entries'][:1], 'label': None})
    # the same blueprint may occur more than once
    twice = entries + entries[:2]
    check_book(blueprint_book.pack_book(twice, c['label']), {'entries': c['entries'] + c['entries'][:2], 'label': c['label']})
    note(rec, c)


def check_tool(c, rec):
    text = ''.join(corpus.encode(e) + '\n' for e in c['entries'])
    argv = ['pack'] + (['--label', c['label']] if c['label'] is not None else [])
    res = tools.need_ok(tools.run('blueprint_book', argv, text), 'blueprint_book pack', ('EOFError',))
    if len(res.lines) != 1:
        raise Violation(f'packing printed {len(res.lines)} lines')
    check_book(corpus.decode(res.lines[0]), c)
    un = tools.need_ok(tools.run('blueprint_book', ['unpack'], res.out), 'blueprint_book unpack', ('EOFError',))
    got = [bare(corpus.decode(line)) for line in un.lines]
    if got != [bare(e) for e in c['entries']]:
        raise Violation(f"unpacking printed {len(got)} entries that are not the {len(c['entries'])} packed ones in order")
    # a book from elsewhere, without or with odd position numbers
    raw = {'blueprint_book': {'item': 'blueprint-book', 'blueprints': c['entries'], 'label': 'x'}}
    un = tools.need_ok(tools.run('blueprint_book', ['unpack'], corpus.encode(raw) + '\n'), 'blueprint_book unpack', ('EOFError',))
    if [bare(corpus.decode(line)) for line in un.lines] != [bare(e) for e in c['entries']]:
        raise Violation('unpacking a foreign book does not print its entries in order')
    note(rec, c)


SUBS = [
    Sub('functions', check_functions, gen=lambda tier: cases(), quick=2500, thorough=40000, shards=6, tshards=8, hang=60),
    Sub('tool', check_tool, gen=lambda tier: cases(), quick=200, thorough=3000, shards=4, tshards=8, hang=60),
]

from hypothesis import strategies as st

from .. import optdb, tools
from ..core import Sub, Violation

RULE = ('A case is a set of networks with recorded answers and an existing (or missing) target file, exported twice by '
        'the command line tool. Non-trivial: at least one network with both a positive and a negative answer; distinct '
        'by answers and preamble.')
ASSUMPTIONS = ['The preamble ends at the first line that starts with "# Balancers"; its last line may gain a line end.',
               'Line ends of the preamble are plain newlines.']
CELL = {'\U0001f7e8': 4, '\U0001f7e5': 6, '\U0001f7e6': 8, '\u274c': 'impossible', '\u2754': 'unknown'}


@st.composite
def cases(draw):
    nets = draw(optdb.problems(4))
    for n in nets.values():
        net = optdb.Net(n['text'])
        for _ in range(draw(st.integers(0, 5))):
            w, h = draw(st.integers(3, 12)), draw(st.integers(net.min_height, 2 * net.min_height))
            u = draw(st.sampled_from([1, 3, 4, 4, 5, 6, 6, 7, 8, 8, 10]))
            if net.fits(w, h):
                n['facts'].append([u, w, h])
    text = st.text(st.characters(blacklist_categories=('Cs', 'Cc', 'Zl', 'Zp')), max_size=12)
    line = st.one_of(text, st.sampled_from(['', '# Title', '## 3x3', '#  Balancers', ' # Balancers', 'Balancers', '| 1 | 2 |', '#Balancers', '# balancers']))
    lines = draw(st.one_of(st.none(), st.lists(line.filter(lambda s: not s.startswith('# Balancers')), max_size=5)))
    return {'nets': nets, 'lines': lines, 'end': draw(st.booleans()),
            'old': draw(st.sampled_from([None, None, '# Balancers\n', '# Balancers\n## 9x9\n| 1 |\n\n', '# Balancers of old\nsome\n# Balancers\n']))}


def parse(text):
    """[(network, columns, {(height, width): character})] of a table section."""
    out = []
    lines = text.split('\n')
    if lines[0] != '# Balancers':
        raise Violation(f'the table section starts with {lines[0]!r}')
    i = 1
    while i < len(lines):
        if not lines[i].strip():
            i += 1
            continue
        if not lines[i].startswith('## '):
            raise Violation(f'unexpected line {lines[i]!r}')
        name = lines[i][3:]
        i += 1
        table = []
        while i < len(lines) and lines[i].startswith('|'):
            table.append([c.strip() for c in lines[i].strip().strip('|').split('|')])
            i += 1
        if len(table) < 2 or not all(set(c) <= set('-:') and c for c in table[1]) or len({len(r) for r in table}) != 1:
            raise Violation(f'{name}: not a table: {table[:3]}')
        cols = [int(c) for c in table[0][1:]]
        cells, heights = {}, []
        for row in table[2:]:
            heights.append(int(row[0]))
            for w, c in zip(cols, row[1:]):
                if c not in CELL:
                    raise Violation(f'{name}: unknown cell {c!r}')
                cells[int(row[0]), w] = CELL[c]
        out.append((name, cols, heights, cells))
    return out


def check(c, rec):
    if not c['nets']:
        return
    with tools.Scratch() as s:
        world = optdb.World(s, c['nets'], optdb.database(c['nets']))
        target = s.join('work/table.md')
        preamble = ''
        if c['lines'] is not None:
            preamble = '\n'.join(c['lines'])
            if c['lines'] and (c['end'] or c['old'] is not None):
                preamble += '\n'
            with open(target, 'w', encoding='utf-8', newline='') as f:
                f.write(preamble + (c['old'] or ''))
        texts = []
        for _ in range(2):
            tools.need_ok(world.run(['export-crosstable', 'table.md']), 'calculate_optimal export-crosstable')
            with open(target, encoding='utf-8', newline='') as f:
                texts.append(f.read())
        if texts[0] != texts[1]:
            raise Violation('exporting again changed the file')
        if preamble and not preamble.endswith('\n'):
            preamble += '\n'
        if not texts[0].startswith(preamble):
            raise Violation(f'the preamble {preamble!r} became {texts[0][:len(preamble) + 20]!r}')
        got = parse(texts[0][len(preamble):])
        want = [name for name in sorted(c['nets'], key=optdb.order_key) if c['nets'][name]['facts']]
        if [g[0] for g in got] != want:
            raise Violation(f'tables for {[g[0] for g in got]}, expected {want}')
        mixed = False
        for name, cols, heights, cells in got:
            n = c['nets'][name]
            net = optdb.Net(n['text'])
            exist = {tuple(f): optdb.holds(n['truth'], f) for f in n['facts']}
            if cols != list(range(1, max(f[1] for f in exist) - 1)):
                raise Violation(f'{name}: columns {cols}')
            if heights != list(range(net.min_height, max(f[2] for f in exist) + 1)):
                raise Violation(f'{name}: rows {heights}')
            for (h, w), shown in cells.items():
                known = [optdb.infer(exist, (u, w + 2, h)) for u in (4, 6, 8)]
                if True in known:
                    e = (4, 6, 8)[known.index(True)]
                else:
                    e = 'impossible' if False in known else 'unknown'
                if shown != e:
                    raise Violation(f'{name}: {w} by {h} shows {shown}, the answers imply {e}')
                rec.event(f'cell {e}')
            mixed = mixed or len(set(exist.values())) == 2
        if mixed:
            rec.nontrivial(c, {'answers': {k: v['facts'] for k, v in c['nets'].items()}, 'preamble': c['lines']})


SUBS = [Sub('export', check, gen=lambda tier: cases(), quick=1200, thorough=25000, shards=8, tshards=8, hang=60)]

import itertools
import os

from hypothesis import strategies as st

from .. import corpus, gen, iso, tools
from ..core import Sub, Violation

RULE = ('A case is a network (generated with loops, shared colours, unused sides and gaps in the numbering; arbitrary nodes; '
        'or a shipped one) with a file layout (comments, blank lines, spacing) or a malformed line. Non-trivial: at '
        'least two splitters, or a malformed file; distinct by network and file text.')
ASSUMPTIONS = ['Colours are non-negative; -1 in a file marks an unused side.',
               '"Input first and output last" is about colours that only enter or only leave splitters.']

COL = st.one_of(st.none(), st.integers(0, 6), st.integers(0, 6), st.integers(0, 40))
NODE = st.tuples(st.tuples(COL, COL), st.tuples(COL, COL))
SHIPPED = sorted(corpus.networks())


def tup(net):
    return [(tuple(a), tuple(b)) for a, b in net]


def copies(v):
    net, n, shift = v
    top = 1 + max([c for a, b in net for c in (*a, *b) if c is not None], default=0)
    f = lambda c, i: c if c is None else c + i * top * shift
    return [((f(a[0], i), f(a[1], i)), (f(b[0], i), f(b[1], i))) for i in range(n) for a, b in net]


def nets():
    large = st.tuples(st.lists(NODE, min_size=1, max_size=9), st.integers(3, 30), st.integers(0, 1)).map(copies)
    return gen.mostly(small_nets(), large, 25)


def small_nets():
    return st.one_of(gen.networks(4, 7, 6).map(lambda n: n or []), st.lists(NODE, max_size=7), st.sampled_from(SHIPPED).map(lambda f: corpus.networks()[f]))


@st.composite
def texts(draw):
    net = draw(nets())
    lines = []

    def noise():
        for _ in range(draw(st.sampled_from([0, 0, 0, 1, 2]))):
            lines.append(draw(st.sampled_from(['', '   ', '\t', '# comment', '#1 2 3 4', '  # indented 9 9 9 9', '#'])))
    for a, b in net:
        noise()
        sep = draw(st.sampled_from([' ', ' ', '  ', '\t', ' \t ']))
        lines.append(draw(st.sampled_from(['', '', ' ', '\t'])) + sep.join('-1' if c is None else str(c) for c in (*a, *b)) + draw(st.sampled_from(['', '', ' ', '\t', '\r'])))
    noise()
    bad = None
    if draw(st.integers(0, 4)) == 0:
        good = draw(st.lists(st.integers(0, 9), min_size=0, max_size=7))
        kind = draw(st.sampled_from(['count', 'word', 'float', 'trailing']))
        if kind == 'count':
            vals = [str(v) for v in good]
            if len(vals) in (0, 4):
                vals.append('1')
        elif kind == 'word':
            vals = ['1', '2', 'x', '3']
        elif kind == 'float':
            vals = ['1', '2.5', '2', '3']
        else:
            vals = ['1', '2', '3', '4', '#', 'c']
        bad = draw(st.integers(0, len(lines)))
        lines.insert(bad, ' '.join(vals))
    end = draw(st.sampled_from(['\n', '\n', '']))
    return {'net': net, 'text': '\n'.join(lines) + end, 'bad': bad is not None}


def check_read(c, rec):
    from factorio_sat import network
    net = tup(c['net'])
    with tools.Scratch() as s:
        p = s.file('net', c['text'])
        for how in ('path', 'file'):
            try:
                if how == 'path':
                    got = network.open_network(p)
                else:
                    with open(p) as f:
                        got = network.open_network(f)
            except Exception as e:
                if c['bad']:
                    rec.nontrivial(c['text'])
                    rec.event('malformed file rejected')
                    continue
                raise Violation(f'reading a well formed network failed: {e!r}\n{c["text"]}')
            if c['bad']:
                raise Violation(f'a malformed line was accepted, giving {got}\n{c["text"]}')
            if [(tuple(a), tuple(b)) for a, b in got] != net:
                raise Violation(f'read {got} instead of {net} from\n{c["text"]}')
        if c['bad']:
            return
        # write and read again
        q = s.join('out')
        for how in ('path', 'file'):
            if how == 'path':
                network.save_network(q, net)
            else:
                with open(q, 'w') as f:
                    network.save_network(f, net)
            if corpus.read_network(q) != net:
                raise Violation(f'the written file holds {corpus.read_network(q)} instead of {net}')
            if network.open_network(q) != net:
                raise Violation(f'reading back gives {network.open_network(q)} instead of {net}')
    if len(net) >= 2:
        rec.nontrivial((net, c['text']), c['text'].split('\n')[:6])


def only_in_out(net):
    ins = {c for n in net for c in n[0]} - {None}
    outs = {c for n in net for c in n[1]} - {None}
    return ins - outs, outs - ins, ins & outs


def renumbered(net, res, what):
    got = iso.isomorphic(net, res)
    if got is False:
        raise Violation(f'{what} of {net} gives {res}, which is not the same graph')
    cols = iso.colours(res)
    if cols != set(range(len(cols))):
        raise Violation(f'{what} of {net} gives colours {sorted(cols)}, not consecutive ones')
    a, b, mid = only_in_out(res)
    if a != set(range(len(a))) or b != set(range(len(cols) - len(b), len(cols))):
        raise Violation(f'{what} of {net}: the inputs are {sorted(a)} and the outputs {sorted(b)} of {len(cols)} colours')
    return got


def check_transform(c, rec):
    from factorio_sat import network
    net = tup(c)
    keep = list(net)
    fl = network.flip_network(net)
    if iso.multiset(fl) != iso.multiset([(b, a) for a, b in net]):
        raise Violation(f'flipping {net} gives {fl}')
    if [tuple(map(tuple, n)) for n in network.flip_network(fl)] != net:
        raise Violation(f'flipping {net} twice gives {network.flip_network(fl)}')
    fixed = network.fix_colours(net)
    if renumbered(net, fixed, 'renumbering') is None:
        rec.event('isomorphism undecided')
    tidy = network.tidy_network(net)
    renumbered(net, tidy, 'tidying')
    if net != keep:
        raise Violation('the transformation changed its input')
    dd = network.deduplicate_network(net)
    want = {}
    for a, b in net:
        k = tuple(tuple(sorted(s, key=lambda v: -1 if v is None else v)) for s in (a, b))
        want[k] = want.get(k, 0) + 1
    if dict(dd) != want:
        raise Violation(f'merging equal splitters of {net} gives {dict(dd)}')
    cols = sorted(iso.colours(net))
    shift = {k: k + 100 for k in cols[::2]}
    rm = network.remap_colours(net, shift)
    f = lambda v: shift.get(v, v)
    if [tuple(map(tuple, n)) for n in rm] != [((f(a[0]), f(a[1])), (f(b[0]), f(b[1]))) for a, b in net]:
        raise Violation(f'recolouring {net} by {shift} gives {rm}')
    a, b, _ = only_in_out(net)
    if network.calculate_network_size(net) != (len(a), len(b)) or network.calculate_total_colours(net) != len(cols) or tuple(map(set, network.get_exterior_colours(net))) != (a, b):
        raise Violation(f'colour counts of {net} are wrong')
    i, o = gen._io(net)
    if len(i) == 1 and len(o) == 1:
        if network.get_input_output_colours(net) != (i[0], o[0]):
            raise Violation(f'inputs and outputs of {net}: {network.get_input_output_colours(net)} instead of {(i[0], o[0])}')
        rec.event('one input and one output colour')
    if len(net) >= 2:
        rec.nontrivial(net)


def check_tool(c, rec):
    net = tup(c)
    with tools.Scratch() as s:
        p = s.file('a', '# c\n\n' + tools.network_text(net))
        tools.need_ok(tools.run('network', ['flip', p, s.join('b')]), 'network flip')
        tools.need_ok(tools.run('network', ['flip', s.join('b'), s.join('c')]), 'network flip')
        b, d = corpus.read_network(s.join('b')), corpus.read_network(s.join('c'))
        if iso.multiset(b) != iso.multiset([(y, x) for x, y in net]):
            raise Violation(f'network flip of {net} gives {b}')
        if d != net:
            raise Violation(f'network flip twice of {net} gives {d}')
        if corpus.read_network(p) != net:
            raise Violation('network flip changed its input')
        tools.need_ok(tools.run('network', ['flip', p, p]), 'network flip')
        if iso.multiset(corpus.read_network(p)) != iso.multiset([(y, x) for x, y in net]):
            raise Violation(f'network flip of {net} onto itself gives {corpus.read_network(p)}')
    if len(net) >= 2:
        rec.nontrivial(net)


SUBS = [
    Sub('files', check_read, gen=lambda tier: texts(), quick=2000, thorough=30000, shards=4, tshards=8, hang=60),
    Sub('transform', check_transform, gen=lambda tier: nets(), quick=3000, thorough=40000, shards=6, tshards=8, hang=60),
    Sub('tool', check_tool, gen=lambda tier: nets(), quick=120, thorough=1500, shards=4, tshards=8, hang=60),
]

import json
import os

from hypothesis import strategies as st

from .. import corpus, gen, tools
from ..core import Sub, Violation

RULE = ('A case is a network with one input and one output colour (generated with loops, shared colours and unused sides, or a shipped one), '
        'the place and format of the drawing, and what else lies in that directory. Non-trivial: at least two splitters; distinct by network.')
ASSUMPTIONS = ['The drawing is read through the JSON output of graphviz; other formats are recognised by their first bytes.',
               'A splitter that is connected twice by the same colour may show one line for it.']
SHIPPED = sorted(corpus.networks())
MAGIC = {'png': b'\x89PNG', 'svg': b'<?xml', 'pdf': b'%PDF', 'dot': b'digraph', 'json': b'{'}


def surplus(net):
    n = {}
    for ins, outs in net:
        for c in ins:
            n[c] = n.get(c, 0) + 1
        for c in outs:
            n[c] = n.get(c, 0) - 1
    n.pop(None, None)
    return [c for c, v in n.items() if v > 0], [c for c, v in n.items() if v < 0]


def drawable(net):
    a, b = surplus(net)
    return len(a) == 1 and len(b) == 1


def expected(net):
    """colour -> (splitters it comes from, splitters it goes to), with 'in' and 'out' for the ends of the network."""
    (a,), (b,) = surplus(net)
    res = {}
    for i, (ins, outs) in enumerate(net):
        for c in ins:
            if c is not None:
                res.setdefault(c, (set(), set()))[1].add(i)
        for c in outs:
            if c is not None:
                res.setdefault(c, (set(), set()))[0].add(i)
    res[a][0].add('in')
    res[b][1].add('out')
    return res


def drawn(graph):
    nodes = {o['_gvid']: o for o in graph.get('objects', [])}
    splitters, junctions, ends = {}, {}, []
    for i, o in nodes.items():
        if o.get('style') == 'invis':
            ends.append(i)
        elif o.get('shape') in ('none', 'plaintext'):
            junctions[i] = int(o.get('label', o['name']))
        else:
            splitters[i] = None
    names = [nodes[i]['name'] for i in splitters]
    order = sorted(splitters, key=lambda i: int(nodes[i]['name']) if all(n.isdigit() for n in names) else i)
    for k, i in enumerate(order):
        splitters[i] = k
    if len(ends) != 2:
        raise Violation(f'{len(ends)} invisible nodes for the two ends')
    edges = [(e['tail'], e['head'], e.get('label')) for e in graph.get('edges', [])]
    kind = {}
    for i in ends:
        outgoing = [e for e in edges if e[0] == i]
        incoming = [e for e in edges if e[1] == i]
        if bool(outgoing) == bool(incoming):
            raise Violation('an end is connected in no or both directions')
        kind[i] = 'in' if outgoing else 'out'
    if sorted(kind.values()) != ['in', 'out']:
        raise Violation('the ends are not one input and one output')
    place = {**splitters, **kind}
    res = {}
    for a, b, label in edges:
        if a in junctions and b in junctions:
            raise Violation('an edge between two colours')
        if a in junctions:
            res.setdefault(junctions[a], (set(), set()))[1].add(place[b])
        elif b in junctions:
            res.setdefault(junctions[b], (set(), set()))[0].add(place[a])
        else:
            if not label or not label.isdigit():
                raise Violation('a direct edge without a colour')
            got = res.setdefault(int(label), (set(), set()))
            got[0].add(place[a])
            got[1].add(place[b])
    if len(set(junctions.values())) != len(junctions):
        raise Violation('a colour has two nodes')
    return len(splitters), res


@st.composite
def cases(draw):
    net = draw(st.one_of(gen.networks(4, 7, 6).map(lambda n: n or []).filter(drawable), st.sampled_from(SHIPPED).map(lambda f: corpus.networks()[f]).filter(drawable)))
    stem = draw(st.sampled_from(['net', 'net', 'other', 'a.b', 'sub/net', 'net 5']))
    fmt = draw(st.sampled_from(['json', 'json', 'json', 'json', 'json', 'json', 'png', 'svg', 'dot']))
    return {'net': net, 'name': draw(st.sampled_from(['net', 'net', 'net.txt'])), 'stem': stem, 'fmt': fmt, 'engine': draw(st.sampled_from([None, None, None, 'neato', 'circo'])),
            'around': draw(st.lists(st.sampled_from(['other', 'a', 'a.b', 'sub/net', 'net.gv', 'Network', 'net 5']), unique=True, max_size=3))}


def check(c, rec):
    net = [(tuple(a), tuple(b)) for a, b in c['net']]
    with tools.Scratch() as s:
        os.mkdir(s.join('sub'))
        text = '# as written by hand\n' + tools.network_text(net)
        keep = {c['name']: text, **{n: 'unrelated ' + n for n in c['around']}}
        for n, t in keep.items():
            s.file(n, t)
        out = f'{c["stem"]}.{c["fmt"]}'
        args = ['render', c['name'], out] + ([] if c['engine'] is None else ['--engine', c['engine']])
        tools.need_ok(tools.run('network', args, cwd=s.path), 'network ' + ' '.join(args))
        found = {os.path.relpath(os.path.join(d, f), s.path) for d, _, files in os.walk(s.path) for f in files}
        for n, t in keep.items():
            if n not in found:
                raise Violation(f'"network {" ".join(args)}" removed {n}')
            if open(s.join(n), 'rb').read() != t.encode():
                raise Violation(f'"network {" ".join(args)}" changed {n}')
        if found != set(keep) | {out}:
            raise Violation(f'"network {" ".join(args)}" wrote {sorted(found - set(keep))}')
        data = open(s.join(out), 'rb').read()
        if not data.startswith(MAGIC[c['fmt']]):
            raise Violation(f'{out} begins with {data[:20]!r}')
        if c['fmt'] == 'json':
            count, got = drawn(json.loads(data))
            want = expected(net)
            if count != len(net):
                raise Violation(f'{count} splitters drawn for {len(net)}')
            if got != want:
                diff = {k: {'drawn': got.get(k), 'network': want.get(k)} for k in set(got) | set(want) if got.get(k) != want.get(k)}
                raise Violation(f'connections differ: {diff}\n{text}')
            rec.event('graph compared')
        else:
            rec.event('format ' + c['fmt'])
    if len(net) >= 2:
        rec.nontrivial(net, tools.network_text(net).split('\n'))


SUBS = [Sub('draw', check, gen=lambda tier: cases(), quick=800, thorough=8000, shards=8, tshards=8)]

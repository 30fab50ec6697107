from hypothesis import strategies as st

from .. import balancer, conv, corpus, flow, gen, tools
from ..core import Sub, Violation

RULE = ('A case is a random splitter network (or a shipped one) with a size, an underground limit, an end mode and '
        'pruning options, run through the command line tool. Non-trivial: the tool printed a layout with at least '
        'one splitter; distinct by layout and request.')
ASSUMPTIONS = ['A run that exceeds its time limit decides nothing (counted as an event).']

PRUNE = ['--edge-splitters', '--edge-belts', '--glue-splitters', '--expand-underground',
         '--prevent-mergeable-underground', '--prevent-bad-patterns', '--break-symmetry', '--fast']
SOLVERS = ['Glucose3', 'g4', 'cadical153', 'm22']


def options(mode, use_ends, prune, ul, solver):
    a = []
    if mode:
        a.append('--' + mode)
    if use_ends:
        a.append('--use-ends')
    a += prune
    a.append(f'--underground-length={ul}')
    if solver:
        a += ['--solver', solver]
    return a


@st.composite
def requests(draw, max_area=24, max_split=4):
    net = draw(gen.networks(3, max_split))
    mode = draw(st.sampled_from(['', '', 'aligned', '90', '90', '180', '180', 'custom']))
    prune = draw(st.one_of(st.just([]), st.just([]), st.lists(st.sampled_from(PRUNE), unique=True, max_size=3)))
    if mode == '90':
        prune = [p for p in prune if p != '--break-symmetry']
    if '--edge-splitters' in prune:
        prune = [p for p in prune if p != '--edge-belts']
    c = {'net': net, 'mode': mode, 'use_ends': draw(st.booleans()), 'prune': prune,
         'ul': draw(st.sampled_from([1, 2, 3, 4, 4, -1])), 'solver': draw(st.sampled_from(SOLVERS)),
         'limit': draw(st.sampled_from([1, 4, 12]))}
    if net is None:
        return c
    i, o = flow.io_colours(net)
    n, m = i[0][1], o[0][1]
    need = n + m if mode == '180' else n if mode == '90' else max(n, m)
    c['h'] = draw(st.integers(max(2, need), max(2, need) + 2))
    lo = max(3, m) if mode == '90' else 3
    hi = max(lo, max_area // c['h'])
    c['w'] = draw(st.integers(lo, hi))
    return c


def run_case(c, timeout):
    """Layouts printed for the request; raises tools.Timeout."""
    with tools.Scratch() as s:
        p = s.file('network', '# generated\n' + tools.network_text(c['net']))
        argv = [p, c['w'], c['h']] + options(c['mode'], c['use_ends'], c['prune'], c['ul'], c['solver'])
        if c['limit'] > 1:
            argv.append('--all')
        res = tools.run('belt_balancer', argv, timeout=timeout, max_lines=c['limit'] if c['limit'] > 1 else None)
    return tools.need_ok(res, 'belt_balancer ' + ' '.join(map(str, argv)), ('Enough',)), argv


def check(c, rec, timeout=10):
    if c['net'] is None:
        rec.event('no network')
        return
    c = dict(c, net=[(tuple(a), tuple(b)) for a, b in c['net']])
    try:
        res, argv = run_case(c, timeout)
    except tools.Timeout:
        rec.event('time limit')
        return
    layouts = tools.parse_layouts(res.out)
    if not layouts:
        rec.event('no layout')
        return
    if c['limit'] == 1 and len(layouts) != 1:
        raise Violation(f'{len(layouts)} layouts printed without --all')
    rec.event('mode ' + (c['mode'] or 'plain'))
    for rows in layouts:
        why = balancer.problem(rows, c['net'], c['w'], c['h'], c['ul'], c['mode'], c['use_ends'])
        if why:
            raise Violation(f"{why}\nbelt_balancer {' '.join(map(str, argv[1:]))} network {c['net']}\n{conv.show(rows)}")
        rec.nontrivial((rows, c['net'], c['mode']), {'network': c['net'], 'argv': argv[1:], 'layout': conv.show(rows).split('\n')})


def shipped(tier):
    nets = corpus.networks()
    seen = set()
    out = []
    for book, lvl, n, m, rows in corpus.books():
        w, h = len(rows[0]), len(rows)
        net = nets.get(f'{n}x{m}')
        key = (n, m, w, h, lvl)
        if net is None or key in seen or w * h > (45 if tier == 'quick' else 90):
            continue
        seen.add(key)
        for prune in ([], ['--fast'], ['--expand-underground', '--prevent-bad-patterns', '--break-symmetry']):
            for mode in ('', 'aligned'):
                out.append((w * h, {'net': net, 'mode': mode, 'use_ends': False, 'prune': prune,
                                    'ul': corpus.LEVEL_UL[lvl], 'solver': 'g4', 'limit': 3, 'w': w, 'h': h}))
    out.sort(key=lambda t: t[0])
    for _, c in out:
        yield c


SUBS = [
    Sub('random', check, gen=lambda tier: requests(28 if tier == 'quick' else 36, 3 if tier == 'quick' else 5), quick=3200, thorough=12000, shards=8, tshards=8, budget=110, tbudget=3000),
    Sub('shipped', lambda c, rec: check(c, rec, 15), cases=shipped, shards=4, tshards=8, budget=70, tbudget=3000),
]

import io
import itertools
import os
import random
import shlex
import subprocess
import sys
import tempfile

from hypothesis import strategies as st

from .. import tools, conv
from ..core import Sub, VERIF, Violation

RULE = ('A case is a generated formula over the tiles of a grid (or a request to one of the tools) together with a back '
        'end: a built-in solver, an external program fed through a pipe or a file and answering in one of the forms the '
        'competition format allows, a loadable library, or one of these made to fail at a chosen call. Non-trivial: the '
        'formula is neither empty nor decided by a single clause, or a failure is injected; distinct by case.')
ASSUMPTIONS = ['The highest variable occurs in the formula, as in all grids of the project (others may not).',
               'The stand-in solver (vf/csat.c) is compared with the built-in ones directly; a difference between them '
               'that does not involve the project is an error of the check, not a violation.']

BUILTIN = ['g3', 'g4', 'Glucose3', 'Glucose4', 'm22', 'mgh', 'mcb', 'mc', 'lgl', 'cadical153', 'mpl']
FAULTS = ['noread', 'mute', 'status', 'die', 'comments', 'unknown', 'indeterminate', 'nomodel', 'junk', 'words', 'half']

_built = {}


def built():
    """Compile the stand-in solver once per worker."""
    if not _built:
        d = tempfile.mkdtemp(prefix='csat-')
        src = os.path.join(VERIF, 'vf', 'csat.c')
        lib, prog = os.path.join(d, 'lib csat.so'), os.path.join(d, 'csat prog')
        for extra, out in ((['-shared', '-fPIC'], lib), (['-DPROGRAM'], prog)):
            subprocess.run(['gcc', '-O2', '-w', *extra, '-o', out, src], check=True, capture_output=True)
        _built.update(lib=lib, prog=prog, dir=d)
    return _built


def backend(b):
    """The --solver text of a back end description."""
    p = built()
    if b[0] == 'builtin':
        return b[1]
    if b[0] == 'lib':
        return 'lib:' + p['lib']
    if b[0] == 'missing':
        return {'cmd': 'cmd:' + os.path.join(p['dir'], 'absent'), 'file': 'cmd:' + os.path.join(p['dir'], 'absent') + ' $FILE',
                'lib': 'lib:' + os.path.join(p['dir'], 'absent.so')}[b[1]]
    cmd = 'cmd:' + shlex.quote(p['prog']) + ' ' + shlex.quote(str(b[2]))
    return cmd + (' $FILE' if b[1] == 'file' else '')


class Env:
    def __init__(self, **kw):
        self.kw = kw

    def __enter__(self):
        os.environ.update(self.kw)

    def __exit__(self, *_):
        for k in self.kw:
            os.environ.pop(k, None)


@st.composite
def formulas(draw):
    w, h, k = draw(st.sampled_from([(1, 1, 3), (2, 1, 2), (1, 2, 3), (2, 2, 2), (3, 1, 3), (2, 2, 1), (3, 2, 1), (1, 3, 2)]))
    n = w * h * k
    aux = draw(st.integers(0, 3))
    total = n + aux
    lit = st.builds(lambda v, s: v if s else -v, st.integers(1, total), st.booleans())
    # one draw per clause length keeps the mix of hard and easy formulas
    m = draw(st.integers(0, 5 * total))
    size = draw(st.sampled_from([2, 3, 3, 3, 4]))
    clauses = draw(st.lists(st.lists(lit, min_size=1 if draw(st.integers(0, 5)) == 0 else 2, max_size=size), min_size=min(m, 3), max_size=m))
    if draw(st.booleans()):
        r = random.Random(draw(st.integers(0, 10 ** 6)))
        ratio = r.choice([2.5, 4, 5, 6])
        clauses = [[r.choice([1, -1]) * v for v in r.sample(range(1, total + 1), min(3, total))] for _ in range(int(ratio * total))]
    return {'w': w, 'h': h, 'k': k, 'aux': aux, 'clauses': clauses, 'gaps': draw(st.sampled_from([False, True, 'end']))}


def grid_of(c):
    from factorio_sat.template import ArrayTemplate, BaseGrid, BoolTemplate
    g = BaseGrid(ArrayTemplate(BoolTemplate(), (c['k'],)), c['w'], c['h'])
    tile = [v for y in range(c['h']) for x in range(c['w']) for v in g.get_tile_instance(x, y)]
    aux = [g.allocate_variable() for _ in range(c['aux'])]
    names = tile + aux
    if len(set(names)) != len(names):
        raise Violation('two tile or auxiliary variables share a number')
    m = lambda l: names[l - 1] if l > 0 else -names[-l - 1]
    g.clauses += [[m(l) for l in cl] for cl in c['clauses']] + [[v, -v] for v in ([] if c['gaps'] == 'end' else names[-1:] if c['gaps'] else names)]
    return g, set(tile)


def truth(c):
    """All values of the tile variables that can be extended to a model, by exhaustive evaluation."""
    n = c['w'] * c['h'] * c['k']
    total = n + c['aux']
    res = set()
    pos = [(sum(1 << (l - 1) for l in set(cl) if l > 0), sum(1 << (-l - 1) for l in set(cl) if l < 0)) for cl in c['clauses']]
    for a in range(1 << total):
        if all((a & p) or (~a & q) for p, q in pos):
            res.add(a & ((1 << n) - 1))
    return res


def value(c, parsed):
    a = i = 0
    for y in range(c['h']):
        for x in range(c['w']):
            cell = parsed[y, x]
            if len(cell) != c['k'] or any(v not in (False, True) for v in cell):
                raise Violation(f'tile ({x},{y}) was read as {cell!r}')
            for v in cell:
                a |= int(v) << i
                i += 1
    return a


good = st.one_of(
    st.sampled_from(BUILTIN).map(lambda n: ['builtin', n]),
    st.tuples(st.sampled_from(['pipe', 'file']), st.integers(0, 31)).map(lambda a: ['cmd', a[0], str(a[1])]),
    st.just(['lib']), st.just(['lib']))


@st.composite
def agree_cases(draw):
    return {**draw(formulas()), 'backend': draw(good), 'free': draw(st.booleans())}


def direct(c, b):
    """The verdict of the stand-in without the project in between."""
    total = c['w'] * c['h'] * c['k'] + c['aux']
    text = f'p cnf {total} {len(c["clauses"])}\n' + ''.join(' '.join(map(str, cl)) + ' 0\n' for cl in c['clauses'])
    out = subprocess.run([built()['prog'], '0'], input=text, capture_output=True, text=True).stdout
    return 's SATISFIABLE' in out


def check_agree(c, rec):
    want = truth(c)
    b = c['backend']
    if b[0] != 'builtin' and direct(c, b) != bool(want):
        raise RuntimeError('the stand-in solver is wrong')
    solver = backend(b)
    with Env(**({'CSAT_DONT_CARE': '1'} if c['free'] else {})):
        g, important = grid_of(c)
        before = [list(cl) for cl in g.clauses]
        res = g.solve(solver)
        if (res is not None) != bool(want):
            raise Violation(f"{solver}: {'a solution' if res is not None else 'no solution'}, but {len(want)} exist")
        if res is not None and value(c, res) not in want:
            raise Violation(f'{solver}: the returned values {value(c, res):b} satisfy no model')
        if bool(g.check(solver)) != bool(want):
            raise Violation(f'{solver}: check() does not agree with solve()')
        got = []
        for i, r in enumerate(g.itersolve(important, solver)):
            got.append(value(c, r))
            if i > len(want):
                break
        if len(set(got)) != len(got):
            raise Violation(f'{solver}: enumeration repeats a solution ({len(got)} printed, {len(want)} exist)')
        if set(got) != want:
            raise Violation(f'{solver}: enumeration gave {len(got)} solutions, {len(want)} exist')
        if [list(cl) for cl in g.clauses] != before:
            raise Violation(f'{solver}: solving changed the clauses of the grid')
    if len(c['clauses']) > 1:
        rec.nontrivial(('agree', c['clauses'], b), {'clauses': len(c['clauses']), 'backend': b, 'solutions': len(want)})
    rec.event(b[0] if b[0] != 'cmd' else b[1])
    rec.event('satisfiable' if want else 'unsatisfiable')


@st.composite
def fault_cases(draw):
    c = draw(formulas())
    if c['w'] * c['h'] * c['k'] < 3:
        c['k'] = 3
    kind = draw(st.sampled_from(['cmd', 'cmd', 'lib', 'lib', 'missing']))
    if kind == 'cmd':
        c['fault'] = ['cmd', draw(st.sampled_from(['pipe', 'file'])), draw(st.sampled_from(FAULTS))]
    elif kind == 'lib':
        c['fault'] = ['lib', draw(st.sampled_from([0, 0, 7, -1, 1, 30]))]
    else:
        c['fault'] = ['missing', draw(st.sampled_from(['cmd', 'file', 'lib']))]
    c['after'] = draw(st.sampled_from([0, 0, 1, 2, 3]))
    return c


def check_fault(c, rec):
    """A solver that fails is an error, never an answer."""
    f = c['fault']
    want = truth(c)
    n = len(want)
    g, important = grid_of(c)
    with tools.Scratch() as s:
        env = {}
        if f[0] == 'cmd':
            solver, later = backend(f), backend(['cmd', f[1], f'later:{s.join("calls")}:{c["after"]}:{f[2]}'])
        elif f[0] == 'lib':
            solver = later = backend(['lib'])
            env = {'CSAT_GIVE_UP': str(f[1])}
        else:
            solver = later = backend(f)
        for name, call in (('solve', lambda: g.solve(solver)), ('check', lambda: g.check(solver))):
            with Env(**env):
                try:
                    res = call()
                except Exception:
                    continue
            raise Violation(f'{name}() through a failing solver ({f}) returned {"a value" if res is not None and res is not False else repr(res)}')
        after = c['after'] if f[0] != 'missing' else 0
        got = []
        if f[0] == 'lib':
            with Env():     # resets the counter of the library
                g.check(later)
            env['CSAT_GIVE_UP_AFTER'] = str(after)
        with Env(**env):
            try:
                for r in g.itersolve(important, later):
                    got.append(value(c, r))
                    if len(got) > after:
                        raise Violation(f'enumeration through a solver that fails at call {after + 1} ({f}) gave {len(got)} solutions')
                ended = True
            except Violation:
                raise
            except Exception:
                ended = False
    if after <= n and ended:
        raise Violation(f'enumeration through a solver that fails at call {after + 1} ({f}) ended normally after {len(got)} of {n} solutions')
    if not ended and len(got) != min(after, n):
        raise Violation(f'enumeration through a solver that fails at call {after + 1} ({f}) failed after {len(got)} solutions')
    if after > n and not ended:
        raise Violation(f'enumeration failed although the solver had answered all {n + 1} calls')
    rec.nontrivial(('fault', c['clauses'], f, after), {'fault': f, 'after': after, 'solutions': n})
    rec.event('fault ' + str(f[-1]))


@st.composite
def library_cases(draw):
    c = draw(formulas())
    total = c['w'] * c['h'] * c['k'] + c['aux']
    lit = st.builds(lambda v, s: v if s else -v, st.integers(1, total), st.booleans())
    ops = st.one_of(
        st.tuples(st.just('add'), st.lists(lit, min_size=1, max_size=4)),
        st.tuples(st.just('solve'), st.lists(lit, max_size=4)),
        st.tuples(st.just('solve'), st.lists(lit, max_size=4)),
        st.tuples(st.just('stop'), st.booleans()),
        st.tuples(st.just('learn'), st.integers(1, 4)))
    return {**c, 'ops': [list(o) for o in draw(st.lists(ops, min_size=1, max_size=10))], 'bulk': draw(st.booleans())}


def check_library(c, rec):
    """The library wrapper as a state machine: clauses stay, assumptions hold for one call."""
    from factorio_sat.ipasir import IPASIRLibrary
    total = c['w'] * c['h'] * c['k'] + c['aux']

    def models(clauses):
        pos = [(sum(1 << (l - 1) for l in set(cl) if l > 0), sum(1 << (-l - 1) for l in set(cl) if l < 0)) for cl in clauses]
        return [a for a in range(1 << total) if all((a & p) or (~a & q) for p, q in pos)]

    clauses = [list(cl) for cl in c['clauses']] + [[v, -v] for v in range(1, total + 1)]
    lib = IPASIRLibrary(built()['lib'])
    if lib.get_signature() != b'csat':
        raise Violation(f'signature {lib.get_signature()!r}')
    s = lib.create_solver()
    learned, stop, solved = [], False, 0
    with s:
        if c['bulk']:
            s.add_clauses(clauses)
        else:
            for cl in clauses:
                s.add_clause(cl)
        for op, arg in c['ops']:
            if op == 'add':
                s.add_clause(arg)
                clauses.append(arg)
            elif op == 'stop':
                stop = arg
                s.set_terminate((lambda: True) if arg else None)
            elif op == 'learn':
                limit = arg
                s.set_learn(lambda cl, limit=limit: learned.append((list(cl), limit, len(clauses))), limit)
            else:
                for l in arg:
                    s.assume(l)
                res = s.solve()
                base = models(clauses)
                ok = models(clauses + [[l] for l in arg])
                if stop and res is None:
                    continue
                if res is not bool(ok):
                    raise Violation(f'solve() with assumptions {arg} returned {res!r}, {len(ok)} models exist')
                solved += 1
                if res:
                    m = s.get_model()
                    if sorted(map(abs, m)) != list(range(1, total + 1)):
                        raise Violation(f'the model {m} does not give every variable once')
                    if sum(1 << (l - 1) for l in m if l > 0) not in ok:
                        raise Violation(f'the model {m} does not satisfy the clauses and assumptions')
                else:
                    used = [l for l in arg if s.unsat_used_assumption(l)]
                    if models(clauses + [[l] for l in used]):
                        raise Violation(f'the assumptions reported as used ({used} of {arg}) are satisfiable')
        for cl, limit, upto in learned:
            if len(cl) > limit or not cl:
                raise Violation(f'learned clause {cl} with limit {limit}')
            if any(not any((a >> (abs(l) - 1) & 1) == (l > 0) for l in cl) for a in models(clauses[:upto])):
                raise Violation(f'learned clause {cl} does not follow from the clauses')
        rec.event('learned clauses', len(learned))
    for name, call in (('solve', s.solve), ('add_clause', lambda: s.add_clause([1])), ('assume', lambda: s.assume(1)), ('get_model', s.get_model)):
        try:
            call()
        except Exception:
            continue
        raise Violation(f'{name}() on a closed solver did nothing')
    if solved:
        rec.nontrivial(('library', c['ops'], c['clauses']), {'ops': c['ops'], 'clauses': len(c['clauses'])})


TOOLS = [
    ('make_block', [3, 2, '--underground-length=2']), ('make_block', [4, 2, '--allow-empty', '--underground-length=0']),
    ('make_block', [3, 3]), ('make_block', [3, 4, '--single-loop', '--underground-length=1']),
    ('make_block', [2, 3, '--tile', '--underground-length=1']),
    ('interchange', [4, 2]), ('interchange', [1, 2]), ('interchange', [4, 4, '--alternating']), ('interchange', [3, 4]),
    ('belt_balancer_net_free', [4, 2, 2, 2]), ('belt_balancer_net_free', [3, 2, 1, 2]), ('belt_balancer_net_free', [2, 2, 2, 1]),
    ('belt_balancer_net_free_power_of_2', [3, 4]), ('belt_balancer_net_free_power_of_2', [4, 4, '--underground-length=3']),
    ('belt_balancer', ['{net}', 3, 2]), ('belt_balancer', ['{net}', 3, 3]), ('belt_balancer', ['{net}', 2, 2]),
    ('belt_balancer', ['{net}', 3, 2, '--use-ends']), ('belt_balancer', ['{net}', 4, 2, '--fast']),
    ('belt_balancer', ['{net}', 3, 3, '--aligned', '--break-symmetry'])]


def tool_cases(tier):
    backs = [['cmd', 'pipe', '0'], ['cmd', 'file', '22'], ['lib']]
    if tier != 'quick':
        backs += [['cmd', 'pipe', '31'], ['cmd', 'file', '5'], ['builtin', 'cadical153'], ['builtin', 'lgl']]
    for (t, argv), b in itertools.product(TOOLS, backs):
        yield {'tool': t, 'argv': argv, 'backend': b}
    for (t, argv), b in itertools.product(TOOLS[::4] if tier == 'quick' else TOOLS, [['cmd', 'pipe', 'die'], ['cmd', 'file', 'unknown'], ['missing', 'lib'], ['cmd', 'pipe', 'mute']]):
        yield {'tool': t, 'argv': argv, 'backend': b, 'fault': True}


def check_tool(c, rec):
    with tools.Scratch() as s:
        net = s.file('net', '0 0 1 1\n')
        argv = [net if a == '{net}' else a for a in c['argv']]
        solver = backend(c['backend'])
        try:
            if c.get('fault'):
                for extra in ([], ['--all']):
                    res = tools.run(c['tool'], argv + extra + ['--solver', solver], timeout=60)
                    if res.exc is None or (res.exc == 'SystemExit' and not res.code):
                        raise Violation(f"{c['tool']} {argv} with a failing solver ({c['backend']}) ended normally, printing {len(res.lines)} layouts")
                    if res.out.strip():
                        raise Violation(f"{c['tool']} {argv} with a failing solver ({c['backend']}) printed {res.out[:200]!r}")
                rec.nontrivial(('tool', repr(c)), c)
                return
            ref = tools.need_ok(tools.run(c['tool'], argv + ['--all'], timeout=60), c['tool'])
            one = tools.need_ok(tools.run(c['tool'], argv + ['--solver', solver], timeout=60), c['tool'])
            got = tools.need_ok(tools.run(c['tool'], argv + ['--all', '--solver', solver], timeout=150), c['tool'])
        except tools.Timeout:
            rec.event('time limit')
            return
    sets = []
    for r in (ref, one, got):
        rows = [repr(conv.tup(x)) for x in tools.parse_layouts(r.out)]
        if len(set(rows)) != len(rows):
            raise Violation(f"{c['tool']} {argv} --all --solver {c['backend']}: a layout is printed twice")
        sets.append(set(rows))
    if sets[0] != sets[2]:
        raise Violation(f"{c['tool']} {argv} --all: {len(sets[2])} layouts with {c['backend']}, {len(sets[0])} with the default solver")
    if len(sets[1]) != (1 if sets[0] else 0) or not sets[1] <= sets[0]:
        raise Violation(f"{c['tool']} {argv}: {len(sets[1])} layouts with {c['backend']}, {len(sets[0])} exist")
    if sets[0]:
        rec.nontrivial(('tool', repr(c)), {**c, 'layouts': len(sets[0])})


def quiet(check):
    """The project passes the comments of an external solver on to standard error."""
    def wrapped(c, rec):
        old, sys.stderr = sys.stderr, io.StringIO()
        try:
            check(c, rec)
        finally:
            sys.stderr = old
    return wrapped


SUBS = [
    Sub('agree', quiet(check_agree), gen=lambda tier: agree_cases(), quick=900, thorough=20000, shards=3, tshards=8, budget=120, tbudget=2000),
    Sub('fault', quiet(check_fault), gen=lambda tier: fault_cases(), quick=500, thorough=8000, shards=2, tshards=8, budget=120, tbudget=2000),
    Sub('library', check_library, gen=lambda tier: library_cases(), quick=500, thorough=10000, shards=1, tshards=4, budget=120, tbudget=2000),
    Sub('tools', check_tool, cases=tool_cases, shards=2, tshards=8, budget=200, tbudget=3000),
]

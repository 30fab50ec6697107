from hypothesis import strategies as st

from ..core import Sub, Violation

RULE = ('A case is a clause builder with a width, operand values, literals (random signs and numbering, sometimes shared '
        'between operands); its clauses are compared with the named relation on every assignment of the visible '
        'variables (wide: operands of up to 24 bits and up to 90 literals, where assignments that satisfy the relation, miss it by one bit or lie at its edges are tried). Non-trivial: at least two visible variables; distinct by builder, parameters and literals.')
ASSUMPTIONS = ['The preconditions asserted by the builders (equal widths, values that fit) are respected.',
               'The library bounds may refuse a bound that excludes nothing.']


def lits(draw, n, alias, lo=1):
    """n literals; with alias the same variable may occur twice."""
    if alias:
        return [v * draw(st.sampled_from([1, -1])) for v in draw(st.lists(st.integers(lo, lo + max(1, n)), min_size=n, max_size=n))]
    vs = draw(st.permutations(range(lo, lo + n)))
    signs = draw(st.sampled_from([0, 0, 1]))
    return [v * (draw(st.sampled_from([1, -1])) if signs else 1) for v in vs]


BUILDERS = ['add', 'add', 'add', 'sum', 'sum', 'increment', 'invert', 'popcount', 'popcount', 'equal', 'number', 'not_number', 'maximum', 'pair', 'amo', 'amo', 'one', 'one', 'lib', 'lib', 'lib', 'implies', 'same', 'all']


@st.composite
def cases(draw, big=False):
    k = draw(st.sampled_from(BUILDERS))
    c = {'k': k}
    alias = draw(st.integers(0, 4)) == 0
    top = 10 if not big else 13
    if k == 'add':
        n = draw(st.integers(1, 3 if not big else 4))
        c['extra'] = draw(st.booleans())
        c['carry'] = draw(st.booleans())
        c['overflow'] = draw(st.booleans())
        c['lits'] = lits(draw, 3 * n + c['extra'] + c['carry'], alias)
        c['n'] = n
    elif k == 'sum':
        n = draw(st.integers(1, 3))
        m = draw(st.integers(2, max(2, top // n - 1)))
        c.update(n=n, m=m, overflow=draw(st.booleans()))
        c['lits'] = lits(draw, n * (m + 1), alias)
    elif k in ('increment', 'invert'):
        c['n'] = draw(st.integers(1, 5))
        c['lits'] = lits(draw, 2 * c['n'], alias)
    elif k == 'popcount':
        c['n'] = n = draw(st.integers(2, 8 if not big else 10))
        c['lits'] = lits(draw, n + n.bit_length(), alias)
    elif k == 'equal':
        a, b = draw(st.integers(1, 5)), draw(st.integers(1, 5))
        c['diff'] = draw(st.booleans())
        if not c['diff']:
            b = a
        c.update(a=a, b=b)
        c['lits'] = lits(draw, a + b, alias)
    elif k in ('number', 'not_number', 'maximum'):
        c['n'] = n = draw(st.integers(1, 8))
        c['value'] = draw(st.integers(0, (1 << n) - 1))
        c['lits'] = lits(draw, n, alias)
    elif k == 'pair':
        c['n'] = n = draw(st.integers(1, 5))
        c['va'], c['vb'] = draw(st.integers(0, (1 << n) - 1)), draw(st.integers(0, (1 << n) - 1))
        if draw(st.integers(0, 3)) == 0:
            c['vb'] = c['va']
        c['lits'] = lits(draw, 2 * n, alias)
    elif k in ('amo', 'one'):
        c['n'] = n = draw(st.integers(1, top))
        c['how'] = draw(st.sampled_from(['quadratic', 'logarithmic', 'heule']))
        c['cutoff'] = draw(st.integers(3, 6))
        c['lits'] = lits(draw, n, alias)
    elif k == 'lib':
        c['n'] = n = draw(st.integers(1, top))
        c['how'] = draw(st.sampled_from(['equals', 'atmost', 'atleast']))
        c['value'] = draw(st.integers(0, n + (c['how'] != 'atmost')))
        c['lits'] = lits(draw, n, False)
    elif k == 'implies':
        c['n'], c['m'] = draw(st.integers(0, 3)), draw(st.integers(0, 3))
        c['lits'] = lits(draw, c['n'] + 2 * c['m'], alias)
    elif k == 'same':
        c['lits'] = lits(draw, 2, alias)
    else:
        c['lits'] = lits(draw, draw(st.integers(1, 5)), alias)
    c['gap'] = draw(st.integers(0, 3))
    c['plain'] = draw(st.booleans())    # leave out arguments that have their documented default
    return c


def val(bits):
    return sum(1 << i for i, b in enumerate(bits) if b)


def build(c, alloc, pool_of):
    """-> [(description, clauses, predicate over the truth values of c['lits'])]"""
    from factorio_sat import cardinality, util
    k, L = c['k'], c['lits']

    def rest(value, default):
        return [] if c['plain'] and value == default else [value]
    if k == 'add':
        n = c['n']
        a, b = L[:n], L[n:2 * n]
        out = L[2 * n:3 * n + c['extra']]
        carry = L[-1] if c['carry'] else None
        cl = util.add_numbers(a, b, out, alloc, *(rest(carry, None) if not c['overflow'] and carry is None else [carry, *rest(c['overflow'], False)]))

        def pred(v):
            s = val(v[:n]) + val(v[n:2 * n]) + (v[-1] if c['carry'] else 0)
            o = val(v[2 * n:3 * n + c['extra']])
            if not c['extra'] and c['overflow']:
                s %= 1 << n
            return s == o
        return [('addition', cl, pred)]
    if k == 'sum':
        n, m = c['n'], c['m']
        nums = [L[i * n:(i + 1) * n] for i in range(m)]
        cl = util.sum_numbers(nums, L[m * n:], alloc, *rest(c['overflow'], False))

        def pred(v):
            s = sum(val(v[i * n:(i + 1) * n]) for i in range(m))
            return (s % (1 << n) if c['overflow'] else s) == val(v[m * n:])
        return [('summation', cl, pred)]
    if k == 'increment':
        n = c['n']
        return [('increment', util.increment_number(L[:n], L[n:]), lambda v: (val(v[:n]) + 1) % (1 << n) == val(v[n:]))]
    if k == 'invert':
        n = c['n']

        def pred(v):
            a, b = (val(w) - (w[-1] << n) for w in (v[:n], v[n:]))
            return a == -b and a != -(1 << (n - 1))
        return [('negation', util.invert_number(L[:n], L[n:], alloc), pred)]
    if k == 'popcount':
        n = c['n']
        return [('popcount', util.get_popcount(L[:n], L[n:], alloc), lambda v: sum(v[:n]) == val(v[n:]))]
    if k == 'equal':
        a = c['a']
        return [('equality', util.set_numbers_equal(L[:a], L[a:], *rest(c['diff'], False)), lambda v: val(v[:a]) == val(v[a:]))]
    if k == 'number':
        return [('fixed value', util.set_number(c['value'], L), lambda v: val(v) == c['value'])]
    if k == 'not_number':
        return [('excluded value', [util.set_not_number(c['value'], L)], lambda v: val(v) != c['value'])]
    if k == 'maximum':
        return [('maximum', util.set_maximum(c['value'], L), lambda v: val(v) <= c['value'])]
    if k == 'pair':
        n = c['n']
        return [('unordered pair', util.set_numbers(c['va'], c['vb'], L[:n], L[n:]), lambda v: sorted((val(v[:n]), val(v[n:]))) == sorted((c['va'], c['vb'])))]
    if k in ('amo', 'one'):
        f = getattr(cardinality, f"{c['how']}_{k}")
        cl = f(L, alloc, *rest(c['cutoff'], 3)) if c['how'] == 'heule' else f(L, alloc)
        return [(f"{c['how']} {k}", cl, (lambda v: sum(v) <= 1) if k == 'amo' else (lambda v: sum(v) == 1))]
    if k == 'lib':
        n = c['value']
        pred = {'equals': lambda v: sum(v) == n, 'atmost': lambda v: sum(v) <= n, 'atleast': lambda v: sum(v) >= n}[c['how']]
        f = getattr(cardinality, 'library_' + c['how'])
        try:
            cl = f(list(L), n, pool_of())
        except RuntimeError:
            if c['how'] == 'atmost' and n >= len(L) or c['how'] == 'atleast' and n <= 0:
                return []
            raise
        return [(f"library {c['how']} {n}", cl, pred)]
    if k == 'implies':
        n, m = c['n'], c['m']
        cond, cons = L[:n], [[L[n + 2 * i], L[n + 2 * i + 1]] for i in range(m)]
        return [('implication', util.implies(cond, cons), lambda v: not all(v[:n]) or all(v[n + 2 * i] or v[n + 2 * i + 1] for i in range(m)))]
    if k == 'same':
        return [('same', util.literals_same(*L), lambda v: v[0] == v[1]), ('different', util.literals_different(*L), lambda v: v[0] != v[1])]
    return [('all true', util.set_all_true(L), all), ('all false', util.set_all_false(L), lambda v: not any(v)),
            ('set literal', [[util.set_literal(x, True)] for x in L] , all),
            ('set literal false', [[util.set_literal(x, False)] for x in L], lambda v: not any(v)),
            ('inverted clause', [util.invert_components(L)], lambda v: not all(v))]


def check(c, rec):
    from pysat.formula import IDPool
    from pysat.solvers import Solver
    given = sorted({abs(x) for x in c['lits']})
    top = max(given, default=0) + c['gap']
    allocated = set()
    state = [top]

    def alloc():
        state[0] += 1
        allocated.add(state[0])
        return state[0]
    pools = []

    def pool_of():
        pools.append(IDPool(start_from=top + 1))
        return pools[-1]
    for what, clauses, pred in build(c, alloc, pool_of):
        if pools:
            allocated |= set(range(top + 1, pools[-1].top + 1))
        for cl in clauses:
            for lit in cl:
                if not isinstance(lit, int) or lit == 0 or (abs(lit) not in given and abs(lit) not in allocated):
                    raise Violation(f'{what}: clause {cl} uses a literal that was neither given nor allocated')
        with Solver(name='cadical153' if len(given) < 4 else 'g4', bootstrap_with=clauses) as s:
            pos = {v: i for i, v in enumerate(given)}
            for bits in range(1 << len(given)):
                assign = [v if bits >> i & 1 else -v for i, v in enumerate(given)]
                got = s.solve(assumptions=assign)
                v = [int(bool(bits >> pos[abs(x)] & 1) == (x > 0)) for x in c['lits']]
                want = bool(pred(v))
                if got != want:
                    raise Violation(f"{what} with {({k: x for k, x in c.items() if k not in ('k', 'gap', 'plain')})}: literal values {v} are {'accepted' if got else 'rejected'} although the relation {'does not hold' if got else 'holds'}")
        if len(given) >= 2:
            rec.nontrivial((what, {k: v for k, v in c.items() if k not in ('gap', 'plain')}), c)
        rec.event(what.split(' ')[0] if what.startswith('library') else what)
        rec.event('assignments', 1 << len(given))


@st.composite
def wide_cases(draw):
    """Sizes whose assignments are too many to enumerate: some are tried (see samples)."""
    k = draw(st.sampled_from(['add', 'sum', 'increment', 'invert', 'popcount', 'popcount', 'equal', 'number', 'not_number', 'maximum', 'maximum', 'pair', 'amo', 'amo', 'one', 'one', 'lib', 'implies', 'all']))
    c = {'k': k, 'gap': draw(st.integers(0, 40)), 'plain': draw(st.booleans())}
    value = lambda n: draw(st.one_of(st.integers(0, (1 << n) - 1), st.sampled_from([0, 1, (1 << n) - 1, (1 << n) - 2, 1 << (n - 1), (1 << (n - 1)) - 1])))
    if k == 'add':
        n = draw(st.integers(4, 24))
        c.update(n=n, extra=draw(st.booleans()), carry=draw(st.booleans()), overflow=draw(st.booleans()))
        size = 3 * n + c['extra'] + c['carry']
    elif k == 'sum':
        n, m = draw(st.integers(3, 12)), draw(st.integers(3, 12))
        c.update(n=n, m=m, overflow=draw(st.booleans()))
        size = n * (m + 1)
    elif k in ('increment', 'invert'):
        c['n'] = draw(st.integers(6, 24))
        size = 2 * c['n']
    elif k == 'popcount':
        c['n'] = n = draw(st.integers(9, 70))
        size = n + n.bit_length()
    elif k == 'equal':
        c['diff'] = draw(st.booleans())
        a = draw(st.integers(6, 24))
        b = draw(st.integers(1, 24)) if c['diff'] else a
        c.update(a=a, b=b)
        size = a + b
    elif k in ('number', 'not_number', 'maximum'):
        c['n'] = size = draw(st.integers(7, 24))
        c['value'] = value(size)
    elif k == 'pair':
        c['n'] = n = draw(st.integers(5, 16))
        c['va'], c['vb'] = value(n), value(n)
        size = 2 * n
    elif k in ('amo', 'one'):
        c['n'] = size = draw(st.integers(11, 90))
        c['how'] = draw(st.sampled_from(['quadratic', 'logarithmic', 'heule']))
        c['cutoff'] = draw(st.integers(3, 12))
    elif k == 'lib':
        c['n'] = size = draw(st.integers(11, 60))
        c['how'] = draw(st.sampled_from(['equals', 'atmost', 'atleast']))
        c['value'] = draw(st.one_of(st.integers(0, size), st.sampled_from([0, 1, 2, size - 1, size])))
    elif k == 'implies':
        c['n'], c['m'] = draw(st.integers(3, 12)), draw(st.integers(3, 12))
        size = c['n'] + 2 * c['m']
    else:
        size = draw(st.integers(6, 40))
    vs = list(range(1, size + 1))
    rnd = draw(st.randoms(use_true_random=False))
    if draw(st.booleans()):
        rnd.shuffle(vs)
    signs = draw(st.booleans())
    c['lits'] = [-v if signs and rnd.random() < 0.5 else v for v in vs]
    c['seed'] = draw(st.integers(0, 1 << 30))
    return c


def bits(value, n):
    return [value >> i & 1 for i in range(n)]


def samples(c, r):
    """Literal values worth trying: ones that satisfy the relation, ones that miss it narrowly, ones at its edges, random ones."""
    k, n, size = c['k'], c.get('n'), len(c['lits'])

    def number(n):
        v = r.choice([r.randrange(1 << n), r.randrange(1 << n), 0, 1, (1 << n) - 1, (1 << n) - 2, 1 << (n - 1), (1 << (n - 1)) - 1, r.randrange(1 << r.randrange(n + 1))])
        return min(max(v, 0), (1 << n) - 1)

    def exact(count, n):
        on = set(r.sample(range(n), count))
        return [int(i in on) for i in range(n)]
    out = []
    for _ in range(12):
        if k == 'add':
            a, b, cy = number(n), number(n), r.randrange(2) if c['carry'] else 0
            s = a + b + cy
            v = bits(a, n) + bits(b, n) + bits(s, n + c['extra']) + ([cy] if c['carry'] else [])
        elif k == 'sum':
            xs, left = [], (1 << n) - 1
            for i in range(c['m']):
                x = r.choice([number(n), r.randint(0, max(1, left)), min(left, number(n)), min(left, number(n))])
                xs.append(x & ((1 << n) - 1))
                left = max(0, left - x)
            r.shuffle(xs)
            v = [b for x in xs for b in bits(x, n)] + bits(sum(xs), n)
        elif k == 'increment':
            a = number(n)
            v = bits(a, n) + bits(a + 1, n)
        elif k == 'invert':
            a = number(n)
            v = bits(a, n) + bits(-a, n)
        elif k == 'popcount':
            cnt = r.choice([0, 1, n, n - 1, r.randint(0, n), r.randint(0, n), min(n, 1 << r.randrange(n.bit_length())), min(n, (1 << r.randrange(1, n.bit_length() + 1)) - 1)])
            v = exact(cnt, n) + bits(cnt, size - n)
        elif k == 'equal':
            a = number(min(c['a'], c['b']))
            v = bits(a, c['a']) + bits(a, c['b'])
        elif k in ('number', 'not_number', 'maximum'):
            x = c['value'] + r.choice([0, 0, 1, -1, 2, r.choice([1, -1]) << r.randrange(n)])
            v = bits(min(max(x, 0), (1 << n) - 1), n)
        elif k == 'pair':
            p = [c['va'], c['vb']]
            if r.random() < 0.6:
                r.shuffle(p)
            elif r.random() < 0.5:
                p = [r.choice(p)] * 2
            v = bits(p[0], n) + bits(p[1], n)
        elif k == 'lib':
            v = exact(min(size, max(0, c['value'] + r.choice([-1, 0, 1]))), size)
        elif k == 'implies':
            v = [1] * n + [b for _ in range(c['m']) for b in r.choice([(0, 1), (1, 0), (1, 1)])]
        elif k == 'all':
            v = [r.randrange(2)] * size
        else:
            v = exact(r.choice([0, 1, 2, 3]), size)
        out.append(v)
        for _ in range(3):
            w = list(v)
            i = r.randrange(size)
            w[i] ^= 1
            out.append(w)
    for _ in range(4):
        out.append([r.randrange(2) for _ in range(size)])
    if k in ('amo', 'one'):
        out.append([0] * size)
        for i in range(size):
            out.append([int(j == i) for j in range(size)])
        pairs = [(i, j) for i in range(size) for j in range(i)]
        for i, j in (pairs if len(pairs) < 400 else r.sample(pairs, 300) + [(i + d, i) for d in (1, 2, 3, size // 2) for i in range(size - d)]):
            out.append([int(x in (i, j)) for x in range(size)])
    return out


def check_wide(c, rec):
    import random
    from pysat.formula import IDPool
    from pysat.solvers import Solver
    L = c['lits']
    top = len(L) + c['gap']
    allocated = set()
    state = [top]

    def alloc():
        state[0] += 1
        allocated.add(state[0])
        return state[0]
    pools = []

    def pool_of():
        pools.append(IDPool(start_from=top + 1))
        return pools[-1]
    for what, clauses, pred in build(c, alloc, pool_of):
        clauses = [list(cl) for cl in clauses]
        if pools:
            allocated |= set(range(top + 1, pools[-1].top + 1))
        for cl in clauses:
            for lit in cl:
                if not isinstance(lit, int) or lit == 0 or (abs(lit) > len(L) and abs(lit) not in allocated):
                    raise Violation(f'{what}: clause {cl} uses a literal that was neither given nor allocated')
        with Solver(name='g4', bootstrap_with=clauses) as s:
            hold = 0
            for v in samples(c, random.Random(c['seed'])):
                got = s.solve(assumptions=[x if b else -x for x, b in zip(L, v)])
                want = bool(pred(v))
                hold += want
                rec.event('wide assignments')
                if got != want:
                    raise Violation(f"{what} with {({k: x for k, x in c.items() if k not in ('k', 'gap', 'plain', 'seed')})}: literal values {v} are {'accepted' if got else 'rejected'} although the relation {'does not hold' if got else 'holds'}")
            rec.event('wide assignments where the relation holds', hold)
        rec.nontrivial((what, {k: v for k, v in c.items() if k not in ('gap', 'plain')}), c)
        rec.event('wide ' + (what.split(' ')[0] if what.startswith('library') else what))


def plain_cases(tier):
    for n in range(1, 13 if tier == 'quick' else 16):
        yield {'n': n}


def check_plain(c, rec):
    from factorio_sat import util
    n = c['n']
    for v in range(1 << n):
        bits = list(util.get_bits(v, n))
        if bits != [bool(v >> i & 1) for i in range(n)]:
            raise Violation(f'get_bits({v}, {n}) = {bits}')
        if util.read_number(bits) != v:
            raise Violation(f'read_number({bits}) = {util.read_number(bits)}')
        if n > 1 and util.read_number(bits, True) != v - (bits[-1] << n):
            raise Violation(f'read_number({bits}, signed) = {util.read_number(bits, True)}')
        if v and util.bin_length(v) != (v - 1).bit_length():
            raise Violation(f'bin_length({v}) = {util.bin_length(v)}')
        if bool(util.is_power_of_two(v)) != (bin(v).count('1') <= 1):
            raise Violation(f'is_power_of_two({v}) = {util.is_power_of_two(v)}')
        rec.evaluations += 1
    a = util.make_allocator(n)
    got = [a() for _ in range(4)]
    if len(set(got)) != 4 or min(got) <= n:
        raise Violation(f'allocator from {n} gives {got}')
    rec.nontrivial(n)


SUBS = [
    Sub('builders', check, gen=lambda tier: cases(tier != 'quick'), quick=16000, thorough=160000, shards=8, tshards=8, budget=120, hang=60),
    Sub('wide', check_wide, gen=lambda tier: wide_cases(), quick=8000, thorough=40000, shards=8, tshards=8, budget=120, hang=60),
    Sub('numbers', check_plain, cases=plain_cases, hang=60),
]

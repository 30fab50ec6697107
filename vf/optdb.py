"""A stand-in for the SAT search behind calculate_optimal, and a model of its database.

The truth about a network is an up-set of sizes (underground length, width, height), given by its
minimal elements; the stand-in answers from it and logs every question."""
import json
import os
import re

from hypothesis import strategies as st

from . import corpus, flow, tools
from .core import Violation

LEVELS = [(4, 'normal', ''), (6, 'fast', 'fast-'), (8, 'express', 'express-')]


def holds(truth, size):
    return any(all(a >= b for a, b in zip(size, m)) for m in truth)


def infer(exist, size):
    """What recorded answers imply about a size: True, False or None."""
    for s, v in exist.items():
        if v and all(a >= b for a, b in zip(size, s)):
            return True
        if not v and all(a <= b for a, b in zip(size, s)):
            return False
    return None


def order_key(name):
    m = re.match(r'(\d+)[x-](\d+)(.*)', name)
    return (0, int(m[1]), int(m[2]), m[3]) if m else (1, 0, 0, name)


def net_key(net):
    nodes = net.elements() if hasattr(net, 'elements') else net
    return json.dumps(sorted([[-1 if c is None else int(c) for c in side] for side in node] for node in nodes))


def solution(key, size):
    """A recognisable picture of the right size."""
    u, w, h = size
    mark = [len(key), sum(map(ord, key)), u, w, h]
    return [[{'tile': {'type': 'belt', 'input_direction': 0, 'output_direction': 0}, 'mark': mark + [x, y]}
             for x in range(w)] for y in range(h)]


SHAPES = ['0 0 2 2', '0 -1 2 2', '0 0 2 -1', '0 0 1 1\n1 1 2 2', '0 -1 1 2\n1 -1 2 2', '0 0 1 2\n1 0 2 2']


class Net:
    def __init__(self, text):
        self.text = text
        self.nodes = [[int(c) for c in line.split()] for line in text.splitlines() if line.strip()]
        self.count = len(self.nodes)
        ins = sum(n[:2].count(0) for n in self.nodes) - sum(n[2:].count(0) for n in self.nodes)
        outs = sum(n[2:].count(2) for n in self.nodes) - sum(n[:2].count(2) for n in self.nodes)
        self.min_height = max(ins, outs)
        self.key = json.dumps(sorted([[n[:2], n[2:]] for n in self.nodes]))

    def fits(self, w, h):
        return w >= 3 and h >= self.min_height and (w - 2) * h >= 2 * self.count

    def admissible(self, objective, w, h):
        if not self.fits(w, h):
            return False
        return h == self.min_height if objective == 'length' else h <= 2 * self.min_height


def loss(objective, w, h):
    return (h, w) if objective == 'length' else (w - 2) * h


@st.composite
def problems(draw, max_nets=3):
    """Networks with their truths, and a database of some answers."""
    nets, keys = {}, set()
    for _ in range(draw(st.integers(1, max_nets))):
        text = ''.join(s + '\n' for s in draw(st.lists(st.sampled_from(SHAPES), min_size=1, max_size=3)))
        net = Net(text)
        if net.key in keys:
            continue
        keys.add(net.key)
        name = draw(st.one_of(
            st.builds(lambda a, s, b, t: f'{a}{s}{b}{t}', st.integers(1, 12), st.sampled_from('xxx-'), st.integers(1, 12), st.sampled_from(['', '', 'b', '-alt'])),
            st.sampled_from(['odd', 'experiment', 'mixed', 'a9x1'])))
        if any(order_key(name) == order_key(other) for other in nets):
            continue
        h = net.min_height
        lo = next(w for w in range(3, 99) if net.fits(w, h))
        truth = [[draw(st.integers(1, 3)), draw(st.integers(lo, lo + 7)), h]]
        for _ in range(draw(st.integers(0, 4))):
            hh = draw(st.integers(h, 2 * h + 1))
            ww = draw(st.integers(3, lo + 7))
            if net.fits(ww, hh):
                truth.append([draw(st.integers(1, 9)), ww, hh])
        facts = []
        for _ in range(draw(st.sampled_from([0, 0, 0, 1, 3, 6]))):
            hh = draw(st.integers(h, 2 * h))
            ww = draw(st.integers(3, lo + 8))
            if net.fits(ww, hh):
                facts.append([draw(st.integers(1, 9)), ww, hh])
        nets[name] = {'text': text, 'truth': truth, 'facts': facts}
    return nets


def database(nets):
    db = {}
    for name, n in nets.items():
        if not n['facts']:
            continue
        key = Net(n['text']).key
        d = db[name] = {'exist': {}, 'solutions': {}}
        for size in n['facts']:
            k = ','.join(map(str, size))
            d['exist'][k] = holds(n['truth'], size)
            if d['exist'][k]:
                d['solutions'][k] = solution(key, tuple(size))
    return db


class World:
    """A scratch working directory with ./networks, a database and the stand-in."""

    def __init__(self, s, nets, db, database_name='db.json'):
        self.s, self.nets = s, nets
        self.by_key = {Net(n['text']).key: name for name, n in nets.items()}
        os.makedirs(s.join('work/networks'))
        for name, n in nets.items():
            s.file('work/networks/' + name, n['text'])
        self.path = s.join('work/' + database_name)
        self.argv = ['--database', database_name]
        if db is not None:
            with open(self.path, 'w') as f:
                json.dump(db, f)
        self.log = s.join('log')

    def install(self, mod):
        log, nets, by_key = self.log, self.nets, self.by_key

        def solve_balancer(*args, **kwargs):
            # which argument is which is told by its shape, not by its place or name
            values = list(args) + list(kwargs.values())
            size = next(tuple(int(x) for x in v) for v in values
                        if isinstance(v, (tuple, list)) and len(v) == 3 and not any(hasattr(x, '__len__') for x in v))
            key = next(net_key(v) for v in values if hasattr(v, 'elements') or (isinstance(v, (tuple, list)) and any(hasattr(x, '__len__') for x in v)))
            with open(log, 'a') as f:
                f.write(json.dumps([by_key[key], list(size)]) + '\n')
            with open(log) as f:
                if sum(1 for _ in f) > 1500:
                    raise RuntimeError('the search asks without end')
            return solution(key, size) if holds(nets[by_key[key]]['truth'], size) else None

        if hasattr(mod, 'solve_balancer'):
            solve_balancer.__module__ = mod.__name__
            solve_balancer.__qualname__ = 'solve_balancer'
            mod.solve_balancer = solve_balancer
        else:
            # under another name: whatever is handed to the worker pool is the search
            import concurrent.futures

            class Pool(concurrent.futures.ThreadPoolExecutor):
                def submit(self, fn, *args, **kwargs):
                    return super().submit(solve_balancer, *args, **kwargs)

            concurrent.futures.ProcessPoolExecutor = Pool
            for name, value in list(vars(mod).items()):
                if getattr(value, '__name__', None) == 'ProcessPoolExecutor':
                    setattr(mod, name, Pool)

    def calls(self):
        try:
            with open(self.log) as f:
                return [(name, tuple(size)) for name, size in map(json.loads, f)]
        except FileNotFoundError:
            return []

    def run(self, argv, timeout=60):
        if os.path.exists(self.log):
            os.unlink(self.log)
        try:
            return tools.run('calculate_optimal', self.argv + argv, timeout=timeout, cwd=self.s.join('work'), setup=self.install)
        except tools.Timeout:
            raise Violation(f"calculate_optimal {' '.join(map(str, argv))} does not end")

    def read(self):
        """The database as {name: (exist, solutions)}; Violation if it is not readable."""
        try:
            with open(self.path) as f:
                data = json.load(f)
        except FileNotFoundError:
            data = {}
        except ValueError as e:
            raise Violation(f'the database is not readable: {e}')
        return parse(data)


def parse(data):
    out = {}
    for name, d in data.items():
        exist = {tuple(map(int, k.split(','))): v for k, v in d.get('exist', {}).items()}
        sols = {tuple(map(int, k.split(','))): v for k, v in d.get('solutions', {}).items()}
        out[name] = (exist, sols)
    return out


def box(nets, facts):
    """Sizes worth asking about for one network."""
    sizes = [tuple(s) for s in facts]
    us = sorted({s[0] + d for s in sizes for d in (0, 1) if s[0] + d > 0} | {1, 4, 6, 8})
    ws = range(3, max([s[1] for s in sizes], default=3) + 2)
    hs = range(1, max([s[2] for s in sizes], default=1) + 2)
    return [(u, w, h) for u in us for w in ws for h in hs]


def check_database(world, before, answers):
    """The file agrees with the truth and implies exactly what was known before plus the answers."""
    after = world.read()
    for name, n in world.nets.items():
        key = Net(n['text']).key
        exist, sols = after.get(name, ({}, {}))
        for size, v in exist.items():
            if not isinstance(v, bool) or v != holds(n['truth'], size):
                raise Violation(f'{name}: the database says {v} for {size}, the answers say {holds(n["truth"], size)}')
            if v and size not in sols:
                raise Violation(f'{name}: {size} exists but its solution is not in the database')
        for size, sol in sols.items():
            if sol != solution(key, size):
                raise Violation(f'{name}: the solution stored for {size} is not the one found')
        known = dict(before.get(name, ({}, {}))[0])
        old_sols = set(before.get(name, ({}, {}))[1])
        for nm, size in answers:
            if nm == name:
                known[size] = holds(n['truth'], size)
                if known[size]:
                    old_sols.add(size)
        for size in box(world.nets, list(known)):
            a, b = infer(known, size), infer(exist, size)
            if a != b:
                raise Violation(f'{name}: recorded answers imply {a} for {size}, the database implies {b}')
        if not old_sols <= set(sols):
            raise Violation(f'{name}: solutions for {sorted(old_sols - set(sols))} were lost')
    return after


def status(net, exist, objective, u, limit):
    """('proven', loss, settled) | ('open',): what the database shows about the optimum."""
    cand = sorted((loss(objective, w, h), w, h) for w in range(3, limit) for h in range(net.min_height, 2 * net.min_height + 1)
                  if net.admissible(objective, w, h))
    best = None
    for l, w, h in cand:
        if infer(exist, (u, w, h)) is True:
            best = l
            break
    if best is None:
        return ('open',)
    if any(infer(exist, (u, w, h)) is None for l, w, h in cand if l < best):
        return ('open',)
    return ('proven', best, all(infer(exist, (u, w, h)) is not None for l, w, h in cand if l == best))


def true_best(net, truth, objective, u):
    limit = max(m[1] for m in truth) * 3 + 10
    return min((loss(objective, w, h) for w in range(3, limit) for h in range(net.min_height, 2 * net.min_height + 1)
                if net.admissible(objective, w, h) and holds(truth, (u, w, h))), default=None)

"""Shipped data: networks and blueprint books, read without the code under test."""
import base64
import functools
import json
import math
import os
import re
import zlib

from .core import REPO
from .phys import EMPTY, VEC

LEVEL_UL = {'yellow': 4, 'red': 6, 'blue': 8}


def decode(s):
    assert s[0] == '0'
    return json.loads(zlib.decompress(base64.b64decode(s[1:])))


def encode(data):
    return '0' + base64.b64encode(zlib.compress(json.dumps(data).encode())).decode()


def from_factorio(d):
    return {0: 1, 2: 0, 4: 3, 6: 2}[d]


def entities_to_rows(entities):
    """Reference import: bounding box of the occupied tiles, belts bent by their only feeder."""
    cells = {}
    for e in entities:
        x, y = e['position']['x'], e['position']['y']
        d = from_factorio(e.get('direction', 0))
        name = e['name']
        if name.endswith('splitter'):
            vx, vy = VEC[(d + 1) % 4]
            cells[math.floor(x - vx / 2), math.floor(y - vy / 2)] = ('split', d, True)
            cells[math.floor(x + vx / 2), math.floor(y + vy / 2)] = ('split', d, False)
        elif name.endswith('transport-belt'):
            cells[math.floor(x), math.floor(y)] = ('belt', d, d)
        elif name.endswith('underground-belt'):
            cells[math.floor(x), math.floor(y)] = ('ug', d, e['type'] == 'input')
        elif name == 'long-handed-inserter':
            cells[math.floor(x), math.floor(y)] = ('ins', (d + 2) % 4, 1)
        elif name.endswith('inserter'):
            cells[math.floor(x), math.floor(y)] = ('ins', (d + 2) % 4, 0)
        elif name.startswith('assembling-machine-'):
            for dx in range(3):
                for dy in range(3):
                    cells[math.floor(x) - 1 + dx, math.floor(y) - 1 + dy] = ('asm', dx, dy)
        elif name == 'wooden-chest':
            cells[math.floor(x), math.floor(y)] = ('filler',)
        else:
            raise ValueError(name)
    if not cells:
        return []
    x0 = min(x for x, _ in cells)
    y0 = min(y for _, y in cells)
    w = max(x for x, _ in cells) - x0 + 1
    h = max(y for _, y in cells) - y0 + 1
    rows = [[EMPTY] * w for _ in range(h)]
    for (x, y), t in cells.items():
        rows[y - y0][x - x0] = t
    return bend(rows)


def outputs(t):
    if t[0] == 'belt':
        return t[2]
    if t[0] == 'ug' and not t[2]:
        return t[1]
    if t[0] == 'split':
        return t[1]
    return None


def bend(rows):
    """Every belt takes the shape its surroundings give it in the game."""
    h, w = len(rows), len(rows[0])
    res = [list(r) for r in rows]
    for y in range(h):
        for x in range(w):
            t = rows[y][x]
            if t[0] != 'belt':
                continue
            o = t[2]
            feeders = []
            for d in range(4):
                if d == (o + 2) % 4:
                    continue
                nx, ny = x - VEC[d][0], y - VEC[d][1]
                if 0 <= nx < w and 0 <= ny < h and outputs(rows[ny][nx]) == d:
                    feeders.append(d)
            res[y][x] = ('belt', feeders[0] if len(feeders) == 1 else o, o)
    return res


@functools.lru_cache(None)
def books():
    """[(book, level name, n_in, n_out, rows)]"""
    res = []
    base = os.path.join(REPO, 'books')
    if not os.path.isdir(base):
        return res

    def visit(item, path, label):
        if 'blueprint_book' in item:
            b = item['blueprint_book']
            for sub in b['blueprints']:
                visit(sub, path, label + [b.get('label', '')])
        elif 'blueprint' in item:
            bp = item['blueprint']
            m = re.match(r'(\d+) to (\d+)', bp.get('label', ''))
            if not m:
                return
            names = {e['name'] for e in bp['entities']}
            lvl = 'blue' if any(n.startswith('express') for n in names) else 'red' if any(n.startswith('fast') for n in names) else 'yellow'
            res.append((path, lvl, int(m.group(1)), int(m.group(2)), entities_to_rows(bp['entities'])))

    for f in sorted(os.listdir(base)):
        if not f.endswith('.txt') or f == 'all.txt':
            continue
        with open(os.path.join(base, f)) as fh:
            visit(decode(fh.read().strip()), f, [])
    return res


def read_network(path):
    nodes = []
    with open(path) as f:
        for line in f:
            line = line.strip()
            if not line or line.startswith('#'):
                continue
            c = [int(v) for v in line.split()]
            c = [None if v == -1 else v for v in c]
            nodes.append(((c[0], c[1]), (c[2], c[3])))
    return nodes


@functools.lru_cache(None)
def networks():
    base = os.path.join(REPO, 'networks')
    res = {}
    for f in sorted(os.listdir(base)):
        res[f] = read_network(os.path.join(base, f))
    return res

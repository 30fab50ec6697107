#!/opt/venv/bin/python
"""Mutation trial: mutate.py MODULE [--n N] [--seed S] [--jobs J] [--out FILE] [--checks C01,C02]

Makes single-site edits of factorio_sat/MODULE.py in scratch copies of /repo, runs the checks that cover the module (first
violation ends a check), and for the edits no check notices runs the repository's tests. One JSON line per mutant."""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import threading
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
import plant

COVER = {
    'belt_balancer': 'C02 C10 C11 C09 C08',
    'belt_balancer_net_free': 'C04 C09 C08',
    'belt_balancer_net_free_power_of_2': 'C05 C09 C08',
    'blueprint': 'C13 C14 C23 C09 C15',
    'blueprint_book': 'C15',
    'calculate_optimal': 'C20 C21 C24',
    'cardinality': 'C12 C01',
    'direction': 'C17 C13 C14 C19 C01',
    'interchange': 'C06 C09 C08',
    'ipasir': 'C22',
    'make_block': 'C07 C08',
    'network': 'C18 C19 C27 C03 C02',
    'render': 'C26',
    'tilemaps': 'C26 C28',
    'assets/fetch': 'C28',
    'optimisations': 'C10 C11 C07',
    'rotate': 'C17',
    'solver': 'C01 C23 C25 C02 C09 C06 C04',
    'stringifier': 'C16',
    'template': 'C25 C22 C01',
    'tile': 'C23 C17 C16 C13 C19',
    'util': 'C12 C25 C11 C23 C01',
}
SWAP = {}
for a, b in [('input_direction', 'output_direction'), ('next', 'prev'), ('width', 'height'), ('colour_ux', 'colour_uy'),
             ('is_input', 'is_output'), ('is_underground_in', 'is_underground_out'), ('forward', 'backward'),
             ('ux', 'uy'), ('RIGHT', 'UP'), ('LEFT', 'DOWN'), ('HORIZONTAL', 'VERTICAL'), ('WRAP', 'NO_WRAP'),
             ('tile10', 'tile11'), ('tile00', 'tile01'), ('tile_a', 'tile_b'), ('dx', 'dy'), ('dx0', 'dx1'), ('dy0', 'dy1'),
             ('start_tile', 'end_tile'), ('top', 'bot'), ('direction', 'tangent'), ('any', 'all'), ('min', 'max'),
             ('inputs', 'outputs'), ('input_colours', 'output_colours'), ('input_count', 'output_count'), ('row', 'col'),
             ('x', 'y'), ('quantity_ua', 'quantity_ub'), ('quantity_a', 'quantity_b'), ('is_splitter', 'is_belt')]:
    SWAP[a] = b
    SWAP[b] = a
SWAP['is_splitter_head'] = 'is_splitter'
SWAP['reverse'] = 'next'


def mutants(text):
    """All (start, end, replacement, kind) edits of the text."""
    tree = ast.parse(text)
    starts = [0]
    raw = text.encode()
    for line in raw.split(b'\n'):
        starts.append(starts[-1] + len(line) + 1)

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def src(n):
        a, b = span(n)
        return raw[a:b].decode()
    out = []
    skip = set()
    for node in ast.walk(tree):
        # messages, command line definitions and type hints do not count
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in ('add_argument', 'ArgumentParser', 'add_parser', 'warn', 'add_subparsers'):
            skip |= set(ast.walk(node))
        if isinstance(node, (ast.Import, ast.ImportFrom, ast.Assert, ast.Raise)):
            skip |= set(ast.walk(node))
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for a in node.args.args + node.args.kwonlyargs:
                if a.annotation:
                    skip |= set(ast.walk(a.annotation))
            if node.returns:
                skip |= set(ast.walk(node.returns))
        if isinstance(node, ast.AnnAssign):
            skip |= set(ast.walk(node.annotation))
        if isinstance(node, ast.JoinedStr):
            skip |= set(ast.walk(node))
    for node in tree.body:
        if isinstance(node, ast.If) and '__name__' in src(node.test):
            skip |= set(ast.walk(node))
    for node in ast.walk(tree):
        if node in skip or isinstance(node, ast.Expr) and node.value in skip:
            continue
        add = lambda n, new, kind: out.append((*span(n), new, kind, n.lineno))
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            l, r = src(node.left), src(node.comparators[0])
            new = {ast.Lt: ['<='], ast.LtE: ['<'], ast.Gt: ['>='], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='],
                   ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}[type(node.ops[0])]
            for o in new:
                add(node, f'({l} {o} {r})', 'compare')
        elif isinstance(node, ast.Constant) and type(node.value) is int:
            for v in (node.value + 1, node.value - 1):
                add(node, f'({v})' if v < 0 else str(v), 'constant')
        elif isinstance(node, ast.Constant) and type(node.value) is bool:
            add(node, str(not node.value), 'bool')
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.USub, ast.Not)):
            add(node, f'({src(node.operand)})', 'unary')
        elif isinstance(node, ast.BinOp):
            o = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.FloorDiv: '*', ast.Mod: '+', ast.BitAnd: '|', ast.BitOr: '&',
                 ast.LShift: '>>', ast.RShift: '<<'}.get(type(node.op))
            if o:
                add(node, f'({src(node.left)} {o} {src(node.right)})', 'binop')
        elif isinstance(node, ast.BoolOp):
            o = ' or ' if isinstance(node.op, ast.And) else ' and '
            add(node, '(' + o.join(f'({src(v)})' for v in node.values) + ')', 'boolop')
            for i in range(len(node.values)):
                rest = node.values[:i] + node.values[i + 1:]
                add(node, '(' + (' and ' if isinstance(node.op, ast.And) else ' or ').join(f'({src(v)})' for v in rest) + ')', 'boolop-drop')
        elif isinstance(node, ast.Attribute) and node.attr in SWAP:
            add(node, src(node.value) + '.' + SWAP[node.attr], 'attribute')
        elif isinstance(node, ast.Name) and isinstance(node.ctx, ast.Load) and node.id in SWAP:
            add(node, SWAP[node.id], 'name')
        elif isinstance(node, (ast.List, ast.Tuple)) and isinstance(node.ctx, ast.Load) and len(node.elts) > 1:
            for i in range(len(node.elts)):
                rest = ', '.join(src(e) for j, e in enumerate(node.elts) if j != i)
                add(node, f'[{rest}]' if isinstance(node, ast.List) else f'({rest},)', 'drop-element')
        elif isinstance(node, (ast.If, ast.IfExp)):
            add(node.test, f'(not ({src(node.test)}))', 'negate')
            if isinstance(node, ast.If):
                add(node.test, 'False', 'never')
        if isinstance(node, (ast.AugAssign, ast.Expr, ast.Continue, ast.Break)) and not (
                isinstance(node, ast.Expr) and isinstance(node.value, (ast.Constant, ast.Yield))):
            add(node, 'pass', 'drop-statement')
    res = []
    for a, b, new, kind, line in out:
        m = (raw[:a] + new.encode() + raw[b:]).decode()
        try:
            ast.parse(m)
        except SyntaxError:
            continue
        if m != text:
            res.append((m, kind, line, raw[a:b].decode()[:160], new[:160]))
    return res


def trial(module, m, checks, base):
    text, kind, line, old, new = m
    copy = tempfile.mkdtemp(prefix='mut', dir='/tmp/mut')
    shutil.rmtree(copy)
    shutil.copytree('/repo', copy, symlinks=True, ignore=shutil.ignore_patterns('.git'))
    out = copy + '.out'
    rec = {'module': module, 'line': line, 'kind': kind, 'old': old, 'new': new}
    try:
        with open(f'{copy}/factorio_sat/{module}.py', 'w') as f:
            f.write(text)
        p = plant.run([sys.executable, '-c', f'import factorio_sat.{module.replace("/", ".")}'], cwd=copy)
        if p.returncode:
            rec['result'] = 'broken'
            return rec
        stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        rec['tests'] = stable <= plant.tests(copy)[0]
        if not rec['tests'] and not base['all']:
            rec['result'] = 'tests'
            return rec
        env = dict(plant.ENV, VERIF_REPO=copy, VERIF_SEED='1', VERIF_TIER='quick', VF_FAILFAST='1', VF_OUT=out, VF_JOBS=base['jobs'])
        for c in checks:
            t = time.time()
            p = subprocess.run([sys.executable, os.path.join(base['verif'], 'run.py'), c], cwd=base['verif'], env=env, text=True,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode == 1:
                rec.update(result='caught', by=c, t=round(time.time() - t), why=next((x for x in p.stdout.splitlines() if x.startswith('# ')), '')[:200])
                return rec
            if p.returncode != 0:
                rec.setdefault('errors', []).append((c, p.stdout[-600:]))
        rec['result'] = 'survived' if rec['tests'] else 'tests'
        return rec
    finally:
        shutil.rmtree(copy, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)


def main():
    args = sys.argv[1:]
    opt = lambda name, d: args[args.index(name) + 1] if name in args else d
    module = args[0]
    n, seed, jobs = int(opt('--n', 40)), int(opt('--seed', 1)), int(opt('--jobs', 4))
    os.makedirs('/tmp/mut', exist_ok=True)
    all_m = mutants(open(f'/repo/factorio_sat/{module}.py').read())
    only = opt('--kinds', '')
    if only:
        all_m = [m for m in all_m if m[1] in only.split(',')]
    lines = opt('--lines', '')
    if lines:
        a, b = map(int, lines.split('-'))
        all_m = [m for m in all_m if a <= m[2] <= b]
    random.Random(seed).shuffle(all_m)
    picked = all_m[:n]
    print(f'{module}: {len(all_m)} mutants, trying {len(picked)}', flush=True)
    checks = opt('--checks', COVER[module].replace(' ', ',')).split(',')
    path = opt('--out', f'/tmp/mut/{module}.jsonl')
    verif = opt('--verif', ROOT)
    base = {'verif': verif, 'all': '--all' in args, 'jobs': str(max(1, 8 // jobs))}
    lock = threading.Lock()

    def work():
        while True:
            with lock:
                if not picked:
                    return
                m = picked.pop(0)
            r = trial(module, m, checks, base)
            with lock:
                with open(path, 'a') as f:
                    f.write(json.dumps(r) + '\n')
                print(r['result'], r.get('by', ''), r['line'], r['kind'], '|', r['old'][:70].replace('\n', ' '), '->', r['new'][:70].replace('\n', ' '), flush=True)
    ts = [threading.Thread(target=work) for _ in range(jobs)]
    [t.start() for t in ts]
    [t.join() for t in ts]


if __name__ == '__main__':
    main()

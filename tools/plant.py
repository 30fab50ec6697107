#!/opt/venv/bin/python
"""Makes and judges planted bugs: plant.py SPEC.py [ID...]

SPEC.py defines BUGS, a list of dicts: id, property, edits [(file, old, new)], demo, needs, breaks.
For each one, in a scratch copy of /repo under /tmp: apply the edit, run the repository's tests, run the demo with
and without the change, and keep it as seeded/<id>/ when everything holds. Then run the property's check against it
(--no-check: skip that; --check-only: only that, from the kept patch)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
DEMO_SH = '#!/bin/bash\nexec env PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV, **kw)


def tests(copy):
    runner = open('/opt/vp/run_unittest.py').read().replace("ROOT = '/repo'", f'ROOT = {copy!r}')
    path = copy + '.runner.py'
    open(path, 'w').write(runner)
    lines = copy + '.lines'
    try:
        run([sys.executable, path, lines], cwd=copy, timeout=90)
    except subprocess.TimeoutExpired:
        pass
    if not os.path.exists(lines):
        open(lines, 'w').close()
    passed = {line[5:].strip() for line in open(lines) if line.startswith('PASS ')}
    failed = {line[5:].strip() for line in open(lines) if line.startswith('FAIL ')}
    os.unlink(path)
    os.unlink(lines)
    return passed, failed


def demo(copy, folder):
    try:
        return run(['bash', os.path.join(folder, 'demo.sh')], cwd=copy, timeout=300)
    except subprocess.TimeoutExpired:
        return None


def check(copy, prop):
    start = time.time()
    env = dict(ENV, VERIF_REPO=copy, VERIF_SEED='1', VERIF_TIER='quick')
    p = subprocess.run([sys.executable, os.path.join(ROOT, 'run.py'), prop], cwd=ROOT, env=env, text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    lines = [line for line in p.stdout.splitlines() if line.startswith('VIOLATION')]
    return f'{prop} exit={p.returncode} {time.time() - start:.0f}s {(lines or ["-"])[0][:150]}'


def main():
    flags = [a for a in sys.argv[1:] if a.startswith('--')]
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    space = {}
    exec(open(args[0]).read(), space)
    for bug in space['BUGS']:
        if args[1:] and bug['id'] not in args[1:]:
            continue
        copy = tempfile.mkdtemp(prefix='plant')
        shutil.rmtree(copy)
        shutil.copytree('/repo', copy, symlinks=True)
        work = copy + '.seed'
        os.makedirs(work)
        try:
            open(work + '/demo.sh', 'w').write(DEMO_SH)
            open(work + '/demo.py', 'w').write('import os\nimport sys\nsys.path.insert(0, os.getcwd())\n' + bug['demo'].lstrip('\n'))
            clean = demo(copy, work)
            for name, old, new in bug['edits']:
                path = os.path.join(copy, 'factorio_sat', name)
                text = open(path).read()
                if text.count(old) != 1:
                    print(bug['id'], 'EDIT does not match once:', name, text.count(old))
                    break
                open(path, 'w').write(text.replace(old, new))
            else:
                diff = subprocess.run(['git', 'diff'], cwd=copy, stdout=subprocess.PIPE, text=True).stdout
                open(work + '/patch.diff', 'w').write(diff)
                json.dump({'property': bug['property'], 'needs': bug['needs'], 'what_it_breaks': bug['breaks']},
                          open(work + '/meta.json', 'w'), indent=1)
                passed, failed = tests(copy)
                broken = demo(copy, work)
                ok = clean is not None and clean.returncode == 0 and (broken is None or broken.returncode != 0) and len(passed) == 126 and not failed
                print(bug['id'], bug['property'], 'OK' if ok else 'NOT KEPT', f'tests={len(passed)}/{len(failed)}',
                      f'clean={clean and clean.returncode} broken={broken and broken.returncode}',
                      repr((broken.stdout if broken else 'timeout')[-150:]), flush=True)
                if clean is None or clean.returncode:
                    print('   clean output:', (clean.stdout if clean else 'timeout')[-600:])
                if failed:
                    print('   failed:', list(failed)[:4])
                if ok:
                    target = os.path.join(ROOT, 'seeded', bug['id'])
                    shutil.rmtree(target, ignore_errors=True)
                    shutil.copytree(work, target)
                if ok and '--no-check' not in flags:
                    print('   ', check(copy, bug['property']), flush=True)
        finally:
            shutil.rmtree(copy, ignore_errors=True)
            shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    main()

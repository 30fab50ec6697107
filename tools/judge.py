#!/opt/venv/bin/python
"""Runs checks against the planted bugs: judge.py [--all-checks] [ID...]; each in its own scratch copy of /repo."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plant import ROOT, check  # noqa: E402


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith('--')] or sorted(os.listdir(os.path.join(ROOT, 'seeded')))
    for ident in ids:
        folder = os.path.join(ROOT, 'seeded', ident)
        copy = tempfile.mkdtemp(prefix='judge')
        shutil.rmtree(copy)
        shutil.copytree('/repo', copy, symlinks=True)
        try:
            p = subprocess.run(['git', 'apply', folder + '/patch.diff'], cwd=copy, stderr=subprocess.PIPE, text=True)
            if p.returncode:
                print(ident, 'patch does not apply', p.stderr[:100])
                continue
            own = json.load(open(folder + '/meta.json'))['property']
            props = [f'C{i:02}' for i in range(1, 26)] if '--all-checks' in sys.argv else [own]
            for prop in props:
                print(ident, 'own' if prop == own else '   ', check(copy, prop), flush=True)
        finally:
            shutil.rmtree(copy, ignore_errors=True)


if __name__ == '__main__':
    main()

#!/opt/venv/bin/python
"""usage: run.py <PROPERTY> [--tier quick|thorough] [--seed N]  |  run.py --replay FILE"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
FIXED = {
    'PYTHONHASHSEED': '0',
    'PYTHONDONTWRITEBYTECODE': '1',
    'SDL_VIDEODRIVER': 'dummy',
    'SDL_AUDIODRIVER': 'dummy',
    'PYGAME_HIDE_SUPPORT_PROMPT': '1',
    'OPENBLAS_NUM_THREADS': '1',
    'OMP_NUM_THREADS': '1',
}


def main():
    if any(os.environ.get(k) != v for k, v in FIXED.items()):
        os.environ.update(FIXED)
        python = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
        os.execv(python, [python, os.path.abspath(__file__)] + sys.argv[1:])
    sys.path.insert(0, HERE)
    from vf import core
    core.bootstrap()
    args = sys.argv[1:]
    if args == ['--selftest']:
        sys.exit(core.selftest())
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    if '--tier' in args:
        i = args.index('--tier')
        tier = args[i + 1]
        del args[i:i + 2]
    if '--seed' in args:
        i = args.index('--seed')
        seed = int(args[i + 1])
        del args[i:i + 2]
    if args and args[0] == '--replay':
        sys.exit(core.replay(args[1]))
    if len(args) != 1 or tier not in ('quick', 'thorough'):
        print(__doc__)
        sys.exit(2)
    sys.exit(core.run(args[0], tier, seed))


if __name__ == '__main__':
    main()

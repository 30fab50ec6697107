"""Runs calculate_optimal under the crash shim: one request per line on stdin, one answer per line on stdout.

Started with LD_PRELOAD=crash.so; every request is run in a forked child (and process group) of its own."""
import ctypes
import importlib
import io
import json
import os
import signal
import sys
import time
import traceback

MODES = {'none': 0, 'kill': 1, 'torn': 2, 'fail': 3, 'full': 4, 'interrupt': 5}


def child(req, shim):
    from vf import optdb
    os.setpgid(0, 0)
    signal.signal(signal.SIGINT, signal.default_int_handler)
    world = optdb.World.__new__(optdb.World)
    world.nets, world.by_key, world.log = req['nets'], req['by_key'], req['log']
    mod = importlib.import_module('factorio_sat.calculate_optimal')
    os.chdir(req['cwd'])
    sys.argv = ['calculate_optimal'] + req['argv']
    sys.stdout = open(req['log'] + '.out', 'w')
    sys.stderr = open(req['log'] + '.err', 'w')
    world.install(mod)
    shim.vf_arm((req['cwd'] + '/').encode(), req['log'].encode(), req['k'], MODES[req['mode']])
    code = 0
    try:
        mod.main()
    except BaseException:
        code = 3
        traceback.print_exc()
    shim.vf_arm(b'/nonexistent', b'', 0, 0)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)


def main():
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from vf import core
    core.bootstrap()
    importlib.import_module('factorio_sat.calculate_optimal')
    shim = ctypes.CDLL(os.environ['LD_PRELOAD'])
    shim.vf_arm.argtypes = [ctypes.c_char_p, ctypes.c_char_p, ctypes.c_long, ctypes.c_int]
    for line in sys.stdin:
        req = json.loads(line)
        pid = os.fork()
        if pid == 0:
            child(req, shim)
        end = time.time() + req['timeout']
        status = None
        while time.time() < end:
            p, status = os.waitpid(pid, os.WNOHANG)
            if p:
                break
            time.sleep(0.003)
        else:
            status = None
        for target in (-pid, pid):
            try:
                os.kill(target, signal.SIGKILL)
            except OSError:
                pass
        if status is None:
            os.waitpid(pid, 0)
        print(json.dumps({'status': status, 'killed': status is not None and os.WIFSIGNALED(status)}), flush=True)


if __name__ == '__main__':
    main()

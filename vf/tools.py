"""Running the project's command line tools in a forked child (contained, with a time limit)."""
import importlib
import io
import json
import os
import pickle
import select
import signal
import sys
import tempfile
import time
import traceback

from .core import Violation, die_with_parent, in_repo


class Timeout(Exception):
    """Inconclusive: the tool did not finish in time."""


class Result:
    def __init__(self, out, err, exc, exc_text, from_repo, code, extra=None):
        self.extra = extra        # what collect() returned in the child
        self.out = out            # stdout text
        self.err = err
        self.exc = exc            # exception class name or None
        self.exc_text = exc_text
        self.from_repo = from_repo
        self.code = code          # SystemExit code, or None

    @property
    def lines(self):
        return self.out.splitlines()


def forked(fn, timeout):
    """Run fn() in a forked child, return its (picklable) value; Timeout / RuntimeError otherwise."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            os.setpgid(0, 0)
            die_with_parent()
            data = pickle.dumps(fn())
            with os.fdopen(w, 'wb') as f:
                f.write(data)
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    end = time.time() + timeout
    timed_out = False
    while True:
        left = end - time.time()
        ready, _, _ = select.select([r], [], [], max(0, left))
        if not ready:
            timed_out = True
            break
        b = os.read(r, 1 << 20)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    if timed_out:
        for target in (-pid, pid):
            try:
                os.kill(target, signal.SIGKILL)
            except OSError:
                pass
    _, status = os.waitpid(pid, 0)
    if timed_out:
        raise Timeout()
    if not chunks:
        if os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGILL):
            raise Violation(f'the process died with signal {os.WTERMSIG(status)}')
        raise RuntimeError(f'forked child failed, status {status}')
    return pickle.loads(b''.join(chunks))


class Enough(BaseException):
    """The reader has seen enough lines (as when piping into head)."""


class _Head(io.TextIOWrapper):
    """A standard output that stops the tool after a number of lines."""
    limit = None
    seen = 0

    def write(self, text):
        n = super().write(text)
        self.seen += text.count('\n')
        if self.limit is not None and self.seen >= self.limit:
            raise Enough()
        return n


def run(module, argv, stdin='', timeout=120, cwd=None, setup=None, max_lines=None, collect=None):
    """Run factorio_sat.<module>.main() with the given arguments, as the console script does.

    With max_lines the tool is stopped once it has printed that many lines (exc == 'Enough')."""
    mod = importlib.import_module('factorio_sat.' + module)

    def body():
        out = _Head(io.BytesIO(), encoding='utf-8', write_through=True)
        out.limit = max_lines
        err = io.TextIOWrapper(io.BytesIO(), encoding='utf-8', write_through=True)
        sys.argv = [module] + [str(a) for a in argv]
        sys.stdin = io.TextIOWrapper(io.BytesIO(stdin.encode('utf-8')), encoding='utf-8')
        exc = text = code = None
        repo = False
        if cwd is not None:
            os.chdir(cwd)
        sys.stdout, sys.stderr = out, err
        try:
            if setup is not None:
                setup(mod)
            mod.main()
        except SystemExit as e:
            exc, code, text = 'SystemExit', e.code, ''
        except BaseException as e:
            exc = type(e).__name__
            text = ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-3:])
            repo = in_repo(e.__traceback__)
        out.limit = None
        sys.stdout.flush()
        extra = None if collect is None else collect()
        return (out.buffer.getvalue().decode('utf-8'), err.buffer.getvalue().decode('utf-8', 'replace'), exc, text, repo, code, extra)

    return Result(*forked(body, timeout))


def need_ok(res, what, allow=()):
    """The tool had to finish normally (or by end of input, for the stream tools)."""
    if res.exc is None or res.exc in allow:
        return res
    raise Violation(f'{what} failed with {res.exc} {res.code if res.exc == "SystemExit" else ""}: {res.exc_text}{res.err[-500:] if res.exc == "SystemExit" else ""}')


class Scratch:
    """A scratch directory for one case."""

    def __enter__(self):
        self._d = tempfile.TemporaryDirectory(prefix='case-')
        self.path = self._d.name
        return self

    def __exit__(self, *_):
        self._d.cleanup()

    def file(self, name, text):
        p = os.path.join(self.path, name)
        with open(p, 'w', encoding='utf-8') as f:
            f.write(text)
        return p

    def join(self, name):
        return os.path.join(self.path, name)


def network_text(network):
    return ''.join(' '.join('-1' if c is None else str(c) for side in node for c in side) + '\n' for node in network)


def parse_layouts(text):
    from . import conv
    res = []
    for line in text.splitlines():
        res.append(conv.rows_of_solution(json.loads(line)))
    return res

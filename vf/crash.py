"""Running code in a forked process that dies or fails at a chosen point."""
import gc
import os
import resource
import signal
import sys
import time

DIED = 77


class Counter:
    """Counts call boundaries and dies at one of them."""

    def __init__(self, at=None):
        self.n = 0
        self.at = at

    def __call__(self, frame, event, arg):
        if self.at is not None and self.n == self.at:
            os._exit(DIED)
        self.n += 1


def count(fn):
    """How many points `fn` passes through."""
    counter = Counter()
    sys.setprofile(counter)
    try:
        fn()
    finally:
        sys.setprofile(None)
    return counter.n


def forked(fn, timeout=60):
    """Run `fn` in a copy of this process: how it ended.

    'ok', 'error' (it raised), 'died' or 'killed' (by a signal)."""
    pid = os.fork()
    if not pid:
        code = 1
        try:
            gc.disable()
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 1)
            os.dup2(devnull, 2)
            fn()
            code = 0
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    end = time.time() + timeout
    while True:
        got, status = os.waitpid(pid, os.WNOHANG)
        if got:
            break
        if time.time() > end:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            return 'stuck'
        time.sleep(.001)
    if os.WIFSIGNALED(status):
        return 'killed'
    return {0: 'ok', 1: 'error', DIED: 'died'}[os.WEXITSTATUS(status)]


def dying_at(fn, k):
    def run():
        counter = Counter(k)
        sys.setprofile(counter)
        fn()
        sys.setprofile(None)
    return run


def with_room(fn, size, kill):
    """No file may grow beyond `size` bytes: the write fails, or the
    process is killed on the spot."""
    def run():
        signal.signal(signal.SIGXFSZ,
                      signal.SIG_DFL if kill else signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (size, size))
        fn()
    return run

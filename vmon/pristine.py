"""Runs a function in a process in which the library has not been used yet: a fork of a fork made before its first use."""
import os
import pickle
import random
import signal
import struct

_pipe = None


def start():
    """To be called before the library is used; the fork made here only ever forks again."""
    global _pipe
    if _pipe is not None:
        return
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    if os.fork() == 0:
        try:
            os.close(w1)
            os.close(r2)
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            while (job := _read(r1)) is not None:
                pid = os.fork()
                if pid == 0:
                    f, a, seed = pickle.loads(job)
                    random.seed(seed)
                    try:
                        out = (True, f(*a))
                    except Exception as e:
                        out = (False, f"{type(e).__name__}: {e}")
                    _write(w2, pickle.dumps(out))
                    os._exit(0)
                if os.waitpid(pid, 0)[1] != 0:
                    _write(w2, pickle.dumps((False, "the process died")))
        finally:
            os._exit(0)
    os.close(r1)
    os.close(w2)
    _pipe = (r2, w1)


def call(f, *a):
    """f(*a), run by a process that has not used the library."""
    start()
    _write(_pipe[1], pickle.dumps((f, a, random.random())))
    ok, val = pickle.loads(_read(_pipe[0]))
    if not ok:
        raise RuntimeError(val)
    return val


def _read(fd):
    head = _exact(fd, 8)
    return None if head is None else _exact(fd, struct.unpack("<Q", head)[0])


def _exact(fd, n):
    out = b""
    while len(out) < n:
        x = os.read(fd, n - len(out))
        if not x:
            return None
        out += x
    return out


def _write(fd, data):
    data = struct.pack("<Q", len(data)) + data
    while data:
        data = data[os.write(fd, data):]

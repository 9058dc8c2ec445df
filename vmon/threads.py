"""Now and then a case makes its calls from three threads in turn, one call at a time: which thread a router, a session
or a handshake is used from makes no difference."""
import os
import queue
import threading

EVERY = 24  # every so many cases
COUNT = 3
active = False
_turn = 0
_inbox = []
_outbox = queue.SimpleQueue()


def _serve(inbox):
    while True:
        f, a, kw = inbox.get()
        try:
            out = (True, f(*a, **kw))
        except BaseException as e:
            out = (False, e)
        f = a = kw = None
        _outbox.put(out)
        out = None


def start(on):
    global active, _turn
    active, _turn = on, 0
    if on and not _inbox:
        for _ in range(COUNT):
            box = queue.SimpleQueue()
            _inbox.append(box)
            threading.Thread(target=_serve, args=(box,), daemon=True).start()


def abandon():
    """After a watchdog (the threads may be stuck) and in a forked process (there are none): later cases get others."""
    global active, _outbox
    active = False
    _inbox.clear()
    _outbox = queue.SimpleQueue()


def run(f, a, kw):
    global _turn
    _turn = (_turn + 1) % COUNT
    _inbox[_turn].put((f, a, kw))
    ok, val = _outbox.get()
    if ok:
        return val
    raise val


os.register_at_fork(after_in_child=abandon)

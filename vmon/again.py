"""In some cases a message equal to the last one of its type is handed over as the very same object: whether an application
builds a message anew or hands over one it has makes no difference."""
EVERY = 4  # every so many cases
active = False
used = 0
_last = {}
_count = 0


def start(on):
    global active, used, _count
    active, used, _count = on, 0, 0
    _last.clear()


def swap(m):
    """The message to hand over in place of m."""
    global _count, used
    t = type(m)
    old = _last.get(t)
    _last[t] = m
    if old is None or old is m or getattr(old, "request_id", None) != getattr(m, "request_id", None):
        return m
    if getattr(m, "payload", None) is not None or getattr(old, "payload", None) is not None:
        return m
    try:
        if repr(old.marshal()) != repr(m.marshal()):  # repr() copes with lists that hold themselves
            return m
    except Exception:
        return m
    _count += 1
    if _count % 4 == 0:
        return m
    _last[t] = old
    used += 1
    return old

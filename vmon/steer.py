"""Taking an id counter close to 2**53 by moving the integer (or itertools.count) that holds it.

Nothing is assumed about where it is kept: every attribute (in __dict__ or a slot) of the library objects reachable from
`root`, also through lists, tuples and dicts, that fits the last issued id is tried, and the one that counts is the one
that moves what is issued next. The others are put back."""
import itertools

COUNT = type(itertools.count())
TOP = 2**53


def landmark(rng):
    """Where a counter may go wrong: mostly 2**53, else another round number."""
    k = rng.random()
    if k < 0.6:
        return TOP
    if k < 0.85:
        return 2 ** rng.choice([15, 16, 24, 30, 31, 31, 32, 32, 33, 40, 48, 52, rng.randint(10, 52)])
    return 10 ** rng.randint(4, 15) if k < 0.95 else rng.randint(1000, TOP)


def attributes(obj):
    names = list(getattr(obj, "__dict__", ()))
    for cls in type(obj).__mro__:
        slots = cls.__dict__.get("__slots__", ())
        for s in (slots,) if isinstance(slots, str) else slots:
            if s not in ("__dict__", "__weakref__"):
                names.append(f"_{cls.__name__.lstrip('_')}{s}" if s.startswith("__") and not s.endswith("__") else s)
    return names


class Attr:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def get(self):
        return getattr(self.obj, self.name, None)

    def set(self, v):
        object.__setattr__(self.obj, self.name, v)


class Item:
    def __init__(self, obj, key):
        self.obj, self.key = obj, key

    def get(self):
        return self.obj[self.key]

    def set(self, v):
        self.obj[self.key] = v


def cells(root, limit=400):
    seen, todo, out = set(), [root], []
    while todo and len(seen) < limit:
        obj = todo.pop(0)
        if id(obj) in seen:
            continue
        seen.add(id(obj))
        if isinstance(obj, (dict, list)):
            keys = list(obj) if isinstance(obj, dict) else range(len(obj))
            found = [Item(obj, k) for k in keys]
        elif type(obj).__module__.split(".")[0] == "wampproto":
            found = [Attr(obj, n) for n in attributes(obj)]
        elif isinstance(obj, tuple):
            todo += obj
            continue
        else:
            continue
        for c in found:
            v = c.get()
            if type(v) is int or isinstance(v, COUNT):
                out.append(c)
            else:
                todo.append(v)
    # counters are attributes of few objects: the plain attributes come first
    return sorted(out, key=lambda c: isinstance(c, Item))


def nextof(c):
    return int(repr(c)[6:-1].split(",")[0])


def steer(root, last, target, issue, tries=6):
    """Make the id after `target` the next one `issue` gives. -> (moved, id issued last)"""
    for c in cells(root):
        old = c.get()
        if isinstance(old, COUNT):
            if nextof(old) != last + 1:
                continue
            new = itertools.count(target + 1)
        elif old in (last, last + 1):
            new = target + old - last
        else:
            continue
        try:
            c.set(new)
        except (AttributeError, TypeError):
            continue
        got = issue()
        if got in (target + 1, 1):
            return True, got
        if isinstance(old, COUNT):
            c.set(itertools.count(got + 1) if nextof(old) == last + 1 else old)
        elif c.get() == new:
            c.set(old)
        last = got
        tries -= 1
        if not tries:
            break
    return False, last

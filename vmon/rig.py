"""Shared helpers: calling the library without losing its refusals, building messages, reading answers."""
from vmon.core import Violation, short
from vmon import again, gen, threads
from vmon.gen import fresh

from wampproto import messages as M
from wampproto import types as T


class Res:
    """Outcome of a library call: a value, or a refusal (any exception)."""

    __slots__ = ("ok", "val", "exc")

    def __init__(self, ok, val, exc):
        self.ok, self.val, self.exc = ok, val, exc

    def __repr__(self):
        if self.ok:
            return f"returned {describe(self.val)}"
        return f"refused with {type(self.exc).__name__}: {short(str(self.exc), 160)}"


def attempt(f, *a, **kw):
    a = [again.swap(x) if again.active and isinstance(x, M.Message) else fresh(x) for x in a]
    try:
        return Res(True, threads.run(f, a, kw) if threads.active else f(*a, **kw), None)
    except (MemoryError, OSError, Violation):
        raise
    except Exception as e:
        return Res(False, None, e)


def describe(v):
    if isinstance(v, T.MessageWithRecipient):
        return f"to {v.recipient}: {describe(v.message)}"
    if isinstance(v, T.Publication):
        return f"event={describe(v.event)} recipients={v.recipients} ack={describe(v.ack)}"
    if isinstance(v, M.Message):
        try:
            return f"{type(v).__name__}{short(v.marshal(), 220)}"
        except Exception:
            return type(v).__name__
    return short(v, 220)


PEOPLE = [
    ("realm1", "john", "anonymous"), ("realm1", "john", "anonymous"), ("realm1", "alice", "user"), ("realm2", "john", "anonymous"),
    ("realm1", None, None), ("realm1", "", ""), ("", "", "trusted"), ("realm1", "john", "admin"), ("Realm1", "JOHN", "Anonymous"),
    ("realm3", "alice", "user"), ("realm1", "bob", "anonymous"),
]


def details(sid, realm=None, authid="john", role="anonymous", nth=0):
    """Who a session is makes no difference to what a broker or dealer does for it: sessions are of all sorts."""
    if realm is None:
        realm, authid, role = PEOPLE[(sid * 7 + sid // 11 + nth) % len(PEOPLE)]
    return T.SessionDetails(fresh(sid), fresh(realm), fresh(authid), fresh(role))


def sub(rid, topic, options=None):
    return M.Subscribe(M.SubscribeFields(fresh(rid), fresh(topic), options))


def unsub(rid, sid):
    return M.Unsubscribe(M.UnsubscribeFields(fresh(rid), fresh(sid)))


def pub(rid, topic, args=None, kwargs=None, options=None):
    return M.Publish(M.PublishFields(fresh(rid), fresh(topic), args, kwargs, options))


def reg(rid, proc, options=None):
    return M.Register(M.RegisterFields(fresh(rid), fresh(proc), options))


def unreg(rid, regid):
    return M.Unregister(M.UnregisterFields(fresh(rid), fresh(regid)))


def opaque(args):
    """("opaque", data, serializer id) stands in for arguments as an opaque payload."""
    return type(args) is tuple and len(args) == 3 and args[0] == "opaque"


def same_body(m, args, kwargs):
    """The message carries these arguments, or this opaque payload."""
    if opaque(args):
        return m.payload_is_binary() and gen.same(m.payload, args[1]) and gen.same(m.payload_serializer, args[2]) and not m.args and not m.kwargs
    return not (hasattr(m, "payload_is_binary") and m.payload_is_binary()) and gen.same_payload(m.args, m.kwargs, args, kwargs)


def body_of(m):
    return ("opaque", m.payload, m.payload_serializer) if m.payload_is_binary() else (m.args, m.kwargs)


def call(rid, proc, args=None, kwargs=None, options=None, **kw):
    if opaque(args):
        args, kwargs, kw = None, None, dict(kw, payload=args[1], serializer=args[2], binary=True)
    return M.Call(M.CallFields(fresh(rid), fresh(proc), args, kwargs, options, **kw))


def yield_(rid, args=None, kwargs=None, options=None, **kw):
    if opaque(args):
        args, kwargs, kw = None, None, dict(kw, payload=args[1], serializer=args[2], binary=True)
    return M.Yield(M.YieldFields(fresh(rid), args, kwargs, options, **kw))


def error(mtype, rid, uri, args=None, kwargs=None, det=None):
    return M.Error(M.ErrorFields(fresh(mtype), fresh(rid), fresh(uri), args, kwargs, det))


INVOCATION = 68
CALL = 48
REGISTER = 64


def reply(res, cls):
    """(message, recipient) if the outcome is one addressed message of class cls, else None."""
    if not res.ok or not isinstance(res.val, T.MessageWithRecipient):
        return None
    m = res.val.message
    return (m, res.val.recipient) if isinstance(m, cls) else None


def refused(res):
    """An exception, or a router ERROR addressed to somebody."""
    return (not res.ok) or reply(res, M.Error) is not None


def need(cond, msg, *parts):
    if not cond:
        raise Violation(msg.format(*[short(p, 240) if not isinstance(p, (Res, str)) else p for p in parts]))


def pick(rng, pairs):
    """Weighted choice from [(weight, value), ...]."""
    total = sum(w for w, _ in pairs)
    x = rng.random() * total
    for w, v in pairs:
        x -= w
        if x < 0:
            return v
    return pairs[-1][1]


def session_ids(rng, n):
    out = []
    while len(out) < n:
        r = rng.random()
        s = rng.randint(1, 12) if r < 0.5 and n < 10 else gen.ident(rng) if r < 0.9 else rng.randint(1, gen.ID_MAX)
        if s not in out:
            out.append(s)
    return out


NEAR = [s * d for d in (1, 2, 10, 100, 128, 256, 1000, 1024, 4096, 10**4, 2**15, 2**16, 10**5, 10**6, 2**20, 2**24, 10**9,
                        2**30, 2**31, 2**32, 2**48, 2**52) for s in (1, -1)]


def near(pool, n):
    """An id that differs from one of the pool by a round amount; None if it is no id."""
    if not pool:
        return None
    i, d = divmod(n, len(NEAR))
    v = pool[i % len(pool)] + NEAR[d]
    return v if is_id(v) else None


def gen_near(rng):
    return rng.randrange(8) * len(NEAR) + rng.randrange(len(NEAR))


def is_id(v):
    return type(v) is int and 1 <= v <= gen.ID_MAX

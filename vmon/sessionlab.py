"""A client session under random and bounded-exhaustive exchanges, with a shadow of what is outstanding.

Operations:
  ("send", kind, id, target, opts, args, kwargs)   kind: call register unregister publish subscribe unsubscribe
  ("chunk", n, opts, args, kwargs)             more of the n-th outstanding call that is not completely sent
  ("recv", kind, which, other, det, args, kwargs)  kind: result registered unregistered published subscribed unsubscribed
                                                   error:<request kind> invocation event
  ("goodbye", what, details, reason, args, kwargs) what: sent goodbye abort; the latter two end the exchange
  ("yield", which, progress, args, kwargs)  ("fail", which, args, kwargs)     answers of the application
`which`: ("out", n) the n-th outstanding id of that kind, ("cross", kind, n) the n-th outstanding id of another kind,
("done", n) the n-th settled one, ("near", n) one a round amount off an outstanding one, ("raw", id).
"""
import json

import cbor2
import msgpack

from vmon import gen
from vmon.rig import INVOCATION, M, attempt, call, error, gen_near, near, need, pick, pub, reg, sub, unreg, unsub, yield_
from wampproto import serializers
from wampproto.session import WAMPSession

SER = [serializers.JSONSerializer, serializers.MsgPackSerializer, serializers.CBORSerializer]
RAW = [lambda v: json.dumps(v), lambda v: msgpack.packb(v), lambda v: cbor2.dumps(v)]
REQ = {"call": 48, "register": 64, "unregister": 66, "publish": 16, "subscribe": 32, "unsubscribe": 34}
REPLY = {"result": "call", "registered": "register", "unregistered": "unregister", "published": "publish",
         "subscribed": "subscribe", "unsubscribed": "unsubscribe"}
CODE = {"result": 50, "registered": 65, "unregistered": 67, "published": 17, "subscribed": 33, "unsubscribed": 35,
        "invocation": 68, "event": 36, "error": 8}
CLS = {"result": M.Result, "registered": M.Registered, "unregistered": M.Unregistered, "published": M.Published,
       "subscribed": M.Subscribed, "unsubscribed": M.Unsubscribed, "invocation": M.Invocation, "event": M.Event,
       "error": M.Error}


def tail(wire, args, kwargs):
    if args is not None or kwargs is not None:
        wire.append([] if args is None else args)
    if kwargs is not None:
        wire.append(kwargs)
    return wire


def wire_of(kind, rid, other, det, args, kwargs):
    """The message a router would send, laid out by hand."""
    name = kind.split(":")[0]
    if name == "error":
        k = kind.split(":")[1]
        return tail([8, REQ[k] if k in REQ else int(k), rid, det, gen.nth_error_uri(7 * other + rid)], args, kwargs)
    if name == "result":
        return tail([50, rid, det], args, kwargs)
    if name == "invocation":
        return tail([68, rid, other, det], args, kwargs)
    if name == "event":
        return tail([36, rid, other, det], args, kwargs)
    if name in ("registered", "published", "subscribed"):
        return [CODE[name], rid, other]
    return [CODE[name], rid]


def message_of(wire):
    c = wire[0]
    a = lambda i: wire[i] if len(wire) > i else None
    if c == 50:
        return M.Result(M.ResultFields(wire[1], a(3), a(4), wire[2]))
    if c == 68:
        return M.Invocation(M.InvocationFields(wire[1], wire[2], a(4), a(5), wire[3]))
    if c == 36:
        return M.Event(M.EventFields(wire[1], wire[2], a(4), a(5), wire[3]))
    if c == 8:
        return M.Error(M.ErrorFields(wire[1], wire[2], wire[4], a(5), a(6), wire[3]))
    if c == 65:
        return M.Registered(M.RegisteredFields(*wire[1:]))
    if c == 17:
        return M.Published(M.PublishedFields(*wire[1:]))
    if c == 33:
        return M.Subscribed(M.SubscribedFields(*wire[1:]))
    if c == 67:
        return M.Unregistered(M.UnregisteredFields(*wire[1:]))
    return M.Unsubscribed(M.UnsubscribedFields(*wire[1:]))


def check_content(msg, wire, what):
    """The message handed to the application says what the router sent."""
    name = {v: k for k, v in CODE.items()}[wire[0]]
    need(isinstance(msg, CLS[name]), "{} was handed over as {}", what, type(msg).__name__)
    a = lambda i: wire[i] if len(wire) > i else None
    f = {
        50: lambda: (("request_id", 1), ("details", 2), ("args", 3), ("kwargs", 4)),
        68: lambda: (("request_id", 1), ("registration_id", 2), ("details", 3), ("args", 4), ("kwargs", 5)),
        36: lambda: (("subscription_id", 1), ("publication_id", 2), ("details", 3), ("args", 4), ("kwargs", 5)),
        8: lambda: (("message_type", 1), ("request_id", 2), ("details", 3), ("uri", 4), ("args", 5), ("kwargs", 6)),
        65: lambda: (("request_id", 1), ("registration_id", 2)),
        17: lambda: (("request_id", 1), ("publication_id", 2)),
        33: lambda: (("request_id", 1), ("subscription_id", 2)),
        67: lambda: (("request_id", 1),),
        35: lambda: (("request_id", 1),),
    }[wire[0]]()
    for attr, i in f:
        if attr in ("args", "kwargs"):
            continue
        got = getattr(msg, attr)
        need(gen.none_or_same(got, a(i)), "{} was handed over with {} {} instead of {}", what, attr, got, a(i))
    if wire[0] in (50, 68, 36, 8):
        i = f[-2][1]
        need(gen.same_payload(msg.args, msg.kwargs, a(i), a(i + 1)), "{} was handed over with {} {} instead of {} {}", what,
             msg.args, msg.kwargs, a(i), a(i + 1))


class SessionRun:
    faulty = False  # whether what the router says may fail to arrive

    def __init__(self, st, ser=0, direct=False):
        self.st = st
        self.ser = ser
        self.direct = direct
        self.s = WAMPSession(self.serializer())
        self.out = {k: {} for k in REQ}  # kind -> {id: target}
        self.done = {k: [] for k in REQ}
        self.unsent = set()  # calls of which more is to be sent
        self.live = set()  # registrations
        self.ended_regs = []
        self.subs = set()
        self.ended_subs = []
        self.invs = []  # open invocations, in order
        self.inv_reg = {}  # the registration an invocation came under
        self.finished = []
        self.pending_end = {"unregister": {}, "unsubscribe": {}}

    def serializer(self):
        return SER[self.ser]()

    # hooks
    def on_goodbye(self, sent, wire, res): pass
    def on_send(self, kind, rid, target, res): pass
    def on_reply(self, kind, req, rid, outstanding, wire, res): pass
    def on_invocation(self, rid, regid, expected, wire, res): pass
    def on_event(self, subid, expected, wire, res): pass
    def on_yield(self, rid, expected, progress, res): pass
    def on_fail(self, rid, expected, res): pass
    def finish(self): pass

    def play(self, ops):
        for op in ops:
            if op[0] == "config":
                continue
            getattr(self, "do_" + op[0])(*op[1:])
            if op[0] == "goodbye" and op[1] != "sent":
                return
        self.finish()

    def send(self, msg):
        return attempt(self.s.send_message, msg)

    def deliver(self, wire):
        if self.direct:
            m = message_of(wire)
            return attempt(self.s.receive_message, m)
        data = RAW[self.ser](wire)
        return attempt(self.s.receive, data)

    def do_goodbye(self, what, det, reason, args, kwargs):
        """Sent by the application ("sent"), or from the router: "goodbye" or "abort"."""
        if what == "sent":
            return self.on_goodbye(True, None, self.send(M.Goodbye(M.GoodbyeFields(dict(det), reason))))
        wire = [6, det, reason] if what == "goodbye" else tail([3, det, reason], args, kwargs)
        if self.direct:
            m = M.Goodbye(M.GoodbyeFields(det, reason)) if what == "goodbye" else M.Abort(M.AbortFields(det, reason, args, kwargs))
            res = attempt(self.s.receive_message, m)
        else:
            res = attempt(self.s.receive, RAW[self.ser](wire))
        self.on_goodbye(False, wire, res)

    def ids(self, kind, which):
        if which[0] == "raw":
            return which[1]
        if which[0] == "cross":
            pool = list(self.out[which[1]]) if which[1] in self.out else list(self.invs)
        elif which[0] == "done":
            pool = self.done[kind]
        elif which[0] == "near":
            return near(list(self.out[kind]), which[1])
        else:
            pool = list(self.out[kind])
        return pool[which[-1] % len(pool)] if pool else None

    def do_send(self, kind, rid, target, opts, args, kwargs):
        while rid in self.out[kind]:
            rid = rid % gen.ID_MAX + 1
        if kind == "call":
            m = call(rid, target, args, kwargs, dict(opts))
        elif kind == "register":
            m = reg(rid, target, dict(opts))
        elif kind == "subscribe":
            m = sub(rid, target, dict(opts))
        elif kind == "publish":
            m = pub(rid, target, args, kwargs, dict(opts))
        else:
            live = sorted(self.live if kind == "unregister" else self.subs)
            taken = set(self.out[kind].values())
            free = live if rid % 5 == 0 else [x for x in live if x not in taken]
            if not free:
                return
            target = free[target % len(free)]
            m = (unreg if kind == "unregister" else unsub)(rid, target)
        res = self.send(m)
        self.on_send(kind, rid, target, res)
        if kind == "call":
            (self.unsent.add if opts.get("progress") else self.unsent.discard)(rid)
        if res.ok and (kind != "publish" or opts.get("acknowledge")):
            self.out[kind][rid] = target

    def do_chunk(self, n, opts, args, kwargs):
        pool = [r for r in self.out["call"] if r in self.unsent]
        if pool:
            rid = pool[n % len(pool)]
            self.on_send("call", rid, self.out["call"][rid], self.send(call(rid, self.out["call"][rid], args, kwargs, dict(opts))))
            self.st.ev("further chunks sent")
            if not opts.get("progress"):
                self.unsent.discard(rid)

    def do_recv(self, kind, which, other, det, args, kwargs):
        name = kind.split(":")[0]
        if name == "invocation":
            return self._invocation(which, other, det, args, kwargs)
        if name == "event":
            return self._event(which, other, det, args, kwargs)
        req = REPLY.get(name) or kind.split(":")[1]
        if req not in REQ:
            rid = which[-1] + 1
            wire = wire_of(kind, rid, other, det, args, kwargs)
            return self.on_reply(kind, None, rid, False, wire, self.deliver(wire))
        rid = self.ids(req, which)
        if rid is None:
            return
        outstanding = rid in self.out[req]
        if name in ("unregistered", "unsubscribed") and outstanding:
            # what it ends has to be live still, or no honest router confirms it
            if self.out[req][rid] not in (self.live if req == "unregister" else self.subs):
                return
        if name == "registered" and outstanding and other in self.live:
            return
        wire = wire_of(kind, rid, other, det, args, kwargs)
        res = self.deliver(wire)
        self.on_reply(kind, req, rid, outstanding, wire, res)
        if not outstanding or (not res.ok and self.faulty):
            return
        # an honest reply has its effect, whatever the session said to it
        if name == "result" and det.get("progress"):
            return
        target = self.out[req].pop(rid)
        self.done[req].append(rid)
        if name == "registered":
            self.live.add(other)
        elif name == "subscribed":
            self.subs.add(other)
        elif name == "unregistered":
            self.live.discard(target)
            self.ended_regs.append(target)
        elif name == "unsubscribed":
            self.subs.discard(target)
            self.ended_subs.append(target)

    def _pick(self, which, live, ended, reqs):
        k, n = which[0], which[-1]
        if k == "raw":
            return n
        if k == "near":
            return near(sorted(live), n)
        if k == "cross":  # an id that is known, but as something else
            pool = [i for i in reqs() if i not in live]
        else:
            pool = sorted(live) if k == "out" else ended
        return pool[n % len(pool)] if pool else None

    def _invocation(self, which, rid, det, args, kwargs):
        reqs = lambda: list(self.out["register"]) + self.done["register"] + sorted(self.subs)
        if which[0] == "more":  # a further chunk of an open invocation
            if not self.invs:
                return
            rid = self.invs[which[1] % len(self.invs)]
            which = ("raw", self.inv_reg[rid])
        regid = self._pick(which, self.live, self.ended_regs, reqs)
        if regid is None:
            return
        wire = wire_of("invocation", rid, regid, det, args, kwargs)
        res = self.deliver(wire)
        self.on_invocation(rid, regid, regid in self.live, wire, res)
        if res.ok and rid not in self.invs:
            self.invs.append(rid)
            self.inv_reg[rid] = regid

    def _event(self, which, pubid, det, args, kwargs):
        reqs = lambda: list(self.out["subscribe"]) + self.done["subscribe"] + sorted(self.live)
        subid = self._pick(which, self.subs, self.ended_subs, reqs)
        if subid is None:
            return
        wire = wire_of("event", subid, pubid, det, args, kwargs)
        res = self.deliver(wire)
        self.on_event(subid, subid in self.subs, wire, res)

    def _inv_id(self, which):
        k, n = which[0], which[-1]
        if k == "raw":
            return n
        if k == "near":
            return near(self.invs, n)
        if k == "cross":
            pool = [i for i in list(self.out["call"]) + sorted(self.live) if i not in self.invs]
        else:
            pool = self.invs if k == "out" else self.finished
        return pool[n % len(pool)] if pool else None

    def do_yield(self, which, progress, args, kwargs):
        rid = self._inv_id(which)
        if rid is None:
            return
        expected = rid in self.invs
        res = self.send(yield_(rid, args, kwargs, {} if progress is None else {"progress": progress}))
        self.on_yield(rid, expected, bool(progress), res)
        if res.ok and expected and not progress:
            self.invs.remove(rid)
            self.finished.append(rid)

    def do_fail(self, which, args, kwargs, det=None):
        rid = self._inv_id(which)
        if rid is None:
            return
        expected = rid in self.invs
        res = self.send(error(INVOCATION, rid, gen.nth_error_uri(7 * len(self.finished) + rid), args, kwargs, dict(det or {})))
        self.on_fail(rid, expected, res)
        if res.ok and expected:
            self.invs.remove(rid)
            self.finished.append(rid)


def small_id(rng):
    return rng.randint(1, 5) if rng.random() < 0.6 else gen.ident(rng)


def payload(rng):
    if rng.random() < 0.6:
        return rng.choice([(None, None), ([], None), ([1, "x"], None), (None, {"k": 1}), ([], {}), ([[]], {"a": [None]})])
    a, k = gen.opt_args(rng, binary=False, depth=1)
    return a, k


def gen_which(rng, kinds):
    k = pick(rng, [(70, "out"), (9, "cross"), (10, "done"), (6, "raw"), (5, "near")])
    if k == "near":
        return (k, gen_near(rng))
    if k == "cross":
        return (k, rng.choice(kinds), rng.randrange(8))
    return (k, gen.ident(rng) if k == "raw" else rng.randrange(8))


def make_gen(weights):
    """weights: calls, registrations, subscriptions, publications, invocations/yields, events."""
    wc, wr, ws, wp, wi, we = weights

    def gen_ops(rng, i, tier):
        ops = [("config", rng.randrange(3), rng.random() < 0.3)]
        n = rng.randint(2, 60) if rng.random() < 0.96 else 600
        kinds = sorted(REQ)
        for _ in range(n):
            k = pick(rng, [(wc, "c"), (wr, "r"), (ws, "s"), (wp, "p"), (wi, "i"), (we, "e")])
            a, kw = payload(rng)
            det = gen.free_dict(rng, p_empty=0.2) if rng.random() < 0.3 else rng.choice([{}, {}, {"x": 1}, {"é": [1]}])
            odd = gen.marked(rng, det)
            of_call, of_result = gen.marked(rng, det, ("progress", "receive_progress")), gen.marked(rng, det, ("progress",))
            which = gen_which(rng, kinds)
            rid, other = small_id(rng), small_id(rng)
            x = rng.random()
            if k == "c":
                if x < 0.12:
                    ops.append(("chunk", rng.randrange(8), dict(of_call, **rng.choice([{}, {"progress": True}, {"progress": True}])), a, kw))
                elif x < 0.45:
                    opts = dict(of_call, **rng.choice([{}, {"receive_progress": True}, {"progress": True}, {"progress": True}]))
                    ops.append(("send", "call", rid, gen.uri(rng), opts, a, kw))
                elif x < 0.85:
                    d = dict(of_result, **rng.choice([{}, {}, {"progress": True}, {"progress": False}]))
                    ops.append(("recv", "result", which, other, d, a, kw))
                else:
                    ops.append(("recv", "error:call", which, other, odd, a, kw))
            elif k == "r":
                if x < 0.3:
                    ops.append(("send", "register", rid, gen.uri(rng), odd, a, kw))
                elif x < 0.6:
                    ops.append(("recv", "registered", which, other, odd, a, kw))
                elif x < 0.65:
                    ops.append(("recv", "error:register", which, other, odd, a, kw))
                elif x < 0.8:
                    ops.append(("send", "unregister", rid, rng.randrange(8), {}, a, kw))
                elif x < 0.94:
                    ops.append(("recv", "unregistered", which, other, odd, a, kw))
                else:
                    ops.append(("recv", "error:unregister", which, other, odd, a, kw))
            elif k == "s":
                if x < 0.3:
                    ops.append(("send", "subscribe", rid, gen.uri(rng), odd, a, kw))
                elif x < 0.6:
                    ops.append(("recv", "subscribed", which, other, odd, a, kw))
                elif x < 0.65:
                    ops.append(("recv", "error:subscribe", which, other, odd, a, kw))
                elif x < 0.8:
                    ops.append(("send", "unsubscribe", rid, rng.randrange(8), {}, a, kw))
                elif x < 0.94:
                    ops.append(("recv", "unsubscribed", which, other, odd, a, kw))
                else:
                    ops.append(("recv", "error:unsubscribe", which, other, odd, a, kw))
            elif k == "p":
                if x < 0.5:
                    opts = dict(gen.marked(rng, det, ("acknowledge",)), **rng.choice([{}, {"acknowledge": True}, {"acknowledge": True}, {"acknowledge": False}]))
                    ops.append(("send", "publish", rid, gen.uri(rng), opts, a, kw))
                elif x < 0.85:
                    ops.append(("recv", "published", which, other, odd, a, kw))
                elif x < 0.97:
                    ops.append(("recv", "error:publish", which, other, odd, a, kw))
                else:
                    ops.append(("recv", rng.choice(["error:68", "error:70", "error:0", "error:50", "error:8"]), which, other,
                                odd, a, kw))
            elif k == "i":
                if x < 0.45:
                    if rng.random() < 0.15:
                        which = ("more", rng.randrange(8))
                    d = dict(gen.marked(rng, det, ("progress", "receive_progress")), **rng.choice([{}, {}, {"progress": True}, {"progress": False}, {"receive_progress": True},
                                                {"progress": True, "receive_progress": True}]))
                    ops.append(("recv", "invocation", which, other, d, a, kw))
                elif x < 0.9:
                    ops.append(("yield", which, rng.choice([None, None, True, True, False]), a, kw))
                else:
                    ops.append(("fail", which, a, kw, odd))
            else:
                ops.append(("recv", "event", which, other, odd, a, kw))
            if rng.random() < 0.02:
                ops.append(("goodbye", "sent", det, gen.error_uri(rng), None, None))
        if rng.random() < 0.1:
            ops.append(("goodbye", rng.choice(["goodbye", "abort"]), det, gen.error_uri(rng) or "a", *payload(rng)))
        return ops

    return gen_ops


def runner(cls):
    def go(ops, st):
        cfg = ops[0] if ops and ops[0][0] == "config" else ("config", 0, False)
        cls(st, cfg[1], cfg[2]).play(ops)
    return go


CROWDS = [300, 4200, 1025, 1500, 8200]


def gen_crowd(areas):
    """Very many requests outstanding at once, very many registrations, subscriptions and invocations."""
    def g(rng, i, tier):
        n = CROWDS[i // len(areas) % len(CROWDS)] + rng.randrange(3)
        if tier == "thorough":
            n = rng.choice([n, 2 * n, rng.randint(300, 5000), 17_000])
        area = areas[i % len(areas)]
        if area in ("registrations", "subscriptions"):
            n = min(n, 4200)
        e = ({}, None, None)
        ops = [("config", i % 3, i % 5 == 0)]
        ids = rng.sample(range(1, 10**6), n)
        order = rng.sample(ids, n)
        if area == "calls":
            ops += [("send", "call", r, "p", {}, None, None) for r in ids]
            ops += [("recv", "result", ("raw", r), 1, {"progress": True} if r % 5 == 0 else {}, [r], None) if r % 3 else ("recv", "error:call", ("raw", r), 1, *e) for r in order]
            return ops + [("recv", "result", ("raw", r), 1, *e) for r in order[: n // 4]]
        if area == "publications":
            ops += [("send", "publish", r, "t", {"acknowledge": True}, None, None) for r in ids]
            ops += [("recv", "published" if r % 3 else "error:publish", ("raw", r), r, *e) for r in order]
            return ops + [("recv", "published", ("raw", r), r, *e) for r in order[: n // 4]]
        if area == "subscriptions":
            ops += [("send", "subscribe", r, "t", *e) for r in ids]
            ops += [("recv", "subscribed", ("raw", r), r + 1, *e) for r in order]
            ops += [("recv", "event", ("raw", r + d), 7, {}, [r], None) for r in order[: n // 2] for d in (0, 1)]
            ops += [("send", "unsubscribe", r, rng.randrange(n), *e) for r in ids[: n // 3]]
            ops += [("recv", "unsubscribed" if r % 4 else "error:unsubscribe", ("raw", r), 1, *e) for r in ids[: n // 3]]
            return ops + [("recv", "event", ("raw", r + 1), 7, *e) for r in order]
        ops += [("send", "register", r, "p", *e) for r in ids]
        ops += [("recv", "registered", ("raw", r), r + 1, *e) for r in order]
        ops += [("recv", "invocation", ("raw", r + 1), r + 5, *e) for r in order]
        ops += [("send", "unregister", r, rng.randrange(n), *e) for r in ids[: n // 3]]
        ops += [("recv", "unregistered" if r % 4 else "error:unregister", ("raw", r), 1, *e) for r in ids[: n // 3]]
        ops += [("recv", "invocation", ("raw", r + 1), r + 10**7, *e) for r in order[: n // 2]]
        rng.shuffle(order)
        return ops + [("yield", ("raw", r + 5), None if r % 3 else True, None, None) if r % 5 else ("fail", ("raw", r + 5), None, None) for r in order]
    return g


def gen_marathon(areas):
    """One session that has been running for a long time, with little going on at any moment."""
    def g(rng, i, tier):
        n = 70_000 if tier != "thorough" else rng.choice([70_000, 140_000])
        area = areas[i % len(areas)]
        e = ({}, None, None)
        ops = [("config", i % 3, True)]
        add = ops.append
        if area == "invocations":
            ops += [("send", "register", 1, "p", *e), ("recv", "registered", ("raw", 1), 5, *e)]
        if area == "events":
            ops += [("send", "subscribe", 1, "t", *e), ("recv", "subscribed", ("raw", 1), 5, *e)]
        old = 2**40
        ops += [("send", "register", old, "p", *e), ("recv", "registered", ("raw", old), old, *e)]
        ops += [("send", "subscribe", old, "t", *e), ("recv", "subscribed", ("raw", old), old, *e)]
        for k in range(1, rng.randint(3, 9)):  # things that stay as they are all the time
            for kind in ("call", "publish", "register", "subscribe"):
                ops.append(("send", kind, old + k, "a", {"acknowledge": True} if kind == "publish" else {}, None, None))
            ops.append(("recv", "invocation", ("raw", old), old + k, *e))
        for k in range(n // 2):
            r = k + 2
            if area == "calls":
                add(("send", "call", r, "p", {}, None, None))
                if k % 9 == 0:
                    add(("recv", "result", ("raw", r), 1, {"progress": True}, None, None))
                add(("recv", "error:call" if k % 5 == 0 else "result", ("raw", r), 1, *e))
                if k % 50 == 0:
                    add(("recv", "result", ("raw", r), 1, *e))
            elif area == "publications":
                add(("send", "publish", r, "t", {"acknowledge": True}, None, None))
                add(("recv", "error:publish" if k % 5 == 0 else "published", ("raw", r), r, *e))
            elif area == "registrations":
                ops += [("send", "register", r, "p", *e), ("recv", "registered", ("raw", r), r, *e)]
                if k % 2:
                    ops += [("send", "unregister", r, 0, *e), ("recv", "unregistered", ("raw", r), 1, *e), ("recv", "invocation", ("raw", r - k % 4), r, *e)]
                    ops += [("send", "unregister", r, 0, *e), ("recv", "unregistered", ("raw", r), 1, *e)]
            elif area == "subscriptions":
                ops += [("send", "subscribe", r, "t", *e), ("recv", "subscribed", ("raw", r), r, *e), ("recv", "event", ("raw", r), 7, *e)]
                ops += [("send", "unsubscribe", r, 0, *e), ("recv", "unsubscribed", ("raw", r), 1, *e)]
                add(("recv", "event", ("raw", r), 7, *e))
            elif area == "events":
                ops += [("recv", "event", ("raw", 5), r, *e)] * 2
            else:
                add(("recv", "invocation", ("raw", 5), r, *e))
                if k % 7 == 0:
                    add(("yield", ("raw", r), True, None, None))
                add(("fail", ("raw", r), None, None) if k % 5 == 0 else ("yield", ("raw", r), None, None, None))
                if k % 50 == 0:
                    add(("yield", ("raw", r), None, None, None))
        if area == "invocations":
            ops += [("send", "unregister", 1, 0, *e), ("recv", "unregistered", ("raw", 1), 1, *e)]
        if area == "events":
            ops += [("send", "unsubscribe", 1, 0, *e), ("recv", "unsubscribed", ("raw", 1), 1, *e), ("recv", "event", ("raw", 5), 1, *e)]
        return ops + [("recv", "event", ("raw", old), 7, *e), ("recv", "invocation", ("raw", old), old, *e)]
    return g


def small_alphabet(kind):
    """Every request and reply of one area over the ids 1 and 2."""
    e = ({}, None, None)
    out = []
    if kind == "rpc":
        for i in (1, 2):
            out += [("send", "call", i, "p", {}, None, None), ("recv", "result", ("raw", i), 1, *e),
                    ("recv", "error:call", ("raw", i), 1, *e)]
        out += [("recv", "result", ("raw", 1), 1, {"progress": True}, [1], None), ("send", "register", 1, "p", *e),
                ("recv", "registered", ("raw", 1), 1, *e), ("send", "unregister", 1, 0, *e),
                ("recv", "unregistered", ("raw", 1), 1, *e), ("recv", "error:unregister", ("raw", 1), 1, *e),
                ("recv", "error:register", ("raw", 1), 1, *e), ("recv", "invocation", ("raw", 1), 1, *e),
                ("recv", "invocation", ("raw", 1), 2, *e), ("yield", ("raw", 1), None, None, None),
                ("yield", ("raw", 1), True, None, None), ("fail", ("raw", 1), None, None)]
    else:
        out += [("send", "publish", 1, "t", {"acknowledge": True}, None, None), ("send", "publish", 1, "t", *e),
                ("recv", "published", ("raw", 1), 1, *e), ("recv", "error:publish", ("raw", 1), 1, *e)]
        for i in (1, 2):
            out += [("send", "subscribe", i, "t", *e), ("recv", "subscribed", ("raw", i), 1, *e)]
        out += [("recv", "subscribed", ("raw", 1), 2, *e), ("recv", "error:subscribe", ("raw", 1), 1, *e),
                ("send", "unsubscribe", 1, 0, *e), ("recv", "unsubscribed", ("raw", 1), 1, *e),
                ("recv", "error:unsubscribe", ("raw", 1), 1, *e), ("recv", "event", ("raw", 1), 7, *e),
                ("recv", "event", ("raw", 2), 7, *e)]
    return out


RPC, PS = small_alphabet("rpc"), small_alphabet("ps")


def count(alpha, length):
    return sum(len(alpha) ** k for k in range(1, length + 1))


def gen_short(alpha, prefix=()):
    def g(rng, i, tier):
        n, base, length = i, len(alpha), 1
        while n >= base**length:
            n -= base**length
            length += 1
        ops = []
        for _ in range(length):
            n, r = divmod(n, base)
            ops.append(alpha[r])
        return [("config", i % 3, i % 2 == 1)] + list(prefix) + ops
    return g

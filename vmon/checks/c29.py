"""Opaque payloads pass through the router untouched."""
import copy

from vmon import dealerlab as D, gen
from vmon.core import FnWorkload, short
from vmon.rig import M, attempt, call, details, error, need, pick, reg, reply, yield_
from wampproto.dealer import Dealer
from wampproto.serializers import payload as P

RULE = "a case is a history of opaque and plain calls and results on one dealer; non-trivial: an opaque message was forwarded"
NEEDS = ["opaque call forwarded", "opaque result forwarded", "opaque progressive result forwarded", "opaque chunk forwarded", "plain call forwarded", "plain result forwarded",
         "plain result of an opaque call", "opaque result of a plain call", "empty payload", "payload read at the other end", "mutable payload", "options announce the payload serializer", "options of plain messages compared", "announcement already in the options"] + [f"serializer id {k}" for k in range(4)] + ["serializer id this library does not know"]
ANNOUNCE = "x_payload_serializer"


def check(st, what, m, opaque, args, kwargs):
    if opaque:
        data, sid = opaque
        need(m.payload_is_binary(), "{} with payload {} was forwarded as a plain message: {}", what, opaque, m.marshal())
        need(isinstance(m.payload, (bytes, bytearray)) and bytes(m.payload) == bytes(data), "{} with payload {} was forwarded with {}", what, data, m.payload)
        need(type(m.payload_serializer) is int and m.payload_serializer == sid, "{} with payload serializer {} was forwarded with {}", what, sid, m.payload_serializer)
        need(m.details.get(ANNOUNCE, "nothing") == sid, "{} with payload serializer {} announces {}", what, sid, m.details)
        need(not m.args and not m.kwargs, "{} with payload {} was forwarded with arguments {} {}", what, opaque, m.args, m.kwargs)
        st.ev(f"serializer id {sid}" if sid < 4 else "serializer id this library does not know")
        st.ev("empty payload", not data)
        st.ev("mutable payload", isinstance(data, bytearray))
        st.nontrivial()
        if args is not None:  # the payload encodes these
            a, k = P.deserialize_payload(m.payload_serializer, bytes(m.payload))
            need(gen.none_or_same(a, args[0]) and gen.none_or_same(k, args[1]), "{}: payload of {} is read as {} {} at the other end", what, args, a, k)
            st.ev("payload read at the other end")
    else:
        need(not m.payload_is_binary() and m.payload is None, "{} without a payload was forwarded with payload {}", what, m.payload)
        need(ANNOUNCE not in m.details, "{} without a payload announces one: {}", what, m.details)
        need(gen.same_payload(m.args, m.kwargs, args, kwargs), "{} with {} {} was forwarded with {} {}", what, args, kwargs, m.args, m.kwargs)


def announced(st, m, opts, opaque):
    """What the message itself says before it is forwarded."""
    want = {**opts, ANNOUNCE: opaque[1]} if opaque else opts
    need(gen.same(m.options, want), "a message with options {} and payload {} has the options {}", opts, opaque, m.options)
    st.ev("announcement already in the options", bool(opaque) and ANNOUNCE in opts)
    if opaque:
        need(m.payload_is_binary() and m.payload == opaque[0] and m.payload_serializer == opaque[1], "a message with payload {} says {} {}", opaque, m.payload, m.payload_serializer)
    else:
        need(not m.payload_is_binary(), "a message without payload says it has one")
    st.ev("options announce the payload serializer" if opaque else "options of plain messages compared")
    return m


class Run:
    def __init__(self, st):
        self.st = st
        self.d = Dealer()
        self.open = []  # [invocation id, caller, callee, rid, progressive results wanted, call not finished, was opaque]
        for s in (1, 2, 3):
            self.d.add_session(details(s))
        for s, p in ((1, "p1"), (2, "p2")):
            need(reply(attempt(self.d.receive_message, s, reg(1, p)), M.Registered) is not None, "{} could not be registered", p)

    def fields(self, body):
        """body: ("plain", args, kwargs) or ("opaque", serializer id, data) or ("coded", serializer id, args, kwargs)"""
        if body[0] == "plain":
            return body[1], body[2], {}, None, (body[1], body[2])
        if body[0] == "opaque":
            return None, None, dict(payload=body[2], serializer=body[1], binary=True), (copy.copy(body[2]), body[1]), (None, None)
        data = P.serialize_payload(body[1], body[2], body[3])
        return None, None, dict(payload=data, serializer=body[1], binary=True), (data, body[1]), ((body[2], body[3]), None)

    def do_call(self, sid, proc, rid, opts, body):
        if any(o[1] == sid and o[3] == rid for o in self.open):
            rid = max(o[3] for o in self.open) + 1
        a, k, kw, opaque, plain = self.fields(body)
        opts = dict(opts, **{ANNOUNCE: rid % 5}) if opaque and rid % 4 == 3 else opts
        r = attempt(self.d.receive_message, sid, announced(self.st, call(rid, proc, a, k, dict(opts), **kw), opts, opaque))
        got = reply(r, M.Invocation)
        need(got is not None, "call {} of {} {}", body, proc, r)
        check(self.st, "call", got[0], opaque, *plain)
        self.st.ev("opaque call forwarded" if opaque else "plain call forwarded")
        self.open.append([got[0].request_id, sid, got[1], rid, bool(opts.get("receive_progress")), bool(opts.get("progress")), bool(opaque), proc])

    def do_chunk(self, n, last, body):
        c = [o for o in self.open if o[5]]
        if not c:
            return
        o = c[n % len(c)]
        a, k, kw, opaque, plain = self.fields(body)
        opts = {} if last else {"progress": True}
        if o[4]:
            opts["receive_progress"] = True
        r = attempt(self.d.receive_message, o[1], call(o[3], o[7], a, k, opts, **kw))
        got = reply(r, M.Invocation)
        need(got is not None, "chunk {} {}", body, r)
        check(self.st, "chunk", got[0], opaque, *plain)
        self.st.ev("opaque chunk forwarded" if opaque else "plain chunk forwarded")
        o[5] = not last

    def do_yield(self, n, progress, extra, body):
        if not self.open:
            return
        o = self.open[n % len(self.open)]
        a, k, kw, opaque, plain = self.fields(body)
        opts = dict(extra)
        if opaque and n % 4 == 3:
            opts[ANNOUNCE] = n % 5
        if progress and o[4]:
            opts["progress"] = True
        r = attempt(self.d.receive_message, o[2], announced(self.st, yield_(o[0], a, k, dict(opts), **kw), opts, opaque))
        got = reply(r, M.Result)
        need(got is not None, "result {} {}", body, r)
        check(self.st, "result", got[0], opaque, *plain)
        prog = bool(opts.get("progress"))
        self.st.ev(("opaque progressive result forwarded" if prog else "opaque result forwarded") if opaque else "plain result forwarded")
        self.st.ev("plain result of an opaque call", o[6] and not opaque)
        self.st.ev("opaque result of a plain call", bool(opaque) and not o[6])
        if not prog:
            self.open.remove(o)

    def do_err(self, n):
        if self.open:
            o = self.open.pop(n % len(self.open))
            attempt(self.d.receive_message, o[2], error(68, o[0], "e.x", [1], None))


def run(ops, st):
    r = Run(st)
    for op in ops:
        getattr(r, "do_" + op[0])(*op[1:])


def body(rng):
    k = rng.random()
    if k < 0.35:
        return ("plain", *gen.opt_args(rng, binary=True))
    sid = rng.randrange(4)
    if k < 0.75:
        if rng.random() < 0.25:
            sid = rng.choice([4, 5, 7, 9, 100, 255, 256, 2**16, 2**31, 2**53])
        data = rng.choice([b"", b"\x00", b"[]", b"\x80", b"x" * 65536, rng.randbytes(rng.choice([1, 8, 100]))])
        return ("opaque", sid, bytearray(data) if rng.random() < 0.15 else data)
    if sid == 0:
        return ("coded", 0, [rng.randbytes(5)], None)
    return ("coded", sid, *gen.opt_args(rng, binary=sid > 1))


def gen_case(rng, i, tier):
    ops = []
    for _ in range(rng.randint(2, 30)):
        k = pick(rng, [(10, "call"), (4, "chunk"), (12, "yield"), (1, "err")])
        if k == "call":
            opts = gen.free_dict(rng, p_empty=0.8)
            if rng.random() < 0.5:
                opts["receive_progress"] = True
            if rng.random() < 0.3:
                opts["progress"] = True
            ops.append((k, rng.choice([1, 2, 3]), rng.choice(["p1", "p2"]), rng.randint(1, 9), opts, body(rng)))
        elif k == "chunk":
            ops.append((k, rng.randrange(9), rng.random() < 0.4, body(rng)))
        elif k == "yield":
            ops.append((k, rng.randrange(9), rng.random() < 0.5, gen.free_dict(rng, p_empty=0.8), body(rng)))
        else:
            ops.append((k, rng.randrange(9)))
    return ops


WORKLOADS = [FnWorkload("opaque traffic", 8000, 300000, gen_case, run, sig=lambda ops: repr([short(o, 300) for o in ops]))]

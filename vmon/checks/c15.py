from vmon import gen, sessionlab as L
from vmon.core import FnWorkload
from vmon.rig import INVOCATION, M, attempt, call, error, need, pick, pub, reg, short, sub, unreg, unsub, yield_

RULE = (
    "a case is one exchange on one client session with failing sends and receives in it, run twice: with them and "
    "without; every other outcome and a final probe of what is outstanding have to agree; non-trivial: something "
    "failed and something later succeeded"
)
NEEDS = ["sends that could not be serialized", "sends of other kinds", "sends not allowed", "injected serializer faults",
         "undecodable data", "unknown messages", "unexpected replies", "outcomes compared", "probes compared"]


class Boom(Exception):
    pass


class Faulty:
    """A serializer that fails when told to."""

    def __init__(self, inner):
        self.inner = inner
        self.fail = 0

    def _tick(self):
        if self.fail:
            self.fail = 0
            raise Boom("injected")

    def serialize(self, m):
        self._tick()
        return self.inner.serialize(m)

    def deserialize(self, d):
        self._tick()
        return self.inner.deserialize(d)

    def static(self):
        return self.inner.static()


LOOP = []
LOOP.append(LOOP)
BAD = {0: [object(), {1, 2}, b"raw", {(1, 2): 3}, LOOP, 1j], 1: [object(), {1, 2}, 2**70, "\ud800", 1j, LOOP],
       2: [object(), 1j, "\ud800", (x for x in ()), LOOP]}
OTHER = [
    lambda: M.Hello(M.HelloFields("r", {"caller": {}})), lambda: M.Welcome(M.WelcomeFields(1, {"broker": {}}, "a", "b", "c")),
    lambda: M.Result(M.ResultFields(1)), lambda: M.Registered(M.RegisteredFields(1, 1)), lambda: M.Event(M.EventFields(1, 1)),
    lambda: M.Subscribed(M.SubscribedFields(1, 1)), lambda: M.Invocation(M.InvocationFields(1, 1)),
    lambda: M.Published(M.PublishedFields(1, 1)), lambda: M.Unregistered(M.UnregisteredFields(1)),
    lambda: error(48, 1, "e"), lambda: error(64, 2, "e"), lambda: M.Interrupt(M.InterruptFields(1)),
    lambda: M.Challenge(M.ChallengeFields("ticket")), lambda: M.Authenticate(M.AuthenticateFields("x")),
]
JUNK = ["[", "", "null", "{}", "[]", "[50]", "[50,1]", "[50,0,{}]", "[999,1]", "[50,1,{},1]", "[36,1,1,{},[],[]]", "[65,1]",
        "[\"50\",1,{}]", "[8,48,1,{}]", "[68,1,1]", "[17,1,-1]", "[35]", "[67,\"1\"]", "[1,\"r\",{\"roles\":{\"caller\":{}}}]",
        "[48,1,{},\"p\"]", "[16,1,{},\"t\"]", "[70,1,{}]", "[32,1,{},\"t\"]", "[4,\"ticket\",{}]"]


class Run(L.SessionRun):
    faulty = True

    def __init__(self, st, ser, direct):
        super().__init__(st, ser, direct)
        self.log = []
        self.last = None

    def serializer(self):
        self.fs = Faulty(L.SER[self.ser]())
        return self.fs

    def send(self, m):
        self.last = attempt(self.s.send_message, m)
        return self.last

    def deliver(self, wire):
        self.last = super().deliver(wire)
        return self.last

    def do_badsend(self, kind, rid, n):
        """A message of a kind clients send, that cannot be serialized."""
        bad = BAD[self.ser][n % len(BAD[self.ser])]
        args, opts = ([bad], {}) if n % 3 else (None, {"x": bad})
        kw = {"k": bad} if n % 5 == 1 else None
        m = {
            "call": lambda: call(rid, "p", args, kw, opts), "publish": lambda: pub(rid, "t", args, kw, dict(opts, acknowledge=True)),
            "register": lambda: reg(rid, "p", {"x": bad}), "subscribe": lambda: sub(rid, "t", {"x": bad}),
            "unregister": lambda: unreg(rid, bad), "unsubscribe": lambda: unsub(rid, bad),
            "yield": lambda: yield_(self.invs[rid % len(self.invs)] if self.invs else rid, args, kw,
                                    dict(opts, progress=True) if n % 2 else opts),
            "fail": lambda: error(INVOCATION, self.invs[rid % len(self.invs)] if self.invs else rid, "e", args, kw, opts),
        }[kind]()
        self.send(m)
        if not self.last.ok:
            self.st.ev("sends that could not be serialized")

    def do_other(self, n):
        self.send(OTHER[n % len(OTHER)]())
        if not self.last.ok:
            self.st.ev("sends of other kinds")

    def do_faultsend(self, kind, rid, progress):
        if kind in ("unregister", "unsubscribe"):
            pool = sorted(self.live if kind == "unregister" else self.subs) or [rid]
            m = (unreg if kind == "unregister" else unsub)(rid, pool[rid % len(pool)])
        elif kind in ("yield", "fail"):
            i = self.invs[rid % len(self.invs)] if self.invs else rid
            m = yield_(i, None, None, {"progress": True} if progress else {}) if kind == "yield" else error(INVOCATION, i, "e")
        else:
            m = {"call": lambda: call(rid, "p"), "publish": lambda: pub(rid, "t", None, None, {"acknowledge": True}),
                 "register": lambda: reg(rid, "p"), "subscribe": lambda: sub(rid, "t")}[kind]()
        self.fs.fail = 1
        self.send(m)
        self.fs.fail = 0
        if not self.last.ok:
            self.st.ev("injected serializer faults")

    def do_faultrecv(self, kind, which):
        self.fs.fail = 1
        rid = self.ids(L.REPLY[kind], which)
        if rid is not None and not self.direct:
            self.deliver(L.wire_of(kind, rid, 3, {}, None, None))
            if not self.last.ok:
                self.st.ev("injected serializer faults")
        self.fs.fail = 0

    def do_junk(self, n):
        text = JUNK[n % len(JUNK)]
        if self.ser == 0 or n % 7 == 0:
            data = text if self.ser == 0 else text.encode()
        else:
            import json
            try:
                data = L.RAW[self.ser](json.loads(text))
            except ValueError:
                data = b"\xc1\xff" + text.encode()
        self.last = attempt(self.s.receive, data)
        if not self.last.ok:
            self.st.ev("unknown messages" if isinstance(self.last.exc, (ValueError, TypeError)) else "undecodable data")

    def do_cut(self, kind, n):
        """A reply cut short or followed by rubbish."""
        data = L.RAW[self.ser](L.wire_of(kind, n % 5 + 1, 2, {}, None, None))
        data = data[:-1 - n % 2] if n % 3 else data[: n % (len(data) or 1)]
        self.last = attempt(self.s.receive, data)
        if not self.last.ok:
            self.st.ev("undecodable data")

    def do_stale_end(self, kind, rid):
        """An end of something that is not live (any more), for a request that is outstanding."""
        req = L.REPLY[kind]
        if rid in self.out[req]:
            return
        m = (unreg if req == "unregister" else unsub)(rid, 2**51)
        if attempt(self.s.send_message, m).ok:
            self.out[req][rid] = 2**51
        self.last = None

    def do_recv_stale(self, kind, n):
        req = L.REPLY[kind]
        live = self.live if req == "unregister" else self.subs
        pool = [r for r, t in self.out[req].items() if t not in live]
        if pool:
            self.deliver(L.wire_of(kind, pool[n % len(pool)], 1, {}, None, None))
            if not self.last.ok:
                self.st.ev("unexpected replies")
            else:
                self.out[req].pop(pool[n % len(pool)], None)

    def on_reply(self, kind, req, rid, outstanding, wire, res):
        if not res.ok:
            self.st.ev("unexpected replies")

    def on_yield(self, rid, expected, progress, res):
        if not res.ok:
            self.st.ev("sends not allowed")

    def run(self, ops, keep=None):
        dropped = set()
        for n, op in enumerate(ops):
            if op[0] == "config" or (keep is not None and n not in keep):
                continue
            self.last = None
            getattr(self, "do_" + op[0])(*op[1:])
            if self.last is None:
                continue
            if keep is None and not self.last.ok:
                dropped.add(n)
                continue
            self.log.append((n, self.last.ok, short(self.last.val if isinstance(self.last.val, (str, bytes)) else
                                                    self.last.val.marshal() if self.last.ok else None, 5000)))
        return dropped

    def probe(self, universe, stale):
        """What is still outstanding, live or open: by replies to everything."""
        out = []
        for n, i in enumerate(universe):
            for kind in ("invocation", "event"):
                out.append((kind, i, self.deliver(L.wire_of(kind, 2**52 + 1 + n if kind == "invocation" else i,
                                                            i if kind == "invocation" else 5, {}, None, None)).ok))
            out.append(("yield", i, self.send(yield_(i, None, None, {"progress": True})).ok))
            out.append(("yield-final", i, self.send(yield_(i)).ok))
            for kind, req in L.REPLY.items():
                if kind == "registered" or kind == "subscribed":
                    kind = f"error:{req}"
                elif (req, i) in stale:  # outstanding, though its end could not be accepted
                    kind = f"error:{req}"
                out.append((kind, i, self.deliver(L.wire_of(kind, i, 2**52 + i % 97, {}, None, None)).ok))
                out.append((kind, i, "again", self.deliver(L.wire_of(kind, i, 2**52 + i % 97, {}, None, None)).ok))
        for n, i in enumerate(universe):
            for kind in ("invocation", "event"):
                out.append(("end-" + kind, i, self.deliver(L.wire_of(kind, 2**52 + 1000 + n if kind == "invocation" else i,
                                                                     i if kind == "invocation" else 5, {}, None, None)).ok))
        return out


def run(ops, st):
    cfg = ops[0] if ops and ops[0][0] == "config" else ("config", 0, False)
    a = Run(st, cfg[1], cfg[2])
    dropped = a.run(ops)
    b = Run(type(st)(), cfg[1], cfg[2])
    b.run(ops, keep={n for n in range(len(ops)) if n not in dropped})
    if dropped and a.log and min(dropped) < a.log[-1][0]:
        st.nontrivial()
    need(len(a.log) == len(b.log), "{} outcomes after failures, {} without them", len(a.log), len(b.log))
    for x, y in zip(a.log, b.log):
        need(x == y, "operation {} {}: {} after failed sends and receives, {} without them", x[0], short(ops[x[0]], 300), x, y)
        st.ev("outcomes compared")
    universe = sorted({1, 2, 3, 4, 5} | {i for d in a.out.values() for i in d} | set(a.invs) | set(a.finished[:10]))[:40]
    universe += [i for i in sorted(a.live | a.subs) if i not in universe][:20]
    stale = {(q, i) for q, live in (("unregister", a.live), ("unsubscribe", a.subs)) for i, t in a.out[q].items() if t not in live}
    pa, pb = a.probe(universe, stale), b.probe(universe, stale)
    for x, y in zip(pa, pb):
        need(x == y, "probe {} after failed sends and receives, {} without them", x, y)
    st.ev("probes compared", len(pa))


BASE = L.make_gen((14, 16, 16, 10, 24, 6))
KINDS = ["call", "publish", "register", "subscribe", "unregister", "unsubscribe", "yield", "fail", "yield"]


def gen_ops(rng, i, tier):
    base = BASE(rng, i, tier)
    out = base[:1]
    for op in base[1:]:
        out.append(op)
        while rng.random() < 0.35:
            k = pick(rng, [(30, "badsend"), (10, "other"), (20, "faultsend"), (8, "faultrecv"), (12, "junk"), (8, "cut"),
                           (6, "stale_end"), (6, "recv_stale")])
            if k == "badsend":
                out.append((k, rng.choice(KINDS), L.small_id(rng), rng.randrange(60)))
            elif k == "other" or k == "junk":
                out.append((k, rng.randrange(80)))
            elif k == "faultsend":
                out.append((k, rng.choice(KINDS), L.small_id(rng), rng.random() < 0.5))
            elif k == "faultrecv":
                out.append((k, rng.choice(sorted(L.REPLY)), ("out", rng.randrange(8))))
            elif k == "cut":
                out.append((k, rng.choice(sorted(L.REPLY) + ["invocation", "event"]), rng.randrange(40)))
            elif k == "stale_end":
                out.append((k, rng.choice(["unregistered", "unsubscribed"]), L.small_id(rng)))
            else:
                out.append((k, rng.choice(["unregistered", "unsubscribed"]), rng.randrange(5)))
    return out


WORKLOADS = [FnWorkload("failing-exchanges", 6000, 150000, gen_ops, run)]

import json

from vmon import brokerlab as B, dealerlab as D, gen
from vmon.core import FnWorkload
from vmon.rig import CALL, INVOCATION, M, Res, T, attempt, error, need, pick, refused, reply, short

RULE = (
    "a case is one history with refused requests in it, run twice: with them and without; the answers to all other "
    "requests are compared (ids exactly if the router issues the same ones whenever the history is the same); non-trivial: at least one request was refused and a later one accepted"
)
NEEDS = ["requests of strangers", "attached twice", "detached while not attached", "unserved message types", "unserved messages naming an open call or invocation",
         "requests refused", "requests answered with a router error", "answers compared", "ids compared"]
RAW = 2**45

ODD = {
    "Hello": lambda i: M.Hello(M.HelloFields("realm1", {"caller": {}})),
    "Welcome": lambda i: M.Welcome(M.WelcomeFields(3, {"broker": {}}, "a", "b", "c")),
    "Abort": lambda i: M.Abort(M.AbortFields({}, "wamp.x")),
    "Challenge": lambda i: M.Challenge(M.ChallengeFields("ticket")),
    "Authenticate": lambda i: M.Authenticate(M.AuthenticateFields("x")),
    "Goodbye": lambda i: M.Goodbye(M.GoodbyeFields({}, "wamp.x")),
    "Result": lambda i: M.Result(M.ResultFields(i)),
    "Invocation": lambda i: M.Invocation(M.InvocationFields(i, i)),
    "Registered": lambda i: M.Registered(M.RegisteredFields(i, i)),
    "Unregistered": lambda i: M.Unregistered(M.UnregisteredFields(i)),
    "Subscribed": lambda i: M.Subscribed(M.SubscribedFields(i, i)),
    "Unsubscribed": lambda i: M.Unsubscribed(M.UnsubscribedFields(i)),
    "Published": lambda i: M.Published(M.PublishedFields(i, i)),
    "Event": lambda i: M.Event(M.EventFields(i, i)),
    "Cancel": lambda i: M.Cancel(M.CancelFields(i)),
    "Interrupt": lambda i: M.Interrupt(M.InterruptFields(i)),
    "CallError": lambda i: error(CALL, i, gen.nth_error_uri(i)),
    "RegisterError": lambda i: error(64, i, gen.nth_error_uri(i)),
    "UnregisterError": lambda i: error(66, i, gen.nth_error_uri(i)),
    "PublishError": lambda i: error(16, i, gen.nth_error_uri(i)),
    "SubscribeError": lambda i: error(32, i, gen.nth_error_uri(i)),
    "UnsubscribeError": lambda i: error(34, i, gen.nth_error_uri(i)),
    "ResultError": lambda i: error(50, i, gen.nth_error_uri(i)),
    "YieldError": lambda i: error(70, i, gen.nth_error_uri(i)),
    "Call": lambda i: M.Call(M.CallFields(1, "io.xconn.test")),
    "Yield": lambda i: M.Yield(M.YieldFields(i)),
    "Register": lambda i: M.Register(M.RegisterFields(1, "io.xconn.test")),
    "Unregister": lambda i: M.Unregister(M.UnregisterFields(i, i)),
    "InvocationError": lambda i: error(INVOCATION, i, gen.nth_error_uri(i)),
    "Subscribe": lambda i: M.Subscribe(M.SubscribeFields(1, "io.xconn.test")),
    "Unsubscribe": lambda i: M.Unsubscribe(M.UnsubscribeFields(i, i)),
    "Publish": lambda i: M.Publish(M.PublishFields(1, "io.xconn.test")),
}
BROKER_SERVES = {"Subscribe", "Unsubscribe", "Publish"}
DEALER_SERVES = {"Call", "Yield", "Register", "Unregister", "InvocationError"}
NEVER = [k for k in ODD if k not in BROKER_SERVES | DEALER_SERVES]
ERRORS = [k for k in NEVER if k.endswith("Error")]
ID_FIELDS = ("subscription_id", "publication_id", "registration_id")


class Canon:
    """Renames router-issued ids by order of appearance."""

    def __init__(self):
        self.names = {}  # in the order of appearance

    def id(self, v):
        return self.names.setdefault(v, f"#{len(self.names)}")

    def msg(self, m):
        if m is None:
            return None
        out = [type(m).__name__]
        for f in ID_FIELDS:
            if hasattr(m, f):
                out.append((f, self.id(getattr(m, f))))
        if hasattr(m, "request_id"):
            out.append(("request_id", self.id(m.request_id) if isinstance(m, M.Invocation) else m.request_id))
        for f in ("args", "kwargs", "details", "uri", "message_type"):
            if hasattr(m, f):
                v = getattr(m, f)
                out.append((f, repr(v) if v else None))
        return tuple(out)

    def res(self, res):
        if not res.ok:
            return "refused"
        v = res.val
        if isinstance(v, T.MessageWithRecipient):
            return (self.msg(v.message), v.recipient)
        if isinstance(v, T.Publication):
            ack = None if v.ack is None else (self.msg(v.ack.message), v.ack.recipient)
            return (self.msg(v.event), tuple(sorted(v.recipients or [])), ack)
        return repr(v)


def mixin(base):
    class Run(base):
        def __init__(self, st):
            super().__init__(st)
            self.canon = Canon()
            self.log = []  # per operation executed: canonical answer
            self.was_refused = False
            self.reset()

        def reset(self):
            self.res = None
            self.requester = None
            self.kind = None

        def note(self, kind, sid, res):
            self.res, self.requester, self.kind = res, sid, kind

        def on_join(self, sid, res): self.note("join", sid, res)

        def do_odd(self, sid, kind, n=None):
            """n: aim at an open invocation, as its callee (even) or as its caller (odd)."""
            i = 1
            if base is B.BrokerRun:
                target = self.b
            else:
                target = self.d
                if n is not None and self.open:
                    v = list(self.open.values())[n // 2 % len(self.open)]
                    sid, i = (v.caller, v.rid) if n % 2 else (v.callee, v.id)
                    self.st.ev("unserved messages naming an open call or invocation")
            self.note("odd", sid, attempt(target.receive_message, sid, ODD[kind](i)))

        def strangers(self, st):
            """Checks the plain refusals on the operation just executed."""
            r, s = self.res, self.requester
            known = s in self.before
            if self.kind == "join":
                if known:
                    need(not r.ok, "attaching {} a second time {}", s, r)
                    st.ev("attached twice")
            elif self.kind == "leave":
                if not known:
                    need(not r.ok, "detaching {}, which is not attached, {}", s, r)
                    st.ev("detached while not attached")
            elif self.kind == "odd":
                need(not r.ok, "a message not served here {}", r)
                st.ev("unserved message types")
            elif not known:
                need(not r.ok, "a {} of {}, which is not attached, {}", self.kind, s, r)
                st.ev("requests of strangers")

        def router_error(self):
            got = reply(self.res, M.Error)
            return got is not None and self.kind in ("call", "reg", "sub", "unsub", "unreg", "chunk", "dup")

        def run(self, ops, keep=None):
            dropped = []
            for n, op in enumerate(ops):
                if keep is not None and n not in keep:
                    continue
                self.reset()
                self.before = set(self.attached)
                getattr(self, "do_" + op[0])(*op[1:])
                if self.res is None:
                    continue
                if keep is None:
                    self.strangers(self.st)
                    if not self.res.ok or self.router_error():
                        self.st.ev("requests answered with a router error" if self.res.ok else "requests refused")
                        dropped.append(n)
                        continue
                self.log.append((n, self.canon.res(self.res)))
            return dropped

    return Run


class BrokerTwin(mixin(B.BrokerRun)):
    def on_leave(self, sid, res): self.note("leave", sid, res)
    def on_sub(self, sid, topic, rid, res): self.note("sub", sid, res)
    def on_unsub(self, sid, subid, rid, res, held): self.note("unsub", sid, res)
    def on_pub(self, sid, topic, rid, opts, args, kwargs, res): self.note("pub", sid, res)


class DealerTwin(mixin(D.DealerRun)):
    def on_leave(self, sid, res, hit): self.note("leave", sid, res)
    def on_reg(self, sid, proc, rid, res): self.note("reg", sid, res)
    def on_unreg(self, sid, regid, rid, res, held): self.note("unreg", sid, res)
    def on_call(self, sid, proc, rid, opts, args, kwargs, res): self.note("call", sid, res)
    def on_chunk(self, v, opts, args, kwargs, res): self.note("chunk", v.caller, res)
    def on_dup(self, v, opts, res): self.note("dup", v.caller, res)
    def on_yield(self, v, by, progress, args, kwargs, res): self.note("yield", by, res)
    def on_err(self, v, by, uri, args, kwargs, det, res): self.note("err", by, res)
    def on_bad_answer(self, kind, invid, by, res, why): self.note("bad-" + kind, by, res)


def run(cls):
    def go(ops, st):
        a = cls(st)
        dropped = set(a.run(ops))
        st2 = type(st)()
        keep = {n for n in range(len(ops)) if n not in dropped}
        b = cls(st2)
        b.run(ops, keep=keep)
        if dropped and a.log and min(dropped) < a.log[-1][0]:
            st.nontrivial()
        for (n, x), (m, y) in zip(a.log, b.log):
            need(n == m and x == y, "operation {} {} is answered {} after the refused requests and {} without them",
                 n, short(ops[n], 300), x, y)
            st.ev("answers compared")
        need(len(a.log) == len(b.log), "{} answers after refused requests, {} without", len(a.log), len(b.log))
        x, y = list(a.canon.names), list(b.canon.names)
        if dropped and x != y:
            # ids that differ are a trace only if the same history gives the same ids again
            c = cls(st2)
            c.run(ops, keep=keep)
            at = next(k for k in range(len(x)) if x[k] != y[k])
            need(list(c.canon.names) != y, "id {} issued after the refused requests is {}, without them it is {} every time", at + 1, x[at], y[at])
            st.ev("ids issued at random")
        elif dropped and x:
            st.ev("ids compared", len(x))
    return go


def spoil(rng, ops, strangers, never, dealer):
    """Adds requests that have to be refused and moves raw ids out of the way of issued ones."""
    out = []
    topics = [o[2] for o in ops if o[0] in ("sub", "pub", "reg", "call")] or ["t"]
    sids = [o[1] for o in ops if o[0] == "join"] or [1]
    for op in ops:
        out.append(tuple(("raw", RAW + x[1]) if isinstance(x, tuple) and x and x[0] in ("raw", "near") else x for x in op))
        while rng.random() < 0.3:
            s = rng.choice(strangers) if rng.random() < 0.6 else rng.choice(sids)
            t = rng.choice(topics) if rng.random() < 0.7 else "com.fresh." + str(rng.randrange(4))
            if rng.random() < 0.3:
                k = rng.choice(["odd", "odd", "join2", "leave"])
                if k == "odd":
                    kind = rng.choice(ERRORS if rng.random() < 0.4 else never)
                    out.append(("odd", s, kind, rng.choice([None, rng.randrange(40)])) if dealer else ("odd", s, kind))
                elif k == "join2":
                    out.append(("join", rng.choice(sids)))
                else:
                    out.append(("leave", rng.choice(strangers)))
            elif dealer:
                k = rng.choice(["reg", "call", "unreg", "yield", "err"])
                if k == "reg":
                    out.append((k, s, t, gen.ident(rng)))
                elif k == "call":
                    out.append(D.gen_call(rng, s, t))
                elif k == "unreg":
                    out.append((k, s, (rng.choice(["other", "dead"]), rng.randrange(9)), gen.ident(rng)))
                elif k == "yield":
                    out.append((k, ("open", rng.randrange(9)), ("other", s), rng.choice([None, True]), [1], None))
                else:
                    out.append((k, ("open", rng.randrange(9)), ("other", s), "e.x", None, None, {}))
            else:
                k = rng.choice(["sub", "unsub", "pub"])
                if k == "sub":
                    out.append((k, s, t, gen.ident(rng)))
                elif k == "unsub":
                    out.append((k, s, (rng.choice(["other", "dead"]), rng.randrange(9)), gen.ident(rng)))
                else:
                    out.append(B.gen_pub(rng, s, t))
    return out


def strangers_of(rng, ops):
    have = {o[1] for o in ops if o[0] == "join"}
    out = [s for s in (1, 2, 3, 2**53, 77, 0, -1, 2**53 + 1) if s not in have]
    return out


def bgen(rng, i, tier):
    ops = B.gen_ops(rng, i, tier)[:400]
    return spoil(rng, ops, strangers_of(rng, ops), NEVER + sorted(DEALER_SERVES), False)


def dgen(rng, i, tier):
    ops = D.gen_ops(rng, i, tier)[:400]
    return spoil(rng, ops, strangers_of(rng, ops), NEVER + ["Subscribe", "Unsubscribe", "Publish"], True)


WORKLOADS = [
    FnWorkload("broker", 2500, 80000, bgen, run(BrokerTwin)),
    FnWorkload("dealer", 3500, 100000, dgen, run(DealerTwin)),
    FnWorkload("broker-all-short", B.exhaustive_count(3), B.exhaustive_count(4), B.gen_exhaustive, run(BrokerTwin)),
    FnWorkload("dealer-all-short", D.exhaustive_count(3), D.exhaustive_count(4), D.gen_exhaustive, run(DealerTwin)),
]

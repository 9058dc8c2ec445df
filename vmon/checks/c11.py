import random

from vmon import brokerlab as B, dealerlab as D, gen, mem, sessionlab as S
from vmon.core import FnWorkload, Violation
from vmon.rig import (CALL, INVOCATION, M, T, attempt, call, details, error, need, pub, reg, reply, sub, unreg, unsub,
                      yield_)
from wampproto import serializers
from wampproto.broker import Broker
from wampproto.dealer import Dealer
from wampproto.session import WAMPSession

RULE = (
    "a case repeats one kind of finished work on one broker, dealer or client session, with fresh names and ids each "
    "time, and counts the objects it retains after N, 2N, 4N and 8N repetitions; non-trivial: every repetition did the "
    "work asked for"
)
NEEDS = ["broker scenarios", "dealer scenarios", "client session scenarios", "repetitions"] + [f"whole lives in a {k}" for k in ("broker", "dealer", "session")]
ASSUMPTIONS = ["retention up to a fixed bound below N is allowed (caches); growth proportional to the work is not"]
N = 1500
MAX = gen.ID_MAX


class World:
    """A broker, a dealer and a client session with a constant live population, and fresh numbers."""

    def __init__(self, kind, scen):
        self.kind = kind
        self.k = 0
        self.b, self.d = Broker(), Dealer()
        self.s = WAMPSession(serializers.JSONSerializer())
        for r in (self.b, self.d):
            for sid in (1, 2, 3):
                r.add_session(details(sid))
        self.ok(self.b.receive_message(2, sub(1, "live.topic")), M.Subscribed)
        self.liveproc = self.ok(self.d.receive_message(2, reg(1, "live.proc")), M.Registered).registration_id
        self.s.send_message(reg(MAX, "p"))
        self.s.receive_message(M.Registered(M.RegisteredFields(MAX, MAX)))

    def fresh(self):
        self.k += 1
        return self.k + 1_000_000

    def ok(self, res, cls):
        need(isinstance(res, T.MessageWithRecipient) and isinstance(res.message, cls), "expected {}, got {}", cls.__name__,
             repr(res))
        if cls is M.Subscribed:
            self.b.has_subscription(f"t.{self.k + 1_000_000}")
        elif cls is M.Registered:
            self.d.has_registration(f"p.{self.k + 1_000_000}")
        return res.message

    def size(self):
        return mem.retained({"broker": self.b, "dealer": self.d, "session": self.s}[self.kind])


# one repetition of finished work each; everything it starts ends in it
def b_sub_unsub(w):
    n = w.fresh()
    i = w.ok(w.b.receive_message(1, sub(n, f"t.{n}")), M.Subscribed).subscription_id
    w.ok(w.b.receive_message(1, unsub(n, i)), M.Unsubscribed)


def b_two_subs(w):
    n = w.fresh()
    i = w.ok(w.b.receive_message(1, sub(n, f"t.{n}")), M.Subscribed).subscription_id
    w.ok(w.b.receive_message(3, sub(n, f"t.{n}")), M.Subscribed)
    w.ok(w.b.receive_message(1, unsub(n, i)), M.Unsubscribed)
    w.ok(w.b.receive_message(3, unsub(n, i)), M.Unsubscribed)


def b_sub_leave(w):
    n = w.fresh()
    w.b.add_session(details(n))
    w.ok(w.b.receive_message(n, sub(n, f"t.{n}")), M.Subscribed)
    w.ok(w.b.receive_message(n, sub(n, f"u.{n}")), M.Subscribed)
    w.b.remove_session(n)


def b_sub_live_leave(w):
    n = w.fresh()
    w.b.add_session(details(n))
    w.ok(w.b.receive_message(n, sub(n, "live.topic")), M.Subscribed)
    w.b.remove_session(n)


def b_resub(w):
    n = w.fresh()
    i = w.ok(w.b.receive_message(1, sub(n, "live.topic")), M.Subscribed).subscription_id
    w.ok(w.b.receive_message(1, sub(n, "live.topic")), M.Subscribed)
    w.ok(w.b.receive_message(1, unsub(n, i)), M.Unsubscribed)


def b_mixed_leave(w):
    n = w.fresh()
    w.b.add_session(details(n))
    i = w.ok(w.b.receive_message(n, sub(n, f"t.{n}")), M.Subscribed).subscription_id
    w.ok(w.b.receive_message(1, sub(n, f"t.{n}")), M.Subscribed)
    w.b.remove_session(n)
    w.ok(w.b.receive_message(1, unsub(n, i)), M.Unsubscribed)


def b_publish(w):
    n = w.fresh()
    for t in ("live.topic", f"t.{n}"):
        for opts in ({}, {"acknowledge": True}):
            w.b.receive_publish(1, pub(n, t, [f"a{n}"], {"k": n}, opts))


def b_join_leave(w):
    n = w.fresh()
    w.b.add_session(details(n, f"realm{n}", f"id{n}"))
    w.b.remove_session(n)


def b_refused(w):
    n = w.fresh()
    attempt(w.b.receive_message, n, sub(n, f"t.{n}"))
    attempt(w.b.receive_message, 1, unsub(n, n))
    attempt(w.b.receive_publish, n, pub(n, f"t.{n}", None, None, {"acknowledge": True}))
    attempt(w.b.remove_session, n)
    attempt(w.b.add_session, details(1))


def d_reg_unreg(w):
    n = w.fresh()
    i = w.ok(w.d.receive_message(1, reg(n, f"p.{n}")), M.Registered).registration_id
    w.ok(w.d.receive_message(1, unreg(n, i)), M.Unregistered)


def d_reg_leave(w):
    n = w.fresh()
    w.d.add_session(details(n))
    w.ok(w.d.receive_message(n, reg(n, f"p.{n}")), M.Registered)
    w.d.remove_session(n)


def inv(w, caller, n, proc="live.proc", opts=None):
    return w.ok(w.d.receive_message(caller, call(n, proc, [f"a{n}"], {"k": n}, opts or {})), M.Invocation).request_id


def d_call_result(w):
    n = w.fresh()
    w.ok(w.d.receive_message(2, yield_(inv(w, 1, n), [n])), M.Result)


def d_call_error(w):
    n = w.fresh()
    w.ok(w.d.receive_message(2, error(INVOCATION, inv(w, 1, n), f"e.{n}", [n])), M.Error)


def d_prog_results(w):
    n = w.fresh()
    i = inv(w, 1, n, opts={"receive_progress": True})
    for _ in range(3):
        w.ok(w.d.receive_message(2, yield_(i, [n], None, {"progress": True})), M.Result)
    w.ok(w.d.receive_message(2, yield_(i, [n])), M.Result)


def d_prog_results_error(w):
    n = w.fresh()
    i = inv(w, 1, n, opts={"receive_progress": True})
    w.ok(w.d.receive_message(2, yield_(i, [n], None, {"progress": True})), M.Result)
    w.ok(w.d.receive_message(2, error(INVOCATION, i, f"e.{n}")), M.Error)


def d_prog_unasked(w):
    n = w.fresh()
    w.ok(w.d.receive_message(2, yield_(inv(w, 1, n), [n], None, {"progress": True})), M.Result)


def d_prog_call(w):
    n = w.fresh()
    ids = {inv(w, 1, n, opts={"progress": True}), inv(w, 1, n, opts={"progress": True}), inv(w, 1, n)}
    for i in ids:
        w.ok(w.d.receive_message(2, yield_(i, [n])), M.Result)


def d_prog_call_error(w):
    n = w.fresh()
    i = inv(w, 1, n, opts={"progress": True, "receive_progress": True})
    w.ok(w.d.receive_message(2, yield_(i, [n], None, {"progress": True})), M.Result)
    inv(w, 1, n, opts={"progress": True, "receive_progress": True})
    w.ok(w.d.receive_message(2, error(INVOCATION, i, f"e.{n}")), M.Error)


def d_caller_leaves(w):
    n = w.fresh()
    w.d.add_session(details(n))
    inv(w, n, n)
    inv(w, n, n + 1, opts={"progress": True})
    w.d.remove_session(n)


def d_callee_leaves(w):
    n = w.fresh()
    w.d.add_session(details(n))
    w.ok(w.d.receive_message(n, reg(n, f"p.{n}")), M.Registered)
    inv(w, 1, n, f"p.{n}")
    inv(w, 1, n + 5_000_000, f"p.{n}", {"progress": True, "receive_progress": True})
    w.d.remove_session(n)


def d_self_call_leave(w):
    n = w.fresh()
    w.d.add_session(details(n))
    w.ok(w.d.receive_message(n, reg(n, f"p.{n}")), M.Registered)
    inv(w, n, n, f"p.{n}")
    w.d.remove_session(n)


def d_pending_unreg(w):
    n = w.fresh()
    r = w.ok(w.d.receive_message(3, reg(n, f"p.{n}")), M.Registered).registration_id
    i = inv(w, 1, n, f"p.{n}")
    w.ok(w.d.receive_message(3, unreg(n, r)), M.Unregistered)
    w.ok(w.d.receive_message(3, yield_(i, [n])), M.Result)


def d_no_proc(w):
    n = w.fresh()
    w.ok(w.d.receive_message(1, call(n, f"p.{n}", [n], None, {"progress": bool(n % 2)})), M.Error)


def d_taken(w):
    n = w.fresh()
    w.ok(w.d.receive_message(1, reg(n, "live.proc")), M.Error)


def d_refused(w):
    n = w.fresh()
    for m in (reg(n, f"p.{n}"), call(n, "live.proc"), unreg(n, n), yield_(n), error(INVOCATION, n, "e.x")):
        attempt(w.d.receive_message, n, m)
    for m in (unreg(n, n), yield_(n), error(INVOCATION, n, "e.x")):
        attempt(w.d.receive_message, 1, m)
    attempt(w.d.remove_session, n)
    attempt(w.d.add_session, details(1))


def d_stranger_answers(w):
    n = w.fresh()
    i = inv(w, 1, n)
    attempt(w.d.receive_message, 3, yield_(i))
    attempt(w.d.receive_message, 3, error(INVOCATION, i, f"e.{n}"))
    w.ok(w.d.receive_message(2, yield_(i, [n])), M.Result)
    attempt(w.d.receive_message, 2, yield_(i))


def d_join_leave(w):
    n = w.fresh()
    w.d.add_session(details(n, f"realm{n}", f"id{n}"))
    w.d.remove_session(n)


def R(cls, fields, *a):
    return cls(fields(*a))


def s_call(w):
    n = w.fresh()
    w.s.send_message(call(n, f"p.{n}"))
    w.s.receive_message(M.Result(M.ResultFields(n, [n])))


def s_call_error(w):
    n = w.fresh()
    w.s.send_message(call(n, f"p.{n}"))
    w.s.receive_message(error(CALL, n, f"e.{n}"))


def s_call_progress(w):
    n = w.fresh()
    w.s.send_message(call(n, f"p.{n}", None, None, {"receive_progress": True}))
    w.s.receive_message(M.Result(M.ResultFields(n, [n], None, {"progress": True})))
    w.s.receive_message(M.Result(M.ResultFields(n, [n])))


def s_reg_unreg(w):
    n = w.fresh()
    w.s.send_message(reg(n, f"p.{n}"))
    w.s.receive_message(M.Registered(M.RegisteredFields(n, n)))
    w.s.send_message(unreg(n, n))
    w.s.receive_message(M.Unregistered(M.UnregisteredFields(n)))


def s_reg_refused(w):
    n = w.fresh()
    w.s.send_message(reg(n, f"p.{n}"))
    w.s.receive_message(error(64, n, f"e.{n}"))
    w.s.send_message(unreg(n, n))
    w.s.receive_message(error(66, n, f"e.{n}"))


def s_sub_unsub(w):
    n = w.fresh()
    w.s.send_message(sub(n, f"t.{n}"))
    w.s.receive_message(M.Subscribed(M.SubscribedFields(n, n)))
    w.s.receive_message(M.Event(M.EventFields(n, n)))
    w.s.send_message(unsub(n, n))
    w.s.receive_message(M.Unsubscribed(M.UnsubscribedFields(n)))


def s_sub_refused(w):
    n = w.fresh()
    w.s.send_message(sub(n, f"t.{n}"))
    w.s.receive_message(error(32, n, f"e.{n}"))
    w.s.send_message(unsub(n, n))
    w.s.receive_message(error(34, n, f"e.{n}"))


def s_publish(w):
    n = w.fresh()
    w.s.send_message(pub(n, f"t.{n}", [n]))
    w.s.send_message(pub(n, f"t.{n}", [n], None, {"acknowledge": False}))
    w.s.send_message(pub(n, f"t.{n}", [n], None, {"acknowledge": True}))
    w.s.receive_message(M.Published(M.PublishedFields(n, n)))


def s_publish_error(w):
    n = w.fresh()
    w.s.send_message(pub(n, f"t.{n}", [n], None, {"acknowledge": True}))
    w.s.receive_message(error(16, n, f"e.{n}"))


def s_invocation(w):
    n = w.fresh()
    w.s.receive_message(M.Invocation(M.InvocationFields(n, MAX)))
    w.s.send_message(yield_(n, [n]))


def s_invocation_error(w):
    n = w.fresh()
    w.s.receive_message(M.Invocation(M.InvocationFields(n, MAX)))
    w.s.send_message(error(INVOCATION, n, f"e.{n}"))


def s_invocation_progress(w):
    n = w.fresh()
    w.s.receive_message(M.Invocation(M.InvocationFields(n, MAX)))
    w.s.receive_message(M.Invocation(M.InvocationFields(n, MAX)))
    w.s.send_message(yield_(n, [n], None, {"progress": True}))
    w.s.send_message(yield_(n, [n]))


def s_invocation_progress_error(w):
    n = w.fresh()
    w.s.receive_message(M.Invocation(M.InvocationFields(n, MAX)))
    w.s.send_message(yield_(n, [n], None, {"progress": True}))
    w.s.send_message(error(INVOCATION, n, f"e.{n}"))


def s_refused(w):
    n = w.fresh()
    for m in (M.Result(M.ResultFields(n)), M.Registered(M.RegisteredFields(n, n)), M.Subscribed(M.SubscribedFields(n, n)),
              M.Event(M.EventFields(n, n)), M.Invocation(M.InvocationFields(n, n)), error(CALL, n, "e")):
        attempt(w.s.receive_message, m)
    attempt(w.s.send_message, yield_(n))
    attempt(w.s.send_message, call(n, f"p.{n}", [object()]))
    attempt(w.s.receive, "[50")


def s_goodbye(w):
    n = w.fresh()
    w.s.send_message(M.Goodbye(M.GoodbyeFields({}, f"wamp.close.{n}")))
    w.s.receive_message(M.Goodbye(M.GoodbyeFields({}, f"wamp.close.{n}")))
    w.s.send_message(error(INVOCATION, n, f"e.{n}"))


SCEN = {k: v for k, v in list(globals().items()) if k[:2] in ("b_", "d_", "s_") and callable(v)}
NAMES = sorted(SCEN)
KIND = {"b": "broker", "d": "dealer", "s": "session"}


def run(ops, st):
    # the operations are the scenario names to cycle through
    names = [n for n, _ in ops]
    n0 = ops[0][1]
    kinds = {KIND[n[0]] for n in names}
    for kind in kinds:
        mine = [SCEN[n] for n in names if KIND[n[0]] == kind]
        w = World(kind, mine)
        sizes, done = [], 0
        for target in (n0, 2 * n0, 4 * n0, 8 * n0):
            while done < target:
                try:
                    mine[done % len(mine)](w)
                except Exception as e:
                    # the work did not end as it should: a matter for other properties, nothing to weigh here
                    st.ev("scenarios that could not be completed")
                    st.top(f"{names}: {e!r:.100}", 1)
                    return
                done += 1
            sizes.append(w.size())
        st.ev("repetitions", done)
        st.ev({"broker": "broker scenarios", "dealer": "dealer scenarios", "session": "client session scenarios"}[kind])
        st.top(f"objects reachable from a {kind}", sizes[-1])
        st.nontrivial()
        slack = max(40, n0 // 20)
        # growth with the work shows in the last two doublings; a bounded cache has filled up by then
        if sizes[3] - sizes[2] > slack and sizes[2] - sizes[1] > slack // 2:
            raise Violation(f"{kind} retains {sizes} objects after {n0}, {2*n0}, {4*n0} and {8*n0} repetitions of finished "
                            f"work: {', '.join(n for n in names if KIND[n[0]] == kind)}")


class BrokerLives(B.BrokerRun):
    def whole_life(self, rng):
        self.play(B.gen_ops(rng, 0, "quick"))
        for s in sorted(self.attached):
            self.do_leave(s)
        self.dead, self.topics, self.said = [], set(), []
        return not self.attached

    def root(self):
        return self.b


class DealerLives(D.DealerRun):
    def whole_life(self, rng):
        self.play(D.gen_ops(rng, 0, "quick"))
        for s in sorted(self.attached):
            self.do_leave(s)
        self.dead, self.closed, self.gone, self.procs = [], [], [], set()
        return not self.attached and not self.open

    def root(self):
        return self.d


class SessionLives(S.SessionRun):
    GEN = staticmethod(S.make_gen((30, 20, 20, 20, 6, 4)))

    def whole_life(self, rng):
        self.play([op for op in self.GEN(rng, 0, "quick") if op[0] != "goodbye" or op[1] == "sent"])
        e = ({}, None, None)
        for k in S.REQ:
            for rid in list(self.out[k]):
                self.do_recv(f"error:{k}", ("raw", rid), 1, *e)
        for rid in list(self.invs):
            self.do_yield(("raw", rid), None, None, None)
        for k, left, said in (("unregister", self.live, "unregistered"), ("unsubscribe", self.subs, "unsubscribed")):
            for n in range(len(left)):
                self.do_send(k, 5 * n + 1, 0, *e)
                self.do_recv(said, ("out", 0), 1, *e)
        self.done = {k: [] for k in S.REQ}
        self.ended_regs, self.ended_subs, self.finished, self.inv_reg = [], [], [], {}
        return not (any(self.out.values()) or self.invs or self.live or self.subs)

    def root(self):
        return self.s


LIVES = {"broker": BrokerLives, "dealer": DealerLives, "session": SessionLives}


def run_lives(ops, st):
    """Random histories in which everything that begins also ends, one after another in the same router or session."""
    (kind, seed, n0), = ops
    r = LIVES[kind](st, seed % 3, False) if kind == "session" else LIVES[kind](st)
    sizes, done = [], 0
    for target in (n0, 2 * n0, 4 * n0, 8 * n0):
        while done < target:
            done += 1
            if not r.whole_life(random.Random(seed * 1000003 + done)):
                st.ev("scenarios that could not be completed")
                return
        sizes.append(mem.retained(r.root()))
    st.ev(f"whole lives in a {kind}", done)
    st.top(f"objects reachable from a {kind}", sizes[-1])
    st.nontrivial()
    if sizes[3] - sizes[2] > 40 and sizes[2] - sizes[1] > 20:
        raise Violation(f"{kind} retains {sizes} objects after {n0}, {2*n0}, {4*n0} and {8*n0} histories in which everything ended")


def gen_lives(rng, i, tier):
    return [(sorted(LIVES)[i % 3], rng.randrange(2**30), 60 if tier != "thorough" else 300)]


def gen_single(rng, i, tier):
    return [(NAMES[i % len(NAMES)], N if tier == "quick" else 6 * N)]


def gen_mix(rng, i, tier):
    k = rng.choice("bds")
    pool = [n for n in NAMES if n[0] == k]
    return [(n, 2 * N) for n in rng.sample(pool, rng.randint(2, min(5, len(pool))))]


WORKLOADS = [
    FnWorkload("one-kind-of-work", len(NAMES), len(NAMES), gen_single, run),
    FnWorkload("mixed-work", 24, 240, gen_mix, run),
    FnWorkload("whole-lives", 24, 120, gen_lives, run_lives),
]

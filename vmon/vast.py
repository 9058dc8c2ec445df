"""One broker, dealer or client session holding tens of thousands of things at once.

A case is ("vast", area, salt).  Sizes grow until the next one would take too long, so a slow but right router is judged
on smaller ones.  Every area asserts only what belongs to the property it is run for."""
from vmon import clock
from vmon.core import FnWorkload
from vmon.rig import INVOCATION, M, attempt, call, details, error, need, pub, reg, reply, sub, unreg, unsub, yield_
from wampproto.broker import Broker
from wampproto.dealer import Dealer
from wampproto.session import WAMPSession

SIZES = [2000, 9000, 20000, 70000, 300000]
BUDGET = {"quick": 20, "thorough": 30}  # seconds the next size may take, if the work grows in proportion
STEPS = [1, 3, 2**20, 2**35]


def scattered(n, salt):
    """0 … n-1 in an order of its own."""
    step = [1, n - 1, 7919, 104729][salt % 4]
    while any(step % q == 0 for q in (2, 3, 5, 7) if n % q == 0):
        step += 1
    seen = [(k * step + salt) % n for k in range(n)]
    return seen if len(set(seen)) == n else list(range(n))


class Area:
    def __init__(self, prop, n, salt, st):
        self.p, self.n, self.salt, self.st = prop, n, salt, st

    def of(self, *props):
        return self.p in props

    def sid(self, k):
        return 1 + k * STEPS[self.salt % 4]

    # ------------------------------------------------------------ broker
    def topics(self):
        n, b = self.n, Broker()
        a, o = self.sid(0), self.sid(1)
        b.add_session(details(a))
        b.add_session(details(o))
        names = [f"com.v{k}" for k in range(n)]
        ids = {}
        for k, t in enumerate(names):
            got = reply(attempt(b.receive_message, a, sub(k + 1, t)), M.Subscribed)
            if self.of("C02"):
                need(got and got[1] == a and got[0].request_id == k + 1, "subscription {} of one session was acknowledged with {}", k + 1, got)
            if not got:
                return
            ids[t] = got[0].subscription_id
        if self.of("C02"):
            need(len(set(ids.values())) == n, "{} live topics share {} ids", n, len(set(ids.values())))
        self.published = set()
        self.publish_all(b, o, names, {t: [a] for t in names}, ids)
        ended = set(names[self.salt % 3::3])
        for t in sorted(ended):
            got = reply(attempt(b.receive_message, a, unsub(5, ids[t])), M.Unsubscribed)
            if self.of("C02"):
                need(got, "the end of subscription {} of {} was not confirmed", ids[t], n)
            if not got:
                return
        if self.of("C02"):
            for t in names:
                need(bool(b.has_subscription(t)) == (t not in ended), "{} of {} topics, {}: listed {}", t, n, "ended" if t in ended else "live", b.has_subscription(t))
        self.publish_all(b, o, names, {t: [] if t in ended else [a] for t in names}, ids)
        b.remove_session(a)
        if self.of("C02", "C08"):
            for t in names:
                need(not b.has_subscription(t), "{} is listed after its only subscriber, with {} others, left", t, n)
        if self.of("C01", "C08"):
            self.publish_all(b, o, names, {t: [] for t in names}, ids)

    def publish_all(self, b, o, names, want, ids):
        for k, t in enumerate(names):
            ack = k % 2 == 1
            res = attempt(b.receive_publish, o, pub(k + 1, t, [k], None, {"acknowledge": True} if ack else {}))
            if self.of("C01", "C08"):
                need(res.ok and sorted(res.val.recipients or []) == want[t], "topic {} of {}: published to {} instead of {}", k, len(names),
                     res.val.recipients if res.ok else res, want[t])
            if not res.ok:
                continue
            e = res.val.event
            if self.of("C01"):
                need((e is None) == (not want[t]) and (e is None or (e.subscription_id == ids[t] and list(e.args) == [k])),
                     "topic {} of {}: event {}", k, len(names), e)
            if self.of("C03"):
                got = res.val.ack
                need((got is not None) == ack, "publication {}: acknowledgement {}, asked for: {}", k, got, ack)
                if got is not None:
                    need(got.recipient == o and got.message.request_id == k + 1, "publication {}: acknowledged as {} to {}", k, got.message.request_id, got.recipient)
                    need(e is None or e.publication_id == got.message.publication_id, "publication {}: the event is {}, acknowledged is {}",
                         k, e and e.publication_id, got.message.publication_id)
                for i in {x for x in (e and e.publication_id, got and got.message.publication_id) if x}:
                    need(i not in self.published, "publication id {} was issued before", i)
                    self.published.add(i)

    def audience(self):
        n, b = self.n, Broker()
        sids = [self.sid(k) for k in range(n)]
        ids = set()
        for s in sids:
            b.add_session(details(s))
        for s in [sids[k] for k in scattered(n, self.salt)]:
            got = reply(attempt(b.receive_message, s, sub(3, "com.t")), M.Subscribed)
            if self.of("C02"):
                need(got and got[1] == s, "a subscriber among {} got {}", n, got)
            if not got:
                return
            ids.add(got[0].subscription_id)
        if self.of("C02"):
            need(len(ids) == 1, "{} subscribers of one topic hold {} different ids", n, len(ids))
        sid = next(iter(ids))
        self.heard(b, sids, sids)
        left = set(sids[self.salt % 3::3])
        for s in left:
            b.remove_session(s)
        rest = [s for s in sids if s not in left]
        self.heard(b, rest, sids)
        out = set(rest[::2])
        for s in out:
            got = reply(attempt(b.receive_message, s, unsub(4, sid)), M.Unsubscribed)
            if self.of("C02"):
                need(got, "one of {} subscribers is not let go", len(rest))
        rest = [s for s in rest if s not in out]
        self.heard(b, rest, sids)
        for k, s in enumerate(rest):
            if self.of("C02"):
                need(b.has_subscription("com.t"), "not listed with {} of {} subscribers left", len(rest) - k, n)
            b.remove_session(s)
        if self.of("C02", "C08"):
            need(not b.has_subscription("com.t"), "listed after the last of {} subscribers left", n)

    def heard(self, b, want, sids):
        by = want[0]
        res = attempt(b.receive_publish, by, pub(1, "com.t", ["x"]))
        if self.of("C01", "C08"):
            got = list(res.val.recipients) if res.ok else []
            need(res.ok and len(got) == len(set(got)) and set(got) == set(want), "{} live subscribers of {}: {} recipients, {} missing, {} too many",
                 len(want), len(sids), len(got), len(set(want) - set(got)), len(set(got) - set(want)))

    # ------------------------------------------------------------ dealer
    def names(self):
        n, d = self.n, Dealer()
        a, o = self.sid(0), self.sid(1)
        d.add_session(details(a))
        d.add_session(details(o))
        procs = [f"com.v{k}" for k in range(n)]
        ids = {}
        for k, p in enumerate(procs):
            got = reply(attempt(d.receive_message, a, reg(k + 1, p)), M.Registered)
            if self.of("C05"):
                need(got and got[0].request_id == k + 1, "registration {} of one session was answered {}", k + 1, got)
            if not got:
                return
            ids[p] = got[0].registration_id
        if self.of("C05"):
            need(len(set(ids.values())) == n, "{} live registrations share {} ids", n, len(set(ids.values())))
            for k in range(0, n, 97):
                need(reply(attempt(d.receive_message, o, reg(5, procs[k])), M.Error), "a second holder for name {} of {}", k, n)
        self.call_all(d, a, o, procs, ids, set(), 0)
        ended = set(procs[self.salt % 3::3])
        for p in sorted(ended):
            got = reply(attempt(d.receive_message, a, unreg(5, ids[p])), M.Unregistered)
            if self.of("C05"):
                need(got, "the end of one of {} registrations was not confirmed", n)
            if not got:
                return
        if self.of("C05"):
            for p in procs:
                need(bool(d.has_registration(p)) == (p not in ended), "{} of {}, {}: listed {}", p, n, "ended" if p in ended else "live", d.has_registration(p))
        self.call_all(d, a, o, procs, ids, ended, n)
        d.remove_session(a)
        if self.of("C05", "C08"):
            for p in procs:
                need(not d.has_registration(p), "{} is listed after its holder, with {} others, left", p, n)
        if self.of("C04", "C08"):
            self.call_all(d, a, o, procs, ids, set(procs), 2 * n)

    def call_all(self, d, a, o, procs, ids, ended, base):
        for k, p in enumerate(procs):
            res = attempt(d.receive_message, o, call(base + k + 1, p, [k], None))
            got = reply(res, M.Invocation)
            if self.of("C04", "C08"):
                if p in ended:
                    err = reply(res, M.Error)
                    need(err and err[1] == o and err[0].request_id == base + k + 1 and err[0].uri == "wamp.error.no_such_procedure",
                         "name {} of {} has no holder, but a call to it {}", k, len(procs), res)
                else:
                    need(got and got[1] == a and got[0].registration_id == ids[p] and list(got[0].args) == [k], "name {} of {}: a call to it {}", k, len(procs), res)
            if got:
                attempt(d.receive_message, a, yield_(got[0].request_id, [k]))

    def calls(self):
        """n calls open at once; a third is answered, a third fails, the rest end with their callee."""
        n, d = self.n, Dealer()
        a, c = self.sid(0), self.sid(2)
        callers = [self.sid(3 + k) for k in range(3)]
        for s in [a, c] + callers:
            d.add_session(details(s))
        attempt(d.receive_message, a, reg(1, "com.p"))
        opened = {}
        for k in range(n):
            s, rid = callers[k % 3], k // 3 + 1
            got = reply(attempt(d.receive_message, s, call(rid, "com.p", [k], None, {"receive_progress": True, "progress": True})), M.Invocation)
            if self.of("C04"):
                need(got and got[1] == a, "call {} went to {}", k, got)
            if not got:
                return
            opened[k] = (s, rid, got[0].request_id, got[0].registration_id)
        if self.of("C06"):
            need(len({i for _, _, i, _ in opened.values()}) == n, "{} open calls share {} invocations", n, len({i for _, _, i, _ in opened.values()}))
        order = scattered(n, self.salt)
        for k in order:
            s, rid, i, r = opened[k]
            got = reply(attempt(d.receive_message, s, call(rid, "com.p", ["last"], None, {"receive_progress": True})), M.Invocation)
            if self.of("C07"):
                need(got and got[1] == a and got[0].request_id == i and got[0].registration_id == r and not got[0].details.get("progress"),
                     "the last chunk of call {} of {}: {}", k, n, got)
            got = reply(attempt(d.receive_message, a, yield_(i, [k], None, {"progress": True})), M.Result)
            if self.of("C07"):
                need(got and got[1] == s and got[0].request_id == rid and got[0].details.get("progress") is True, "progress of call {} of {}: {}", k, n, got)
        for k in order:
            s, rid, i, r = opened[k]
            if k % 3 == 2:
                continue
            m = yield_(i, [k]) if k % 3 else error(INVOCATION, i, "e.x", [k])
            got = reply(attempt(d.receive_message, a, m), M.Result if k % 3 else M.Error)
            if self.of("C06"):
                need(got and got[1] == s and got[0].request_id == rid and list(got[0].args) == [k], "the answer to call {} of {} open: {}", k, n, got)
                need(not attempt(d.receive_message, a, m).ok, "call {} of {} was answered twice", k, n)
        d.remove_session(a)
        attempt(d.receive_message, c, reg(2, "com.p"))
        if self.of("C08"):
            for k in order:
                s, rid, i, r = opened[k]
                need(not attempt(d.receive_message, c, yield_(i, [k])).ok, "the invocation of call {} can be answered by another session", k)
                got = reply(attempt(d.receive_message, s, call(rid, "com.p", [k])), M.Invocation)
                need(got and got[1] == c and got[0].request_id != i, "call {} of {} under the id of one whose callee left: {}", k, n, got)

    # ------------------------------------------------------------ client session
    def requests(self):
        n, s = self.n, WAMPSession()
        kinds = {
            "call": (lambda i: call(i, "p"), lambda i: M.Result(M.ResultFields(i)), 48),
            "publish": (lambda i: pub(i, "t", options={"acknowledge": True}), lambda i: M.Published(M.PublishedFields(i, i)), 16),
            "register": (lambda i: reg(i, "p"), lambda i: M.Registered(M.RegisteredFields(i, i)), 64),
            "subscribe": (lambda i: sub(i, "t"), lambda i: M.Subscribed(M.SubscribedFields(i, i)), 32),
        }
        ids = [self.sid(k) for k in range(n)]
        order = scattered(n, self.salt)
        for kind, (make, answer, code) in kinds.items():
            for i in ids:
                res = attempt(s.send_message, make(i))
                if self.of("C12"):
                    need(res.ok, "one of {} requests of kind {} was {}", n, kind, res)
            for k in order:
                fails = k % 5 == 0
                m = error(code, ids[k], "e.x") if fails else answer(ids[k])
                res = attempt(s.receive_message, m)
                if self.of("C12"):
                    need(res.ok, "the answer to request {} of {} outstanding, of kind {}, was {}", k, n, kind, res)
                    need(not attempt(s.receive_message, m).ok, "the answer to request {} of {}, of kind {}, was accepted twice", k, n, kind)
        live = {k for k in range(n) if k % 5}
        self.use(s, ids, order, live, live)
        ended = {k for k in live if k % 3 == self.salt % 3}
        for k in sorted(ended):
            for kind, m, r in ((1, unreg(k + 1, ids[k]), M.Unregistered(M.UnregisteredFields(k + 1))), (2, unsub(k + 1, ids[k]), M.Unsubscribed(M.UnsubscribedFields(k + 1)))):
                attempt(s.send_message, m)
                res = attempt(s.receive_message, r)
                if self.of("C12"):
                    need(res.ok, "the end of one of {} {} was {}", n, "registrations" if kind == 1 else "subscriptions", res)
        self.use(s, ids, order, live - ended, live)

    def use(self, s, ids, order, live, before):
        n = self.n
        if self.of("C14"):
            for k in order:
                res = attempt(s.receive_message, M.Event(M.EventFields(ids[k], k + 1)))
                need(res.ok == (k in live), "an event for subscription {} of {}, {}, was {}", k, n, "live" if k in live else "ended or never confirmed", res if not res.ok else "accepted")
        if self.of("C13"):
            base = 2**52 + (n if live != before else 0) * 2
            for k in order:
                res = attempt(s.receive_message, M.Invocation(M.InvocationFields(base + k, ids[k])))
                need(res.ok == (k in live), "an invocation of registration {} of {}, {}, was {}", k, n, "live" if k in live else "ended or never confirmed", res if not res.ok else "accepted")
            for k in reversed(order):
                for turn in range(2):
                    res = attempt(s.send_message, yield_(base + k, [k]))
                    need(res.ok == (k in live and not turn), "yield {} for invocation {} of {} open was {}", turn + 1, k, len(live), res if not res.ok else "accepted")


AREAS = {"C01": ["topics", "audience"], "C02": ["topics", "audience"], "C03": ["topics"], "C04": ["names", "calls"], "C05": ["names"], "C06": ["calls"],
         "C07": ["calls"], "C08": ["topics", "audience", "names", "calls"], "C12": ["requests"], "C13": ["requests"], "C14": ["requests"]}


def workload(prop):
    def gen(rng, i, tier):
        return [("vast", AREAS[prop][i % len(AREAS[prop])], rng.randrange(12), tier)]

    def run(ops, st):
        for _, area, salt, tier in ops:
            for n, after in zip(SIZES, SIZES[1:] + [None]):
                if n > 70000 and tier == "quick":
                    break
                t0 = clock.real_time()
                getattr(Area(prop, n, salt, st), area)()
                st.ev(f"things held at once: {n}")
                st.top("things held at once", n)
                st.nontrivial()
                if after and (clock.real_time() - t0) * after / n > BUDGET[tier]:
                    break
    return FnWorkload("vast", 2 * len(AREAS[prop]), 12 * len(AREAS[prop]), gen, run)

from vmon import brokerlab as L, gen, vast
from vmon.core import FnWorkload
from vmon.rig import M, attempt, details, need, pub, reply

RULE = (
    "a case is one history on one broker, each live and each ended subscription probed at its end; non-trivial: "
    "two sessions shared a topic or a subscription ended"
)
NEEDS = ["earlier answers looked at again", "subscriptions acknowledged", "ids shared", "ended by unsubscribe", "ended by departure",
         "foreign or dead ids refused", "topics listed", "topics not listed", "live at the end"]
PROBER = 2**52 + 12345


class Mon(L.BrokerRun):
    KEEPS = ("Subscribed", "Unsubscribed")

    def __init__(self, st):
        super().__init__(st)
        self.do_join(PROBER)

    def on_join(self, sid, res):
        if sid not in self.attached:
            need(res.ok, "joining of {} was {}", sid, res)

    def on_sub(self, sid, topic, rid, res):
        if sid not in self.attached:
            return
        got = reply(res, M.Subscribed)
        need(got, "subscribing of attached {} to {} {}", sid, topic, res)
        msg, to = got
        need(to == sid, "SUBSCRIBED for {} went to {}", sid, to)
        need(msg.request_id == rid, "SUBSCRIBED for request {} names {}", rid, msg.request_id)
        self.st.ev("subscriptions acknowledged")
        for t, d in self.subs.items():
            for s, i in d.items():
                if t == topic:
                    need(i == msg.subscription_id, "{} got id {} for {} but {} holds {}", sid, msg.subscription_id, t, s, i)
                    if s != sid:
                        self.st.nontrivial()
                        self.st.ev("ids shared")
                else:
                    need(i != msg.subscription_id, "{} and {} share id {}", t, topic, i)

    def on_unsub(self, sid, subid, rid, res, held):
        if sid not in self.attached:
            return
        got = reply(res, M.Unsubscribed)
        if held:
            need(got, "unsubscribing {} held by {} {}", subid, sid, res)
            need(got[1] == sid and got[0].request_id == rid, "UNSUBSCRIBED for {} of {}: {}", rid, sid, res)
            self.st.ev("ended by unsubscribe")
            self.st.nontrivial()
        else:
            need(got is None, "{} ended subscription {} it does not hold", sid, subid)
            self.st.ev("foreign or dead ids refused")

    def on_leave(self, sid, res):
        if sid in self.attached:
            need(res.ok, "leaving of {} was {}", sid, res)
            n = len(self.owned(sid))
            self.st.ev("ended by departure", n)
            if n:
                self.st.nontrivial()

    def after(self, op):
        for t in self.topics if len(self.topics) < 12 else [op[2] if op[0] in ("sub", "pub") else min(self.topics)]:
            self.look(t)

    def look(self, t):
        live = bool(self.holders(t))
        got = attempt(self.b.has_subscription, t)
        need(got.ok and bool(got.val) == live, "has_subscription({}) {} but it is held by {}", t, got, list(self.holders(t)))
        self.st.ev("topics listed" if live else "topics not listed")

    def finish(self):
        for t in self.topics:
            self.look(t)
            res = attempt(self.b.receive_publish, PROBER, pub(1, t))
            need(res.ok, "a publication to {} was {}", t, res)
            got = set(res.val.recipients or [])
            need(got == set(self.holders(t)), "in effect for {}: {}; acknowledged and not ended: {}",
                 t, sorted(got), sorted(self.holders(t)))
        live = [(s, t, i) for t, d in self.subs.items() for s, i in d.items()]
        self.st.ev("live at the end", len(live))
        for n, (s, t, i) in enumerate(live):
            if n < 40:
                others = [x for x in self.attached if x not in self.holders(t)][:1]
                for o in others:
                    self.do_unsub(o, ("raw", i), 3)
                self.look(t)
            self.do_unsub(s, ("raw", i), 4)
            if n < 40:
                self.look(t)
                self.do_unsub(s, ("raw", i), 5)
        for t in self.topics:
            self.look(t)


def rejoin_probe(ops):
    return ops + [("sub", 1, "io.xconn.test", 70), ("sub", 2, "io.xconn.tes", 71)]


WORKLOADS = [
    FnWorkload("histories", 3000, 80000, L.gen_ops, lambda ops, st: Mon(st).play(ops)),
    FnWorkload("all-short-histories", L.exhaustive_count(3), L.exhaustive_count(5),
               lambda rng, i, tier: rejoin_probe(L.gen_exhaustive(rng, i, tier)), lambda ops, st: Mon(st).play(ops)),
    FnWorkload("crowds", 8, 150, L.gen_crowd, lambda ops, st: Mon(st).play(ops), sig=lambda ops: f"{len(ops)} {ops[-9:]}"),
    FnWorkload("marathons", 4, 16, L.gen_marathon, lambda ops, st: Mon(st).play(ops), sig=lambda ops: f"{len(ops)} {ops[-9:]}"),
    vast.workload("C02"),
]

from vmon import brokerlab as L, depths, gen, vast
from vmon.core import FnWorkload, short
from vmon.rig import M, need

RULE = (
    "a case is one history of joins, leaves, subscribes, unsubscribes and publishes on one broker; non-trivial: "
    "an attached session published to a topic with at least one live subscription"
)
NEEDS = ["earlier answers looked at again", "the same message published again", "publications with recipients", "publications without recipients", "publications after an unsubscribe",
         "publications after a departure", "publications with several recipients", "publications compared again at the end"]
ASSUMPTIONS = ["the publisher receives its own event if it is subscribed (pinned by the existing tests)",
               "the options of WAMP features this library does not offer (match, exclude, eligible, ...) change nothing"]


class Mon(L.BrokerRun):
    KEEPS = ("Event",)

    ended = left = False

    def __init__(self, st):
        super().__init__(st)
        self.past = []  # publications, what was said about each

    def on_unsub(self, sid, subid, rid, res, held):
        self.ended = self.ended or bool(held)

    def after(self, op):
        """What was said about earlier publications still stands, whoever came or went since."""
        if op[0] != "pub":
            for x in self.past[-4:]:
                self.still(*x)

    def finish(self):
        for x in self.past:
            self.still(*x)
            self.st.ev("publications compared again at the end")

    def still(self, topic, pub, recipients, event):
        got = list(pub.recipients or [])
        need(got == recipients, "the recipients of an earlier publication to {} were {}, now they are {}", topic, recipients, got)
        now = None if pub.event is None else short(pub.event.marshal(), 400)
        need(now == event, "the event of an earlier publication to {} was {}, now it is {}", topic, event, now)

    def on_leave(self, sid, res):
        self.left = self.left or bool(self.owned(sid))

    def on_pub(self, sid, topic, rid, opts, args, kwargs, res):
        if sid not in self.attached:
            return
        st = self.st
        need(res.ok, "a publication of attached session {} to {} was {}", sid, topic, res)
        want = self.holders(topic)
        got = list(res.val.recipients or [])
        need(len(set(got)) == len(got), "a recipient is named twice for {}: {}", topic, got)
        need(set(got) == set(want), "recipients for {}: {}; live subscriptions: {}", topic, sorted(got), sorted(want))
        event = res.val.event
        if len(self.past) < 400:
            self.past.append((topic, res.val, got, None if event is None else short(event.marshal(), 400)))
        if not want:
            need(event is None, "an event without a subscriber of {}: {!r}", topic, repr(event))
            st.ev("publications without recipients")
            return
        st.nontrivial()
        st.ev("publications with recipients")
        st.ev("publications with several recipients", len(want) > 1)
        st.ev("publications after an unsubscribe", self.ended)
        st.ev("publications after a departure", self.left)
        st.ev("deliveries checked", len(want))
        st.top("recipients of one publication", len(want))
        need(isinstance(event, M.Event), "no event for {} subscribers of {}", len(want), topic)
        for s, i in want.items():
            need(event.subscription_id == i, "the event names subscription {} but {} was given {}",
                 event.subscription_id, s, i)
        need(gen.same_payload(event.args, event.kwargs, args, kwargs), "event with {} {} for published {} {}", event.args, event.kwargs, args, kwargs)


def probe_all(ops):
    """Exhaustive histories end with a publication to each topic."""
    return ops + [("join", 3)] + [("pub", 3, t, 6, {}, ["x"], {"k": 1}) for t in ("io.xconn.test", "io.xconn.tes")]


WORKLOADS = [
    FnWorkload("histories", 4000, 120000, L.gen_ops, lambda ops, st: Mon(st).play(ops)),
    FnWorkload("all-short-histories", L.exhaustive_count(3), L.exhaustive_count(5),
               lambda rng, i, tier: probe_all(L.gen_exhaustive(rng, i, tier)), lambda ops, st: Mon(st).play(ops)),
    FnWorkload("crowds", 18, 400, L.gen_crowd, lambda ops, st: Mon(st).play(ops), sig=lambda ops: f"{len(ops)} {ops[-9:]}"),
    FnWorkload("marathons", 4, 16, L.gen_marathon, lambda ops, st: Mon(st).play(ops), sig=lambda ops: f"{len(ops)} {ops[-9:]}"),
    vast.workload("C01"),
    depths.workload("C01"),
]

from vmon import brokerlab as L, gen, vast
from vmon.core import FnWorkload
from vmon.rig import M, T, need

RULE = (
    "a case is one history on one broker; non-trivial: a publication asked for an acknowledgement and another did not"
)
NEEDS = ["earlier answers looked at again", "the same message published again", "acknowledged with subscribers", "acknowledged without subscribers", "not asked, none given",
         "publication ids compared with the event"]


class Mon(L.BrokerRun):
    KEEPS = ("Published",)

    def __init__(self, st):
        super().__init__(st)
        self.pubids = {}
        self.n = 0
        self.kinds = set()

    def on_pub(self, sid, topic, rid, opts, args, kwargs, res):
        if sid not in self.attached:
            return
        need(res.ok, "a publication of attached session {} to {} was {}", sid, topic, res)
        self.n += 1
        st, p = self.st, res.val
        asked = opts.get("acknowledge", False) is True
        ids = set()
        if p.event is not None:
            ids.add(p.event.publication_id)
        if asked:
            a = p.ack
            need(isinstance(a, T.MessageWithRecipient) and isinstance(a.message, M.Published),
                 "acknowledgement asked for by {} but got {!r}", sid, repr(a))
            need(a.recipient == sid, "PUBLISHED for {} went to {}", sid, a.recipient)
            need(a.message.request_id == rid, "PUBLISHED for request {} names {}", rid, a.message.request_id)
            ids.add(a.message.publication_id)
            st.ev("acknowledged with subscribers" if self.holders(topic) else "acknowledged without subscribers")
            st.ev("publication ids compared with the event", p.event is not None)
        else:
            need(p.ack is None, "acknowledgement nobody asked for: {!r}", repr(p.ack))
            st.ev("not asked, none given")
        self.kinds.add(asked)
        if len(self.kinds) == 2:
            st.nontrivial()
        need(len(ids) <= 1, "the acknowledgement and the event name different publications: {}", ids)
        for i in ids:
            need(i not in self.pubids, "publication id {} was used by publications {} and {}", i, self.pubids.get(i), self.n)
            self.pubids[i] = self.n
            st.ev("publication ids seen")


def tail(ops):
    for s, t in ((1, "io.xconn.test"), (1, "io.xconn.tes"), (2, "io.xconn.test")):
        ops = ops + [("pub", s, t, 6, {"acknowledge": True}, None, None), ("pub", s, t, 6, {"acknowledge": False}, None, None),
                     ("pub", s, t, 6, {}, None, None)]
    return ops


WORKLOADS = [
    FnWorkload("histories", 4000, 120000, L.gen_ops, lambda ops, st: Mon(st).play(ops)),
    FnWorkload("all-short-histories", L.exhaustive_count(3), L.exhaustive_count(4),
               lambda rng, i, tier: tail(L.gen_exhaustive(rng, i, tier)), lambda ops, st: Mon(st).play(ops)),
    FnWorkload("crowds", 8, 200, L.gen_crowd, lambda ops, st: Mon(st).play(ops), sig=lambda ops: f"{len(ops)} {ops[-9:]}"),
    FnWorkload("marathons", 4, 16, L.gen_marathon, lambda ops, st: Mon(st).play(ops), sig=lambda ops: f"{len(ops)} {ops[-9:]}"),
    vast.workload("C03"),
]

from vmon import sessionlab as L, vast
from vmon.core import FnWorkload
from vmon.rig import need

RULE = (
    "a case is one exchange on one client session with subscriptions that come and go; non-trivial: an event was "
    "accepted and another refused"
)
NEEDS = ["events accepted", "events refused", "events for an ended subscription", "events while the end is pending",
         "events for a pending subscription", "events after a refused unsubscribe", "the same event again"]


class Mon(L.SessionRun):
    def __init__(self, *a):
        super().__init__(*a)
        self.seen = set()
        self.kept = set()

    def on_reply(self, kind, req, rid, outstanding, wire, res):
        if kind == "error:unsubscribe" and outstanding and res.ok:
            self.kept.add(self.out["unsubscribe"][rid])

    def on_event(self, subid, expected, wire, res):
        st = self.st
        what = f"an event for subscription {subid} ({'live' if expected else 'not live'})"
        need(res.ok == expected, "{} was {}", what, res if not res.ok else "accepted")
        if res.ok:
            L.check_content(res.val, wire, what)
        st.ev("events accepted" if expected else "events refused")
        st.ev("events for an ended subscription", not expected and subid in self.ended_subs)
        st.ev("events for a pending subscription", not expected and subid in self.out["subscribe"])
        st.ev("events while the end is pending", expected and subid in self.out["unsubscribe"].values())
        st.ev("events after a refused unsubscribe", expected and subid in self.kept)
        self.seen.add(expected)
        if len(self.seen) == 2:
            st.nontrivial()

    def finish(self):
        for n, i in enumerate(sorted(self.subs)[:20] + self.ended_subs[:20]):
            for _ in range(3):
                self.do_recv("event", ("raw", i), 2**40 + n, {}, [n], None)
            self.st.ev("the same event again", i in self.subs)


WORKLOADS = [
    FnWorkload("exchanges", 8000, 250000, L.make_gen((3, 4, 45, 3, 3, 40)), L.runner(Mon)),
    FnWorkload("all-short", L.count(L.PS, 4), L.count(L.PS, 5), L.gen_short(L.PS), L.runner(Mon)),
    FnWorkload("crowds", 8, 120, L.gen_crowd(("subscriptions",)), L.runner(Mon), sig=lambda ops: f"{len(ops)} {ops[-9:]}"),
    FnWorkload("marathons", 2, 12, L.gen_marathon(("events", "subscriptions")), L.runner(Mon), sig=lambda ops: f"{len(ops)} {ops[-9:]}"),
    vast.workload("C14"),
]

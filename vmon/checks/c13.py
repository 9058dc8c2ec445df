from vmon import sessionlab as L, vast
from vmon.core import FnWorkload
from vmon.rig import need

RULE = (
    "a case is one exchange on one client session with registrations that come and go; non-trivial: an invocation was "
    "accepted and one was refused, or a yield was allowed and one was refused"
)
NEEDS = ["invocations accepted", "invocations refused", "invocations for an ended registration",
         "invocations while the end is pending", "yields allowed", "yields refused", "progressive yields allowed",
         "yields after a final yield", "yields after an error", "invocations for a pending registration",
         "invocations after a refused unregister",
         "invocations continued after their registration ended"]
ASSUMPTIONS = ["an ERROR for an invocation that is not open may be sent (pinned by the existing tests)"]


class Mon(L.SessionRun):
    def __init__(self, *a):
        super().__init__(*a)
        self.seen = set()
        self.by_error = set()
        self.kept = set()

    def on_reply(self, kind, req, rid, outstanding, wire, res):
        if kind == "error:unregister" and outstanding and res.ok:
            self.kept.add(self.out["unregister"][rid])

    def mark(self, x):
        self.seen.add(x)
        if {"a", "r"} <= self.seen or {"ya", "yr"} <= self.seen:
            self.st.nontrivial()

    def on_invocation(self, rid, regid, expected, wire, res):
        st = self.st
        what = f"an invocation for registration {regid} ({'live' if expected else 'not live'})"
        if not expected and rid in self.invs:
            if self.inv_reg[rid] == regid:
                need(res.ok, "a further chunk of open invocation {}, whose registration has ended, was {}", rid, res)
                L.check_content(res.val, wire, what)
                st.ev("invocations continued after their registration ended")
            return  # an open invocation under another registration id: not specified
        need(res.ok == expected, "{} was {}", what, res if not res.ok else "accepted")
        if res.ok:
            L.check_content(res.val, wire, what)
        st.ev("invocations accepted" if expected else "invocations refused")
        st.ev("invocations for an ended registration", not expected and regid in self.ended_regs)
        st.ev("invocations for a pending registration", not expected and regid in self.out["register"])
        st.ev("invocations while the end is pending", expected and regid in self.out["unregister"].values())
        st.ev("invocations after a refused unregister", expected and regid in self.kept)
        self.mark("a" if expected else "r")
        if expected:
            self.by_error.discard(rid)

    def on_yield(self, rid, expected, progress, res):
        need(res.ok == expected, "a yield (progress={}) for invocation {} ({}) was {}", progress, rid,
             "open" if expected else "not open", res if not res.ok else "allowed")
        st = self.st
        st.ev("yields allowed" if expected else "yields refused")
        st.ev("progressive yields allowed", expected and progress)
        st.ev("yields after an error", not expected and rid in self.by_error)
        st.ev("yields after a final yield", not expected and rid in self.finished and rid not in self.by_error)
        self.mark("ya" if expected else "yr")

    def on_fail(self, rid, expected, res):
        if expected:
            need(res.ok, "an error for open invocation {} was {}", rid, res)
            self.by_error.add(rid)

    def finish(self):
        for n, rid in enumerate(list(self.invs)):
            self.do_yield(("raw", rid), True, None, None)
            if n % 2:
                self.do_fail(("raw", rid), None, None)
            else:
                self.do_yield(("raw", rid), None, None, None)
            self.do_yield(("raw", rid), None, None, None)
            self.do_yield(("raw", rid), True, None, None)
        for n, regid in enumerate(sorted(self.live)[:20] + self.ended_regs[:20]):
            self.do_recv("invocation", ("raw", regid), 2**40 + n, {}, None, None)


E = ({}, None, None)
PREFIX = [("send", "register", 1, "p", *E), ("recv", "registered", ("raw", 1), 1, *E)]
WORKLOADS = [
    FnWorkload("exchanges", 8000, 250000, L.make_gen((6, 30, 6, 2, 60, 2)), L.runner(Mon)),
    FnWorkload("all-short", L.count(L.RPC, 3), L.count(L.RPC, 4), L.gen_short(L.RPC, PREFIX), L.runner(Mon)),
    FnWorkload("crowds", 8, 120, L.gen_crowd(("registrations",)), L.runner(Mon), sig=lambda ops: f"{len(ops)} {ops[-9:]}"),
    FnWorkload("marathons", 2, 12, L.gen_marathon(("invocations", "registrations")), L.runner(Mon), sig=lambda ops: f"{len(ops)} {ops[-9:]}"),
    vast.workload("C13"),
]

from vmon import depths, gen, sessionlab as L, vast
from vmon.core import FnWorkload
from vmon.rig import M, need

RULE = (
    "a case is one exchange between an application, a client session and a router; non-trivial: a reply was accepted "
    "and another refused"
)
NEEDS = [f"{k} {w}" for k in list(L.REPLY) + [f"error:{r}" for r in L.REQ] for w in ("accepted", "refused")] + [
    "progressive results accepted", "replies for an id outstanding as another kind", "said goodbye with requests outstanding", "GOODBYE handed over", "ABORT handed over", "further chunks sent"]
ASSUMPTIONS = ["no request id is used again for the same kind of request while it is outstanding",
               "UNREGISTERED and UNSUBSCRIBED are delivered only while what they end is live, as honest routers do"]


class Mon(L.SessionRun):
    seen = ()

    def on_send(self, kind, rid, target, res):
        need(res.ok, "sending a {} was {}", kind, res)

    def on_reply(self, kind, req, rid, outstanding, wire, res):
        st = self.st
        what = f"{kind} for request {rid} ({'' if outstanding else 'not '}outstanding)"
        need(res.ok == outstanding, "{} was {}", what, res if not res.ok else "accepted")
        st.ev(f"{kind} {'accepted' if outstanding else 'refused'}")
        self.seen = set(self.seen) | {outstanding}
        if len(self.seen) == 2:
            st.nontrivial()
        if not outstanding and any(rid in d for k, d in self.out.items() if k != req):
            st.ev("replies for an id outstanding as another kind")
        if res.ok:
            L.check_content(res.val, wire, what)
            st.ev("progressive results accepted", kind == "result" and bool(wire[2].get("progress")))

    def on_goodbye(self, sent, wire, res):
        st = self.st
        if sent:
            need(res.ok, "sending a GOODBYE was {}", res)
            st.ev("said goodbye with requests outstanding", any(self.out.values()))
            return
        what = "GOODBYE" if wire[0] == 6 else "ABORT"
        need(res.ok and isinstance(res.val, M.Goodbye if wire[0] == 6 else M.Abort), "{} from the router was {}", what, res if not res.ok else type(res.val).__name__)
        need(gen.same(res.val.details, wire[1]) and res.val.reason == wire[2], "{} {} was handed over as {} {}", what, wire, res.val.details, res.val.reason)
        if wire[0] == 3:
            a = lambda i: wire[i] if len(wire) > i else None
            need(gen.same_payload(res.val.args, res.val.kwargs, a(3), a(4)), "{} {} was handed over with {} {}", what, wire, res.val.args, res.val.kwargs)
        st.ev(what + " handed over")

    def finish(self):
        # everything outstanding is settled once, and only once
        for req, ids in self.out.items():
            rep = next(k for k, v in L.REPLY.items() if v == req)
            for n, rid in enumerate(sorted(ids)):
                kind = f"error:{req}" if n % 2 else rep
                for _ in range(2):
                    self.do_recv(kind, ("raw", rid), 2**50 + rid % 1000 + 7 * n, {}, None, None)


WORKLOADS = [
    FnWorkload("exchanges", 8000, 250000, L.make_gen((30, 20, 20, 20, 6, 4)), L.runner(Mon)),
    FnWorkload("rpc-all-short", L.count(L.RPC, 3), L.count(L.RPC, 4), L.gen_short(L.RPC), L.runner(Mon)),
    FnWorkload("pubsub-all-short", L.count(L.PS, 3), L.count(L.PS, 5), L.gen_short(L.PS), L.runner(Mon)),
    FnWorkload("crowds", 20, 200, L.gen_crowd(("calls", "publications", "subscriptions", "registrations")), L.runner(Mon), sig=lambda ops: f"{len(ops)} {ops[-9:]}"),
    FnWorkload("marathons", 4, 16, L.gen_marathon(("calls", "publications", "subscriptions", "registrations")), L.runner(Mon), sig=lambda ops: f"{len(ops)} {ops[-9:]}"),
    vast.workload("C12"),
    depths.workload("C12"),
]

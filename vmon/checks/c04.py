from vmon import dealerlab as L, depths, gen, vast
from vmon.core import FnWorkload
from vmon.rig import CALL, M, body_of, need, opaque, reply, same_body

RULE = (
    "a case is one history of joins, leaves, registrations, calls and answers on one dealer; non-trivial: a call was "
    "routed to a registered procedure"
)
NEEDS = ["earlier answers looked at again", "calls routed", "calls to nobody", "calls to a re-registered procedure", "calls after a departure",
         "calls to a procedure given up", "opaque calls routed"]


class Mon(L.DealerRun):
    KEEPS = ("Invocation", "Error48")

    def __init__(self, st):
        super().__init__(st)
        self.ever = {}
        self.given_up = set()
        self.left = False

    def on_leave(self, sid, res, hit):
        for p, (s, _) in self.regs.items():
            if s == sid:
                self.left = True
                self.given_up.add(p)

    def on_unreg(self, sid, regid, rid, res, held):
        self.given_up.update(held)

    def on_call(self, sid, proc, rid, opts, args, kwargs, res):
        if sid not in self.attached:
            return
        st = self.st
        holder = self.regs.get(proc)
        if holder is None:
            got = reply(res, M.Error)
            need(got, "a call of {} to {}, which nobody holds, {}", sid, proc, res)
            m, to = got
            need(to == sid, "the error for the call of {} went to {}", sid, to)
            need(m.message_type == CALL and m.request_id == rid and m.uri == "wamp.error.no_such_procedure",
                 "a call {} to {}, which nobody holds, {}", rid, proc, res)
            st.ev("calls to nobody")
            st.ev("calls to a procedure given up", proc in self.given_up)
            return
        st.nontrivial()
        got = reply(res, M.Invocation)
        need(got, "a call of {} to {}, held by {}, {}", sid, proc, holder[0], res)
        m, to = got
        need(to == holder[0], "a call to {}, held by {}, went to {}", proc, holder[0], to)
        need(m.registration_id == holder[1], "the invocation names registration {} but {} is {}",
             m.registration_id, proc, holder[1])
        need(same_body(m, args, kwargs), "invocation with {} for {} {}", body_of(m), args, kwargs)
        st.ev("opaque calls routed", opaque(args))
        st.ev("calls routed")
        st.ev("calls to a re-registered procedure", proc in self.given_up)
        st.ev("calls after a departure", self.left)
        st.top("procedures registered", len(self.regs))


def tail(ops):
    for p in ("io.xconn.test", "io.xconn.test2"):
        ops = ops + [("join", 9), ("call", 9, p, 50, {}, ["x"], {"k": 1})]
    return ops


WORKLOADS = [
    FnWorkload("histories", 4000, 120000, L.gen_ops, lambda ops, st: Mon(st).play(ops)),
    FnWorkload("all-short-histories", L.exhaustive_count(3), L.exhaustive_count(4),
               lambda rng, i, tier: tail(L.gen_exhaustive(rng, i, tier)), lambda ops, st: Mon(st).play(ops)),
    FnWorkload("crowds", 12, 200, L.gen_crowd, lambda ops, st: Mon(st).play(ops), sig=lambda ops: f"{len(ops)} {ops[-9:]}"),
    FnWorkload("marathons", 3, 12, L.gen_marathon, lambda ops, st: Mon(st).play(ops), sig=lambda ops: f"{len(ops)} {ops[-9:]}"),
    vast.workload("C04"),
    depths.workload("C04"),
]

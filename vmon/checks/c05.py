from vmon import dealerlab as L, vast
from vmon.core import FnWorkload
from vmon.rig import M, REGISTER, attempt, call, need, reply

RULE = (
    "a case is one history on one dealer, each live and each ended registration probed at its end; non-trivial: a "
    "registration was refused because the procedure is held, or one ended"
)
NEEDS = ["earlier answers looked at again", "registered", "already held", "ended by unregister", "ended by departure", "foreign or dead ids refused",
         "procedures listed", "procedures not listed", "freed name registered again", "live at the end"]
PROBER = 2**52 + 12345


class Mon(L.DealerRun):
    KEEPS = ("Registered", "Unregistered", "Error64")

    def __init__(self, st):
        super().__init__(st)
        self.do_join(PROBER)
        self.freed = set()
        self.probe_rid = 0

    def on_join(self, sid, res):
        if sid not in self.attached:
            need(res.ok, "joining of {} was {}", sid, res)

    def on_leave(self, sid, res, hit):
        if sid in self.attached:
            need(res.ok, "leaving of {} was {}", sid, res)
            mine = [p for p, (s, _) in self.regs.items() if s == sid]
            self.freed.update(mine)
            if mine:
                self.st.ev("ended by departure", len(mine))
                self.st.nontrivial()

    def on_reg(self, sid, proc, rid, res):
        if sid not in self.attached:
            return
        if proc in self.regs:
            got = reply(res, M.Error)
            need(got, "registering {}, held by {}, for {} {}", proc, self.regs[proc][0], sid, res)
            need(got[1] == sid and got[0].message_type == REGISTER and got[0].request_id == rid
                 and got[0].uri == "wamp.error.procedure_already_exists",
                 "registering {} twice for {} under request {} {}", proc, sid, rid, res)
            self.st.ev("already held")
            self.st.nontrivial()
            return
        got = reply(res, M.Registered)
        need(got, "registering free {} for attached {} {}", proc, sid, res)
        need(got[1] == sid and got[0].request_id == rid, "REGISTERED for request {} of {}: {}", rid, sid, res)
        for p, (s, i) in self.regs.items():
            need(i != got[0].registration_id, "{} and {} share registration id {}", p, proc, i)
        self.st.ev("registered")
        self.st.ev("freed name registered again", proc in self.freed)

    def on_unreg(self, sid, regid, rid, res, held):
        if sid not in self.attached:
            return
        got = reply(res, M.Unregistered)
        if held:
            need(got, "unregistering {} held by {} {}", regid, sid, res)
            need(got[1] == sid and got[0].request_id == rid, "UNREGISTERED for {} of {}: {}", rid, sid, res)
            self.freed.update(held)
            self.st.ev("ended by unregister")
            self.st.nontrivial()
        else:
            need(got is None, "{} ended registration {} it does not hold", sid, regid)
            self.st.ev("foreign or dead ids refused")

    def after(self, op):
        for p in self.procs if len(self.procs) < 10 else [op[2] if op[0] in ("reg", "call") else min(self.procs)]:
            self.look(p)

    def look(self, p):
        live = p in self.regs
        got = attempt(self.d.has_registration, p)
        need(got.ok and bool(got.val) == live, "has_registration({}) {} but its holder is {}", p, got, self.regs.get(p))
        self.st.ev("procedures listed" if live else "procedures not listed")

    def destination(self, p):
        self.probe_rid += 1
        got = reply(attempt(self.d.receive_message, PROBER, call(self.probe_rid, p)), M.Invocation)
        to = got[1] if got else None
        want = self.regs.get(p, (None, None))[0]
        need(to == want, "{} is held by {} as acknowledged, but a call to it goes to {}", p, want, to)

    def finish(self):
        for p in sorted(self.procs):
            self.look(p)
            self.destination(p)
        live = [(s, p, i) for p, (s, i) in self.regs.items()]
        self.st.ev("live at the end", len(live))
        for s, p, i in live:
            for o in [x for x in sorted(self.attached) if x != s][:2]:
                self.do_unreg(o, ("raw", i), 3)
                self.do_reg(o, p, 6)
            self.look(p)
            self.destination(p)
            self.do_unreg(s, ("raw", i), 4)
            self.look(p)
            self.do_unreg(s, ("raw", i), 5)
            self.destination(p)
        for s, p, i in live[::3]:
            for o in sorted(self.attached)[:1]:
                self.do_reg(o, p, 8)
                self.destination(p)


WORKLOADS = [
    FnWorkload("histories", 3000, 80000, L.gen_ops, lambda ops, st: Mon(st).play(ops)),
    FnWorkload("all-short-histories", L.exhaustive_count(3), L.exhaustive_count(4), L.gen_exhaustive,
               lambda ops, st: Mon(st).play(ops)),
    FnWorkload("crowds", 8, 100, L.gen_crowd, lambda ops, st: Mon(st).play(ops), sig=lambda ops: f"{len(ops)} {ops[-9:]}"),
    FnWorkload("marathons", 3, 12, L.gen_marathon, lambda ops, st: Mon(st).play(ops), sig=lambda ops: f"{len(ops)} {ops[-9:]}"),
    vast.workload("C05"),
]

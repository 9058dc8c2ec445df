from vmon import dealerlab as L, gen, vast
from vmon.core import FnWorkload
from vmon.rig import M, body_of, need, opaque, reply, same_body

RULE = (
    "a case is one history on one dealer; non-trivial: a progressive call got a further chunk or a progressive result "
    "was passed on"
)
NEEDS = ["earlier answers looked at again", "first chunks", "further chunks", "opaque chunks", "last chunks", "chunks after the registration ended", "progressive results",
         "progressive yields nobody asked for", "final results after progressive ones", "ids refused while open",
         "results after a chunk that asks otherwise than the first", "ids used again after an error", "ids used again after a result", "errors on progressive calls"]
ASSUMPTIONS = ["the chunks of one progressive call name the same procedure"]


class Mon(L.DealerRun):
    KEEPS = ("Invocation", "Result")

    def __init__(self, st):
        super().__init__(st)
        self.ended = {}

    def flags(self, m, opts, what):
        need(bool(m.details.get("progress", False)) == bool(opts.get("progress", False)),
             "{} with progress={} became an invocation with details {}", what, opts.get("progress"), m.details)
        need(bool(m.details.get("receive_progress", False)) == bool(opts.get("receive_progress", False)),
             "{} with receive_progress={} became an invocation with details {}", what, opts.get("receive_progress"),
             m.details)

    def on_call(self, sid, proc, rid, opts, args, kwargs, res):
        if sid not in self.attached or proc not in self.regs:
            return
        got = reply(res, M.Invocation)
        need(got, "a new call of {} to registered {} {}", sid, proc, res)
        self.flags(got[0], opts, "a call")
        self.st.ev("first chunks", bool(opts.get("progress")))
        how = self.ended.pop((sid, rid), None)
        if how:
            need(got[0].request_id != how[1], "call {} of {} ended by {}, yet the same id continues invocation {}",
                 rid, sid, how[0], how[1])
            self.st.ev("ids used again after an error" if how[0] == "error" else "ids used again after a result")

    def on_chunk(self, v, opts, args, kwargs, res):
        got = reply(res, M.Invocation)
        need(got, "a further chunk (progress={}) of open {} {}", opts.get("progress"), repr(v), res)
        m, to = got
        need(to == v.callee, "a further chunk of {} went to {}", repr(v), to)
        need(m.request_id == v.id, "a further chunk of {} has invocation id {}", repr(v), m.request_id)
        need(m.registration_id == v.regid, "a further chunk of {} names registration {}, the first {}", repr(v),
             m.registration_id, v.regid)
        self.flags(m, opts, "a further chunk")
        need(same_body(m, args, kwargs), "a further chunk {} {} arrived as {}", args, kwargs, body_of(m))
        self.st.ev("opaque chunks", opaque(args))
        self.st.nontrivial()
        self.st.ev("further chunks" if opts.get("progress") else "last chunks")
        self.st.ev("chunks after the registration ended", self.regs.get(v.proc, (0, 0)) != (v.callee, v.regid))
        self.st.ev("chunks after a progressive result", v.results > 0)
        v.changed = v.changed or bool(opts.get("receive_progress")) != v.recv

    def on_dup(self, v, opts, res):
        need(not res.ok or reply(res, M.Error) and reply(res, M.Error)[1] == v.caller,
             "a CALL under the id of {}, which is open and completely sent, {}", repr(v), res)
        self.st.ev("ids refused while open")

    def on_yield(self, v, by, progress, args, kwargs, res):
        got = reply(res, M.Result)
        need(got, "a yield (progress={}) of the callee for open {} {}", progress, repr(v), res)
        flagged = bool(got[0].details.get("progress", False))
        need(flagged == (progress and v.recv), "a yield with progress={} for a call with receive_progress={} became a "
             "result with details {}", progress, v.recv, got[0].details)
        self.st.ev("results after a chunk that asks otherwise than the first", v.changed)
        if flagged:
            self.st.ev("progressive results")
            self.st.nontrivial()
        else:
            self.st.ev("final results after progressive ones", v.results > 0)
            self.st.ev("progressive yields nobody asked for", progress)
            self.ended[(v.caller, v.rid)] = ("result", v.id)

    def on_err(self, v, by, uri, args, kwargs, det, res):
        need(reply(res, M.Error), "an error of the callee for open {} {}", repr(v), res)
        self.st.ev("errors on progressive calls", bool(v.opts.get("progress")))
        self.ended[(v.caller, v.rid)] = ("error", v.id)

    def on_bad_answer(self, kind, invid, by, res, why):
        if "closed" in why:
            need(not res.ok, "{} for the closed invocation {} {}", kind, invid, res)

    def on_leave(self, sid, res, hit):
        for k in [k for k in self.ended if k[0] == sid]:
            del self.ended[k]

    def finish(self):
        for i in list(self.open):
            v = self.open.get(i)
            for last in (False, True):
                if not v.sent_all:
                    n = [x.id for x in self.open.values() if not x.sent_all].index(i)
                    self.do_chunk(n, last, [i, last], None)
            n = [x.id for x in self.open.values() if x.sent_all].index(i)
            self.do_dup(n, False)
            self.do_dup(n, True)
            self.do_yield(("raw", i), "callee", True, ["p"], None)
            if i in self.open:
                if i % 2:
                    self.do_yield(("raw", i), "callee", None, ["f"], None)
                else:
                    self.do_err(("raw", i), "callee", "e.x", None, None, {})
            if v.proc in self.regs and v.caller in self.attached:
                self.do_call(v.caller, v.proc, v.rid, {"progress": True} if i % 2 else {}, None, None)


def gen_prog(rng, i, tier):
    """Few sessions, progressive calls in both directions, registrations that change hands meanwhile."""
    sids = rng.sample(range(1, 9), rng.randint(2, 4))
    procs = ["p.a", "p.b", "p.a2"][: rng.randint(1, 3)]
    ops = [("join", s) for s in sids] + [("reg", rng.choice(sids), p, 1) for p in procs]
    for k in range(rng.randint(3, 45)):
        s, p = rng.choice(sids), rng.choice(procs)
        kind = rng.choice("ccckkkkkyyyyeudrx")
        if kind == "c":
            ops.append(L.gen_call(rng, s, p, prog=rng.random() < 0.7, recv=rng.random() < 0.6))
        elif kind == "k":
            ops.append(("chunk", rng.randrange(6), rng.random() < 0.25, [k], None, *rng.choice(L.RECV)))
        elif kind == "y":
            ops.append(("yield", ("open", rng.randrange(6)), "callee", rng.choice([True, True, False, None]), [k], {}))
        elif kind == "e":
            ops.append(("err", ("open", rng.randrange(6)), "callee", "e.x", [k], None, {}))
        elif kind == "u":
            ops.append(("unreg", s, ("own", 0), 9))
        elif kind == "r":
            ops.append(("reg", s, p, 9))
        elif kind == "d":
            ops.append(("dup", rng.randrange(6), rng.random() < 0.5))
        elif rng.random() < 0.3:
            ops.append(("leave", s))
            ops.append(("join", s))
        else:
            ops.append(("yield", ("closed", rng.randrange(6)), "callee", rng.choice([True, None]), [k], {}))
    return ops


WORKLOADS = [
    FnWorkload("progressive", 5000, 150000, gen_prog, lambda ops, st: Mon(st).play(ops)),
    FnWorkload("histories", 2000, 60000, L.gen_ops, lambda ops, st: Mon(st).play(ops)),
    FnWorkload("all-short-histories", L.exhaustive_count(3), L.exhaustive_count(4), L.gen_exhaustive,
               lambda ops, st: Mon(st).play(ops)),
    FnWorkload("crowds", 8, 100, L.gen_crowd, lambda ops, st: Mon(st).play(ops), sig=lambda ops: f"{len(ops)} {ops[-9:]}"),
    FnWorkload("marathons", 3, 12, L.gen_marathon, lambda ops, st: Mon(st).play(ops), sig=lambda ops: f"{len(ops)} {ops[-9:]}"),
    vast.workload("C07"),
]

from vmon import dealerlab as L, depths, gen, vast
from vmon.core import FnWorkload
from vmon.rig import CALL, M, T, body_of, need, opaque, reply, same_body

RULE = (
    "a case is one history on one dealer, every open invocation answered at its end; non-trivial: an answer was "
    "delivered to a caller"
)
NEEDS = ["earlier answers looked at again", "results delivered", "opaque results delivered", "errors delivered", "strangers' answers refused", "late answers refused",
         "answered after the registration ended", "open at the end", "callee left with a call open"]
ASSUMPTIONS = ["an answer is final exactly if the RESULT the dealer produced for it is not flagged as progress, or it is an ERROR"]


class Mon(L.DealerRun):
    KEEPS = ("Result", "Error48")

    def on_call(self, sid, proc, rid, opts, args, kwargs, res):
        got = reply(res, M.Invocation)
        if got and sid in self.attached:
            other = self.open.get(got[0].request_id)
            need(other is None, "a new call of {} shares its invocation id with {}", sid, repr(other))

    def on_yield(self, v, by, progress, args, kwargs, res):
        got = reply(res, M.Result)
        need(got, "a yield of the callee {} for {} {}", by, repr(v), res)
        m, to = got
        need(to == v.caller, "the result for {} went to {}", repr(v), to)
        need(m.request_id == v.rid, "the result for {} names request {}", repr(v), m.request_id)
        need(same_body(m, args, kwargs), "result with {} for {} {}", body_of(m), args, kwargs)
        self.st.ev("opaque results delivered", opaque(args))
        self.st.ev("results delivered")
        self._seen(v)

    def on_err(self, v, by, uri, args, kwargs, det, res):
        got = reply(res, M.Error)
        need(got, "an error of the callee {} for {} {}", by, repr(v), res)
        m, to = got
        need(to == v.caller, "the error for {} went to {}", repr(v), to)
        need(m.message_type == CALL and m.request_id == v.rid, "the error for {} {}", repr(v), res)
        need(m.uri == uri, "error URI {} for {}", m.uri, uri)
        need(gen.same_payload(m.args, m.kwargs, args, kwargs), "error with {} {} for {} {}", m.args, m.kwargs, args, kwargs)
        need(gen.none_or_same(m.details, det), "error details {} for {}", m.details, det)
        self.st.ev("errors delivered")
        self._seen(v)

    def _seen(self, v):
        self.st.nontrivial()
        self.st.ev("answered after the registration ended", self.regs.get(v.proc, (0, 0)) != (v.callee, v.regid))
        self.st.top("calls open at once", len(self.open))

    def on_bad_answer(self, kind, invid, by, res, why):
        need(not res.ok, "{} for invocation {} by {}, although {}, {}", kind, invid, by, why, res)
        self.st.ev("strangers' answers refused" if " at " in why else "late answers refused")

    def on_leave(self, sid, res, hit):
        if not res.ok:
            return
        told = set()
        val = res.val if isinstance(res.val, (list, tuple)) else [res.val]
        for m in val:
            if isinstance(m, T.MessageWithRecipient) and isinstance(m.message, M.Error):
                told.add((m.recipient, m.message.request_id))
        for v in hit:
            if v.callee == sid and v.caller != sid:
                self.st.ev("callee left with a call open")
                if (v.caller, v.rid) not in told:
                    self.st.flag("callee-left-unanswered", f"callee {sid} left; {v!r} is never answered")

    def finish(self):
        self.st.ev("open at the end", len(self.open))
        for k, i in enumerate(list(self.open)):
            if i % 3 == 0 and k % 2:
                # a stranger answers first; the true answer has to work all the same
                o = [s for s in self.attached if s != self.open[i].callee]
                if o:
                    self.do_yield(("raw", i), ("other", o[0]), None, ["forged"], None)
                    self.do_err(("raw", i), ("other", o[-1]), "e.forged", None, None, {})
            if k % 2:
                self.do_err(("raw", i), "callee", "e.last", [i], {"k": k}, {"d": 1})
            else:
                self.do_yield(("raw", i), "callee", None, [i], {"k": k})
            if k < 30:
                self.do_yield(("closed", len(self.closed) - 1), "callee", None, ["late"], None)
                self.do_err(("closed", len(self.closed) - 1), "callee", "e.late", None, None, {})
        need(not self.open, "still open after their callees answered: {!r}", repr(list(self.open.values())))


def tail(ops):
    return ops + [("join", 9), ("reg", 9, "com.x", 1), ("call", 9, "com.x", 1, {}, None, None)]


CALLEE_LEAVES = [("join", 1), ("join", 2), ("reg", 1, "p", 1), ("call", 2, "p", 1, {}, [1], None), ("leave", 1)]

WORKLOADS = [
    FnWorkload("histories", 4000, 120000, L.gen_ops, lambda ops, st: Mon(st).play(ops)),
    FnWorkload("all-short-histories", L.exhaustive_count(3), L.exhaustive_count(4),
               lambda rng, i, tier: tail(L.gen_exhaustive(rng, i, tier)), lambda ops, st: Mon(st).play(ops)),
    FnWorkload("callee-leaves", 1, 1, lambda rng, i, tier: list(CALLEE_LEAVES), lambda ops, st: Mon(st).play(ops)),
    FnWorkload("crowds", 12, 200, L.gen_crowd, lambda ops, st: Mon(st).play(ops), sig=lambda ops: f"{len(ops)} {ops[-9:]}"),
    FnWorkload("marathons", 3, 12, L.gen_marathon, lambda ops, st: Mon(st).play(ops), sig=lambda ops: f"{len(ops)} {ops[-9:]}"),
    vast.workload("C06"),
    depths.workload("C06"),
]

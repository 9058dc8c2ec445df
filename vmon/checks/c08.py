from vmon import brokerlab as B, dealerlab as D, vast
from vmon.core import FnWorkload
from vmon.rig import CALL, INVOCATION, M, T, attempt, call, error, need, pub, reg, reply, sub, unreg, unsub, yield_

RULE = (
    "a case is one history on one broker or one dealer; every departure is followed by probes of what the session "
    "left behind, and so is its return under the same id; non-trivial: a session with a subscription, registration or "
    "open call left"
)
NEEDS = ["departures with subscriptions", "departures with registrations", "departures of callers with open calls",
         "departures of callees with open calls", "requests of departed sessions", "returns under the same id",
         "answers for a departed caller", "answers by a returned callee", "chunks by a returned caller",
         "calls after a callee left", "untouched topics", "untouched procedures", "untouched calls answered"]
PROBER = 2**52 + 12345


def addressed(res, sid):
    v = res.val if res.ok else None
    for m in v if isinstance(v, (list, tuple)) else [v]:
        if isinstance(m, T.MessageWithRecipient) and m.recipient == sid:
            return True
    return False


class BrokerMon(B.BrokerRun):
    def __init__(self, st):
        super().__init__(st)
        self.do_join(PROBER)
        self.past = {}

    def effect(self):
        out = {}
        for t in sorted(self.topics):
            res = attempt(self.b.receive_publish, PROBER, pub(1, t, None, None, {"acknowledge": True}))
            need(res.ok, "a publication to {} was {}", t, res)
            out[t] = sorted(res.val.recipients or [])
        return out

    def listed(self):
        return {t: bool(self.b.has_subscription(t)) for t in sorted(self.topics)}

    def do_leave(self, sid):
        if sid not in self.attached:
            return super().do_leave(sid)
        owned = self.owned(sid)
        before, listed = self.effect(), self.listed()
        res = attempt(self.b.remove_session, sid)
        need(res.ok, "leaving of {} was {}", sid, res)
        self.attached.discard(sid)
        for t, _ in owned:
            self._end(t, sid)
        self.past.setdefault(sid, []).extend(i for _, i in owned)
        if owned:
            self.st.ev("departures with subscriptions")
            self.st.nontrivial()
        after, listed2 = self.effect(), self.listed()
        for t in before:
            want = [s for s in before[t] if s != sid]
            need(after[t] == want, "after {} left, {} reaches {}; before it reached {}", sid, t, after[t], before[t])
            need(listed2[t] == (listed[t] and bool(want)), "after {} left, has_subscription({}) is {}; still subscribed: {}",
                 sid, t, listed2[t], want)
            self.st.ev("untouched topics", bool(want))
        t0 = sorted(self.topics)[0] if self.topics else "t"
        reqs = [("subscribe", self.b.receive_message, sub(5, t0)), ("publish", self.b.receive_publish, pub(5, t0))]
        reqs += [("unsubscribe", self.b.receive_message, unsub(5, i)) for _, i in owned[:3]]
        for name, f, msg in reqs:
            r = attempt(f, sid, msg)
            need(not r.ok, "{} of {}, which left, {}", name, sid, r)
            self.st.ev("requests of departed sessions")
        need(self.effect() == after, "a refused request of departed {} changed who is reached", sid)

    def do_join(self, sid):
        back = sid in getattr(self, "past", {}) and sid not in self.attached
        before = self.effect() if back else None
        super().do_join(sid)
        if not back or sid not in self.attached:
            return
        self.st.ev("returns under the same id")
        need(self.effect() == before, "the return of {} changed who is reached: {} to {}", sid, before, self.effect())
        for i in self.past.pop(sid)[:4]:
            r = attempt(self.b.receive_message, sid, unsub(6, i))
            need(not reply(r, M.Unsubscribed), "{} came back and ended subscription {} of its former self", sid, i)
        need(self.effect() == before, "stale unsubscribes of {} changed who is reached", sid)


class DealerMon(D.DealerRun):
    def __init__(self, st):
        super().__init__(st)
        self.do_join(PROBER)
        self.past = {}
        self.n = 0

    def dest(self):
        out = {}
        for p in sorted(self.procs):
            self.n += 1
            r = attempt(self.d.receive_message, PROBER, call(self.n, p))
            got = reply(r, M.Invocation)
            out[p] = got[1] if got else None
            if got:
                attempt(self.d.receive_message, got[1], yield_(got[0].request_id))
        return out

    def stale(self, v, why):
        """An answer for an invocation that ended with a departure: by whoever the dealer invoked."""
        for msg in (yield_(v.id, ["stale"], None, {"progress": True}), yield_(v.id, ["stale"]),
                    error(INVOCATION, v.id, "e.stale")):
            r = attempt(self.d.receive_message, v.callee, msg)
            need(not (reply(r, M.Result) or reply(r, M.Error)), "{} of {} after {}: {}", type(msg).__name__, repr(v), why, r)

    def do_leave(self, sid):
        if sid not in self.attached:
            return super().do_leave(sid)
        st = self.st
        hit = [v for v in self.open.values() if sid in (v.caller, v.callee)]
        mine = [(p, i) for p, (s, i) in self.regs.items() if s == sid]
        before = self.dest()
        listed = {p: bool(self.d.has_registration(p)) for p in sorted(self.procs)}
        res = attempt(self.d.remove_session, sid)
        need(res.ok, "leaving of {} was {}", sid, res)
        need(not addressed(res, sid), "leaving of {} {}", sid, res)
        self.attached.discard(sid)
        for p, _ in mine:
            self.dead.append(self.regs.pop(p)[1])
        for v in hit:
            del self.open[v.id]
            self.gone.append(v)
        rec = self.past.setdefault(sid, {"regs": [], "calls": []})
        rec["regs"] += [i for _, i in mine]
        rec["calls"] += hit
        st.ev("departures with registrations", bool(mine))
        st.ev("departures of callers with open calls", any(v.caller == sid for v in hit))
        st.ev("departures of callees with open calls", any(v.callee == sid for v in hit))
        if mine or hit:
            st.nontrivial()
        for p, s in self.dest().items():
            want = before[p] if before[p] != sid else None
            need(s == want, "after {} left, a call to {} goes to {}; before it went to {}", sid, p, s, before[p])
            live = bool(self.d.has_registration(p))
            need(live == (listed[p] and want is not None), "after {} left, has_registration({}) is {}; held by {}",
                 sid, p, live, want)
            st.ev("untouched procedures", want is not None)
        p0 = sorted(self.procs)[0] if self.procs else "p"
        msgs = [reg(5, "com.free.name"), call(5, p0), call(6, "com.nobody")] + [unreg(5, i) for _, i in mine[:2]]
        msgs += [yield_(v.id) for v in hit if v.callee == sid][:2] + [call(v.rid, v.proc) for v in hit if v.caller == sid][:2]
        msgs += [error(INVOCATION, v.id, "e.gone") for v in hit if v.callee == sid][:2]
        for m in msgs:
            r = attempt(self.d.receive_message, sid, m)
            need(not r.ok, "{} of {}, which left, {}", type(m).__name__, sid, r)
            st.ev("requests of departed sessions")
        need(not self.d.has_registration("com.free.name"), "departed {} registered a procedure", sid)
        for v in hit:
            if v.caller == sid and v.callee != sid:
                self.stale(v, f"caller {sid} left")
                st.ev("answers for a departed caller")
        self.orphans([v for v in hit if v.callee == sid and v.caller in self.attached][:4], sid)

    def orphans(self, calls, left):
        """The caller of a call whose callee left may use that request id again, for a call of its own."""
        for v in calls:
            if (v.caller, v.rid) in self.calls_open():
                continue
            live = sorted(p for p in self.procs if p in self.regs)
            for p in [v.proc] + live[:1]:
                r = attempt(self.d.receive_message, v.caller, call(v.rid, p, ["new"]))
                if p in self.regs:
                    got = reply(r, M.Invocation)
                    need(got and got[1] == self.regs[p][0], "callee {} left; a new call of {} under the id {} of its former call {}", left, v.caller, v.rid, r)
                    need(got[0].request_id != v.id and got[0].request_id not in self.open, "callee {} left, and a new call goes on as invocation {}", left, got[0].request_id)
                    r = attempt(self.d.receive_message, got[1], yield_(got[0].request_id))
                    got = reply(r, M.Result)
                    need(got and got[1] == v.caller and got[0].request_id == v.rid, "callee {} left; the answer to a new call of {} under the id {} {}", left, v.caller, v.rid, r)
                else:
                    got = reply(r, M.Error)
                    need(got and got[1] == v.caller and got[0].request_id == v.rid, "callee {} left; a new call of {} to {}, held by nobody, {}", left, v.caller, p, r)
                self.st.ev("calls after a callee left")

    def do_join(self, sid):
        back = sid in getattr(self, "past", {}) and sid not in self.attached
        before = self.dest() if back else None
        super().do_join(sid)
        if not back or sid not in self.attached:
            return
        st = self.st
        st.ev("returns under the same id")
        need(self.dest() == before, "the return of {} changed where calls go: {} to {}", sid, before, self.dest())
        rec = self.past.pop(sid)
        for i in rec["regs"][:4]:
            r = attempt(self.d.receive_message, sid, unreg(6, i))
            need(not reply(r, M.Unregistered), "{} came back and ended registration {} of its former self", sid, i)
        for v in rec["calls"][:6]:
            if v.callee == sid:
                self.stale(v, f"callee {sid} left and came back")
                st.ev("answers by a returned callee")
            elif v.callee in self.attached:
                self.stale(v, f"caller {sid} left and came back")
            if v.caller == sid and (sid, v.rid) not in self.calls_open():
                opts = {"progress": True} if not v.sent_all else {}
                r = attempt(self.d.receive_message, sid, call(v.rid, v.proc, ["new"], None, opts))
                if v.proc not in self.regs:
                    need(not reply(r, M.Invocation), "a chunk of {}, of before {} left, {}", repr(v), sid, r)
                else:
                    got = reply(r, M.Invocation)
                    need(got, "a call of {} under an id its former self used {}", sid, r)
                    need(got[0].request_id != v.id, "the call {} of {}'s former self goes on as invocation {}", v.rid, sid, v.id)
                    attempt(self.d.receive_message, got[1], yield_(got[0].request_id))
                st.ev("chunks by a returned caller")

    def finish(self):
        for v in list(self.open.values()):
            r = attempt(self.d.receive_message, v.callee, yield_(v.id, ["end"]))
            got = reply(r, M.Result)
            need(got and got[1] == v.caller and got[0].request_id == v.rid, "the answer for {}, both of whose sessions stayed, {}",
                 repr(v), r)
            self.st.ev("untouched calls answered", bool(self.gone))


def bgen(rng, i, tier):
    return B.gen_ops(rng, i, tier)


def churn(rng, i, tier):
    """Few sessions that come and go under the same ids, with calls open across it."""
    sids = rng.sample(range(1, 9), rng.randint(2, 4))
    procs = ["p.a", "p.b", "p.c"][: rng.randint(1, 3)]
    ops = [("join", s) for s in sids] + [("reg", rng.choice(sids), p, 1) for p in procs]
    for k in range(rng.randint(4, 40)):
        s, p = rng.choice(sids), rng.choice(procs)
        kind = rng.choice("cccckkyyljjllr")
        if kind == "c":
            ops.append(D.gen_call(rng, s, p, recv=rng.random() < 0.5))
        elif kind == "k":
            ops.append(("chunk", rng.randrange(6), rng.random() < 0.4, [k], None))
        elif kind == "y":
            ops.append(("yield", ("open", rng.randrange(6)), "callee", rng.choice([True, None]), [k], {}))
        elif kind == "r":
            ops.append(("reg", s, p, 9))
        else:
            ops.append(("leave" if kind == "l" else "join", s))
    return ops


def lite(gen_ops, limit):
    def g(rng, i, tier):
        return gen_ops(rng, i, tier)[:limit]
    return g


WORKLOADS = [
    FnWorkload("broker", 2500, 70000, lite(bgen, 260), lambda ops, st: BrokerMon(st).play(ops)),
    FnWorkload("dealer", 2500, 70000, lite(D.gen_ops, 260), lambda ops, st: DealerMon(st).play(ops)),
    FnWorkload("dealer-churn", 4000, 100000, churn, lambda ops, st: DealerMon(st).play(ops)),
    FnWorkload("broker-all-short", B.exhaustive_count(3), B.exhaustive_count(4), B.gen_exhaustive,
               lambda ops, st: BrokerMon(st).play(ops)),
    FnWorkload("dealer-all-short", D.exhaustive_count(3), D.exhaustive_count(4), D.gen_exhaustive,
               lambda ops, st: DealerMon(st).play(ops)),
    FnWorkload("broker-crowds", 4, 60, lambda rng, i, tier: B.gen_crowd(rng, 3 * i + 2, "quick", [300, 1000, 1500]),
               lambda ops, st: BrokerMon(st).play(ops), sig=lambda ops: f"{len(ops)} {ops[-9:]}"),
    FnWorkload("dealer-crowds", 4, 60, lambda rng, i, tier: D.gen_crowd(rng, 2 * i + 1, "quick"),
               lambda ops, st: DealerMon(st).play(ops), sig=lambda ops: f"{len(ops)} {ops[-9:]}"),
    vast.workload("C08"),
]

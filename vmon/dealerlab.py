"""Dealer under random and bounded-exhaustive histories, with a shadow built only from what the dealer answered.

An operation is a tuple:
  ("join", sid) ("leave", sid) ("reg", sid, proc, rid[, options]) ("unreg", sid, which, rid)
  ("call", sid, proc, rid, opts, args, kwargs)      a new call (another request id is taken if rid is open)
  ("chunk", n, last, args, kwargs[, recv])          a further chunk of the n-th call that is not completely sent,
                                                    with this receive_progress option instead of the first one's
  ("dup", n, progress)                              a CALL under the id of the n-th open, completely sent call
  ("yield", which, by, progress, args, kwargs)      ("err", which, by, uri, args, kwargs, det)
args may be ("opaque", data, serializer id), an opaque payload in place of arguments.
`which` is ("open", n), ("new", 0), ("closed", n), ("gone", n), ("near", n) (see rig.near) or ("raw", id); `by` is "callee", "caller" or ("other", sid).
"""
from vmon import gen
from vmon.kept import Kept
from vmon.rig import (CALL, INVOCATION, M, attempt, call, details, error, gen_near, near, need, pick, refused, reg, reply,
                      session_ids, unreg, yield_)
from wampproto.dealer import Dealer


STAYS = 2**40


class Inv:
    __slots__ = ("id", "caller", "callee", "rid", "recv", "sent_all", "proc", "regid", "opts", "results", "changed")

    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)
        self.results = 0
        self.changed = False

    def __repr__(self):
        return f"<invocation {self.id} of call {self.rid} by {self.caller} at {self.callee}>"


class Open(dict):
    """The open invocations, and which calls they are for."""

    def __init__(self):
        self.keys_open = set()

    def __setitem__(self, k, v):
        if k in self:
            self.pop(k)
        super().__setitem__(k, v)
        self.keys_open.add((v.caller, v.rid))

    def __delitem__(self, k):
        self.pop(k)

    def pop(self, k):
        v = super().pop(k)
        self.keys_open.discard((v.caller, v.rid))
        return v


class DealerRun:
    KEEPS = ()  # kinds of answers looked at again later

    def __init__(self, st):
        self.st = st
        self.d = Dealer()
        self.attached = set()
        self.joins = {}
        self.kept = Kept(st, self.KEEPS)
        self.regs = {}  # proc -> (sid, registration id)
        self.dead = []
        self.open = Open()  # invocation id -> Inv
        self.keys = self.open.keys_open  # (caller, request id) of the open ones
        self.closed = []  # Inv, answered
        self.gone = []  # Inv, one side left
        self.procs = set()

    def calls_open(self):
        return {(v.caller, v.rid): v for v in self.open.values()}

    def play(self, ops):
        for op in ops:
            getattr(self, "do_" + op[0])(*op[1:])
            self.after(op)
            self.kept.recheck()
        self.finish()
        self.kept.recheck(200)

    def ask(self, f, *a):
        res = attempt(f, *a)
        self.kept.note(res)
        return res

    def on_join(self, sid, res): pass
    def on_leave(self, sid, res, hit): pass
    def on_reg(self, sid, proc, rid, res): pass
    def on_unreg(self, sid, regid, rid, res, held): pass
    def on_call(self, sid, proc, rid, opts, args, kwargs, res): pass
    def on_chunk(self, inv, opts, args, kwargs, res): pass
    def on_dup(self, inv, opts, res): pass
    def on_yield(self, inv, by, progress, args, kwargs, res): pass
    def on_err(self, inv, by, uri, args, kwargs, det, res): pass
    def on_bad_answer(self, kind, invid, by, res, why): pass
    def after(self, op): pass
    def finish(self): pass

    def do_join(self, sid):
        res = attempt(self.d.add_session, details(sid, nth=self.joins.get(sid, 0)))
        self.on_join(sid, res)
        if res.ok:
            self.attached.add(sid)
            self.joins[sid] = self.joins.get(sid, 0) + 1

    def do_leave(self, sid):
        hit = [v for v in self.open.values() if sid in (v.caller, v.callee)] if sid in self.attached else []
        res = attempt(self.d.remove_session, sid)
        self.on_leave(sid, res, hit)
        if res.ok and sid in self.attached:
            self.attached.discard(sid)
            for p in [p for p, (s, _) in self.regs.items() if s == sid]:
                self.dead.append(self.regs.pop(p)[1])
            for v in hit:
                del self.open[v.id]
                self.gone.append(v)

    def do_reg(self, sid, proc, rid, opts=None):
        self.procs.add(proc)
        res = self.ask(self.d.receive_message, sid, reg(rid, proc, opts if opts is None else dict(opts)))
        self.on_reg(sid, proc, rid, res)
        got = reply(res, M.Registered)
        if got and sid in self.attached:
            self.regs[proc] = (sid, got[0].registration_id)

    def do_unreg(self, sid, which, rid):
        kind, n = which
        if kind == "raw":
            ids = [n]
        elif kind == "own":
            ids = [i for s, i in self.regs.values() if s == sid]
        elif kind == "near":
            v = near([i for s, i in self.regs.values() if s == sid] or [i for _, i in self.regs.values()], n)
            ids, n = [] if v is None else [v], 0
        elif kind == "other":
            ids = [i for s, i in self.regs.values() if s != sid]
        else:
            ids = self.dead
        if not ids:
            return
        regid = ids[n % len(ids)]
        held = [p for p, (s, i) in self.regs.items() if s == sid and i == regid]
        res = self.ask(self.d.receive_message, sid, unreg(rid, regid))
        self.on_unreg(sid, regid, rid, res, held)
        if reply(res, M.Unregistered):
            for p in held:
                self.dead.append(self.regs.pop(p)[1])

    def do_call(self, sid, proc, rid, opts, args, kwargs):
        self.procs.add(proc)
        busy = self.keys
        while (sid, rid) in busy:
            rid = rid % gen.ID_MAX + 1
        res = self.ask(self.d.receive_message, sid, call(rid, proc, args, kwargs, dict(opts)))
        self.on_call(sid, proc, rid, opts, args, kwargs, res)
        got = reply(res, M.Invocation)
        if got and sid in self.attached:
            m, to = got
            self.open[m.request_id] = Inv(
                id=m.request_id, caller=sid, callee=to, rid=rid, recv=bool(opts.get("receive_progress")),
                sent_all=not opts.get("progress"), proc=proc, regid=m.registration_id, opts=opts,
            )

    def do_chunk(self, n, last, args, kwargs, *recv):
        c = [v for v in self.open.values() if not v.sent_all]
        if n == "new":
            c, n = [v for v in c if v.rid < STAYS], -1
        if not c:
            return
        v = c[n % len(c)]
        opts = dict(v.opts)
        opts["progress"] = True
        if last:
            opts.pop("progress")
            if n % 2:
                opts["progress"] = False
        if recv:
            opts.pop("receive_progress", None)
            if recv[0] is not None:
                opts["receive_progress"] = recv[0]
        res = self.ask(self.d.receive_message, v.caller, call(v.rid, v.proc, args, kwargs, dict(opts)))
        self.on_chunk(v, opts, args, kwargs, res)
        if res.ok:
            v.sent_all = last

    def do_dup(self, n, progress):
        c = [v for v in self.open.values() if v.sent_all]
        if not c:
            return
        v = c[n % len(c)]
        opts = {"progress": True} if progress else {}
        proc = v.proc if n % 3 else sorted(self.procs)[0]
        res = self.ask(self.d.receive_message, v.caller, call(v.rid, proc, ["dup"], None, opts))
        self.on_dup(v, opts, res)

    def _answered(self, kind, which, by, send):
        k, n = which
        pool = {"open": list(self.open.values()), "closed": self.closed, "gone": self.gone}.get(k)
        if k == "new":  # not one of the calls that a marathon leaves open
            pool, n = [v for v in self.open.values() if v.rid < STAYS], -1
        if k == "near":
            n = near(list(self.open), n)
            if n is None:
                return None
            k = "raw"
        if k == "raw":
            v, invid = self.open.get(n), n
        else:
            if not pool:
                return None
            v = pool[n % len(pool)]
            invid = v.id
            if k not in ("open", "new") and invid in self.open:
                return None
        if by == "callee":
            who = v.callee if v else (sorted(self.attached) or [1])[0]
        elif by == "caller":
            who = v.caller if v else 1
        else:
            who = by[1]
        if k in ("closed", "gone") and v is not None and invid not in self.open:
            v = None
        res = send(invid, who)
        if v is None or v.id not in self.open:
            self.on_bad_answer(kind, invid, who, res, "the invocation is " + ("unknown" if k == "raw" else k))
            return None
        if who != v.callee or who not in self.attached:
            self.on_bad_answer(kind, invid, who, res, f"the invocation is at {v.callee}")
            return None
        return v, who, res

    def do_yield(self, which, by, progress, args, kwargs):
        opts = {} if progress is None else {"progress": progress}
        r = self._answered("YIELD", which, by, lambda i, who: self.ask(
            self.d.receive_message, who, yield_(i, args, kwargs, dict(opts))))
        if r is None:
            return
        v, who, res = r
        self.on_yield(v, who, bool(progress), args, kwargs, res)
        got = reply(res, M.Result)
        if got:
            v.results += 1
            if not got[0].details.get("progress", False):
                self.closed.append(self.open.pop(v.id))

    def do_err(self, which, by, uri, args, kwargs, det):
        r = self._answered("ERROR", which, by, lambda i, who: self.ask(
            self.d.receive_message, who, error(INVOCATION, i, uri, args, kwargs, dict(det))))
        if r is None:
            return
        v, who, res = r
        self.on_err(v, who, uri, args, kwargs, det, res)
        if reply(res, M.Error):
            self.closed.append(self.open.pop(v.id))


PROFILES = {"tiny": (3, 2, 40), "medium": (6, 6, 130), "wide": (150, 40, 600), "long": (10, 15, 1500)}


RECV = [(), (), (), (None,), (True,), (False,)]


def body(rng):
    """Arguments and keyword arguments, or an opaque payload in their place."""
    if rng.random() < 0.09:
        return ("opaque", rng.choice([b"", b"\x00", b"[1]", rng.randbytes(rng.randint(1, 40))]), rng.choice([0, 1, 2, 3])), None
    return gen.opt_args(rng, binary=True)


def gen_call(rng, s, p, prog=None, recv=None):
    opts = gen.free_dict(rng, p_empty=0.75, but=("progress", "receive_progress"))
    recv = rng.choice([None, None, True, True, False]) if recv is None else recv
    prog = rng.choice([None, None, None, True, True, False]) if prog is None else prog
    if recv is not None:
        opts["receive_progress"] = recv
    if prog is not None:
        opts["progress"] = prog
    args, kwargs = body(rng)
    rid = rng.randint(1, 6) if rng.random() < 0.5 else gen.ident(rng)
    return ("call", s, p, rid, opts, args, kwargs)


def gen_which(rng, bad):
    k = pick(rng, [(100 - 4 * bad, "open"), (bad, "closed"), (bad, "gone"), (bad, "raw"), (bad, "near")])
    return (k, gen.ident(rng) if k == "raw" else gen_near(rng) if k == "near" else rng.randrange(12))


def gen_ops(rng, i, tier, leaves=None):
    prof = pick(rng, [(60, "tiny"), (32, "medium"), (4, "wide"), (4, "long")])
    nsess, nproc, nops = PROFILES[prof]
    if nops < 200:
        nops = rng.randint(3, nops)
    sids = session_ids(rng, rng.randint(1, nsess) if nsess < 20 else nsess)
    pool = list(gen.URIS) + [f"com.app.proc{k}" for k in range(30)]
    procs = gen.near_uris(rng, nproc) if rng.random() < 0.3 else rng.sample(pool, nproc)
    ops = [("join", s) for s in sids if rng.random() < 0.94]
    for p in procs:
        if rng.random() < 0.7:
            ops.append(("reg", rng.choice(sids), p, gen.ident(rng)))
    wleave = rng.choice([1, 3, 7]) if leaves is None else leaves
    wcall = rng.choice([25, 45])
    wyield = rng.choice([10, 25])
    bad = rng.choice([2, 6])
    for _ in range(nops):
        s = rng.choice(sids)
        p = rng.choice(procs)
        k = pick(rng, [(wleave, "leave"), (wleave + 1, "join"), (9, "reg"), (5, "unreg"), (wcall, "call"), (10, "chunk"),
                       (wyield, "yield"), (8, "err"), (2, "dup")])
        if k in ("join", "leave"):
            ops.append((k, s))
        elif k == "reg":
            ops.append((k, s, p, gen.ident(rng), gen.free_dict(rng, p_empty=0.7, sids=sids, but=())))
        elif k == "unreg":
            which = pick(rng, [(65, "own"), (12, "other"), (12, "dead"), (5, "raw"), (6, "near")])
            n = gen.ident(rng) if which == "raw" else gen_near(rng) if which == "near" else rng.randrange(8)
            ops.append((k, s, (which, n), gen.ident(rng)))
        elif k == "call":
            ops.append(gen_call(rng, s, p))
        elif k == "chunk":
            ops.append((k, rng.randrange(12), rng.random() < 0.35, *body(rng), *rng.choice(RECV)))
        elif k == "dup":
            ops.append((k, rng.randrange(12), rng.random() < 0.5))
        else:
            by = pick(rng, [(85, "callee"), (5, "caller"), (10, "other")])
            by = ("other", rng.choice(sids)) if by == "other" else by
            args, kwargs = body(rng) if k == "yield" else gen.opt_args(rng, binary=True)
            if k == "yield":
                prog = rng.choice([None, None, True, True, False])
                ops.append((k, gen_which(rng, bad), by, prog, args, kwargs))
            else:
                ops.append((k, gen_which(rng, bad), by, gen.error_uri(rng), args, kwargs, gen.free_dict(rng, but=())))
    return ops


CROWDS = [300, 1000, 4100, 1025, 1500]


def gen_crowd(rng, i, tier, sizes=CROWDS):
    """Very many procedures, sessions and open calls at once; answers in any order, some sides leave."""
    n = sizes[i % len(sizes)] + rng.randrange(3)
    if tier == "thorough":
        n = rng.choice([n, 2 * n, rng.randint(300, 4000)])
    many = i % 2 == 0  # as many sessions as procedures, else few of them
    sids = rng.sample(range(1, 10**6), n if many else 5)
    procs = [f"com.app.proc{k}" for k in range(n)] if i % 3 else ["com.app.one", "com.app.two"]
    ops = [("join", s) for s in sids] + [("reg", sids[k % len(sids)], p, k + 1) for k, p in enumerate(procs)]
    for k in range(n):
        opts = {"receive_progress": True} if k % 7 == 0 else {"progress": True, "receive_progress": True} if k % 7 == 3 else {}
        ops.append(("call", sids[(k * 7 + 1) % len(sids)] if many else sids[k % 4], rng.choice(procs), k + 1, opts, [k], None))
    for k in range(n // 2):
        x = rng.random()
        if x < 0.6:
            ops.append(("yield", ("open", rng.randrange(n)), "callee", rng.choice([None, None, True]), [k], {}))
        elif x < 0.7:
            ops.append(("err", ("open", rng.randrange(n)), "callee", "e.x", [k], None, {}))
        elif x < 0.8:
            ops.append(("chunk", rng.randrange(n), rng.random() < 0.3, [k], None))
        elif x < 0.85:
            ops.append(("unreg", rng.choice(sids), ("own", rng.randrange(9)), k + 1))
        elif x < 0.88:
            ops.append(("leave", rng.choice(sids)) if many else ("yield", ("closed", rng.randrange(n)), "callee", None, [k], {}))
        elif x < 0.94:
            ops.append(("call", rng.choice(sids), rng.choice(procs), n + k + 1, {}, [k], None))
        else:
            ops.append(("reg", rng.choice(sids), rng.choice(procs), k + 1))
    if not many:
        ops.append(("leave", sids[1]))
    return ops


def gen_marathon(rng, i, tier):
    """One dealer that has been running for a long time, with little going on at any moment."""
    n = rng.choice([66_000, 68_000]) if tier != "thorough" else rng.choice([67_000, 135_000])
    sids = rng.sample(range(1, 10**6), 4)
    procs = rng.sample(gen.URIS, 3)
    ops = [("join", s) for s in sids] + [("reg", s, p, 1) for s, p in zip(sids, procs)]
    # two sessions that stay, with calls that stay open
    c, e = 10**6 + rng.randrange(1, 9), 10**6 + rng.randrange(10, 19)
    ops += [("join", c), ("join", e), ("reg", e, "com.app.long-lived", 1)]
    stay = rng.randint(1, 9)
    for k in range(stay):
        opts = {"receive_progress": True, "progress": True} if k % 3 == 1 else {"receive_progress": True} if k % 3 else {}
        ops.append(("call", c, "com.app.long-lived", STAYS + k, opts, [k], None))
    for k in range(n):
        s, p = rng.choice(sids), rng.choice(procs)
        x = rng.random()
        if i % 3 == 2 and x < 0.9:
            ops += [("reg", s, p, k + 1), ("unreg", s, ("own", k % 3), k + 1)] if k % 3 else [("unreg", s, ("own", k % 3), k + 1)]
            continue
        if x > 0.998:
            ops += [("leave", s), ("join", s), ("reg", s, p, k + 1)]
            continue
        if x > 0.995:
            ops += [("reg", s, p, k + 1), ("unreg", s, ("own", k % 3), k + 1), ("reg", s, p, k + 1)]
        kind = k % 11
        opts = {"receive_progress": True, "progress": True} if kind == 3 else {"receive_progress": True} if kind == 5 else {}
        ops.append(("call", s, p, k + 1 if i % 3 else k % 7 + 1, opts, [k], None))
        if kind == 3:
            ops += [("chunk", "new", False, [k], None), ("chunk", "new", True, [k], None)]
        if kind in (3, 5):
            ops += [("yield", ("new", 0), "callee", True, [k], None)] * 2
        ops.append(("yield", ("new", 0), "callee", None, [k], None) if k % 4 else ("err", ("new", 0), "callee", "e.x", [k], None, {}))
    ops += [("chunk", 0, False, [n], None), ("chunk", 0, True, [n], None)]
    for k in range(stay):
        ops += [("yield", ("open", 0), "callee", True, [k], None), ("yield", ("open", 0), "callee", None, [k], {})]
        if k % 2:
            ops.append(("call", c, "com.app.long-lived", STAYS + k, {}, [k], None))
    return ops


def small_alphabet():
    """Two sessions, one procedure (and its near namesake), progressive and plain calls, answers from either session."""
    a, b, p, q = 1, 2, "io.xconn.test", "io.xconn.test2"
    out = [("reg", a, p, 3), ("reg", b, p, 4), ("reg", b, q, 4), ("unreg", a, ("own", 0), 5), ("unreg", b, ("own", 0), 5)]
    out += [("leave", a), ("leave", b), ("join", a), ("join", b)]
    out += [("call", a, p, 1, {}, [1], None), ("call", b, p, 1, {"receive_progress": True}, [2], None),
            ("call", b, q, 1, {"progress": True, "receive_progress": True}, [3], None)]
    out += [("chunk", 0, False, [4], None), ("chunk", 0, True, [5], None)]
    out += [("yield", ("open", 0), "callee", None, [6], None), ("yield", ("open", 0), "callee", True, [7], None),
            ("err", ("open", 0), "callee", "e.x", [8], None, {}), ("yield", ("open", 0), ("other", b), None, [9], None)]
    return out


ALPHA = small_alphabet()


def gen_exhaustive(rng, i, tier):
    n, base, length = i, len(ALPHA), 1
    while n >= base**length:
        n -= base**length
        length += 1
    ops = []
    for _ in range(length):
        n, r = divmod(n, base)
        ops.append(ALPHA[r])
    return [("join", 1), ("join", 2), ("reg", 1, "io.xconn.test", 3)] + ops


def exhaustive_count(length):
    return sum(len(ALPHA) ** k for k in range(1, length + 1))

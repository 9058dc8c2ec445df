"""Broker under random and bounded-exhaustive histories, with a shadow built only from what the broker acknowledged.

An operation is a tuple:
  ("join", sid) ("leave", sid) ("sub", sid, topic, rid[, options]) ("unsub", sid, which, rid) ("pub", sid, topic, rid, opts, args, kwargs)
  ("repub", sid, n)
`which` names a subscription id when the operation runs: ("own", n) the n-th subscription sid holds, ("other", n) the
n-th somebody else holds, ("dead", n) the n-th that has ended, ("near", n) one a round amount off a live one, ("raw", id).
"""
import itertools

from vmon import gen
from vmon.kept import Kept
from vmon.rig import M, Res, attempt, details, gen_near, near, need, pick, pub, reply, session_ids, sub, unsub
from wampproto.broker import Broker


class BrokerRun:
    KEEPS = ()  # kinds of answers looked at again later

    def __init__(self, st):
        self.st = st
        self.b = Broker()
        self.attached = set()
        self.joins = {}
        self.kept = Kept(st, self.KEEPS)
        self.subs = {}  # topic -> {sid: subscription id}
        self.dead = []  # subscription ids that ended
        self.topics = set()
        self.said = []

    # shadow queries
    def holders(self, topic):
        return self.subs.get(topic, {})

    def owned(self, sid):
        return [(t, d[sid]) for t, d in self.subs.items() if sid in d]

    def resolve(self, sid, which):
        kind, n = which
        if kind == "raw":
            return n
        if kind == "near":
            return near([i for _, i in self.owned(sid)] or [i for d in self.subs.values() for i in d.values()], n)
        if kind == "own":
            ids = [i for _, i in self.owned(sid)]
        elif kind == "other":
            ids = [i for d in self.subs.values() for s, i in d.items() if s != sid]
        else:
            ids = self.dead
        return ids[n % len(ids)] if ids else None

    def play(self, ops):
        for op in ops:
            getattr(self, "do_" + op[0])(*op[1:])
            self.after(op)
            self.kept.recheck()
        self.finish()
        self.kept.recheck(200)

    def ask(self, f, *a):
        res = attempt(f, *a)
        self.kept.note(res)
        return res

    # hooks for monitors
    def on_join(self, sid, res): pass
    def on_leave(self, sid, res): pass
    def on_sub(self, sid, topic, rid, res): pass
    def on_unsub(self, sid, subid, rid, res, held): pass
    def on_pub(self, sid, topic, rid, opts, args, kwargs, res): pass
    def after(self, op): pass
    def finish(self): pass

    def do_join(self, sid):
        res = attempt(self.b.add_session, details(sid, nth=self.joins.get(sid, 0)))
        self.on_join(sid, res)
        if res.ok:
            self.attached.add(sid)
            self.joins[sid] = self.joins.get(sid, 0) + 1

    def do_leave(self, sid):
        res = attempt(self.b.remove_session, sid)
        self.on_leave(sid, res)
        if res.ok and sid in self.attached:
            self.attached.discard(sid)
            for t in [t for t, d in self.subs.items() if sid in d]:
                self._end(t, sid)

    def _end(self, topic, sid):
        self.dead.append(self.subs[topic].pop(sid))
        if not self.subs[topic]:
            del self.subs[topic]

    def do_sub(self, sid, topic, rid, opts=None):
        self.topics.add(topic)
        res = self.ask(self.b.receive_message, sid, sub(rid, topic, opts if opts is None else dict(opts)))
        self.on_sub(sid, topic, rid, res)
        got = reply(res, M.Subscribed)
        if got and sid in self.attached:
            self.subs.setdefault(topic, {})[sid] = got[0].subscription_id

    def do_unsub(self, sid, which, rid):
        subid = self.resolve(sid, which)
        if subid is None:
            return
        held = [t for t, d in self.subs.items() if d.get(sid) == subid]
        res = self.ask(self.b.receive_message, sid, unsub(rid, subid))
        self.on_unsub(sid, subid, rid, res, held)
        if reply(res, M.Unsubscribed):
            for t in held:
                self._end(t, sid)

    def do_pub(self, sid, topic, rid, opts, args, kwargs):
        self.topics.add(topic)
        m = pub(rid, topic, args, kwargs, dict(opts))
        res = self.ask(self.b.receive_publish, sid, m)
        if res.ok:
            self.said = self.said[-7:] + [(topic, m, rid, opts, args, kwargs)]
        self.on_pub(sid, topic, rid, opts, args, kwargs, res)


    def do_repub(self, sid, n):
        """One of the last publications once more, as the very same message object."""
        if self.said:
            topic, m, rid, opts, args, kwargs = self.said[n % len(self.said)]
            res = self.ask(self.b.receive_publish, sid, m)
            self.st.ev("the same message published again")
            self.on_pub(sid, topic, rid, opts, args, kwargs, res)


PROFILES = {
    # sessions, topics, ops
    "tiny": (3, 2, 40),
    "medium": (7, 6, 120),
    "wide": (220, 3, 700),
    "long": (12, 20, 1500),
}


def gen_ops(rng, i, tier, strangers=False):
    prof = pick(rng, [(60, "tiny"), (30, "medium"), (4, "wide"), (3, "long")])
    nsess, ntop, nops = PROFILES[prof]
    if prof in ("tiny", "medium"):
        nops = rng.randint(3, nops)
    elif prof == "wide":
        nsess = rng.choice([nsess, 64, 65, 128, 130, 33])
        nops = nsess * 3
    sids = session_ids(rng, rng.randint(1, nsess) if nsess < 20 else nsess)
    topics = gen.near_uris(rng, ntop) if rng.random() < 0.3 else rng.sample(gen.URIS, min(ntop, len(gen.URIS)))
    ops = [("join", s) for s in sids if rng.random() < 0.93]
    if prof == "wide":
        t0 = topics[0]
        for s in sids:
            ops.append(("sub", s, t0 if rng.random() < 0.9 else rng.choice(topics), gen.ident(rng)))
    wleave = rng.choice([1, 4, 8])
    wsub = rng.choice([15, 30])
    for _ in range(nops):
        s = rng.choice(sids)
        t = rng.choice(topics)
        k = pick(rng, [(wleave, "leave"), (wleave + 1, "join"), (wsub, "sub"), (14, "unsub"), (30, "pub")])
        if k in ("join", "leave"):
            ops.append((k, s))
        elif k == "sub":
            ops.append((k, s, t, gen.ident(rng), gen.free_dict(rng, p_empty=0.8, sids=sids, but=())))
        elif k == "unsub":
            which = pick(rng, [(65, "own"), (12, "other"), (12, "dead"), (5, "raw"), (6, "near")])
            n = gen.ident(rng) if which == "raw" else gen_near(rng) if which == "near" else rng.randrange(8)
            ops.append((k, s, (which, n), gen.ident(rng)))
        else:
            ops.append(("repub", s, rng.randrange(8)) if rng.random() < 0.08 else gen_pub(rng, s, t, sids=sids))
    return ops


def gen_pub(rng, s, t, ack=None, sids=None):
    opts = gen.free_dict(rng, p_empty=0.7, sids=sids, but=("acknowledge",))
    if ack is None:
        ack = pick(rng, [(35, None), (45, True), (20, False)])
    if ack is not None:
        opts["acknowledge"] = ack
    args, kwargs = gen.opt_args(rng, binary=True, depth=2)
    return ("pub", s, t, gen.ident(rng), opts, args, kwargs)


CROWDS = [257, 1000, 4100, 1023, 1025, 8200, 2048, 2500]


def gen_crowd(rng, i, tier, sizes=CROWDS, big=None):
    """Very many subscribers of one topic, or very many topics; some leave and some come back."""
    n = sizes[i % len(sizes)] + rng.randrange(3)
    if tier == "thorough":
        n = big if big and i % 40 == 39 else rng.choice([n, 2 * n, rng.randint(300, 6000)])
    topics = ["io.xconn.crowd", "io.xconn.crowd2"]
    sids = rng.sample(range(1, 10**6), n)
    ops = [("join", s) for s in sids]
    if i % 3 == 2:  # few sessions, as many topics
        sids, ops = sids[:3], ops[:3]
        topics = [f"com.app.topic{k}" for k in range(n)]
        subs = [("sub", sids[k % 2], t, k + 1) for k, t in enumerate(topics)]
    else:
        subs = [("sub", s, topics[0], k + 1) for k, s in enumerate(sids)]
        subs += [("sub", s, topics[1], n + k) for k, s in enumerate(sids[: n // 3])]
    if rng.random() < 0.5:
        rng.shuffle(subs)
    ops += subs
    look = lambda k: [("pub", rng.choice(sids), t, rng.randint(1, 2**40), {"acknowledge": True}, [1], None) for t in topics[-1:] + rng.sample(topics, min(k, len(topics)))]
    ops += look(4)
    some = rng.sample(subs, len(subs) // 3)
    ops += [("unsub", s, ("own", rng.randrange(n)), r) for _, s, t, r in some] if i % 2 or i % 3 == 2 else [("leave", s) for _, s, t, r in some]
    ops += look(4)
    for _, s, t, r in some[: len(some) // 2]:
        ops += [("join", s), ("sub", s, t, r)]
    ops += look(8)
    if i % 3 == 2:
        ops += [("leave", sids[0])] + look(4)
    return ops


def gen_marathon(rng, i, tier):
    """One broker that has been running for a long time, with little going on at any moment."""
    n = rng.choice([68_000, 70_000]) if tier != "thorough" else rng.choice([70_000, 140_000])
    sids = rng.sample(range(1, 10**6), 4)
    topics = rng.sample(gen.URIS, 3)
    ops = [("join", s) for s in sids]
    stays = 10**6 + rng.randrange(1, 9)  # one that stays, subscribed to all
    ops += [("join", stays)] + [("sub", stays, t, k + 1) for k, t in enumerate(topics)]
    wpub = [95, 60, 20, 2][i % 4]
    for k in range(n):
        s, t = rng.choice(sids), rng.choice(topics)
        x = rng.random() * 100
        if x < wpub:
            ops.append(("pub", s, t, k + 1, {"acknowledge": True} if k % 3 else {}, [k], None))
        elif x > 99.7:
            ops += [("leave", s), ("join", s)]
        elif k % 2:
            ops.append(("sub", s, t, k + 1))
        else:
            ops.append(("unsub", s, ("own", k % 3), k + 1))
    return ops + [("pub", s, t, 1, {"acknowledge": True}, [], None) for t in topics]


def small_alphabet():
    """Two sessions, two topics whose names differ by one trailing character."""
    a, b = 1, 2
    t, u = "io.xconn.test", "io.xconn.tes"
    out = []
    for s in (a, b):
        for top in (t, u):
            out.append(("sub", s, top, 7))
        out += [("unsub", s, ("own", 0), 8), ("unsub", s, ("own", 1), 8), ("leave", s), ("join", s)]
    out += [("unsub", a, ("other", 0), 9), ("unsub", a, ("dead", 0), 9)]
    for top in (t, u):
        out.append(("pub", a, top, 5, {"acknowledge": True}, [1], None))
    return out


ALPHA = small_alphabet()


def gen_exhaustive(rng, i, tier):
    """The i-th history over the small alphabet, shortest first."""
    n, base, length = i, len(ALPHA), 1
    while n >= base**length:
        n -= base**length
        length += 1
    ops = []
    for _ in range(length):
        n, r = divmod(n, base)
        ops.append(ALPHA[r])
    return [("join", 1), ("join", 2)] + ops


def exhaustive_count(length):
    return sum(len(ALPHA) ** k for k in range(1, length + 1))

"""Inputs are never modified, and instances do not affect each other."""
import contextlib
import copy
import random

from vmon import authlab as A, brokerlab as B, dealerlab as D, gen, msgspec as S, pristine, sessionlab as L, wire
from vmon.checks import c09, c15, c18
from vmon.core import FnWorkload, Stats, Violation, short
from vmon.rig import CALL, INVOCATION, M, T, attempt, details, error, need, pick, sub
from wampproto import auth
from wampproto.acceptor import Acceptor
from wampproto.broker import Broker
from wampproto.dealer import Dealer
from wampproto.joiner import Joiner
from wampproto.serializers import payload as P
from wampproto.serializers.serializer import to_message
from wampproto.session import WAMPSession

RULE = (
    "shared containers: a case is one program over messages, routers, sessions and authenticators that share containers, run twice: sharing "
    "them and with fresh copies at every use; independence: a case is several instances run interleaved and each alone; non-trivial: a container "
    "was used twice, or two instances were interleaved"
)
NEEDS = ["containers compared", "uses compared", "container used again", "opaque payload beside a plain one", "wire lists parsed twice", "routed twice", "sent twice", "authextra shared", "roles shared",
         "messages read", "messages marshalled", "messages serialized", "payload encodings",
         "own containers: message", "own containers: emitted", "own containers: client", "own containers: decoded", "own containers: payload", "containers filled",
         "programs with shared serializers", "steps compared: broker", "steps compared: dealer", "steps compared: session", "steps compared: acceptor", "steps compared: joiner"]
ASSUMPTIONS = ["applications modify a container the library made only in the workload 'own containers'", "random content (challenges, session and publication ids) is compared by kind, not by value"]

# ---------------------------------------------------------------- shared containers

DICTS = {"dict", "kwargs", "opt", "roles"}
PAYLOAD = {48: "Call", 68: "Invocation", 70: "Yield", 50: "Result"}
ROUTABLE = {48, 70, 64, 66, 8, 32, 34, 16}
READS = ["request_id", "procedure", "topic", "uri", "realm", "roles", "authid", "authrole", "authmethod", "authmethods", "authextra", "session_id", "signature", "reason", "message_type", "extra",
         "options", "details", "args", "kwargs", "subscription_id", "publication_id", "registration_id", "payload", "payload_serializer"]
ISSUED = {"Invocation": {"request_id", "registration_id"}, "Registered": {"registration_id"}, "Subscribed": {"subscription_id"}, "Event": {"subscription_id", "publication_id"},
          "Published": {"publication_id"}, "Welcome": {"session_id"}}


class World:
    """One execution.  With share, containers and messages are the very same objects at every use."""

    def __init__(self, pool, share):
        self.pool0 = copy.deepcopy(pool)
        self.pool = pool
        self.share = share
        self.specs = []
        self.made = []
        self.routers = [(Broker(), Dealer()) for _ in range(2)]
        self.canon = [c09.Canon() for _ in range(2)]
        self.sessions = [WAMPSession(wire.SER[k]()) for k in range(3)]
        for b, d in self.routers:
            for s in (1, 2):
                b.add_session(details(s))
                d.add_session(details(s))
        for b, d in self.routers:
            d.receive_message(2, M.Register(M.RegisterFields(1, "p")))
            b.receive_message(2, sub(1, "t"))
        for s in self.sessions:
            s.send_message(M.Register(M.RegisterFields(1, "p")))
            s.send_message(sub(1, "t"))
            s.receive_message(M.Registered(M.RegisteredFields(1, 1)))
            s.receive_message(M.Subscribed(M.SubscribedFields(1, 1)))

    def box(self, k):
        return self.pool[k] if self.share else copy.deepcopy(self.pool0[k])

    def build(self, spec):
        kind = spec[0]
        if kind == "spec":
            _, code, scalars, boxes, opaque = spec
            v = dict(scalars)
            for a, k in boxes.items():
                v[a] = self.box(k)
            name = S.TABLE[code][0]
            kw = {a: x for a, x in v.items() if x is not None}
            if opaque:
                kw.update(payload=opaque[0], serializer=opaque[1], binary=True)
            return getattr(M, name)(getattr(M, name + "Fields")(**kw))
        if kind == "wire":
            return to_message(self.box(spec[1]))
        return copy.deepcopy(spec[1])

    def message(self, k):
        if not self.specs:
            return None
        k %= len(self.specs)
        if self.share:
            return self.made[k]
        return self.build(self.specs[k])

    def add(self, spec, made=None):
        if made is None:
            made = attempt(self.build, spec)
            if not made.ok:
                return "refused"
            made = made.val
        self.specs.append(spec)
        self.made.append(made)
        return "made " + type(made).__name__

    # operations; each returns something to be compared
    def do_make(self, code, scalars, boxes, opaque):
        return self.add(("spec", code, scalars, boxes, opaque))

    def do_parse(self, k):
        return self.add(("wire", k))

    def do_read(self, k, attrs):
        m = self.message(k)
        if m is None:
            return None
        skip = ISSUED.get(type(m).__name__, ()) if self.specs[k % len(self.specs)][0] == "made" else ()
        return [(a, value(m, a)) for a in attrs if a not in skip]

    def do_marshal(self, k):
        m = self.message(k)
        if m is None or self.specs[k % len(self.specs)][0] == "made":
            return None
        r = attempt(m.marshal)
        return copy.deepcopy(r.val) if r.ok else "refused"

    def do_serialize(self, k, f):
        m = self.message(k)
        if m is None:
            return None
        r = attempt(wire.SER[f]().serialize, m)
        if self.specs[k % len(self.specs)][0] == "made":
            return r.ok
        return wire.LOADS[f](r.val) if r.ok else "refused"

    def do_route(self, n, sid, k):
        m = self.message(k)
        if m is None:
            return None
        b, d = self.routers[n]
        if isinstance(m, M.Publish):
            r = attempt(b.receive_publish, sid, m)
        elif isinstance(m, (M.Subscribe, M.Unsubscribe)):
            r = attempt(b.receive_message, sid, m)
        else:
            r = attempt(d.receive_message, sid, m)
        self.outputs(r)
        return self.canon[n].res(r)

    def outputs(self, r):
        if not r.ok:
            return
        v = r.val
        outs = [v.message] if isinstance(v, T.MessageWithRecipient) else [v.event] + ([v.ack.message] if v.ack else []) if isinstance(v, T.Publication) else []
        for m in outs:
            if m is not None:
                self.add(("made", m if self.share else copy.deepcopy(m)), m)

    def do_send(self, n, k):
        m = self.message(k)
        if m is None:
            return None
        r = attempt(self.sessions[n].send_message, m)
        if self.specs[k % len(self.specs)][0] == "made":
            return r.ok
        return wire.LOADS[n](r.val) if r.ok else "refused"

    def do_receive(self, n, k):
        m = self.message(k)
        if m is None or self.specs[k % len(self.specs)][0] == "made":
            return None
        r = attempt(self.sessions[n].receive_message, m)
        return [(a, value(r.val, a)) for a in READS if hasattr(r.val, a)] if r.ok else "refused"

    def do_payload(self, sid, a, k):
        r = attempt(P.serialize_payload, sid, None if a is None else self.box(a), None if k is None else self.box(k))
        if not r.ok:
            return "refused"
        return None if r.val is None else wire.LOADS[sid - 1](r.val) if sid else bytes(r.val)

    def do_join(self, method, extra, roles, rroles, f):
        """A whole handshake whose authextra and roles are pool containers."""
        ex = None if extra is None else self.box(extra)
        if method == "cryptosign":
            c = auth.CryptoSignAuthenticator("a", A.KEYS[0].private_hex, ex)
        elif method == "cryptosign2":
            c = auth.CryptoSignAuthenticator("a", A.KEYS[1].private_hex, ex)
        elif method == "ticket":
            c = auth.TicketAuthenticator("a", "t", ex)
        elif method == "wampcra":
            c = auth.WAMPCRAAuthenticator("a", "s", ex)
        else:
            c = auth.AnonymousAuthenticator("a", ex)
        first = copy.deepcopy(c.auth_extra)
        seen = []

        class Host(auth.IServerAuthenticator):
            def authenticate(self, q):
                seen.append((q.method, q.authid, copy.deepcopy(q.auth_extra)))
                return auth.WAMPCRAResponse("a", "r", "s") if q.method == "wampcra" else auth.Response("a", "r")

        j = Joiner("realm", wire.SER[f](), c)
        acc = Acceptor(wire.SER[f](), Host(), None if rroles is None else self.box(rroles))
        hello = j.send_hello() if roles is None else j.send_hello(self.box(roles))
        out = [first, copy.deepcopy(c.auth_extra), wire.LOADS[f](hello)]
        data = hello
        for _ in range(2):
            r = attempt(acc.receive, data)
            if not r.ok:
                return out + ["refused"]
            w = wire.LOADS[f](r.val[0])
            if w[0] == 2:
                out.append(w[2])
            r = attempt(j.receive, r.val[0])
            out.append((w[0], r.ok))
            if not r.ok or not r.val:
                break
            data = r.val
        return out + [seen]


def value(m, a):
    r = attempt(getattr, m, a)
    return copy.deepcopy(r.val) if r.ok else "-"


def same(a, b):
    if type(a) in (tuple, list) and type(b) in (tuple, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return gen.same(a, b)


def run_shared(ops, st):
    pristine.start()
    if not ops or ops[0][0] != "pool":
        return
    pool = copy.deepcopy(ops[0][1])
    a, b = World(pool, True), World(copy.deepcopy(ops[0][1]), False)
    used, routed = set(), set()
    opaque = False
    for op in ops[1:]:
        x = getattr(a, "do_" + op[0])(*op[1:])
        y = getattr(b, "do_" + op[0])(*op[1:])
        what = f"after {len(a.specs)} messages, {short(op, 400)}"
        for k, (now, before) in enumerate(zip(a.pool, a.pool0)):
            need(gen.same(now, before), "{}: container {} was {}, is now {}", what, k, before, now)
        st.ev("containers compared", len(a.pool))
        if not same(x, y):
            raise Violation(f"{what}: {short(x, 500)} with shared containers and messages, {short(y, 500)} with fresh ones")
        if x is None:
            continue
        st.ev("uses compared")
        kind = op[0]
        boxes = list(op[3].values()) if kind == "make" else [op[1]] if kind == "parse" else [k for k in op[2:4] if k is not None] if kind == "payload" else [k for k in op[2:5] if k is not None] if kind == "join" else []
        for k in boxes:
            if k in used:
                st.ev("container used again")
                st.nontrivial()
                st.ev("wire lists parsed twice", kind == "parse")
                if kind == "join":
                    st.ev("authextra shared", op[2] == k)
                    st.ev("roles shared", k in op[3:5])
                if kind == "make":
                    st.ev("opaque payload beside a plain one", bool(op[4]) != opaque)
            used.add(k)
        if kind == "make":
            opaque = bool(op[4])
        st.ev({"read": "messages read", "marshal": "messages marshalled", "serialize": "messages serialized", "payload": "payload encodings"}.get(kind, "other uses"))
        if kind in ("route", "send"):
            key = (kind, op[-1] % len(a.specs))
            st.ev("routed twice" if kind == "route" else "sent twice", key in routed)
            routed.add(key)


def gen_pool(rng):
    pool = []
    kinds = []
    for _ in range(rng.randint(2, 4)):
        pool.append(gen.mapping(rng, 2) if rng.random() < 0.6 else gen.free_dict(rng, p_empty=0.3))
        kinds.append("dict")
    for extra in ({"progress": True}, {"receive_progress": True}, {"acknowledge": True}, {"progress": True, "receive_progress": True}, {}, {"x_payload_serializer": 2}):
        if rng.random() < 0.6:
            pool.append({**extra, **gen.free_dict(rng)})
            kinds.append("dict")
    for _ in range(rng.randint(1, 3)):
        pool.append(gen.array(rng))
        kinds.append("list")
    for _ in range(rng.randint(1, 2)):
        pool.append({r: {"features": {"x": True}} if rng.random() < 0.5 else {} for r in rng.sample(S.ROLES, rng.randint(1, 3))})
        kinds.append("roles")
    pool.append(["ticket"])
    kinds.append("methods")
    for _ in range(rng.randint(1, 3)):
        code = rng.choice(S.CODES)
        pool.append(S.layout(code, S.gen_values(rng, code)))
        kinds.append("wire")
    # containers inside containers, and containers inside wire lists
    if rng.random() < 0.4:
        pool.append({"inner": pool[0], "again": pool[0]})
        kinds.append("dict")
    if rng.random() < 0.4:
        pool.append([48, rng.randint(1, 3), pool[0], "p", pool[kinds.index("list")], pool[1]])
        kinds.append("wire")
    return pool, kinds


def gen_make(rng, kinds):
    code = pick(rng, [(3, rng.choice(S.CODES)), (4, 48), (3, 70), (2, 16), (2, 68), (2, 50), (2, 8), (1, 36), (1, 1), (1, 2)])
    scalars, boxes = {}, {}
    v = S.gen_values(rng, code)
    of = lambda *ks: rng.choice([k for k, n in enumerate(kinds) if n in ks])
    for kind, a in S.attributes(code):
        if kind in ("dict", "kwargs"):
            if rng.random() < 0.85 or code in S.REQUIRED_DICTS:
                boxes[a] = of("dict")
        elif kind == "args":
            if rng.random() < 0.7:
                boxes[a] = of("list")
        elif kind == "roles":
            boxes[a] = of("roles")
        elif a == "authextra":
            boxes[a] = of("dict")
        elif a == "authmethods":
            boxes[a] = of("methods")
        elif v.get(a) is not None:
            scalars[a] = v[a]
    if "request_id" in scalars and rng.random() < 0.8:
        scalars["request_id"] = rng.randint(1, 3)
    if "procedure" in scalars and rng.random() < 0.8:
        scalars["procedure"] = "p"
    if "topic" in scalars and rng.random() < 0.8:
        scalars["topic"] = "t"
    if "registration_id" in scalars or "subscription_id" in scalars:
        for k in ("registration_id", "subscription_id"):
            if k in scalars and rng.random() < 0.8:
                scalars[k] = 1
    opaque = (rng.choice([b"", b"x", b"\x80"]), rng.choice([0, 1, 2, 3])) if code in PAYLOAD and rng.random() < 0.4 else None
    if opaque:
        boxes.pop("args", None)
        boxes.pop("kwargs", None)
    return ("make", code, scalars, boxes, opaque)


def gen_shared(rng, i, tier):
    pool, kinds = gen_pool(rng)
    ops = [("pool", pool)]
    n = rng.randint(4, 40)
    dicts = [k for k, x in enumerate(kinds) if x == "dict"]
    lists = [k for k, x in enumerate(kinds) if x == "list"]
    roles = [k for k, x in enumerate(kinds) if x == "roles"]
    wires = [k for k, x in enumerate(kinds) if x == "wire"]
    for _ in range(n):
        k = pick(rng, [(20, "make"), (6, "parse"), (16, "read"), (8, "marshal"), (8, "serialize"), (16, "route"), (8, "send"), (5, "receive"), (4, "payload"), (7, "join")])
        m = rng.randrange(60)
        if k == "make":
            ops.append(gen_make(rng, kinds))
        elif k == "parse":
            ops.append((k, rng.choice(wires)))
        elif k == "read":
            ops.append((k, m, rng.sample(READS, rng.choice([3, 8, len(READS)]))))
        elif k == "marshal":
            ops.append((k, m))
        elif k == "serialize":
            ops.append((k, m, rng.randrange(3)))
        elif k == "route":
            ops.append((k, rng.randrange(2), rng.choice([1, 1, 2, 2, 3]), m))
        elif k in ("send", "receive"):
            ops.append((k, rng.randrange(3), m))
        elif k == "payload":
            ops.append((k, rng.randrange(4), rng.choice(lists + [None]), rng.choice(dicts + [None])))
        else:
            ops.append((k, rng.choice(["anonymous", "ticket", "wampcra", "cryptosign", "cryptosign2"]), rng.choice(dicts + [None]), rng.choice(roles + [None]),
                        rng.choice(roles + [None]), rng.randrange(3)))
    return ops


# ---------------------------------------------------------------- containers the library made


def own(ops, st):
    """What is put into a container the library made for one message or session shows up in no other."""
    pristine.start()
    for op in ops:
        kind = op[0]
        if kind == "message":
            _, code, seed = op
            v = {a: x for a, x in S.gen_values(random.Random(seed), code).items() if x is not None}
            kinds = dict((a, k) for k, a in S.attributes(code))
            v = {a: x for a, x in v.items() if code in S.REQUIRED_DICTS or kinds[a] not in ("dict", "args", "kwargs") and a not in ("authextra", "authmethods")}
            make = lambda: S.build(code, copy.deepcopy(v))
        elif kind == "emitted":
            e = Emitter()
            make = lambda: getattr(Emitter() if op[2] else e, op[1])()
        elif kind == "decoded":
            _, code, seed, f, fresh = op
            shared = wire.SER[f]()
            data = shared.serialize(S.build(code, S.gen_values(random.Random(seed), code)))
            make = lambda: (wire.SER[f]() if fresh else shared).deserialize(data)
        elif kind == "payload":
            _, seed, sid = op
            data = P.serialize_payload(sid, *gen.opt_args(random.Random(seed)))
            make = lambda: P.deserialize_payload(sid, data)
        elif kind == "client":
            make = lambda: {"ticket": lambda: auth.TicketAuthenticator("a", "t"), "wampcra": lambda: auth.WAMPCRAAuthenticator("a", "s"),
                            "cryptosign": lambda: auth.CryptoSignAuthenticator("a", A.KEYS[0].private_hex), "anonymous": lambda: auth.AnonymousAuthenticator("a")}[op[1]]()
        what = short(op, 200)
        one = make()
        other = make()
        before = boxes(other)
        inner = list(boxes(one, copied=False).items())
        for a, x in inner:
            inner.extend((a, y) for y in (x.values() if isinstance(x, dict) else x if isinstance(x, list) else ()) if isinstance(y, (dict, list)))
        for a, x in inner[:12]:
            if isinstance(x, dict):
                x["put in by the application"] = 1
            elif isinstance(x, list):
                x.append("put in by the application")
            else:
                continue
            st.ev("containers filled")
            st.nontrivial()
            need(gen.same(boxes(other), before), "{}: what was put into {} of one shows up in another: {}", what, a, boxes(other))
            third = boxes(make())
            need(gen.same(third, before), "{}: what was put into {} of one shows up in a later one: {}", what, a, third)
        st.ev("own containers: " + kind)


def boxes(m, copied=True):
    if isinstance(m, tuple):
        return {k: copy.deepcopy(x) if copied else x for k, x in enumerate(m) if isinstance(x, (dict, list))}
    out = {}
    for a in ("options", "details", "extra", "args", "kwargs", "authextra", "authmethods", "roles", "auth_extra"):
        r = attempt(getattr, m, a)
        if r.ok and isinstance(r.val, (dict, list)):
            out[a] = copy.deepcopy(r.val) if copied else r.val
    return out


class Emitter:
    """A router that emits the same kind of message again and again."""

    def __init__(self):
        self.b, self.d, self.n = Broker(), Dealer(), 0
        for r in (self.b, self.d):
            r.add_session(details(1))
        self.b.receive_message(1, sub(1, "t"))
        self.d.receive_message(1, M.Register(M.RegisterFields(1, "p")))

    def event(self):
        return self.b.receive_publish(1, M.Publish(M.PublishFields(1, "t"))).event

    def invocation(self):
        self.n += 1
        return self.d.receive_message(1, M.Call(M.CallFields(self.n, "p"))).message

    def result(self):
        return self.d.receive_message(1, M.Yield(M.YieldFields(self.invocation().request_id))).message

    def failure(self):
        return self.d.receive_message(1, error(INVOCATION, self.invocation().request_id, "e.x")).message

    def refusal(self):
        self.n += 1
        return self.d.receive_message(1, M.Call(M.CallFields(self.n, "nobody"))).message


def gen_own(rng, i, tier):
    out = []
    for _ in range(3):
        k = pick(rng, [(6, "message"), (4, "emitted"), (2, "client"), (4, "decoded"), (2, "payload")])
        if k == "message":
            out.append((k, rng.choice(S.CODES), rng.randrange(10**6)))
        elif k == "emitted":
            out.append((k, rng.choice(["event", "invocation", "result", "failure", "refusal"]), rng.random() < 0.5))
        elif k == "decoded":
            out.append((k, rng.choice(S.CODES), rng.randrange(10**6), rng.randrange(3), rng.random() < 0.5))
        elif k == "payload":
            out.append((k, rng.randrange(10**6), rng.choice([1, 2, 3])))
        else:
            out.append((k, rng.choice(["ticket", "wampcra", "cryptosign", "anonymous"])))
    return out


# ---------------------------------------------------------------- independence of instances


class RouterI:
    def __init__(self, cls):
        self.t = cls(Stats())

    def step(self, op):
        self.t.reset()
        getattr(self.t, "do_" + op[0])(*op[1:])
        return None if self.t.res is None else self.t.canon.res(self.t.res)


class SessionI:
    def __init__(self, cfg):
        self.t = c15.Run(Stats(), cfg[1], cfg[2])

    def step(self, op):
        self.t.last = None
        getattr(self.t, "do_" + op[0])(*op[1:])
        r = self.t.last
        if r is None:
            return None
        return (r.ok, short(r.val if isinstance(r.val, (str, bytes)) else r.val.marshal(), 5000) if r.ok else None)


class Watched(A.AcceptorRun):
    def on_step(self, s):
        w = s.answer.marshal() if s.answer is not None else None
        if w and w[0] == 2:
            w[1] = "id"
        elif w and w[0] == 4:
            w = [4, w[1], sorted(w[2]), w[2].get("salt"), w[2].get("iterations")]
        self.out.append((s.kind, s.final, repr(w), s.h.phase, [(c["method"], c["realm"], c["authid"], repr(c["extra"])) for c in s.calls]))


class AcceptorI:
    def __init__(self, accounts):
        self.t = Watched(Stats(), accounts)

    def step(self, op):
        self.t.out = []
        getattr(self.t, "do_" + op[0])(*op[1:])
        return self.t.out


class JoinerI:
    def __init__(self, cfg):
        self.t = c18.Run(Stats(), *cfg[1:])

    def step(self, op):
        t = self.t
        before = len(t.outcomes)
        getattr(t, "do_" + op[0])(*op[1:])
        d = attempt(t.j.get_session_details)
        sent = t.sent
        t.sent = None
        return (sent, t.phase, sorted(t.outcomes), before, repr((d.val.session_id, d.val.authid, d.val.authrole)) if d.ok else None)


def make(kind, cfg):
    if kind == "broker":
        return RouterI(c09.BrokerTwin)
    if kind == "dealer":
        return RouterI(c09.DealerTwin)
    if kind == "session":
        return SessionI(cfg)
    if kind == "acceptor":
        return AcceptorI(cfg)
    return JoinerI(cfg)


def stepped(inst, op):
    """What came of a step; a breach of the instance's own protocol is just another outcome here."""
    try:
        return inst.step(op)
    except Violation:
        return "breach"
    except (MemoryError, OSError):
        raise
    except Exception as e:
        return "raised " + type(e).__name__


def play_alone(kind, cfg, steps):
    inst = make(kind, cfg)
    return [stepped(inst, op) for op in steps]


@contextlib.contextmanager
def one_serializer_each(on):
    """All instances of a program share one serializer per format, as the default argument makes sessions do."""
    if not on:
        yield
        return
    kept = wire.SER[:], L.SER[:], c15.Faulty, c18.Poison
    pool = {}
    for cls_list in (wire.SER, L.SER):
        cls_list[:] = [lambda cls=cls: pool.setdefault(cls, cls()) for cls in cls_list]
    c15.Faulty = lambda inner: pool.setdefault(("faulty", id(inner)), kept[2](inner))
    c18.Poison = lambda inner: pool.setdefault(("poison", id(inner)), kept[3](inner))
    try:
        yield
    finally:
        wire.SER[:], L.SER[:], c15.Faulty, c18.Poison = kept


def run_independent(ops, st):
    """ops: ("share", whether), ("new", k, kind, cfg) and ("do", k, op)."""
    pristine.start()
    share = bool(ops) and ops[0][0] == "share" and ops[0][1] is True
    st.ev("programs with shared serializers", share)
    ops = [op for op in ops if op[0] != "share"]
    with one_serializer_each(share):
        independent(ops, st)


def independent(ops, st):
    kinds = {op[1]: (op[2], op[3]) for op in ops if op[0] == "new"}
    alone = {}
    for k, (kind, cfg) in kinds.items():
        alone[k] = pristine.call(play_alone, kind, cfg, [op[2] for op in ops if op[0] == "do" and op[1] == k])
    st.ev("instances run alone in a fresh process", len(alone))
    insts, at = {}, {k: 0 for k in kinds}
    last, switches = None, 0
    for op in ops:
        k = op[1]
        if op[0] == "new":
            insts[k] = make(*kinds[k])
            continue
        if k not in insts:
            continue
        x = stepped(insts[k], op[2])
        y = alone[k][at[k]]
        at[k] += 1
        if x != y:
            raise Violation(f"{kinds[k][0]} {k}, step {at[k]} {short(op[2], 300)}: {short(x, 400)} beside {len(insts) - 1} other instances, {short(y, 400)} alone")
        st.ev("steps compared: " + kinds[k][0])
        if last is not None and last != k:
            switches += 1
        last = k
    if switches > 1:
        st.nontrivial()


def gen_stream(rng, kind, tier):
    if kind == "broker":
        return None, [o for o in c09.bgen(rng, 0, tier)[:60]]
    if kind == "dealer":
        return None, [o for o in c09.dgen(rng, 0, tier)[:60]]
    if kind == "session":
        ops = c15.gen_ops(rng, 0, tier)[:60]
        return ops[0], ops[1:]
    if kind == "acceptor":
        return A.gen_accounts(rng), A.gen_ops(rng)
    ops = c18.gen(rng, 0, tier)
    return ops[0], ops[1:]


def gen_independent(rng, i, tier):
    kinds = rng.choice([["broker"] * 2, ["dealer"] * 2, ["session"] * 2, ["session"] * 3, ["acceptor"] * 2, ["joiner"] * 3, ["broker", "dealer", "session", "acceptor", "joiner"],
                        ["broker", "dealer", "broker", "dealer"], ["acceptor", "joiner", "acceptor", "joiner"]])
    streams = []
    same_stream = rng.random() < 0.3  # the same operations on all of a kind
    seed = rng.random()
    for k, kind in enumerate(kinds):
        r = random.Random(f"{seed}/{kind}") if same_stream else rng
        streams.append(gen_stream(r, kind, tier))
    ops = [("new", k, kind, streams[k][0]) for k, kind in enumerate(kinds)]
    share = [("share", rng.random() < 0.5)]
    if rng.random() < 0.3:
        late = ops.pop()
    else:
        late = None
    left = {k: list(s[1]) for k, s in enumerate(streams)}
    burst = rng.choice([1, 1, 3, 10])
    n = 0
    while any(left.values()):
        if late is not None and n >= 10:
            ops.append(late)
            late = None
        k = rng.choice([k for k, s in left.items() if s])
        if late is not None and k == late[1]:
            ops.append(late)
            late = None
        for _ in range(rng.randint(1, burst)):
            if left[k]:
                ops.append(("do", k, left[k].pop(0)))
                n += 1
    return share + ops


WORKLOADS = [
    FnWorkload("shared containers", 6000, 220000, gen_shared, run_shared),
    FnWorkload("own containers", 1500, 30000, gen_own, own),
    FnWorkload("independence", 1800, 50000, gen_independent, run_independent),
]
for _w in WORKLOADS:
    _w.again = False  # which container is in which message is what this check is about

"""Challenges and session ids are fresh and bound to their session."""
import contextlib
import datetime
import json
import os
import random
import secrets
import time

from vmon import authlab as A, clock, wire
from vmon.core import FnWorkload
from vmon.rig import M, attempt, is_id, need, pick
from wampproto import auth
from wampproto.auth.cryptosign import generate_cryptosign_keypair
from wampproto.acceptor import Acceptor
from wampproto.idgen import generate_session_id

RULE = (
    "a case is a batch of challenges drawn from the generators or from handshakes, with the process-wide generator reseeded in "
    "between; non-trivial: at least two challenges were compared"
)
NEEDS = ["generated key pairs", "cryptosign challenges", "wampcra challenges", "drawn after the same reseeding", "drawn in a forked process",
         "cryptosign challenges in handshakes", "wampcra challenges in handshakes", "bindings compared with WELCOME",
         "randomness ranks measured", "session ids compared", "session id range", "session ids told in WELCOME", "time of issue compared"]
ASSUMPTIONS = ["unpredictability is judged by length, distinctness, independence of the seedable generator and linear rank only"]
SEEN = {}  # every challenge text / nonce seen by this process


def bits(s):
    """The random part as a vector over GF(2): the bytes if hexadecimal, else the bits of the text."""
    try:
        raw = bytes.fromhex(s)
    except ValueError:
        raw = s.encode()
    return int.from_bytes(raw, "big")


def rank(vectors):
    base = vectors[0]
    pivots = {}
    for v in vectors[1:]:
        v ^= base
        while v:
            h = v.bit_length()
            if h not in pivots:
                pivots[h] = v
                break
            v ^= pivots[h]
    return len(pivots)


def fresh(text, what):
    need(text not in SEEN, "{} {} was issued before, as {}", what, text, SEEN.get(text))
    SEEN[text] = what


def cryptosign():
    c = auth.generate_cryptosign_challenge()
    raw = A.unhex(c) if isinstance(c, str) else None
    need(raw is not None and len(raw) >= 32, "a cryptosign challenge is {}", repr(c))
    return c


def wampcra(session=7, authid="a", role="b", provider="p"):
    c = auth.generate_wampcra_challenge(session, authid, role, provider)
    d = parse_cra(c)
    check_binding(d, c, session, authid, role)
    check_time(d, c)
    return d["nonce"]


def parse_cra(c):
    need(isinstance(c, str), "a WAMP-CRA challenge is {}", repr(c))
    r = attempt(json.loads, c)
    need(r.ok and isinstance(r.val, dict), "a WAMP-CRA challenge is {}", c)
    d = r.val
    need(isinstance(d.get("nonce"), str) and len(d["nonce"]) >= 16, "a WAMP-CRA challenge has nonce {}", repr(d.get("nonce")))
    return d


def check_time(d, c):
    t = d.get("timestamp")
    r = attempt(lambda: datetime.datetime.fromisoformat(t) if isinstance(t, str) else 1 / 0)
    need(r.ok, "the challenge {} has no time of issue", c)
    t = r.val if r.val.tzinfo else r.val.replace(tzinfo=datetime.timezone.utc)
    need(min(abs(t.timestamp() - x) for x in (clock.now(), clock.real_time())) < 300, "the challenge {} was issued at {} UTC", c, clock.DateTime.fromtimestamp(clock.now(), datetime.timezone.utc).isoformat())


def check_binding(d, c, session, authid, role):
    need(d.get("session") == session and type(d.get("session")) is int and d.get("authid") == authid and d.get("authrole") == role
         and d.get("authmethod") == "wampcra",
         "the challenge {} does not name session {}, authid {}, role {} and method wampcra", c, session, authid, role)


def keypair():
    """The private half of a generated key pair whose halves belong together."""
    r = attempt(generate_cryptosign_keypair)
    need(r.ok and isinstance(r.val, tuple) and len(r.val) == 2 and all(isinstance(x, str) for x in r.val), "a generated key pair is {}", r)
    public, private = r.val
    seed = A.unhex(private)
    need(seed is not None and len(seed) == 32, "a generated private key is {}", repr(private))
    key = A.Key(seed)
    need(public == key.public_hex, "the generated private key {} belongs to {}, not to {}", private, key.public_hex, public)
    c = auth.CryptoSignAuthenticator("a", private, {})
    need(c.auth_extra.get("pubkey") == public, "a client with the generated private key {} announces {}, not {}", private, c.auth_extra, public)
    text = "5a" * 32
    proof = c.authenticate(M.Challenge(M.ChallengeFields("cryptosign", {"challenge": text}))).signature
    r = attempt(auth.verify_cryptosign_signature, proof, bytes.fromhex(public), text)
    need(r.ok and r.val is True, "a proof by the generated private key, judged by its public key, {}", r)
    return private


WHAT = {"cryptosign": "cryptosign challenge", "wampcra": "wampcra challenge", "keypair": "generated key pair"}
DRAW = {"cryptosign": cryptosign, "wampcra": wampcra, "keypair": keypair}


def forked(f, n):
    """n draws of f in a child process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        out = b"!"
        try:
            out = json.dumps([f() for _ in range(n)]).encode()
        finally:
            os.write(w, out)
            os._exit(0)
    os.close(w)
    data = b""
    while chunk := os.read(r, 65536):
        data += chunk
    os.close(r)
    os.waitpid(pid, 0)
    need(data[:1] == b"[", "drawing a challenge in a forked process failed")
    return json.loads(data)


class Admit(auth.IServerAuthenticator):
    def methods(self):
        return A.METHODS

    def authenticate(self, request):
        return auth.Response("alice", "user")


SERS = [c() for c in wire.SER]
ADMIT = Admit()


def run(ops, st):
    for n, op in enumerate(ops):
        getattr(Run, op[0])(st, n, *op[1:])


class Run:
    def draw(st, n, kind, count):
        for _ in range(count):
            fresh(DRAW[kind](), WHAT[kind])
        st.ev(WHAT[kind] + "s", count)
        if count > 1:
            st.nontrivial()

    def reseed(st, n, kind, seed):
        """The same seed twice must not give the same challenge twice."""
        random.seed(seed)
        a = [DRAW[kind]() for _ in range(3)]
        random.seed(seed)
        b = [DRAW[kind]() for _ in range(3)]
        for x in a + b:
            fresh(x, f"{WHAT[kind]} drawn after random.seed({seed!r})")
        random.seed()
        st.ev("drawn after the same reseeding", 6)
        st.nontrivial()

    def restate(st, n, kind):
        state = random.getstate()
        a = [DRAW[kind]() for _ in range(2)]
        random.setstate(state)
        for x in a + [DRAW[kind]() for _ in range(2)]:
            fresh(x, f"{WHAT[kind]} drawn after random.setstate()")
        st.ev("drawn after the same reseeding", 4)
        st.nontrivial()

    def fork(st, n, kind):
        DRAW[kind]()
        a = forked(DRAW[kind], 3)
        b = forked(DRAW[kind], 3)
        c = [DRAW[kind]() for _ in range(3)]
        for x in a + b + c:
            fresh(x, f"{WHAT[kind]} drawn around a fork")
        st.ev("drawn in a forked process", 6)
        st.nontrivial()

    def rank(st, n, kind):
        want = 128 if kind == "wampcra" else 256
        sample = [DRAW[kind]() for _ in range(want + 96)]
        got = rank([bits(x) for x in sample])
        need(got >= want, "{} {} draws span only {} bits, e.g. {} and {}", len(sample), kind, got, sample[0], sample[1])
        st.ev("randomness ranks measured")
        st.top("rank " + kind, got)
        st.nontrivial()

    def bound(st, n, session, authid, role, provider):
        with zone(ZONES[session % len(ZONES)]):
            wampcra(session, authid, role, provider)
        st.ev("time of issue compared")
        st.ev("wampcra challenges")

    def handshakes(st, n, method, ser, count, granted, role, salted):
        """Several sessions of one user, all challenged before any answers."""
        acc = {"method": method, "authid": "alice", "granted": granted, "role": role, "secret": "s", "key": A.KEYS[0], "ticket": "t"}
        if salted:
            acc.update(salt="x", iterations=1, keylen=32)
        server = A.Server({(method, "alice"): acc})
        hello = [1, "realm1", {"roles": {"caller": {}}, "authid": "alice", "authmethods": [method], "authextra": {"pubkey": A.KEYS[0].public_hex}}]
        opened = []
        for _ in range(count):
            a = Acceptor(wire.SER[ser](), server)
            data, _ = a.receive(wire.DUMPS[ser](hello))
            m = wire.LOADS[ser](data)
            if m[0] == 4 and method != "ticket":
                c = m[2].get("challenge")
                if method == "wampcra":
                    fresh(parse_cra(c)["nonce"], "nonce of a handshake")
                else:
                    raw = A.unhex(c) if isinstance(c, str) else None
                    need(raw is not None and len(raw) >= 32, "a cryptosign handshake has the challenge {}", repr(c))
                    fresh(c, "challenge of a handshake")
                st.ev(method + " challenges in handshakes")
            opened.append((a, m))
        ids = {}
        for k, (a, m) in enumerate(opened):
            w = m
            if m[0] == 4:
                c = m[2].get("challenge")
                sig = "t" if method == "ticket" else A.cra_proof(A.cra_key(acc), c) if method == "wampcra" else A.make_sign("right", 0, acc["key"], c, [])
                data, _ = a.receive(wire.DUMPS[ser]([5, sig, {}]))
                w = wire.LOADS[ser](data)
            if w[0] != 2:
                continue
            need(is_id(w[1]), "session id {}", repr(w[1]))
            need(w[1] not in ids, "sessions {} and {} have the same session id {}", ids.get(w[1]), k, w[1])
            ids[w[1]] = k
            st.ev("session ids compared")
            if method == "wampcra":
                d = parse_cra(m[2]["challenge"])
                check_binding(d, m[2]["challenge"], w[1], granted, role)
                st.ev("bindings compared with WELCOME")
            st.nontrivial()

    def ids(st, n, count):
        got = [generate_session_id() for _ in range(count)]
        for v in got:
            need(is_id(v), "session id {}", repr(v))
        need(len(set(got)) == count, "{} session ids, only {} different", count, len(set(got)))
        st.ev("session id range", count)


    def welcomed(st, n, kind, count):
        """The ids that clients of one router are told in WELCOME."""
        hello = M.Hello(M.HelloFields("realm1", {"caller": {}}, "alice", ["anonymous"], {}))
        got = []
        for i in range(count):
            a = Acceptor() if kind == 0 else Acceptor(SERS[i % 3], ADMIT)
            out = a.receive_message(hello)
            got.append(out.session_id)
        for v in got:
            need(is_id(v), "session id {}", repr(v))
        need(len(set(got)) == count, "{} sessions were welcomed, with only {} different ids", count, len(set(got)))
        st.ev("session ids told in WELCOME", count)


    def extremes(st, n, top):
        """Session ids when the random source gives the lowest or highest value it can on its first draw."""
        with steered(top) as hits:
            a = Acceptor()
            data, _ = a.receive(json.dumps([1, "realm1", {"roles": {"caller": {}}}]))
        need(is_id(json.loads(data)[1]), "session id {} with the random source at its {} end", json.loads(data)[1], "upper" if top else "lower")
        with steered(top) as more:
            v = generate_session_id()
        need(is_id(v), "session id {} with the random source at its {} end", v, "upper" if top else "lower")
        st.ev("session ids at the ends of the random source", len(hits) + len(more))


ZONES = ["UTC", "XXX-13:45", "YYY11", "EST5EDT,M3.2.0,M11.1.0"]


@contextlib.contextmanager
def zone(name):
    """The process runs in another time zone."""
    old = os.environ.get("TZ")
    os.environ["TZ"] = name
    time.tzset()
    try:
        yield
    finally:
        os.environ["TZ"] = old or "UTC"
        time.tzset()


@contextlib.contextmanager
def steered(top):
    """Python's random sources give their extreme value once, then go on as usual."""
    hits = []
    undo = []

    def patch(obj, name, extreme):
        real = getattr(obj, name)
        had = name in vars(obj)

        def f(*a):
            if hits:
                return real(*a)
            hits.append(name)
            return extreme(*a)

        setattr(obj, name, f)
        undo.append((obj, name, real, had))

    for inst in (random._inst, secrets._sysrand):
        patch(inst, "_randbelow", lambda n: n - 1 if top else 0)
    for obj, name in ((random, "getrandbits"), (secrets, "randbits")):
        patch(obj, name, lambda k: (1 << k) - 1 if top else 0)
    patch(random, "random", lambda: 1 - 2**-53 if top else 0.0)
    patch(secrets, "randbelow", lambda n: n - 1 if top else 0)
    try:
        yield hits
    finally:
        for obj, name, real, had in reversed(undo):
            if had:
                setattr(obj, name, real)
            else:
                delattr(obj, name)


def gen_case(rng, i, tier):
    kind = rng.choice(["cryptosign", "wampcra"]) if rng.random() < 0.8 else "keypair"
    ops = []
    for _ in range(rng.randint(1, 4)):
        ops.append(pick(rng, [
            (4, ("draw", kind, rng.choice([2, 10, 200]))), (4, ("reseed", kind, rng.choice([0, 1, "x", rng.randrange(10**6)]))),
            (2, ("restate", kind)), (1, ("fork", kind)), (1, ("rank", kind)),
            (4, ("handshakes", rng.choice(["cryptosign", "wampcra", "wampcra", "ticket", "anonymous"]), rng.randrange(3), rng.randint(2, 8),
                 rng.choice(["alice", "", "ålice", 'q"uote', "x\\y", "日本"]), rng.choice(["user", "", "rôle", 'a"b']), rng.random() < 0.3)),
            (3, ("bound", rng.choice([1, 2**53, rng.randint(1, 2**53)]), rng.choice(["", "a", 'q"', "é", "\\", "\n"]), rng.choice(["", "r", "é"]), rng.choice(["", "dynamic"]))),
            (1, ("ids", rng.choice([10, 500]))), (1, ("extremes", rng.random() < 0.5))]))
    return ops


WORKLOADS = [
    FnWorkload("batches", 2500, 60000, gen_case, run),
    # enough sessions for ids of 32 bits or fewer to collide; two of 53 bits collide with probability 10**-6
    FnWorkload("many sessions", 8, 64, lambda rng, i, tier: [("ids", 150_000)], run),
    FnWorkload("many welcomes", 6, 64, lambda rng, i, tier: [("welcomed", i % 2, 100_000)], run),
]

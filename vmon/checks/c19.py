"""Honest clients always get in, and both ends agree on the session."""
import base64
import copy

from vmon import authlab as A, gen, wire
from vmon.core import FnWorkload
from vmon.rig import M, attempt, is_id, need, pick
from wampproto import auth
from wampproto.acceptor import Acceptor
from wampproto.auth.auth import WAMPCRASaltedResponse
from wampproto.joiner import Joiner
from wampproto.types import SessionDetails

RULE = "a case is one complete honest handshake; every completed handshake is non-trivial"
NEEDS = ["joined: anonymous", "joined: ticket", "joined: wampcra", "joined: salted wampcra", "joined: cryptosign",
         "joined: no authenticator", "joined over json", "joined over msgpack", "joined over cbor", "requests compared",
         "details compared", "announced roles compared", "joined without bytes"]
ASSUMPTIONS = ["the secret of a salted WAMP-CRA response is the derived key, in the encoding derive_cra_key() gives it"]


class Host(auth.IServerAuthenticator):
    def __init__(self, response):
        self.response = response
        self.calls = []

    def methods(self):
        return A.METHODS

    def authenticate(self, request):
        self.calls.append((request, copy.deepcopy(request.auth_extra)))
        return self.response


def client_of(c, key):
    extra = copy.deepcopy(c["extra"])
    m = c["method"]
    if m == "ticket":
        return auth.TicketAuthenticator(c["authid"], c["ticket"], extra)
    if m == "wampcra":
        return auth.WAMPCRAAuthenticator(c["authid"], c["secret"], extra)
    if m == "cryptosign":
        return auth.CryptoSignAuthenticator(c["authid"], key.private_hex, extra)
    return auth.AnonymousAuthenticator(c["authid"], extra)


def response_of(c):
    if c["method"] != "wampcra":
        return auth.Response(c["granted"], c["role"])
    if c["salt"] is None:
        return auth.WAMPCRAResponse(c["granted"], c["role"], c["secret"])
    return WAMPCRASaltedResponse(c["granted"], c["role"], A.cra_key(c).decode(), c["salt"], c["iterations"], c["keylen"])


def run(ops, st):
    if not ops:
        return
    c = ops[0]
    key = A.Key(c["seed"])
    ser = wire.SER[c["ser"]]
    method = c["method"]
    client = client_of(c, key)
    joiner = Joiner(c["realm"], ser(), client) if method != "default" else Joiner(c["realm"], ser())
    host = Host(response_of(c)) if c["server"] else None
    acceptor = Acceptor(ser(), host) if c["roles"] is None else Acceptor(ser(), host, copy.deepcopy(c["roles"]))
    trace = []
    hello = joiner.send_hello() if c["hello_roles"] is None else joiner.send_hello(copy.deepcopy(c["hello_roles"]))
    to_router = hello
    said = wire.LOADS[c["ser"]](hello)[2]
    all_four = {"caller", "callee", "publisher", "subscriber"}
    if c["hello_roles"] is None:
        need(set(said.get("roles", ())) == all_four, "HELLO announces the roles {}", said.get("roles"))
        plain_roles(said["roles"])
    else:
        need(gen.same(said.get("roles"), c["hello_roles"]), "HELLO announces the roles {} instead of {}", said.get("roles"), c["hello_roles"])
    st.ev("announced roles compared")
    if c["messages"]:  # message objects instead of bytes
        to_router = wire.parse(wire.LOADS[c["ser"]](hello))
    welcome = None
    for _ in range(2):
        r = attempt(acceptor.receive_message if c["messages"] else acceptor.receive, to_router)
        need(r.ok, "honest {} client: the router side {} after {}", method, r, trace)
        answer, final = (r.val, isinstance(r.val, (M.Welcome, M.Abort))) if c["messages"] else r.val
        decoded = answer if c["messages"] else wire.parse(wire.LOADS[c["ser"]](answer))
        trace.append(decoded.marshal())
        need(not isinstance(decoded, M.Abort), "honest {} client was turned away: {}", method, trace)
        r = attempt(joiner.receive_message if c["messages"] else joiner.receive, answer)
        need(r.ok, "honest {} client: {} on {}", method, r, trace)
        if isinstance(decoded, M.Welcome):
            need(final and r.val is None, "honest {} client: WELCOME was final={} and answered with {}", method, final, r)
            welcome = decoded
            break
        need(not final and r.val, "honest {} client: {} was final={} and answered with {}", method, trace[-1], final, r)
        to_router = r.val
    need(welcome is not None, "honest {} client: not welcomed: {}", method, trace)

    roles = trace[-1][2].get("roles", {})
    if c["roles"] is None:
        need(set(roles) == {"broker", "dealer"}, "WELCOME announces the roles {}", roles)
        plain_roles(roles)
    else:
        need(gen.same(roles, c["roles"]), "WELCOME announces the roles {} instead of {}", roles, c["roles"])
    st.ev("announced roles compared")
    used = trace[-1][2].get("authmethod")
    if used is not None:
        need(used == ("anonymous" if method == "default" or not c["server"] else method), "WELCOME tells a {} client that it was admitted by {}", method, used)
        st.ev("method named in WELCOME")
    j, a = attempt(joiner.get_session_details), attempt(acceptor.get_session_details)
    need(j.ok and a.ok, "honest {} client: details of the client {}, of the router {}", method, j, a)
    four = lambda d: (d.session_id, d.realm, d.authid, d.authrole)
    need(four(j.val) == four(a.val), "{} client has {}, router has {}", method, four(j.val), four(a.val))
    need(is_id(j.val.session_id) and j.val.realm == c["realm"], "{} client asked for realm {} and has {}", method, c["realm"], four(j.val))
    need(j.val == a.val and a.val == j.val and not j.val != a.val and not a.val != j.val, "{} on both ends, but they compare as different", four(j.val))
    for n in range(4):
        other = list(four(j.val))
        for x in [other[n] % 2**53 + 1] if n == 0 else [other[n] + "x", other[n][:-1], ""]:
            if x == four(a.val)[n]:
                continue
            other[n] = x
            d = SessionDetails(*other)
            need(not (d == a.val) and not (a.val == d) and d != a.val and a.val != d, "details {} compare equal to {}", four(d), four(a.val))
    for x in (None, four(a.val), j.val.session_id, "x"):
        need(not (a.val == x) and not (x == a.val) and a.val != x, "details {} compare equal to {}", four(a.val), x)
    st.ev("details compared")
    st.nontrivial()
    st.ev("joined over " + wire.FORMATS[c["ser"]])
    st.ev("joined without bytes", bool(c["messages"]))
    if not c["server"]:
        need((j.val.authid, j.val.authrole) == ("anonymous", "anonymous"), "a router without an authenticator granted {}", four(j.val))
        st.ev("joined: no authenticator")
        return
    need((j.val.authid, j.val.authrole) == (c["granted"], c["role"]), "{} client was granted {} but has {}", method,
         (c["granted"], c["role"]), four(j.val))
    need(len(host.calls) == 1, "the authenticator was asked {} times about one {} client", len(host.calls), method)
    q, extra = host.calls[0]
    sent = "anonymous" if method == "default" else method
    want_id = "" if method == "default" else c["authid"]
    need((q.method, q.realm, q.authid) == (sent, c["realm"], want_id), "the authenticator saw {} for a client that is {}",
         (q.method, q.realm, q.authid), (sent, c["realm"], want_id))
    want = {} if method == "default" or c["extra"] is None else copy.deepcopy(c["extra"])
    if method == "cryptosign":
        want.setdefault("pubkey", key.public_hex)
        need(q.public_key == want["pubkey"], "the authenticator saw key {}, the client has {}", q.public_key, want["pubkey"])
        st.ev("own notation of the key", want["pubkey"] != key.public_hex)
    need(gen.same(extra or {}, want), "the authenticator saw authextra {}, the client gave {}", extra, want)
    if method == "ticket":
        need(q.ticket == c["ticket"], "the authenticator saw ticket {}, the client gave {}", q.ticket, c["ticket"])
    st.ev("requests compared")
    st.ev("joined: salted wampcra" if method == "wampcra" and c["salt"] is not None else "joined: " + sent)


ROLES = [None, None, None, {"broker": {"features": {"x": True}}}, {"dealer": {}, "broker": {}}]
CLIENT_ROLES = [None, None, None, {"caller": {}}, {"publisher": {"features": {"x": True}}, "callee": {}}]


def plain_roles(roles):
    """Nobody asked for a feature: each role comes with nothing but a dictionary of features."""
    for k, x in roles.items():
        need(isinstance(x, dict) and set(x) <= {"features"} and isinstance(x.get("features", {}), dict), "the role {} is announced as {}", k, x)


def text(rng):
    return gen.string(rng, rare=False) if rng.random() < 0.7 else rng.choice(["", "a", "anonymous", "x" * 300, "日本語", "a\x00"])


EXTRA_KEYS = ["x-note", "x_note", "_note", "__note__", "realm", "authid", "authrole", "authmethod", "ticket", "secret", "salt", "iterations", "keylen", "challenge", "signature", "session",
              "channel_binding", "trustroot", "nonce", "PUBKEY", "pubkey2", "roles", "authextra", "authprovider", "$ref", "@type", "#", "a.b"]


def gen_case(rng, i, tier):
    ser = rng.randrange(3)
    method = pick(rng, [(1, "default"), (3, "anonymous"), (4, "ticket"), (8, "wampcra"), (6, "cryptosign")])
    extra = pick(rng, [(2, None), (2, {}), (6, "v")])
    seed = rng.randbytes(32) if rng.random() < 0.9 else rng.choice([bytes(32), b"\xff" * 32])
    if extra == "v":
        extra = gen.mapping(rng, 2, binary=ser > 0)
        for k in rng.sample(EXTRA_KEYS, rng.choice([0, 0, 1, 2])):
            extra[k] = text(rng) if rng.random() < 0.7 else gen.value(rng, 2, binary=ser > 0)
        extra.pop("pubkey", None)
    if method == "cryptosign" and extra is not None and rng.random() < 0.2:
        extra["pubkey"] = A.Key(seed).public_hex
        if rng.random() < 0.5:
            extra["pubkey"] = extra["pubkey"].upper()
    c = {
        "method": method, "ser": ser, "realm": text(rng), "authid": text(rng), "granted": text(rng), "role": text(rng),
        "extra": extra, "server": rng.random() < 0.93, "messages": rng.random() < 0.15, "roles": rng.choice(ROLES),
        "hello_roles": rng.choice(CLIENT_ROLES), "ticket": text(rng), "secret": text(rng), "seed": seed,
        "salt": None, "iterations": 0, "keylen": 0,
    }
    if rng.random() < 0.4:
        c["granted"] = c["authid"]
    if rng.random() < 0.5:
        c.update(salt=text(rng), iterations=rng.choice([1, 2, 3, 10, 100]) if rng.random() < 0.9 else rng.choice([1000] * 40 + [4095, 4096, 10000, 16385, 65537, 100003]), keylen=rng.choice([1, 16, 24, 31, 32, 33, 48, 64, 65, 128]))
    return [c]


WORKLOADS = [FnWorkload("handshakes", 8000, 300000, gen_case, run)]

"""Messages, requests and other value objects say exactly what they were made of."""
import copy
import types as pytypes

from vmon import gen, msgspec as S, wire
from vmon.core import FnWorkload
from vmon.rig import M, T, attempt, details, need, reg, reply, sub
from wampproto import auth, exception, serializers, uris
from wampproto.auth.auth import WAMPCRASaltedResponse
from wampproto.broker import Broker
from wampproto.dealer import Dealer
from wampproto.session import WAMPSession
from wampproto.transports import rawsocket

RULE = "a case is a few objects, read back attribute by attribute (or compared with each other); every case that read one is non-trivial"
NEEDS = ["read: " + n for n, _ in S.TABLE.values()] + ["by position", "by keyword", "by the application's own field object", "nothing given for optional parts", "opaque payloads read",
         "read again after use", "requests read", "responses read", "authenticators read", "session details compared: equal", "session details compared: different",
         "session details compared with something else", "publications read", "application errors read", "constants compared", "own field objects: call routed", "own field objects: publish routed",
         "own field objects: sent by a client"]
ASSUMPTIONS = ["the order of positional parameters is the one in which the library's own tests and its documentation use them",
               "a field object of the application is any object with the attributes and methods the library's field interfaces declare"]
# positional parameters of the field classes
ORDER = {
    1: "realm roles authid authmethods authextra", 2: "session_id roles authid authrole authmethod authextra", 3: "details reason args kwargs", 4: "authmethod extra",
    5: "signature extra", 6: "details reason", 8: "message_type request_id uri args kwargs details", 16: "request_id topic args kwargs options",
    17: "request_id publication_id", 32: "request_id topic options", 33: "request_id subscription_id", 34: "request_id subscription_id", 35: "request_id",
    36: "subscription_id publication_id args kwargs details", 48: "request_id procedure args kwargs options", 49: "request_id options", 50: "request_id args kwargs details",
    64: "request_id procedure options", 65: "request_id registration_id", 66: "request_id registration_id", 67: "request_id",
    68: "request_id registration_id args kwargs details", 69: "request_id options", 70: "request_id args kwargs options",
}
OPAQUE = {48, 50, 68, 70}  # types whose field objects take a payload
NAMES = {c: n.upper() for c, (n, _) in S.TABLE.items()}
ANNOUNCE = "x_payload_serializer"


class Own:
    """The application's own field object: everything is worked out when it is asked for."""

    def __init__(self, v, opaque):
        self._v, self._opaque = v, opaque

    def __getattr__(self, name):
        if name.startswith("__") or name not in self._v:
            raise AttributeError(name)
        return copy.deepcopy(self._v[name])

    def payload_is_binary(self):
        return self._opaque is not None

    @property
    def payload(self):
        return self._opaque and self._opaque[0]

    @property
    def payload_serializer(self):
        return self._opaque and self._opaque[1]


def make(code, v, how, opaque):
    name = S.TABLE[code][0]
    F = getattr(M, name + "Fields")
    order = ORDER[code].split()
    kw = dict(payload=opaque[0], serializer=opaque[1], binary=True) if opaque else {}
    if how == "position":
        f = F(*[v.get(a) for a in order], **kw)
    elif how == "keyword":
        f = F(**{a: v[a] for a in order if v.get(a) is not None}, **kw)
    else:
        full = {a: ({} if v.get(a) is None and k == "dict" else v.get(a)) for k, a in S.attributes(code)}
        f = Own(full, opaque)
    return getattr(M, name)(f)


def do_message(st, code, v, how, opaque):
    v0 = copy.deepcopy(v)
    name = S.TABLE[code][0]
    m = make(code, v, how, opaque)
    what = f"{name} made by {how}"
    for again in range(2):
        for kind, a in S.attributes(code):
            want = v0.get(a)
            if kind == "dict":
                want = {} if want is None else want
                if opaque and a in ("options", "details"):
                    want = {**want, ANNOUNCE: opaque[1]}
            got = getattr(m, a)
            ok = gen.same(got, want) or (code == 2 and a == "authextra" and gen.none_or_same(got, want))
            need(ok, "{}: {} is {}, should be {}", what, a, repr(got), repr(want))
        if S.has_args(code) and code != 3 or code in OPAQUE:
            says = attempt(lambda: (m.payload_is_binary(), m.payload))
            need(says.ok, "{}: asked for its payload {}", what, says)
            if opaque:
                need(says.val == (True, opaque[0]) and m.payload_serializer == opaque[1], "{} with payload {} says {} {}", what, opaque, says.val, m.payload_serializer)
                st.ev("opaque payloads read")
            else:
                need(not says.val[0] and not says.val[1], "{} without an opaque payload says {}", what, says.val)
                need(not m.payload_serializer, "{} without an opaque payload names the payload serializer {}", what, m.payload_serializer)
        need(m.TYPE == code and type(m.TYPE) is int and m.TEXT == NAMES[code], "{} has the type {} {}", what, m.TYPE, m.TEXT)
        if not opaque and not again:
            w = m.marshal()
            need(gen.same(w, S.layout(code, v0)) or code == 2, "{}: laid out as {} instead of {}", what, w, S.layout(code, v0))
            for s in wire.SER:
                s().deserialize(s().serialize(m))
            st.ev("read again after use")
    st.ev("read: " + name)
    st.ev({"position": "by position", "keyword": "by keyword"}.get(how, "by the application's own field object"))
    st.ev("nothing given for optional parts", how == "keyword" and any(v0.get(a) is None for _, a in S.attributes(code)))
    st.nontrivial()


def do_routed(st, kind, v, opaque):
    """A message made of the application's own field object serves as well as any other."""
    if kind == "publish":
        b = Broker()
        for s in (1, 2):
            b.add_session(details(s))
        r = reply(attempt(b.receive_message, 1, sub(1, v["topic"])), M.Subscribed)
        res = attempt(b.receive_publish, 2, make(16, v, "own", None))
        need(res.ok and res.val.recipients == [1], "a publication made of an own field object {}", res)
        e = res.val.event
        need(e.subscription_id == r[0].subscription_id and gen.same_payload(e.args, e.kwargs, v.get("args"), v.get("kwargs")), "a publication of {} became {}", v, e.marshal())
    elif kind == "call":
        d = Dealer()
        for s in (1, 2):
            d.add_session(details(s))
        d.receive_message(1, reg(1, v["procedure"]))
        got = reply(attempt(d.receive_message, 2, make(48, v, "own", opaque)), M.Invocation)
        need(got is not None and got[1] == 1, "a call made of an own field object {}", v)
        if opaque:
            need(got[0].payload_is_binary() and got[0].payload == opaque[0] and got[0].payload_serializer == opaque[1], "payload {} became {}", opaque, (got[0].payload, got[0].payload_serializer))
        else:
            need(gen.same_payload(got[0].args, got[0].kwargs, v.get("args"), v.get("kwargs")), "a call with {} became {}", v, got[0].marshal())
        y = reply(attempt(d.receive_message, 1, make(70, {**v, "request_id": got[0].request_id, "options": {}}, "own", opaque)), M.Result)
        need(y is not None and y[1] == 2 and y[0].request_id == v["request_id"], "a yield made of an own field object {}", v)
        if not opaque:
            need(gen.same_payload(y[0].args, y[0].kwargs, v.get("args"), v.get("kwargs")), "a yield with {} became {}", v, y[0].marshal())
    else:
        f = v["request_id"] % 3
        s = WAMPSession(wire.SER[f]())
        data = s.send_message(make(48, v, "own", None))
        need(gen.same(wire.LOADS[f](data), S.layout(48, v)), "a call made of an own field object was written as {}", data)
        wl = [50, v["request_id"], {}]
        got = attempt(s.receive, wire.DUMPS[f](wl))
        need(got.ok and isinstance(got.val, M.Result), "its result was {}", got)
    st.ev({"publish": "own field objects: publish routed", "call": "own field objects: call routed"}.get(kind, "own field objects: sent by a client"))
    st.nontrivial()


def reads(st, o, want, what):
    for a, x in want.items():
        got = getattr(o, a)
        need(gen.same(got, x), "{}: {} is {}, should be {}", what, a, repr(got), repr(x))
    st.nontrivial()


def do_request(st, kind, realm, authid, extra, more, role):
    base = {"realm": realm, "authid": authid, "auth_extra": copy.deepcopy(extra), "authrole": role}
    last = () if role is None else (role,)
    if kind == "ticket":
        o, base["ticket"] = auth.TicketRequest(realm, authid, extra, more, *last), more
    elif kind == "cryptosign":
        o, base["public_key"] = auth.CryptoSignRequest(realm, authid, extra, more, *last), more
    elif kind == "other":
        o = auth.Request("scram", realm, authid, extra, *last)
    else:
        o = {"anonymous": auth.AnonymousRequest, "wampcra": auth.WAMPCRARequest}[kind](realm, authid, extra, *last)
    base["method"] = "scram" if kind == "other" else kind
    reads(st, o, base, f"a {kind} request")
    need(isinstance(o, auth.Request), "a {} request is no Request", kind)
    st.ev("requests read")


def do_response(st, kind, authid, role, secret, salt, n, k):
    if kind == 0:
        o, want = auth.Response(authid, role), {}
    elif kind == 1:
        o, want = auth.WAMPCRAResponse(authid, role, secret), {"secret": secret}
    else:
        o, want = WAMPCRASaltedResponse(authid, role, secret, salt, n, k), {"secret": secret, "salt": salt, "iterations": n, "keylen": k}
    reads(st, o, {"authid": authid, "authrole": role, **want}, "a response")
    need(isinstance(o, auth.Response) and isinstance(o, auth.WAMPCRAResponse) == (kind > 0), "{} is of the wrong kind", type(o).__name__)
    st.ev("responses read")


def do_client(st, kind, authid, extra):
    arg = {"ticket": ["t"], "wampcra": ["s"], "cryptosign": ["ab" * 32], "anonymous": []}[kind]
    cls = {"ticket": auth.TicketAuthenticator, "wampcra": auth.WAMPCRAAuthenticator, "cryptosign": auth.CryptoSignAuthenticator, "anonymous": auth.AnonymousAuthenticator}[kind]
    want = copy.deepcopy(extra) if extra is not None else {}
    o = cls(authid, *arg) if extra is None else cls(authid, *arg, extra)
    got = dict(o.auth_extra)
    if kind == "cryptosign" and "pubkey" not in want:
        key = got.pop("pubkey", None)
        need(isinstance(key, str) and len(key) == 64, "the authenticator announces the key {}", key)
    need(gen.same(got, want), "a {} authenticator made with {} has the extra data {}", kind, want, got)
    reads(st, o, {"auth_method": kind, "authid": authid}, f"a {kind} authenticator")
    st.ev("authenticators read")


def do_details(st, a, b):
    x, y = T.SessionDetails(*a), T.SessionDetails(*b)
    reads(st, x, dict(zip(("session_id", "realm", "authid", "authrole"), a)), "session details")
    same = a == b
    need((x == y) is same and (y == x) is same and (x != y) is (not same), "details of {} and {} compare as equal: {}", a, b, x == y)
    st.ev("session details compared: " + ("equal" if same else "different"))
    need(x == x and x == T.SessionDetails(*a), "details of {} are not equal to themselves", a)
    for z in (None, 1, a, list(a), "x", object(), pytypes.SimpleNamespace(session_id=a[0], realm=a[1], authid=a[2], authrole=a[3])):
        need((x == z) is False and (x != z) is True, "details of {} are equal to {}", a, repr(z))
    st.ev("session details compared with something else")
    m = M.Registered(M.RegisteredFields(1, 2))
    r = T.MessageWithRecipient(m, a[0])
    need(r.message is m and r.recipient == a[0], "a message for {} says {}", a[0], r)
    e = M.Event(M.EventFields(1, 2))
    p = T.Publication(e, [a[0], b[0]], r)
    need(p.event is e and p.recipients == [a[0], b[0]] and p.ack is r, "a publication says {}", p)
    q = T.Publication()
    need(q.event is None and not q.recipients and q.ack is None, "an empty publication says {}", q)
    st.ev("publications read")


def do_error(st, uri, args, kwargs):
    e = exception.ApplicationError(uri, copy.deepcopy(args), copy.deepcopy(kwargs))
    need(e.message == uri and list(e.args) == (args or []) and (e.kwargs or {}) == (kwargs or {}), "an error made of {} says {} {} {}", (uri, args, kwargs), e.message, e.args, e.kwargs)
    text = str(e)
    need(text.startswith(uri), "an error made of {} reads {}", (uri, args, kwargs), text)
    at = len(uri)
    for x in [str(a) for a in args or []] + [t for k, v in (kwargs or {}).items() for t in (str(k), str(v))]:
        found = text.find(x, at)
        need(found >= 0, "an error made of {} reads {}, without {} in its place", (uri, args, kwargs), text, x)
        at = found + len(x)
    st.ev("application errors read")
    st.nontrivial()


def do_constants(st):
    want = {
        (uris, "INVALID_ARGUMENT"): "wamp.error.invalid_argument", (uris, "PROCEDURE_ALREADY_EXISTS"): "wamp.error.procedure_already_exists",
        (uris, "INVALID_URI"): "wamp.error.invalid_uri", (uris, "AUTHENTICATION_FAILED"): "wamp.error.authentication_failed", (uris, "CLOSE_REALM"): "wamp.close.close_realm",
        (rawsocket, "MAGIC"): 0x7F, (rawsocket, "PROTOCOL_MIN_MSG_SIZE"): 512, (rawsocket, "PROTOCOL_MAX_MSG_SIZE"): 16777216, (rawsocket, "DEFAULT_MAX_MSG_SIZE"): 1048576,
        (rawsocket, "SERIALIZER_TYPE_JSON"): 1, (rawsocket, "SERIALIZER_TYPE_MSGPACK"): 2, (rawsocket, "SERIALIZER_TYPE_CBOR"): 3,
        (rawsocket, "MSG_TYPE_WAMP"): 0, (rawsocket, "MSG_TYPE_PING"): 1, (rawsocket, "MSG_TYPE_PONG"): 2,
        (serializers, "NONE_SERIALIZER_ID"): 0, (serializers, "JSON_SERIALIZER_ID"): 1, (serializers, "MSGPACK_SERIALIZER_ID"): 2, (serializers, "CBOR_SERIALIZER_ID"): 3,
        (auth.AnonymousAuthenticator, "TYPE"): "anonymous", (auth.TicketAuthenticator, "TYPE"): "ticket", (auth.WAMPCRAAuthenticator, "TYPE"): "wampcra",
        (auth.CryptoSignAuthenticator, "TYPE"): "cryptosign",
    }
    for (where, name), x in want.items():
        got = getattr(where, name)
        need(type(got) is type(x) and got == x, "{}.{} is {}, should be {}", where.__name__, name, repr(got), repr(x))
    for code, name in NAMES.items():
        c = wire.CLASSES[code]
        need(c.TYPE == code and c.TEXT == name, "{} has the type {} {}", name, c.TYPE, c.TEXT)
    st.ev("constants compared")
    st.nontrivial()


def run(ops, st):
    for op in ops:
        globals()["do_" + op[0]](st, *op[1:])


def some_opaque(rng):
    return (rng.choice([b"", b"\x00", b"abc", rng.randbytes(rng.randint(1, 300))]), rng.choice([0, 1, 2, 3, 5, 255]))


def gen_case(rng, i, tier):
    out = []
    for _ in range(rng.randint(1, 5)):
        code = rng.choice(S.CODES)
        opaque = some_opaque(rng) if code in OPAQUE and rng.random() < 0.35 else None
        v = S.gen_values(rng, code, False)
        if opaque:
            v["args"] = v["kwargs"] = None
        out.append(("message", code, v, rng.choice(["position", "keyword", "own"]), opaque))
    text = lambda: gen.string(rng) if rng.random() < 0.7 else rng.choice(["", "x", None])
    x = rng.randrange(8)
    if x == 0:
        kind = rng.choice(["publish", "call", "send"])
        v = S.gen_values(rng, 16 if kind == "publish" else 48, False)
        v["options"] = {}
        opaque = some_opaque(rng) if kind == "call" and rng.random() < 0.4 else None
        if opaque:
            v["args"] = v["kwargs"] = None
        out.append(("routed", kind, v, opaque))
    elif x == 1:
        out.append(("request", rng.choice(["ticket", "cryptosign", "anonymous", "wampcra", "other"]), gen.string(rng), text(), rng.choice([None, {}, gen.mapping(rng)]), text(), text()))
    elif x == 2:
        out.append(("response", rng.randrange(3), text(), text(), gen.string(rng), rng.choice(["", gen.string(rng)]), rng.choice([0, 1, gen.ident(rng)]), rng.choice([0, 1, gen.ident(rng)])))
    elif x == 3:
        extra = rng.choice([None, {}, gen.mapping(rng), {"pubkey": gen.string(rng)}])
        out.append(("client", rng.choice(["ticket", "cryptosign", "anonymous", "wampcra"]), gen.string(rng), extra))
    elif x in (4, 5):
        a = [gen.ident(rng), gen.string(rng), text(), text()]
        b = list(a)
        if rng.random() < 0.7:
            k = rng.randrange(4)
            b[k] = a[0] + rng.choice([1, 1, -1, 2**32, 2**53, -(2**53), 2**64, -2 * a[0] or 1]) if k == 0 else rng.choice([None, "", (a[k] or "") + "x", (a[k] or "").swapcase(), (a[k] or "") + " "])
        if rng.random() < 0.1:
            b[2], b[3] = b[3], b[2]
        out.append(("details", tuple(a), tuple(b)))
    elif x == 6:
        out.append(("error", gen.uri(rng), rng.choice([None, [], gen.array(rng)]), rng.choice([None, {}, gen.mapping(rng)])))
    else:
        out.append(("constants",))
    return out


WORKLOADS = [FnWorkload("objects", 10000, 300000, gen_case, run)]

"""The WAMP message layouts, written down independently of the library."""
from vmon import gen
from vmon.core import short
from vmon.rig import M, need, pick
from vmon import wire

ROLES = ["callee", "caller", "publisher", "subscriber", "dealer", "broker"]
ARGS = [("args", "args"), ("kwargs", "kwargs")]
# code: (constructor name, elements after the code); an element is (kind, attribute)
TABLE = {
    1: ("Hello", [("str", "realm"), ("hello", None)]),
    2: ("Welcome", [("id", "session_id"), ("welcome", None)]),
    3: ("Abort", [("dict", "details"), ("str", "reason")] + ARGS),
    4: ("Challenge", [("str", "authmethod"), ("dict", "extra")]),
    5: ("Authenticate", [("str", "signature"), ("dict", "extra")]),
    6: ("Goodbye", [("dict", "details"), ("str", "reason")]),
    8: ("Error", [("int", "message_type"), ("id", "request_id"), ("dict", "details"), ("str", "uri")] + ARGS),
    16: ("Publish", [("id", "request_id"), ("dict", "options"), ("str", "topic")] + ARGS),
    17: ("Published", [("id", "request_id"), ("id", "publication_id")]),
    32: ("Subscribe", [("id", "request_id"), ("dict", "options"), ("str", "topic")]),
    33: ("Subscribed", [("id", "request_id"), ("id", "subscription_id")]),
    34: ("Unsubscribe", [("id", "request_id"), ("id", "subscription_id")]),
    35: ("Unsubscribed", [("id", "request_id")]),
    36: ("Event", [("id", "subscription_id"), ("id", "publication_id"), ("dict", "details")] + ARGS),
    48: ("Call", [("id", "request_id"), ("dict", "options"), ("str", "procedure")] + ARGS),
    49: ("Cancel", [("id", "request_id"), ("dict", "options")]),
    50: ("Result", [("id", "request_id"), ("dict", "details")] + ARGS),
    64: ("Register", [("id", "request_id"), ("dict", "options"), ("str", "procedure")]),
    65: ("Registered", [("id", "request_id"), ("id", "registration_id")]),
    66: ("Unregister", [("id", "request_id"), ("id", "registration_id")]),
    67: ("Unregistered", [("id", "request_id")]),
    68: ("Invocation", [("id", "request_id"), ("id", "registration_id"), ("dict", "details")] + ARGS),
    69: ("Interrupt", [("id", "request_id"), ("dict", "options")]),
    70: ("Yield", [("id", "request_id"), ("dict", "options")] + ARGS),
}
CODES = list(TABLE)
DETAIL_KEYS = {
    "hello": [("authid", str), ("authmethods", list), ("authextra", dict)],
    "welcome": [("authid", str), ("authrole", str), ("authmethod", str), ("authextra", dict)],
}
REQUIRED_DICTS = {3, 6}  # AbortFields and GoodbyeFields take no default


def has_args(code):
    return TABLE[code][1][-1][0] == "kwargs"


def attributes(code):
    out = []
    for kind, attr in TABLE[code][1]:
        if attr:
            out.append((kind, attr))
        else:
            out.append(("roles", "roles"))
            out += [("opt", k) for k, _ in DETAIL_KEYS[kind]]
    return out


def layout(code, v):
    """The wire list of a message with field values v (absent fields are None)."""
    out = [code]
    for kind, attr in TABLE[code][1]:
        if kind in ("hello", "welcome"):
            det = {"roles": v["roles"]}
            for k, _ in DETAIL_KEYS[kind]:
                if v.get(k) is not None:
                    det[k] = v[k]
            out.append(det)
        elif kind == "dict":
            out.append({} if v.get(attr) is None else v[attr])
        elif kind == "args":
            if v.get("args") is not None:
                out.append(v["args"])
        elif kind == "kwargs":
            if v.get("kwargs") is not None:
                if v.get("args") is None:
                    out.append([])
                out.append(v["kwargs"])
        else:
            out.append(v[attr])
    return out


def build(code, v):
    """The message object with these field values."""
    name = TABLE[code][0]
    kw = {a: v[a] for _, a in attributes(code) if v.get(a) is not None}
    return getattr(M, name)(getattr(M, name + "Fields")(**kw))


def expected(code, v):
    """Field values after a trip over the wire."""
    out = {}
    for kind, attr in attributes(code):
        x = v.get(attr)
        if kind == "dict" and x is None:
            x = {}
        if kind == "args" and x is None and v.get("kwargs") is not None:
            x = []
        out[attr] = x
    return out


def check_fields(msg, code, want, what):
    name = TABLE[code][0]
    need(type(msg).__name__ == name or isinstance(msg, getattr(M, name)), "{}: is a {}, not a {}", what, type(msg).__name__, name)
    for kind, attr in attributes(code):
        got = getattr(msg, attr)
        ok = gen.same(got, want[attr])
        if not ok and code == 2 and attr == "authextra":
            ok = gen.none_or_same(got, want[attr])  # an absent authextra may be written as an empty one
        need(ok, "{}: field {} is {}, should be {}", what, attr, repr(got), repr(want[attr]))


def gen_roles(rng):
    names = rng.sample(ROLES, rng.randint(1, 6) if rng.random() < 0.5 else 1)
    return {n: pick(rng, [(4, {}), (3, {"features": {}}), (3, {"features": {"progressive_call_results": True, "x": False}})]) for n in names}


def gen_values(rng, code, binary=False, rich=True):
    v = {}
    for kind, attr in attributes(code):
        if kind == "id":
            v[attr] = gen.ident(rng)
        elif kind == "int":
            v[attr] = rng.choice([16, 32, 34, 48, 64, 66, 68]) if rng.random() < 0.8 else rng.choice([0, 1, 255, 65536, 2**31, 2**53])
        elif kind == "str":
            v[attr] = gen.uri(rng) if rng.random() < 0.5 else gen.string(rng)
        elif kind == "dict":
            v[attr] = None if code not in REQUIRED_DICTS and rng.random() < 0.2 else gen.free_dict(rng, binary) if rng.random() < 0.6 else gen.mapping(rng, 2, binary)
        elif kind == "roles":
            v[attr] = gen_roles(rng)
        elif kind == "opt":
            if rng.random() < 0.35:
                v[attr] = None
            elif attr == "authmethods":
                v[attr] = rng.choice([[], ["ticket"], ["anonymous"], ["wampcra"], ["cryptosign"], ["anonymous", "ticket"], [gen.string(rng)], ["ticket", "ticket"], ["b", "a", "b"], [gen.string(rng) for _ in range(rng.randint(2, 20))]])
            elif attr == "authextra":
                v[attr] = gen.mapping(rng, 2, binary)
            else:
                v[attr] = "" if rng.random() < 0.1 else gen.string(rng)
    if has_args(code):
        v["args"], v["kwargs"] = gen.opt_args(rng, binary)
    return v


# ---------------------------------------------------------------- grammar


def judge(w):
    """'ok' if w is a well-formed message, 'bad' if not, 'open' where the specification leaves room."""
    if type(w) is not list or not w:
        return "bad"
    code = w[0]
    if type(code) is not int or code not in TABLE:
        return "bad"
    el = TABLE[code][1]
    least = 1 + sum(1 for k, _ in el if k not in ("args", "kwargs"))
    if not least <= len(w) <= 1 + len(el):
        return "bad"
    verdict = "ok"
    for (kind, _), x in zip(el, w[1:]):
        r = judge_element(kind, x)
        if r == "bad":
            return "bad"
        if r == "open":
            verdict = "open"
    return verdict


def judge_element(kind, x):
    if kind == "id":
        return "ok" if type(x) is int and 1 <= x <= 2**53 else "bad"
    if kind == "int":
        return "ok" if type(x) is int else "bad"
    if kind == "str":
        return "ok" if isinstance(x, str) else "bad"
    if kind == "args":
        return "ok" if isinstance(x, list) else "bad"
    if not isinstance(x, dict):
        return "bad"
    room = "ok" if all(isinstance(k, str) for k in x) else "open"
    if kind in ("dict", "kwargs"):
        return room
    roles = x.get("roles")
    if not isinstance(roles, dict) or not roles:
        return "bad"
    if any(not isinstance(r, str) or r not in ROLES for r in roles):
        return "bad"
    if any(not isinstance(f, dict) for f in roles.values()):
        room = "open"
    keys = dict(DETAIL_KEYS[kind])
    if kind == "hello":
        keys["authrole"] = str
    for k, t in keys.items():
        if k in x:
            if x[k] is None:
                room = "open"
            elif not isinstance(x[k], t):
                if kind == "hello" and k == "authrole":  # not a field of the library's HELLO
                    room = "open"
                else:
                    return "bad"
            elif k == "authmethods" and any(not isinstance(m, str) for m in x[k]):
                room = "open"
    return room


# ---------------------------------------------------------------- CBOR framing


def cbor_end(data):
    """Index just after the first CBOR item, or None if it is not well formed (RFC 8949 appendix C)."""
    try:
        return _item(data, 0, 0)
    except (IndexError, ValueError):
        return None


def _item(d, i, depth):
    if depth > 300:
        raise ValueError
    b = d[i]
    i += 1
    major, info = b >> 5, b & 31
    n = info
    if 24 <= info <= 27:
        size = 1 << (info - 24)
        if i + size > len(d):
            raise ValueError
        n = int.from_bytes(d[i:i + size], "big")
        i += size
    elif info in (28, 29, 30):
        raise ValueError
    elif info == 31:
        if major in (2, 3):
            while d[i] != 0xFF:
                if d[i] >> 5 != major or d[i] & 31 == 31:
                    raise ValueError
                i = _item(d, i, depth + 1)
            return i + 1
        if major in (4, 5):
            k = 0
            while d[i] != 0xFF:
                i = _item(d, i, depth + 1)
                k += 1
            if major == 5 and k % 2:
                raise ValueError
            return i + 1
        raise ValueError
    if major in (2, 3):
        if i + n > len(d):
            raise ValueError
        return i + n
    if major in (4, 5):
        for _ in range(n * (2 if major == 5 else 1)):
            i = _item(d, i, depth + 1)
        return i
    if major == 6:
        return _item(d, i, depth + 1)
    if major == 7 and info == 24 and n < 32:
        raise ValueError
    return i

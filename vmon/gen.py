"""Value generators with boundary bias, and strict comparison."""
import datetime
import decimal
import fractions
import json
import math
import struct
import unicodedata
import uuid

ID_MAX = 2**53

BOUNDARY_INTS = sorted(
    {0, 1, 2, 3, 7, 10, 16, 23, 24, 25, 31, 32, 33, 48, 64, 100, 127, 128, 129, 254, 255, 256, 257, 1000, 9999}
    | {10000, 32767, 32768, 65535, 65536, 65537, 2**24 - 1, 2**24}
    | {2**31 - 1, 2**31, 2**31 + 1, 2**32 - 1, 2**32, 2**32 + 1, 2**53 - 1, 2**53}
)
ID_BOUNDARY = [n for n in BOUNDARY_INTS if n >= 1]
WIDE_INTS = BOUNDARY_INTS + [-n for n in BOUNDARY_INTS if n] + [2**53 + 1, 2**62, 2**63 - 1, 2**63, 2**64 - 1, -(2**63)]
FLOATS = [0.0, -0.0, 1.0, -1.0, 0.5, 1.5, -2.5, 0.1, 1e-7, 1e300, -1e300, 5e-324, 1e16, 123456789.123, 2.0**53, 3.0]
WORDS = ["a", "b", "foo", "bar", "value", "progress", "acknowledge", "null", "None", "0", "1", "true", "x y", "é", "日本語", "😀", "\u0000", "\n", '"', "\\", "'", "/", "<b>", " lead", "trail ", "payload", "args", "kwargs", "uri", "\u2028", "\x7f", "ß", "İ", "e\u0301", "\ufb01", "\u212b", "\ufeff", "\u200b", "\u00a0", "\r\n", "\t"]
STR_LENS = [0, 1, 2, 15, 16, 23, 24, 31, 32, 33, 63, 64, 127, 128, 255, 256, 257]
STR_LENS_RARE = [1000, 4095, 4096, 65535, 65536]

URIS = [
    "io.xconn.test",
    "io.xconn.tes",
    "io.xconn.test2",
    "io.xconn.test.sub",
    "io.xconn",
    "io.xconn.",
    ".io.xconn.test",
    "io..test",
    "IO.xconn.test",
    "io.xconn.Test",
    "io.xconn.test ",
    " io.xconn.test",
    "io_xconn_test",
    "io.xconn.*",
    "io.xconn.#",
    "",
    ".",
    "a",
    "A",
    "wamp.session.count",
    "wamp.error.no_such_procedure",
    "com.é.topic",
    "com.e\u0301.topic",
    "com.😀",
    "x" * 255,
    "x" * 256,
    "1",
    "0",
    "None",
    "a b",
    "a\x00b",
    "a\nb",
]


def uri(rng, n=None):
    pool = URIS if n is None else URIS[:n]
    if rng.random() < 0.85:
        return rng.choice(pool)
    return "com.app." + str(rng.randrange(1000 if n is None else 5))


ERROR_URIS = ["e.x"] + ["wamp.error." + x for x in (
    "no_such_procedure", "procedure_already_exists", "no_such_registration", "no_such_subscription", "invalid_uri", "invalid_argument", "runtime_error", "canceled", "timeout",
    "unavailable", "no_available_callee", "not_authorized", "authorization_failed", "no_eligible_callee", "option_not_allowed", "feature_not_supported", "payload_size_exceeded",
    "network_failure", "no_such_session", "no_such_realm", "protocol_violation", "invalid_payload", "internal_error", "unknown")] + [
    "wamp.close.normal", "wamp.close.close_realm", "wamp.close.goodbye_and_out", "wamp.close.system_shutdown", "wamp.close.killed", "", "wamp.error", "e"]


def error_uri(rng):
    return rng.choice(ERROR_URIS) if rng.random() < 0.5 else uri(rng)


def nth_error_uri(n):
    return ERROR_URIS[n % len(ERROR_URIS)]


def near_uris(rng, n):
    """Names that are easily taken for one another."""
    b = rng.choice(["io.xconn.test", "com.\u00e9t\u00e9.x", "a.stra\u00dfe", "a.\ufb01le.x", "com.app.7", "\u212bngstr\u00f6m", "com.I.topic"])
    nf = unicodedata.normalize
    near = [b.upper(), b.lower(), b.title(), b.swapcase(), b.casefold(), " " + b, b + " ", b + "\n", b + "\t", b + "\x00", "\ufeff" + b, b + "\u200b", b + "\u00a0",
            b + ".", "." + b, b + "/", b + "#", b + "*", b + "$", b[:-1], b[1:], b + b[-1], b * 2, b.replace(".", ".."), b.replace(".", "/"), b.replace(".", "_"),
            b.replace(".", "-"), b.replace(".", ""), nf("NFC", b), nf("NFD", b), nf("NFKC", b), b.replace(".", "%2e"), "urn:" + b, b.split(".")[0], b[::-1], f"'{b}'", f'"{b}"',
            b[:-2] + b[:-3:-1], b.replace("e", "\u0435"), b.replace("o", "0"), b + "0", b + "1", b + "01", b.replace("7", "07"), b.replace("7", "\u0667"), b + "\u0301"]
    k = rng.choice([63, 64, 127, 128, 200, 254, 255, 1023, 4096])
    long = [b + "x" * k + "a", b + "x" * k + "b", b + "x" * k, b + "x" * (k + 1), "y" + b + "x" * k]
    other = ["plumless", "buckeroo"]  # one CRC-32
    got = list(dict.fromkeys([b] + rng.sample(near, min(n, len(near))) + rng.sample(long, 2) + other * (rng.random() < 0.2)))
    return [b] + rng.sample(got[1:], min(n - 1, len(got) - 1))


def fresh(x):
    """The same number or text as another object: nothing may depend on which object holds it."""
    if type(x) is int:
        return x if -6 < x < 257 else int(str(x))
    if type(x) is str:
        return x if len(x) < 2 or len(x) > 300 else "".join([x[:1], x[1:]])
    return x


def ident(rng):
    """A valid protocol id."""
    r = rng.random()
    if r < 0.5:
        return rng.randint(1, 40)
    if r < 0.85:
        return rng.choice(ID_BOUNDARY)
    return rng.randint(1, ID_MAX)


def string(rng, rare=True):
    r = rng.random()
    if r < 0.55:
        return rng.choice(WORDS)
    if r < 0.8:
        return "".join(rng.choice(WORDS) for _ in range(rng.randint(0, 4)))
    if r < 0.97 or not rare:
        return rng.choice("abé日😀 ") * rng.choice(STR_LENS)
    return safe(rng.choice("ab0é") * rng.choice(STR_LENS_RARE))


def safe(s):
    """Non-ASCII text is kept below 64 KiB: cbor2 5.7.0's C decoder reads and writes out of bounds beyond it."""
    return s if s.isascii() else s[:16000]


def integer(rng):
    r = rng.random()
    if r < 0.4:
        return rng.randint(-5, 300)
    if r < 0.9:
        return rng.choice(WIDE_INTS)
    return rng.randint(-(2**63), 2**64 - 1)


def scalar(rng, binary=False):
    r = rng.random()
    if r < 0.10:
        return None
    if r < 0.22:
        return rng.random() < 0.5
    if r < 0.50:
        return integer(rng)
    if r < 0.60:
        r = rng.random()
        if r < 0.6:
            return rng.choice(FLOATS)
        if r < 0.75:
            return rng.uniform(-1e9, 1e9)
        x = struct.unpack("<d", rng.randbytes(8))[0]  # all digits, any exponent
        return x if math.isfinite(x) else 0.1
    if binary and r < 0.72:
        return rng.randbytes(rng.choice([0, 1, 2, 16, 31, 32, 255, 256]))
    return string(rng)


def value(rng, depth=3, binary=False):
    r = rng.random()
    if depth <= 0 or r < 0.62:
        return scalar(rng, binary)
    if r < 0.82:
        return array(rng, depth - 1, binary)
    return mapping(rng, depth - 1, binary)


def array(rng, depth=2, binary=False, n=None):
    if n is None:
        n = rng.choice([0, 0, 1, 1, 1, 2, 2, 3, 4, 5]) if rng.random() < 0.95 else rng.choice([15, 16, 17, 31, 32])
    return [value(rng, depth, binary) for _ in range(n)]


def mapping(rng, depth=2, binary=False, n=None):
    if n is None:
        n = rng.choice([0, 0, 1, 1, 2, 2, 3, 4]) if rng.random() < 0.95 else rng.choice([15, 16, 17])
    return {string(rng, rare=False): value(rng, depth, binary) for _ in range(n)}


def deep(rng, n, binary=False):
    v = scalar(rng, binary)
    for _ in range(n):
        v = [v] if rng.random() < 0.6 else {rng.choice(WORDS): v}
    return v


LARGE = [33, 64, 65, 99, 100, 101, 128, 129, 255, 256, 257, 500, 512, 1000, 1024, 4096]


def opt_args(rng, binary=False, depth=2):
    """args / kwargs with every presence and emptiness combination likely."""
    a = rng.choice([None, None, "e", "v", "v"])
    k = rng.choice([None, None, "e", "v", "v"])
    args = None if a is None else [] if a == "e" else array(rng, depth, binary)
    kwargs = None if k is None else {} if k == "e" else mapping(rng, depth, binary)
    if rng.random() < 0.006:
        n = rng.choice(LARGE) if rng.random() < 0.95 else 65537
        if rng.random() < 0.6:
            args = rng.choices(WORDS, k=n) if rng.random() < 0.3 else list(range(n))
        else:
            kwargs = {f"k{j}": j for j in range(n)}
    if args and rng.random() < 0.03:
        args.append(deep(rng, rng.choice([10, 40, 90]), binary))
    return args, kwargs


FREE_KEYS = ["x_foo", "x_bar", "disclose_me", "timeout", "note", "é", "message", ""]

# options and details WAMP defines and this library passes over
_flag = lambda rng, sids: rng.random() < 0.6
_ids = lambda rng, sids: [rng.choice(sids) if sids and rng.random() < 0.8 else ident(rng) for _ in range(rng.randint(0, 3))]
_names = lambda rng, sids: rng.sample(["john", "alice", "anonymous", "user", "admin", ""], rng.randint(0, 3))
WAMP_OPTIONS = {
    "exclude_me": _flag, "exclude": _ids, "eligible": _ids, "exclude_authid": _names, "eligible_authid": _names,
    "exclude_authrole": _names, "eligible_authrole": _names, "retain": _flag, "get_retained": _flag, "disclose_me": _flag,
    "disclose_caller": _flag, "force_reregister": _flag,
    "match": lambda rng, sids: rng.choice(["exact", "prefix", "wildcard", "regex", ""]),
    "invoke": lambda rng, sids: rng.choice(["single", "first", "last", "random", "roundrobin", "all"]),
    "concurrency": lambda rng, sids: rng.choice([0, 1, 2, 10]),
    "timeout": lambda rng, sids: rng.choice([0, 1, 1000, 2**31]),
    "rkey": lambda rng, sids: rng.choice(["a", 1, 0]),
    "runmode": lambda rng, sids: "partition",
    "mode": lambda rng, sids: rng.choice(["skip", "kill", "killnowait"]),
    "trustlevel": lambda rng, sids: rng.randint(0, 3),
    "publisher": lambda rng, sids: ident(rng), "caller": lambda rng, sids: ident(rng),
    "topic": lambda rng, sids: uri(rng), "procedure": lambda rng, sids: uri(rng),
    "reason": lambda rng, sids: uri(rng), "correlation_id": lambda rng, sids: "c-1", "error": lambda rng, sids: uri(rng),
}


MARKS = ("progress", "receive_progress", "acknowledge")  # each means something in some messages and nothing in others


def marked(rng, d, but=()):
    """d, at times with flags that mean nothing where they are."""
    if rng.random() < 0.2:
        for k in rng.sample(MARKS, rng.randint(1, 2)):
            if k not in but:
                d = dict(d, **{k: rng.random() < 0.75})
    return d


def free_dict(rng, binary=False, p_empty=0.5, sids=None, but=MARKS):
    """An options / details dictionary of keys without protocol meaning for this library; `but`: flags that do have one."""
    d = marked(rng, {}, but) if len(but) < len(MARKS) else {}
    if rng.random() < p_empty:
        return d
    for _ in range(rng.randint(1, 3)):
        if rng.random() < 0.55:
            k = rng.choice(sorted(WAMP_OPTIONS))
            d[k] = WAMP_OPTIONS[k](rng, sids)
        else:
            d[rng.choice(FREE_KEYS)] = value(rng, 2, binary)
    return d


def same(a, b):
    """Deep equality that also distinguishes types (True / 1 / 1.0) and treats NaN and -0.0 as themselves."""
    if a is b:
        return True
    stack = [(a, b)]
    while stack:
        x, y = stack.pop()
        if type(x) is not type(y):
            if isinstance(x, (bytes, bytearray)) and isinstance(y, (bytes, bytearray)):
                if bytes(x) != bytes(y):
                    return False
                continue
            return False
        if isinstance(x, dict):
            if len(x) != len(y):
                return False
            for k in x:
                if k not in y:
                    return False
                stack.append((x[k], y[k]))
        elif isinstance(x, (list, tuple)):
            if len(x) != len(y):
                return False
            stack.extend(zip(x, y))
        elif isinstance(x, float):
            if math.isnan(x) or math.isnan(y):
                if not (math.isnan(x) and math.isnan(y)):
                    return False
            elif x != y or math.copysign(1, x) != math.copysign(1, y):
                return False
        elif x != y:
            return False
    return True


def same_payload(args, kwargs, args0, kwargs0):
    """Equality of arguments and keyword arguments.  Absent is not empty, except that an empty list may stand in for
    absent arguments beside keyword arguments."""
    if args is None and kwargs is not None:
        args = []
    if args0 is None and kwargs0 is not None:
        args0 = []
    return same(args, args0) and same(kwargs, kwargs0)


def none_or_same(a, b):
    """Equality of args / kwargs up to 'absent' and 'empty' meaning the same on the wire."""
    if not a and not b and type(a) in (list, dict, type(None)) and type(b) in (list, dict, type(None)):
        return True
    return same(a, b)


class Plain:
    """An object no format knows."""


def _texts(*x):
    return {k: k for k in x}


KEY = Plain()

# values at least one format has no encoding for
ODD = {
    "binary": lambda: b"x\xff",
    "binary in a list": lambda: [1, [b""]],
    "binary as a key": lambda: {b"k": 1},
    "binary among texts as a key": lambda: {"a": 1, b"k": 2, "b": 3},
    "tuple as a key": lambda: {(1, 2): 1},
    "tuple among texts as a key": lambda: {"a": 1, ("x",): 2},
    "object as a key": lambda: {"a": {KEY: 1}},
    "number as a key": lambda: {1: "a"},
    "numbers among texts as a key": lambda: {"a": 1, 2: [3], -(2**53): 4},
    "number and its text as a key": lambda: {1: "a", "1": "b"},
    "float as a key": lambda: {1.5: "a"},
    "truth value as a key": lambda: {True: "a", False: "b"},
    "nothing as a key": lambda: {None: 1},
    "nothing among texts as a key": lambda: [{"x": {"null": 1, None: 2}}],
    "bytearray": lambda: bytearray(b"y"),
    "set": lambda: {1, 2},
    "set of texts": lambda: {"k": {"a"}},
    "object": lambda: Plain(),
    "class": lambda: Plain,
    "function": lambda: len,
    "exception": lambda: ValueError("x"),
    "naive time": lambda: datetime.datetime(2020, 1, 1, 2, 3, 4),
    "time": lambda: datetime.datetime(2020, 1, 1, 2, 3, 4, tzinfo=datetime.timezone.utc),
    "date": lambda: datetime.date(2020, 1, 1),
    "duration": lambda: datetime.timedelta(1, 5),
    "decimal": lambda: decimal.Decimal("1.50"),
    "fraction": lambda: fractions.Fraction(1, 3),
    "complex": lambda: 1j,
    "uuid": lambda: uuid.UUID(int=5),
    "range": lambda: range(3),
    "iterator": lambda: iter([1]),
    "view": lambda: _texts("a").keys(),
    "ellipsis": lambda: ...,
    "2**64": lambda: 2**64,
    "2**64 + 1": lambda: [2**64 + 1],
    "2**90": lambda: {"a": 2**90},
    "-2**63 - 1": lambda: -(2**63) - 1,
    "-2**64 - 1": lambda: -(2**64) - 1,
    "lone surrogate": lambda: "a\ud800b",
    "lone low surrogate": lambda: "\udc00",
    "infinity": lambda: math.inf,
    "minus infinity": lambda: [-math.inf],
    "not a number": lambda: math.nan,
}


def textual(v):
    """v with the keys JSON writes for numbers, truth values and None."""
    return json.loads(json.dumps(v))


def survived(a, b):
    """Whether what was read is what was written, for values that may have come back as another container type."""
    if same(a, b):
        return True
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(survived(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(survived(a[k], b[k]) for k in a)
    return not isinstance(a, (str, int, float)) and not isinstance(b, (str, int, float)) and type(a) is not type and bool(a == b)

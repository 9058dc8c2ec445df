"""Payload encoding is lossless and refuses what it cannot represent."""
import copy

from vmon import depths, gen, longtext, msgspec as S, wire
from vmon.core import FnWorkload, short
from vmon.rig import attempt, need, pick
from vmon.checks.c24 import corrupt, oversized
from wampproto.serializers import payload as P

NONE = 0
IDS = {1: 0, 2: 1, 3: 2}  # payload serializer id -> index into wire.FORMATS
NAMES = {0: "pass-through", 1: "json", 2: "msgpack", 3: "cbor"}
RULE = "a case is a few encodings or decodings; it is non-trivial if one of them was compared or judged"
NEEDS = [f"{n}: round trip" for n in NAMES.values()] + [f"{NAMES[k]}: {v}" for k in IDS for v in ("malformed refused", "well-formed accepted", "undecodable refused", "agrees with the plain format library")] + [
    "pass-through: not one binary value, refused", "unknown id refused when encoding", "unknown id refused when decoding", "keyword arguments without positional ones", "cbor: data after the payload refused", "odd value refused", "odd value survived", "large payload", "more than a million"]
ASSUMPTIONS = [
    "left open: a pass-through encoding of nothing at all; the text of the error that refuses dictionary keys that are no strings",
    "an absent argument list reads back as an empty one when there are keyword arguments; pass-through carries no keyword arguments, absent or empty",
    "values outside the common range of the formats are not generated; non-ASCII text of 64 KiB and more is sent over CBOR only by the workload 'long text' (known finding)",
]
PLAIN = (ValueError, TypeError)


def format_error(e):
    return type(e).__module__.split(".")[0] in ("json", "msgpack", "cbor2", "_cbor2")


def do_round(st, sid, args, kwargs):
    a0, k0 = copy.deepcopy(args), copy.deepcopy(kwargs)
    what = f"{NAMES[sid]} payload of {short(args, 200)} {short(kwargs, 200)}"
    r = attempt(P.serialize_payload, sid, args, kwargs)
    need(r.ok, "{} could not be encoded: {}", what, r)
    need(gen.same(args, a0) and gen.same(kwargs, k0), "{}: encoding changed its arguments", what)
    need(isinstance(r.val, (bytes, bytearray)), "{} was encoded as {}", what, r.val)
    data = bytes(r.val)
    d = attempt(P.deserialize_payload, sid, data)
    need(d.ok and isinstance(d.val, tuple) and len(d.val) == 2, "{}, encoded as {}, when decoded {}", what, data, d)
    a, k = d.val
    if sid == NONE:
        need(gen.same(a, a0), "{} came back as {}", what, a)
        need(not k and isinstance(k, (dict, type(None))), "{} came back with keyword arguments {}", what, k)
    else:
        want = [] if a0 is None and k0 is not None else a0
        need(gen.same(a, want) or (a0 is None and a is None), "{} came back with arguments {}", what, a)
        need(gen.same(k, k0), "{} came back with keyword arguments {}", what, k)
        plain = wire.LOADS[IDS[sid]](data)
        st.ev(NAMES[sid] + ": agrees with the plain format library", gen.same(plain, [x for x in (want, k0) if x is not None]))
        plain = attempt(wire.PLAIN[IDS[sid]], data)
        need(plain.ok, "{} is {}, which is not plain {}: {}", what, data, NAMES[sid], plain)
    st.ev("keyword arguments without positional ones", a0 is None and k0 is not None)
    st.ev(NAMES[sid] + ": round trip")
    st.nontrivial()


def do_odd(st, sid, name, where):
    x = gen.ODD[name]()
    args, kwargs = {"args": ([x], None), "kwargs": (None, {"k": x}), "deep": ([{"a": [x, 1]}], {})}[where]
    what = f"{NAMES[sid]} payload with a value ({name}) in its {where}"
    r = attempt(P.serialize_payload, sid, args, kwargs)
    st.nontrivial()
    if not r.ok:
        st.ev("odd value refused")
        return
    d = attempt(P.deserialize_payload, sid, r.val)
    if not d.ok and name.endswith("as a key"):  # keys that are no texts: refused by the reader, if not by the writer
        st.ev("odd value refused")
        return
    if sid == 1:
        plain = attempt(wire.PLAIN[0], r.val)
        need(plain.ok or name.endswith("as a key"), "{} was encoded as {}, which is no JSON: {}", what, repr(r.val), plain)
    if sid == 1 and name.endswith("as a key") and d.ok and gen.same(list(d.val), gen.textual([args, kwargs] if args is not None else [[], kwargs])):
        st.flag("json-keys-become-texts", f"{what} became {d!r}")
        return
    need(d.ok and isinstance(d.val, tuple) and len(d.val) == 2, "{} was encoded as {}, and when decoded {}", what, short(r.val, 200), d)
    need(gen.survived(d.val[0] if args is not None else d.val[1], args if args is not None else kwargs), "{} was neither refused nor kept: {} became {}", what, repr(x), d)
    st.ev("odd value survived")


def do_big(st, sid, kind, n, fill=0):
    first, rest, last = FILLS[fill]
    t = lambda: first + rest * (n - 2) + last
    x = t() if kind == "string" else t().encode("latin-1") if kind == "bytes" else list(range(n)) if kind == "list" else {str(k): k for k in range(n)}
    do_round(st, sid, [x], None if n % 2 or sid == NONE else {"k": 1})
    st.ev("large payload")
    st.ev("more than a million", n > 2**20)


def do_pass(st, args, kwargs):
    """Pass-through of something that is not exactly one binary value."""
    r = attempt(P.serialize_payload, NONE, args, kwargs)
    need(not r.ok, "pass-through of {} {} {}", args, kwargs, r)
    need(isinstance(r.exc, PLAIN), "pass-through of {} {} was {}", args, kwargs, r)
    st.ev("pass-through: not one binary value, refused")
    st.nontrivial()


def do_id(st, sid, args, kwargs, data):
    for f, x, w in ((P.serialize_payload, (args, kwargs), "encoding"), (P.deserialize_payload, (data,), "decoding")):
        r = attempt(f, sid, *x)
        need(not r.ok, "{} with serializer id {} {}", w, sid, r)
        need(isinstance(r.exc, PLAIN), "{} with serializer id {} was {}", w, sid, r)
        st.ev(f"unknown id refused when {w}")
    st.nontrivial()


def judge(w):
    if type(w) is not list or len(w) > 2:
        return "bad"
    if w and type(w[0]) is not list:
        return "bad"
    if len(w) == 2:
        if type(w[1]) is not dict:
            return "bad"
        if any(not isinstance(k, str) for k in w[1]):
            return "open"
    return "ok"


def do_decode(st, sid, data):
    f = IDS[sid]
    name = NAMES[sid]
    if f == 2 and oversized(data):
        return
    if not data:  # no payload at all: nothing, or refused
        r = attempt(P.deserialize_payload, sid, data)
        need(isinstance(r.val, tuple) and len(r.val) == 2 and not r.val[0] and not r.val[1] if r.ok else isinstance(r.exc, PLAIN) or format_error(r.exc), "an empty {} payload {}", name, r)
        st.ev("empty payload read as nothing", r.ok)
        st.nontrivial()
        return
    r = attempt(P.deserialize_payload, sid, data)
    try:
        w = wire.LOADS[f](data)
    except MemoryError:
        return
    except Exception as e:
        need(not r.ok, "{} payload {} cannot be decoded ({}), but {}", name, data, type(e).__name__, r)
        need(isinstance(r.exc, PLAIN + (type(e),)) or format_error(r.exc), "{} payload {} was {}", name, data, r)
        st.ev(name + ": undecodable refused")
        st.nontrivial()
        return
    if f == 2:
        end = S.cbor_end(data)
        if end is None:
            return
        if end < len(data):
            need(not r.ok, "cbor payload {} goes on after its end (byte {}), but {}", data, end, r)
            need(isinstance(r.exc, PLAIN) or format_error(r.exc), "cbor payload {} was {}", data, r)
            st.ev("cbor: data after the payload refused")
            st.nontrivial()
            return
    v = judge(w)
    if v == "open":
        return
    st.nontrivial()
    if v == "bad":
        need(not r.ok, "{} payload {} ({}) is malformed, but {}", name, data, w, r)
        need(isinstance(r.exc, PLAIN), "{} payload {} was {}", name, data, r)
        st.ev(name + ": malformed refused")
        return
    need(r.ok and isinstance(r.val, tuple) and len(r.val) == 2, "{} payload {} ({}) is well-formed, but {}", name, data, w, r)
    a, k = r.val
    wa, wk = w[0] if w else None, w[1] if len(w) > 1 else None
    need((gen.same(a, wa) if w else not a) and (gen.same(k, wk) if wk is not None else not k), "{} payload {} ({}) was read as {}", name, data, w, r)
    st.ev(name + ": well-formed accepted")


def run(ops, st):
    for op in ops:
        globals()["do_" + op[0]](st, *op[1:])


BINS = [b"", b"\x00", b"a", b"[1]", b"\x80", b"\xff" * 31, b"\x00" * 300, b"\xc4\x00"]
NOT_ONE = [
    ([], None), ([], {}), ([b"a", b"b"], None), ([b"a", b"b"], {}), (["a"], None), ([1], {}), ([None], None), ([[b"a"]], None), ([{"a": b"a"}], None), ([b"a"], {"a": 1}),
    ([b"a"], {"a": b"b"}), ([], {"a": b"a"}), (None, {"a": b"a"}), ([True], None), ([""], {}), ([1.5], None), ([b"a", None], None), (["a"], {"a": 1}), ([65], None), ([[65, 66]], None), ([5], {}), ([0], None),
    ([None], {}),
]
BAD_IDS = [4, 5, -1, 6, 10, 16, 255, 256, 2**31, None, "1", "json", "0", "", [1], {}, 1.5, b"\x01", -3, 13, 30]
BAD_PAYLOADS = [None, 1, "a", True, {}, {"a": 1}, [1], [None], [{}], ["a"], [[], []], [[], None], [[], 1], [[], "a"], [[], {}, []], [[], {}, {}], [[], {}, None], [[1], {"a": 1}, 1, 2], [{}, []], [{}, {}],
                [None, {}], [1, {}], ["", {}], [[[]], [[]]], [{"a": 1}, [1]], [True, {}], [False], 1.5, 0, "", [0, 0]]
GOOD_PAYLOADS = [[], [[]], [[], {}], [[1]], [[1], {"a": 1}], [[None], {}], [[[]], {"": None}], [[{}]]]


def gen_case(rng, i, tier):
    out = []
    for _ in range(rng.randint(1, 4)):
        r = rng.random()
        if r < 0.4:
            sid = rng.choice([1, 2, 3])
            args, kwargs = gen.opt_args(rng, sid != 1 and rng.random() < 0.5)
            out.append(("round", sid, args, kwargs))
        elif r < 0.5:
            b = rng.choice(BINS) if rng.random() < 0.6 else rng.randbytes(rng.choice([1, 2, 5, 100, 5000]))
            if rng.random() < 0.2:
                b = bytearray(b)
            out.append(("round", NONE, [b], rng.choice([None, {}])))
        elif r < 0.57:
            out.append(("pass",) + copy.deepcopy(rng.choice(NOT_ONE)))
        elif r < 0.62:
            a, k = gen.opt_args(rng)
            sid = rng.choice(BAD_IDS) if rng.random() < 0.8 else rng.randint(4, 10**6)
            if rng.random() < 0.3:
                a, k = [b"x"], None
            out.append(("id", sid, a, k, rng.choice(BINS + [b"[]", b"[[1]]", b"\x81\x80"])))
        else:
            sid = rng.choice([1, 2, 3])
            f = IDS[sid]
            q = rng.random()
            if q < 0.35:
                w = copy.deepcopy(rng.choice(BAD_PAYLOADS)) if rng.random() < 0.7 else gen.value(rng, 2)
                data = wire.DUMPS[f](w)
            elif q < 0.5:
                data = wire.DUMPS[f](rng.choice(GOOD_PAYLOADS))
            elif q < 0.9:
                w = rng.choice(GOOD_PAYLOADS + BAD_PAYLOADS) if rng.random() < 0.5 else [x for x in gen.opt_args(rng) if x is not None]
                data = corrupt(rng, f, wire.DUMPS[f](w))
            else:
                data = rng.randbytes(rng.choice([1, 1, 2, 3, 8]))
            if isinstance(data, str):
                data = data.encode()
            out.append(("decode", sid, data))
    return out


def gen_sweep(rng, i, tier):
    n = [("pass",) + copy.deepcopy(x) for x in NOT_ONE]
    n += [("id", s, [b"x"], None, b"[]") for s in BAD_IDS]
    n += [("decode", s, d if isinstance(d, bytes) else d.encode()) for s in IDS for w in BAD_PAYLOADS + GOOD_PAYLOADS for d in [wire.DUMPS[IDS[s]](w)]]
    n += [("round", s, copy.deepcopy(a), copy.deepcopy(k)) for s in IDS for a in (None, [], [1], [None], [[]]) for k in (None, {}, {"a": 1}, {"": None})]
    n += [("decode", s, b"") for s in IDS]
    n += [("decode", s, bytes([b])) for s in IDS for b in range(256)]
    return n[i::SWEEP]


def gen_odd(rng, i, tier):
    names = sorted(gen.ODD)
    return [("odd", sid, names[i % len(names)], rng.choice(["args", "kwargs", "deep"])) for sid in IDS]


FILLS = [("a", "a", "a"), ("\xff", "\xff", "\xff"), ("\0", "\0", "\0"), ("a", "b", "\0"), (" ", "a", "\n"), ("\n", " ", " "), ("\xef", "\x80", "\xe9"), ("[", "1", "]"), ('"', "\\", '"')]
BIG = {"string": [65535, 65536, 2**20, 2**20 + 1, 2**21, 2**22], "list": [15, 16, 65535, 65536, 2**17, 2**20 + 1], "map": [15, 16, 65535, 65536, 2**17], "bytes": [255, 256, 65535, 65536, 2**20, 2**20 + 1, 2**24 + 1]}


def gen_big(rng, i, tier):
    kind = rng.choice(sorted(BIG))
    n = rng.choice(BIG[kind])
    fill = rng.randrange(len(FILLS))
    return [("big", sid, kind, n, fill) for sid in ([NONE, 2, 3] if kind == "bytes" else [1, 2, 3])]


SWEEP = 16
SURVIVES = """
same = payload.deserialize_payload(3, payload.serialize_payload(3, [s], None))[0] == [s]
"""
WORKLOADS = [
    depths.workload("C25"),
    FnWorkload("sweep", SWEEP, SWEEP, gen_sweep, run),
    longtext.workload(SURVIVES, "a payload"),
    FnWorkload("odd values", 200, 4000, gen_odd, run),
    FnWorkload("sizes", 40, 600, gen_big, run),
    FnWorkload("payloads", 15000, 600000, gen_case, run),
]

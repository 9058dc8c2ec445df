"""Malformed data is refused, well-formed data is accepted, nothing else happens."""
import copy
import json
import struct

from vmon import gen, msgspec as S, wire
from vmon.core import FnWorkload, short
from vmon.rig import attempt, need, pick
from wampproto.serializers.serializer import to_message

RULE = "a case is one or more inputs (a value or a byte string); it is non-trivial if the grammar or the format library gave a definite verdict on one of them"
VIA = ["to_message", "parse"] + wire.FORMATS
NEEDS = [f"{v} over {x}" for v in ("well-formed accepted", "malformed refused") for x in VIA] + [
    f"{v}: {n}" for v in ("accepted", "refused") for n, _ in S.TABLE.values()] + [
    f"{f}: {v}" for f in wire.FORMATS for v in ("undecodable refused", "decodable but malformed refused", "corrupted but well-formed accepted")] + [
    "json bytes: undecodable refused", "json bytes: malformed refused", "json bytes: well-formed accepted", "cbor: data after the message refused", "another class's message refused", "odd message code given to a class refused"]
ASSUMPTIONS = [
    "left open, and never judged: dictionary keys that are not strings, null in place of an optional detail, non-string auth methods, role features that are not dictionaries",
    "whether bytes are one encoding of a value is decided by the plain format library (CBOR trailing data by an independent RFC 8949 scanner)",
    "inputs that declare containers of more than 100000 elements are not fed to cbor2, which would reserve memory for them",
]
SER = [c() for c in wire.SER]
PLAIN = (ValueError, TypeError)

JUNK = [
    None, True, False, 0, 1, -1, 2, 16, 48, 68, 2**53 - 1, 2**53, 2**53 + 1, 2**63, -(2**53), 1.0, 0.5, 2.0**53, 0.0, float("inf"),
    "1", "", "null", "a", "io.xconn", b"", b"1", b"io.xconn", [], [1], [[]], [{}], ["a"], {}, {"a": 1}, {"roles": {}}, {"roles": {"callee": {}}},
    {"roles": None}, {"roles": ["callee"]}, {"roles": {"caller": {}, "router": {}}}, {"roles": {"Callee": {}}}, {"roles": {"": {}}}, {"roles": "callee"},
]
DETAIL_JUNK = [None, True, 0, 1, 1.5, "", "x", [], ["x"], {}, {"a": 1}, b"x"]
DKEYS = ["roles", "authid", "authrole", "authmethod", "authmethods", "authextra"]
BAD_ROLES = [{}, {"callee": {}, "x": {}}, {"broker ": {}}, {"BROKER": {}}, {"": {}}, {"calle": {}}, {"dealer": {}, "Dealer": {}}, [], ["dealer"], None, "dealer", 1, True,
             {r: {} for r in ("caller", "callee", "publisher", "subscriber", "broker", "dealer", "x")}, {r: {} for r in ("x", "dealer", "broker", "caller", "callee")},
             {"caller": {}, "callee": {}, "publisher": {}, "subscriber": {}, "router": {}}]


def judge_outcome(st, verdict, r, what, w, code=None):
    """r: attempt of turning the list w into a message."""
    if verdict == "open":
        need(r.ok or isinstance(r.exc, Exception), "{}", what)
        st.ev("left open")
        return
    st.nontrivial()
    known = type(w) is list and w and type(w[0]) is int and w[0] in S.TABLE
    if verdict == "ok":
        need(r.ok, "{}: {} is well-formed, but was {}", what, w, r)
        name = S.TABLE[w[0]][0]
        need(isinstance(r.val, wire.CLASSES[w[0]]), "{}: {} became {}", what, w, r)
        st.ev("accepted: " + name)
    else:
        need(not r.ok, "{}: {} is malformed, but {}", what, w, r)
        need(isinstance(r.exc, PLAIN), "{}: {} was {}, which is no invalid-value or invalid-type error", what, w, r)
        if known:
            st.ev("refused: " + S.TABLE[w[0]][0])


VERB = {"ok": "well-formed accepted over ", "bad": "malformed refused over "}


def give(st, w):
    """Judges the value w over every way in."""
    v = S.judge(w)
    snapshot = copy.deepcopy(w)
    judge_outcome(st, v, attempt(to_message, copy.deepcopy(w)), "to_message", w)
    if v != "open":
        st.ev(VERB[v] + "to_message")
    code = w[0] if type(w) is list and w else None
    if type(code) is int and code in S.TABLE:
        judge_outcome(st, v, attempt(wire.CLASSES[code].parse, copy.deepcopy(w)), wire.CLASSES[code].__name__ + ".parse", w)
        if v != "open":
            st.ev(VERB[v] + "parse")
    for f in range(3):
        try:
            data = wire.DUMPS[f](w)
            if not gen.same(wire.LOADS[f](data), w):
                continue
        except Exception:
            continue  # the format has no form for this value
        judge_outcome(st, v, attempt(SER[f].deserialize, data), wire.FORMATS[f], w)
        if v != "open":
            st.ev(VERB[v] + wire.FORMATS[f])
    need(gen.same(w, snapshot), "harness: input changed")


def odd_code(st, code, w):
    """A list that does not begin with the code of the class whose parser it is given to."""
    if w[0] == code:
        return
    r = attempt(wire.CLASSES[code].parse, copy.deepcopy(w))
    need(not r.ok, "{}.parse turned {} into {}", wire.CLASSES[code].__name__, w, r)
    need(isinstance(r.exc, PLAIN), "{}.parse of {} was {}", wire.CLASSES[code].__name__, w, r)
    st.ev("odd message code given to a class refused")


def cross(st, w, other):
    """A message given to another type's parser."""
    r = attempt(wire.CLASSES[other].parse, copy.deepcopy(w))
    need(not r.ok, "{}.parse turned {} into {}", wire.CLASSES[other].__name__, w, r)
    need(isinstance(r.exc, PLAIN), "{}.parse of {} was {}", wire.CLASSES[other].__name__, w, r)
    st.ev("another class's message refused")
    st.nontrivial()


def raw(st, f, data):
    fmt = wire.FORMATS[f]
    if f == 2 and oversized(data):
        st.ev("skipped: oversized declaration")
        return
    r = attempt(SER[f].deserialize, data)
    try:
        w = wire.LOADS[f](data)
    except MemoryError:
        st.ev("skipped: out of memory in the format library")
        return
    except Exception as e:
        need(not r.ok, "{}: {} cannot be decoded ({}: {}), but {}", fmt, data, type(e).__name__, str(e)[:80], r)
        need(isinstance(r.exc, PLAIN + (type(e),)) or type(r.exc).__module__.split(".")[0] in ("json", "msgpack", "cbor2", "_cbor2"),
             "{}: {} was {}", fmt, data, r)
        st.ev(fmt + ": undecodable refused")
        st.nontrivial()
        return
    v = S.judge(w)
    if f == 2:
        end = S.cbor_end(data)
        if end is None:
            st.ev("cbor: lenient decoding, not judged")
            return
        if end < len(data):
            need(not r.ok, "cbor: {} goes on after the end of the message (byte {}), but {}", data, end, r)
            need(isinstance(r.exc, PLAIN) or type(r.exc).__module__.split(".")[0] in ("cbor2", "_cbor2"), "cbor: {} was {}", data, r)
            st.ev("cbor: data after the message refused")
            st.nontrivial()
            return
    judge_outcome(st, v, r, f"{fmt} {short(data, 200)}", w)
    st.ev(fmt + ": corrupted but well-formed accepted", v == "ok")
    st.ev(fmt + ": decodable but malformed refused", v == "bad")


def raw_json(st, data):
    """JSON as it comes over a raw socket: the bytes of the text."""
    r = attempt(SER[0].deserialize, data)
    if json.detect_encoding(data) != "utf-8":
        st.ev("json in another encoding, not judged")
        return
    try:
        text = data.decode("utf-8", "surrogatepass")
    except UnicodeDecodeError:
        need(not r.ok, "json: {} is no UTF-8, but {}", data, r)
        need(isinstance(r.exc, PLAIN), "json: {} was {}", data, r)
        st.ev("json bytes: undecodable refused")
        st.nontrivial()
        return
    try:
        w = wire.LOADS[0](text)
    except Exception:
        need(not r.ok, "json: {} cannot be decoded, but {}", data, r)
        st.ev("json bytes: malformed refused")
        st.nontrivial()
        return
    judge_outcome(st, S.judge(w), r, f"json bytes {short(data, 200)}", w)
    st.ev("json bytes: well-formed accepted", S.judge(w) == "ok")
    st.ev("json bytes: malformed refused", S.judge(w) == "bad")


def oversized(data):
    if len(data) > 60000 and (b"\x7a" in data or b"\x7b" in data):
        return True  # see gen.safe
    for i, b in enumerate(data):
        if b in (0x9A, 0xBA, 0x9B, 0xBB):
            size = 4 if b in (0x9A, 0xBA) else 8
            if int.from_bytes(data[i + 1:i + 1 + size].ljust(size, b"\xff"), "big") > 100000:
                return True
    return False


def run(ops, st):
    for op in ops:
        if op[0] == "value":
            give(st, op[1])
        elif op[0] == "cross":
            cross(st, op[1], op[2])
        elif op[0] == "odd":
            odd_code(st, op[1], op[2])
        elif op[0] == "json bytes":
            raw_json(st, op[1])
        else:
            raw(st, op[1], op[2])


# ---------------------------------------------------------------- systematic single changes


def base(rng, code):
    w = S.layout(code, S.gen_values(rng, code))
    if S.has_args(code) and rng.random() < 0.5:  # full length, so that the last positions exist
        v = S.gen_values(rng, code)
        v["args"], v["kwargs"] = gen.array(rng), gen.mapping(rng)
        w = S.layout(code, v)
    return w


def slots():
    out = []
    for code in S.CODES:
        el = S.TABLE[code][1]
        for p in range(1, len(el) + 1):
            out += [(code, "replace", p, j) for j in range(len(JUNK))]
        out += [(code, "cut", p, 0) for p in range(0, len(el) + 1)]
        out += [(code, "append", p, j) for p in (1, 2, 3) for j in (0, 3, 25, 28, 33)]
        out += [(code, "append", p, 28) for p in (4, 5, 7, 8, 16, 30, 100, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 512, 1000, 65536)]
        out += [(code, "remove", p, 0) for p in range(0, len(el) + 1)]
        out += [(code, "insert", p, j) for p in range(0, len(el) + 1) for j in (0, 4, 24, 28, 33)]
        out += [(code, "code", c, 0) for c in range(0, 73)]
        out += [(code, "codejunk", j, 0) for j in range(len(JUNK))]
        out += [(code, "cross", c, 0) for c in S.CODES if c != code]
        if code in (1, 2):
            out += [(code, "detail", k, j) for k in range(len(DKEYS)) for j in range(len(DETAIL_JUNK))]
            out += [(code, "roles", k, 0) for k in range(len(BAD_ROLES))]
            out += [(code, "noroles", 0, 0)]
    return out


SLOTS = slots()
FULL = {c: 1 + len(S.TABLE[c][1]) for c in S.CODES}


def full(rng, code):
    v = S.gen_values(rng, code)
    if S.has_args(code):
        v["args"], v["kwargs"] = gen.array(rng), gen.mapping(rng)
    return S.layout(code, v)


def gen_slot(rng, i, tier):
    code, kind, p, j = SLOTS[i % len(SLOTS)]
    w = full(rng, code)
    if kind == "replace":
        w[p] = copy.deepcopy(JUNK[j])
    elif kind == "cut":
        w = w[:p]
    elif kind == "append":
        w = w + [copy.deepcopy(JUNK[j])] * p
    elif kind == "remove":
        del w[p]
    elif kind == "insert":
        w.insert(p, copy.deepcopy(JUNK[j]))
    elif kind == "code":
        w[0] = p
    elif kind == "codejunk":
        w[0] = copy.deepcopy(JUNK[p])
        return [("value", w), ("odd", code, w), ("odd", code, [rng.choice([str(code), str(code).encode(), f" {code}", code + 0.5, -code])] + w[1:])]
    elif kind == "cross":
        return [("cross", w, p)]
    elif kind == "detail":
        w[2][DKEYS[p]] = copy.deepcopy(DETAIL_JUNK[j])
    elif kind == "roles":
        w[2]["roles"] = copy.deepcopy(BAD_ROLES[p])
    elif kind == "noroles":
        w[2].pop("roles")
    return [("value", w)]


# ---------------------------------------------------------------- random values


def mutate(rng, w):
    w = copy.deepcopy(w)
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
        k = rng.randrange(6)
        if k == 0 and w:
            w[rng.randrange(len(w))] = copy.deepcopy(rng.choice(JUNK)) if rng.random() < 0.7 else gen.value(rng)
        elif k == 1 and w:
            del w[rng.randrange(len(w))]
        elif k == 2:
            w.insert(rng.randint(0, len(w)), copy.deepcopy(rng.choice(JUNK)) if rng.random() < 0.7 else gen.value(rng))
        elif k == 3 and w:
            w[0] = rng.choice(S.CODES) if rng.random() < 0.6 else rng.randint(0, 80)
        elif k == 4 and len(w) > 1:
            a, b = rng.randrange(len(w)), rng.randrange(len(w))
            w[a], w[b] = w[b], w[a]
        elif w and isinstance(w[-1], dict):
            w[-1][rng.choice(DKEYS)] = copy.deepcopy(rng.choice(DETAIL_JUNK + BAD_ROLES))
    return w


def gen_values(rng, i, tier):
    out = []
    for _ in range(rng.randint(1, 4)):
        r = rng.random()
        if r < 0.85:
            w = mutate(rng, base(rng, rng.choice(S.CODES)))
        elif r < 0.95:
            w = gen.value(rng, 3)
        else:
            w = rng.choice([(1,), (49, 1, {}), {0: 1}, "[49,1,{}]", b"\x01", None, 1, [[49, 1, {}]], {"a": 1}, [None], [], [True, "r", {"roles": {"callee": {}}}], [49.0, 1, {}]])
        out.append(("value", w))
    return out


# ---------------------------------------------------------------- bytes


def corrupt(rng, f, data):
    text = f == 0
    for _ in range(rng.choice([0, 1, 1, 1, 2, 4])):
        n = len(data)
        k = rng.randrange(8)
        at = rng.randrange(n + 1)
        if k == 0:
            data = data[:at]
        elif k == 1:
            data = data[at:] if rng.random() < 0.3 else data[:at] + data[at + 1:]
        elif k == 2:
            data = data + junk(rng, text)
        elif k == 3:
            data = data[:at] + junk(rng, text) + data[at:]
        elif k == 4 and n:
            at = min(at, n - 1)
            if text:
                data = data[:at] + rng.choice('[]{},:"\\ 0123456789-.eEtfn\u00e9') + data[at + 1:]
            else:
                data = data[:at] + bytes([data[at] ^ (1 << rng.randrange(8))]) + data[at + 1:]
        elif k == 5 and n:
            at = min(at, n - 1)
            data = data[:at] + (chr(rng.randrange(1, 128)) if text else bytes([rng.randrange(256)])) + data[at + 1:]
        elif k == 6:
            data = data + data
        elif n:
            b = rng.randint(at, n)
            data = data[:b] + data[at:b] + data[b:]
    return data


def junk(rng, text):
    if text:
        return rng.choice([" ", "\n", "0", "]", "[", "{}", ",", "null", "[]", "x", "\x00", "\ufeff", "//", ",1", ' "a"', "NaN", "1e0"])
    n = rng.choice([1, 1, 1, 2, 3, 9])
    return rng.choice([bytes([rng.randrange(256)]), b"\x00", b"\xc0", b"\xf6", b"\xff", b"\x80", b"\xa0", b"\x90", b"\x01", rng.randbytes(n)])


SPECIAL = [
    "", " ", "[", "]", "[]", "{}", "null", "1", "[49,1,{}", "[49,1,{}]]", "[49,1,{}],", "[49,1,{}] ", "[49,1.0,{}]", "[49,1e0,{}]", "[49,true,{}]", "[true,1,{}]",
    "[49,9007199254740992,{}]", "[49,9007199254740993,{}]", "[49,-0,{}]", "[49,0,{}]", "[49,1,{},]", "[49,01,{}]", "[49,1,[]]", '[49,"1",{}]', "[49.0,1,{}]", "[049,1,{}]",
    "[1,\"r\",{\"roles\":{\"callee\":{},\"x\":{}}}]", '[1,"r",{"roles":{}}]', '[1,"r",{}]', '[1,"r",{"roles":{"callee":{}},"roles":{}}]', "[49,1,{}]\u0000", "\ufeff[49,1,{}]",
    "[" * 60 + "]" * 60, "[" * 200000, '{"a":' * 200000, "NaN", "[NaN]", "[49,NaN,{}]", "[49,Infinity,{}]", "[49,1" + "0" * 5000 + ",{}]", '["49",1,{}]', '[49,1,"{}"]',
]


def gen_bytes(rng, i, tier):
    out = []
    for _ in range(rng.randint(1, 6)):
        f = rng.randrange(3)
        r = rng.random()
        if r < 0.04:
            data = "".join(rng.choice('[]{},:"1248 tfn') for _ in range(rng.randint(0, 12))) if f == 0 else rng.randbytes(rng.choice([0, 1, 2, 3, 5, 9, 20]))
        elif r < 0.12:
            data = rng.choice(SPECIAL) if f == 0 else special(rng, f)
        else:
            code = rng.choice(S.CODES)
            w = base(rng, code) if rng.random() < 0.5 else S.layout(code, small(rng, code))
            if rng.random() < 0.3:
                w = mutate(rng, w)
            try:
                data = wire.DUMPS[f](w)
            except Exception:
                data = wire.DUMPS[f]([49, 1, {}])
            data = corrupt(rng, f, data)
        if f == 0 and rng.random() < 0.3:
            b = data.encode("utf-8", "surrogatepass")
            if rng.random() < 0.6:
                b = b if rng.random() < 0.5 else json.dumps(json.loads(b), ensure_ascii=False).encode("utf-8", "surrogatepass") if decodable(b) else b
                at = rng.randrange(len(b) + 1)
                b = b[:at] + rng.choice([b"", b"\xff", b"\xc3", b"\xe2\x82", b"\x80", "é".encode(), b"\xed\xa0\x80", b"\xc0\xaf", b"\xf5\x80\x80\x80"]) + b[at + rng.randrange(2):]
            out.append(("json bytes", b))
            continue
        out.append(("bytes", f, data))
    return out


def decodable(b):
    try:
        json.loads(b)
        return True
    except Exception:
        return False


def small(rng, code):
    """Small field values, so that a corruption more often hits structure."""
    v = S.gen_values(rng, code)
    for kind, a in S.attributes(code):
        if kind == "str":
            v[a] = rng.choice(["", "a", "ab"])
        elif kind == "dict":
            v[a] = rng.choice([{}, {"a": 1}])
        elif kind in ("id", "int"):
            v[a] = rng.choice([1, 2, 23, 24, 127, 128, 255, 256, 65535, 65536])
        elif kind == "roles":
            v[a] = {rng.choice(S.ROLES): {}}
        elif kind == "opt":
            v[a] = None
    if S.has_args(code):
        v["args"], v["kwargs"] = rng.choice([(None, None), ([], None), ([1], {"a": 1}), (None, {})])
    return v


def special(rng, f):
    if f == 1:
        return rng.choice([
            b"", b"\x90", b"\x80", b"\xc0", b"\x93\x31\x01\x80\xc0", b"\x93\x31\x01", b"\x93\x31\x01\x90", b"\x93\x31\xc3\x80", b"\x93\xc3\x01\x80", b"\x93\x31\xcb" + struct.pack(">d", 1.0) + b"\x80",
            b"\x93\xcb" + struct.pack(">d", 49.0) + b"\x01\x80", b"\x93\x31\xcf" + struct.pack(">Q", 2**53 + 1) + b"\x80", b"\x93\x31\xcf" + struct.pack(">Q", 2**53) + b"\x80",
            b"\x93\x31\x00\x80", b"\x93\x31\xff\x80", b"\x93\x31\x01\xc0", b"\xdc\x00\x03\x31\x01\x80", b"\xdd\x00\x00\x00\x03\x31\x01\x80", b"\xdd\xff\xff\xff\xff", b"\xdf\xff\xff\xff\xff",
            b"\x93\x31\x01\x81\x01\x02", b"\x93\x31\x01\xd4\x01\x00", b"\xd4\x01\x00", b"\xd6\xff\x00\x00\x00\x00", b"\x91" * 600, b"\x91" * 100, b"\x94\x40\x01\x80\xa2\xff\xfe", b"\x94\x40\x01\x80\xc4\x01a", b"\xc1",
        ])
    return rng.choice([
        b"", b"\x80", b"\xa0", b"\xf6", b"\xff", b"\x83\x18\x31\x01\xa0\x00", b"\x83\x18\x31\x01\xa0\xff", b"\x83\x18\x31\x01\xa0\x83\x18\x31\x01\xa0", b"\x83\x18\x31\x01", b"\x9f\x18\x31\x01\xa0\xff",
        b"\x9f\x18\x31\x01\xa0", b"\x83\x18\x31\xf5\xa0", b"\x83\x18\x31\xf9\x3c\x00\xa0", b"\x83\x18\x31\x1b\x00\x20\x00\x00\x00\x00\x00\x00\xa0", b"\x83\x18\x31\x1b\x00\x20\x00\x00\x00\x00\x00\x01\xa0",
        b"\x83\x18\x31\x00\xa0", b"\x83\x18\x31\x20\xa0", b"\x83\x18\x31\x01\xf6", b"\x83\x18\x31\x01\xf7", b"\x83\x18\x31\xc2\x41\x01\xa0", b"\x83\xc2\x41\x31\x01\xa0", b"\xd9\xd9\xf7\x83\x18\x31\x01\xa0",
        b"\x83\x18\x31\x01\xbf\xff", b"\x84\x18\x40\x01\xa0\x7f\x61a\x61b\xff", b"\x84\x18\x40\x01\xa0\x41a", b"\x84\x18\x40\x01\xa0\x62\xff\xfe", b"\x83\x18\x31\x01\xa1\x01\x02", b"\xc0\x60", b"\xc1\xf9\x7e\x00",
        b"\x81" * 100000, b"\x81" * 100, b"\xd8\x1d\x00", b"\xd8\x1c\x81\xd8\x1d\x00", b"\xc4\x82\x00\x00", b"\x1c", b"\xf8\x10", b"\x83\x18\x31\xe1\xa0", b"\x83\x18\x31\x01\xd9\x01\x02\x80",
    ])


def sig(ops):
    return repr([(o[0], short(o[1], 400), short(o[2], 400) if len(o) > 2 else None) for o in ops])


WORKLOADS = [
    FnWorkload("single changes", len(SLOTS), 12 * len(SLOTS), gen_slot, run, sig=sig),
    FnWorkload("values", 6000, 250000, gen_values, run, sig=sig),
    FnWorkload("bytes", 12000, 500000, gen_bytes, run, sig=sig),
]

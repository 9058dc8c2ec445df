"""Every message survives every serializer unchanged."""
import copy

from vmon import depths, gen, longtext, msgspec as S, wire
from vmon.core import FnWorkload
from vmon.rig import M, attempt, need, pick

RULE = "a case is a few messages written and read by shared serializer instances; every message read back is compared, so every case is non-trivial"
NEEDS = ["read back over " + f for f in wire.FORMATS] + ["read back: " + n for n, _ in S.TABLE.values()] + [
    "written again", "formats compared", "keyword arguments without positional ones", "binary values", "large values", "more than a million", "deep values",
    "odd value refused", "odd value survived", "odd key"]
ASSUMPTIONS = ["values outside the common range of the formats (integers beyond 64 bits, NaN, lone surrogates, non-string keys, ...) come one at a time, in the workload 'odd values'",
               "non-ASCII text of 64 KiB and more is not sent over CBOR except by the workload 'long text' (known finding)",
               "messages with an opaque payload have no wire form in this library and are not generated"]
SHARED = [c() for c in wire.SER]


def fields(m, code):
    return {a: getattr(m, a) for _, a in S.attributes(code)}


def run(ops, st):
    written = []
    for code, v, binary in ops:
        m = S.build(code, copy.deepcopy(v))
        data = {}
        for f in range(1 if binary is True else 0, 2 if binary == "long text" else 3):
            r = attempt(SHARED[f].serialize, m)
            need(r.ok, "{} {} could not be written as {}: {}", S.TABLE[code][0], v, wire.FORMATS[f], r)
            data[f] = r.val
        written.append((code, v, binary, data))
    # all are read only after all were written
    for code, v, binary, data in written:
        name = S.TABLE[code][0]
        want = S.expected(code, v)
        read = {}
        for f, d in data.items():
            what = f"{name} read back over {wire.FORMATS[f]}"
            need(isinstance(d, str if f == 0 else (bytes, bytearray)), "{} was written as {}", name, type(d).__name__)
            r = attempt(SHARED[f].deserialize, d)
            need(r.ok, "{}: {}", what, r)
            S.check_fields(r.val, code, want, what)
            read[f] = fields(r.val, code)
            again = attempt(SHARED[f].serialize, r.val)
            need(again.ok, "{}, written again: {}", what, again)
            need(gen.same(wire.LOADS[f](again.val), wire.LOADS[f](d)), "{}, written again: {} instead of {}", what, repr(again.val), repr(d))
            st.ev("written again")
            st.ev("read back over " + wire.FORMATS[f])
            st.ev("read back: " + name)
        a = read[min(read)]
        for f, b in read.items():
            need(gen.same(a, b), "{}: over {} {}, over {} {}", name, wire.FORMATS[min(read)], a, wire.FORMATS[f], b)
        st.ev("formats compared")
        st.ev("binary values", binary is True)
        st.ev("keyword arguments without positional ones", v.get("kwargs") is not None and v.get("args") is None)
        st.nontrivial()


def gen_case(rng, i, tier):
    out = []
    for _ in range(rng.randint(1, 4)):
        code = rng.choice(S.CODES)
        binary = rng.random() < 0.25
        out.append((code, S.gen_values(rng, code, binary), binary))
    return out


def run_big(ops, st):
    for kind, n, code, where in ops:
        if kind == "string":
            x = ("é" if n % 2 else "a") * n
        elif kind == "list":
            x = list(range(n))
        elif kind == "map":
            x = {str(k): k for k in range(n)}
        elif kind == "bytes":
            x = b"\xff" * n
        else:
            x = 1
            for k in range(n):
                x = [x] if k % 2 else {"k": x}
        v = S.gen_values(__import__("random").Random(n), code)
        v["args"], v["kwargs"] = ([x], None) if where else (None, {"k": x})
        run([(code, v, True if kind == "bytes" else "long text" if kind == "string" and n % 2 else False)], st)
        st.ev("deep values" if kind == "deep" else "large values")
        st.ev("more than a million", kind != "deep" and n > 2**20)


def keyed(name):
    return name.endswith("as a key")


def run_odd(ops, st):
    for code, name, where, f in ops:
        x = gen.ODD[name]()
        v = S.gen_values(__import__("random").Random(len(name)), code)
        v["args"], v["kwargs"] = {"args": ([x], None), "kwargs": (None, {"k": x}), "deep": ([{"a": [x, 1]}], None)}[where]
        what = f"{S.TABLE[code][0]} with a value ({name}) in its {where}, over {wire.FORMATS[f]}"
        m = S.build(code, dict(v))
        r = attempt(SHARED[f].serialize, m)
        st.nontrivial()
        st.ev("odd key", keyed(name))
        if not r.ok:
            st.ev("odd value refused")
            continue
        if f == 0:
            sent = attempt(r.val.encode, "utf-8")
            need(sent.ok, "{} was written as {}, which has no bytes: {}", what, repr(r.val)[:200], sent)
        d = attempt(SHARED[f].deserialize, r.val)
        if not d.ok and keyed(name):  # keys that are no texts: refused by the reader, if not by the writer
            st.ev("odd value refused")
            continue
        need(d.ok, "{} was written as {}, and when read {}", what, repr(r.val)[:200], d)
        if f == 0:
            plain = attempt(wire.PLAIN[0], r.val)
            need(plain.ok or keyed(name), "{} was written as {}, which is no JSON: {}", what, repr(r.val), plain)
        if f == 0 and keyed(name) and gen.same((d.val.args, d.val.kwargs)[where == "kwargs"], gen.textual(v["kwargs" if where == "kwargs" else "args"])):
            st.flag("json-keys-become-texts", f"{what} became {d.val.args!r} {d.val.kwargs!r}")
            st.ev("keys that became texts over json")
            continue
        need(gen.survived(d.val.args if where != "kwargs" else d.val.kwargs, v["args"] if where != "kwargs" else v["kwargs"]), "{} was neither refused nor kept: {} became {} {}", what, repr(x), d.val.args, d.val.kwargs)
        st.ev("odd value survived")


def gen_odd(rng, i, tier):
    names = sorted(gen.ODD)
    return [(rng.choice([c for c in S.CODES if S.has_args(c)]), names[i % len(names)], rng.choice(["args", "kwargs", "deep"]), f) for f in range(3)]


def gen_big(rng, i, tier):
    kind = rng.choice(["string", "list", "map", "deep", "bytes"])
    sizes = {"string": [65535, 65536, 65538, 200000, 200001, 2**20, 2**20 + 2, 2**21, 2**22 + 2], "list": [15, 16, 65535, 65536, 2**17, 2**20 + 1], "map": [15, 16, 65535, 65536, 2**17], "deep": [50, 100, 200],
             "bytes": [255, 256, 65535, 65536, 300000, 2**20, 2**20 + 1, 2**21, 2**24 + 1]}
    return [(kind, rng.choice(sizes[kind]), rng.choice([c for c in S.CODES if S.has_args(c)]), rng.random() < 0.5)]


SURVIVES = """
S = serializers.CBORSerializer()
same = S.deserialize(S.serialize(M.Call(M.CallFields(1, "a", [s], None)))).args == [s]
"""


WORKLOADS = [
    depths.workload("C22"),
    longtext.workload(SURVIVES, "a CALL"),
    FnWorkload("messages", 10000, 300000, gen_case, run),
    FnWorkload("sizes", 120, 1500, gen_big, run_big),
    FnWorkload("odd values", 300, 6000, gen_odd, run_odd),
]

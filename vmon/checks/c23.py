"""Messages are laid out on the wire as the WAMP specification prescribes."""
import copy

from vmon import gen, msgspec as S, wire
from vmon.core import FnWorkload
from vmon.rig import M, attempt, need

RULE = "a case is one message with distinguishable field values, written and read; every comparison counts, so every case is non-trivial"
NEEDS = ["laid out: " + n for n, _ in S.TABLE.values()] + ["read: " + n for n, _ in S.TABLE.values()] + [
    "written as " + f for f in wire.FORMATS] + ["arguments left out", "empty list before keyword arguments", "unknown details ignored"]
ASSUMPTIONS = ["the layouts in vmon/msgspec.py are those of the WAMP specification"]
SER = [c() for c in wire.SER]


def agrees(code, got, want):
    if code == 2 and type(got) is list and len(got) == 3 and isinstance(got[2], dict) and not got[2].get("authextra") and "authextra" not in want[2]:
        got = [got[0], got[1], {k: x for k, x in got[2].items() if k != "authextra"}]
    return gen.same(got, want)


def run(ops, st):
    for op in ops:
        globals()["do_" + op[0]](st, *op[1:])
        st.nontrivial()


def do_write(st, code, v):
    name = S.TABLE[code][0]
    want = S.layout(code, v)
    m = S.build(code, copy.deepcopy(v))
    got = m.marshal()
    need(agrees(code, got, want), "{} with {} is laid out as {}, should be {}", name, v, got, want)
    for f in range(3):
        r = attempt(SER[f].serialize, m)
        need(r.ok, "{} with {} could not be written as {}: {}", name, v, wire.FORMATS[f], r)
        plain = attempt(wire.PLAIN[f], r.val)
        need(plain.ok, "{} with {} is {} on the wire, which is not plain {}: {}", name, v, repr(r.val), wire.FORMATS[f], plain)
        got = plain.val
        need(agrees(code, got, want), "{} with {} is {} on the wire ({}), should be {}", name, v, got, wire.FORMATS[f], want)
        st.ev("written as " + wire.FORMATS[f])
    st.ev("laid out: " + name)
    if S.has_args(code):
        st.ev("arguments left out", v.get("args") is None and v.get("kwargs") is None)
        st.ev("empty list before keyword arguments", v.get("args") is None and v.get("kwargs") is not None)


def do_read(st, code, v, extra):
    name = S.TABLE[code][0]
    w = S.layout(code, v)
    if extra and isinstance(w[-1], dict) and code in (1, 2):
        w[-1].update(extra)
        st.ev("unknown details ignored")
    want = S.expected(code, v)
    r = attempt(wire.CLASSES[code].parse, copy.deepcopy(w))
    need(r.ok, "{} could not be read: {}", w, r)
    S.check_fields(r.val, code, want, f"{name} read from {w!r}")
    for f in range(3):
        r = attempt(SER[f].deserialize, wire.DUMPS[f](w))
        need(r.ok, "{} in {} could not be read: {}", w, wire.FORMATS[f], r)
        S.check_fields(r.val, code, want, f"{name} read from {wire.FORMATS[f]} {w!r}")
    st.ev("read: " + name)


def distinct(rng, code, v):
    """Makes the scalar fields of a message pairwise different."""
    used = set()
    for kind, a in S.attributes(code):
        if kind in ("id", "int"):
            while v[a] in used:
                v[a] = gen.ident(rng)
            used.add(v[a])
        elif kind in ("str", "opt") and isinstance(v.get(a), str):
            v[a] = "" if rng.random() < 0.1 else v[a] if rng.random() < 0.1 else f"{v[a]}#{a}"
        elif kind == "dict" and v.get(a) is not None:
            v[a]["field"] = a
    return v


def gen_case(rng, i, tier):
    code = S.CODES[i % len(S.CODES)]
    v = distinct(rng, code, S.gen_values(rng, code))
    if rng.random() < 0.5:
        return [("write", code, v)]
    extra = {"agent": "x", "x_y": [1]} if rng.random() < 0.3 else {}
    return [("read", code, v, extra)]


WORKLOADS = [FnWorkload("layouts", 24 * 800, 24 * 25000, gen_case, run)]

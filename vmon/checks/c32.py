"""A refusal of malformed data says what is wrong with it, and where."""
import copy
import re

from vmon import gen, msgspec as S, wire
from vmon.checks import c24
from vmon.core import FnWorkload
from vmon.rig import attempt, need
from wampproto.serializers.serializer import to_message

RULE = "a case is one or more malformed lists given to the library; non-trivial: one of them has a known type code, so that its faults could be compared with the error"
NEEDS = ["faults named: type", "faults named: range", "faults named: roles", "faults named: detail", "faults named: length", "faults named: code", "several faults at once",
         "faults in several details", "over json", "over msgpack", "over cbor"] + ["errors of " + n for n, _ in S.TABLE.values()]
ASSUMPTIONS = ["where the specification leaves room (see C24) nothing is compared", "an error names a position by 'index N', as the library's own tests have it"]
SER = [c() for c in wire.SER]
WORD = {"id": "int", "int": "int", "str": "string", "args": "list", "dict": "dict", "kwargs": "dict", "hello": "dict", "welcome": "dict"}
TYPE_WORD = {str: "string", list: "list", dict: "dict"}
INDEX = re.compile(r"index (\d+)")


def faults(w):
    """[(index, kind, words the error has to name)] of a list of the right length, or None where something is left open."""
    out = []
    for i, ((kind, _), x) in enumerate(zip(S.TABLE[w[0]][1], w[1:]), 1):
        if kind in ("id", "int") and type(x) is not int:
            out.append((i, "type", [WORD[kind], type(x).__name__]))
        elif kind == "id" and not 1 <= x <= 2**53:
            out.append((i, "range", ["1", str(2**53), str(x)]))
        elif kind in ("id", "int"):
            pass
        elif not isinstance(x, {"str": str, "args": list}.get(kind, dict)):
            out.append((i, "type", [WORD[kind], type(x).__name__]))
        elif kind in ("hello", "welcome"):
            roles = x.get("roles")
            if not isinstance(roles, dict):
                out.append((i, "detail", ["roles", "dict", type(roles).__name__]))
            elif not roles:
                out.append((i, "roles", ["roles"] + S.ROLES))
            else:
                bad = [r for r in roles if r not in S.ROLES]
                if bad:
                    out.append((i, "roles", ["roles"] + S.ROLES + [str(bad[0])] if len(bad) == 1 else ["roles"] + S.ROLES))
            keys = dict(S.DETAIL_KEYS[kind])
            if kind == "hello":
                keys["authrole"] = str
            for k, t in keys.items():
                if x.get(k) is not None and not isinstance(x[k], t):
                    out.append((i, "detail", [k, TYPE_WORD[t], type(x[k]).__name__]))
    return out


def compare(st, w, r, what, n=None):
    """r: the attempt to make a message of w."""
    name = S.TABLE[w[0]][0].upper()
    el = S.TABLE[w[0]][1]
    least = 1 + sum(1 for k, _ in el if k not in ("args", "kwargs"))
    texts = [str(a) for a in r.exc.args]
    if not least <= len(w) <= 1 + len(el):
        bound = least if len(w) < least else 1 + len(el)
        numbers = [int(x) for t in texts for x in re.findall(r"\d+", t)]
        need(len(w) in numbers and bound in numbers, "{}: {} has {} elements, not {} to {}, the error says {}", what, w, len(w), least, 1 + len(el), texts)
        st.ev("faults named: length")
        return
    want = faults(w)
    need(want, "harness: {} is bad, but no fault was found", w)
    left = list(texts)
    for i, kind, words in sorted(want, key=lambda f: -len(f[2])):
        hit = [t for t in left if f"index {i} " in t + " " and name in t and all(x in t for x in words)]
        need(hit, "{}: in {}, element {} is wrong ({} {}), which the error does not say: {}", what, w, i, kind, words, texts)
        left.remove(hit[0])
        st.ev("faults named: " + kind)
    need(not left, "{}: in {}, the error says {}, which is no fault (the faults are {})", what, w, left, want)
    need([int(INDEX.search(t).group(1)) for t in texts] == sorted(i for i, _, _ in want), "{}: the faults of {} are listed as {}", what, w, texts)
    st.ev("several faults at once", len(want) > 1)
    st.ev("faults in several details", sum(1 for f in want if f[1] in ("detail", "roles")) > 1)
    st.ev("errors of " + S.TABLE[w[0]][0])


def give(st, w):
    if S.judge(w) != "bad" or type(w[0]) is not int or w[0] not in S.TABLE:
        return
    if any(isinstance(x, dict) and not all(isinstance(k, str) for k in x) for x in w):
        return
    if w[0] in (1, 2) and len(w) == 3 and isinstance(w[2], dict) and isinstance(w[2].get("roles"), dict) and any(not isinstance(r, str) for r in w[2]["roles"]):
        return
    st.nontrivial()
    for what, f in (("to_message", to_message), (wire.CLASSES[w[0]].__name__ + ".parse", wire.CLASSES[w[0]].parse)):
        r = attempt(f, copy.deepcopy(w))
        need(not r.ok, "{}: {} is malformed, but {}", what, w, r)
        compare(st, w, r, what)
    for f in range(3):
        try:
            data = wire.DUMPS[f](w)
            if not gen.same(wire.LOADS[f](data), w):
                continue
        except Exception:
            continue
        r = attempt(SER[f].deserialize, data)
        need(not r.ok, "{}: {} is malformed, but {}", wire.FORMATS[f], w, r)
        compare(st, w, r, wire.FORMATS[f])
        st.ev("over " + wire.FORMATS[f])


def cross(st, w, other):
    """A list given to another type's parser: the length is judged first, then the code."""
    el = S.TABLE[other][1]
    if not 1 + sum(1 for k, _ in el if k not in ("args", "kwargs")) <= len(w) <= 1 + len(el):
        return
    r = attempt(wire.CLASSES[other].parse, copy.deepcopy(w))
    need(not r.ok, "{}.parse turned {} into {}", wire.CLASSES[other].__name__, w, r)
    text = " ".join(str(a) for a in r.exc.args)
    need(S.TABLE[other][0].upper() in text and {w[0], other} <= {int(x) for x in re.findall(r"\d+", text)}, "{}.parse of a list with code {} says {}", wire.CLASSES[other].__name__, w[0], text)
    st.ev("faults named: code")
    st.nontrivial()


def run(ops, st):
    for op in ops:
        if op[0] == "value":
            if isinstance(op[1], list) and op[1]:
                give(st, op[1])
        elif op[0] == "cross":
            cross(st, op[1], op[2])


def gen_many(rng, i, tier):
    """Several faults in one list."""
    out = []
    for _ in range(rng.randint(1, 3)):
        w = c24.full(rng, rng.choice(S.CODES))
        for p in rng.sample(range(1, len(w)), rng.randint(1, len(w) - 1)):
            if isinstance(w[p], dict) and "roles" in w[p] and rng.random() < 0.8:
                for k in rng.sample(c24.DKEYS, rng.randint(1, 5)):
                    w[p][k] = copy.deepcopy(rng.choice(c24.DETAIL_JUNK) if k != "roles" else rng.choice(c24.BAD_ROLES))
            else:
                w[p] = copy.deepcopy(rng.choice(c24.JUNK))
        out.append(("value", w))
    return out


WORKLOADS = [
    FnWorkload("single changes", len(c24.SLOTS), 8 * len(c24.SLOTS), c24.gen_slot, run, sig=c24.sig),
    FnWorkload("several faults", 5000, 200000, gen_many, run, sig=c24.sig),
    FnWorkload("values", 2000, 100000, c24.gen_values, run, sig=c24.sig),
]

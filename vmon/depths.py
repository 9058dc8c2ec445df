"""Arguments nested hundreds and thousands of levels deep: whatever the format libraries themselves can write and read
has to survive, and routers pass it on whatever the depth."""
from vmon import gen, msgspec as S, wire
from vmon.core import FnWorkload
from vmon.rig import M, attempt, call, details, error, need, pub, reg, sub, yield_
from wampproto.broker import Broker
from wampproto.dealer import Dealer
from wampproto.serializers import payload as P
from wampproto.session import WAMPSession

DEPTHS = [150, 300, 333, 400, 480, 500, 700, 990, 1010, 2000, 4000]
IDS = {1: 0, 2: 1, 3: 2}


def nest(n, salt):
    v = [salt, "x"]
    for k in range(n):
        v = {"k": v} if (k * 7 + salt) % 3 == 0 else [v] if (k + salt) % 2 else [k % 5, v]
    return v


def able(f, v):
    """Can the format library itself, called from here, write this and read it again?"""
    try:
        return gen.same(wire.LOADS[f](wire.DUMPS[f](v)), v)
    except Exception:
        return False


def messages(n, salt, st):
    codes = [c for c in S.CODES if S.has_args(c)]
    code = codes[salt % len(codes)]
    v = S.gen_values(__import__("random").Random(salt), code)
    v["args"], v["kwargs"] = ([nest(n, salt)], None) if salt % 2 else (["a"], {"k": nest(n, salt)})
    want = ([nest(n, salt)], None) if salt % 2 else (["a"], {"k": nest(n, salt)})
    m = S.build(code, v)
    for f in range(3):
        what = f"{S.TABLE[code][0]} nested {n} deep, over {wire.FORMATS[f]}"
        ser = wire.SER[f]()
        w = attempt(ser.serialize, m)
        if not able(f, m.marshal()):
            st.ev("beyond the format library")
            continue
        need(w.ok, "{} could not be written: {}", what, w)
        r = attempt(ser.deserialize, w.val)
        need(r.ok, "{} could not be read: {}", what, r)
        need(type(r.val) is type(m) and gen.same(r.val.args, want[0]) and gen.same(r.val.kwargs, want[1]), "{} came back changed", what)
        st.ev("nested values read back over " + wire.FORMATS[f])
    need(gen.same(v["args"], want[0]) and gen.same(v["kwargs"], want[1]), "{} nested {} deep was changed by writing it", S.TABLE[code][0], n)


def payloads(n, salt, st):
    args, kwargs = ([nest(n, salt)], None) if salt % 2 else (["a"], {"k": nest(n, salt)})
    for sid, f in IDS.items():
        if not able(f, [args, kwargs]):
            st.ev("beyond the format library")
            continue
        what = f"{wire.FORMATS[f]} payload nested {n} deep"
        w = attempt(P.serialize_payload, sid, args, kwargs)
        need(w.ok, "{} could not be encoded: {}", what, w)
        r = attempt(P.deserialize_payload, sid, w.val)
        need(r.ok and gen.same(list(r.val), [args, kwargs]), "{} came back changed, or not at all: {}", what, None if r.ok else r)
        st.ev("nested values read back over " + wire.FORMATS[f])


def kept(m, want):
    return gen.same(m.args, want[0]) and gen.same(m.kwargs, want[1])


def events(n, salt, st):
    b = Broker()
    for k in (1, 2, 3):
        b.add_session(details(k))
    for k in (2, 3):
        b.receive_message(k, sub(1, "t"))
    make = lambda: ([nest(n, salt)], None) if salt % 2 else (["a"], {"k": nest(n, salt)})
    r = attempt(b.receive_publish, 1, pub(1, "t", *make()))
    need(r.ok and sorted(r.val.recipients) == [2, 3], "a publication with arguments nested {} deep: {}", n, r if not r.ok else r.val.recipients)
    need(r.val.event is not None and kept(r.val.event, make()), "arguments nested {} deep changed on their way into an event", n)
    st.ev("nested values passed on")


def routed(n, salt, st, answers):
    d = Dealer()
    d.add_session(details(1))
    d.add_session(details(2))
    d.receive_message(1, reg(1, "p"))
    make = lambda: ([nest(n, salt)], None) if salt % 2 else (["a"], {"k": nest(n, salt)})
    r = attempt(d.receive_message, 2, call(5, "p", *make()))
    need(r.ok and r.val.recipient == 1, "a call with arguments nested {} deep: {}", n, r if not r.ok else r.val.recipient)
    inv = r.val.message
    if not answers:
        need(isinstance(inv, M.Invocation) and kept(inv, make()), "arguments nested {} deep changed on their way into an invocation", n)
    else:
        a, k = make()
        m = yield_(inv.request_id, a, k) if salt // 2 % 2 else error(68, inv.request_id, "com.e", a, k)
        r = attempt(d.receive_message, 1, m)
        need(r.ok and r.val.recipient == 2 and r.val.message.request_id == 5, "an answer nested {} deep: {}", n, r if not r.ok else r.val.recipient)
        need(isinstance(r.val.message, (M.Result, M.Error)) and kept(r.val.message, make()), "arguments nested {} deep changed on their way to the caller", n)
    st.ev("nested values passed on")


def calls(n, salt, st):
    routed(n, salt, st, False)


def answers(n, salt, st):
    routed(n, salt, st, True)


def replies(n, salt, st):
    s = WAMPSession(wire.SER[0]())
    make = lambda: ([nest(n, salt)], None) if salt % 2 else (["a"], {"k": nest(n, salt)})
    s.send_message(call(3, "p"))
    a, k = make()
    m = wire.parse([50, 3, {}, a, k]) if k is not None else wire.parse([50, 3, {}, a])
    r = attempt(s.receive_message, m)
    need(r.ok and r.val is not None and kept(r.val, make()), "a result nested {} deep: {}", n, r if not r.ok else "changed")
    st.ev("nested values passed on")


AREAS = {"C01": events, "C04": calls, "C06": answers, "C12": replies, "C22": messages, "C25": payloads}


def workload(prop):
    def run(ops, st):
        for n, salt in ops:
            AREAS[prop](n, salt, st)
            st.nontrivial()

    def gen_(rng, i, tier):
        return [(rng.choice(DEPTHS), rng.randrange(1000)) for _ in range(2)]

    return FnWorkload("depths", 60, 1500, gen_, run)

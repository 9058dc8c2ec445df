import json

from vmon import brokerlab as B, dealerlab as D, gen
from vmon.core import FnWorkload
from vmon.rig import (CALL, INVOCATION, M, attempt, call, details, error, is_id, need, pub, reg, reply, sub, unreg, unsub,
                      yield_)
from vmon.steer import TOP, landmark, steer
from wampproto import serializers
from wampproto.broker import Broker
from wampproto.dealer import Dealer

RULE = (
    "a case is one history on one broker or dealer in which every issued id is recorded, or one router taken close to "
    "2**53 by moving its id counter; non-trivial: ids of at least two kinds were issued"
)
NEEDS = ["subscription ids", "publication ids", "registration ids", "invocation ids", "ids accepted on the wire"]
ASSUMPTIONS = [
    "the wrap-around is reached by moving the integer or count that holds the last issued id; where none is "
    "found the wrap-around is not exercised (see events 'taken close to 2**53')",
    "ids still in use when the counter wraps are not compared with ids issued after the wrap",
]
SER = [serializers.JSONSerializer(), serializers.MsgPackSerializer(), serializers.CBORSerializer()]


class Ids:
    def __init__(self, st):
        self.st = st
        self.owner = {}
        self.kinds = set()

    def new(self, kind, v, what, msg=None):
        need(is_id(v), "{} id {} is not an integer from 1 to 2**53", kind, repr(v))
        need(v not in self.owner, "{} id {} of {} was issued before for {}", kind, v, what, self.owner.get(v))
        self.owner[v] = what
        self.st.ev(kind + " ids")
        self.kinds.add(kind)
        if len(self.kinds) > 1:
            self.st.nontrivial()
        if msg is not None:
            s = SER[v % 3]
            r = attempt(lambda: s.deserialize(s.serialize(msg)))
            need(r.ok and type(r.val) is type(msg), "a peer cannot read {}: {}", repr(msg.marshal()), r)
            self.st.ev("ids accepted on the wire")


class BrokerMon(B.BrokerRun):
    def __init__(self, st):
        super().__init__(st)
        self.ids = Ids(st)

    def on_sub(self, sid, topic, rid, res):
        got = reply(res, M.Subscribed)
        if got and got[0].subscription_id not in self.holders(topic).values():
            self.ids.new("subscription", got[0].subscription_id, ("subscription", topic, self.n()), got[0])

    def n(self):
        return len(self.ids.owner)

    def on_pub(self, sid, topic, rid, opts, args, kwargs, res):
        if not res.ok:
            return
        ids = {}
        if res.val.event is not None:
            ids[res.val.event.publication_id] = M.Event(M.EventFields(res.val.event.subscription_id, res.val.event.publication_id))
        if res.val.ack is not None:
            ids[res.val.ack.message.publication_id] = res.val.ack.message
        for i, m in ids.items():
            self.ids.new("publication", i, ("publication", self.n()), m)


class DealerMon(D.DealerRun):
    def __init__(self, st):
        super().__init__(st)
        self.ids = Ids(st)

    def on_reg(self, sid, proc, rid, res):
        got = reply(res, M.Registered)
        if got:
            self.ids.new("registration", got[0].registration_id, ("registration", proc), got[0])

    def on_call(self, sid, proc, rid, opts, args, kwargs, res):
        got = reply(res, M.Invocation)
        if got:
            m = M.Invocation(M.InvocationFields(got[0].request_id, got[0].registration_id))
            self.ids.new("invocation", got[0].request_id, ("invocation", sid, rid), m)


def steps_broker(st, seed):
    b = Broker()
    for s in (2**40 + 1, 2**40 + 2):
        b.add_session(details(s))
    n = [0]

    def issue():
        n[0] += 1
        r = attempt(b.receive_publish, 2**40 + 1, pub(2**41, "t", None, None, {"acknowledge": True}))
        need(r.ok and r.val.ack is not None, "a publication {}", r)
        return "publication", r.val.ack.message.publication_id, r.val.ack.message

    def other():
        n[0] += 1
        r = reply(attempt(b.receive_message, 2**40 + 2, sub(2**41, f"t.{n[0]}")), M.Subscribed)
        need(r, "a subscription was refused")
        return "subscription", r[0].subscription_id, r[0]

    return b, issue, other


def steps_dealer(st, seed):
    d = Dealer()
    for s in (2**40 + 1, 2**40 + 2):
        d.add_session(details(s))
    d.receive_message(2**40 + 2, reg(2**41, "p"))
    n = [0]

    def issue():
        n[0] += 1
        r = reply(attempt(d.receive_message, 2**40 + 1, call(2**41 + n[0], "p")), M.Invocation)
        need(r, "a call was refused")
        need(reply(attempt(d.receive_message, 2**40 + 2, yield_(r[0].request_id)), M.Result), "a yield was refused")
        return "invocation", r[0].request_id, r[0]

    def other():
        n[0] += 1
        r = reply(attempt(d.receive_message, 2**40 + 1, reg(2**41, f"p.{n[0]}")), M.Registered)
        need(r, "a registration was refused")
        return "registration", r[0].registration_id, r[0]

    return d, issue, other


def run_wrap(ops, st):
    which, warm, before, total, top = ops[0]
    router, issue, other = (steps_broker if which == "broker" else steps_dealer)(st, 0)
    rnd = lambda k: issue if k % 3 else other
    last = 0
    for k in range(warm):
        last = rnd(k)()[1]
    target = top - before
    first = []

    def one():
        first[:] = issue()
        return first[1]

    moved, last = steer(router, last, target, one)
    if not moved:
        st.ev("counter not found")
        return
    st.ev("taken close to 2**53", top == TOP)
    st.ev("taken close to another round number", top != TOP)
    ids = Ids(st)
    kind, v, m = first
    ids.new(kind, v, "first", m)
    expect_low, prev = v <= total, v
    for k in range(total):
        kind, v, m = rnd(k)()
        # ids issued before the jump are 1..warm; they come again only after the wrap, in another life of the counter
        ids.new(kind, v, k, m)
        if not expect_low and v < prev:
            st.ev("wraps seen")
            need(v <= 1 + total, "after {} the router issues {}: not the bottom of the range", prev, v)
            need(gen.ID_MAX - prev <= total, "the router went back to {} after {}, far from 2**53", v, prev)
            expect_low = True
        prev = v


def wrap_gen(rng, i, tier):
    return [("broker" if i % 2 else "dealer", rng.randint(4, 40), rng.choice([0, 1, 2, 3, 5, 10, 17]), 60, landmark(rng))]


def run_long(ops, st):
    which, n = ops[0]
    router, issue, other = (steps_broker if which == "broker" else steps_dealer)(st, 0)
    ids = Ids(st)
    for k in range(n):
        kind, v, m = (issue if k % 5 else other)()
        ids.new(kind, v, k, m if k % 97 == 0 else None)
    st.top("ids from one router", n)


WORKLOADS = [
    FnWorkload("broker", 2500, 80000, B.gen_ops, lambda ops, st: BrokerMon(st).play(ops)),
    FnWorkload("dealer", 2500, 80000, D.gen_ops, lambda ops, st: DealerMon(st).play(ops)),
    FnWorkload("wrap-around", 200, 4000, wrap_gen, run_wrap),
    FnWorkload("long-lived", 16, 64, lambda rng, i, tier: [("broker" if i % 2 else "dealer", 140_000 if tier == "quick" else 1_500_000)],
               run_long),
]

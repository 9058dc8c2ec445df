from vmon import gen
from vmon.core import FnWorkload
from vmon.rig import M, attempt, is_id, need
from vmon.steer import TOP, landmark, steer
from wampproto import serializers
from wampproto.idgen import SessionScopeIDGenerator

RULE = (
    "a case is one interleaving of several generators, or one generator taken close to 2**53; non-trivial: two "
    "generators were drawn from alternately, or one wrapped"
)
NEEDS = ["ids drawn", "ids accepted in a request", "first ids"]
ASSUMPTIONS = [
    "the wrap-around is reached by moving the integer or count that the generator keeps; where none is found it is not exercised "
    "(see event 'wraps seen')"
]
SER = [serializers.JSONSerializer(), serializers.MsgPackSerializer(), serializers.CBORSerializer()]


def follow(v):
    return 1 if v == gen.ID_MAX else v + 1


class Watch:
    def __init__(self, st):
        self.g = SessionScopeIDGenerator()
        self.last = None
        self.st = st

    def draw(self):
        v = self.g.next()
        need(is_id(v), "the generator gave {}", repr(v))
        want = 1 if self.last is None else follow(self.last)
        need(v == want, "the generator gave {} after {}", v, self.last)
        self.st.ev("ids drawn")
        self.st.ev("first ids", self.last is None)
        self.st.ev("wraps seen", self.last == gen.ID_MAX)
        self.last = v
        return v

    def jump(self, target):
        moved, self.last = steer(self.g, self.last, target, self.g.next)
        need(is_id(self.last), "the generator gave {}", repr(self.last))
        return moved


def run(ops, st):
    gens = []
    drawn = set()
    for op in ops:
        if op[0] == "new":
            gens.append(Watch(st))
        elif gens:
            w = gens[op[1] % len(gens)]
            if op[0] == "draw":
                for _ in range(op[2]):
                    v = w.draw()
                    m = M.Subscribe(M.SubscribeFields(v, "t"))
                    s = SER[v % 3]
                    if op[2] < 20:
                        r = attempt(lambda: s.deserialize(s.serialize(m)))
                        need(r.ok and r.val.request_id == v, "request id {} on the wire: {}", v, r)
                        st.ev("ids accepted in a request")
                drawn.add(op[1] % len(gens))
                if len(drawn) > 1:
                    st.nontrivial()
            elif w.last is not None:
                if w.jump(op[3] - op[2]):
                    st.ev("taken close to 2**53", op[3] == TOP)
                    st.ev("taken close to another round number", op[3] != TOP)
                    st.nontrivial()


def gen_ops(rng, i, tier):
    ops = [("new",)]
    for _ in range(rng.randint(1, 30)):
        k = rng.choice(["new", "draw", "draw", "draw", "draw", "jump"])
        if k == "new":
            ops.append((k,))
        elif k == "draw":
            ops.append((k, rng.randrange(6), rng.choice([1, 1, 2, 3, 5, 17, 300])))
        else:
            ops.append((k, rng.randrange(6), rng.choice([1, 2, 3, 10]), landmark(rng)))
            ops.append(("draw", ops[-1][1], 12))
    return ops


WORKLOADS = [
    FnWorkload("interleaved", 3000, 60000, gen_ops, run),
    FnWorkload("long", 8, 32, lambda rng, i, tier: [("new",), ("draw", 0, 200_000 if tier == "quick" else 5_000_000)], run),
]

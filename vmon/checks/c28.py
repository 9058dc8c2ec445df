"""Honest peers never reject each other: whole conversations stay consistent."""
from vmon import convlab as L, gen
from vmon.core import FnWorkload
from vmon.rig import pick

RULE = "a case is one conversation brought to rest; non-trivial: more than 20 messages crossed links"
NEEDS = [
    "joined", "joined later", "events received", "events received while unsubscribing", "events over two formats",
    "publications to the publisher itself", "event streams compared", "replies received", "invocations over two formats",
    "invocations of the caller itself", "invocations while unregistering", "further chunks received",
    "chunks after the registration ended", "progressive results received", "results received", "call errors received",
    "answers compared", "answers while other calls are open", "answers to a caller that left", "callee left an open call",
    "calls to nobody", "calls settled", "progressive calls settled", "goodbyes", "links cut",
]
ASSUMPTIONS = [
    "applications are honest: they unsubscribe and unregister what they hold, once, and answer each invocation once",
    "links keep order and lose nothing until they are cut",
    "a link counts as ended for the router when what was sent before the cut has arrived",
]
TOPICS = ["com.app.t1", "com.app.t2", "com.app", "é"]
PROCS = ["com.app.p1", "com.app.p2", "com.app", "日本"]


def opts(rng):
    return gen.free_dict(rng, p_empty=0.8)


def make(weights, n, few):
    def g(rng, i, tier):
        formats = rng.choice([[0, 1, 2], [0, 1, 2], [1, 2], [0], [1], [2]])
        binary = 0 not in formats
        framed = rng.choice([0, 0, 0.5, 1])
        topics, procs = TOPICS[: rng.randint(1, 4)], PROCS[: rng.randint(1, 4)]

        def payload():
            return gen.array(rng, 2, binary), gen.opt_args(rng, binary)[1]

        def join():
            return ("join", rng.choice(formats), rng.choice(L.METHODS), rng.random() < framed)

        clients = rng.randint(1, few)
        ops = []
        for c in range(clients):
            ops.append(join())
        for c in range(clients):  # most are in before anything else happens
            if rng.random() < 0.9:
                for _ in range(2):
                    ops += [("up", c, 100), ("down", c, 100)]
        lazy = rng.choice([1, 3, 10])  # how far deliveries lag behind
        w = list(weights)
        w.append((60 / lazy, "move"))
        for _ in range(rng.randint(*n)):
            k = pick(rng, w)
            c = rng.randrange(12)
            if k == "join":
                ops.append(join())
            elif k == "sub":
                ops.append((k, c, rng.choice(topics), opts(rng)))
            elif k == "reg":
                ops.append((k, c, rng.choice(procs), opts(rng)))
            elif k in ("unsub", "unreg"):
                ops.append((k, c, rng.randrange(9)))
            elif k == "pub":
                ops.append((k, c, rng.choice(topics), rng.random() < 0.5, *payload(), opts(rng)))
            elif k == "call":
                m = 1 if rng.random() < 0.7 else rng.randint(2, 5)
                ops.append((k, c, rng.choice(procs), rng.random() < 0.5, [payload() for _ in range(m)], opts(rng)))
            elif k == "chunk":
                ops.append((k, rng.randrange(9)))
            elif k == "answer":
                ops.append((k, c, rng.randrange(9), pick(rng, [(5, "final"), (4, "progress"), (2, "error")]), *payload()))
            elif k == "leave":
                ops.append((k, c, "goodbye" if rng.random() < 0.5 else rng.choice([0, 0.3, 0.7, 1])))
            else:
                for _ in range(rng.randint(1, 4)):
                    ops.append((rng.choice(["up", "down"]), rng.randrange(12), rng.choice([1, 1, 2, 5, 40, 100])))
        return ops

    return g


def run(ops, st):
    L.Conv(st).play(ops)


ALL = [(6, "sub"), (3, "unsub"), (10, "pub"), (6, "reg"), (3, "unreg"), (12, "call"), (8, "chunk"), (14, "answer"), (1, "join"), (1, "leave")]
PUBSUB = [(10, "sub"), (6, "unsub"), (20, "pub"), (1, "join"), (0.5, "leave")]
RPC = [(6, "reg"), (4, "unreg"), (12, "call"), (10, "chunk"), (16, "answer"), (0.6, "join"), (0.6, "leave")]
WORKLOADS = [
    FnWorkload("everything", 1500, 40000, make(ALL, (10, 120), 6), run),
    FnWorkload("publish-subscribe", 1000, 25000, make(PUBSUB, (10, 100), 5), run),
    FnWorkload("calls", 1500, 40000, make(RPC, (10, 120), 4), run),
    FnWorkload("long", 40, 600, make(ALL, (600, 1500), 8), run),
]

"""Client-side handshakes follow the protocol order and end once."""
import copy

from vmon import authlab as A, wire
from vmon.core import FnWorkload
from vmon.rig import M, T, attempt, need, pick
from wampproto import auth
from wampproto.exception import ApplicationError
from wampproto.joiner import Joiner

RULE = (
    "a case is one client-side handshake given any sequence of router messages and hellos; non-trivial: one message was "
    "accepted and one refused"
)
NEEDS = ["challenges accepted", "second challenges refused", "challenges before hello refused", "welcomes accepted",
         "welcomes before hello refused", "second welcomes refused", "aborts reported", "welcomes after abort refused",
         "challenges after abort refused", "new hello after abort", "other messages refused", "undecodable data refused",
         "details read", "details withheld", "challenges after welcome refused", "unusable challenges",
         "hellos that failed", "challenges out of turn for another method"]

CHALLENGES = {
    "ticket": [["ticket", {}], ["ticket", {"note": 1}], ["ticket", {"challenge": "x", "authid": "b", "session": 3, "realm": "other"}]],
    "wampcra": [["wampcra", {"challenge": "{}"}], ["wampcra", {"challenge": "x", "salt": "s", "iterations": 1, "keylen": 32}], ["wampcra", {}],
                ["wampcra", {"challenge": "{}", "authid": "b", "session": 3, "realm": "other", "authmethod": "ticket"}]],
    "cryptosign": [["cryptosign", {"challenge": "ab" * 32}], ["cryptosign", {}], ["cryptosign", {"challenge": "zz"}]],
    "anonymous": [["anonymous", {}], ["ticket", {}]],
}
WELCOMES = [{}, {"authmethod": "ticket"}, {"authmethod": ""}, {"authmethod": "other", "authprovider": "dynamic"}, {"authextra": {}}, {"realm": "other", "session": 3, "session_id": 4},
            {"authextra": {"realm": "other", "authid": "b", "authrole": "c", "session": 3, "session_id": 4}}, {"progress": True, "x_note": [1], "": 1, "resumed": True, "resumable": False, "resume_token": "t"}]
ANY_CHALLENGE = [c for m in ("ticket", "wampcra", "cryptosign") for c in CHALLENGES[m]] + [["anonymous", {}], ["", {}], ["none", {"challenge": "{}"}], ["Ticket", {}]]
OTHERS = [w for w in A.OTHER_WIRES if w[0] not in (2, 4)] + [[1, "r", {"roles": {"caller": {}}}], [5, "x", {}]]


ROLES = [None, {"caller": {"features": {}}}, {"subscriber": {}, "callee": {"features": {"progressive_call_results": True}}}]


class Poison:
    """A serializer that fails to write when told to."""

    def __init__(self, inner):
        self.inner, self.fail = inner, False

    def serialize(self, m):
        if self.fail:
            raise ValueError("injected")
        return self.inner.serialize(m)

    def deserialize(self, d):
        return self.inner.deserialize(d)

    def static(self):
        return self.inner.static()


def client(method):
    if method == "ticket":
        return auth.TicketAuthenticator("alice", "t", {})
    if method == "wampcra":
        return auth.WAMPCRAAuthenticator("alice", "s", {})
    if method == "cryptosign":
        return auth.CryptoSignAuthenticator("alice", A.KEYS[0].private_hex, {})
    return auth.AnonymousAuthenticator("alice", {})


class Run:
    def __init__(self, st, method, ser, how, realm):
        self.st, self.method, self.ser, self.how, self.realm = st, method, ser, how, realm
        self.poison = Poison(wire.SER[ser]())
        if method == "default":
            self.j = Joiner(realm, self.poison)
            self.method = "anonymous"
        else:
            self.j = Joiner(realm, self.poison, client(method))
        self.phase = "none"  # none, hello, authenticated, joined, aborted
        self.welcome = None
        self.joined_once = False
        self.outcomes = set()
        self.sent = None  # the last HELLO

    def give(self, w):
        if self.how == "bytes":
            return attempt(self.j.receive, wire.DUMPS[self.ser](w))
        return attempt(self.j.receive_message, wire.parse(copy.deepcopy(w)))

    def note(self, ok):
        self.outcomes.add(ok)
        if len(self.outcomes) == 2:
            self.st.nontrivial()

    def check_details(self, what):
        d = attempt(self.j.get_session_details)
        if self.phase == "joined":
            need(d.ok, "after {}: joined, but session details are {}", what, d)
            w = self.welcome
            got = (d.val.session_id, d.val.realm, d.val.authid, d.val.authrole)
            want = (w[1], self.realm, w[2].get("authid"), w[2].get("authrole"))
            need(got == want, "after {}: session details {} but the welcome and realm say {}", what, got, want)
            self.st.ev("details read")
        elif not self.joined_once:
            need(not d.ok, "after {} ({}): session details {} before any welcome was accepted", what, self.phase, d)
            self.st.ev("details withheld")

    def do_hello(self, fail, roles=0):
        self.poison.fail = fail
        r = attempt(self.j.send_hello, copy.deepcopy(ROLES[roles])) if ROLES[roles] else attempt(self.j.send_hello)
        self.sent = r.val if r.ok else None
        self.poison.fail = False
        if fail:
            need(not r.ok, "a hello that cannot be written was reported as sent: {}", r)
            self.st.ev("hellos that failed")
        elif not r.ok and self.phase in ("hello", "authenticated", "joined"):
            self.st.ev("hellos refused while joining or joined")
        else:
            need(r.ok, "send_hello() {}", r)
            self.st.ev("new hello after abort", self.phase == "aborted")
            self.phase = "hello"
        self.check_details("hello")

    def do_challenge(self, k):
        options = CHALLENGES[self.method]
        if k >= 6 and self.phase != "hello":  # out of turn, whatever method it names
            options = ANY_CHALLENGE
            self.st.ev("challenges out of turn for another method")
        c = options[k % len(options)]
        w = [4] + c
        usable = self.method == "ticket" or (self.method != "anonymous" and c[1].get("challenge") not in (None, "zz"))
        what = f"{w} in phase {self.phase}"
        r = self.give(w)
        if self.phase != "hello":
            need(not r.ok, "{}: {}", what, r)
            self.st.ev({"none": "challenges before hello refused", "authenticated": "second challenges refused",
                        "joined": "challenges after welcome refused", "aborted": "challenges after abort refused"}[self.phase])
        elif usable:
            need(r.ok and r.val, "{}: {}", what, r)
            m = wire.parse(wire.LOADS[self.ser](r.val)) if self.how == "bytes" else r.val
            need(isinstance(m, M.Authenticate), "{}: answered with {}", what, m)
            self.phase = "authenticated"
            self.st.ev("challenges accepted")
        else:
            need(not r.ok, "{}: {}", what, r)
            self.st.ev("unusable challenges")
        self.note(r.ok)
        self.check_details(what)

    def do_welcome(self, sid, authid, role, more=0):
        det = dict(copy.deepcopy(WELCOMES[more]), roles={"broker": {}, "dealer": {}})
        if authid is not None:
            det["authid"] = authid
        if role is not None:
            det["authrole"] = role
        w = [2, sid, det]
        what = f"{w} in phase {self.phase}"
        r = self.give(w)
        if self.phase in ("hello", "authenticated"):
            need(r.ok and not r.val, "{}: {}", what, r)
            self.st.ev("welcomes accepted")
            self.phase, self.welcome, self.joined_once = "joined", w, True
        else:
            need(not r.ok, "{}: {}", what, r)
            self.st.ev({"none": "welcomes before hello refused", "joined": "second welcomes refused",
                        "aborted": "welcomes after abort refused"}[self.phase])
        self.note(r.ok)
        self.check_details(what)

    def do_abort(self, k):
        w = A.ABORT_WIRES[k % len(A.ABORT_WIRES)]
        what = f"{w} in phase {self.phase}"
        r = self.give(w)
        need(not r.ok, "{}: not reported as an error but {}", what, r)
        if self.phase in ("hello", "authenticated"):
            need(isinstance(r.exc, ApplicationError), "{}: reported as {}", what, r)
            self.st.ev("aborts reported")
        self.phase = "aborted"
        self.note(False)
        self.check_details(what)

    def do_other(self, k):
        w = copy.deepcopy(OTHERS[k % len(OTHERS)])
        what = f"{w} in phase {self.phase}"
        r = self.give(w)
        need(not r.ok, "{}: {}", what, r)
        self.st.ev("other messages refused")
        self.note(False)
        self.check_details(what)

    def do_junk(self, k):
        data = A.JUNK[k % len(A.JUNK)]
        what = f"data {data!r} in phase {self.phase}"
        r = attempt(self.j.receive, data)
        need(not r.ok, "{}: {}", what, r)
        self.st.ev("undecodable data refused")
        self.check_details(what)


def run(ops, st):
    if not ops or ops[0][0] != "config":
        return
    r = Run(st, *ops[0][1:])
    r.check_details("start")
    for op in ops[1:]:
        getattr(r, "do_" + op[0])(*op[1:])


CLIENTS = ["default", "anonymous", "ticket", "wampcra", "cryptosign"]


def gen_welcome(rng):
    return ("welcome", rng.choice([1, 2, 77, 2**53]), rng.choice(A.NAMES + [None]), rng.choice(["user", "", None, "admin"] + A.NAMES), rng.choice([0, rng.randrange(len(WELCOMES))]))


def gen(rng, i, tier):
    ops = [("config", rng.choice(CLIENTS), rng.randrange(3), rng.choice(["bytes", "bytes", "message"]), rng.choice(A.REALMS))]
    if rng.random() < 0.8:
        ops.append(("hello", False, rng.choice([0, 0, 1, 2])))
    for _ in range(rng.randint(1, 12)):
        ops.append(pick(rng, [(30, ("challenge", rng.choice([rng.randrange(6), rng.randrange(6, 40)]))), (25, gen_welcome(rng)), (12, ("abort", rng.choice([0, 1, rng.randrange(40)]))),
                              (10, ("other", rng.randrange(60))), (6, ("junk", rng.randrange(60))), (14, ("hello", False, rng.choice([0, 0, 1, 2]))), (3, ("hello", True))]))
    return ops


LETTERS = [("hello", False), ("challenge", 0), ("welcome", 5, "a", "b"), ("abort", 0), ("other", 3), ("hello", True)]


ALL_SHORT = 30 * 6**5


def gen_short(rng, i, tier):
    n = i if tier == "thorough" else i * 7919 % ALL_SHORT
    ops = [("config", CLIENTS[n % 5], n // 5 % 3, ("bytes", "message")[n // 15 % 2], "realm1")]
    n //= 30
    for _ in range(5):
        ops.append(LETTERS[n % 6])
        n //= 6
    return ops


WORKLOADS = [
    FnWorkload("sequences", 10000, 400000, gen, run),
    FnWorkload("all-short", 30 * 600, ALL_SHORT, gen_short, run),
]

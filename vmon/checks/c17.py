"""Router-side handshakes follow the protocol order and end once."""
from vmon import authlab as A
from vmon.core import FnWorkload
from vmon.rig import M, attempt, is_id, need

RULE = (
    "a case is one or several router-side handshakes given any sequence of messages of any type; non-trivial: one got "
    "an answer and one message was refused"
)
NEEDS = ["welcomes", "challenges", "aborts", "refused out of order", "refused after welcome", "refused after abort",
         "ABORT received", "details read", "details withheld", "undecodable data", "messages of other types",
         "rejected by the authenticator", "rejected proofs", "without authenticator", "cryptosign without key"]


class Mon(A.AcceptorRun):
    def __init__(self, *a):
        super().__init__(*a)
        self.kinds = set()

    def on_step(self, s):
        st, h, a = self.st, s.h, s.answer
        if getattr(h, "off", False):
            return
        self.kinds.add(s.kind)
        if "refused" in self.kinds and len(self.kinds) > 1:
            st.nontrivial()
        if s.final is not None and not (s.final and a is None):
            need(bool(s.final) == isinstance(a, (M.Welcome, M.Abort)), "{}: reported as {}", s, "final" if s.final else "not final")
        after = self.expect(s)
        if after is None:
            h.off = True
            return
        # how it stands now
        need(bool(h.acceptor.is_aborted()) == (after == "aborted"), "{}: is_aborted() is now {}", s, h.acceptor.is_aborted())
        d = attempt(h.acceptor.get_session_details)
        need(d.ok == (after == "welcomed"), "{}: session details are now {}", s, d)
        if d.ok:
            st.ev("details read")
            w = a if isinstance(a, M.Welcome) else h.welcome
            hello = s.sent if isinstance(s.sent, list) and s.sent[0] == 1 and isinstance(a, M.Welcome) else h.hello
            need((d.val.session_id, d.val.authid, d.val.authrole) == (w.session_id, w.authid, w.authrole),
                 "{}: session details {} differ from the WELCOME", s, (d.val.session_id, d.val.authid, d.val.authrole))
            need(d.val.realm == hello[1], "{}: session details name realm {}, the client asked for {}", s, d.val.realm, hello[1])
        else:
            st.ev("details withheld")

    def expect(self, s):
        """Judges the step and returns the phase after it."""
        st, h, a = self.st, s.h, s.answer
        if not isinstance(s.sent, list):
            need(s.refused, "{}: undecodable data was not refused", s)
            st.ev("undecodable data")
            return s.before
        t = s.sent[0]
        if s.before == "welcomed":
            need(s.refused, "{}: answered after WELCOME", s)
            st.ev("refused after welcome")
            return s.before
        if s.before == "aborted":
            need(s.refused, "{}: not refused after the handshake was aborted", s)
            st.ev("refused after abort")
            return s.before
        if t == 3:
            need(not s.refused and a is None, "{}: an ABORT was answered or refused", s)
            need(s.final is not False, "{}: reported as not final", s)
            st.ev("ABORT received")
            return "aborted"
        if t == 1 and s.before == "none":
            return self.expect_hello(s)
        if t == 5 and s.before == "challenged":
            return self.expect_auth(s)
        need(s.refused, "{}: this message has no place here", s)
        st.ev("refused out of order" if t in (1, 5) else "messages of other types")
        return s.before

    def expect_hello(self, s):
        st, a = self.st, s.answer
        det = s.sent[2]
        if self.server is None:
            need(isinstance(a, M.Welcome), "{}: no authenticator, yet not welcomed", s)
            need(is_id(a.session_id), "{}: session id", s)
            st.ev("without authenticator")
            st.ev("welcomes")
            return "welcomed"
        method = (det.get("authmethods") or ["anonymous"])[0]
        if method not in A.METHODS:
            return self.no_answer(s)
        if method == "ticket":
            return self.challenged(s, method)
        if method == "cryptosign" and not (det.get("authextra") or {}).get("pubkey"):
            st.ev("cryptosign without key")
            return self.no_answer(s)
        c = s.calls[-1] if s.calls else None
        need(c is not None, "{}: the authenticator was not asked", s)
        acc = self.table.get((method, det.get("authid")))
        if c["response"] is None and not (acc and acc["outcome"] == "none"):
            need(isinstance(a, M.Abort), "{}: the authenticator rejected, yet not aborted", s)
            st.ev("rejected by the authenticator")
            st.ev("aborts")
            return "aborted"
        if c["response"] is None or (method == "wampcra" and not hasattr(c["response"], "secret")):
            return self.broken_authenticator(s)
        if method == "anonymous":
            need(isinstance(a, M.Welcome), "{}: approved, yet not welcomed", s)
            st.ev("welcomes")
            return "welcomed"
        if det["authextra"]["pubkey"] == "zz" if method == "cryptosign" else False:
            return self.broken_authenticator(s)
        return self.challenged(s, method)

    def challenged(self, s, method):
        need(isinstance(s.answer, M.Challenge) and s.answer.authmethod == method, "{}: expected a challenge for {}", s, method)
        self.st.ev("challenges")
        return "challenged"

    def no_answer(self, s):
        """A HELLO that cannot be served: refused with an error (not advancing), or aborted for good."""
        need(s.refused or isinstance(s.answer, M.Abort), "{}: this cannot be served", s)
        return s.before if s.refused else "aborted"

    def broken_authenticator(self, s):
        """The authenticator broke its contract: this handshake is not judged any further."""
        self.st.ev("left to the authenticator's fault")
        return None

    def expect_auth(self, s):
        st, h, a = self.st, s.h, s.answer
        c = h.approval
        acc = self.table.get((h.method, h.hello[2].get("authid")))
        if acc and acc["outcome"] in ("none", "wrong") or (h.hello[2].get("authextra") or {}).get("pubkey") == "zz":
            return self.broken_authenticator(s)
        need(isinstance(a, (M.Welcome, M.Abort)), "{}: neither welcomed nor aborted", s)
        if isinstance(a, M.Abort):
            st.ev("rejected proofs" if h.method != "ticket" else "rejected by the authenticator")
            st.ev("aborts")
            return "aborted"
        st.ev("welcomes")
        return "welcomed"


def gen(rng, i, tier):
    accounts = A.gen_accounts(rng)
    ops = A.gen_ops(rng)
    for _ in range(rng.randint(0, 4)):
        k, how = rng.randrange(4), "bytes" if rng.random() < 0.7 else "message"
        ops.insert(rng.randrange(len(ops) + 1), rng.choice([("abort", k, how, 0), ("other", k, how, rng.randrange(50)), ("junk", k, rng.randrange(50)),
                   ("auth", k, how, 0, rng.randrange(100)), ("hello", k, how, rng.randrange(6), "own", "full", "realm1")]))
    return [("config", accounts, rng.random() < 0.9)] + ops


def run(ops, st):
    if ops and ops[0][0] == "config":
        Mon(st, ops[0][1], ops[0][2]).play(ops[1:])


LETTERS = [("hello", 0), ("auth-right",), ("auth-wrong",), ("abort",), ("other",), ("hello-other",)]
SHORT = 5
ALL_SHORT = 4 * 3 * 2 * 2 * len(LETTERS) ** SHORT


def gen_short(rng, i, tier):
    """All sequences over a small alphabet, for every method, serializer and way of delivery."""
    n = i if tier == "thorough" else i * 7919 % ALL_SHORT
    method = A.METHODS[n % 4]
    n //= 4
    ser = n % 3
    n //= 3
    how = ("bytes", "message")[n % 2]
    n //= 2
    reject = n % 2
    n //= 2
    acc = {"method": method, "authid": "alice", "granted": "alice", "role": "user", "outcome": "reject" if reject else "ok",
           "ticket": "t", "secret": "s", "key": A.KEYS[0]}
    if reject:
        acc["exc"] = A.Rejection("no")
    ops = [("config", [acc], True), ("open", ser)]
    for _ in range(SHORT):
        letter = LETTERS[n % len(LETTERS)][0]
        n //= len(LETTERS)
        ops.append({
            "hello": ("hello", 0, how, 0, "own", "full", "realm1"),
            "hello-other": ("hello", 0, how, 0, ["ticket"] if method != "ticket" else ["anonymous"], "full", "realm2"),
            "auth-right": ("auth", 0, how, 0, 0), "auth-wrong": ("auth", 0, how, 7, 1),
            "abort": ("abort", 0, how, 0), "other": ("other", 0, how, i),
        }[letter])
    return ops


WORKLOADS = [
    FnWorkload("sequences", 8000, 300000, gen, run),
    FnWorkload("all-short", 4 * 3 * 2 * 2 * 400, ALL_SHORT, gen_short, run),
]

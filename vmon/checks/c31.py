"""Refusals and failures arrive with their reason intact."""
import copy

from vmon import authlab as A, gen, wire
from vmon.core import FnWorkload, short
from vmon.rig import CALL, INVOCATION, M, attempt, call, details, error, need, pick, reg, yield_
from wampproto import auth
from wampproto.acceptor import Acceptor
from wampproto.dealer import Dealer
from wampproto.exception import ApplicationError
from wampproto.joiner import Joiner
from wampproto.session import WAMPSession

RULE = "a case is one refused handshake or one conversation with failing calls; every reason that arrives is compared, so every case is non-trivial"
NEEDS = [f"{w} over {f}" for w in ("abort told", "rejection told", "error told") for f in wire.FORMATS] + [
    f"rejected: {m}" for m in A.METHODS] + ["wrong proof told: " + m for m in ("ticket", "wampcra", "cryptosign")] + [
    "abort without arguments", "abort with keyword arguments only", "abort after a challenge", "error over two formats", "error after progressive results", "error while other calls are open",
    "router error told", "error to a caller that is the callee", "error without arguments"]
ASSUMPTIONS = ["arguments of a rejection can be written in the format of the connection", "absent and empty arguments are not told apart"]
FAILED = "wamp.error.authentication_failed"


def check_application_error(what, exc, uri, args, kwargs):
    need(isinstance(exc, ApplicationError), "{}: the client got {}: {}", what, type(exc).__name__, str(exc))
    need(exc.message == uri, "{}: the client was told reason {} instead of {}", what, repr(exc.message), repr(uri))
    need(gen.none_or_same(list(exc.args), args), "{}: the client was told arguments {} instead of {}", what, exc.args, args)
    need(gen.none_or_same(exc.kwargs, kwargs), "{}: the client was told keyword arguments {} instead of {}", what, exc.kwargs, kwargs)
    check_text(what, exc, uri, args, kwargs)


def check_text(what, err, uri, args, kwargs):
    """The error's text names the reason, and every argument and keyword argument that is a plain number or word, null, true, false or an empty container."""
    text = attempt(str, err)
    need(text.ok and uri in text.val, "{}: the error reads {}, which lacks the reason", what, text)
    ends = lambda parts: parts if len(parts) < 200 else parts[:100] + parts[-100:]
    for part in ends(list(args or ())) + ends(list(kwargs or {})) + ends(list((kwargs or {}).values())):
        if part is None or type(part) in (int, bool) or (type(part) in (list, dict) and not part) or (type(part) is str and part.isalnum()):
            need(str(part) in text.val, "{}: the error reads {}, which lacks {}", what, text, part)


def client(method, secret="t"):
    if method == "ticket":
        return auth.TicketAuthenticator("alice", secret, {})
    if method == "wampcra":
        return auth.WAMPCRAAuthenticator("alice", secret, {})
    if method == "cryptosign":
        return auth.CryptoSignAuthenticator("alice", A.KEYS[0].private_hex, {})
    return auth.AnonymousAuthenticator("alice", {})


CHALLENGE = {"ticket": {}, "wampcra": {"challenge": "{}"}, "cryptosign": {"challenge": "ab" * 32}}


def do_abort(st, ser, method, challenged, det, reason, args, kwargs, direct):
    """An ABORT the router makes up, told to a client in the middle of its handshake."""
    j = Joiner("realm", wire.SER[ser](), client(method))
    j.send_hello()
    S = wire.SER[ser]()
    if challenged and method in CHALLENGE:
        j.receive(S.serialize(M.Challenge(M.ChallengeFields(method, CHALLENGE[method]))))
        st.ev("abort after a challenge")
    m = M.Abort(M.AbortFields(copy.deepcopy(det), reason, copy.deepcopy(args), copy.deepcopy(kwargs)))
    what = f"ABORT {reason!r} {short(args, 150)} {short(kwargs, 150)} over {wire.FORMATS[ser]}"
    if direct:
        r = attempt(j.receive_message, m)
    else:
        w = attempt(S.serialize, m)
        need(w.ok, "{} could not be written: {}", what, w)
        r = attempt(j.receive, w.val)
    need(not r.ok, "{}: the client was not told, receive {}", what, r)
    check_application_error(what, r.exc, reason, args, kwargs)
    st.ev("abort told over " + wire.FORMATS[ser])
    st.ev("abort without arguments", not args and not kwargs)
    st.ev("abort with keyword arguments only", args is None and bool(kwargs))
    st.nontrivial()


class Rejection(Exception):
    pass


class Explained(Rejection):
    """A rejection with attributes of its own."""
    message = reason = "com.app.rejected"
    uri = error = code = "wamp.error.no_such_realm"
    kwargs = details = {}


EXC = [Rejection, ValueError, RuntimeError, KeyError, Exception, LookupError, Explained, lambda *args: ApplicationError("com.app.no", list(args), {})]


class Host(auth.IServerAuthenticator):
    def __init__(self, exc, secret):
        self.exc, self.secret = exc, secret

    def methods(self):
        return A.METHODS

    def authenticate(self, q):
        if self.exc is not None:
            raise self.exc
        if q.method == "wampcra":
            return auth.WAMPCRAResponse("alice", "user", self.secret)
        if q.method == "ticket" and q.ticket != self.secret:
            raise Rejection("wrong ticket", 1)
        return auth.Response("alice", "user")


class Liar(auth.IClientAuthenticator):
    """Gives a proof that does not hold."""

    def __init__(self, inner, proof):
        super().__init__(inner.auth_method, inner.authid, inner.auth_extra)
        self.inner, self.proof = inner, proof

    def authenticate(self, challenge):
        return M.Authenticate(M.AuthenticateFields(self.proof, {}))


PROOFS = {"cryptosign": ["00" * 96, "", "zz", (A.KEYS[1].sign(b"x") + b"x").hex()], "wampcra": ["", "AAAA", "!!", "x" * 44], "ticket": ["", "no", "tt", "T"]}


def do_reject(st, ser, method, kind, args, wrong):
    """The router's own ABORT: the authenticator rejects, or the proof fails."""
    if wrong and method != "anonymous":
        exc, proof = None, PROOFS[method][kind % 4]
        c = Liar(client(method, "t"), proof)
        want = ["wrong ticket", 1] if method == "ticket" else None
    else:
        wrong = False
        exc = EXC[kind % len(EXC)](*copy.deepcopy(args))
        c = client(method)
        want = args
    a = Acceptor(wire.SER[ser](), Host(exc, "t"))
    j = Joiner("realm", wire.SER[ser](), c)
    data = j.send_hello()
    what = f"{method} client {'with a wrong proof' if wrong else 'rejected with ' + short(args, 200)} over {wire.FORMATS[ser]}"
    for _ in range(3):
        r = attempt(a.receive, data)
        need(r.ok, "{}: the router side {}", what, r)
        answer, final = r.val
        need(answer, "{}: the router side said nothing", what)
        w = wire.LOADS[ser](answer)
        if w[0] != 3:
            need(w[0] == 4, "{}: the router side answered {}", what, w)
            data = j.receive(answer)
            continue
        need(final is True, "{}: ABORT is not the end of the handshake", what)
        r = attempt(j.receive, answer)
        need(not r.ok, "{}: the client was not told, receive {}", what, r)
        check_application_error(what, r.exc, FAILED, want, None)
        break
    else:
        need(False, "{}: never aborted", what)
    st.ev("wrong proof told: " + method if wrong else "rejected: " + method)
    st.ev("rejection told over " + wire.FORMATS[ser])
    st.nontrivial()


class Talk:
    """Sessions of several formats around one dealer; everything crosses as bytes."""

    def __init__(self, st, formats):
        self.st = st
        self.f = formats
        self.d = Dealer()
        self.s = [WAMPSession(wire.SER[f]()) for f in formats]
        self.r = [wire.SER[f]() for f in formats]
        self.next = 1
        self.open = []  # [invocation id, caller, callee, rid, progressive results]
        for n in range(len(formats)):
            self.d.add_session(details(n + 1))
        for n in range(len(formats)):
            got = self.pass_on(n, reg(self.id(), f"p{n}"))
            need(isinstance(got[1], M.Registered), "registration answered with {}", got)

    def id(self):
        self.next += 1
        return self.next

    def pass_on(self, n, m):
        """Session n sends m; returns (recipient index, what the recipient's session hands over, the bytes)."""
        data = self.s[n].send_message(m)
        out = self.d.receive_message(n + 1, self.r[n].deserialize(data))
        k = out.recipient - 1
        b = self.r[k].serialize(out.message)
        return k, self.s[k].receive(b), b

    def do_call(self, n, k, recv, args, kwargs):
        n, k = n % len(self.s), k % len(self.s)
        rid = self.id()
        to, inv, _ = self.pass_on(n, call(rid, f"p{k}", args, kwargs, {"receive_progress": True} if recv else {}))
        need(to == k and isinstance(inv, M.Invocation), "call of p{} handed {} to session {}", k, inv, to)
        self.open.append([inv.request_id, n, k, rid, recv, 0])

    def do_result(self, i, progress):
        if not self.open:
            return
        o = self.open[i % len(self.open)]
        progress = progress and o[4]
        self.pass_on(o[2], yield_(o[0], [1], None, {"progress": True} if progress else {}))
        if not progress:
            self.open.remove(o)
        else:
            o[5] += 1

    def do_fail(self, i, uri, args, kwargs, det):
        if not self.open:
            return
        o = self.open.pop(i % len(self.open))
        f1, f2 = wire.FORMATS[self.f[o[2]]], wire.FORMATS[self.f[o[1]]]
        what = f"error {uri!r} {short(args, 150)} {short(kwargs, 150)} {short(det, 150)} from a {f1} callee to a {f2} caller"
        r = attempt(self.pass_on, o[2], error(INVOCATION, o[0], uri, copy.deepcopy(args), copy.deepcopy(kwargs), copy.deepcopy(det)))
        need(r.ok, "{}: {}", what, r)
        to, e, _ = r.val
        need(to == o[1] and isinstance(e, M.Error), "{}: session {} got {}", what, to, e)
        need((e.message_type, e.request_id) == (CALL, o[3]), "{}: told for {} {}, the call was {}", what, e.message_type, e.request_id, o[3])
        need(e.uri == uri, "{}: told as {}", what, repr(e.uri))
        need(gen.same_payload(e.args, e.kwargs, args, kwargs), "{}: told with {} {}", what, e.args, e.kwargs)
        need(gen.none_or_same(e.details, det), "{}: told with details {}", what, e.details)
        check_text(what, e, uri, args, kwargs)
        self.st.ev("error told over " + f2)
        self.st.ev("error over two formats", f1 != f2)
        self.st.ev("error after progressive results", o[5] > 0)
        self.st.ev("error while other calls are open", bool(self.open))
        self.st.ev("error to a caller that is the callee", o[1] == o[2])
        self.st.ev("error without arguments", not args and not kwargs)
        self.st.nontrivial()

    def do_router(self, n, kind):
        """Errors the dealer itself gives."""
        n %= len(self.s)
        rid = self.id()
        if kind:
            m, code, uri = call(rid, "nobody", [1], None), 48, "wamp.error.no_such_procedure"
        else:
            m, code, uri = reg(rid, "p0"), 64, "wamp.error.procedure_already_exists"
        to, e, _ = self.pass_on(n, m)
        need(to == n and isinstance(e, M.Error) and (e.message_type, e.request_id, e.uri) == (code, rid, uri), "the dealer's {} arrived as {}", uri, e.marshal())
        self.st.ev("router error told")


def run(ops, st):
    talk = None
    for op in ops:
        if op[0] == "talk":
            talk = Talk(st, op[1])
        elif op[0] in ("abort", "reject"):
            globals()["do_" + op[0]](st, *op[1:])
        elif talk:
            getattr(talk, "do_" + op[0])(*op[1:])


def reason(rng):
    return rng.choice(["wamp.error.no_such_realm", "wamp.error.authentication_failed", "wamp.error.authorization_failed", "wamp.close.normal", FAILED + "x"]) if rng.random() < 0.4 else gen.uri(rng) if rng.random() < 0.6 else gen.string(rng)


def gen_refusal(rng, i, tier):
    ser = rng.randrange(3)
    method = rng.choice(A.METHODS)
    if rng.random() < 0.5:
        args, kwargs = gen.opt_args(rng, binary=ser > 0)
        return [("abort", ser, method, rng.random() < 0.5, gen.free_dict(rng, ser > 0), reason(rng), args, kwargs, rng.random() < 0.2)]
    return [("reject", ser, method, rng.randrange(50), gen.array(rng, 2, binary=ser > 0), rng.random() < 0.3)]


def gen_talk(rng, i, tier):
    formats = [rng.randrange(3) for _ in range(rng.randint(1, 4))]
    binary = 0 not in formats
    ops = [("talk", formats)]
    for _ in range(rng.randint(2, 20)):
        k = pick(rng, [(10, "call"), (4, "result"), (8, "fail"), (1, "router")])
        if k == "call":
            ops.append((k, rng.randrange(4), rng.randrange(4), rng.random() < 0.4, *gen.opt_args(rng, binary)))
        elif k == "result":
            ops.append((k, rng.randrange(9), rng.random() < 0.7))
        elif k == "fail":
            ops.append((k, rng.randrange(9), reason(rng), *gen.opt_args(rng, binary), gen.free_dict(rng, binary)))
        else:
            ops.append((k, rng.randrange(4), rng.randrange(2)))
    return ops


WORKLOADS = [
    FnWorkload("refusals", 8000, 300000, gen_refusal, run),
    FnWorkload("errors", 3000, 120000, gen_talk, run),
]

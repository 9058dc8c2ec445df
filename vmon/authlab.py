"""Handshake lab: accounts, a recording server authenticator, proofs (right and wrong ones) computed without the
library, and AcceptorRun, which drives several router-side handshakes and shows every step to a monitor."""
import base64
import copy
import functools
import hashlib
import hmac as std_hmac
import unicodedata

import nacl.bindings as sodium

from vmon import gen, wire
from vmon.core import short
from vmon.rig import M, attempt, need, pick
from wampproto import auth
from wampproto.acceptor import Acceptor
from wampproto.auth.auth import WAMPCRASaltedResponse

# ---------------------------------------------------------------- independent crypto


def own_hmac(key, msg):
    """RFC 2104 over SHA-256."""
    if len(key) > 64:
        key = hashlib.sha256(key).digest()
    key = key.ljust(64, b"\0")
    inner = hashlib.sha256(bytes(b ^ 0x36 for b in key) + msg).digest()
    return hashlib.sha256(bytes(b ^ 0x5C for b in key) + inner).digest()


@functools.lru_cache(4096)
def own_pbkdf2(secret, salt, iterations, keylen):
    """RFC 8018 with HMAC-SHA-256 as the function."""
    if len(secret) > 64:
        secret = hashlib.sha256(secret).digest()
    k = secret.ljust(64, b"\0")
    ik, ok = hashlib.sha256(bytes(b ^ 0x36 for b in k)), hashlib.sha256(bytes(b ^ 0x5C for b in k))

    def prf(m):
        i = ik.copy()
        i.update(m)
        o = ok.copy()
        o.update(i.digest())
        return o.digest()

    out = b""
    block = 1
    while len(out) < keylen:
        u = prf(salt + block.to_bytes(4, "big"))
        t = int.from_bytes(u, "big")
        for _ in range(iterations - 1):
            u = prf(u)
            t ^= int.from_bytes(u, "big")
        out += t.to_bytes(32, "big")
        block += 1
    return out[:keylen]


def cra_key(account):
    """What both ends use as the HMAC key of an account."""
    if account.get("salt") is None:
        return account["secret"].encode()
    return base64.b64encode(
        own_pbkdf2(account["secret"].encode(), account["salt"].encode(), account["iterations"], account["keylen"])
    )


def cra_proof(key, challenge):
    return base64.b64encode(own_hmac(key, challenge.encode())).decode()


class Key:
    def __init__(self, seed):
        self.seed = seed
        self.public, self.secret = sodium.crypto_sign_seed_keypair(seed)

    @property
    def private_hex(self):
        return self.seed.hex()

    @property
    def public_hex(self):
        return self.public.hex()

    def sign(self, msg):
        return sodium.crypto_sign(msg, self.secret)[:64]


KEYS = [Key(hashlib.sha256(b"key %d" % i).digest()) for i in range(6)]


def signed_message(blob, public):
    """The message a signed blob carries, or None."""
    try:
        return sodium.crypto_sign_open(blob, public)
    except Exception:
        return None


def unhex(s):
    try:
        return bytes.fromhex(s) if s.isascii() and not any(c.isspace() for c in s) else None
    except ValueError:
        return None


def right_cryptosign(signature, public_hex, challenge_hex):
    pub, ch, blob = unhex(public_hex), unhex(challenge_hex), unhex(signature)
    return None not in (pub, ch, blob) and len(pub) == 32 and signed_message(blob, pub) == ch


def right_cra(signature, key, challenge):
    return signature == base64.b64encode(own_hmac(key, challenge.encode())).decode()


# ---------------------------------------------------------------- server side


class Rejection(Exception):
    pass


class Server(auth.IServerAuthenticator):
    """Accounts are {(method, authid): account}; an account may say outcome = ok / reject / wrong / none."""

    def __init__(self, accounts):
        self.accounts = accounts
        self.calls = []

    def methods(self):
        return ["anonymous", "ticket", "wampcra", "cryptosign"]

    def authenticate(self, request):
        rec = {
            "method": request.method, "realm": request.realm, "authid": request.authid,
            "extra": copy.deepcopy(request.auth_extra), "ticket": getattr(request, "ticket", None),
            "pubkey": getattr(request, "public_key", None), "response": None, "kind": type(request).__name__,
        }
        self.calls.append(rec)
        acc = self.accounts.get((request.method, request.authid))
        if acc is None:
            raise Rejection("no such account")
        out = acc.get("outcome", "ok")
        if out == "reject":
            raise acc.get("exc", Rejection("rejected", 7))
        if out == "none":
            return None
        if rec["method"] == "ticket" and rec["ticket"] != acc["ticket"]:
            raise Rejection("wrong ticket")
        if rec["method"] == "cryptosign" and rec["pubkey"] != acc["key"].public_hex:
            raise Rejection("unknown key")
        granted, role = acc["granted"], acc["role"]
        if rec["method"] != "wampcra" or out == "wrong":
            rec["response"] = auth.Response(granted, role)
        elif acc.get("salt") is None:
            rec["response"] = auth.WAMPCRAResponse(granted, role, acc["secret"])
        else:
            rec["response"] = WAMPCRASaltedResponse(
                granted, role, cra_key(acc).decode(), acc["salt"], acc["iterations"], acc["keylen"]
            )
        return rec["response"]


NAMES = ["alice", "bob", "", "ålice", "alice ", "Alice", "ALICE", " alice", "bob\n", "alıce", "a\u030alice"]
SECRETS = ["secret", "secret2", "", "pässword", "s" * 70, "x" * 200, "a\x00b", "日本", "secret\n", " secret", "Secret ", "e\u0301", "secret\x00", "c2VjcmV0"]


def gen_account(rng, method, authid, n):
    a = {"method": method, "authid": authid, "granted": authid if authid is not None and rng.random() < 0.6 else rng.choice(NAMES + ["granted%d" % n]),
         "role": rng.choice(["anonymous", "user", "admin", "", "rôle"]), "outcome": pick(rng, [(86, "ok"), (8, "reject"), (3, "wrong"), (3, "none")])}
    if a["outcome"] == "reject":
        a["exc"] = rng.choice([Rejection("no"), ValueError(), KeyError("k"), RuntimeError("a", 1, None), PermissionError("p"), Exception()])
    if method == "ticket":
        a["ticket"] = rng.choice(["ticket", "ticket2", "", "tïcket", "t" * 300, "ticket "])
    elif method == "wampcra":
        a["secret"] = rng.choice(SECRETS)
        if rng.random() < 0.4:
            a.update(salt=rng.choice(["salt", "", "sält", "s" * 100]), iterations=rng.choice([1, 2, 10, 100]), keylen=rng.choice([1, 16, 31, 32, 33, 64, 65]))
    elif method == "cryptosign":
        a["key"] = rng.choice(KEYS[:4])
    return a


METHODS = ["anonymous", "ticket", "wampcra", "cryptosign"]


def gen_accounts(rng):
    out = []
    for n in range(rng.randint(1, 6)):
        m = rng.choice(METHODS)
        out.append(gen_account(rng, m, rng.choice(NAMES[:5] if rng.random() < 0.5 else NAMES + [None]), n))
    return out


# ---------------------------------------------------------------- proofs


def flip(s, k):
    """Changes one character to another of the same alphabet."""
    if not s:
        return "A"
    k %= len(s)
    c = s[k]
    for alt in ("0", "1", "A", "b", "z"):
        if alt.lower() != c.lower():
            return s[:k] + alt + s[k + 1:]
    return s


B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
CRA_KINDS = ["right", "right", "right", "right", "other-challenge", "other-key", "empty", "truncated", "extended", "flipped",
             "secret", "challenge", "hex", "plain-secret", "zero", "sha512", "prefix-bytes", "swapcase", "garbage", "nonascii",
             "stripped", "newline", "nonce-only", "own-challenge", "raw-key", "trailing", "junk-inside", "padding-bits", "more-padding", "near-key", "near-key"]
SIGN_KINDS = ["right", "right", "right", "right", "other-challenge", "other-key", "other-key-mixed", "empty", "sig-only", "truncated",
              "truncated-challenge", "extended", "signed-extended", "flipped-sig", "flipped-challenge", "attacker-message",
              "empty-message", "ascii-challenge", "swapped", "garbage", "odd", "nonascii", "pubkey", "challenge", "reordered-other"]
TICKET_KINDS = ["right", "right", "right", "right", "empty", "truncated", "extended", "flipped", "other", "case", "space", "none-text"]


def near_secret(s, k):
    """Another secret that something careless may take for s."""
    near = [s.strip(), s + "\n", s.lower(), s.upper(), unicodedata.normalize("NFC", s), unicodedata.normalize("NFD", s),
            s.split("\x00")[0], s[:8], s[:64], s[:72], s.encode("ascii", "ignore").decode(), s + " ", s.rstrip("\n"), s.lstrip()]
    near = [x for x in near if x != s]
    return near[k % len(near)]


def make_cra(kind, k, account, challenge, others):
    key = cra_key(account)
    right = cra_proof(key, challenge)
    other = others[k % len(others)] if others else challenge + " "
    t = {
        "right": lambda: right,
        "other-challenge": lambda: cra_proof(key, other),
        "own-challenge": lambda: cra_proof(key, "{}"),
        "nonce-only": lambda: cra_proof(key, challenge[10:42]),
        "other-key": lambda: cra_proof(SECRETS[k % len(SECRETS)].encode() + b"!", challenge),
        "empty": lambda: "",
        "truncated": lambda: right[: (k % 11) * 4],
        "prefix-bytes": lambda: base64.b64encode(own_hmac(key, challenge.encode())[: 1 + k % 31]).decode(),
        "extended": lambda: base64.b64encode(own_hmac(key, challenge.encode()) + b"\0" * (1 + k % 3)).decode(),
        "flipped": lambda: flip(right, k % 42),
        "secret": lambda: account["secret"],
        "challenge": lambda: challenge,
        "hex": lambda: own_hmac(key, challenge.encode()).hex(),
        "plain-secret": lambda: cra_proof(account["secret"].encode() + (b"" if account.get("salt") is not None else b"x"), challenge),
        "raw-key": lambda: cra_proof(base64.b64decode(key) if account.get("salt") is not None else key + b"x", challenge),
        "zero": lambda: base64.b64encode(bytes(32)).decode(),
        "sha512": lambda: base64.b64encode(std_hmac.digest(key, challenge.encode(), "sha512")).decode(),
        "swapcase": lambda: right.swapcase(),
        "garbage": lambda: "!!%d" % k,
        "nonascii": lambda: "é" + right,
        "stripped": lambda: right.rstrip("="),
        "newline": lambda: right + "\n",
        "trailing": lambda: right + ["AAAA", "=", "x", right][k % 4],
        "junk-inside": lambda: right[:k % 44] + ["!", " ", "-", "\n"][k % 4] + right[k % 44:],
        "padding-bits": lambda: right[:42] + B64[B64.index(right[42]) ^ (1 + k % 3)] + "=",
        "near-key": lambda: cra_proof(cra_key(dict(account, secret=near_secret(account["secret"], k))), challenge),
        "more-padding": lambda: right + "=" * (1 + k % 3),
    }
    return t[kind]()


def make_sign(kind, k, key, challenge, others):
    ch = bytes.fromhex(challenge)
    foreign = KEYS[4 + k % 2]
    other = bytes.fromhex(others[k % len(others)]) if others else hashlib.sha256(b"%d" % k).digest()
    right = (key.sign(ch) + ch).hex()
    t = {
        "right": lambda: right,
        "other-challenge": lambda: (key.sign(other) + other).hex(),
        "reordered-other": lambda: (key.sign(other) + ch).hex(),
        "other-key": lambda: (foreign.sign(ch) + ch).hex(),
        "other-key-mixed": lambda: (foreign.sign(ch) + foreign.public).hex(),
        "empty": lambda: "",
        "sig-only": lambda: key.sign(ch).hex(),
        "truncated": lambda: right[: 2 * (k % 96)],
        "truncated-challenge": lambda: (key.sign(ch[: k % 32]) + ch[: k % 32]).hex(),
        "extended": lambda: right + "00",
        "signed-extended": lambda: (key.sign(ch + b"\0") + ch + b"\0").hex(),
        "flipped-sig": lambda: flip(right, k % 128),
        "flipped-challenge": lambda: flip(right, 128 + k % 64),
        "attacker-message": lambda: (key.sign(b"pay mallory") + b"pay mallory").hex(),
        "empty-message": lambda: key.sign(b"").hex(),
        "ascii-challenge": lambda: (key.sign(challenge.encode()) + challenge.encode()).hex(),
        "swapped": lambda: (ch + key.sign(ch)).hex(),
        "garbage": lambda: "zz%d" % k,
        "odd": lambda: right[:-1],
        "nonascii": lambda: right[:-1] + "é",
        "pubkey": lambda: key.public_hex,
        "challenge": lambda: challenge,
    }
    return t[kind]()


def make_ticket(kind, k, ticket, others):
    t = {
        "right": lambda: ticket,
        "empty": lambda: "",
        "truncated": lambda: ticket[:-1],
        "extended": lambda: ticket + "x",
        "flipped": lambda: flip(ticket, k),
        "other": lambda: others[k % len(others)] if others else "ticket3",
        "case": lambda: ticket.swapcase(),
        "space": lambda: " " + ticket,
        "none-text": lambda: "None",
    }
    return t[kind]()


# ---------------------------------------------------------------- the router side

OTHER_WIRES = [
    [2, 9, {"roles": {"broker": {}}, "authid": "x", "authrole": "y", "authmethod": "ticket"}],
    [4, "ticket", {}], [4, "wampcra", {"challenge": "{}"}], [6, {}, "wamp.close.close_realm"], [8, 48, 1, {}, "wamp.error.x"],
    [16, 1, {}, "t"], [17, 1, 1], [32, 1, {}, "t"], [33, 1, 1], [34, 1, 1], [35, 1], [36, 1, 1, {}], [48, 1, {}, "p"],
    [49, 1, {}], [50, 1, {}], [64, 1, {}, "p"], [65, 1, 1], [66, 1, 1], [67, 1], [68, 1, 1, {}], [69, 1, {}], [70, 1, {}],
]
ABORT_WIRES = [[3, {}, "wamp.error.x"], [3, {"message": "m"}, "wamp.close.normal", ["a"], {"k": 1}]] + [
    [3, {}, r] for r in gen.ERROR_URIS] + [[3, {"progress": True, "authmethod": "ticket", "roles": {}}, "wamp.error.no_such_realm", [], {}]]
JUNK = [b"", b"\xff\xff", "[", "[]", "[1]", "nonsense", "{}", "null", '[1,"r",{}]', '["1","r",{"roles":{"caller":{}}}]', '[5,"x"]',
        '[5,1,{}]', '[999,1]', b"\x80", b"\xa0", b"\x93\x01\xa1r\x80", b"\x83\x01\x61r\xa0"]


class Handshake:
    def __init__(self, run, n, ser, server):
        self.n, self.ser = n, ser
        self.acceptor = Acceptor(wire.SER[ser](), server) if server is not None else Acceptor(wire.SER[ser]())
        self.phase = "none"  # none, challenged, welcomed, aborted: from what was seen
        self.hello = None  # wire of the HELLO that was answered
        self.account = None
        self.method = None
        self.challenge = None  # text to be proved, if any
        self.approval = None  # the authenticator call behind the answer to HELLO
        self.welcome = None

    def __repr__(self):
        return f"handshake {self.n} ({self.phase})"


class Step:
    """One message given to the acceptor and what came of it."""

    def __init__(self, h, sent, before, res, answer, final, calls, how):
        self.h, self.sent, self.before, self.res = h, sent, before, res
        self.answer, self.final, self.calls, self.how = answer, final, calls, how
        self.refused = not res.ok

    @property
    def kind(self):
        return type(self.answer).__name__.lower() if self.answer is not None else "refused" if self.refused else "nothing"

    def __repr__(self):
        out = short(self.answer.marshal(), 300) if self.answer is not None else repr(self.res)
        return f"{self.h} given {short(self.sent, 300)} -> {self.kind} {out}"


class AcceptorRun:
    def __init__(self, st, accounts, use_server=True):
        self.st = st
        self.accounts = accounts
        table = {}
        for a in accounts:
            table.setdefault((a["method"], a["authid"]), a)
        self.server = Server(table) if use_server else None
        self.table = table
        self.hs = []
        self.old_proofs = []

    # overridden by monitors
    def on_step(self, s):
        pass

    def finish(self):
        pass

    def play(self, ops):
        for op in ops:
            getattr(self, "do_" + op[0])(*op[1:])
        self.finish()

    def do_open(self, ser):
        if len(self.hs) < 8:
            self.hs.append(Handshake(self, len(self.hs), ser, self.server))

    def pick_hs(self, k):
        if not self.hs:
            self.do_open(0)
        return self.hs[k % len(self.hs)]

    def give(self, h, sent, how):
        """sent: a wire list, or str / bytes data."""
        before = h.phase
        mark = len(self.server.calls) if self.server else 0
        raw = not isinstance(sent, list)
        final = None
        if raw:
            res = attempt(h.acceptor.receive, sent)
        elif how == "bytes":
            res = attempt(h.acceptor.receive, wire.DUMPS[h.ser](sent))
        else:
            res = attempt(h.acceptor.receive_message, wire.parse(copy.deepcopy(sent)))
        answer = None
        if res.ok:
            v = res.val
            if raw or how == "bytes":
                need(isinstance(v, tuple) and len(v) == 2, "receive() of {} returned {}", h, repr(v))
                v, final = v
                if v:
                    v = wire.parse(wire.LOADS[h.ser](v))
            answer = v or None
        calls = self.server.calls[mark:] if self.server else []
        s = Step(h, sent, before, res, answer, final, calls, how)
        self.on_step(s)
        self.track(s)
        return s

    def track(self, s):
        h, a = s.h, s.answer
        if isinstance(a, M.Welcome):
            h.phase, h.welcome = "welcomed", a
            if s.before == "none":
                h.hello = s.sent
        elif isinstance(a, M.Abort):
            h.phase = "aborted"
        elif isinstance(a, M.Challenge):
            h.phase, h.hello, h.method = "challenged", s.sent, a.authmethod
            h.challenge = a.extra.get("challenge")
            h.approval = s.calls[-1] if s.calls else None
        elif isinstance(s.sent, list) and s.sent[0] == 3 and s.before in ("none", "challenged"):
            h.phase = "aborted"

    def do_hello(self, k, how, acc, methods, extra, realm, more=0):
        h = self.pick_hs(k)
        a = self.accounts[acc % len(self.accounts)]
        det = {"roles": {"caller": {"features": {}}}, **copy.deepcopy(HELLO_MORE[more % len(HELLO_MORE)])}
        if a["authid"] is not None:
            det["authid"] = a["authid"]
        m = [a["method"]] if methods == "own" else methods
        if m is not None:
            det["authmethods"] = m
        ex = {"note": realm, **copy.deepcopy(EXTRA_MORE[more // len(HELLO_MORE) % len(EXTRA_MORE)])}
        if a["method"] == "cryptosign":
            ex["pubkey"] = a["key"].public_hex
        if extra == "none":
            ex = None
        elif extra == "nokey":
            ex.pop("pubkey", None)
        elif extra == "otherkey":
            ex["pubkey"] = KEYS[5].public_hex
        elif extra == "badkey":
            ex["pubkey"] = "zz"
        elif extra == "empty":
            ex = {}
        if ex is not None:
            det["authextra"] = ex
        s = self.give(h, [1, realm, det], how)
        if isinstance(s.answer, M.Challenge):
            h.account = self.table[(a["method"], a["authid"])] if a["method"] == s.answer.authmethod else None
            if h.account is None:
                h.account = self.table.get((s.answer.authmethod, a["authid"]))

    def do_auth(self, k, how, kind, x):
        """An AUTHENTICATE whose proof suits (or fails) what this handshake asked for."""
        h = self.pick_hs(k)
        method = h.method or METHODS[1 + x % 3]
        acc = h.account or next((a for a in self.accounts if a["method"] == method), None)
        others = [o.challenge for o in self.hs if o is not h and o.challenge and o.method == method]
        if acc is None or acc["method"] != method:
            sig = "proof"
        elif method == "ticket":
            sig = make_ticket(TICKET_KINDS[kind % len(TICKET_KINDS)], x, acc["ticket"], [a["ticket"] for a in self.accounts if a["method"] == "ticket"])
        elif method == "wampcra":
            name = CRA_KINDS[kind % len(CRA_KINDS)]
            sig = make_cra(name, x, acc, h.challenge or "{}", others)
            self.st.ev("proof wampcra " + name)
        else:
            name = SIGN_KINDS[kind % len(SIGN_KINDS)]
            sig = make_sign(name, x, acc["key"], h.challenge or "00" * 32, others)
            self.st.ev("proof cryptosign " + name)
        self.old_proofs.append(sig)
        return self.give(h, [5, sig, auth_extra(x, h, acc)], how)

    def do_replay(self, k, how, x):
        """A proof used earlier, in this or another handshake."""
        h = self.pick_hs(k)
        if self.old_proofs:
            self.st.ev("proofs replayed")
            self.give(h, [5, self.old_proofs[x % len(self.old_proofs)], auth_extra(x, h, h.account)], how)

    def do_abort(self, k, how, x):
        self.give(self.pick_hs(k), ABORT_WIRES[x % len(ABORT_WIRES)], how)

    def do_other(self, k, how, x):
        self.give(self.pick_hs(k), copy.deepcopy(OTHER_WIRES[x % len(OTHER_WIRES)]), how)

    def do_junk(self, k, x):
        self.give(self.pick_hs(k), JUNK[x % len(JUNK)], "bytes")


def auth_extra(x, h, acc):
    """The extra of an AUTHENTICATE: nothing in it decides anything, however much it looks as if it should."""
    acc = acc or {}
    foreign = KEYS[4 + x % 2]
    n = (x // 2) % 16
    if n < 6:
        return {}
    return [
        {"pubkey": foreign.public_hex}, {"pubkey": foreign.public_hex, "authid": "admin", "authrole": "admin", "authmethod": "anonymous"},
        {"challenge": "{}", "secret": "secret", "ticket": "ticket"}, {"challenge": "00" * 32, "public_key": foreign.public_hex, "key": foreign.public_hex},
        {"salt": "", "iterations": 1, "keylen": 32}, {"signature": "", "verified": True, "ok": True, "authenticated": True},
        {"session": 1, "realm": "other", "authid": acc.get("granted"), "roles": {"dealer": {}}}, {"authextra": {"pubkey": foreign.public_hex}},
        {"pubkey": None, "challenge": None, "ticket": None}, {"ticket": acc.get("ticket", "ticket"), "secret": acc.get("secret", "secret")},
    ][n - 6]


HELLO_MORE = [
    {}, {}, {}, {}, {}, {}, {"authrole": "admin"}, {"authid_granted": "admin", "authprovider": "static"}, {"authmethod": "anonymous"},
    {"agent": "x", "resumable": True, "session": 7}, {"authrole": "admin", "authmethod": "ticket", "ticket": "ticket", "secret": "secret"},
    {"authenticated": True, "signature": "", "challenge": "{}"},
]
EXTRA_MORE = [
    {}, {}, {}, {}, {}, {}, {"challenge": "00" * 32}, {"secret": "secret", "ticket": "ticket"}, {"authid": "admin", "authrole": "admin"},
    {"signature": "", "verified": True}, {"salt": "", "iterations": 1, "keylen": 32}, {"trustroot": None, "channel_binding": None},
    {"public_key": KEYS[4].public_hex, "pubkeys": [KEYS[5].public_hex], "key": KEYS[5].public_hex},
]


REALMS = ["realm1"] * 6 + ["r", "", "réalm", "Realm1", "REALM", " realm1", "realm1 ", "re alm", "realm1\n", "\u0130", "e\u0301", "x" * 300, "com.app.realm", "0"]


def gen_ops(rng, attack=True):
    ops = []
    nh = rng.randint(1, 4)
    for _ in range(nh):
        ops.append(("open", rng.randrange(3)))
    how = lambda: "bytes" if rng.random() < 0.7 else "message"
    hello = lambda k: ("hello", k, how(), rng.randrange(6), pick(rng, [(80, "own"), (4, None), (3, []), (3, ["anonymous"]), (2, ["nosuch"]),
                       (2, ["ticket"]), (2, ["wampcra"]), (2, ["cryptosign"]), (2, ["ticket", "anonymous"]), (2, ["nosuch", "anonymous"])]),
                       pick(rng, [(80, "full"), (4, "none"), (4, "nokey"), (4, "otherkey"), (2, "badkey"), (3, "empty")]), rng.choice(REALMS),
                       rng.randrange(len(HELLO_MORE) * len(EXTRA_MORE)))
    kind = lambda: rng.randrange(100)
    if rng.random() < 0.75:
        for k in range(nh):
            ops.append(hello(k))
    for _ in range(rng.randint(2, 14)):
        k = rng.randrange(nh)
        ops.append(pick(rng, [
            (40, ("auth", k, how(), kind(), rng.randrange(200))), (20, hello(k)), (12, ("replay", k, how(), rng.randrange(20))),
            (3, ("abort", k, how(), rng.randrange(2))), (6, ("other", k, how(), rng.randrange(50))), (4, ("junk", k, rng.randrange(50))),
            (5, ("open", rng.randrange(3)))]))
    return ops

"""No WELCOME without a valid proof for this very handshake."""
from vmon import authlab as A, gen
from vmon.core import FnWorkload
from vmon.rig import M, need

RULE = (
    "a case is a set of accounts and up to 8 interleaved router-side handshakes fed with right, wrong, replayed and foreign "
    "proofs; non-trivial: at least one proof was judged"
)
NEEDS = ["welcome after anonymous", "welcome after ticket", "welcome after wampcra", "welcome after cryptosign",
         "wrong proofs refused: ticket", "wrong proofs refused: wampcra", "wrong proofs refused: cryptosign",
         "welcome after salted wampcra", "proofs replayed", "rejections", "wrong response types", "grants compared",
         "right proofs for another handshake", "welcome of a client that names no authid"]
ASSUMPTIONS = ["libsodium's Ed25519 verification and hashlib's SHA-256 are right",
               "the secret of a salted WAMP-CRA response is the derived key"]


class Mon(A.AcceptorRun):
    def on_step(self, s):
        st, h = self.st, s.h
        if isinstance(s.sent, list) and s.sent[0] == 5 and s.before == "challenged" and h.method:
            st.nontrivial()
            if not isinstance(s.answer, M.Welcome):
                st.ev("wrong proofs refused: " + h.method)
                if any(self.verdict(o, s.sent[1]) == "yes" for o in self.hs if o is not h and o.method == h.method):
                    st.ev("right proofs for another handshake")
        st.ev("rejections", any(c["response"] is None for c in s.calls))
        st.ev("wrong response types", any(c["method"] == "wampcra" and c["response"] is not None and not hasattr(c["response"], "secret") for c in s.calls))
        if not isinstance(s.answer, M.Welcome):
            return
        grant = self.justify(s)
        about = next(c for c in reversed(self.server.calls) if c["response"] is grant)
        det = (s.sent if s.before == "none" else h.hello)[2]
        need(about["authid"] == det.get("authid") and gen.same(about["extra"], det.get("authextra")),
             "{}: the authenticator was asked about {} with {}, the client is {} with {}", s, about["authid"], about["extra"],
             det.get("authid"), det.get("authextra"))
        st.ev("welcome of a client that names no authid", det.get("authid") is None)
        st.ev("grants compared")
        need(s.answer.authid == grant.authid and s.answer.authrole == grant.authrole,
             "{}: the authenticator granted {}", s, (grant.authid, grant.authrole))
        d = h.acceptor.get_session_details()
        need((d.authid, d.authrole) == (grant.authid, grant.authrole), "{}: session details say {} but the authenticator granted {}",
             s, (d.authid, d.authrole), (grant.authid, grant.authrole))

    def verdict(self, h, sig):
        if h.method == "cryptosign" and h.hello:
            ok = A.right_cryptosign(sig, (h.hello[2].get("authextra") or {}).get("pubkey") or "", h.challenge)
            return "yes" if ok else "no"
        if h.method == "wampcra" and h.approval and hasattr(h.approval["response"], "secret"):
            return "yes" if A.right_cra(sig, h.approval["response"].secret.encode(), h.challenge) else "no"
        return "no"

    def justify(self, s):
        """The response that entitles to this WELCOME; a violation if there is none."""
        h, st = s.h, self.st
        ok_calls = [c for c in s.calls if c["response"] is not None]
        if isinstance(s.sent, list) and s.sent[0] == 1:
            need(s.before == "none", "{}: welcomed by a second HELLO", s)
            need(ok_calls and ok_calls[-1]["method"] == "anonymous" and ok_calls[-1]["authid"] == s.sent[2].get("authid")
                 and ok_calls[-1]["realm"] == s.sent[1],
                 "{}: welcomed at once, but the authenticator approved {}", s, s.calls)
            st.ev("welcome after anonymous")
            return ok_calls[-1]["response"]
        need(isinstance(s.sent, list) and s.sent[0] == 5, "{}: welcomed by this message", s)
        need(s.before == "challenged", "{}: welcomed without an open challenge", s)
        sig = s.sent[1]
        if h.method == "ticket":
            need(ok_calls and ok_calls[-1]["ticket"] == sig and ok_calls[-1]["authid"] == h.hello[2].get("authid")
                 and ok_calls[-1]["realm"] == h.hello[1] and ok_calls[-1]["method"] == "ticket",
                 "{}: welcomed, but the authenticator saw and approved {}", s, s.calls)
            st.ev("welcome after ticket")
            return ok_calls[-1]["response"]
        need(h.method in ("wampcra", "cryptosign"), "{}: welcomed after a challenge for method {}", s, h.method)
        need(h.approval is not None and h.approval["response"] is not None and h.approval["method"] == h.method
             and h.approval["authid"] == h.hello[2].get("authid") and h.approval["realm"] == h.hello[1],
             "{}: welcomed, but the authenticator never approved this client (calls at its HELLO: {})", s, h.approval)
        if h.method == "cryptosign":
            need(h.approval["pubkey"] == h.hello[2]["authextra"]["pubkey"],
                 "{}: the authenticator approved key {}, the client announced {}", s, h.approval["pubkey"], h.hello[2]["authextra"]["pubkey"])
        v = self.verdict(h, sig)
        need(v != "no", "{}: welcomed with a wrong proof (challenge {}, client {})", s, h.challenge, h.hello)
        st.ev("welcome after " + h.method)
        st.ev("welcome after salted wampcra", h.method == "wampcra" and hasattr(h.approval["response"], "iterations"))
        return h.approval["response"]


def gen_case(rng, i, tier):
    return [("accounts", A.gen_accounts(rng))] + A.gen_ops(rng)


def run(ops, st):
    if ops and ops[0][0] == "accounts":
        Mon(st, ops[0][1]).play(ops[1:])


WORKLOADS = [FnWorkload("attacks", 12000, 400000, gen_case, run)]

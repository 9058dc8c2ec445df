"""Authentication proofs are computed and judged exactly as the protocol defines."""
import base64

import nacl.signing

from vmon import authlab as A, gen, wire
from vmon.core import FnWorkload
from vmon.rig import M, attempt, need, pick
from wampproto import auth
from wampproto.auth import wampcra as cra_module

RULE = (
    "a case is one credential and challenge with the proof the library computes for it and a set of right and wrong proofs it "
    "judges; every case that compared a proof or a verdict is non-trivial"
)
NEEDS = ["tickets answered", "wampcra proofs compared", "salted wampcra proofs compared", "cryptosign proofs compared", "derived keys compared",
         "wampcra verdicts: right", "wampcra verdicts: wrong", "cryptosign verdicts: right", "cryptosign verdicts: wrong",
         "malformed signatures judged", "cryptosign verdicts for a given challenge", "every position altered", "keys of a wrong length", "upper-case hexadecimal challenges", "large iteration counts compared"]
ASSUMPTIONS = ["libsodium's Ed25519 and hashlib's SHA-256 are right; HMAC and PBKDF2 are computed here from SHA-256"]
GARBAGE = ["", " ", "=", "====", "A", "AA", "AAA", "A===", "!!!!", "é", "日本語", "\x00", "0", "00", "zz", "0x00", "-1", "a" * 191, "ab" * 31, "ab" * 32,
           "ab" * 63, "ab" * 64, "ab" * 65, "ab" * 96, "00" * 96, "ff" * 96, "\ud800", "AA==AA==", "\n", "ab " * 64, "A" * 43 + "=", "A" * 44, "_-" * 22,
           "None", "true", "٠٠", "ａｂ" * 64]


def run(ops, st):
    for op in ops:
        globals()["do_" + op[0]](st, *op[1:])


def verdict(r, what):
    need(r.ok and isinstance(r.val, bool), "{}: {}", what, r)
    return r.val


def do_ticket(st, ser, ticket, authid, extra):
    a = auth.TicketAuthenticator(authid, ticket, {})
    m = a.authenticate(M.Challenge(M.ChallengeFields("ticket", extra)))
    need(isinstance(m, M.Authenticate) and m.signature == ticket, "ticket {} was answered with {}", ticket, m.marshal())
    need(m.marshal()[:2] == [5, ticket], "ticket {} was answered with {}", ticket, m.marshal())
    st.ev("tickets answered")
    st.nontrivial()


def do_cra(st, secret, challenge, salting, kinds, deep):
    acc = {"secret": secret}
    extra = {"challenge": challenge}
    if salting:
        acc.update(salt=salting[0], iterations=salting[1], keylen=salting[2])
        extra.update(salt=salting[0], iterations=salting[1], keylen=salting[2])
        got = attempt(cra_module.derive_cra_key, salting[0], secret, salting[1], salting[2])
        need(got.ok and got.val == A.cra_key(acc), "the key derived from {} with {} is {}, should be {}", secret, salting, got, A.cra_key(acc))
        st.ev("derived keys compared")
        st.ev("large iteration counts compared", salting[1] >= 4096)
    key = A.cra_key(acc)
    right = A.cra_proof(key, challenge)
    m = auth.WAMPCRAAuthenticator("alice", secret, {}).authenticate(M.Challenge(M.ChallengeFields("wampcra", extra)))
    need(m.signature == right, "secret {}, challenge {}: answered {}, should be {}", secret, extra, m.signature, right)
    need(auth.sign_wampcra_challenge(challenge, key) == right, "signing {} with {} does not give {}", challenge, key, right)
    st.ev("salted wampcra proofs compared" if salting else "wampcra proofs compared")
    st.nontrivial()
    acc.setdefault("salt", None)
    sigs = [A.make_cra(A.CRA_KINDS[k % len(A.CRA_KINDS)], k, acc, challenge, [challenge + "x", "{}", ""]) for k in kinds]
    if deep:
        for k in range(len(right)):
            sigs += [A.flip(right, k), right[:k], right[:k] + right[k + 1:], right[:k] + right[k] + right[k:]]
        st.ev("every position altered")
    for s in [right] + sigs:
        want = A.right_cra(s, key, challenge)
        got = verdict(attempt(auth.verify_wampcra_signature, s, challenge, key), f"judging {s!r} for {challenge!r} under {key!r}")
        need(got == want, "signature {} for challenge {} under key {} was judged {}", s, challenge, key, got)
        st.ev("wampcra verdicts: " + ("right" if want else "wrong"))
    other = key + b"x" if key else b"k"
    if own_differs(key, other, challenge):
        got = verdict(attempt(auth.verify_wampcra_signature, right, challenge, other), "judging under another key")
        need(not got, "a proof under key {} was accepted under key {}", key, other)


def own_differs(a, b, challenge):
    return A.own_hmac(a, challenge.encode()) != A.own_hmac(b, challenge.encode())


def do_sign(st, seed, challenge, kinds, deep):
    key = A.Key(seed)
    ch = bytes.fromhex(challenge)
    right = (key.sign(ch) + ch).hex()
    m = auth.CryptoSignAuthenticator("alice", key.private_hex, {}).authenticate(M.Challenge(M.ChallengeFields("cryptosign", {"challenge": challenge})))
    need(m.signature.lower() == right and m.signature[128:] == challenge, "key {}, challenge {}: answered {}, should be {}", key.private_hex, challenge, m.signature, right)
    own = auth.sign_cryptosign_challenge(challenge, nacl.signing.SigningKey(seed))
    need(own == m.signature, "key {}, challenge {}: signed as {}, should be {}", key.private_hex, challenge, own, right)
    st.ev("cryptosign proofs compared")
    st.nontrivial()
    upper = attempt(auth.verify_cryptosign_signature, right.upper() if kinds[0] % 2 else right, key.public, challenge.upper())
    if upper.ok or not isinstance(upper.exc, TypeError):
        need(verdict(upper, "judging with upper-case hexadecimal digits"), "a right signature for {} was refused because of the case of hexadecimal digits", challenge)
    own = auth.sign_cryptosign_challenge(challenge.upper(), nacl.signing.SigningKey(seed))
    need(own.lower() == right, "key {}, challenge {}: signed as {}, should be {}", key.private_hex, challenge.upper(), own, right)
    st.ev("upper-case hexadecimal challenges")
    sigs = [A.make_sign(A.SIGN_KINDS[k % len(A.SIGN_KINDS)], k, key, challenge, ["00" * 32, "11" * 32]) for k in kinds]
    if deep:
        for k in range(0, len(right)):
            sigs.append(A.flip(right, k))
        sigs += [right[:k] for k in range(0, len(right), 3)]
        sigs += malleable(right)
        st.ev("every position altered")
    for s in [right] + sigs:
        judge_sign(st, s, key, challenge)
    if deep or kinds[0] % 4 == 0:
        wrong_keys(st, right, key, challenge)


def malleable(right):
    """The same signature with s + L: not a valid Ed25519 signature."""
    L = 2**252 + 27742317777372353535851937790883648493
    s = int.from_bytes(bytes.fromhex(right[64:128]), "little") + L
    return [right[:64] + s.to_bytes(32, "little").hex() + right[128:]] if s < 2**256 else []


def judge_sign(st, s, key, challenge):
    blob = A.unhex(s)
    msg = A.signed_message(blob, key.public) if blob is not None and len(blob) >= 64 else None
    got = verdict(attempt(auth.verify_cryptosign_signature, s, key.public), f"judging {s!r} under {key.public_hex}")
    need(got == (msg is not None), "signature {} under key {} was judged {}", s, key.public_hex, got)
    st.ev("cryptosign verdicts: " + ("right" if msg is not None else "wrong"))
    r = attempt(auth.verify_cryptosign_signature, s, key.public, challenge)
    if not r.ok and isinstance(r.exc, TypeError) and "argument" in str(r.exc):
        return  # the function takes no challenge
    got = verdict(r, f"judging {s!r} under {key.public_hex} for {challenge!r}")
    need(got == (msg is not None and msg == bytes.fromhex(challenge)), "signature {} under key {} for challenge {} was judged {}",
         s, key.public_hex, challenge, got)
    st.ev("cryptosign verdicts for a given challenge")


def wrong_keys(st, s, key, challenge):
    """Keys that are no Ed25519 public keys, because of their length: nothing verifies under them."""
    for bad in (key.public + b"\0", key.public + key.public, key.public[:-1], b"", key.public_hex.encode()):
        for extra in ((), (challenge,)):
            r = attempt(auth.verify_cryptosign_signature, s, bad, *extra)
            need(not r.ok or r.val is False, "signature {} was accepted under {}, which is no public key", s, bad)
    st.ev("keys of a wrong length")


def do_garbage(st, s, challenge):
    key = A.KEYS[0]
    judge_sign(st, s, key, "ab" * 32)
    for k in (b"secret", b""):
        got = verdict(attempt(auth.verify_wampcra_signature, s, challenge, k), f"judging {s!r} for {challenge!r}")
        want = A.right_cra(s, k, challenge)
        need(got == want, "signature {} for {} under {} was judged {}", s, challenge, k, got)
    st.ev("malformed signatures judged")


def text(rng):
    return pick(rng, [(3, gen.string(rng, rare=False)), (2, rng.choice(A.SECRETS)), (1, "k" * rng.choice([1, 31, 32, 63, 64, 65, 66, 127, 128, 129]))])


def gen_case(rng, i, tier):
    kind = pick(rng, [(2, "ticket"), (6, "cra"), (5, "sign"), (4, "garbage")])
    deep = rng.random() < 0.03
    if kind == "ticket":
        return [("ticket", 0, text(rng), text(rng), gen.free_dict(rng))]
    if kind == "cra":
        challenge = rng.choice(["{}", "", "x", '{"nonce":"é"}', text(rng), text(rng) * 5])
        salting = None
        if rng.random() < 0.5:
            salting = (text(rng), rng.choice([1, 2, 3, 5, 10, 50]) if rng.random() < 0.95 else rng.choice([1000] * 45 + [4096, 10000, 65537, 100003, 200003]), rng.choice([1, 2, 16, 20, 31, 32, 33, 48, 63, 64, 65, 100]))
        return [("cra", text(rng), challenge, salting, [rng.randrange(1000) for _ in range(6)], deep)]
    if kind == "sign":
        seed = rng.randbytes(32) if rng.random() < 0.95 else rng.choice([bytes(32), b"\xff" * 32])
        n = 32 if rng.random() < 0.8 else rng.choice([0, 1, 16, 31, 33, 64, 100])
        return [("sign", seed, rng.randbytes(n).hex(), [rng.randrange(1000) for _ in range(6)], deep)]
    g = rng.choice(GARBAGE) if rng.random() < 0.6 else gen.string(rng, rare=False) if rng.random() < 0.5 else "".join(
        rng.choice("0123456789abcdefABCDEF+/= gé") for _ in range(rng.choice([1, 2, 44, 128, 192])))
    return [("garbage", g, rng.choice(["{}", "x", ""]))]


WORKLOADS = [FnWorkload("proofs", 12000, 400000, gen_case, run)]

"""Writes /verif/known_findings.json: findings that are reported on every run, and repairs made in /repo."""
import json, os

CBOR = ("holding a text of more than 64 KiB in which a multi-byte character straddles a multiple of 64 KiB does not survive CBOR: "
        "cbor2 5.7.0's C decoder fails (CVE-2025-64076), and the library has no other decoder")
FINDINGS = [
    ("C06", "callee-left-unanswered", "a caller is never told when the callee leaves with its call open: Dealer.remove_session answers nobody"),
    ("C22", "cbor-long-multibyte-text", "a message " + CBOR),
    ("C25", "cbor-long-multibyte-text", "a payload " + CBOR),
    ("C28", "late-chunk", "a further chunk of a progressive call that reaches the router after the call was already over there (answered early, nobody registered, "
     "or its callee left) is treated as a new call: the caller's session refuses the second final answer"),
]
FIXED = [
    ("C09", "e32e0d3", "dealer accepted a CALL from a session that was never attached or had left"),
    ("C06", "d2e2283", "dealer accepted an invocation ERROR from a session that was not invoked"),
    ("C11", "8342ba0", "dealer kept the caller's request id after a call ended with ERROR (C07: reusing the id was mistaken for a continuation)"),
    ("C08", "0134342", "dealer kept pending calls of a session that left, and sent results to it"),
    ("C07", "c765bf3", "a progressive call's later chunks got new invocation ids or a new callee"),
    ("C29", "e03bbf3", "dealer dropped opaque payloads of calls and results"),
    ("C12", "3f84674", "client session forgot a call on a progressive RESULT and refused the rest"),
    ("C13", "6905eec", "client session forgot an invocation on a progressive YIELD and refused the rest"),
    ("C15", "3b8f2f3", "client session recorded a request whose message could not be serialized"),
    ("C15", "5561b16", "client session forgot the pending request when it refused an UNREGISTERED or UNSUBSCRIBED"),
    ("C17", "6f596d6", "acceptor could still welcome after the authenticator had rejected"),
    ("C16", "0929856", "a cryptosign signature over any message was accepted, not only over the issued challenge"),
    ("C21", "c9f02ae", "malformed signatures raised instead of being judged invalid"),
    ("C20", "f575c38", "challenges came from the seedable random module"),
    ("C17", "549565d", "acceptor did not handle ABORT, answered unexpected messages with None, and went on after an abort"),
    ("C17", "42669e2", "a cryptosign HELLO without authextra was refused by an AttributeError (refused either way, so no check depends on it)"),
    ("C19", "2ded16a", "salted WAMP-CRA parameters were not sent in the challenge"),
    ("C18", "1ba7a70", "joiner went on after an ABORT"),
    ("C18", "2c2322a", "joiner changed state although its HELLO could not be serialized"),
    ("C22", "c3e6d03", "ABORT lost or garbled its arguments when marshalled (also C23, C31)"),
    ("C24", "850300b", "booleans passed as integers, and an empty list raised IndexError"),
    ("C24", "4415b81", "bytes after a CBOR message were ignored (also C25)"),
    ("C25", "60699a5", "a payload that is not a list was taken apart"),
    ("C26", "4256ac7", "a handshake with one non-zero reserved byte was accepted"),
    ("C26", "60a3828", "handshake limits and protocols out of range were written"),
    ("C26", "a8de361", "frame headers of lengths out of range were written, and headers of other than four bytes read"),
    ("C27", "53a95e3", "reading options or details wrote into the dictionary the application had passed in"),
    ("C27", "dd885c2", "the cryptosign authenticator wrote into the authextra it was given"),
    ("C31", "9f7a285", "an ApplicationError without arguments claimed to have some"),
    ("C28", "6c7ad3f", "client session refused further chunks of an open invocation once its registration had ended"),
]
out = {
    "findings": [{"property": p, "mechanism": m, "what": w} for p, m, w in FINDINGS],
    "fixed": [f"fixed: property={p} {c} {w}" for p, c, w in FIXED],
}
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "known_findings.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")

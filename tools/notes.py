_H = "Assurance extends to the executions observed (counts in the evidence file), not to all. Trusts the reference model in vmon, CPython and the format / crypto libraries."
TECH = {
 "C01": "subscription model run beside the broker, checking every publication's recipients and event",
 "C02": "subscription model run beside the broker, checking ids, acknowledgements and lifetimes",
 "C03": "monitor of acknowledgements and publication ids over broker histories",
 "C04": "registration model run beside the dealer, checking every call's invocation or error",
 "C05": "registration model run beside the dealer, checking holders, ids and lifetimes",
 "C06": "open-call model run beside the dealer, at-most-once / own-answer / eventually-answered trace monitor",
 "C07": "progressive-call model run beside the dealer, checking invocation ids, flags and closing",
 "C08": "departure monitor over every address the routers emit, plus twin runs after re-joining under a used id",
 "C09": "twin-run monitor: history with refused requests against the same history without them",
 "C10": "global uniqueness and range monitor over all issued ids, incl. runs started next to the wrap-around",
 "C11": "heap monitor: object graph reachable from the component, measured at quiescent points over many cycles",
 "C12": "request model run beside the client session, checking acceptance and content of every reply",
 "C13": "registration / invocation model run beside the client session, checking invocations and yields",
 "C14": "subscription model run beside the client session, checking acceptance of every event",
 "C15": "twin-run monitor: session history with failing sends / refused receives against the same without them",
 "C16": "attack workloads against the acceptor, every WELCOME judged by an independent proof checker",
 "C17": "handshake state-machine monitor beside the acceptor under arbitrary message sequences",
 "C18": "handshake state-machine monitor beside the joiner under arbitrary message sequences",
 "C19": "end-to-end handshakes over encoded links, both ends and the authenticator compared with the scenario",
 "C20": "freshness monitor over issued challenges and session ids, with reseeding and binding checks",
 "C21": "differential oracle: proofs and verdicts against independent HMAC, PBKDF2 and Ed25519 computations",
 "C22": "round-trip monitor over all message types and serializers with cross-format comparison",
 "C23": "wire-layout monitor against an independent table of the WAMP message layouts",
 "C24": "acceptance oracle: independent WAMP grammar judges every decoded or refused input, incl. corrupted bytes",
 "C25": "round-trip and refusal monitor of the payload codec",
 "C26": "round-trip, refusal and stream-reassembly monitor, exhaustive over the small ranges",
 "C27": "deep-snapshot monitor of all inputs plus twin runs of interleaved against separate instances",
 "C28": "whole-system simulation over FIFO byte links with random schedules; offline checkers over the event log",
 "C29": "monitor comparing opaque payloads entering and leaving the dealer",
 "C30": "sequence monitor over generators, incl. runs started next to 2**53",
 "C32": "error oracle: the faults an independent grammar finds are compared with those the error lists",
 "C33": "read-back monitor over all value classes, incl. field objects of the application's own",
 "C31": "end-to-end monitor comparing the reason given with the reason that arrives, over all serializers",
}
NOTE = {k: _H for k in TECH}
NOTE["C06"] += " One known finding is reported, not repaired (callee leaves with a call open)."
NOTE["C10"] += " The wrap-around is reached by presetting the generator's public 'id' attribute; if a change removes it, only the range from 1 is observed."
NOTE["C30"] += " The wrap-around is reached by presetting the generator's public 'id' attribute."
NOTE["C11"] += " Retention is judged by the growth of reachable objects over cycles, so a leak smaller than the slack would pass."
NOTE["C20"] += " Unpredictability itself is not observable; monitored are length, distinctness and independence from the seedable generator."
NOTE["C28"] += " One known finding is reported, not repaired (late chunks of a progressive call)."
NOTE["C22"] += " One known finding is reported (cbor2 decoder, long non-ASCII texts)."
NOTE["C25"] += " One known finding is reported (cbor2 decoder, long non-ASCII texts)."

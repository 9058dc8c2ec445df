"""Long text of multi-byte characters over CBOR, in a process of its own: cbor2 5.7.0's C decoder reads and
writes out of bounds when a character of a text of more than 64 KiB straddles a multiple of 64 KiB
(CVE-2025-64076), so it must not run inside the monitors' own process."""
import subprocess
import sys

from vmon.core import REPO, FnWorkload, Violation

HEAD = """
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, {repo!r})
import cbor2
from wampproto import messages as M, serializers
from wampproto.serializers import payload
s = ({unit!r} * {n})[:{n}]
"""
TAIL = """
print("same" if same else "changed")
"""
PLAIN = "same = cbor2.loads(cbor2.dumps([s])) == [s]"
TEXTS = [("日", 65536), ("aé", 100), ("日", 200000), ("a", 200000), ("😀", 3000), ("日", 21000)]


def child(body, unit, n):
    code = HEAD.format(repo=REPO, unit=unit, n=n) + body + TAIL
    try:
        p = subprocess.run([sys.executable, "-c", code], capture_output=True, timeout=25)
    except subprocess.TimeoutExpired:
        return "does not end"
    out = p.stdout.decode().strip()
    if out:
        return out
    return f"ended by signal {-p.returncode}" if p.returncode < 0 else p.stderr.decode(errors="replace").strip()[-200:]


def workload(body, what):
    def gen(rng, i, tier):
        return [TEXTS[i % len(TEXTS)]]

    def run(ops, st):
        for unit, n in ops:
            how = child(body, unit, n)
            st.ev("long text over cbor")
            st.nontrivial()
            if how != "same":
                msg = f"{what} with a text of {n} characters {unit!r} does not survive CBOR: {how}"
                if child(PLAIN, unit, n) == "same":
                    raise Violation(msg)
                st.flag("cbor-long-multibyte-text", msg)

    return FnWorkload("long text", len(TEXTS), len(TEXTS), gen, run)

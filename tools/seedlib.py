"""Authoring and checking of planted bugs (development only; no check uses it).

S(id, property, [(file, old, new), ...], needs, breaks, demo) writes /verif/seeded/<id>/ after confirming, in a scratch
copy of /repo, that the change applies, passes the tests and is shown by the demonstration; then runs the property's
quick check against it and says whether it is caught."""
import json, os, shutil, subprocess, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")
PY = "/opt/venv/bin/python"
BASE = "199fe32"
ENV = {**os.environ, "PYTHONDONTWRITEBYTECODE": "1"}
RESULTS = []


def sh(cmd, cwd, timeout=900, **env):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout, env={**ENV, **env})


def scratch(id):
    d = f"/tmp/seed-{id}"
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    return d


def check(d, prop, seed=1, tier=""):
    r = sh(f"./check {prop} {tier}", HERE, VMON_REPO=d, VERIF_SEED=str(seed))
    return r.returncode, (r.stdout + r.stderr).strip()


def original_lines(d, files):
    """The removed lines must all come from the original commit."""
    diff = sh("git diff -U0", d).stdout
    bad, cur = [], None
    n = 0
    import re
    for line in diff.splitlines():
        if line.startswith("--- a/"):
            cur = line[6:]
        m = re.match(r"@@ -(\d+)(?:,(\d+))? ", line)
        if m:
            a, k = int(m[1]), int(m[2] or 1)
            if k:
                b = sh(f"git blame -s -l -L {a},{a + k - 1} HEAD -- {cur}", d).stdout
                for x in b.splitlines():
                    n += 1
                    if not x.lstrip("^").startswith(BASE) :
                        bad.append(x)
    return n, bad


def S(id, prop, edits, needs, breaks, demo, only=None):
    if only and id not in only:
        return
    d = scratch(id)
    try:
        for f, old, new in edits:
            p = os.path.join(d, "wampproto", f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, old, s.count(old))
            open(p, "w").write(s.replace(old, new))
        n, bad = original_lines(d, edits)
        folder = os.path.join(SEEDED, id)
        os.makedirs(folder, exist_ok=True)
        open(os.path.join(folder, "patch.diff"), "w").write(sh("git diff", d).stdout)
        open(os.path.join(folder, "demo.py"), "w").write(demo.lstrip("\n"))
        open(os.path.join(folder, "demo.sh"), "w").write(
            '#!/bin/bash\n# run with cwd /repo; fails if the property is broken\n'
            'exec env PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
        )
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(folder, "meta.json"), "w"), indent=1)
        verify(id, d, n, bad)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def verify(id, d, n=1, bad=()):
    """d: a copy of /repo with the change applied."""
    folder = os.path.join(SEEDED, id)
    prop = json.load(open(os.path.join(folder, "meta.json")))["property"]
    out = []
    if not n:
        out.append("NO ORIGINAL LINE CHANGED")
    if bad:
        out.append(f"CHANGES LINES OF FIXES {bad[:2]}")
    t = sh(f"{PY} -m pytest -q -p no:cacheprovider tests --ignore=tests/interoptests 2>&1 | tail -3", d)
    if "262 passed" not in t.stdout:
        out.append("TESTS: " + t.stdout.strip().splitlines()[-1])
    a = sh(f"bash {folder}/demo.sh", "/repo", 300)
    b = sh(f"bash {folder}/demo.sh", d, 300)
    if a.returncode != 0:
        out.append("DEMO FAILS ON CLEAN: " + (a.stdout + a.stderr)[-300:])
    if b.returncode == 0:
        out.append("DEMO PASSES ON BUG")
    code, text = check(d, prop)
    caught = code == 1 and f"VIOLATION property={prop}" in text
    out.append("caught" if caught else f"MISSED (exit {code})")
    print(f"{id:24} {prop} {'; '.join(out)} :: {text.splitlines()[0][:140] if caught else ''}", flush=True)
    RESULTS.append((id, prop, caught))


if __name__ == "__main__":  # verify all, or those named
    for id in sorted(sys.argv[1:] or os.listdir(SEEDED)):
        d = scratch(id)
        r = sh(f"git apply {SEEDED}/{id}/patch.diff", d)
        if r.returncode:
            print(id, "DOES NOT APPLY", r.stderr[:200])
        else:
            n, bad = original_lines(d, None)
            verify(id, d, n, bad)
        shutil.rmtree(d, ignore_errors=True)
    print(sum(c for *_, c in RESULTS), "of", len(RESULTS), "caught")

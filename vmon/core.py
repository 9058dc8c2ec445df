"""Runner for the runtime monitors.

A check is a list of Workloads.  A workload generates a case (a list of operations or inputs) from a
PRNG stream that depends only on (VERIF_SEED, property, workload, case number), and executes it against
the real code in /repo while monitors watch; a monitor raises Violation.  The runner spreads the cases over
processes, adds up what the monitors saw, shrinks the first violating case, writes the replay file and the
evidence file, and decides the exit status:

  0  held on everything observed (listed known findings are printed as KNOWN-FINDING lines)
  1  violated: a line  VIOLATION property=<id> replay=<path>
  2  inconclusive: the deciding monitors were not reached, or a case could not be decided
"""
import collections
import hashlib
import json
import os
import pickle
import random
import signal
import sys
import traceback
import multiprocessing

from vmon import again, clock, threads

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get("VMON_REPO", "/repo"))
CASE_WALL_S = 150  # watchdog per case; firing is never by itself a violation
QUICK_FACTOR = 4  # random workloads of the quick tier
SHARE = float(os.environ.get("VMON_SHARE", "1"))  # development: run only a part of every workload
SLOW = float(os.environ.get("VMON_SLOW", "0"))  # development: name cases that take longer than this
CLOCK = 6  # every so many cases the library's clock leaps
STEP_LIMIT = 200_000_000  # interpreted lines of library code in one case that count as "does not terminate"


class Violation(Exception):
    def __init__(self, msg, mech=None):
        super().__init__(msg)
        self.mech = mech


class Inconclusive(Exception):
    pass


class Hang(BaseException):
    pass


class Stats:
    """What the monitors observed."""

    def __init__(self):
        self.events = collections.Counter()
        self.cases = 0
        self.sigs = set()  # distinct non-trivial cases
        self.samples = []
        self.known = {}
        self._sig = None
        self._nontrivial = False
        self.known_mechs = frozenset()
        self.maxima = {}

    def ev(self, name, n=1):
        self.events[name] += n

    def top(self, name, value):
        if value > self.maxima.get(name, -1):
            self.maxima[name] = value

    def nontrivial(self):
        self._nontrivial = True

    def flag(self, mech, msg):
        """A breach with a named mechanism: counted if listed as a known finding, else a violation."""
        if mech in self.known_mechs:
            self.known.setdefault(mech, [0, msg])[0] += 1
            return
        raise Violation(msg, mech)

    def merge(self, other):
        self.events.update(other.events)
        self.cases += other.cases
        self.sigs |= other.sigs
        self.samples += other.samples
        for k, (n, m) in other.known.items():
            if k in self.known:
                self.known[k][0] += n
            else:
                self.known[k] = [n, m]
        for k, v in other.maxima.items():
            self.top(k, v)


class Workload:
    """quick / thorough: number of cases.  gen(rng, i, tier) -> list of ops.  run(ops, st) raises Violation.

    sig(ops) gives what distinguishes cases (default: the ops themselves)."""

    name = "workload"
    quick = 100
    thorough = 1000
    rule = ""
    threads = True  # may some of its cases be run from several threads in turn
    again = True  # may equal messages be handed over as one object

    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)

    def count(self, tier):
        n = self.thorough
        if tier != "thorough":
            enumerated = self.quick < 1000 or "all-short" in self.name
            n = self.quick if enumerated else min(n, QUICK_FACTOR * self.quick)
        return max(1, int(n * SHARE)) if SHARE != 1 else n

    def gen(self, rng, i, tier):
        raise NotImplementedError

    def run(self, ops, st):
        raise NotImplementedError

    def sig(self, ops):
        return repr(ops)


class FnWorkload(Workload):
    def __init__(self, name, quick, thorough, gen, run, rule="", sig=None):
        super().__init__(name=name, quick=quick, thorough=thorough, rule=rule)
        self._gen, self._run, self._sigf = gen, run, sig

    def gen(self, rng, i, tier):
        return self._gen(rng, i, tier)

    def run(self, ops, st):
        return self._run(ops, st)

    def sig(self, ops):
        return self._sigf(ops) if self._sigf else repr(ops)


def rng_for(seed, prop, wl, i):
    return random.Random(f"{seed}/{prop}/{wl}/{i}")


def h64(s):
    return hashlib.blake2b(s.encode("utf-8", "surrogatepass"), digest_size=8).digest()


def short(o, n=300):
    try:
        s = repr(o)
    except Exception as e:  # a broken __repr__ must not hide a report
        s = f"<unprintable {type(o).__name__}: {e}>"
    return s if len(s) <= n else s[: n - 20] + f"... ({len(s)} chars)"


def _alarm(signum, frame):
    raise Hang()


def _step_tracer():
    left = [STEP_LIMIT]
    prefix = REPO + os.sep

    def local(frame, event, arg):
        if event == "line":
            left[0] -= 1
            if left[0] < 0:
                raise Violation(
                    f"no progress: more than {STEP_LIMIT} steps in {frame.f_code.co_filename}:{frame.f_lineno}",
                    "no-progress",
                )
        return local

    def glob(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(prefix) else None

    return glob


def _run_guarded(wl, ops, st, seed_text, handover=True):
    """Runs one case.  Returns a Violation or None; raises Inconclusive."""
    random.seed(seed_text)
    n = int.from_bytes(h64("clock " + seed_text), "big")
    clock.start(0 if n % CLOCK else clock.SPEEDS[n // CLOCK % len(clock.SPEEDS)])
    st.ev("cases under a leaping clock", not n % CLOCK)
    threads.start(handover and wl.threads and n // 1000 % threads.EVERY == 0)
    st.ev("cases using three threads in turn", threads.active)
    again.start(wl.again and n // 10**6 % again.EVERY == 0)
    try:
        wl.run(ops, st)
        st.ev("messages handed over again", again.used > 0 and again.used)
        return None
    except Violation as v:
        return v
    except Inconclusive:
        raise
    except (MemoryError, OSError) as e:
        raise Inconclusive(f"{type(e).__name__}: {e}")
    except Exception as e:
        # The monitors are total on what conforming code returns, so an exception that escapes them means the
        # code raised where the property demands an answer, or answered with something that cannot be read.
        tb = traceback.extract_tb(e.__traceback__)
        where = " <- ".join(f"{os.path.basename(f.filename)}:{f.lineno} {f.name}" for f in reversed(tb[-4:]))
        return Violation(f"unreadable outcome: {type(e).__name__}: {short(str(e))} at {where}", "unreadable")


def run_case(wl, ops, st, seed_text):
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_WALL_S)
    try:
        return _run_guarded(wl, ops, st, seed_text)
    except Hang:
        pass
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    threads.abandon()
    # The watchdog fired.  Decide on logical steps, not on time.
    signal.setitimer(signal.ITIMER_REAL, CASE_WALL_S * 3)
    sys.settrace(_step_tracer())
    try:
        v = _run_guarded(wl, ops, st, seed_text, handover=False)
        if v is not None:
            return v
        raise Inconclusive(f"case of {wl.name} took more than {CASE_WALL_S} s")
    except Hang:
        raise Inconclusive(f"case of {wl.name} did not finish; step limit not reached")
    finally:
        sys.settrace(None)
        signal.setitimer(signal.ITIMER_REAL, 0)


def _worker(conn, prop, workloads, seed, tier, part, parts, deadline, known):
    st = Stats()
    st.known_mechs = known
    found = None
    incon = None
    truncated = False
    per = {}
    try:
        # round-robin over workloads in slices, so that a deadline cuts all of them alike
        iters = []
        for wi, wl in enumerate(workloads):
            n = wl.count(tier)
            iters.append((wi, wl, iter(range(part, n, parts))))
        while iters and found is None and incon is None and not truncated:
            nxt = []
            for wi, wl, it in iters:
                done = False
                for _ in range(16):
                    i = next(it, None)
                    if i is None:
                        done = True
                        break
                    if clock.real_time() > deadline:
                        truncated = True
                        break
                    rng = rng_for(seed, prop, wl.name, i)
                    ops = wl.gen(rng, i, tier)
                    st._nontrivial = False
                    seed_text = f"{seed}/{prop}/{wl.name}/{i}/run"
                    t0 = clock.real_time()
                    try:
                        v = run_case(wl, ops, st, seed_text)
                        if SLOW and clock.real_time() - t0 > SLOW:
                            print(f"slow: {wl.name} {i} {clock.real_time() - t0:.1f} s", file=sys.stderr)
                    except Inconclusive as e:
                        incon = f"{wl.name} case {i}: {e}"
                        break
                    st.cases += 1
                    per[wl.name] = per.get(wl.name, 0) + 1
                    if st._nontrivial:
                        sig = h64(wl.name + "|" + wl.sig(ops))
                        if sig not in st.sigs:
                            st.sigs.add(sig)
                            if part == 0 and wl.name not in {x["workload"] for x in st.samples}:
                                st.samples.append({"workload": wl.name, "case": i, "ops": short(ops, 900)})
                    if v is not None:
                        found = (wi, i, str(v), v.mech)
                        break
                if found or incon or truncated:
                    break
                if not done:
                    nxt.append((wi, wl, it))
            iters = nxt
    except BaseException:
        incon = "harness error:\n" + traceback.format_exc()
    conn.send_bytes(pickle.dumps((st, found, incon, truncated, per)))
    conn.close()


def _shrink(prop, wl, seed, tier, i, budget_s=45):
    rng = rng_for(seed, prop, wl.name, i)
    ops = wl.gen(rng, i, tier)
    seed_text = f"{seed}/{prop}/{wl.name}/{i}/run"
    known = load_known(prop)[0]

    def fails(keep):
        st = Stats()
        st.known_mechs = known
        try:
            return run_case(wl, [ops[k] for k in keep], st, seed_text)
        except Inconclusive:
            return None

    keep = list(range(len(ops)))
    t0 = clock.real_time()
    last = fails(keep)
    if last is None:
        return ops, keep, None
    n = 2
    while len(keep) > 1 and clock.real_time() - t0 < budget_s:
        size = max(1, len(keep) // n)
        for s in range(0, len(keep), size):
            cand = keep[:s] + keep[s + size :]
            v = fails(cand) if cand else None
            if v is not None:
                keep, last = cand, v
                n = max(n - 1, 2)
                break
            if clock.real_time() - t0 > budget_s:
                break
        else:
            if size == 1:
                break
            n = min(len(keep), n * 2)
    return ops, keep, last


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return frozenset(), {}
    with open(path) as f:
        data = json.load(f)
    out = {e["mechanism"]: e["what"] for e in data.get("findings", []) if e["property"] == prop}
    return frozenset(out), out


def import_library():
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    clock.install()
    import wampproto

    got = os.path.realpath(os.path.dirname(wampproto.__file__))
    if got != os.path.join(REPO, "wampproto"):
        print(f"INCONCLUSIVE wampproto was imported from {got}, not from {REPO}")
        sys.exit(2)


def main(prop, check, argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--seed" in argv:
        seed = int(argv[argv.index("--seed") + 1])
    workloads = check.WORKLOADS
    known, known_text = load_known(prop)

    if "--replay" in argv:
        return replay(prop, workloads, argv[argv.index("--replay") + 1], known)

    t0 = clock.real_time()
    wall = 780 if tier == "thorough" else 300
    deadline = t0 + wall
    parts = min(8, os.cpu_count() or 1)
    if "--jobs" in argv:
        parts = int(argv[argv.index("--jobs") + 1])
    ctx = multiprocessing.get_context("fork")
    procs = []
    for part in range(parts):
        a, b = ctx.Pipe(duplex=False)
        p = ctx.Process(
            target=_worker, args=(b, prop, workloads, seed, tier, part, parts, deadline, known), daemon=True
        )
        p.start()
        b.close()
        procs.append((p, a))
    total = Stats()
    found, incons, truncated = [], [], False
    per = collections.Counter()
    for p, a in procs:
        try:
            if not a.poll(max(1, deadline + CASE_WALL_S * 4 - clock.real_time())):
                raise EOFError
            st, fnd, inc, trunc, pw = pickle.loads(a.recv_bytes())
        except (EOFError, OSError):
            incons.append("a worker ended without an answer")
            p.kill()
            continue
        total.merge(st)
        per.update(pw)
        truncated |= trunc
        if fnd:
            found.append(fnd)
        if inc:
            incons.append(inc)
        p.join()
    extra = {}
    if hasattr(check, "finish"):  # checks over the whole run's observations
        try:
            check.finish(total, extra)
        except Violation as v:
            found.append((None, None, str(v), v.mech))

    missing = [c for c in check.NEEDS if total.events.get(c, 0) == 0]
    unseen = [m for m in known if m not in total.known]
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": total.cases,
            "distinct_nontrivial": len(total.sigs),
            "rule": check.RULE,
            "samples": total.samples[:6],
            "cases_per_workload": dict(sorted(per.items())),
            "monitor_events": dict(sorted(total.events.items())),
            "maxima": dict(sorted(total.maxima.items())),
            "known_findings_seen": {k: n for k, (n, _) in sorted(total.known.items())},
            "cut_short_by_time": truncated,
            **extra,
        },
        "assumptions": list(getattr(check, "ASSUMPTIONS", ())),
        "wall_s": round(clock.real_time() - t0, 2),
        "violations": len(found),
    }
    code = 0
    if found:
        found.sort(key=lambda f: (f[0] is None, f[0] or 0, f[1] or 0))
        wi, i, msg, mech = found[0]
        path = write_replay(prop, workloads, seed, tier, wi, i, msg, mech)
        print(f"{prop}: {msg}")
        print(f"VIOLATION property={prop} replay={path}")
        code = 1
    elif incons:
        print(f"INCONCLUSIVE {prop}: {incons[0]}")
        code = 2
    elif missing:
        print(f"INCONCLUSIVE {prop}: the monitors never saw: {', '.join(missing)}")
        code = 2
    for mech, (n, msg) in sorted(total.known.items()):
        print(f"KNOWN-FINDING: property={prop} {known_text.get(mech, mech)} (seen {n} times, e.g. {short(msg, 200)})")
    for mech in unseen:
        print(f"note: listed finding '{mech}' of {prop} was not seen in this run")
    evidence["coverage"]["verdict"] = {0: "held on what was observed", 1: "violated", 2: "inconclusive"}[code]
    write_evidence(prop, evidence)
    print(
        f"{prop} {tier} seed={seed}: {total.cases} cases, {len(total.sigs)} distinct non-trivial, "
        f"{sum(total.events.values())} monitored events, {evidence['wall_s']} s -> exit {code}"
    )
    return code


def write_evidence(prop, evidence):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    text = json.dumps(evidence, indent=1, default=repr)
    while len(text) > 60_000 and evidence["coverage"]["samples"]:
        evidence["coverage"]["samples"].pop()
        text = json.dumps(evidence, indent=1, default=repr)
    tmp = os.path.join(d, f".{prop}.{os.getpid()}")
    with open(tmp, "w") as f:
        f.write(text + "\n")
    os.replace(tmp, os.path.join(d, f"{prop}.json"))


def write_replay(prop, workloads, seed, tier, wi, i, msg, mech):
    d = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}.json")
    data = {"property": prop, "seed": seed, "tier": tier, "first_report": msg, "mechanism": mech}
    if wi is not None:
        wl = workloads[wi]
        try:
            ops, keep, last = _shrink(prop, wl, seed, tier, i, 45 if SHARE == 1 else 0)
        except BaseException as e:
            ops, keep, last = [], [], None
            data["shrink_error"] = repr(e)
        data.update(
            workload=wl.name,
            case=i,
            keep=keep,
            witness=[short(ops[k], 2000) for k in keep],
            shrunk_report=str(last) if last else None,
            rerun=f"cd /verif && ./check {prop} --replay {path}",
        )
    with open(path, "w") as f:
        json.dump(data, f, indent=1, default=repr)
    return path


def replay(prop, workloads, path, known):
    with open(path) as f:
        data = json.load(f)
    if "workload" not in data:
        print("this report is about the whole run; run the check again with its seed and tier")
        return 2
    wl = next(w for w in workloads if w.name == data["workload"])
    i, seed, tier = data["case"], data["seed"], data["tier"]
    ops = wl.gen(rng_for(seed, prop, wl.name, i), i, tier)
    ops = [ops[k] for k in data["keep"]]
    st = Stats()
    st.known_mechs = known
    for op in ops:
        print("  ", short(op, 2000))
    try:
        v = run_case(wl, ops, st, f"{seed}/{prop}/{wl.name}/{i}/run")
    except Inconclusive as e:
        print(f"INCONCLUSIVE {prop}: {e}")
        return 2
    if v is None:
        print(f"{prop}: the replayed case holds")
        return 0
    print(f"{prop}: {v}")
    print(f"VIOLATION property={prop} replay={path}")
    return 1

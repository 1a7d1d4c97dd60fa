"""Explorer core.

A check module (checks/pXX.py) provides

    PROPERTY   "P01"
    RULE       how cases are made / what is non-trivial
    ASSUMPTIONS list of str
    def cases(tier)      -> iterator over JSON-serialisable cases, simplest first.
                            The iterator *is* the bounded space: every element is run.
    def run_case(case)   -> Outcome

An Outcome holds the observation digest of the real implementation, the number of
implementation calls (transitions) and the list of disagreements with the oracle.
The explorer enumerates every case, in order, on all cores, never samples, and
reports the first disagreement (the simplest one by enumeration order).
"""
import hashlib
import importlib
import itertools
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
CASE_TIMEOUT_S = 120


def setup_env():
    os.environ.setdefault("BEEP_ENV", "dev")
    os.environ.setdefault("MPLBACKEND", "Agg")
    os.environ.setdefault("TQDM_OFF", "1")
    os.environ.setdefault("TQDM_DISABLE", "1")
    os.environ.setdefault("AWS_EC2_METADATA_DISABLED", "true")
    os.environ.setdefault("PYTHONHASHSEED", "0")
    os.environ.setdefault("TZ", "UTC")
    time.tzset()
    sys.dont_write_bytecode = True
    if REPO not in sys.path[:1]:
        sys.path.insert(0, REPO)
    import warnings

    warnings.simplefilter("ignore")
    import logging

    logging.disable(logging.CRITICAL)


class CaseTimeout(BaseException):
    pass


class Outcome:
    """Result of running one case against the real code."""

    __slots__ = ("problems", "calls", "_obs", "nontrivial")

    def __init__(self):
        self.problems = []          # [(key, message)]
        self.calls = 0              # implementation calls = transitions
        self._obs = hashlib.md5()   # digest of what was observed
        self.nontrivial = True

    def see(self, *things):
        for t in things:
            self._obs.update(repr(t).encode("utf-8", "replace"))
            self._obs.update(b"\0")

    def call(self, n=1):
        self.calls += n

    def bad(self, key, message):
        self.problems.append((str(key), str(message)))

    def expect(self, cond, key, message):
        if not cond:
            self.bad(key, message() if callable(message) else message)
        return bool(cond)

    def pack(self):
        return (self._obs.hexdigest(), self.calls, self.problems, self.nontrivial)


_MODULE = None
_QUIET = None


def _silence():
    """The code under test prints a lot; keep only the explorer's own lines."""
    global _QUIET
    if _QUIET is None:
        _QUIET = open(os.devnull, "w")
    sys.stdout = _QUIET
    sys.stderr = _QUIET


def _worker_init():
    _silence()
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def _alarm(signum, frame):
    raise CaseTimeout()


def run_one(case):
    """Run one case, turning anything unexpected into a disagreement."""
    out = Outcome()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_TIMEOUT_S)
    try:
        res = _MODULE.run_case(case, out)
        if isinstance(res, Outcome):
            out = res
    except CaseTimeout:
        out.bad("timeout", "case did not terminate within %d s" % CASE_TIMEOUT_S)
    except BaseException as e:  # noqa
        if isinstance(e, (KeyboardInterrupt, GeneratorExit)):
            raise
        tb = traceback.extract_tb(e.__traceback__)
        where = next(
            (
                "%s:%s" % (os.path.relpath(f.filename, REPO), f.name)
                for f in reversed(tb)
                if f.filename.startswith(REPO + os.sep)
            ),
            "harness",
        )
        out.bad(
            "exception:%s:%s" % (type(e).__name__, where),
            "unexpected %s: %s [%s]" % (type(e).__name__, str(e)[:300], where),
        )
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    return out.pack()


def _run_chunk(chunk):
    return [(case, run_one(case)) for case in chunk]


def _chunks(it, n):
    it = iter(it)
    while True:
        c = list(itertools.islice(it, n))
        if not c:
            return
        yield c


def load_known(prop):
    known = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding="utf-8"):
            line = line.strip()
            if not line.startswith("known:"):
                continue
            parts = line.split(None, 3)
            p = parts[1].split("=", 1)[1]
            k = parts[2].split("=", 1)[1]
            if p == prop:
                known[k] = parts[3] if len(parts) > 3 else ""
    return known


def main(prop, argv):
    global _MODULE
    setup_env()
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    i = 0
    while i < len(argv):
        if argv[i] in ("quick", "thorough"):
            tier = argv[i]
        elif argv[i] == "--replay":
            replay = argv[i + 1]
            i += 1
        i += 1
    seed = int(os.environ.get("VERIF_SEED", "1"))
    real_stdout = sys.stdout
    t0 = time.time()
    import random

    random.seed(seed)
    _silence()
    import_problem = None
    try:
        _MODULE = importlib.import_module("checks." + prop.lower())
    except BaseException as e:
        import_problem = "cannot load the code under test: %s: %s\n%s" % (
            type(e).__name__, e, traceback.format_exc())

    def say(s):
        real_stdout.write(s + "\n")
        real_stdout.flush()

    if replay:
        if import_problem:
            say(import_problem)
            return 1
        art = json.load(open(replay))
        if art.get("case") is None:
            say("artefact records a load failure: %s" % art.get("problems"))
            return 0
        a = run_one(art["case"])
        b = run_one(art["case"])
        say("replayed twice, identical observations: %s" % (a == b))
        for k, m in a[2]:
            say("  %s: %s" % (k, m))
        if a[2]:
            say("VIOLATION property=%s replay=%s" % (prop, replay))
            return 1
        return 0

    os.makedirs(EVIDENCE, exist_ok=True)
    known = load_known(prop)
    evaluations = transitions = 0
    states = set()
    nontrivial = set()
    samples = []
    findings = {}
    violation = None
    if import_problem:
        violation = (None, [("import", import_problem)])
    else:
        budget = float(os.environ.get("VERIF_BUDGET_S", "840" if tier == "quick" else "36000"))
        nproc = int(os.environ.get("VERIF_PROCS", "8"))
        chunk = getattr(_MODULE, "CHUNK", 8)
        ctx = mp.get_context("fork")
        capped = False
        gen = _chunks(_MODULE.cases(tier), chunk)
        pool = ctx.Pool(nproc, initializer=_worker_init)
        try:
            for res in pool.imap(_run_chunk, gen):
                for case, (obs, calls, problems, nontriv) in res:
                    evaluations += 1
                    transitions += calls
                    states.add(obs)
                    if nontriv:
                        nontrivial.add(obs)
                    if len(samples) < 2 or (evaluations in (50, 500, 5000)):
                        samples.append(case)
                    fresh = []
                    for k, m in problems:
                        if k in known:
                            findings.setdefault(k, (case, m))
                        else:
                            fresh.append((k, m))
                    if fresh and violation is None:
                        violation = (case, fresh)
                        break
                if violation is not None:
                    break
                if time.time() - t0 > budget:
                    capped = True
                    break
        finally:
            pool.terminate()
            pool.join()
    if violation is not None and violation[0] is not None:
        # re-run in this process; the same case must fail the same way
        again = run_one(violation[0])
        fresh2 = [(k, m) for k, m in again[2] if k not in known]
        violation = (violation[0], fresh2 or violation[1])
    replay_path = None
    if violation is not None:
        replay_path = os.path.join(EVIDENCE, "%s.replay.json" % prop)
        with open(replay_path, "w") as f:
            json.dump(
                {"property": prop, "tier": tier, "case": violation[0],
                 "problems": violation[1],
                 "replay": "python -m vmc.run %s --replay %s" % (prop, replay_path)},
                f, indent=1, default=str)
    cov = {
        "states": len(states),
        "transitions": transitions,
        "traces_validated_against_impl": evaluations,
        "evaluations": evaluations,
        "distinct_nontrivial": len(nontrivial),
        "rule": getattr(_MODULE, "RULE", "") if _MODULE else "",
        "exhaustive": bool(not import_problem and violation is None and not capped),
        "bounds": getattr(_MODULE, "BOUNDS", {}).get(tier, "") if _MODULE else "",
        "samples": samples[:6],
    }
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": cov,
        "assumptions": getattr(_MODULE, "ASSUMPTIONS", []) if _MODULE else [],
        "wall_s": round(time.time() - t0, 2),
        "violations": 0 if violation is None else 1,
    }
    with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for k, (case, m) in sorted(findings.items()):
        say("KNOWN-FINDING: property=%s %s (%s)" % (prop, known[k], k))
    say("%s tier=%s evaluations=%d states=%d transitions=%d wall=%.1fs exhaustive=%s" % (
        prop, tier, evaluations, len(states), transitions, time.time() - t0, cov["exhaustive"]))
    if violation is not None:
        say("case: %s" % json.dumps(violation[0], default=str)[:2000])
        for k, m in violation[1][:5]:
            say("  %s: %s" % (k, m))
        say("VIOLATION property=%s replay=%s" % (prop, replay_path))
        return 1
    return 0

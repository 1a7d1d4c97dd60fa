"""P29 - the log file of the commands."""
import itertools
import json
import logging
import os
import tempfile
import warnings

from checks import p15, p16
from checks.p15 import inside, place

PROPERTY = "P29"
RULE = "every command x every file name of the list x good and failing input x state of the log file; every event the logger emits while the command runs is captured and compared with the lines the log file gains"
ASSUMPTIONS = ["events are those of the logger named beep; the time stamp is only required to be there"]
BOUNDS = {"quick": "6 commands x 9 file names x 2-4 outcomes x 3 states of the log file, pairs of commands on one log", "thorough": "triples of commands on one log"}
CHUNK = 6
NAMES = ["plain", 'qu"ote', "back\\slash n", "n\u00e9 \u00b5", "tab\tx", "line\nbreak", "100%s %d %(x)s", "{b} 'single'", 'end"}']
KEYS = {"time", "level", "process", "module", "func", "msg"}
OLD = ["", '{"time": "t", "level": "INFO", "msg": "before"}\n', None]
RUNS = [("structure", 0, 0), ("structure", 1, 1), ("featurize", 0, 2), ("featurize", 1, 5), ("train", 1, 1), ("predict", 1, 0), ("protocol", 0, 0), ("inspect", 0, 1)]


def cases(tier):
    for c, n, bad in itertools.product(("structure", "featurize", "train", "predict", "protocol", "inspect"), range(len(NAMES)), (0, 1)):
        for halt in (0, 1):
            for old in range(3) if n in (0, 1) else (1,):
                yield {"runs": [[c, bad, n]], "halt": halt, "old": old}
    for k in (2, 3) if tier == "thorough" else (2,):
        for s in itertools.product(RUNS, repeat=k):
            yield {"runs": [list(x) for x in s], "halt": 0, "old": 1}


def command(c, bad, name, d):
    """arguments of a command whose files have the name; bad: its input cannot be used"""
    i = os.path.join(d, "in")
    os.makedirs(i, exist_ok=True)
    if c == "structure":
        f = os.path.join(i, name + "_CH1.csv")
        place(f, "garbage" if bad else "one")
        return ["structure", f, "-d", d]
    if c == "featurize":
        f = os.path.join(i, name + "_structured.json")
        place(f, "garbage" if bad else "one", structured=True)
        return ["featurize", f, "-d", d] + (p15.FEATS["R"] if not bad else p15.FEATS["A"])
    fm, tm, m = (os.path.join(i, "%s %s.json" % (name, x)) for x in ("f", "t", "m"))
    rows = [[v if v == v else 1.0 for v in r] for r in p16.X]
    if c in ("train", "predict"):
        p16.save(p16.matrix(rows, ["a", "b", "c", "d"]), fm)
    if c == "train":
        p16.save(None if bad else p16.matrix(p16.Y, ["tx", "ty"], cls="ToyB"), tm)
        return ["train", "-fm", fm, "-tm", tm, "-t", "tx::ToyB", "-m", "ridge", "--homogenize-features", "true", "-o", os.path.join(d, name + ".out.json")]
    if c == "predict":
        if bad:
            p16.save(None, m)
        else:
            import numpy as np
            from beep.model import BEEPLinearModelExperiment
            np.random.seed(3)
            e = BEEPLinearModelExperiment(p16.matrix(rows, ["a", "b", "c", "d"]), p16.matrix(p16.Y, ["tx", "ty"], cls="ToyB"), ["tx::ToyB"], "ridge", homogenize_features=True)
            e.train()
            p16.save(e, m)
        return ["predict", m, "-fm", fm, "-o", os.path.join(d, name + ".json")]
    if c == "protocol":
        f = os.path.join(i, name + ".csv")
        place(f, "garbage")
        if not bad:
            open(f, "w").write(p16_table())
        return ["protocol", f, "-d", d]
    f = os.path.join(i, name + ".json")
    if bad:
        place(f, "garbage")
    else:
        from beep.structure.diagnostic import DiagnosticConfig
        p16.save(DiagnosticConfig({"hppc": {1}}), f)
    return ["inspect", f]


def p16_table():
    return "protocol_num,project_name,template,seq_num\n1,Proj,unknown_template.xyz,1\n"


class Capture(logging.Handler):
    def __init__(self):
        super().__init__(1)
        self.seen = []

    def emit(self, r):
        self.seen.append((r.levelname, r.getMessage(), r.module, r.funcName, str(os.getpid())))


def run_case(case, out):
    from beep import logger
    import numpy as np
    from beep.features.base import BEEPFeaturizationError, BEEPFeatureMatrixError
    from beep.model import BEEPMLExperimentError
    from beep.protocol.generate_protocol import ProtocolException
    from beep.structure.validate import BEEPValidationError
    p15.FAILS = (Exception, BEEPFeaturizationError, BEEPValidationError, BEEPMLExperimentError, BEEPFeatureMatrixError, ProtocolException)
    np.seterr(all="ignore")
    old = OLD[case["old"]]
    with tempfile.TemporaryDirectory() as tmp, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        tmp = os.path.realpath(tmp)
        w = os.path.join(tmp, "w")
        os.makedirs(w)
        log = os.path.join(tmp, "run log.jsonl")
        if old is not None:
            open(log, "w").write(old)
        seen, codes = [], []
        with inside(w):
            for k, (c, bad, n) in enumerate(case["runs"]):
                d = os.path.join(tmp, "d%d" % k)
                os.makedirs(d)
                args = command(c, bad, NAMES[n], d)
                cap = Capture()
                logger.addHandler(cap)
                try:
                    res = p15.invoke(["-l", log] + (["--halt-on-error"] if case["halt"] else []) + args)
                finally:
                    logger.removeHandler(cap)
                out.call()
                seen += cap.seen
                codes.append(res.exit_code)
        text = open(log, newline="").read() if os.path.exists(log) else ""
    out.see(tuple(codes), len(seen), case["runs"][-1][2])
    out.nontrivial = bool(seen)
    if not out.expect(text.startswith(old or ""), "kept", "what the log held before is gone: %r" % text[:80]):
        return
    lines = text[len(old or ""):].split("\n")
    out.expect(lines.pop() == "", "end", "the last line of the log is not complete")
    got = []
    for l in lines:
        try:
            e = json.loads(l)
        except ValueError:
            out.expect(False, "json", "the log has a line that is not JSON: %r" % l[:200])
            return
        if not out.expect(isinstance(e, dict) and KEYS <= set(e) and e["time"], "keys", "log entry %s" % l[:200]):
            return
        got.append((e["level"], e["msg"], e["module"], e["func"], str(e["process"])))
    for g, s in zip(got, seen):
        if not out.expect(g == s, "entry", lambda: "log entry %s, event %s" % (g, s)):
            return
    out.expect(len(got) == len(seen), "count", lambda: "%d events, %d log entries" % (len(seen), len(got)))

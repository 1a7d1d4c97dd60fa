"""P16 - train, predict and protocol commands."""
import copy
import itertools
import json
import os
import tempfile

from checks.p15 import invoke, inside, tree, norm, md5, status_meta, FAILS  # noqa

PROPERTY = "P16"
RULE = "every single and pair of option deviations of train and predict, on data with missing values, and every sequence of protocol rows up to the bound; the command runs for real in a scratch directory and is compared with the library call given the documented settings"
ASSUMPTIONS = ["the meaning of each setting in the library call is the subject of P13 and P21", "partly given alpha options are refused",
               "protocol rows that raise (unknown diagnostic sets and the like) abort the generation loudly and are not claimed"]
BOUNDS = {"quick": "train: 3 models x all single and pair deviations of 15 options (27 values); predict: 6 models x 6 matrices x 5 thresholds x output and strictness; protocol: all sequences of <=3 of 7 row kinds",
          "thorough": "train: option triples for one model; protocol: sequences of <=4 rows"}
CHUNK = 4
NAN = float("nan")
# 12 samples x 4 features; the pattern of missing cells makes every threshold matter
X = [[1.0, 5.0, 2.0, 0.5], [2.0, NAN, 1.0, 0.25], [3.5, 4.0, 4.0, NAN], [4.0, NAN, 3.0, 2.5], [6.0, 2.5, 8.0, NAN], [7.5, NAN, 5.0, NAN], [8.0, 1.0, 2.5, NAN], [8.5, 2.0, 3.5, NAN],
     [9.0, 3.0, 1.5, 1.25], [9.5, NAN, NAN, NAN], [10.0, 4.5, 6.0, 2.0], [11.0, 6.0, 7.0, 1.0]]
Y = [[1.0, 9.0], [1.5, 8.5], [3.0, 9.0], [4.5, 5.0], [5.0, 3.0], [8.0, 2.0], [7.0, 2.5], [8.0, 2.0], [9.5, 1.0], [9.0, 2.0], [10.0, 0.5], [12.0, 0.0]]
PX = [[2.5, 3.0, 2.5, 1.0], [5.0, NAN, 6.0, 2.0], [NAN, NAN, 0.5, 0.0], [NAN, NAN, NAN, 4.0], [9.0, 0.25, 9.0, 4.0], [NAN, NAN, NAN, NAN]]
# option -> [(arguments, library settings)]
TRAIN = {
    "targets": [(["TWO"], {}), (["BAD"], {})],
    "frac": [(["-s", "0.5"], {}), (["-s", "0.75"], {})],
    "alphas": [(["-al", "0.5", "-au", "1.5", "-an", "3"], {"alphas": [0.5, 1.0, 1.5]}), (["-al", "0", "-au", "0.25", "-an", "2"], {"alphas": [0.0, 0.25]}), (["-al", "0.5", "-an", "3"], None), (["-au", "2"], None)],
    "tf": [(["--train-feature-nan-thresh", "0"], {"train_feature_drop_nan_thresh": 0.0}), (["--train-feature-nan-thresh", "0.5"], {"train_feature_drop_nan_thresh": 0.5})],
    "ts": [(["--train-sample-nan-thresh", "0"], {"train_sample_drop_nan_thresh": 0.0}), (["--train-sample-nan-thresh", "1"], {"train_sample_drop_nan_thresh": 1.0})],
    "ps": [(["--predict-sample-nan-thresh", "0"], {"predict_sample_nan_thresh": 0.0}), (["--predict-sample-nan-thresh", "0.5"], {"predict_sample_nan_thresh": 0.5})],
    "dn": [(["--drop-nan-training-targets"], {})],
    "imp": [(["--impute-strategy", "mean"], {"impute_strategy": "mean"}), (["--impute-strategy", "none"], {"impute_strategy": "none"}), (["--impute-strategy", "bogus"], {"impute_strategy": "bogus"})],
    "k": [(["--kfold", "3"], {"kfold": 3})],
    "mi": [(["--max-iter", "4000"], {"max_iter": 4000})],
    "tol": [(["--tol", "0.25"], {"tol": 0.25})],
    "l1": [(["--l1-ratios", "0.25, 0.75"], {"l1_ratio": [0.25, 0.75]}), (["--l1-ratios", "1.0"], {"l1_ratio": [1.0]})],
    "hom": [(["--homogenize-features", "False"], {"homogenize_features": False}), (["--homogenize-features", "true"], {"homogenize_features": True})],
    "o": [(["-o", "OUT"], {})],
    "data": [(["NANTARGET"], {}), (["GARBAGE"], {})],
    "glob": [(["HALT"], {}), (["META"], {})],
}
MODELS = ("elasticnet", "ridge", "lasso")
PMODELS = [{}, {"predict_sample_nan_thresh": 0.0}, {"predict_sample_nan_thresh": 1.0, "impute_strategy": "mean"}, {"homogenize_features": False}, {"model_name": "lasso"}, {"two": 1}]
PMATS = ["same", "reorder", "extra", "missing", "garbage", "otherhash"]
ROWS = {"d": "v4", "e": "exp", "b": "form", "r": "step", "s": "sdu", "u": "txt", "x": "mps"}


def cases(tier):
    t = tier == "thorough"
    items = [(o, i) for o in TRAIN for i in range(len(TRAIN[o]))]
    for m in MODELS:
        for k in (0, 1, 2, 3) if t and m == "elasticnet" else (0, 1, 2):
            for c in itertools.combinations(items, k):
                if len({x[0] for x in c}) == k:
                    yield {"cmd": "t", "m": m, "o": [list(x) for x in c]}
    for i in range(len(PMODELS)):
        for x in PMATS:
            for th in (None, "0", "0.25", "0.5", "1"):
                for o in (None, "pred.json", "pred.csv") if th in (None, "0") else (None,):
                    for halt in (0, 1):
                        yield {"cmd": "p", "i": i, "x": x, "th": th, "o": o, "halt": halt}
    for n in (0, 1, 2, 3, 4) if t else (0, 1, 2, 3):
        for r in itertools.product(ROWS, repeat=n):
            for halt in (0, 1):
                if n < 3 or not halt:
                    yield {"cmd": "c", "r": "".join(r), "halt": halt}


def run_case(case, out):
    import numpy as np
    import warnings
    from checks import p15
    from beep.features.base import BEEPFeaturizationError, BEEPFeatureMatrixError
    from beep.model import BEEPMLExperimentError
    from beep.protocol.generate_protocol import ProtocolException
    from beep.structure.validate import BEEPValidationError
    p15.FAILS = (Exception, BEEPFeaturizationError, BEEPValidationError, BEEPMLExperimentError, BEEPFeatureMatrixError, ProtocolException)
    np.seterr(all="ignore")
    with tempfile.TemporaryDirectory() as tmp, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        tmp = os.path.realpath(tmp)
        w = os.path.join(tmp, "work")
        os.makedirs(w)
        os.makedirs(os.path.join(tmp, "in"))
        with inside(w):
            {"t": train, "p": predict, "c": protocol}[case["cmd"]](case, out, tmp, w, p15.FAILS)


def matrix(rows, cols, cls="ToyA", hp=None, extra=False):
    import pandas as pd
    from vmc import toyfeat as tf
    from beep.features.base import BEEPFeatureMatrix
    fs = []
    for i, r in enumerate(rows):
        f = getattr(tf, cls)(tf.datapath("/data/n%02d.json" % i), hyperparameters=hp)
        d = {c: [v] for c, v in zip(cols, r)}
        if extra:
            d["more"] = [1.0 + i]
        f.features = pd.DataFrame(d)
        fs.append(f)
    return BEEPFeatureMatrix(fs)


def save(obj, path):
    from monty.serialization import dumpfn
    if obj is None:
        open(path, "w").write("{ broken")
    else:
        dumpfn(obj, path)


def library(fm, tm, targets, model, kw, frac):
    """(experiment, training errors, test errors) of the library with these settings."""
    import numpy as np
    from beep.model import BEEPLinearModelExperiment
    from beep.features.base import BEEPFeatureMatrix
    np.random.seed(3)
    e = BEEPLinearModelExperiment(feature_matrix=BEEPFeatureMatrix.from_json_file(fm), target_matrix=BEEPFeatureMatrix.from_json_file(tm), targets=targets, model_name=model, **kw)
    if frac is None:
        return e, e.train()[1], None
    _, a, b = e.train_and_score(train_and_val_frac=frac)
    return e, a, b


def close(a, b, tol=1e-9):
    if isinstance(a, dict) and isinstance(b, dict):
        return sorted(a) == sorted(b) and all(close(a[k], b[k], tol) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool):
        return (a != a and b != b) or abs(a - b) <= tol * max(1.0, abs(b))
    return a == b


def plain(o):
    from monty.json import MontyEncoder
    return norm(json.loads(json.dumps(o.as_dict(), cls=MontyEncoder)))


def train(case, out, tmp, w, fails):
    import numpy as np
    from monty.serialization import loadfn
    picked = [TRAIN[o][i] for o, i in case["o"]]
    args, kw, refuse = [], {"drop_nan_training_targets": True}, False
    for a, k in picked:
        args += a
        refuse = refuse or k is None
        kw.update(k or {})
    flag = lambda f: f in args and (args.remove(f) or True)
    halt, meta, two, bad, nant, garbage = (flag(f) for f in ("HALT", "META", "TWO", "BAD", "NANTARGET", "GARBAGE"))
    x, y = copy.deepcopy(X), copy.deepcopy(Y)
    if nant:
        y[1][0] = y[4][0] = NAN
    fm, tm = os.path.join(tmp, "in", "fm.json"), os.path.join(tmp, "in", "tm.json.gz")
    bfm, btm = matrix(x, "xyzq"), matrix(y, "mn", "ToyB")
    save(None if garbage else bfm, fm)
    save(btm, tm)
    cols = list(btm.matrix.columns)
    full = {c.split("::")[0]: c for c in cols}
    nm = lambda c: full[c] if kw.get("homogenize_features") is False else "::".join(full[c].split("::")[:-1])
    targets = [nm("m")] + ([nm("n")] if two else []) + (["nothere"] if bad else [])
    frac = float(args[args.index("-s") + 1]) if "-s" in args else None
    try:
        want, terr, serr = library(fm, tm, targets, case["m"], copy.deepcopy(kw), frac)
    except fails:
        want = None
    target = None
    if "OUT" in args:
        target = os.path.join(tmp, "model.json")
        args[args.index("OUT")] = target
    base = ["-s", "status.json"] + (["--halt-on-error"] if halt else []) + (["-r", "5", "-t", "x"] if meta else [])
    before = tree(os.path.join(tmp, "in"))
    np.random.seed(3)
    out.call()
    r = invoke(base + ["train", "-fm", fm, "-tm", tm, "-m", case["m"]] + [z for t in targets for z in ("-t", t)] + args)
    out.see(case["m"], r.exit_code)
    out.expect(tree(os.path.join(tmp, "in")) == before, "inputs-changed", str(case))
    made = {os.path.join(tmp, f) for f in tree(tmp) if not f.startswith("in/") and "status" not in f}
    if refuse or (halt and want is None):
        out.expect(r.exit_code != 0 and not made, "train-refuse", "exit status %s, written %s" % (r.exit_code, made))
        return
    if not out.expect(r.exit_code == 0, "train-exit", "%r for %s" % (r.exception, args)):
        return
    st = loadfn("status.json")
    status_meta(out, st, 5 if meta else None, ["x"] if meta else [], "train")
    f = st["files"]
    out.expect((f["features"], f["targets"], f["features_md5_chksum"], f["targets_md5_chksum"]) == (fm, tm, md5(fm), md5(tm)), "train-files", str(f))
    tr = st["trained_model"]
    out.see(want is None)
    if want is None:
        out.expect(tr["created"] is False and tr["output"] is None and st["traceback"] and not made, "train-failure", "%s, written %s although the library refuses these settings" % (tr, made))
        return
    if not out.expect(tr["created"] is True and made == {tr["output"]} and (target is None or tr["output"] == target) and os.path.dirname(tr["output"]) == (os.path.dirname(target) if target else w), "train-created",
                      "%s, written %s; traceback %s" % (tr, made, str(st["traceback"])[-200:])):
        return
    out.expect(st["traceback"] is None, "train-traceback", str(st["traceback"]))
    try:
        got, exp = plain(loadfn(tr["output"])), plain(want)
    except fails as e:
        out.bad("train-reload", "the written model cannot be loaded: %r" % e)
        return
    out.see(json.dumps(got["model_sklearn"]))
    for k in exp:
        out.expect(close(got.get(k), exp[k]), "train-setting:" + k, lambda: "%s: written model has %s = %s, the library call gives %s" % (args, k, str(got.get(k))[:200], str(exp[k])[:200]))
    res = st["model_results"]
    n = lambda e: norm(json.loads(json.dumps(e, default=float)))
    out.expect(close(n(res.get("training_error")), n(terr)), "train-error", "%s, expected %s" % (res.get("training_error"), terr))
    out.expect(close(n(res.get("optimal_hyperparameters")), n(want.optimal_hyperparameters)), "train-hyper", "%s" % res.get("optimal_hyperparameters"))
    if frac is not None:
        out.expect(close(n(res.get("test_error")), n(serr)) and res.get("test_fraction") == frac, "test-error", "%s, expected %s" % (res, serr))
    else:
        out.expect(not res.get("test_error"), "test-error", str(res))


_MODELS = {}


def predict(case, out, tmp, w, fails):
    from monty.serialization import loadfn
    import pandas as pd
    from beep.features.base import BEEPFeatureMatrix
    from beep.model import BEEPLinearModelExperiment
    fm, tm, mf, pf = (os.path.join(tmp, "in", n) for n in ("fm.json", "tm.json", "model.json.gz", "new.json"))
    i = case["i"]
    if i not in _MODELS:
        save(matrix(X, "xyzq"), fm)
        btm = matrix(Y, "mn", "ToyB")
        save(btm, tm)
        kw = dict({"drop_nan_training_targets": True, "train_feature_drop_nan_thresh": 0.25}, **PMODELS[i])
        two, model = kw.pop("two", 0), kw.pop("model_name", "elasticnet")
        cols = [c if kw.get("homogenize_features") is False else "::".join(c.split("::")[:-1]) for c in sorted(btm.matrix.columns)]
        e, _, _ = library(fm, tm, cols if two else cols[:1], model, kw, None)
        save(e, mf)
        _MODELS[i] = open(mf, "rb").read()
        os.remove(fm)
        os.remove(tm)
    open(mf, "wb").write(_MODELS[i])
    x = case["x"]
    save(None if x == "garbage" else matrix([r[::-1] for r in PX], "qzyx") if x == "reorder" else matrix([r[:2] for r in PX], "xy") if x == "missing" else
         matrix(PX, "xyzq", extra=x == "extra", hp={"k": 5, "w": [1]} if x == "otherhash" else None), pf)
    before = tree(os.path.join(tmp, "in"))
    want = None
    try:
        m = BEEPLinearModelExperiment.from_json_file(mf)
        if case["th"] is not None:
            m.predict_sample_nan_thresh = float(case["th"])
        want, _ = m.predict(BEEPFeatureMatrix.from_json_file(pf))
    except fails:
        pass
    args = ["-s", "status.json"] + (["--halt-on-error"] if case["halt"] else []) + ["predict", mf, "-fm", pf]
    if case["th"] is not None:
        args += ["--predict-sample-nan-thresh", case["th"]]
    if case["o"]:
        args += ["-o", os.path.join(tmp, case["o"])]
    out.call()
    r = invoke(args)
    out.see(r.exit_code, i, x)
    out.expect(tree(os.path.join(tmp, "in")) == before, "inputs-changed", str(case))
    made = {os.path.join(tmp, f) for f in tree(tmp) if not f.startswith("in/") and "status" not in f}
    if case["o"] == "pred.csv" or (case["halt"] and want is None):
        out.expect(r.exit_code != 0 and not made, "predict-refuse", "exit status %s, written %s" % (r.exit_code, made))
        return
    if not out.expect(r.exit_code == 0, "predict-exit", "%r for %s" % (r.exception, case)):
        return
    st = loadfn("status.json")
    status_meta(out, st, None, [], "predict")
    f = st["files"]
    out.expect((f["model"], f["predict_on_features"], f["model_md5_chksum"], f["predict_on_features_md5_chksum"]) == (mf, pf, md5(mf), md5(pf)), "predict-files", str(f))
    p = st["predictions"]
    if want is None:
        out.expect(p["created"] is False and p["output"] is None and st["traceback"] and not made, "predict-failure", "%s, written %s" % (p, made))
        return
    if not out.expect(p["created"] is True and st["traceback"] is None and made == {p["output"]}, "predict-created", "%s, written %s" % (p, made)):
        return
    if case["o"]:
        out.expect(p["output"] == os.path.join(tmp, case["o"]), "predict-path", p["output"])
    got = json.load(open(p["output"]))
    exp = {c: {str(k): float(v) for k, v in want[c].items()} for c in want.columns}
    out.see(sorted((c, sorted((k, round(v, 6)) for k, v in got[c].items())) for c in got))
    out.expect(close(got, exp, 1e-8), "predictions", lambda: "%s, expected %s" % (got, exp))


def protocol(case, out, tmp, w, fails):
    import re
    import pandas as pd
    from monty.serialization import loadfn
    from beep.protocol.generate_protocol import generate_protocol_files_from_csv
    from checks import p21
    rows, names = [], []
    for i, c in enumerate(case["r"]):
        template, project, row = p21.KINDS[ROWS[c]]
        rows.append(dict({"project_name": project, "seq_num": 100 + i, "template": template}, **row))
        ext = ".mps" if c == "b" else ".000"
        names.append(None if ROWS[c] in p21.BAD else os.path.join("settings" if c == "b" else "procedures", "%s_%06d%s" % (project, 100 + i, ext)))
    src = os.path.join(tmp, "in", "Try_params.csv")
    cols = ["project_name", "seq_num", "template"]
    for r in rows:
        cols += [k for k in r if k not in cols]
    pd.DataFrame(rows, columns=cols).to_csv(src, index=False)
    ref, dst = os.path.join(tmp, "ref"), os.path.join(tmp, "dst")
    os.makedirs(ref)
    os.makedirs(dst)
    good = [n for n in names if n]
    bad = len(names) - len(good)
    done, failures, _, _ = generate_protocol_files_from_csv(src, output_directory=ref)
    out.expect(sorted(done) == sorted(os.path.join(ref, n) for n in good) and len(failures) == bad, "generated", "%s generated of %s" % (done, names))
    out.call()
    r = invoke(["-s", "status.json"] + (["--halt-on-error"] if case["halt"] else []) + ["protocol", "-d", dst, src])
    out.see(case["r"], r.exit_code)
    strip = lambda d: {re.sub(r"_names_\d+_\d+", "_names", f): open(os.path.join(d, f), "rb").read() for f in tree(d)}
    a, b = strip(dst), strip(ref)
    out.see(sorted(a))
    fmt = lambda x: {k: re.sub(rb"[^\n]*ref/|[^\n]*dst/", b"", v) for k, v in x.items()}
    out.expect(sorted(a) == sorted(b) and fmt(a) == fmt(b), "protocol-files", lambda: "files differ from the library's: %s" % sorted(set(a) ^ set(b) | {k for k in a if a.get(k) != b.get(k)}))
    if case["halt"] and bad:
        out.expect(r.exit_code != 0, "protocol-halt", "exit status 0 although %d rows failed under --halt-on-error" % bad)
        return
    if not out.expect(r.exit_code == 0, "protocol-exit", repr(r.exception)):
        return
    st = loadfn("status.json")
    status_meta(out, st, None, [], "protocol")
    out.expect(st["files"] == {"csv": src, "csv_md5_chksum": md5(src)}, "protocol-files-status", str(st["files"]))
    gen = sorted(k for k, v in st["protocol"].items() if v["generated"])
    out.expect(gen == sorted(os.path.join(dst, n) for n in good), "protocol-status", "reported as generated: %s" % gen)
    out.expect(len([v for v in st["protocol"].values() if not v["generated"]]) == bad, "protocol-failures", "%d rows failed, status says %s" % (bad, st["protocol"]))
    out.expect(bool(st["traceback"]) == bool(bad), "protocol-traceback", str(st["traceback"])[-200:])

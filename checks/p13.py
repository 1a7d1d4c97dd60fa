"""P13 - train / predict: all small missing-value patterns x settings x request histories x save/reload."""
import copy
import itertools
import json
import math
import os
import statistics
import tempfile

PROPERTY = "P13"
RULE = "every set of missing or infinite cells up to the bound in the training and in the prediction matrix x thresholds x imputation x models x requests (all, each alone, reordered, repeated, extra columns, reloaded)"
ASSUMPTIONS = ["the regression estimators of scikit-learn are correct; the check fits the same estimator on independently prepared data",
               "thresholds are chosen so that fraction x count is exact in binary"]
BOUNDS = {"quick": "6 samples x 4 features, <=2 special cells in training (<=1 for the other 7 settings); 4 prediction samples with <=2 special cells; 3 models; 8 settings; 1 and 2 targets; 40 samples x 8 features with 20 prediction samples, missing counts around every threshold",
          "thorough": "<=3 special cells in training, <=2 for all settings, <=3 in prediction"}
CHUNK = 8

NS, NF = 6, 4
BASE = [[1.0, 5.0, 2.0, 0.5], [2.0, 3.5, 1.0, 0.25], [3.5, 4.0, 4.0, 1.5], [4.0, 1.0, 3.0, 2.5], [6.0, 2.5, 8.0, 0.75], [7.5, 0.5, 5.0, 3.0]]
YS = [[1.0, 10.0], [1.5, 8.0], [3.0, 9.0], [4.5, 5.0], [5.0, 3.0], [8.0, 1.0]]
PRED = [[2.5, 3.0, 2.5, 1.0], [5.0, 1.5, 6.0, 2.0], [0.5, 6.0, 0.5, 0.0], [9.0, 0.25, 9.0, 4.0]]
SETTINGS = [
    {},
    {"train_feature_drop_nan_thresh": 0.5, "train_sample_drop_nan_thresh": 0.75},
    {"train_feature_drop_nan_thresh": 1.0, "train_sample_drop_nan_thresh": 0.0, "impute_strategy": "mean"},
    {"train_feature_drop_nan_thresh": 0.0, "train_sample_drop_nan_thresh": 1.0, "predict_sample_nan_thresh": 1.0},
    {"train_feature_drop_nan_thresh": 0.5, "train_sample_drop_nan_thresh": 0.5, "predict_sample_nan_thresh": 0.5, "impute_strategy": "mean"},
    {"train_feature_drop_nan_thresh": 0.5, "train_sample_drop_nan_thresh": 0.5, "predict_sample_nan_thresh": 0.0},
    {"train_feature_drop_nan_thresh": 0.25, "train_sample_drop_nan_thresh": 0.25, "drop_nan_training_targets": True},
    {"train_feature_drop_nan_thresh": 0.5, "train_sample_drop_nan_thresh": 0.5, "homogenize_features": False},
]
DEF = {"train_feature_drop_nan_thresh": 0.95, "train_sample_drop_nan_thresh": 0.5, "predict_sample_nan_thresh": 0.75, "drop_nan_training_targets": False,
       "impute_strategy": "median", "homogenize_features": True}
MODELS = ["ridge", "lasso", "elasticnet"]
CELLS = [(i, j) for i in range(NS) for j in range(NF)]
PCELLS = [(i, j) for i in range(3) for j in range(NF)]


SMALL = (NS, NF, BASE, YS, PRED, ["x", "y", "z", "q"])


def big_world():
    """40 samples x 8 features and 20 prediction samples on a grid, from a fixed linear congruential sequence."""
    v = [12345]

    def nxt():
        v[0] = (1103515245 * v[0] + 12345) % 2 ** 31
        return (v[0] >> 16) % 64 * 0.25
    rows = [[nxt() for _ in range(8)] for _ in range(40)]
    ys = [[sum(r[:4]) * 0.5 + nxt() * 0.25, r[5] - r[1] + nxt() * 0.125] for r in rows]
    return 40, 8, rows, ys, [[nxt() for _ in range(8)] for _ in range(20)], ["x", "y", "z", "q", "a2", "b10", "c", "A"]


def use(big):
    global NS, NF, BASE, YS, PRED, FN
    NS, NF, BASE, YS, PRED, FN = big_world() if big else SMALL


def big_cases():
    for s in range(len(SETTINGS)):
        th = SETTINGS[s]
        ft, sm = th.get("train_feature_drop_nan_thresh", 0.95), th.get("train_sample_drop_nan_thresh", 0.5)
        for j in (0, 3, 7):
            m = int(40 * (1 - ft) + 0.5)
            for k in sorted({1, 2, 3, m - 1, m, m + 1} & set(range(1, 41))):
                for at in ("head", "tail"):
                    yield {"k": "t", "s": s, "c": [[i if at == "head" else 39 - i, j] for i in range(k)], "m": MODELS[(s + j) % 3], "y": 1, "ny": [], "big": 1}
        for k in range(1, 9):                   # row i misses its first/last k features
            yield {"k": "t", "s": s, "c": [[i, j if i % 2 else 7 - j] for i in (0, 11, 39) for j in range(k)], "m": "ridge", "y": 1, "ny": [], "big": 1}
        for step in (3, 5, 9, 11):              # scattered over the whole matrix
            yield {"k": "t", "s": s, "c": [[n // 8, n % 8] for n in range(0, 320, step)], "m": MODELS[step % 3], "y": 1, "ny": [], "big": 1}
        for y in (1, 2):
            for ny in ([], [2, 10, 39]):
                yield {"k": "t", "s": s, "c": [], "m": "elasticnet", "y": y, "ny": ny, "big": 1, "inf": [12, 5]}
        for start in range(9):
            yield {"k": "p", "s": s, "p": [[i, (i + j) % 8] for i in range(20) for j in range((i + start) % 9)], "m": MODELS[(s + start) % 3], "big": 1, **({"inf": 1} if start % 3 == 0 else {})}
        for frac in (0.5, 0.75):
            yield {"k": "score", "s": s, "frac": frac, "m": MODELS[s % 3], "big": 1}


def cases(tier):
    t = tier == "thorough"
    yield from big_cases()
    # training patterns
    for s in range(len(SETTINGS)):
        for d in range(0, (4 if s in (1, 4) else 3) if t else (3 if s in (1, 4) else 2)):
            for cells in itertools.combinations(CELLS, d):
                for m in MODELS if d < 2 else MODELS[s % 3:s % 3 + 1]:
                    yield {"k": "t", "s": s, "c": [list(c) for c in cells], "m": m, "y": 1, "ny": []}
    # whole columns / rows mostly missing
    for s in range(len(SETTINGS)):
        for j in range(NF):
            for n in (3, 4, 5, 6):
                yield {"k": "t", "s": s, "c": [[i, j] for i in range(n)], "m": "ridge", "y": 1, "ny": []}
        for i in (0, 5):
            for n in (2, 3, 4):
                yield {"k": "t", "s": s, "c": [[i, j] for j in range(n)], "m": "lasso", "y": 1, "ny": []}
    # missing targets, two targets, infinite cells
    for s in range(len(SETTINGS)):
        for ny in ([], [0], [5], [1, 3]):
            for y in (1, 2):
                for inf in (None, [2, 1]):
                    yield {"k": "t", "s": s, "c": [], "m": "elasticnet", "y": y, "ny": ny, "inf": inf}
    # prediction patterns
    for s in range(len(SETTINGS)):
        for d in range(0, 4 if t else 3):
            for cells in itertools.combinations(PCELLS, d):
                yield {"k": "p", "s": s, "p": [list(c) for c in cells], "m": MODELS[(s + d) % 3]}
        for c in PCELLS:
            yield {"k": "p", "s": s, "p": [list(c)], "m": "ridge", "inf": 1}
        for c in itertools.combinations(range(NF), 3):
            yield {"k": "p", "s": s, "p": [[1, j] for j in c], "m": "ridge"}
    for s in range(len(SETTINGS)):
        for frac in (0.5, 0.75):
            for m in MODELS:
                yield {"k": "score", "s": s, "frac": frac, "m": m}


FN = ["x", "y", "z", "q"]
HASHES = {}


def matrix(rows, names, cols, cls="ToyA", extra=None, order=None, hp=None):
    from vmc import toyfeat as tf
    import pandas as pd
    from beep.features.base import BEEPFeatureMatrix
    fs = []
    for r, n in zip(rows, names):
        f = getattr(tf, cls)(tf.datapath("/data/%s.json" % n), hyperparameters=hp)
        d = {c: [v] for c, v in zip(cols, r)}
        if extra:
            d.update({k: [v] for k, v in extra.items()})
        f.features = pd.DataFrame(d)
        fs.append(f)
    return BEEPFeatureMatrix(fs)


def prep(rows, ys, st):
    """Reference cleaning: returns (kept features, kept samples, impute values, X, Y) or None when refused."""
    n = len(rows)
    isn = lambda v: math.isnan(v) or math.isinf(v)
    feats = [j for j in range(NF) if sum(not isn(r[j]) for r in rows) >= st["train_feature_drop_nan_thresh"] * n]
    samp = [i for i in range(n) if sum(not isn(rows[i][j]) for j in feats) >= st["train_sample_drop_nan_thresh"] * len(feats)]
    if len(samp) < 2 or len(feats) < 1:
        return None
    imp = {}
    for j in feats:
        v = [rows[i][j] for i in samp if not isn(rows[i][j])]
        if not v:
            return "skip"
        imp[j] = statistics.median(v) if st["impute_strategy"] == "median" else sum(v) / len(v)
    if any(any(math.isnan(v) for v in ys[i]) for i in samp):
        if not st["drop_nan_training_targets"]:
            return None
        samp = [i for i in samp if not any(math.isnan(v) for v in ys[i])]
        if len(samp) < 2:
            return None
    X = [[imp[j] if isn(rows[i][j]) else rows[i][j] for j in feats] for i in samp]
    return feats, samp, imp, X, [ys[i] for i in samp]


def scale_stats(X):
    o = []
    for j in range(len(X[0])):
        c = [r[j] for r in X]
        m = sum(c) / len(c)
        s = math.sqrt(sum((x - m) ** 2 for x in c) / len(c))
        o.append((m, s if s > 1e-12 else 1.0))
    return o


def fit_ref(model, Z, Y, hp, ntargets):
    import numpy as np
    from sklearn.linear_model import Lasso, ElasticNet, MultiTaskElasticNet, Ridge
    Z, Y = np.array(Z), np.array(Y)
    if model == "ridge":
        # closed form
        y = Y[:, 0]
        A = Z.T @ Z + hp["alpha"] * np.eye(Z.shape[1])
        w = np.linalg.solve(A, Z.T @ (y - y.mean()))
        return lambda z: [float(np.dot(z, w) + y.mean())]
    cls = Lasso if model == "lasso" else (ElasticNet if ntargets == 1 else MultiTaskElasticNet)
    e = cls(fit_intercept=True, max_iter=1000000, **hp)
    e.fit(Z, Y[:, 0] if ntargets == 1 else Y)
    return lambda z: [float(v) for v in np.ravel(e.predict(np.array([z])))]


def make(case, rows, ys, ycols):
    from beep.model import BEEPLinearModelExperiment
    st = dict(DEF, **SETTINGS[case["s"]])
    names = ["s%d" % i for i in range(len(rows))]
    fm = matrix(rows, names, FN)
    tm = matrix([y[:len(ycols)] + [0.5] for y in ys], names, ycols + ["unused"], cls="ToyB")
    suffix = {"x": "ToyA", "t": "ToyB"}
    tcols = [c for c in tm.matrix.columns if c.split("::")[0] in ycols]
    tcols = sorted(tcols, key=lambda c: ycols.index(c.split("::")[0]))
    targets = ["::".join(c.split("::")[:2]) for c in tcols] if st["homogenize_features"] else tcols
    kw = dict(SETTINGS[case["s"]], alphas=[0.5, 0.125], kfold=2, l1_ratio=[0.5])
    before = repr(fm.matrix.to_dict()), repr(tm.matrix.to_dict())
    return BEEPLinearModelExperiment, fm, tm, targets, kw, st, before


def run_case(case, out):
    from beep.model import BEEPMLExperimentError
    import numpy as np
    use(case.get("big"))
    rows = copy.deepcopy(BASE)
    ys = copy.deepcopy(YS)
    for i, j in case.get("c", []):
        rows[i][j] = float("nan")
    if case.get("inf") and case["k"] == "t":
        rows[case["inf"][0]][case["inf"][1]] = float("inf")
    for i in case.get("ny", []):
        ys[i][0] = float("nan")
    ycols = ["t1", "t2"][:case.get("y", 1)]
    ys = [y[:len(ycols)] for y in ys]
    cls, fm, tm, targets, kw, st, before = make(case, rows, ys, ycols)
    ref = prep(rows, ys, st)
    if ref == "skip":
        out.nontrivial = False
        return
    what = json.dumps(case)
    out.call()
    try:
        exp = cls(fm, tm, targets, case["m"], **kw)
    except BEEPMLExperimentError as e:
        out.see("refused")
        out.expect(ref is None, "refused", lambda: f"refused ({e}): {what}"[:400])
        return
    if not out.expect(ref is not None, "accepted", lambda: f"accepted a matrix that the thresholds leave unusable: {what}"):
        return
    feats, samp, imp, X, Y = ref
    labels = [c.split("::")[0] for c in exp.feature_labels]
    out.expect(sorted(labels) == sorted(FN[j] for j in feats), "features", lambda: f"features kept {labels} expected {[FN[j] for j in feats]}: {what}")
    out.expect([os.path.basename(i)[:-5] for i in exp.X.index] == ["s%d" % i for i in samp], "samples", lambda: f"samples kept {list(exp.X.index)} expected {samp}: {what}")
    if out.problems:
        return
    order = [FN.index(l) for l in labels]
    got = exp.X.values.tolist()
    want = [[X[a][feats.index(j)] for j in order] for a in range(len(samp))]
    out.expect(all(abs(a - b) < 1e-9 for r, s in zip(got, want) for a, b in zip(r, s)), "clean", lambda: f"training matrix {got} expected {want}: {what}")
    out.expect(np.allclose(exp.y.values, np.array(Y)), "targets", lambda: f"targets {exp.y.values.tolist()} expected {Y}: {what}")
    out.expect((repr(fm.matrix.to_dict()), repr(tm.matrix.to_dict())) == before, "mutated", lambda: f"the caller's matrices were modified: {what}")
    try:
        exp.as_dict()
        out.bad("untrained", "an untrained model was serialised")
    except ValueError:
        pass
    try:
        exp.predict(fm)
        out.bad("untrained-predict", "an untrained model predicts")
    except BEEPMLExperimentError:
        pass
    out.call(3)
    np.random.seed(case.get("s", 0))
    if case["k"] == "score":
        _, tr, te = exp.train_and_score(case["frac"])
        for errs in (tr, te):
            out.expect(set(errs) == {"rmse", "mae", "r2", "max_error"}, "metrics", "error metrics")
        scal = None
    else:
        _, tr = exp.train()
        stats = scale_stats(want)
        Z = [[(v - m) / s for v, (m, s) in zip(r, stats)] for r in want]
        predictor = fit_ref(case["m"], Z, Y, exp.optimal_hyperparameters, len(ycols))
        out.expect(exp.optimal_hyperparameters["alpha"] in (0.5, 0.125) or case["m"] == "ridge" and exp.optimal_hyperparameters["alpha"] in (0.5, 0.125), "alphas", lambda: f"alpha {exp.optimal_hyperparameters} not among those given")
        # training errors
        fitted = [predictor(z) for z in Z]
        for k, t in enumerate(targets):
            e = [y[k] - f[k] for y, f in zip(Y, fitted)]
            rm, ma = math.sqrt(sum(x * x for x in e) / len(e)), sum(abs(x) for x in e) / len(e)
            g = tr if len(targets) == 1 else {m: tr[m][t] for m in tr}
            out.expect(abs(g["rmse"] - rm) < 1e-4 and abs(g["mae"] - ma) < 1e-4 and abs(g["max_error"] - max(abs(x) for x in e)) < 1e-4, "errors", lambda: f"training errors {g} expected rmse {rm} mae {ma}: {what}")
        scal = stats
    # requests
    prows = copy.deepcopy(PRED)
    for i, j in case.get("p", []):
        prows[i][j] = float("inf") if case.get("inf") and case["k"] == "p" else float("nan")
    if case["k"] == "score":
        prows[1][0] = float("nan")
        # predictions are judged against the model's own coefficients and scaling of the training part
        mean, sc = list(exp.scaler.mean_), list(exp.scaler.scale_)
        coef, ic = np.ravel(exp.model.coef_), float(np.ravel(exp.model.intercept_)[0])
        scal = list(zip(mean, sc))
        predictor = lambda z: [float(np.dot(z, coef) + ic)]
    names = ["p%d" % i for i in range(len(prows))]
    isn = lambda v: math.isnan(v) or math.isinf(v)

    def expected(i):
        r = prows[i]
        if sum(not isn(r[j]) for j in order) < st["predict_sample_nan_thresh"] * len(order):
            return None
        x = [imp[j] if isn(r[j]) else r[j] for j in order]
        return predictor([(v - m) / s for v, (m, s) in zip(x, scal)])

    def request(e, ids, tag, extra=None, cols=None, hp=None, frame=False, times=1):
        m = matrix([[prows[i][FN.index(c)] for c in (cols or FN)] for i in ids], [names[i] for i in ids], cols or FN, extra=extra, hp=hp)
        fmx = m.matrix if frame else m
        b4 = repr(m.matrix.to_dict())
        for n in range(times):
            out.call()
            keep = [i for i in ids if expected(i) is not None]
            if not keep:
                return
            yp, dropped = e.predict(fmx)
            gi = [os.path.basename(x)[:-5] for x in yp.index]
            if not out.expect(gi == [names[i] for i in keep], "pred-kept", lambda: f"{tag}: predictions for {gi} expected {[names[i] for i in keep]}: {what}"):
                return
            gd = sorted(os.path.basename(x)[:-5] for x in dropped)
            out.expect(gd == sorted(names[i] for i in ids if i not in keep), "pred-dropped", lambda: f"{tag}: dropped {gd} expected {[names[i] for i in ids if i not in keep]}: {what}")
            out.expect(list(yp.columns) == targets, "pred-cols", lambda: f"{tag}: columns {list(yp.columns)}")
            for row, i in enumerate(keep):
                w = expected(i)
                g = [float(v) for v in yp.iloc[row]]
                out.expect(all(abs(a - b) <= 1e-4 * max(1, abs(b)) for a, b in zip(g, w)), "pred-value", lambda: f"{tag}: {names[i]} -> {g} expected {w}: {what}")
            out.see(tag, [round(float(v), 6) for v in yp.values.ravel()])
            if not out.expect(repr(m.matrix.to_dict()) == b4, "pred-mutated", lambda: f"{tag}: predict modified the caller's matrix: {what}"):
                return
    everyone = list(range(len(prows)))
    deep = case["k"] != "t" or len(case.get("c", [])) == 0
    request(exp, everyone, "all", times=2)
    if deep:
        for i in everyone:
            request(exp, [i], "alone%d" % i)
        request(exp, everyone[::-1], "reversed")
        request(exp, everyone, "extra", extra={"more1": 1.0, "more2": float("nan"), "more3": 2.0})
        request(exp, everyone, "columns", cols=FN[::-1])
        request(exp, [0, 3], "frame", frame=True, times=2)
        if st["homogenize_features"]:
            request(exp, everyone, "otherhp", hp={"k": 3, "w": [1]})
    if deep or case["m"] == "ridge":
        out.call(2)
        d = json.loads(json.dumps(exp.as_dict(), default=float))
        request(cls.from_dict(d), everyone, "reloaded", times=2)
        if deep and case["k"] != "p":
            with tempfile.TemporaryDirectory() as td:
                p = os.path.join(td, "m.json")
                exp.to_json_file(p)
                request(cls.from_json_file(p), everyone, "from-file")
    # a required feature missing from the request is refused
    if deep:
        m = matrix([[1.0] * (NF - 1)], ["p0"], [FN[j] for j in range(NF) if j != order[0]])
        try:
            out.call()
            exp.predict(m)
            out.bad("missing-feature", f"a request without feature {FN[order[0]]} was answered: {what}")
        except BEEPMLExperimentError:
            pass

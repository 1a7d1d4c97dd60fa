"""P14 - data splitter: all small missing-value / exclusion patterns x configurations x reload."""
import copy
import itertools
import json
import math
import os
import statistics
import tempfile

PROPERTY = "P14"
RULE = "every set of missing cells up to the bound x thresholds x imputation; every assignment of exclusion flags; every assignment of samples to split groups; x folds x random states x reload"
ASSUMPTIONS = ["thresholds are chosen so that fraction x count is exact in binary", "with homogenize_features the caller's column names lose their settings hash (the existing tests rely on it); values are what is protected"]
BOUNDS = {"quick": "6 samples x 3 features, <=2 special cells; all 2^6 exclusion flags (1 column), all pairs of columns over 4 samples; all partitions of 6 samples in <=3 groups; 2-3 folds; 40 samples in up to 20 groups and 40 folds",
          "thorough": "<=3 special cells; all 3-group assignments with all exclusion flags of 5 samples; 2-5 folds"}
CHUNK = 8
NS, NF = 6, 3
BASE = [[1.0, 5.0, 2.0], [2.0, 3.5, 1.0], [3.5, 4.0, 4.0], [4.0, 1.0, 3.0], [6.0, 2.5, 8.0], [7.5, 0.5, 5.0]]
YS = [1.0, 1.5, 3.0, 4.5, 5.0, 8.0]
FN = ["x", "y", "z"]
CELLS = [(i, j) for i in range(NS) for j in range(NF)]
CONF = [{}, {"train_feature_drop_nan_thresh": 0.5, "train_sample_drop_nan_thresh": 0.0}, {"train_feature_drop_nan_thresh": 1.0, "train_sample_drop_nan_thresh": 0.5, "impute_strategy": "mean"},
        {"train_feature_drop_nan_thresh": 0.0, "train_sample_drop_nan_thresh": 1.0}, {"impute_strategy": "none", "homogenize_features": False}, {"drop_nan_training_targets": False, "n_splits": 3, "random_state": 3}]
DEF = {"train_feature_drop_nan_thresh": 0.75, "train_sample_drop_nan_thresh": 0.5, "drop_nan_training_targets": True, "impute_strategy": "median", "n_splits": 2, "homogenize_features": True,
       "random_state": 10, "drop_split_threshold": 0.5}


SMALL = (NS, BASE, YS)


def use(big):
    """40 samples on a grid, from a fixed linear congruential sequence, or the small world."""
    global NS, BASE, YS
    if not big:
        NS, BASE, YS = SMALL
        return
    v = [777]

    def nxt():
        v[0] = (1103515245 * v[0] + 12345) % 2 ** 31
        return (v[0] >> 16) % 64 * 0.25
    NS, BASE, YS = 40, [[nxt() for _ in range(3)] for _ in range(40)], [0.5 + nxt() for _ in range(40)]


def big_cases():
    for c in range(len(CONF)):
        ft = CONF[c].get("train_feature_drop_nan_thresh", 0.75)
        lim = int(40 * (1 - ft))
        for j in range(NF):
            for k in sorted({1, 2, lim - 1, lim, lim + 1, 39} & set(range(1, 41))):
                yield {"c": c, "m": [[i if j % 2 else 39 - i, j] for i in range(k)], "big": 1}
        for step in (2, 4, 5, 7, 11):
            yield {"c": c, "m": [[n // 3, n % 3] for n in range(0, 120, step)], "big": 1, "n": 5, "ny": [2, 10, 12, 39][:step % 5]}
    for c in (0, 4):
        for mod in (2, 3, 7, 20):        # 40 samples in `mod` groups, as blocks or interleaved
            for g in ([i % mod for i in range(40)], [min(i * mod // 40, mod - 1) for i in range(40)], [(i * i) % mod for i in range(40)]):
                for n in sorted({2, 3, 5, 10, len(set(g))}):
                    if n <= len(set(g)):
                        for two in (0, 1):
                            yield {"c": c, "m": [[11, 1]], "g": g, "n": n, "gt": two, "big": 1}
                for drop in (3, 4, 11):
                    for th in (0.25, 0.5, 0.75):
                        yield {"c": c, "m": [], "g": g, "n": 2, "e": [[0 if i % drop == 1 else 1 for i in range(40)]], "th": th, "big": 1}
        for n in (2, 3, 5, 7, 10, 39, 40):
            for rs in (0, 7, 10, 42):
                yield {"c": c, "m": [], "n": n, "rs": rs, "big": 1}


def cases(tier):
    t = tier == "thorough"
    yield from big_cases()
    for c in range(len(CONF)):
        for d in range(0, 4 if t else 3):
            for cells in itertools.combinations(CELLS, d):
                yield {"c": c, "m": [list(x) for x in cells]}
        for j in range(NF):
            for n in (2, 3, 4, 5, 6):
                yield {"c": c, "m": [[i, j] for i in range(n)]}
        for i in range(NS):
            yield {"c": c, "m": [[i, j] for j in range(NF)]}
        for ny in itertools.combinations(range(NS), 1):
            yield {"c": c, "m": [], "ny": list(ny)}
        for ny in ([0, 1, 2, 3], [0, 1, 2, 3, 4], [1, 4]):
            yield {"c": c, "m": [[1, 1]], "ny": ny}
        yield {"c": c, "m": [[2, 0]], "inf": 1, "two": 1}
    for flags in itertools.product((1, 0), repeat=NS):
        for n in (2, 3):
            yield {"c": 0, "m": [], "e": [list(flags)], "n": n}
    for flags in itertools.product(((1, 1), (1, 0), (0, 1), (0, 0), (None, 1)), repeat=4 if t else 3):
        fl = [[1, 1]] * (NS - len(flags)) + [list(f) for f in flags]
        yield {"c": 1, "m": [], "e": [[f[0] for f in fl], [f[1] for f in fl]], "n": 2}
    seen = set()
    for g in itertools.product((0, 1, 2), repeat=NS):
        # canonical by first appearance
        m, canon = {}, []
        for v in g:
            canon.append(m.setdefault(v, len(m)))
        if tuple(canon) in seen or len(set(canon)) < 2:
            continue
        seen.add(tuple(canon))
        for n in range(2, 1 + len(set(canon))):
            for two in (0, 1, 2, 3):
                yield {"c": 0, "m": [], "g": canon, "n": n, "gt": two}
        for flags in itertools.product((1, 0), repeat=5 if t else 3):
            for th in (0.5, 1.0, 0.0):
                yield {"c": 0, "m": [], "g": canon, "n": 2, "e": [[1] * (NS - len(flags)) + list(flags)], "th": th}
    for n in (2, 3, 4, 5, 6):
        for rs in (0, 1, 10):
            yield {"c": 0, "m": [], "n": n, "rs": rs}


def run_case(case, out):
    from vmc import toyfeat as tf
    import pandas as pd
    from beep.features.base import BEEPFeatureMatrix
    from beep.prediction.beep_data_splitter import BEEPDataSplitter, BEEPDataSplitterError
    nan = float("nan")
    use(case.get("big"))
    rows, ys = copy.deepcopy(BASE), list(YS)
    for i, j in case["m"]:
        rows[i][j] = float("inf") if case.get("inf") else nan
    for i in case.get("ny", []):
        ys[i] = nan
    ncol = len(case.get("e", []))
    fs = []
    for i in range(NS):
        f = tf.ToyA(tf.datapath("/data/s%d.json" % i))
        d = {n: [v] for n, v in zip(FN, rows[i])}
        d["t1"], d["t2"], d["other"] = [ys[i]], [YS[i] * 2], [9.0]
        for k in range(ncol):
            v = case["e"][k][i]
            d["e%d" % k] = [nan if v is None else bool(v)]
        if "g" in case:
            gi = case["g"][i]
            d["g1"] = [float(gi % 2 if case.get("gt") else gi)]
            d["g2"] = [float(gi // 2)]
            if case.get("gt", 0) > 1:
                # pairs that only look alike when their digits are run together, added or swapped
                d["g1"], d["g2"] = ([v] for v in (((1, 12), (11, 2), (12, 1)), ((1.0, 11.0), (1.01, 1.0), (11.0, 1.0)))[case["gt"] - 2][gi])
        f.features = pd.DataFrame(d)
        fs.append(f)
    fm = BEEPFeatureMatrix(fs)
    cf = dict(DEF, **CONF[case["c"]])
    if "n" in case:
        cf["n_splits"] = case["n"]
    if "rs" in case:
        cf["random_state"] = case["rs"]
    if "th" in case:
        cf["drop_split_threshold"] = case["th"]
    full = {c.split("::")[0]: c for c in fm.matrix.columns}
    nm = (lambda c: "::".join(full[c].split("::")[:2])) if cf["homogenize_features"] else (lambda c: full[c])
    targets = ["t1"] + (["t2"] if case.get("two") else [])
    kw = dict(cf, split_columns=[nm(c) for c in (["g1", "g2"] if case.get("gt") else ["g1"])] if "g" in case else None, exclusion_columns=[nm("e%d" % k) for k in range(ncol)] if ncol else None)
    vals = repr(fm.matrix.values.tolist())
    what = json.dumps(case)

    # ---- reference cleaning
    isn = lambda v: v is None or (isinstance(v, float) and (math.isnan(v) or math.isinf(v)))
    cols = {n: [r[j] for r in rows] for j, n in enumerate(FN)}
    if "g" in case:
        for c in (["g1", "g2"] if case.get("gt") else ["g1"]):
            cols[c] = [1.0] * NS
    for k in range(ncol):
        cols["e%d" % k] = case["e"][k]
    keepc = [c for c in cols if sum(not isn(v) for v in cols[c]) >= cf["train_feature_drop_nan_thresh"] * NS]
    if any(c not in keepc for c in cols if c[0] in "eg"):
        out.nontrivial = False
        return
    keep = [i for i in range(NS) if sum(not isn(cols[c][i]) for c in keepc) >= cf["train_sample_drop_nan_thresh"] * len(keepc)]
    feats = [f for f in FN if f in keepc]
    imp = {}
    for f in feats:
        v = [cols[f][i] for i in keep if not isn(cols[f][i])]
        imp[f] = nan if cf["impute_strategy"] == "none" or not v else statistics.median(v) if cf["impute_strategy"] == "median" else sum(v) / len(v)
    before_ex = list(keep)
    if ncol:
        keep = [i for i in keep if all(case["e"][k][i] for k in range(ncol))]
        if "g" in case:
            keep = [i for i in keep if len([j for j in keep if case["g"][j] == case["g"][i]]) / len([j for j in before_ex if case["g"][j] == case["g"][i]]) >= cf["drop_split_threshold"]]
    refused = len(keep) < 2 or len(keepc) + (1 if "g" in case else 0) < 1
    if not refused and any(isn(ys[i]) for i in keep):
        if cf["drop_nan_training_targets"]:
            keep = [i for i in keep if not isn(ys[i])]
            refused = len(keep) < 2
        else:
            refused = True
    out.call()
    try:
        sp = BEEPDataSplitter(feature_matrix=fm, features=[nm(f) for f in FN], targets=[nm(t) for t in targets], **kw)
    except BEEPDataSplitterError as e:
        out.see("refused")
        out.expect(refused, "refused", lambda: f"refused ({e}): {what}"[:400])
        return
    if not out.expect(not refused, "accepted", lambda: f"accepted what the thresholds leave unusable: {what}"):
        return
    ids = lambda df: [int(os.path.basename(x)[1:-5]) for x in df.index]
    out.expect(repr(fm.matrix.values.tolist()) == vals, "mutated", lambda: f"the values of the caller's matrix changed: {what}")
    out.expect(sp.feature_labels == [nm(f) for f in feats], "features", lambda: f"predictors {sp.feature_labels} expected {feats}: {what}")
    if not out.expect(ids(sp.X) == keep and ids(sp.y) == keep, "samples", lambda: f"samples kept {ids(sp.X)} / {ids(sp.y)} expected {keep}: {what}"):
        return
    groups = [case["g"][i] for i in keep] if "g" in case else keep
    ng = len(set(groups))
    if ng < cf["n_splits"] or not feats:
        out.nontrivial = False
        return

    def cell(f, i):
        return imp[f] if isn(cols[f][i]) else cols[f][i]

    def digest(sets):
        return [[ids(d.train_X), ids(d.train_y), ids(d.test_X), ids(d.test_y)] for d in sets]

    def judge(sets, tag):
        if not out.expect(len(sets) == cf["n_splits"], tag + "-n", lambda: f"{len(sets)} splits: {what}"):
            return
        tested = []
        sizes = []
        for d in sets:
            tr, te = ids(d.train_X), ids(d.test_X)
            out.expect(ids(d.train_y) == tr and ids(d.test_y) == te, tag + "-align", lambda: f"features and targets of a split list other samples: {what}")
            out.expect(sorted(tr + te) == keep and not set(tr) & set(te), tag + "-partition", lambda: f"train {tr} test {te} do not partition {keep}: {what}")
            tested += te
            if "g" in case:
                out.expect(not {case["g"][i] for i in tr} & {case["g"][i] for i in te}, tag + "-leak", lambda: f"a group is in both train {tr} and test {te}: {what}")
                sizes.append(len({case["g"][i] for i in te}))
            else:
                sizes.append(len(te))
            for X, y in ((d.train_X, d.train_y), (d.test_X, d.test_y)):
                out.expect(list(X.columns) == [nm(f) for f in feats] and list(y.columns) == [nm(t) for t in targets], tag + "-cols", lambda: f"columns {list(X.columns)} / {list(y.columns)}: {what}")
                for i, xr, yr in zip(ids(X), X.values.tolist(), y.values.tolist()):
                    w = [cell(f, i) for f in feats]
                    out.expect(all(abs(a - b) < 1e-9 or (math.isnan(a) and math.isnan(b)) for a, b in zip(xr, w)), tag + "-x", lambda: f"sample {i} has features {xr} expected {w}: {what}")
                    out.expect(yr[0] == ys[i] and (len(yr) < 2 or yr[1] == 2 * YS[i]), tag + "-y", lambda: f"sample {i} has target {yr}: {what}")
        out.expect(sorted(tested) == keep, tag + "-cover", lambda: f"test parts {sorted(tested)} over all splits are not each sample once: {what}")
        n, k = ng, cf["n_splits"]
        out.expect(sorted(sizes) == sorted([n // k + (1 if i < n % k else 0) for i in range(k)]), tag + "-sizes", lambda: f"test parts of sizes {sizes} for {n} in {k} folds: {what}")
    out.call()
    sp.split()
    judge(sp.datasets, "split")
    first = digest(sp.datasets)
    out.see(first)
    out.call(3)
    sp.split()
    out.expect(digest(sp.datasets) == first, "again", lambda: f"splitting again differs: {what}")
    again = BEEPDataSplitter(feature_matrix=BEEPFeatureMatrix(fs), features=[nm(f) for f in FN], targets=[nm(t) for t in targets], **kw)
    again.split()
    out.expect(digest(again.datasets) == first, "same-inputs", lambda: f"the same inputs split differently: {what}")
    d = json.loads(json.dumps(sp.as_dict(), default=lambda o: o.item()))
    r = BEEPDataSplitter.from_dict(d)
    judge(r.datasets, "reload")
    out.expect(digest(r.datasets) == first, "reload-sets", lambda: f"reloaded splits differ: {what}")
    if out.expect(ids(r.X) == keep, "reload-samples", lambda: f"reloaded splitter keeps {ids(r.X)} expected {keep}: {what}"):
        r.split()
        judge(r.datasets, "reload-split")
        out.expect(digest(r.datasets) == first, "reload-resplit", lambda: f"a reloaded splitter splits differently: {what}")
    if len(case["m"]) == 0 and "g" not in case:
        with tempfile.TemporaryDirectory() as td:
            p = os.path.join(td, "s.json")
            sp.to_json_file(p)
            q = BEEPDataSplitter.from_json_file(p)
            out.expect(digest(q.datasets) == first and ids(q.X) == keep, "file", lambda: f"splitter read from file differs: {what}")

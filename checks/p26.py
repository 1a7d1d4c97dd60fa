"""P26 - principal components of interpolated curves."""
import itertools
import json
import os
import tempfile
import warnings

PROPERTY = "P26"
RULE = "every small data matrix over the row alphabet x components x quantities queried; every list of files x cycle selection x quantity x axis x form of the list; non-trivial: a decomposition or a pivot table was produced"
ASSUMPTIONS = ["the sign and, for equal variances, the rotation of components are free: the components are checked to be principal directions and the figures are recomputed from them",
               "data without variance, and thresholds that the components do not reach, are refused", "the files of one list share the pivot axis"]
BOUNDS = {"quick": "all sequences of 4 rows from 6 vectors x 1-3 components x 4 thresholds x quantiles, new data of 4 rows; 3 files, lists of <=3, 5 cycle selections, 3 quantities x 2 axes",
          "thorough": "all sequences of 5 rows from 6 vectors and of 4 rows from 9"}
CHUNK = 60
ROWS = [(0., 0., 0.), (1., 0., 2.), (2., 1., 0.), (0., 3., 1.), (1., 1., 1.), (5., 2., 3.), (4., 0., 1.), (0., 1., 4.), (2., 2., 5.)]
NEW = [(0., 0., 0.), (1.5, .5, 1.), (9., -4., 2.), (1., 2., 1.)]
THR = [.5, .75, .9, .999]
QUANT = [(95, 5), (80, 10), (100, 0), (60, 40)]


def cases(tier):
    for n, m in ((4, 6),) if tier == "quick" else ((4, 6), (5, 6), (4, 9)):
        for rows in itertools.product(range(m), repeat=n):
            if len(set(rows)) > 1:
                yield {"k": "pca", "rows": list(rows)}
    for n in (1, 2, 3):
        for fs in itertools.product(range(3), repeat=n):
            for cs in range(6):
                yield {"k": "pivot", "f": list(fs), "c": cs, "q": 0, "x": 0, "j": (sum(fs) + cs) % 2}
    for q in range(3):
        for x in range(2):
            for j in range(2):
                yield {"k": "pivot", "f": [1, 0], "c": 0, "q": q, "x": x, "j": j}
    for c in range(3):
        yield {"k": "build", "f": [1, 0], "c": c}
        yield {"k": "build", "f": [2], "c": c}


CYC = [[2, 3, 5], [5, 2, 2], list(range(0, 60)), [99], [20], [21, 7, 2, 4, 8, 20]]
QTY = ["discharge_capacity", "discharge_energy", "current"]
AXIS = ["voltage", "discharge_capacity"]


def curve(f, c, i, what):
    if what == "voltage":
        return 2.8 + 0.05 * i
    if what == "charge_capacity":
        return 7.0 + i
    w = ((c * c * 31 + c * 17 + i * i * 13 + c * i * 7 + f * 41) % 89) / 89.0
    return {"discharge_capacity": 0.05 * i + 0.01 * w * (1 + f), "discharge_energy": 0.2 * i + 0.1 * w * w, "current": -1.0 - w}[what]


NC = [(2, 8), (1, 22), (3, 60)]   # first and last cycle of each file
NP = 18


def make(f, path):
    import pandas as pd
    from beep.structure.arbin import ArbinDatapath
    rows = []
    for c in range(NC[f][0], NC[f][1] + 1):
        if f == 1 and c == 3:
            continue
        for st in ("discharge", "charge") if c % 2 else ("charge", "discharge"):
            for i in range(NP):
                r = {k: curve(f, c, i, k) for k in ("voltage", "discharge_capacity", "discharge_energy", "current", "charge_capacity")}
                if st == "charge":
                    r = {k: v + 100 for k, v in r.items()}
                rows.append(dict(r, cycle_index=c, step_type=st))
    dp = ArbinDatapath(raw_data=pd.DataFrame(), metadata={}, paths={"raw": "/x/%d.csv" % f})
    dp.structured_data = pd.DataFrame(rows)
    dp.structured_summary = pd.DataFrame({"cycle_index": sorted({r["cycle_index"] for r in rows})})
    dp.to_json_file(path)


def want(f, sel, q):
    return [[curve(f, c, i, q) for i in range(NP)] for c in range(NC[f][0], NC[f][1] + 1) if c in sel and not (f == 1 and c == 3)]


def run_case(case, out):
    warnings.simplefilter("ignore")
    import numpy as np
    import pandas as pd
    from beep.features.principal_components import PrincipalComponents, pivot_data
    if case["k"] == "pca":
        return pca(case, out, np, pd, PrincipalComponents)
    with tempfile.TemporaryDirectory() as td:
        names = [os.path.join(td, "f%d_structure.json" % f) for f in range(3)]
        for f in sorted(set(case["f"])):
            make(f, names[f])
        spec = json.dumps({"file_list": [names[f] for f in case["f"]], "run_list": [1]})
        if case.get("j"):
            with open(os.path.join(td, "list.json"), "w") as fh:
                fh.write(spec)
            spec = os.path.join(td, "list.json")
        sel = CYC[case["c"]]
        if case["k"] == "pivot":
            q, x = QTY[case["q"]], AXIS[case["x"]]
            if x == q:
                return
            arg = np.array(sel) if case["c"] % 2 else sel
            out.call()
            d = pivot_data(spec, q, x, arg)
            exp = []
            if x == "voltage":
                for f in case["f"]:
                    exp += want(f, sel, q)
                ax = [curve(0, 0, i, "voltage") for i in range(NP)]
            else:
                # the values of the axis differ between cycles: every cycle fills its own columns
                ax = sorted({curve(f, c, i, x) for f in case["f"] for c in range(NC[f][0], NC[f][1] + 1) if c in sel and not (f == 1 and c == 3) for i in range(NP)})
                for f in case["f"]:
                    for c in range(NC[f][0], NC[f][1] + 1):
                        if c in sel and not (f == 1 and c == 3):
                            own = {curve(f, c, i, x): curve(f, c, i, q) for i in range(NP)}
                            exp.append([own.get(a, float("nan")) for a in ax])
            if not exp:
                out.see("empty")
                return out.expect(len(d) == 0, "rows", "no cycle selected but %d rows" % len(d))
            out.see(d.round(6).to_json())
            if not out.expect(d.shape == (len(exp), len(ax)), "shape", "%s instead of %s" % (d.shape, (len(exp), len(ax)))):
                return
            if x != "voltage":
                d = d[sorted(d.columns)]
            out.expect(np.allclose(np.asarray(d.columns, float), ax, atol=1e-6), "axis", "pivot axis differs")
            out.expect(np.allclose(d.values.astype(float), np.array(exp), atol=1e-5, equal_nan=True), "values", "rows are not the selected cycles' discharge values")
            return
        # build: the class method decomposes exactly that table, default 15 components
        sel = [list(range(0, 60)), list(range(4, 22)), list(range(1, 60, 1))][case["c"]]
        rows = sum((want(f, sel, "discharge_capacity") for f in case["f"]), [])
        out.call()
        p = PrincipalComponents.from_interpolated_data(spec, name="n1", cycles_to_pca=np.array(sel))
        out.see(len(rows), p.min_components)
        out.expect(p.name == "n1", "name", "name is %s" % p.name)
        out.expect(np.allclose(np.asarray(p.data, float), np.array(rows), atol=1e-5), "values", "decomposed table differs")
        out.expect(p.embeddings.shape == (len(rows), 15), "components", "%s" % (p.embeddings.shape,))
        out.expect(p.explained_variance_threshold == .9, "threshold", "default threshold %s" % p.explained_variance_threshold)


def pca(case, out, np, pd, PC):
    X = np.array([ROWS[i] for i in case["rows"]])
    n, d = X.shape
    mu, sd = X.mean(0), X.std(0)
    sd = np.where(sd < 1e-12, 1.0, sd)
    Z = (X - mu) / sd
    ev = np.sort(np.linalg.eigvalsh(Z.T @ Z))[::-1]
    frame = pd.DataFrame(X, columns=["a", "b", "c"], index=[10 + 3 * i for i in range(n)])
    new = pd.DataFrame(NEW, columns=["a", "b", "c"], index=list("pqrs"))
    new0 = new.copy(deep=True)
    f0 = frame.copy(deep=True)
    for k in (1, 2, 3):
        ratio = np.cumsum(ev)[:k] / ev.sum()
        for thr in THR if k == 2 else THR[1:3] if k == 3 else THR[:2]:
            if min(abs(ratio - thr)) < 1e-6:
                continue
            m = [i + 1 for i in range(k) if ratio[i] > thr]
            out.call()
            try:
                p = PC(frame, name="x", n_components=k, explained_variance_threshold=thr)
            except ValueError:
                out.expect(not m, "refused", "%s components refused though %s explain %s" % (k, m, thr))
                continue
            out.expect(bool(m) and p.min_components == m[0], "min-components", "%s, expected %s (threshold %s, ratios %s)" % (p.min_components, m, thr, ratio))
        if not m:
            continue
        C = np.asarray(p.pca.components_)
        S = Z.T @ Z
        if not out.expect(np.allclose(C @ C.T, np.eye(k), atol=1e-8) and np.allclose(S @ C.T, C.T * ev[:k], atol=1e-6), "directions", "components are not the principal directions"):
            continue
        E = Z @ C.T
        out.see(k, np.round(np.abs(E), 6).tolist())
        out.expect(np.allclose(p.embeddings, E, atol=1e-8), "embeddings", "training embeddings differ")
        R = (E @ C) * sd + mu
        out.expect(np.allclose(p.reconstructions, R, atol=1e-8), "reconstructions", "training reconstructions differ")
        err = np.abs(R - X).mean(1)
        out.expect(np.allclose(np.asarray(p.reconstruction_errors), err, atol=1e-8), "errors", "training errors differ")
        En = ((new.values - mu) / sd) @ C.T
        out.call(3)
        out.expect(np.allclose(p.get_pca_embeddings(new), En, atol=1e-8), "new-embeddings", "embedding of new data differs")
        Rn = (En @ C) * sd + mu
        out.expect(np.allclose(p.get_pca_reconstruction(En), Rn, atol=1e-8), "new-reconstruction", "reconstruction differs")
        for t in (1.5, 0.5, 1.0):
            e2, fl = p.get_reconstruction_error_outliers(new, threshold=t)
            en = np.abs(Rn - new.values).mean(1)
            out.expect(np.allclose(np.asarray(e2), en, atol=1e-8), "new-errors", "errors of new data differ")
            lim = err.max() * t
            out.expect(all(bool(f) == (x > lim) for f, x in zip(np.asarray(fl), en) if abs(x - lim) > 1e-7), "error-outliers", "flags %s for errors %s limit %s" % (list(fl), en, lim))
        dd = p.as_dict()
        out.expect(dd["@class"] == "PrincipalComponents" and np.allclose(dd["embeddings"], E, atol=1e-8) and np.allclose(np.asarray(dd["reconstruction_errors"]), err, atol=1e-8)
                   and np.allclose(dd["pca"]["components_"], C) and np.allclose(dd["scaler"]["mean_"], mu), "as-dict", "serialised content differs")
        se = E.std(0)
        if min(se) > 1e-6:
            W = (E - E.mean(0)) / se
            Wn = (En - E.mean(0)) / se
            for which, data, w in (("new", new, Wn), ("own", frame, W)):
                for up, lo in QUANT:
                    out.call()
                    dist, fl = p.get_pca_decomposition_outliers(data, up, lo)
                    out.expect(np.allclose(dist, np.linalg.norm(w - np.median(W, 0), axis=1), atol=1e-7), "distances", "distances of %s data differ" % which)
                    qu, ql = np.percentile(W, up, 0), np.percentile(W, lo, 0)
                    for i in range(len(w)):
                        if (np.abs(w[i] - qu) > 1e-7).all() and (np.abs(w[i] - ql) > 1e-7).all():
                            out.expect(bool(fl[i]) == bool((w[i] > qu).any() or (w[i] < ql).any()), "outliers", "row %s of %s data at %s/%s" % (i, which, up, lo))
            fl = p.get_pca_decomposition_outliers(new)[1]
            fd = p.get_pca_decomposition_outliers(new, 95, 5)[1]
            out.expect(list(fl) == list(fd), "default-quantiles", "default quantiles are not 95 and 5")
    out.expect(frame.equals(f0) and new.equals(new0), "mutated", "the data passed in were changed")

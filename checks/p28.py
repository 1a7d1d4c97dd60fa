"""P28 - the inspect command."""
import contextlib
import copy
import gzip
import io
import itertools
import json
import os
import pprint
import tempfile
import warnings

from checks import p15
from checks.p15 import inside, tree

PROPERTY = "P28"
RULE = "every kind of saved object x every subset of its optional tables x compression, and every readable and unreadable raw file kind; the command's output is compared section by section with the object the library loads from the same file"
ASSUMPTIONS = ["what the library loads from a file is the subject of P04, P08, P09, P11 and P13", "the wording of headings is taken from the current output; blank space and additional lines are free"]
BOUNDS = {"quick": "6 record classes x 32 subsets of tables x 2 compressions x 2 settings; featurizers, matrices of <=3 featurizers, 3 models x settings, configurations, legacy records, 9 raw and broken files",
          "thorough": "x working directory and relative path"}
CHUNK = 20
ATTRS = ["structured_summary", "structured_data", "diagnostic_data", "diagnostic_summary", "raw_data"]
CLS = ["arbin.ArbinDatapath", "maccor.MaccorDatapath", "indigo.IndigoDatapath", "neware.NewareDatapath", "biologic.BiologicDatapath", "battery_archive.BatteryArchiveDatapath"]
RAW = [("in/a_CH1.csv", "one"), ("in/t_CH9.csv", "three"), ("in/Proj_000123.071", "maccor")]
BROKEN = [("in/u_CH4.csv", "garbage"), ("in/e_CH5.csv", "empty"), ("in/readme.txt", "garbage"), ("in/l.json", "list"), ("in/g.json", "garbage"), ("in/g.json.gz", "plain"), ("in/no.json", None)]


def cases(tier):
    t = tier == "thorough"
    for rel in (0, 1) if t else (0,):
        for c in range(len(CLS)):
            for m in range(1 << len(ATTRS)):
                for gz in (0, 1):
                    for s in (0, 1):
                        yield {"k": "d", "c": c, "m": m, "gz": gz, "s": s, "rel": rel}
                yield {"k": "d", "c": c, "m": m, "gz": 0, "s": 0, "e": 1, "rel": rel}
        for n, h, gz, lk in itertools.product((0, 1, 3, 70), (0, 1), (0, 1), (0, 1)):
            yield {"k": "f", "n": n, "h": h, "gz": gz, "link": lk, "rel": rel}
        for n in (1, 2, 3):
            for hs in itertools.product((0, 1, 2), repeat=n):
                if len(set(hs)) == len(hs):
                    for gz, rows in itertools.product((0, 1), (1, 2)):
                        yield {"k": "m", "hs": list(hs), "gz": gz, "rows": rows, "rel": rel}
        for m, th, hom, tg in itertools.product(("ridge", "lasso", "elasticnet"), range(4), (0, 1), (1, 2)):
            if tg == 1 or m == "elasticnet":
                yield {"k": "x", "m": m, "th": th, "hom": hom, "t": tg, "gz": hom, "rel": rel}
        for i in range(3):
            yield {"k": "o", "i": i, "rel": rel}
        for key in ("one", "two", "raw"):
            for gz in (0, 1):
                yield {"k": "l", "key": key, "gz": gz, "rel": rel}
        for i in range(len(RAW)):
            yield {"k": "r", "i": i, "rel": rel}
        for i in range(len(BROKEN)):
            yield {"k": "b", "i": i, "rel": rel}


def write(d, path):
    from monty.json import MontyEncoder
    with (gzip.open if path.endswith("gz") else open)(path, "wt") as f:
        json.dump(d, f, cls=MontyEncoder)


def table(a, n):
    import pandas as pd
    b = 1.5 + ATTRS.index(a)
    return pd.DataFrame({"cycle_index": list(range(n)), "voltage": [b + 0.125 * i for i in range(n)], "discharge_capacity": [10 * b + i for i in range(n)], "step_type": ["charge" if i % 2 else "discharge" for i in range(n)]})


def build(case, path):
    """Write the object of the case to the path and return how to load it with the library."""
    import importlib
    import pandas as pd
    from monty.serialization import loadfn
    k = case["k"]
    if k == "d":
        mod, cls = CLS[case["c"]].split(".")
        cls = getattr(importlib.import_module("beep.structure." + mod), cls)
        s = case["s"]
        md = {"barcode": "bar%d" % case["m"], "protocol": "Toy_%06d.000" % case["c"], "channel_id": 3 + s, "long note": "x" * 90} if s else {"barcode": None, "protocol": "P", "channel_id": 1}
        # the tables of the mask are there and the others are not, or those of the mask have no rows and the others have
        e = case.get("e")
        tabs = {a: (table(a, (2 - 2 * (case["m"] >> i & 1)) if e else 70 if s else 2) if e or case["m"] >> i & 1 else None) for i, a in enumerate(ATTRS)}
        dp = cls(raw_data=tabs["raw_data"], metadata=md, paths={"raw": "/data/%d.csv" % case["m"], **({"metadata": "/data/m.csv", "eis": ["/e/1", "/e/2"]} if s else {})},
                 **({"impute_missing": False} if s else {}))
        for a in ATTRS[:4]:
            setattr(dp, a, tabs[a])
        dp.structuring_parameters = {"v_range": [2.5, 3.5], "resolution": 7 + case["m"], "note": "y" * 80} if s else {}
        dp.raw_data = table("raw_data", 70 if s else 2) if tabs["raw_data"] is None else dp.raw_data
        for a in ATTRS[:2]:
            setattr(dp, a, table(a, 2) if tabs[a] is None else tabs[a])
        d = dp.as_dict()
        for a, key in (("structured_summary", "summary"), ("structured_data", "cycles_interpolated")):
            if tabs[a] is None:
                d[key] = None
        if tabs["raw_data"] is None:
            d.pop("raw_data")
        write(d, path)
    elif k == "f":
        from vmc import toyfeat as tf
        hp = {"k": 5, "w": [3, 4, "z" * 90]} if case["h"] else None
        f = (tf.ToyA if case["link"] else tf.ToyB)(tf.datapath("/data/f%d.json" % case["n"]), hyperparameters=hp)
        f.features = pd.DataFrame({"x": [1.25 * i for i in range(case["n"])], "y": ["v%d" % i for i in range(case["n"])]})
        if not case["n"]:
            f.create_features()
        d = f.as_dict()
        if not case["link"]:
            d.update(linked_datapath_semiunique_id="other id", metadata={"note": "n" * 100, "q": 1})
        write(d, path)
    elif k == "m":
        from vmc import toyfeat as tf
        from beep.features.base import BEEPFeatureMatrix
        fs = []
        for r in range(case["rows"]):
            for h in case["hs"]:
                f = (tf.ToyB if h == 2 else tf.ToyA)(tf.datapath("/data/n%d.json" % r), hyperparameters={"k": 4 + h, "w": [h, r]} if h else None)
                f.features = pd.DataFrame({"x": [r + 0.25], "y": [h * 1.5]})
                fs.append(f)
        write(BEEPFeatureMatrix(fs).as_dict(), path)
    elif k == "x":
        from checks import p16
        from beep.model import BEEPLinearModelExperiment
        cols = ["fa", "fb", "fc", "fd"]
        th = [0.25, 0.75, 0.9, 0.95][case["th"]]
        e = BEEPLinearModelExperiment(feature_matrix=p16.matrix([[v if v == v else 1.0 for v in r] for r in p16.X], cols), target_matrix=p16.matrix(p16.Y, ["tx", "ty"], cls="ToyB"),
                                      targets=(["tx::ToyB", "ty::ToyB"] if case["hom"] else targets(p16, 2))[:case["t"]], model_name=case["m"], train_feature_drop_nan_thresh=th, train_sample_drop_nan_thresh=1 - th,
                                      predict_sample_nan_thresh=th / 2, impute_strategy=("median", "mean")[case["th"] % 2], homogenize_features=bool(case["hom"]), max_iter=5000)
        e.train()
        write(e.as_dict(), path)
    elif k == "o":
        from beep.structure.diagnostic import DiagnosticConfig
        o = [DiagnosticConfig({"hppc": {1, 5}, "reset": {0}}), DiagnosticConfig({"rpt_0.2C": {3, 9, 27}}, note="k" * 100)][case["i"] % 2] if case["i"] < 2 else None
        if o is None:
            from beep.structure.base_eis import EIS
            o = EIS(pd.DataFrame({"f": [1.0, 2.5], "z": [0.25, 4.0]}), pd.DataFrame({"method": ["sweep"]}))
        write(o.as_dict(), path)
    elif k == "l":
        p15.place(path, case["key"], structured=True)
        with (gzip.open if path.endswith("gz") else open)(path, "rt") as f:
            d = json.load(f)
        d.pop("@module")
        d.pop("@class")
        write(d, path)
    elif k in "rb":
        p15.place(path, (RAW if k == "r" else BROKEN)[case["i"]][1] if not path.endswith(".json.gz") else "garbage")
    if k == "r":
        from beep.structure.cli import auto_load
        return auto_load
    if k == "l":
        from beep.structure.cli import auto_load_processed
        return auto_load_processed
    return loadfn


def targets(p16, n):
    cols = list(p16.matrix(p16.Y, ["tx", "ty"], cls="ToyB").matrix.columns)
    return cols[:n]


def info(df):
    b = io.StringIO()
    df.info(buf=b)
    return b.getvalue().strip()


def run_case(case, out):
    with tempfile.TemporaryDirectory() as tmp, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        tmp = os.path.realpath(tmp)
        os.makedirs(os.path.join(tmp, "in"))
        os.makedirs(os.path.join(tmp, "w"))
        if case["k"] in "rb":
            rel = (RAW if case["k"] == "r" else BROKEN)[case["i"]][0]
        else:
            rel = "in/obj.json" + (".gz" if case.get("gz") else "")
        path = os.path.join(tmp, rel)
        alt = None
        with inside(os.path.join(tmp, "w")), contextlib.redirect_stderr(io.StringIO()):
            load = build(case, path)
            before = tree(tmp)
            with contextlib.redirect_stdout(io.StringIO()):
                o = None if case["k"] == "b" else load(path)
                if case["k"] in "dl":
                    from beep.structure.cli import auto_load_processed
                    alt = auto_load_processed(path)
            res = p15.invoke(["inspect", os.path.join("..", rel) if case["rel"] else path])
        out.call()
        out.expect(tree(tmp) == before, "files", lambda: "files changed: %s" % sorted(set(tree(tmp).items()) ^ set(before.items())))
        judge(case, out, res, o, alt or o, path)


def judge(case, out, res, o, alt, path):
    if case["k"] == "b":
        out.expect(res.exit_code != 0, "accepted", "an unreadable file was shown as if it held something")
        return
    if not out.expect(res.exit_code == 0, "fails", lambda: "inspect of a good file failed: %r" % (res.exception,)):
        return
    text = res.output
    out.see(len(text))
    fmt = pprint.pformat
    tab = lambda df: [str(df), info(df)]
    k, want = case["k"], []
    if k in "drl":
        want = [("BEEP Datapath", [path]), ("Semiunique id", [(str(o.semiunique_id), str(alt.semiunique_id))]), ("File paths", [(fmt(o.paths), fmt(alt.paths))]), ("File metadata", [fmt(o.metadata.raw)]), ("Validation schema", [str(o.schema)]),
                ("Structuring parameters", [fmt(o.structuring_parameters)]), ("Structured attributes", [])]
        for a in ATTRS:
            df = getattr(o, a)
            want.append(("\n%s:" % a, tab(df) if df is not None else ["No object."]))
    elif k == "f":
        want = [("BEEP Featurizer", [path]), ("File paths", [fmt(o.paths)]), ("Linked datapath semiunique id", [str(o.linked_semiunique_id)]), ("Hyperparameters", [fmt(o.hyperparameters)]), ("\nMetadata:", [fmt(o.metadata)]),
                ("\nFeatures:", [str(o.features)])]
    elif k == "m":
        want = [("BEEP Feature Matrix", [path]), ("\nFeaturizers:", [])]
        for f in o.featurizers:
            d = f.as_dict()
            d.pop("features")
            want.append(("\tFeaturizer ", ["%s %s" % (type(f).__module__, type(f).__name__), fmt(d)]))
        want.append(("\nMatrix:", tab(o.matrix)))
    elif k == "x":
        d = o.as_dict()
        want = [("BEEP Linear Model Experiment", [path]), ("\nTargets:", [str(o.targets)]), ("Model name", [o.model_name]), ("Impute strategy", [str(o.impute_strategy)]), ("Homogenize features", [str(o.homogenize_features)]),
                ("NaN Thresholds", ["%s: %s" % (n, d[n]) for n in ("train_feature_drop_nan_thresh", "train_sample_drop_nan_thresh", "predict_sample_nan_thresh")]),
                ("Model parameters", ["%s: %s" % (p, v) for p, v in d["model_sklearn"].items()]), ("\nMatrices:", []), ("\nfeature_matrix", tab(o.feature_matrix.matrix)), ("\ntarget_matrix", tab(o.target_matrix.matrix))]
    else:
        want = [("", [fmt(o.as_dict())])]
    flat = lambda s: "\n".join(l.strip() for l in s.split("\n") if l.strip())
    at, pos = [], 0
    for h, _ in want:
        p = text.find(h, pos)
        if not out.expect(p >= 0, "section", lambda: "no section %r in the output for %s" % (h, type(o).__name__)):
            return
        at.append(p)
        pos = p + len(h)
    for i, (h, musts) in enumerate(want):
        seg = flat(text[at[i]:at[i + 1] if i + 1 < len(want) else len(text)])
        for m in musts:
            # a structured record's own path may or may not be among its paths
            ms = m if isinstance(m, tuple) else (m,)
            m = ms[0]
            out.expect(any(flat(x) in seg for x in ms), "content:%s" % h.strip(), lambda: "section %r shows %r, expected %r" % (h.strip(), seg[:200], flat(m)[:200]))
        if "No object." in seg and "No object." not in musts:
            out.expect(False, "absent:%s" % h.strip(), "a table that is there is shown as absent")

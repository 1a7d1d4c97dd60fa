"""P11 - feature matrix: all lists of featurizer outputs up to the bound, with save and reload."""
import copy
import itertools
import json
import math
import os
import tempfile

PROPERTY = "P11"
RULE = "every ordered list of featurizer outputs over files x classes x hyperparameters x column sets, including unusable ones; every history of construct/edit/serialise of one featurizer"
ASSUMPTIONS = ["hyperparameters are JSON values (tuples allowed)", "feature names do not contain the column delimiter"]
BOUNDS = {"quick": "lists of <=3 outputs over 2 files x 2 classes x 3 hyperparameter sets x 2 column sets + 3 unusable outputs (third element restricted to 8 outputs); 5-step featurizer histories; tables of 12 files x 4 featurizers in 4 orders with an entry dropped, doubled, unusable or of other settings",
          "thorough": "all lists of <=3 and lists of 4 over the 8 core outputs"}
CHUNK = 32

# (file, class, hyperparameters, column set)
HPS = [None, {"k": 2, "w": [1, 2]}, {"k": 1, "w": [2, 1, 3]}, {"w": [1, 2], "k": 1}, {"k": 1, "w": (1, 2)}]
# settings of ToyW (nine of them): one changed at a time, in its value, its type or the end of a long value
WIDE = {"a": 1, "b": "s", "c": [1, 2, 3, 4, 5, 6, 7, 8, 9], "d": None, "e": True, "f": {"p": 1, "q": [1, 2]}, "g": 0.5, "h": "x" * 40, "i": 1e-9}
_EDITS = [("a", 2), ("b", "S"), ("c", [1, 2, 3, 4, 5, 6, 7, 8, 10]), ("d", 0), ("e", False), ("f", {"p": 1, "q": [1, 3]}), ("f", {"p": 2, "q": [1, 2]}),
          ("g", 0.5000001), ("h", "x" * 39 + "y"), ("i", 2e-9), ("i", 1.0000001e-9)]
W0 = len(HPS)
HPS += [WIDE] + [dict(WIDE, **{k: v}) for k, v in _EDITS] + [dict(reversed(list(WIDE.items())))]
WS = range(W0, len(HPS))
OUTS = [(f, c, h, s) for f in (0, 1) for c in "AB" for h in (0, 1, 2) for s in (0, 1)]
CORE = [o for o in OUTS if o[2] < 2 and o[3] == (0 if o[1] == "A" else 1)] + [(0, "A", 0, 1)]
ODD = [(0, "A", 3, 0), (1, "B", 4, 0), (0, "A", 0, "none"), (0, "A", 0, "two"), (None, "A", 0, 0), (0, "B", 0, "str")]


def long_lists(n):
    """Complete tables of n files x 4 featurizers, in several orders, with one entry dropped, doubled or unusable at chosen places."""
    kinds = [("A", 0, 0), ("A", 1, 0), ("B", 0, 1), ("B", 1, 0)]
    full = [(f,) + k for f in range(n) for k in kinds]
    orders = [full, full[::-1], [(f,) + k for k in kinds for f in range(n)], [(f,) + k for k in kinds[::-1] for f in reversed(range(n))]]
    for o in orders:
        yield o
        for i in (0, 1, n, 2 * n + 1, len(o) // 2, len(o) - 2, len(o) - 1):
            yield o[:i] + o[i + 1:]
            yield o[:i] + [o[i]] + o[i:]
            yield o + [o[i]]
            yield o[:i] + [(o[i][0], o[i][1], o[i][2], "none")] + o[i + 1:]
            yield o[:i] + [(o[i][0], "B", 2, 0)] + o[i + 1:]


def cases(tier):
    t = tier == "thorough"
    al = OUTS + ODD
    for n in (12, 40) if t else (12,):
        for l in long_lists(n):
            yield {"k": "mat", "l": [list(o) for o in l]}
    yield {"k": "mat", "l": []}
    for n in (1, 2):
        for l in itertools.product(al, repeat=n):
            yield {"k": "mat", "l": [list(o) for o in l]}
    for a, b in itertools.product(WS, repeat=2):
        for l in ([(0, "W", a, 0), (0, "W", b, 0)], [(0, "W", a, 0), (1, "W", b, 0)], [(0, "W", a, 0), (1, "W", b, 1), (1, "W", a, 0)]):
            yield {"k": "mat", "l": [list(o) for o in l]}
    third = al if t else CORE
    for l in itertools.product(al if t else CORE + ODD, al if t else OUTS, third):
        yield {"k": "mat", "l": [list(o) for o in l]}
    if t:
        for l in itertools.product(CORE, repeat=4):
            yield {"k": "mat", "l": [list(o) for o in l]}
    for h in (None, 0, 1, 2, 4, "part", "extra"):
        for st in (True, False, None):
            for edits in itertools.product(("none", "default", "nested", "caller"), repeat=2):
                yield {"k": "hist", "h": h, "st": st, "e": list(edits)}


def path_of(f):
    return "/data/%s_structure.json" % ("ab"[f] if f < 2 else "f%d" % f)


def make(o, ix):
    from vmc import toyfeat as tf
    import pandas as pd
    f, c, h, s = o
    cls = {"A": tf.ToyA, "B": tf.ToyB, "W": tf.ToyW}[c]
    path = None if f is None else path_of(f)
    bf = cls(tf.datapath(path), hyperparameters=HPS[h])
    base = 10.0 * ix
    if s == 0:
        bf.features = pd.DataFrame({"x": [base + 1], "y": [base + 2]})
    elif s == 1:
        bf.features = pd.DataFrame({"z": [base + 3], "x": [base + 4]}, index=[7])
    elif s == "two":
        bf.features = pd.DataFrame({"x": [1.0, 2.0]})
    elif s == "str":
        bf.features = pd.DataFrame({"q": [[base, 1.0]], "x": [float("nan")]})
    return bf


def canon(h, cls):
    d = HPS[h] if HPS[h] is not None else {"k": 1, "w": [1, 2]}
    return json.dumps({k: list(v) if isinstance(v, tuple) else v for k, v in d.items()}, sort_keys=True)


FEATS = {0: ["x", "y"], 1: ["z", "x"], "str": ["q", "x"]}


def same(a, b):
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    return a == b


def cells(m):
    """{(file, column): value} of a matrix, refusing duplicate labels."""
    assert m.index.is_unique and m.columns.is_unique
    return {(str(i), c): m.loc[i, c] for i in m.index for c in m.columns}


def check_matrix(out, bm, objs, spec, tag):
    import pandas as pd
    m = bm.matrix
    files = []
    for o in spec:
        p = path_of(o[0])
        if p not in files:
            files.append(p)
    if not out.expect(list(m.index) == files, tag + "-rows", lambda: f"rows {list(m.index)} for files {files}: {spec}"):
        return None
    if not out.expect(m.columns.is_unique, tag + "-dup", lambda: f"duplicate columns for {spec}"):
        return None
    # recover the column of each (class, hyperparameters, feature); columns must be in 1-1 correspondence with them
    want = {}
    for ix, o in enumerate(spec):
        for ft in FEATS[o[3]]:
            want.setdefault((o[1], canon(o[2], o[1]), ft), {})[path_of(o[0])] = objs[ix].features[ft].iloc[0]
    out.expect(len(m.columns) == len(want), tag + "-cols", lambda: f"{len(m.columns)} columns for {len(want)} distinct features: {spec}")
    hashes = {}
    for col in m.columns:
        parts = col.split("::")
        if not out.expect(len(parts) == 3 and parts[1] in ("ToyA", "ToyB", "ToyW"), tag + "-name", f"column {col!r} does not name its feature, featurizer and settings"):
            return None
        hashes.setdefault((parts[1], parts[2]), set()).add(parts[0])
    # each hash stands for one setting: match by content
    for (cls, hp, ft), vals in want.items():
        found = []
        for col in m.columns:
            p = col.split("::")
            if p[0] == ft and p[1] == "Toy" + cls:
                got = {f: m.loc[f, col] for f in files}
                if all(same(got[f], vals[f]) if f in vals else (not isinstance(got[f], list) and pd.isnull(got[f])) for f in files):
                    found.append(col)
        out.expect(len(found) >= 1, tag + "-value", lambda: f"no column of {ft} by Toy{cls}({hp}) holds {vals}; matrix {m.to_dict()} for {spec}")
    return m


def run_case(case, out):
    if case["k"] == "hist":
        return hist(case, out)
    from beep.features.base import BEEPFeatureMatrix, BEEPFeatureMatrixError
    spec = case["l"]
    objs = [make(o, i + 1) for i, o in enumerate(spec)]
    bad = any(o[3] in ("none", "two") or o[0] is None for o in spec)
    seen = set()
    for o in spec:
        if not bad:
            for ft in FEATS[o[3]]:
                key = (o[0], o[1], canon(o[2], o[1]), ft)
                bad = bad or key in seen
                seen.add(key)
    before = [None if b.features is None else b.features.to_dict() for b in objs]
    hps = [copy.deepcopy(b.hyperparameters) for b in objs]
    out.call()
    try:
        bm = BEEPFeatureMatrix(objs)
    except BEEPFeatureMatrixError as e:
        out.see("refused")
        out.expect(bad, "refused", lambda: f"refused {spec}: {e}"[:300])
        return
    if not out.expect(not bad, "accepted", lambda: f"accepted unusable outputs {spec}"):
        return
    out.expect([None if b.features is None else repr(b.features.to_dict()) for b in objs] == [None if x is None else repr(x) for x in before], "mutated", "features of a featurizer changed")
    out.expect([b.hyperparameters for b in objs] == hps, "mutated-hp", "hyperparameters of a featurizer changed")
    if not spec:
        out.expect(bm.matrix is None, "empty", "matrix of no featurizers")
        out.call()
        d = bm.as_dict()
        out.expect(BEEPFeatureMatrix.from_dict(json.loads(json.dumps(d))).matrix is None, "empty-reload", "empty matrix reload")
        return
    m = check_matrix(out, bm, objs, spec, "mat")
    if m is None:
        return
    # the hash depends on the settings only: same settings <-> same column across files and lists
    groups = {}
    for i, o in enumerate(spec):
        groups.setdefault((o[1], canon(o[2], o[1])), []).append(i)
    byset = {}
    for (cls, hp), ixs in groups.items():
        out.call()
        solo = BEEPFeatureMatrix([objs[ixs[0]]])
        hs = {c.split("::")[2] for c in solo.matrix.columns}
        out.expect(len(hs) == 1, "hash", "several hashes for one setting")
        byset[(cls, hp)] = hs.pop()
    out.expect(len(set((c, h) for (c, _), h in byset.items())) == len(byset), "hash-clash", lambda: f"different settings share a column id: {spec}")
    for (cls, hp), h in byset.items():
        fts = {ft for i in groups[(cls, hp)] for ft in FEATS[spec[i][3]]}
        got = {c.split("::")[0] for c in m.columns if c.endswith(f"Toy{cls}::{h}")}
        out.expect(got == fts, "hash-cols", lambda: f"columns of Toy{cls}({hp}): {got} expected {fts} for {spec}")
        for i in groups[(cls, hp)]:
            f = path_of(spec[i][0])
            for ft in FEATS[spec[i][3]]:
                col = f"{ft}::Toy{cls}::{h}"
                if col in m.columns:
                    out.expect(same(m.loc[f, col], objs[i].features[ft].iloc[0]), "cell", lambda: f"{f} {col} = {m.loc[f, col]} expected {objs[i].features[ft].iloc[0]}: {spec}")
    out.see(sorted(m.columns), m.to_dict("list"))
    # save, reload
    out.call(2)
    d = json.loads(json.dumps(bm.as_dict(), default=float))
    r = BEEPFeatureMatrix.from_dict(d)
    out.expect(repr(r.matrix.to_dict()) == repr(m.to_dict()), "reload", lambda: f"matrix after reload {list(r.matrix.columns)} vs {list(m.columns)}: {spec}")
    if len(spec) <= 2:
        with tempfile.TemporaryDirectory() as td:
            p = os.path.join(td, "m.json" if len(spec) == 1 else "m.json.gz")
            bm.to_json_file(p)
            r2 = BEEPFeatureMatrix.from_json_file(p)
            out.expect(repr(r2.matrix.to_dict()) == repr(m.to_dict()), "file-reload", lambda: f"matrix after file reload differs: {spec}")
            out.expect([type(f).__name__ for f in r2.featurizers] == [type(f).__name__ for f in objs], "file-featurizers", "featurizers after reload")


def hist(case, out):
    from beep.features.base import BEEPFeaturizationError
    from vmc import toyfeat as tf
    h = case["h"]
    given = None if h is None else {"part": {"k": 1}, "extra": {"k": 5, "w": [9], "more": 1}}.get(h, HPS[h] if isinstance(h, int) else None)
    given = copy.deepcopy(given)
    kept = copy.deepcopy(given)
    defaults = json.dumps(tf.ToyA.DEFAULT_HYPERPARAMETERS)
    dp = None if case["st"] is None else tf.datapath("/data/a_structure.json", structured=case["st"])
    out.call()
    try:
        f = tf.ToyA(dp, hyperparameters=given)
    except BEEPFeaturizationError:
        out.expect(h == "part" or case["st"] is False, "hist-refused", f"refused {case}")
        return
    if not out.expect(h != "part" and case["st"] is not False, "hist-accepted", f"accepted {case}"):
        return
    want = kept if kept else {"k": 1, "w": [1, 2]}
    out.expect(f.hyperparameters == want, "hist-hp", lambda: f"hyperparameters {f.hyperparameters} expected {want}")
    try:
        out.call()
        f.as_dict()
        out.bad("hist-nofeat", "features which have not been generated were serialised")
    except BEEPFeaturizationError:
        pass
    f.create_features()
    first = f.features.to_dict("list")
    out.expect(first == {"x": [float(want["k"])], "y": [float(len(want["w"]))]}, "hist-first", "features")
    for e in case["e"]:
        if e == "default":
            f.hyperparameters["k"] = 77
        elif e == "nested":
            if isinstance(f.hyperparameters["w"], list):
                f.hyperparameters["w"].append(5)
        elif e == "caller" and given is not None:
            given["k"] = 99
            given = copy.deepcopy(kept)
    out.expect(json.dumps(tf.ToyA.DEFAULT_HYPERPARAMETERS) == defaults and json.dumps(tf.ToyB.DEFAULT_HYPERPARAMETERS) == defaults, "hist-defaults", lambda: f"defaults now {tf.ToyA.DEFAULT_HYPERPARAMETERS}")
    tf.ToyA.DEFAULT_HYPERPARAMETERS = json.loads(defaults)
    out.expect(given == kept, "hist-caller", lambda: f"caller's dictionary now {given}")
    out.call()
    g = tf.ToyA(dp, hyperparameters=given)
    g.create_features()
    out.expect(g.features.to_dict("list") == first, "hist-second", lambda: f"second featurizer gives {g.features.to_dict('list')} expected {first}")
    with tempfile.TemporaryDirectory() as td:
        p = os.path.join(td, "f.json")
        out.call(2)
        g.to_json_file(p)
        r = tf.ToyA.from_json_file(p)
        out.expect(r.features.to_dict("list") == first and r.metadata == g.metadata and r.linked_semiunique_id == g.linked_semiunique_id
                   and r.hyperparameters == json.loads(json.dumps(g.hyperparameters)), "hist-reload", lambda: f"reloaded featurizer differs: {r.as_dict()} vs {g.as_dict()}")
        out.expect({k: v for k, v in r.paths.items() if k != "features"} == {k: v for k, v in g.paths.items() if k != "features"} and r.paths.get("features") == p, "hist-paths", lambda: f"paths {r.paths}")
        if dp is not None:
            out.expect("features" not in dp.paths, "hist-dp", "reloading changed the record's paths")
    out.see(first)

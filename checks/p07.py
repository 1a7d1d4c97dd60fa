"""P07 - validation verdicts."""
import itertools
import math
import os
import tempfile

PROPERTY = "P07"
RULE = "every column of <=3 values over the grid x every single/pair/triple of rules; every pair of columns; every shipped schema with each rule broken at each row"
ASSUMPTIONS = ["bound rules are applied to numeric columns only"]
BOUNDS = {"quick": "float grid of 6 (one just below 0) + blank, int grid of 3, <=3 rows; all rule sets of <=2 rules (3 on <=2 rows), 7 shipped schemas; 120-row columns x 4 labellings x the broken row",
          "thorough": "as quick with <=4 rows and all rule sets of <=3 rules"}
CHUNK = 8
F = [-1.0, -1e-7, 0.0, 1.0, 1.5, 2.0, None]
I = [0, 1, 2]
S = ["a", ""]
RULES = [("type", "integer"), ("type", "float"), ("type", "numeric"), ("type", "string"), ("max", 0), ("max", 1), ("max", 1.5),
         ("min", 0), ("min", 1), ("max_at_least", 0), ("max_at_least", 1), ("max_at_least", 2.0), ("min_is_below", 0), ("min_is_below", 1.0),
         ("monotonic", "increasing")]


def rulesets(k):
    for n in range(0, k + 1):
        for c in itertools.combinations(RULES, n):
            if len({x[0] for x in c}) == n:
                yield list(c)


def cases(tier):
    t = tier == "thorough"
    for n in range(0, 5 if t else 4):
        for rs in rulesets(3 if (t or n <= 2) else 2):
            # one case = one rule set on all columns of n values (inner loop inside run_case)
            yield {"kind": "one", "rules": rs, "n": n}
    for ra in rulesets(1):
        for rb in rulesets(1):
            yield {"kind": "two", "a": ra, "b": rb}
    for name in ("schema-arbin-18650-2170.yaml", "schema-arbin-lfp.yaml", "schema-arbin-nmc-phev.yaml",
                 "schema-maccor-2170.yaml", "schema-maccor-lfp.yaml", "schema-novonix.yaml"):
        yield {"kind": "shipped", "schema": name}
    yield {"kind": "missing"}
    for r in RULES:
        for ix in ("range", "offset", "dup", "text"):
            yield {"kind": "long", "rule": list(r), "ix": ix}


def columns(n, rules):
    strings_ok = not any(r[0] in ("max", "min", "max_at_least", "min_is_below", "monotonic") or r == ("type", "integer")
                         for r in map(tuple, rules))
    if n:
        for c in itertools.product(F, repeat=n):
            yield "float", c
        for c in itertools.product(I, repeat=n):
            yield "int", c
        if strings_ok:
            for c in itertools.product(S, repeat=n):
                yield "str", c
    else:
        yield "float", ()


def broken(kind, vals, rules):
    """The set of rules that the column breaks (empty: valid)."""
    num = [v for v in vals if v is not None] if kind != "str" else []
    bad = []
    for r, b in rules:
        if r == "type":
            ok = {"integer": kind != "str" and all(v is not None and v == round(v) for v in vals),
                  "float": kind == "float", "numeric": kind != "str", "string": kind == "str"}[b]
        elif r == "max":
            ok = all(v <= b for v in num)
        elif r == "min":
            ok = all(v >= b for v in num)
        elif r == "max_at_least":
            ok = not num or max(num) >= b
        elif r == "min_is_below":
            ok = not num or min(num) <= b
        else:
            # steps between adjacent values, blanks make the step unknown
            ok = all(a is None or c is None or a <= c for a, c in zip(vals, vals[1:]))
        if not ok:
            bad.append((r, b))
    return bad


def series(kind, vals):
    import pandas as pd
    if kind == "float":
        return pd.Series([math.nan if v is None else v for v in vals], dtype="float64")
    if kind == "int":
        return pd.Series(list(vals), dtype="int64")
    return pd.Series(list(vals), dtype="object")


def dump_schema(path, schema):
    import json
    # yaml is a superset of json
    open(path, "w").write(json.dumps({c: {"schema": dict(map(tuple, rs)), "type": "list"} for c, rs in schema.items()}))


def judge(out, v, frame, bad, what):
    """bad: {column: [broken rules]}"""
    before = frame.copy(deep=True)
    out.call(2)
    verdict, reason = v.validate(frame)
    again = v.validate(frame)
    out.see(bool(verdict), reason)
    anybad = any(bad.values())
    if not out.expect(bool(verdict) == (not anybad), "verdict",
                      lambda: "%s: verdict %s (%r) but broken rules are %s" % (what, verdict, reason, bad)):
        return
    out.expect((bool(again[0]), again[1]) == (bool(verdict), reason), "repeat", lambda: "%s: %r then %r" % (what, (verdict, reason), again))
    out.expect(frame.equals(before) and list(frame.columns) == list(before.columns), "mutated", what)
    if verdict:
        out.expect(reason == "", "reason", lambda: "%s: valid with reason %r" % (what, reason))
    else:
        ok = False
        for c, rs in bad.items():
            for r, b in rs:
                if c in reason.lower() and (r in ("type",) and "type" in reason and (b == "numeric" or str(b) in reason)
                                            or r == "monotonic" and "monoton" in reason
                                            or r not in ("type", "monotonic") and str(b) in reason.replace(c, "")):
                    ok = True
        out.expect(ok, "reason", lambda: "%s: reason %r names none of the broken rules %s" % (what, reason, bad))


def run_case(case, out):
    import pandas as pd
    from beep.structure.validate import SimpleValidator

    with tempfile.TemporaryDirectory() as tmp:
        fn = os.path.join(tmp, "s.yaml")
        if case["kind"] == "one":
            dump_schema(fn, {"voltage": case["rules"]})
            v = SimpleValidator(schema_filename=fn)
            for kind, vals in columns(case["n"], case["rules"]):
                # column names are matched without regard to case; other columns are ignored
                df = pd.DataFrame({"Voltage": series(kind, vals), "junk": ["x"] * len(vals)})
                bad = {"voltage": broken(kind, vals, case["rules"])}
                judge(out, v, df, bad, "column %s %s with %s" % (kind, list(vals), case["rules"]))
                if out.problems:
                    return
        elif case["kind"] == "two":
            dump_schema(fn, {"voltage": case["a"], "current": case["b"]})
            v = SimpleValidator(schema_filename=fn)
            for va in itertools.product([-1.0, 1.0, 2.0], repeat=2):
                for vb in itertools.product([0.5, 2.0, None], repeat=2):
                    df = pd.DataFrame({"current": series("float", vb), "voltage": series("float", va)})
                    bad = {"voltage": broken("float", va, case["a"]), "current": broken("float", vb, case["b"])}
                    judge(out, v, df, bad, "columns voltage %s / current %s with %s / %s" % (va, vb, case["a"], case["b"]))
                    if out.problems:
                        return
        elif case["kind"] == "long":
            # a record of realistic length, with other row labels, broken at one row (or, for extrema, met at one row only)
            r, n = tuple(case["rule"]), 120
            dump_schema(fn, {"voltage": [r]})
            v = SimpleValidator(schema_filename=fn)
            base = {"max": 0.5, "min": 2.5, "max_at_least": -3.0, "min_is_below": 7.0}.get(r[0], 1.0)
            hit = {"max": 2.5, "min": -2.5, "max_at_least": 2.0, "min_is_below": 0.0}.get(r[0], 0.5)
            for row in [None] + list(range(0, n, 7)) + [n - 1]:
                vals = [base] * n
                if row is not None:
                    vals[row] = hit
                    if r[0] == "monotonic":
                        vals = [float(k) for k in range(n)]
                        vals[row] = vals[row] + 1.5
                idx = {"range": list(range(n)), "offset": [1000 + k for k in range(n)], "dup": [k // 2 for k in range(n)], "text": ["r%d" % k for k in range(n)]}[case["ix"]]
                df = pd.DataFrame({"VOLTAGE": series("float", vals).values}, index=idx)
                judge(out, v, df, {"voltage": broken("float", vals, [r])}, "long column with %s at row %s, labels %s" % (r, row, case["ix"]))
                if out.problems:
                    return
        elif case["kind"] == "missing":
            for present in ("voltage", "current"):
                dump_schema(fn, {"voltage": [("min", 0)], "current": [("max", 5)]})
                v = SimpleValidator(schema_filename=fn)
                df = pd.DataFrame({present: [1.0, 2.0]})
                absent = "current" if present == "voltage" else "voltage"
                ok, reason = v.validate(df)
                out.see(ok, reason)
                out.expect(not ok and absent in reason, "missing", "missing column %s: verdict %s %r" % (absent, ok, reason))
        else:
            shipped(case, out)


def shipped(case, out):
    """Build a record that meets the shipped schema, then break each rule at each row, through the datapath."""
    import json
    import pandas as pd
    from monty.serialization import loadfn
    from beep import VALIDATION_SCHEMA_DIR
    from vmc import rawgen as g

    schema = loadfn(os.path.join(VALIDATION_SCHEMA_DIR, case["schema"]))
    rules = {c: [(k, b) for k, b in v["schema"].items()] for c, v in schema.items()}
    n = 3
    kinds, vals = {}, {}
    for c, rs in rules.items():
        d = dict(rs)
        k = {"float": "float", "integer": "int", "string": "str", "numeric": "float"}[d.get("type", "float")]
        lo = d.get("min", d.get("min_is_below", 0))
        hi = d.get("max_at_least", lo + 1 if "max" not in d else d["max"]) if k != "str" else 0
        lo = min(lo, d.get("min_is_below", lo))
        seq = [lo, lo + (hi - lo) / 2.0 if k == "float" else lo, hi]
        kinds[c] = k
        vals[c] = ["s"] * n if k == "str" else [float(x) if k == "float" else int(x) for x in seq]
    variants = [("as is", None)]
    for c, rs in rules.items():
        for r, b in rs:
            for row in range(n):
                if r == "max":
                    variants.append(((c, r, row), ("set", c, row, type(vals[c][0])(b + 1))))
                elif r == "min":
                    variants.append(((c, r, row), ("set", c, row, type(vals[c][0])(b - 1))))
            if r == "max_at_least":
                variants.append(((c, r), ("all", c, b - 1)))
            if r == "min_is_below":
                variants.append(((c, r), ("all", c, b + 1)))
            if r == "monotonic":
                variants.append(((c, r), ("rev", c)))
    for name, mut in variants:
        data = json.loads(json.dumps(vals))
        if mut:
            if mut[0] == "set":
                data[mut[1]][mut[2]] = mut[3]
            elif mut[0] == "all":
                t = type(vals[mut[1]][0])
                data[mut[1]] = [t(mut[2])] * n
            else:
                data[mut[1]] = data[mut[1]][::-1]
        df = pd.DataFrame({c: series(kinds[c], data[c]) for c in data})
        bad = {c: broken(kinds[c], data[c], rules[c]) for c in rules}

        class V:
            def validate(self, frame):
                dp = g.datapath_class()(raw_data=frame, metadata={}, schema=case["schema"], impute_missing=False)
                return dp.validate()

        judge(out, V(), df, bad, "shipped %s, %s" % (case["schema"], name))
        if out.problems:
            return

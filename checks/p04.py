"""P04 - saving and loading."""
import copy
import itertools
import json
import os
import tempfile

from vmc import rawgen as g

PROPERTY = "P04"
RULE = "every record x structured state x diagnostic x metadata x paths/schema x class, through every chain of <=2 save/load operations"
ASSUMPTIONS = ["frames are compared by value (9 significant digits), not by row label"]
BOUNDS = {"quick": "4 records x 3 structured states x 3 diagnostics x 3 metadata x chains of <=2 of 6 formats; one record of 104 cycles",
          "thorough": "6 records, chains of <=3"}
CHUNK = 2
RECORDS = [
    {"cycles": [[1, "CVD", 1.0], [2, "CD", 0.9], [3, "CVD", 0.8]]},
    {"cycles": [[0, "DC", 1.0], [1, "CRD", 0.9], [5, "CVPD", 0.8]], "index": "rev"},
    {"cycles": [[1, "CD", 1.0], [2, "CVD", 0.9], [3, "Cw", 0.8]], "drop": ["temperature", "internal_resistance"]},
    {"cycles": [[1, "C", 1.0]]},
    {"cycles": [[3, "D", 1.0], [4, "CD", 1.0]]},
    {"cycles": [[1, "CVPD", 1.0], [2, "CVPD", 0.75]], "index": "offset"},
    {"cycles": [[i + 1, ("CVD", "CD", "CRD", "DC")[i % 4], 1.0 - 0.01 * i] for i in range(104)]},
]
LONG = 6
STATES = [None, dict(resolution=4), dict(resolution=3, v_range=[2.8125, 3.5], exclude_cycles=[2], nominal_capacity=0.5)]
DIAGS = [None, ({"rpt_a": [1]}, {}), ({"hppc": [2, 3], "Reset x": [1]}, {"note": "n", "k": 3, "b": True, "f": 0.5}), ({"rpt_0.2C": [9, 10, 11, 100], "HPPC": [1, 12, 101, 102], "reset": [2]}, {})]
METAS = [{"barcode": "b1", "protocol": "p\\1.000", "channel_id": 3},
         {"barcode": None, "extra": {"x": [1, 2.5, None]}, "start": "2020-01-01"},
         {}]
FORMATS = ["dict", "json+raw", "gz+raw", "json", "gz", "auto"]


def cases(tier):
    thorough = tier == "thorough"
    for si in range(len(STATES)):
        for di in (0, 3):
            for f in FORMATS:
                yield {"r": LONG, "s": si, "d": di, "m": si, "chain": [f] if f in ("json", "gz") else [f, "auto"]}
    for n in range(1, 4 if thorough else 3):
        for ri in range(LONG if thorough else 4):
            for si in range(len(STATES)):
                for di in range(3):
                    for mi in range(len(METAS)):
                        for chain in itertools.product(FORMATS, repeat=n):
                            # a file without raw data ends a chain: it cannot be saved again
                            if any(c in ("json", "gz") for c in chain[:-1]):
                                continue
                            if n > 1 and (mi + ri + di) % 3 and not thorough:
                                continue        # pairs of formats: one metadata variant per (record, diagnostic)
                            yield {"r": ri, "s": si, "d": di, "m": mi, "chain": list(chain)}


FRAMES = ("structured_data", "structured_summary", "diagnostic_data", "diagnostic_summary")


def state(dp):
    s = {f: g.frame_digest(getattr(dp, f)) for f in FRAMES}
    s["cols"] = {f: None if getattr(dp, f) is None else list(getattr(dp, f).columns) for f in FRAMES}
    s["meta"] = json.dumps(dp.metadata.raw, sort_keys=True, default=str)
    s["attrs"] = [dp.metadata.barcode, dp.metadata.protocol, dp.metadata.channel_id]
    s["params"] = json.dumps(dp.structuring_parameters, sort_keys=True, default=str)
    d = dp.diagnostic
    s["diag"] = None if d is None else (sorted((k, sorted(int(i) for i in v)) for k, v in d.cycles.items()),
                                        sorted(d.params.items(), key=str), sorted(map(int, d.all_ix)), sorted(map(int, d.hppc_ix)),
                                        sorted(map(int, d.rpt_ix)), sorted(map(int, d.reset_ix)))
    s["structured"] = bool(dp.is_structured)
    s["schema"] = dp.schema
    if dp.is_structured and len(dp.structured_summary):
        s["q"] = [float(dp.get_cycle_life()), g.frame_digest(dp.cycles_to_capacities(0, 3, 1)), g.frame_digest(dp.capacities_to_cycles())]
    else:
        try:
            dp.get_cycle_life()
            s["q"] = "answered"
        except RuntimeError:
            s["q"] = "refused"
        except IndexError:
            s["q"] = "empty"
    return s


def diff(a, b):
    return [(k, str(a[k])[:200], str(b[k])[:200]) for k in a if a[k] != b.get(k)]


def make(case, tmp):
    from beep.structure.maccor import MaccorDatapath
    from beep.structure.diagnostic import DiagnosticConfig

    dp = MaccorDatapath(raw_data=g.build_df(RECORDS[case["r"]]), metadata=copy.deepcopy(METAS[case["m"]]),
                        paths=[None, {"raw": os.path.join(tmp, "raw.070"), "metadata": None}][case["m"] % 2],
                        schema=["schema-maccor-2170.yaml", None][case["m"] % 2])
    if DIAGS[case["d"]]:
        dp.diagnostic = DiagnosticConfig(dict(DIAGS[case["d"]][0]), **DIAGS[case["d"]][1])
    if STATES[case["s"]]:
        dp.structure(**copy.deepcopy(STATES[case["s"]]))
    return dp


_CACHE = {}


def run_case(case, out):
    from beep.structure.maccor import MaccorDatapath
    from beep.structure.cli import auto_load_processed

    with tempfile.TemporaryDirectory() as tmp:
        try:
            dp = make(case, tmp)
        except Exception as e:
            # what structuring accepts is not this property's business
            out.nontrivial = False
            out.see("unstructurable", type(e).__name__)
            return
        s0 = state(dp)
        raw0 = g.frame_digest(dp.raw_data)
        paths0 = dict(dp.paths)
        for i, f in enumerate(case["chain"]):
            tag = "step %d (%s) of %s" % (i, f, case)
            out.call(2)
            has_raw = True
            if f == "dict":
                d = dp.as_dict()
                keep = copy.deepcopy(d)
                new = MaccorDatapath.from_dict(d)
                out.expect(same(keep, d), "dict-mutated", lambda: tag + ": from_dict changed the caller's dictionary")
            else:
                fn = os.path.join(tmp, "f%d_structured.json%s" % (i, ".gz" if "gz" in f else ""))
                has_raw = f not in ("json", "gz")
                if has_raw:
                    dp.to_json_file(fn, omit_raw=False)
                elif i % 2:
                    dp.to_json_file(fn, omit_raw=True)
                else:
                    dp.to_json_file(fn)
                new = auto_load_processed(fn) if f == "auto" else MaccorDatapath.from_json_file(fn)
                out.expect(type(new) is MaccorDatapath, "class", lambda: "%s: class %s" % (tag, type(new)))
                out.expect(new.paths.get("structured") == fn, "path", lambda: "%s: paths %s" % (tag, new.paths))
            # the saved object is unchanged
            sa = state(dp)
            out.expect(sa == s0, "save-mutates", lambda: "%s: saving changed %s" % (tag, diff(s0, sa)))
            out.expect(g.frame_digest(dp.raw_data) == raw0, "save-mutates-raw", tag)
            for k, v in paths0.items():
                out.expect(new.paths.get(k, "?") == v, "paths", lambda: "%s: path %s is %r, was %r" % (tag, k, new.paths.get(k), v))
            sn = state(new)
            out.expect(sn == s0, "load-differs", lambda: "%s: (field, before, after) %s" % (tag, diff(s0, sn)))
            if has_raw:
                out.expect(new.raw_data is not None and g.frame_digest(new.raw_data) == raw0, "raw-differs", tag)
                out.expect(list(new.raw_data.columns) == list(dp.raw_data.columns), "raw-columns", tag)
            else:
                out.expect(new.raw_data is None, "raw-kept", tag)
                for op in (new.as_dict, new.structure, new.validate, new.unstructure):
                    try:
                        op()
                        out.bad("no-raw-op", "%s: %s answered without raw data" % (tag, op.__name__))
                    except ValueError:
                        pass
            out.see(sn, has_raw)
            if out.problems:
                return
            dp = new


def same(a, b):
    import numpy as np
    import pandas as pd
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(b, (pd.Series, pd.DataFrame)) and not isinstance(a, (pd.Series, pd.DataFrame)):
        return False
    if isinstance(a, float) and a != a:
        return isinstance(b, float) and b != b
    return type(a) is type(b) and a == b

"""P03 - structuring lifecycle: every operation history on one object."""
import itertools
import json
import os
import tempfile

from vmc import rawgen as g

PROPERTY = "P03"
RULE = "every sequence of operations up to the depth bound, on every record; after each operation the whole object state is compared with the model"
ASSUMPTIONS = ["a fresh object structured once is the definition of the structuring result (its content is decided by P01, P02, P05)"]
BOUNDS = {"quick": "3 records (and one of 24 cycles: single operations) x all sequences of <=3 operations from 12 (depth 3 on one record, depth 2 on the others)",
          "thorough": "3 records x all sequences of <=3 operations from 12, plus depth 4 on one record"}
CHUNK = 4

RECORDS = {
    "a": {"cycles": [[1, "CVD", 1.0], [2, "CD", 0.9], [3, "CVD", 0.8]]},
    "b": {"cycles": [[0, "DC", 1.0], [1, "CRD", 0.9], [2, "CVPD", 0.8], [3, "CD", 0.7]], "index": "rev"},
    "c": {"cycles": [[1, "CD", 1.0], [2, "CVD", 0.9], [3, "Cw", 0.8]], "drop": ["temperature"]},
    "l": {"cycles": [[i + 1 if i < 12 else i + 83, ("CVD", "CD", "CRD", "DC")[i % 4], 1.0 - 0.01 * i] for i in range(24)]},
}
DIAGS = {"N": None, "A": {"rpt_a": [1]}, "B": {"hppc_x": [2], "Reset": [1]}}
PARAMS = {
    "S1": dict(resolution=5),
    "S2": dict(v_range=[2.8125, 3.5], resolution=4, nominal_capacity=0.5, full_fast_charge=0.6,
               charge_axis="voltage", discharge_axis="discharge_capacity"),
    "S3": dict(resolution=3, exclude_cycles=[2], diagnostic_resolution=7),
}
DEFAULTS = dict(v_range=None, resolution=1000, diagnostic_resolution=500, nominal_capacity=1.1, full_fast_charge=0.8,
                charge_axis="charge_capacity", discharge_axis="voltage", exclude_cycles=None)
OPS = ["S1", "S2", "S3", "DA", "DB", "DN", "U", "Q", "M", "V", "RD", "RJ"]


def cases(tier):
    thorough = tier == "thorough"
    for n in range(1, 5):
        for rec in RECORDS:
            if n == 3 and rec != "a" and (not thorough or rec == "l") or n == 2 and rec == "l" and not thorough:
                continue
            if n == 4 and (rec != "a" or not thorough):
                continue
            for seq in itertools.product(OPS, repeat=n):
                yield {"rec": rec, "ops": list(seq)}


FRAMES = ("structured_data", "structured_summary", "diagnostic_data", "diagnostic_summary")
_BASE = {}


def snap(dp):
    return {f: g.frame_digest(getattr(dp, f)) for f in FRAMES}


def baseline(rec, s, d):
    new = [r for r in RECORDS if r != "l"] if not _BASE else []
    if rec == "l" and ("l", "raw") not in _BASE:
        new.append("l")
    if new:
        # every definition (of the small records) is computed before any history runs in this process
        for r in new:
            for p in PARAMS:
                for q in DIAGS:
                    dp = g.make_datapath(RECORDS[r], DIAGS[q])
                    dp.structure(**PARAMS[p])
                    queries = [float(dp.get_cycle_life()), g.frame_digest(dp.cycles_to_capacities(0, 4, 1)),
                               g.frame_digest(dp.capacities_to_cycles())]
                    _BASE[r, p, q] = (snap(dp), queries)
            _BASE[r, "paused"] = g.make_datapath(RECORDS[r]).paused_intervals.tolist()
            dp = g.make_datapath(RECORDS[r])
            _BASE[r, "raw"] = raw_state(dp)
    return _BASE[rec, s, d]


def raw_state(dp):
    return (g.frame_digest(dp.raw_data), tuple(dp.raw_data.columns))


def diag_state(dp):
    if dp.diagnostic is None:
        return None
    return {k: sorted(int(i) for i in v) for k, v in dp.diagnostic.cycles.items()}


def run_case(case, out):
    import pandas as pd
    from beep.structure.diagnostic import DiagnosticConfig

    rec = case["rec"]
    baseline(rec, "S1", "N")
    dp = g.make_datapath(RECORDS[rec])
    raw0 = _BASE[rec, "raw"]
    index0 = list(dp.raw_data.index)
    reloaded = False
    diag, st = "N", None          # model: current diagnostic, (params, diagnostic at structuring) or None
    for i, op in enumerate(case["ops"]):
        tag = "op %d (%s) of %s on record %s" % (i, op, case["ops"], rec)
        out.call()
        if op in PARAMS:
            dp.structure(**json.loads(json.dumps(PARAMS[op])))
            st = (op, diag)
        elif op[0] == "D":
            diag = op[1]
            dp.diagnostic = None if DIAGS[diag] is None else DiagnosticConfig(dict(DIAGS[diag]))
        elif op == "U":
            dp.unstructure()
            st, diag = None, "N"
        elif op == "Q":
            got = []
            for q in (lambda: float(dp.get_cycle_life()), lambda: g.frame_digest(dp.cycles_to_capacities(0, 4, 1)),
                      lambda: g.frame_digest(dp.capacities_to_cycles())):
                try:
                    got.append(q())
                except RuntimeError:
                    got.append("RuntimeError")
            want = ["RuntimeError"] * 3 if st is None else baseline(rec, *st)[1]
            out.expect(got == want, "query", lambda: "%s: queries answer %s, expected %s" % (tag, got, want))
        elif op == "M":
            # summaries on request: return results, leave the object alone
            a = dp.summarize_cycles(nominal_capacity=0.25)
            p = dp.paused_intervals
            b = dp.interpolate_cycles(resolution=3)
            if diag != "N":
                dp.summarize_diagnostic()
                dp.interpolate_diagnostic_cycles(time_resolution=3, voltage_resolution=3)
            out.expect(p.tolist() == _BASE[rec, "paused"], "paused", lambda: "%s: paused %s" % (tag, p.tolist()))
            out.expect(len(a) and len(b), "empty", tag)
        elif op == "V":
            v1 = dp.validate()
            out.expect(isinstance(v1, tuple) and v1 == dp.validate(), "validate", lambda: "%s: %r" % (tag, v1))
        elif op == "RD":
            d = dp.as_dict()
            dp = type(dp).from_dict(d)
            reloaded = True
        elif op == "RJ":
            with tempfile.TemporaryDirectory() as tmp:
                fn = os.path.join(tmp, "x.json.gz")
                dp.to_json_file(fn, omit_raw=False)
                dp = type(dp).from_json_file(fn)
            reloaded = True
        # ---- whole-state comparison
        out.expect(raw_state(dp) == raw0, "raw-data-changed", lambda: "%s: raw data changed; columns %s" % (tag, list(dp.raw_data.columns)))
        if not reloaded:
            out.expect(list(dp.raw_data.index) == index0, "raw-index-changed", tag)
        out.expect(bool(dp.is_structured) == (st is not None), "is_structured",
                   lambda: "%s: is_structured=%s" % (tag, dp.is_structured))
        want_diag = None if DIAGS[diag] is None else {k: sorted(v) for k, v in DIAGS[diag].items()}
        out.expect(diag_state(dp) == want_diag, "diagnostic", lambda: "%s: diagnostic %s, expected %s" % (tag, diag_state(dp), want_diag))
        if st is None:
            out.expect(all(getattr(dp, f) is None for f in FRAMES), "leftover",
                       lambda: "%s: leftover %s" % (tag, [f for f in FRAMES if getattr(dp, f) is not None]))
            out.expect(not dp.structuring_parameters, "params", lambda: "%s: leftover parameters" % tag)
            out.see(None, diag)
        else:
            want = baseline(rec, *st)[0]
            got = snap(dp)
            for f in FRAMES:
                out.expect(got[f] == want[f], "result:" + f,
                           lambda: "%s: %s differs from a fresh object's (structured with %s, diagnostic %s)" % (tag, f, *st))
            wp = dict(DEFAULTS)
            wp.update(PARAMS[st[0]])
            sp = dict(dp.structuring_parameters)
            out.expect({k: sp.get(k, "missing") for k in wp} == wp, "params", lambda: "%s: structuring parameters %s, expected %s" % (tag, sp, wp))
            out.see(got, diag)
        if out.problems:
            return

"""P05 - diagnostic configuration, diagnostic summary and diagnostic interpolation."""
import itertools
import json
import math

from vmc import rawgen as g

PROPERTY = "P05"
RULE = "every type map over <=2 types and 3 cycles; every step-number pattern set over small cycles; every record of <=2 cycles over the shapes x diagnostic assignment x interpolation settings"
ASSUMPTIONS = ["row order is time order", "a step of fewer than two distinct abscissae is not resampled (documented)",
               "CV figures of diagnostic cycles are compared only when the first step is CC then CV"]
BOUNDS = {"quick": "5 type names, all maps over cycles {1,2,3}; 3 cycles x 7 step sets x 9 criteria pairs; 12 shapes in 1-2 cycles x 16 deviations (incl. steps numbered in another order than they run); records of 13-120 cycles and cycles of 12-15 steps",
          "thorough": "as quick with triples over 6 shapes and pairs of deviations"}
TYPES = ["rpt_0.2C", "HPPC_a", "reset", "Reset_RPT", "custom"]
SUBSETS = [[], [1], [2], [3], [1, 2], [2, 3], [1, 2, 3]]
STEPSETS = [[1], [2], [1, 2], [1, 3], [2, 3], [1, 2, 3], [3, 2, 1, 2]]
CRIT = [("contains", [[1]]), ("contains", [[1, 2]]), ("contains", [[3], [2]]), ("exact", [[1]]), ("exact", [[1, 2]]),
        ("exact", [[2, 1], [3, 2]]), ("exact", [[1, 2, 3]]), ("contains", []), ("exact", [[2, 2]])]
SHAPES = ["CVD", "CD", "CRD", "KD", "KRDR", "D", "RCRD", "cd", "CDCD", "CVo", "CxVD", "CuD"]
DEFAULT = {"start": 1, "gap": 1, "index": "range", "tres": 4, "vres": 5, "vdm": None, "fallback": None, "drop": None, "renum": None,
           "diag": [["rpt_a", [0]]]}
DEVS = [("start", 0), ("gap", 4), ("index", "offset"), ("index", "rev"), ("tres", 2), ("vres", 3), ("vdm", 0.5), ("vdm", 0.002),
        ("fallback", [2.75, 3.5]), ("drop", ["temperature"]),
        ("diag", [["HPPC", [0]]]), ("diag", [["rpt_a", [0]], ["custom", [1]]]), ("diag", [["hppc1", [1]], ["reset", [5]]]),
        ("diag", [["rpt_a", [1]]]), ("renum", "desc"), ("renum", "mix")]


def configs(k):
    for n in range(k + 1):
        for c in itertools.combinations(DEVS, n):
            if len({x[0] for x in c}) == n:
                d = dict(DEFAULT)
                d.update(dict(c))
                yield d


def cases(tier):
    t = tier == "thorough"
    for a in TYPES:
        for sa in SUBSETS:
            yield {"kind": "map", "m": [[a, sa]]}
    for a, b in itertools.permutations(TYPES, 2):
        for sa in SUBSETS:
            for sb in SUBSETS:
                yield {"kind": "map", "m": [[a, sa], [b, sb]]}
    for cfg, shapes in long_cases():
        yield {"kind": "data", "shapes": shapes, "cfg": cfg}
    for ca in CRIT:
        for cb in [None] + CRIT:
            yield {"kind": "steps", "crit": [ca, cb]}
    for cfg in configs(1):
        for s in SHAPES:
            yield {"kind": "data", "shapes": [s], "cfg": cfg}
    for cfg in configs(2 if t else 1):
        for s in itertools.product(SHAPES, repeat=2):
            yield {"kind": "data", "shapes": list(s), "cfg": cfg}
    if t:
        for cfg in configs(1):
            for s in itertools.product(SHAPES[:6], repeat=3):
                yield {"kind": "data", "shapes": list(s), "cfg": cfg}


def long_cases():
    """Records of 13-120 cycles, diagnostics of several kinds spread over them, cycles of ten and more steps."""
    for n, start, gap in ((13, 1, 1), (60, 95, 1), (120, 0, 2)):
        last = n - 1
        for diag in ([["rpt_a", [0, last]]], [["rpt_0.2C", [1, 10, n // 2]], ["HPPC", [2, 11]], ["reset", [0, last]], ["custom", [4]]],
                     [["hppc1", list(range(0, n, 5))], ["rpt_b", list(range(1, n, 5))]]):
            yield dict(DEFAULT, start=start, gap=gap, diag=diag), [SHAPES[i % 5] for i in range(n)]
    for s in ("CRDRCRDRCRDR", "RCRDCVDRCVRDKRD", "CDCDCDCDCDCDCD"):
        for diag in ([["rpt_a", [0]]], [["HPPC", [1]]]):
            for si0 in (1, 95):
                yield dict(DEFAULT, diag=diag, si0=si0), [s, s, "CD"]


def norm(d):
    return {k: sorted(int(i) for i in v) for k, v in d.items()}


def run_case(case, out):
    {"map": run_map, "steps": run_steps, "data": run_data}[case["kind"]](case, out)


def run_map(case, out):
    from beep.structure.diagnostic import DiagnosticConfig

    m = case["m"]
    flat = [c for _, s in m for c in s]
    for make in (list, set, tuple):
        given = {k: make(s) for k, s in m}
        keep = {k: make(s) for k, s in m}
        params = {"x": 1, "y": "z", "b": True, "f": 0.5}
        out.call()
        try:
            dc = DiagnosticConfig(given, **params)
        except ValueError:
            dc = None
        if len(set(flat)) != len(flat):
            out.expect(dc is None, "overlap", "%s accepted although a cycle has two types" % m)
            out.see("refused")
            continue
        if not out.expect(dc is not None, "refused", "%s refused" % m):
            return
        out.expect(given == keep, "mutated", "%s changed to %s" % (keep, given))
        for o in (dc, DiagnosticConfig.from_dict(dc.as_dict()), DiagnosticConfig.from_dict(json.loads(json.dumps(dc.as_dict())))):
            out.call()
            obs = [norm(o.cycles), {int(k): v for k, v in o.type_by_ix.items()}, sorted(o.all_ix), sorted(o.hppc_ix), sorted(o.rpt_ix), sorted(o.reset_ix), o.params]
            want = [{k: sorted(s) for k, s in m}, {c: k for k, s in m for c in s}, sorted(flat)]
            for fam in ("hppc", "rpt", "reset"):
                want.append(sorted(c for k, s in m if fam in k.lower() for c in s))
            want.append(params)
            out.see(obs)
            out.expect(obs == want, "map", lambda: "configuration %s answers %s, expected %s" % (m, obs, want))
    try:
        DiagnosticConfig({})
        out.bad("empty", "empty configuration accepted")
    except ValueError:
        pass
    try:
        DiagnosticConfig({"rpt": [1]}, bad=[1])
        out.bad("kwarg", "non-primitive parameter accepted")
    except TypeError:
        pass


def run_steps(case, out):
    import pandas as pd
    from beep.structure.diagnostic import DiagnosticConfig

    ca, cb = case["crit"]
    crit = {"a": (ca[0], [tuple(p) for p in ca[1]])}
    if cb:
        crit["b"] = (cb[0], [tuple(p) for p in cb[1]])
    for sets in itertools.product(STEPSETS, repeat=2):
        rows = [(3 + 2 * i, s) for i, ss in enumerate(sets) for s in ss for _ in range(2)]
        df = pd.DataFrame({"cycle_index": [r[0] for r in rows], "step_index": [r[1] for r in rows]})
        want = {}
        for k, (rule, pats) in crit.items():
            want[k] = []
            for i, ss in enumerate(sets):
                if any(set(p) <= set(ss) if rule == "contains" else set(p) == set(ss) for p in pats):
                    want[k].append(3 + 2 * i)
        out.call()
        try:
            dc = DiagnosticConfig.from_step_numbers(df, crit, note="n")
            got = norm(dc.cycles)
            out.expect(dc.params == {"note": "n"}, "params", str(dc.params))
        except ValueError:
            got = "overlap"
        flat = [c for v in want.values() for c in v]
        if len(flat) != len(set(flat)):
            want = "overlap"
        out.see(got)
        if not out.expect(got == want, "steps", lambda: "cycles with steps %s and criteria %s give %s, expected %s" % (sets, crit, got, want)):
            return
    for bad in (("within", [[1]]), ("", [[1]])):
        try:
            DiagnosticConfig.from_step_numbers(df, {"a": bad})
            out.bad("rule", "unknown matching rule %r accepted" % (bad[0],))
        except ValueError:
            pass
    try:
        DiagnosticConfig.from_step_numbers(df[["cycle_index"]], crit)
        out.bad("column", "record without step numbers accepted")
    except ValueError:
        pass


F64 = {"charge_capacity", "discharge_capacity", "charge_energy", "discharge_energy", "test_time"}
COLS = ["current", "voltage", "charge_capacity", "discharge_capacity", "charge_energy", "discharge_energy",
        "internal_resistance", "temperature", "test_time"]


def close(a, b, f64=False, mag=1.0):
    if g.isnan(a) or g.isnan(b):
        return g.isnan(a) and g.isnan(b)
    if isinstance(b, str):
        return a == b
    return abs(a - b) <= (1e-9 if f64 else 2e-6) * max(mag, abs(b))


def summary_reference(rows, c, ctype):
    from checks import p02
    rs = [r for r in rows if r["cycle_index"] == c]
    d = {"cycle_index": c, "cycle_type": ctype, "date_time_iso": rs[0]["date_time_iso"]}
    for k in ("discharge_capacity", "charge_capacity", "discharge_energy", "charge_energy"):
        d[k] = max(r[k] for r in rs)
    if "temperature" in rs[0]:
        ts = [r["temperature"] for r in rs]
        d.update(temperature_maximum=max(ts), temperature_minimum=min(ts), temperature_average=sum(ts) / len(ts))
    if d["charge_capacity"]:
        d["coulombic_efficiency"] = d["discharge_capacity"] / d["charge_capacity"]
    gaps = [p02.secs(b["date_time_iso"]) - p02.secs(a["date_time_iso"]) for a, b in zip(rs, rs[1:])]
    d["paused"] = max(gaps) if gaps and max(gaps) > 3600 else 0
    return d


def run_data(case, out):
    from checks import p02

    cfg = case["cfg"]
    n = len(case["shapes"])
    cyc = [cfg["start"] + i * cfg["gap"] for i in range(n)]
    spec = {"cycles": [[c, s, 1.0 - 0.0625 * (i if n < 12 else i / n), cfg.get("si0", 1)] for i, (c, s) in enumerate(zip(cyc, case["shapes"]))],
            "index": cfg["index"], "drop": cfg["drop"], "renum": cfg.get("renum")}
    rows = g.build_rows(spec)
    types = {}
    config = {}
    for name, pos in cfg["diag"]:
        ix = [cyc[p] if p < n else 1000 + p for p in pos]     # a configured cycle may be absent from the record
        config[name] = ix
        for c in ix:
            types[c] = name
    present = sorted(c for c in types if c in cyc)
    if not present:
        out.nontrivial = False
        return
    dp = g.make_datapath(spec, config)
    raw0 = g.frame_digest(dp.raw_data)
    out.call(2)
    got = dp.summarize_diagnostic()
    out.see(g.frame_digest(got, 6))
    have = [int(c) for c in got["cycle_index"].tolist()]
    if not out.expect(have == present, "summary-cycles", "diagnostic summary lists %s, expected %s" % (have, present)):
        return
    for rec in got.to_dict("records"):
        c = int(rec["cycle_index"])
        want = summary_reference(rows, c, types[c])
        shape = case["shapes"][cyc.index(c)]
        if shape[0] == "K" and not cfg.get("renum"):      # the charge is the lowest step number by definition
            want.update(p02.cv_reference([r for r in rows if r["step_index"] == 1], c, shape))
        for k, v in want.items():
            if out.expect(k in rec, "summary-column:" + k, "no column " + k):
                out.expect(close(rec[k], v, k in p02.F64), "summary:" + k, lambda: "cycle %s: %s is %r, expected %r" % (c, k, rec[k], v))
    kw = {"time_resolution": cfg["tres"], "voltage_resolution": cfg["vres"]}
    if cfg["vdm"] is not None:
        kw["v_delta_min"] = cfg["vdm"]
    if cfg["fallback"]:
        kw["dv_fallback"] = tuple(cfg["fallback"])
    vdm = cfg["vdm"] if cfg["vdm"] is not None else 0.001
    data = dp.interpolate_diagnostic_cycles(**kw)
    out.see(g.frame_digest(data, 6))
    out.expect(g.frame_digest(dp.raw_data) == raw0, "raw-changed", "raw data changed")
    groups = {}
    for rec in data.to_dict("records"):
        groups.setdefault((int(rec["cycle_index"]), int(rec["step_index_counter"])), []).append(rec)
    want = {}
    for c in present:
        runs, order = [], []
        for r in rows:
            if r["cycle_index"] != c:
                continue
            if r["step_index"] not in order:
                order.append(r["step_index"])
            if not runs or runs[-1][0] != r["step_index"]:
                runs.append((r["step_index"], []))
            runs[-1][1].append(r)
        for k, (si, rs) in enumerate(runs, 1):
            if len(rs) < 2:
                continue
            want[c, k] = (si, order.index(si), rs)
    if not out.expect(set(groups) == set(want), "steps", lambda: "resampled steps (cycle, run) %s, expected %s" % (sorted(groups), sorted(want))):
        return
    keys = [(int(a), int(b)) for a, b in zip(data["cycle_index"], data["step_index_counter"])]
    out.expect(keys == sorted(keys), "order", "steps are not in cycle and step order")
    for (c, k), (si, ordinal, rs) in want.items():
        recs = groups[c, k]
        for rec in recs:
            out.expect((int(rec["step_index"]), int(rec["step_type"]), str(rec["cycle_type"])) == (si, ordinal, types[c]), "labels",
                       lambda: "cycle %s run %s labelled %s, expected %s" % (c, k, (rec["step_index"], rec["step_type"], rec["cycle_type"]), (si, ordinal, types[c])))
        vs = [r["voltage"] for r in rs]
        hppc = "hppc" in types[c].lower()
        if max(vs) - min(vs) < vdm:
            ax, rng, res = "test_time", (rs[0]["test_time"], rs[-1]["test_time"]), cfg["tres"]
        else:
            ax, rng, res = "voltage", (min(vs), max(vs)), cfg["vres"]
            if cfg["fallback"] and not hppc:
                rng = cfg["fallback"]
        grid = sorted(set(g.linspace(rng[0], rng[1], res)))
        recs = sorted(recs, key=lambda r: r[ax])
        if not out.expect(len(recs) == len(grid) and all(close(r[ax], x) for r, x in zip(recs, grid)), "grid",
                          lambda: "cycle %s run %s on %s: %s, expected %s" % (c, k, ax, [r[ax] for r in recs], grid)):
            return
        for rec, x in zip(recs, grid):
            for col in COLS:
                if col == ax or col not in rows[0]:
                    continue
                where, lo, hi = g.interp_at([(q[ax], q[col]) for q in rs], x)
                v = rec[col]
                tol = 2e-6 * max(1.0, abs(hi), abs(lo))
                ok = (not g.isnan(v) and lo - tol <= v <= hi + tol) if where == "in" else (g.isnan(v) or lo - tol <= v <= hi + tol)
                if not out.expect(ok, "value:" + col, lambda: "cycle %s run %s at %s=%s: %s is %r, expected [%r, %r]" % (c, k, ax, x, col, v, lo, hi)):
                    return
        # incremental capacity between neighbouring grid points
        for a, b in zip(recs, recs[1:]):
            for col in ("charge", "discharge"):
                dq, dv = b[col + "_capacity"] - a[col + "_capacity"], b["voltage"] - a["voltage"]
                if g.isnan(dq) or g.isnan(dv) or abs(dv) < 1e-2:
                    continue
                out.expect(abs(b[col + "_dQdV"] - dq / dv) <= 1e-3 * max(1, abs(dq / dv)), "dqdv",
                           lambda: "cycle %s run %s: %s_dQdV %r, expected %r" % (c, k, col, b[col + "_dQdV"], dq / dv))
    # structuring uses the same results
    if any(c not in types for c in cyc):
        dp.structure(resolution=3, diagnostic_resolution=cfg["vres"])
        out.call()
        ref = dp.interpolate_diagnostic_cycles(time_resolution=cfg["vres"], voltage_resolution=cfg["vres"])
        out.expect(g.frame_digest(dp.diagnostic_data) == g.frame_digest(ref), "structure-data", "structured diagnostic data differ")
        out.expect(g.frame_digest(dp.diagnostic_summary) == g.frame_digest(got), "structure-summary", "structured diagnostic summary differs")
        out.expect(not (set(map(int, dp.structured_data.cycle_index.unique())) | set(map(int, dp.structured_summary.cycle_index))) & set(types), "regular", "a diagnostic cycle appears among the regular ones")

"""P02 - per-cycle summary."""
import datetime
import itertools
import math

from vmc import rawgen as g

PROPERTY = "P02"
RULE = "every record of up to N cycles over the shape alphabet x numbering/index/threshold/diagnostic/fault deviations"
ASSUMPTIONS = ["row order is time order", "CV figures are compared only for cycles whose charge goes constant-current then constant-voltage"]
BOUNDS = {
    "quick": "12 shapes; all records of <=2 cycles with <=1 deviation, triples over 5 shapes, 3 records x <=2 deviations",
    "thorough": "as quick plus all triples with the default config, triples over 5 shapes x <=1 deviation, 4 records x <=3 deviations",
}
SHAPES = ["CD", "DC", "CRD", "CVD", "C", "D", "cd", "CVo", "RCD", "CVPD", "Cw", "CVRDR"]
DEFAULT = {"start": 1, "gap": 1, "index": "range", "nom": 1.1, "ffc": 0.8, "diag": None, "drop": None, "fault": None,
           "rest": {}, "clock": None}
DEVS = [("start", 0), ("start", 5), ("gap", 3), ("index", "offset"), ("index", "rev"), ("nom", 0.5), ("nom", 1.0),
        ("nom", 3.0), ("ffc", 0.5), ("ffc", 1.0), ("diag", [0]), ("diag", [1]), ("diag", [0, 2]), ("diag", [-1]),
        ("drop", ["temperature"]),
        ("fault", ["charge_energy", 0, 5e6]), ("fault", ["discharge_energy", 1, -5e6]),
        ("fault", ["charge_energy", 0, 9e5]),
        ("fault", ["internal_resistance", 0, None]), ("fault", ["temperature", 0, None]),
        ("fault", ["internal_resistance", 1, None]), ("fault", ["temperature", 1, None]), ("clock", [0, 90]), ("clock", [1, 7200]),
        ("rest", {"cycle_complete_discharge_ratio": 0.3}), ("rest", {"cycle_complete_vmin": 2.0}),
        ("rest", {"cycle_complete_vmin": 3.4}), ("rest", {"cycle_complete_vmax": 3.7}),
        ("rest", {"cycle_complete_vmin": 2.6875}), ("rest", {"cycle_complete_vmax": 3.625}), ("rest", {"cycle_complete_discharge_ratio": 1.0}),
        ("rest", {"error_threshold": 2.0})]


def configs(k):
    for n in range(0, k + 1):
        for combo in itertools.combinations(DEVS, n):
            keys = [c[0] for c in combo]
            if len(set(keys)) != len(keys):
                continue
            d = dict(DEFAULT)
            d.update(dict(combo))
            yield d


def cases(tier):
    thorough = tier == "thorough"
    for cfg in configs(1):
        for s in SHAPES:
            yield {"shapes": [s], "cfg": cfg}
    for cfg in configs(1):
        for s in itertools.product(SHAPES, repeat=2):
            yield {"shapes": list(s), "cfg": cfg}
    for s in ("CPQD", "CQPD", "CSD", "PCQD", "KD", "KRD", "mD", "Cn", "mn", "VCD", "CVCVD"):
        for o in ((), ("CVD",), ("Cw",)):
            for cfg in configs(1):
                yield {"shapes": [s] + list(o), "cfg": cfg}
                if o:
                    yield {"shapes": list(o) + [s], "cfg": cfg}
    # the record ends with a diagnostic cycle: the last regular cycle decides by its own voltages
    for s in itertools.product(("CD", "CVD"), ("CD", "cd", "C", "D", "DC"), ("cd", "C", "D", "CD", "Cw")):
        for rest in ({}, {"cycle_complete_vmin": 2.7}, {"cycle_complete_vmax": 3.55}, {"cycle_complete_vmax": 3.55, "cycle_complete_discharge_ratio": 0.3}, {"cycle_complete_vmin": 2.7, "cycle_complete_discharge_ratio": -1.0}):
            yield {"shapes": list(s), "cfg": dict(DEFAULT, diag=[-1], rest=rest)}
    # realistic scale: default settings, many cycles over several days, large cycle numbers
    for s in (["CD"], ["CVD", "CPD"], ["CVRDR", "DC", "CD"]):
        yield {"shapes": s, "cfg": dict(DEFAULT, dflt=1)}
    for start in (1, 95):
        yield {"shapes": [SHAPES[i % 12] for i in range(40)] + ["CD"], "cfg": dict(DEFAULT, start=start)}
        yield {"shapes": [SHAPES[i % 11] for i in range(130)], "cfg": dict(DEFAULT, start=start, gap=3, index="offset", diag=[0, 50, 100])}
    few = ["CD", "CVD", "Cw", "DC", "CVPD"]
    for cfg in (configs(1) if thorough else configs(0)):
        for s in itertools.product(few, repeat=3):
            yield {"shapes": list(s), "cfg": cfg}
    for cfg in configs(3 if thorough else 2):
        for s in (["CVD", "CD", "Cw"], ["CVPD", "CVD", "CVD"], ["CD", "Cw", "CVD", "CRD"]):
            yield {"shapes": s, "cfg": cfg}
    if thorough:
        for s in itertools.product(SHAPES, repeat=3):
            yield {"shapes": list(s), "cfg": dict(DEFAULT)}


def rows_of(case):
    cfg = case["cfg"]
    n = len(case["shapes"])
    cyc = [cfg["start"] + i * cfg["gap"] for i in range(n)]
    spec = {"cycles": [[c, s, 1.0 - (0.0625 if n < 9 else 0.001953125) * i] for i, (c, s) in enumerate(zip(cyc, case["shapes"]))],
            "index": cfg["index"], "drop": cfg["drop"]}
    return spec, cyc


def secs(iso):
    import datetime
    return (datetime.datetime.fromisoformat(iso) - datetime.datetime.fromisoformat("2020-01-01T00:00:00+00:00")).total_seconds()


def reference(rows, cyc, cfg, diag_cycles):
    """One dict per regular cycle, in ascending order."""
    res = []
    thr = cfg["rest"].get("error_threshold", 1e6)
    qth = eth = 0.0
    for c in sorted(cyc):
        if c in diag_cycles:
            continue
        rs = [r for r in rows if r["cycle_index"] == c]
        if not rs:
            continue
        d = {"cycle_index": c}
        for k in ("discharge_capacity", "charge_capacity", "discharge_energy", "charge_energy"):
            vals = [r[k] for r in rs if not g.isnan(r[k])]
            d[k] = max(vals)
        irs = [r["internal_resistance"] for r in rs if not g.isnan(r["internal_resistance"])]
        d["dc_internal_resistance"] = irs[-1] if irs else math.nan
        if "temperature" in rs[0]:
            ts = [r["temperature"] for r in rs if not g.isnan(r["temperature"])]
            d["temperature_maximum"] = max(ts) if ts else math.nan
            d["temperature_minimum"] = min(ts) if ts else math.nan
            d["temperature_average"] = sum(ts) / len(ts) if ts else math.nan
            if len(ts) == len(rs):
                t0 = secs(rs[0]["date_time_iso"])
                m = [(secs(r["date_time_iso"]) - t0) / 60 for r in rs]
                d["time_temperature_integrated"] = sum(
                    (m[i + 1] - m[i]) * (rs[i]["temperature"] + rs[i + 1]["temperature"]) / 2 for i in range(len(rs) - 1))
        d["date_time_iso"] = rs[0]["date_time_iso"]
        d["energy_efficiency"] = d["discharge_energy"] / d["charge_energy"] if d["charge_energy"] else math.nan
        for k in ("discharge_energy", "charge_energy"):
            if abs(d[k]) > thr:
                d[k] = math.nan
        qth += d["charge_capacity"]
        d["charge_throughput"] = qth
        if math.isnan(d["charge_energy"]):
            d["energy_throughput"] = math.nan
        else:
            eth += d["charge_energy"]
            d["energy_throughput"] = eth
        full = [r for r in rs if r["charge_capacity"] >= cfg["nom"] * cfg["ffc"]]
        d["charge_duration"] = (round(secs(full[0]["date_time_iso"]) - secs(rs[0]["date_time_iso"]), 2)
                                if full else math.nan)
        gaps = [secs(b["date_time_iso"]) - secs(a["date_time_iso"]) for a, b in zip(rs, rs[1:])]
        d["paused"] = max(gaps) if gaps and max(gaps) > 3600 else 0
        res.append(d)
    if len(res) > 1:
        last = res[-1]
        vs = [r["voltage"] for r in rows if r["cycle_index"] == last["cycle_index"]]
        complete = (min(vs) < cfg["rest"].get("cycle_complete_vmin", 3.3)
                    and max(vs) > cfg["rest"].get("cycle_complete_vmax", 3.3)
                    and last["discharge_capacity"] > cfg["rest"].get("cycle_complete_discharge_ratio", 0.97) * last["charge_capacity"])
        if not complete:
            res = res[:-1]
    return res


def cv_reference(rows, c, shape):
    """CC rows followed by CV rows: the hold starts at the last row before the first CV interval."""
    ch = [r for r in rows if r["cycle_index"] == c and r["current"] > 0]
    k = 0
    while k + 1 < len(ch):
        dt = ch[k + 1]["test_time"] - ch[k]["test_time"]
        dv = ch[k + 1]["voltage"] - ch[k]["voltage"]
        di = ch[k + 1]["current"] - ch[k]["current"]
        if dt >= 1 and abs(dv / dt) <= 1e-5 and abs(di / dt) >= 1e-4:
            break
        k += 1
    seg = ch[k - 1:]
    return {"CV_time": seg[-1]["test_time"] - seg[0]["test_time"], "CV_current": seg[-1]["current"],
            "CV_capacity": seg[-1]["charge_capacity"] - seg[0]["charge_capacity"]}


F64 = {"discharge_capacity", "charge_capacity", "discharge_energy", "charge_energy", "time_temperature_integrated"}


def close(a, b, f64):
    if g.isnan(a) or g.isnan(b):
        return g.isnan(a) and g.isnan(b)
    if isinstance(b, str):
        return a == b
    return abs(a - b) <= (1e-9 if f64 else 2e-6) * max(1.0, abs(b))


def run_case(case, out):
    cfg = case["cfg"]
    spec, cyc = rows_of(case)
    rows = g.build_rows(spec)
    diag_cycles = set()
    if cfg["diag"]:
        diag_cycles = set(cyc[i] for i in cfg["diag"] if -len(cyc) <= i < len(cyc))
    if diag_cycles == set(cyc):
        out.nontrivial = False
        return
    dp = g.make_datapath(spec, {"rpt_0.2C": sorted(diag_cycles)} if diag_cycles else None)
    if cfg["fault"]:
        col, i, val = cfg["fault"]
        if col not in rows[0]:
            out.nontrivial = False
            return
        val = math.nan if val is None else val
        if i < len(cyc):
            hit = [k for k, r in enumerate(rows) if r["cycle_index"] == cyc[i]]
            for k in (hit if math.isnan(val) else hit[-1:] if val > 0 else hit):
                rows[k][col] = val
            dp.raw_data[col] = [r[col] for r in rows]
    if cfg["clock"] and cfg["clock"][0] < len(cyc):
        # the tester waits: the clock runs on, the test time does not
        i, dt = cfg["clock"]
        k0 = [k for k, r in enumerate(rows) if r["cycle_index"] == cyc[i]][2]
        for r in rows[k0:]:
            r["date_time_iso"] = (datetime.datetime.fromisoformat(r["date_time_iso"]) + datetime.timedelta(seconds=dt)).isoformat()
        dp.raw_data["date_time_iso"] = [r["date_time_iso"] for r in rows]
    if cfg.get("dflt"):
        got = dp.summarize_cycles()
    else:
        got = dp.summarize_cycles(nominal_capacity=cfg["nom"], full_fast_charge=cfg["ffc"], **cfg["rest"])
    out.call()
    out.see(g.frame_digest(got, 6))
    want = reference(rows, cyc, cfg, diag_cycles)
    have = [int(x) for x in got["cycle_index"].tolist()]
    if not out.expect(have == [w["cycle_index"] for w in want], "cycles",
                      lambda: "summary lists cycles %s, expected %s" % (have, [w["cycle_index"] for w in want])):
        return
    recs = got.to_dict("records")
    for w, r in zip(want, recs):
        i = cyc.index(w["cycle_index"])
        if "CV" in case["shapes"][i] and "C" == case["shapes"][i].strip("R")[0] and case["shapes"][i].count("C") == 1:
            w = dict(w, **cv_reference(rows, w["cycle_index"], case["shapes"][i]))
        for k, v in w.items():
            if not out.expect(k in r, "column:" + k, "summary has no column %s" % k):
                continue
            out.expect(close(r[k], v, k in F64), "value:" + k,
                       lambda: "cycle %s: %s is %r, expected %r" % (w["cycle_index"], k, r[k], v))

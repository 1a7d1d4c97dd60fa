"""P12 - featurizers: documented quantities, hyperparameters in force, no side effects."""
import copy
import itertools
import json
import math
import os
import shutil
import statistics
import tempfile

from vmc.toyrec import Rec, PARAMS, TYPES, NAN, param_dir

PROPERTY = "P12"
RULE = "every featurizer x every record deviation (and pair of deviations) x every hyperparameter deviation; every ordered pair of featurizers over one record; every refusal condition"
ASSUMPTIONS = ["open-circuit voltages are compared on rests where the mean of the last ten points equals the tenth point from the end",
               "voltage difference features are compared where the first diagnostic's voltage is linear in capacity, so that the interpolation kind does not matter",
               "filter_kinks is left off"]
BOUNDS = {"quick": "9 featurizers, 10 record options singly and in pairs, 4-20 hyperparameter sets each, all 72 ordered pairs",
          "thorough": "record options up to triples, all ordered statistics pairs, ordered triples of featurizers"}
CHUNK = 4

STATS = ["var", "min", "mean", "skew", "kurtosis", "abs", "square"]
NAMES = ["CycleSummaryStats", "DeltaQFastCharge", "TrajectoryFastCharge", "DiagnosticSummaryStats", "DiagnosticProperties", "RawInterpolatedData",
         "ChargingProtocol", "ExclusionCriteria", "HPPCResistanceVoltageFeatures"]


# ---------------------------------------------------------------- reference maths
def moments(a):
    n = len(a)
    m = sum(a) / n
    return n, m, sum((x - m) ** 2 for x in a) / n, sum((x - m) ** 3 for x in a) / n, sum((x - m) ** 4 for x in a) / n


def lg(x):
    return math.log10(abs(x)) if x != 0 and not math.isnan(x) else (NAN if math.isnan(x) else -math.inf)


def stat(name, a):
    n, m, m2, m3, m4 = moments(a)
    if name == "var":
        return m2
    if name == "min":
        return min(a)
    if name == "mean":
        return m
    if name == "skew":
        return m3 / m2 ** 1.5
    if name == "kurtosis":   # Pearson, unbiased
        return ((n * n - 1) * m4 / m2 ** 2 - 3 * (n - 1) ** 2) / ((n - 2) * (n - 3)) + 3
    if name == "abs":
        return sum(abs(x) for x in a)
    if name == "square":
        return sum(x * x for x in a)


def diff(a, b):
    return [x - y for x, y in zip(a, b) if not (math.isnan(x) or math.isnan(y))]


def fit(xs, ys):
    n = len(xs)
    mx, my = sum(xs) / n, sum(ys) / n
    s = sum((x - mx) * (y - my) for x, y in zip(xs, ys)) / sum((x - mx) ** 2 for x in xs)
    return s, my - s * mx


# ---------------------------------------------------------------- reference features
def ref_CycleSummaryStats(r, hp):
    a, b = hp["cycle_comp_num"]
    out = {}
    for q, st, col in (("charging_capacity", "charge", "charge_capacity"), ("discharging_capacity", "discharge", "discharge_capacity"),
                       ("charging_energy", "charge", "charge_energy"), ("discharging_energy", "discharge", "discharge_energy")):
        va, vb = [[x[col] for x in r.interp if x["cycle_index"] == c and x["step_type"] == st] for c in (a, b)]
        d = diff(vb, va)
        for s in hp["statistics"]:
            out[s + "_" + q] = lg(stat(s, d))
    return out


def ref_DeltaQFastCharge(r, hp):
    S = r.summary
    qd = [x["discharge_capacity"] for x in S]
    fi, mi = hp["final_pred_cycle"] - 1, hp["mid_pred_cycle"] - 1
    nz = [x for x in (s["charge_duration"] for s in S[1:6]) if not math.isnan(x)]
    o = {}
    o["discharge_capacity_cycle_2"] = qd[1]
    o["max_discharge_capacity_difference"] = max(q - qd[1] for q in qd[:fi + 1])
    o["discharge_capacity_cycle_100"] = qd[fi]
    o["integrated_time_temperature_cycles_1:100"] = sum(x for x in (s["time_temperature_integrated"] for s in S[:fi + 1]) if not math.isnan(x))
    o["charge_time_cycles_1:5"] = sum(nz) / len(nz)
    va, vb = [[x["discharge_capacity"] for x in r.interp if x["cycle_index"] == c and x["step_type"] == "discharge"] for c in (hp["init_pred_cycle"] - 1, fi)]
    names = ["min", "mean", "variance", "skew", "kurtosis", "first"]
    if va and vb:
        raw = [y - x for x, y in zip(va, vb)]
        d = [x for x in raw if not math.isnan(x)]
        n, m, m2, m3, m4 = moments(d)
        hasnan = len(d) < len(raw)
        vals = [min(d), m, m2, NAN if hasnan else m3 / m2 ** 1.5, NAN if hasnan else m4 / m2 ** 2 - 3, raw[0]]
        vals = [lg(v) for v in vals]
    else:
        vals = [NAN] * 6
    for nme, v in zip(names, vals):
        o["abs_%s_discharge_capacity_difference_cycles_2:100" % nme] = v
    tm = [s["temperature_maximum"] for s in S[1:fi + 1]]
    tn = [s["temperature_minimum"] for s in S[1:fi + 1]]
    o["max_temperature_cycles_1:100"] = max(x for x in tm if not math.isnan(x))
    o["min_temperature_cycles_1:100"] = min(x for x in tn if not math.isnan(x))
    s, i = fit(list(range(1, fi + 1)), qd[1:fi + 1])
    o["slope_discharge_capacity_cycle_number_2:100"], o["intercept_discharge_capacity_cycle_number_2:100"] = s, i
    s, i = fit(list(range(mi, fi + 1)), qd[mi:fi + 1])
    o["slope_discharge_capacity_cycle_number_91:100"], o["intercept_discharge_capacity_cycle_number_91:100"] = s, i
    ir = [x["dc_internal_resistance"] for x in S]
    o["min_internal_resistance_cycles_2:100"] = min(x for x in ir[1:fi + 1] if x != 0)
    o["internal_resistance_cycle_2"] = ir[1]
    o["internal_resistance_difference_cycles_2:100"] = ir[fi] - ir[1]
    o["nominal_capacity_by_median"] = statistics.median(qd[:hp["n_nominal_cycles"]])
    return o


def ref_TrajectoryFastCharge(r, hp):
    qd = [x["discharge_capacity"] for x in r.summary]
    o, k = {}, 0
    while True:
        th = hp["thresh_max_cap"] - k * hp["interval_cap"]
        if th <= hp["thresh_min_cap"] + 1e-12:
            break
        th = round(th, 2)
        ref = statistics.median(qd[:40]) if len(qd) > 40 else 1.1
        hit = [x["cycle_index"] for x in r.summary if x["discharge_capacity"] / ref <= th]
        o["capacity_" + str(th)] = float(hit[0] if qd[-1] / ref <= th else len(qd) + 1)
        k += 1
    return o


def diag_rows(r, hp=None):
    rows = r.diag
    if hp is not None:
        rows = [x for x in rows if not (x["test_time"] > hp["test_time_filter_sec"] and x["cycle_index"] < hp["cycle_index_filter"])]
        alive = {(x["cycle_index"], x["step_index"], x["step_index_counter"]) for x in rows if not math.isnan(x["test_time"])}
        rows = [x for x in rows if (x["cycle_index"], x["step_index"], x["step_index_counter"]) in alive]
    return rows


def cycles_of(rows, ty):
    o = []
    for x in rows:
        if x["cycle_type"] == ty and x["cycle_index"] not in o:
            o.append(x["cycle_index"])
    return o


def ref_DiagnosticSummaryStats(r, hp):
    rows = diag_rows(r, hp)
    ty = hp["diagnostic_cycle_type"]
    cyc = cycles_of(rows, ty)
    p0, p1 = hp["diag_pos_list"]
    out = {}
    for q, sign, col in (("charging_capacity", 1, "charge_capacity"), ("discharging_capacity", -1, "discharge_capacity"), ("charging_energy", 1, "charge_energy"),
                         ("discharging_energy", -1, "discharge_energy"), ("charging_dQdV", 1, "charge_dQdV"), ("discharging_dQdV", -1, "discharge_dQdV")):
        v = []
        for c in (cyc[p0], cyc[p1]):
            rc = [x for x in rows if x["cycle_index"] == c and x["cycle_type"] == ty]
            steps = []
            for x in rc:
                if x["step_index"] not in steps:
                    steps.append(x["step_index"])
            st = [s for s in steps if statistics.median([x["current"] for x in rc if x["step_index"] == s and not math.isnan(x["current"])]) * sign > 0]
            v.append([x[col] for x in rc if x["step_index"] == st[0]])
        d = diff(v[1], v[0])
        for s in hp["statistics"]:
            out[s + "_" + q] = lg(stat(s, d))
    for ct in ("rpt_0.2C", "rpt_1C", "rpt_2C"):
        S = [x for x in r.dsum if x["cycle_type"] == ct]
        for m in ("discharge_capacity", "discharge_energy", "charge_capacity", "charge_energy"):
            out[f"diag_sum_diff_{p0}_{p1}_{ct}{m}"] = (S[p1][m] - S[p0][m]) / S[p0][m]
    return out


def nx(r, metric, ty):
    """rows of (cycle_index, fraction, normalised regular throughput), and the throughput up to the second diagnostic"""
    norm = "discharge_energy" if "energy" in metric else "discharge_capacity"
    dc = {x["cycle_index"] for x in r.dsum}
    reg = [x for x in r.summary if x["cycle_index"] != 0 and x["cycle_index"] not in dc]
    gap = next(b["cycle_index"] for a, b in zip(reg, reg[1:]) if b["cycle_index"] - a["cycle_index"] > 1)
    x0 = sum(x[norm] for x in reg if x["cycle_index"] < gap)
    rows = []
    for d in r.dsum:
        if d["cycle_type"] == ty and d["cycle_index"] <= max(x["cycle_index"] for x in reg):
            rows.append((d["cycle_index"], d[metric] / r.dsum[0][metric], sum(x[norm] for x in reg if x["cycle_index"] < d["cycle_index"]) / x0))
    return rows, x0


def crossing(xs, ys, th, extrap):
    """the x at which the piecewise linear curve meets th (every one of them), and the search resolution"""
    if min(ys) > th:
        if not extrap:
            return None, None
        s = (ys[-1] - ys[-2]) / (xs[-1] - xs[-2])
        if s >= 0:
            return [0.0], 1.0        # a rising end cannot be extrapolated down to the threshold: nothing promised
        end = xs[-2] + (th - 0.1 - ys[-2]) / s
        return [xs[-2] + (th - ys[-2]) / s], (end - min(xs)) / 999
    o = []
    for (xa, ya), (xb, yb) in zip(zip(xs, ys), zip(xs[1:], ys[1:])):
        if (ya >= th >= yb or ya <= th <= yb) and ya != yb:
            o.append(xa + (th - ya) * (xb - xa) / (yb - ya))
    return o or [xs[0]], (max(xs) - min(xs)) / 999


def ref_DiagnosticProperties(r, hp):
    rows, x0 = nx(r, hp["metric"], hp["cycle_type"])
    o = {"initial_regular_throughput": ([x0], 0)}
    if hp["filter_kinks"]:
        fr = [x[1] for x in rows]
        kink = [i for i in range(2, len(fr)) if fr[i] - 2 * fr[i - 1] + fr[i - 2] < hp["filter_kinks"]]
        rows = rows[:kink[0]] if kink else rows
    ys = [x[1] for x in rows]
    pre = hp["cycle_type"] + hp["metric"] + str(hp["threshold"]) + "_"
    for ax in hp["interpolation_axes"]:
        xs = [x[2] if ax == "normalized_regular_throughput" else x[0] for x in rows]
        v, tol = crossing(xs, ys, hp["threshold"], hp["extrapolate_threshold"])
        if v is None:
            return "error"
        o[pre + ax] = (v, tol)
        if min(v) < tol * 1.5:
            return "error-or"      # at (or next to) zero: refused as non-positive
    if "normalized_regular_throughput" in hp["interpolation_axes"]:
        v, tol = o[pre + "normalized_regular_throughput"]
        o[pre + "real_regular_throughput"] = ([q * x0 for q in v], tol * x0)
    return o


def fillboth(a):
    last = None
    o = []
    for x in a:
        last = last if math.isnan(x) else x
        o.append(last)
    nxt = None
    for i in range(len(o) - 1, -1, -1):
        if o[i] is None:
            o[i] = nxt
        else:
            nxt = o[i]
    return [NAN if x is None else x for x in o]


def ref_RawInterpolatedData(r, hp):
    o = {}
    for ty in hp["cycle_types"]:
        rows = [x for x in r.diag if x["cycle_type"] == ty]
        cyc = cycles_of(rows, ty)

        def steps(c):
            s = []
            for x in rows:
                if x["cycle_index"] == c and x["step_index"] not in s:
                    s.append(x["step_index"])
            return s
        if len(steps(cyc[0])) != 2:
            continue
        for m in hp["metrics"]:
            for s in (0, 1):
                for p in hp["diag_positions"]:
                    c = cyc[p]
                    d = [x for x in rows if x["cycle_index"] == c and x["step_index"] == steps(c)[s]]
                    if m in ("capacity", "energy"):
                        mx = max(x["charge_" + m] for x in d if not math.isnan(x["charge_" + m]))
                        a = [min(x["charge_" + m], mx - x["discharge_" + m]) if not math.isnan(x["charge_" + m] + x["discharge_" + m]) else NAN for x in d]
                        if hp["impute"]:
                            a = fillboth(a)
                    elif m == "test_time":
                        t0 = min(x["test_time"] for x in d if not math.isnan(x["test_time"]))
                        a = [x["test_time"] - t0 for x in d]
                        if hp["impute"]:
                            a = [0.0 if math.isnan(x) else x for x in a]
                    elif m == "dQdV":
                        a = [x["charge_dQdV"] + x["discharge_dQdV"] for x in d]
                        if hp["impute"]:
                            a = [0.0 if math.isnan(x) else x for x in a]
                    else:
                        a = [x[m] for x in d]
                    o[f"diag_cycle_{p}_{ty}_{m}_step_{s}"] = a
    return o


def ref_ChargingProtocol(r, hp):
    return {q: float(PARAMS[r.seq][q]) for q in hp["quantities"]}


def ref_ExclusionCriteria(r, hp):
    n, cut = hp["throughput_first_n_cycles"]["n"], hp["throughput_first_n_cycles"]["cutoff"]
    o = {}
    v = r.summary[n]["charge_throughput"]
    v = 0.0 if math.isnan(v) else v
    o["first_n_cycles_throughput"], o["is_above_first_n_cycles_throughput"] = v, v > cut
    ec = hp["EOL_conditions"]
    rows, _ = nx(r, ec["quantity"], ec["cycle_type"])
    fr = [x[1] for x in rows]
    end = fr[-1] if fr[-1] <= 1 or len(fr) == 1 else fr[-2]
    th = ec["threshold"]
    o["fractional_capacity_at_EOT"], o["is_below_fractional_capacity_at_EOT"] = end, end < th
    cutoff = next(x[0] for x in rows if x[1] < th) if end < th else rows[-1][0]
    nom = r.spec.get("nominal") or PARAMS[r.seq]["capacity_nominal"]
    tp, last = None, None
    for s in r.summary:
        last = s["charge_throughput"] if not math.isnan(s["charge_throughput"]) else last
        if s["cycle_index"] <= cutoff:
            tp = last
    o["equivalent_full_cycles_at_EOL"], o["is_above_equivalent_full_cycles_at_EOL"] = tp / nom, tp / nom > hp["equivalent_full_cycles_cutoff"]
    early = False
    P = PARAMS[r.seq]
    if P["charge_constant_current_1"] > P["charge_constant_current_2"]:
        for k, s in enumerate(r.summary):
            if s["cycle_index"] <= cutoff and r.spec.get("cv") and k == r.spec["cv"]:
                early = hp["early_CV_cutoff"] > 0.1
    o["is_not_early_CV"] = not early
    o["to_include"] = all(v for k, v in o.items() if k.startswith("is_"))
    return o


def ref_HPPC(r, hp):
    rows = [x for x in diag_rows(r, hp) if x["cycle_type"] == "hppc"]
    cyc = cycles_of(rows, "hppc")
    p = hp["diag_pos"]

    def windows(c, step):
        g = {}
        for x in rows:
            if x["cycle_index"] == c and x["step_index"] % 20 == step:
                g.setdefault(x["step_index_counter"], []).append(x)
        return [sorted(v, key=lambda x: x["test_time"]) for _, v in sorted(g.items())]

    def res(c, w, kind):
        rest, pulse = (windows(c, 6), windows(c, 7)) if kind[0] == "c" else (windows(c, 4), windows(c, 5))
        if w >= len(rest) or w >= len(pulse):
            return None
        rest, pulse = rest[w], pulse[w]
        v0, i0 = rest[-1]["voltage"], sum(x["current"] for x in rest[-5:]) / len(rest[-5:])
        t0 = pulse[0]["test_time"]
        lim = {"0s": 0.001, "3s": 3, "end": 1e9}[kind[2:]]
        pt = [x for x in pulse if x["test_time"] - t0 <= lim][-1]
        return (pt["voltage"] - v0) / (pt["current"] - i0)
    o = {}
    for kind in ("c_0s", "c_3s", "c_end", "d_0s", "d_3s", "d_end"):
        for w in range(9):
            a, b = res(cyc[0], w, kind), res(cyc[p], w, kind)
            o[f"r_{kind}_{w}0"] = NAN if a is None or b is None else (b - a) / a
    ocv = [x[-10]["voltage"] - y[-10]["voltage"] for x, y in zip(windows(cyc[0], 4)[:9], windows(cyc[p], 4)[:9])]
    qa, qb = windows(cyc[0], 8), windows(cyc[p], 8)
    w = hp["soc_window"]
    vd = None
    if w < min(len(qa), len(qb)):
        A, B = qa[w], qb[w]
        lo, hi = min(x["discharge_capacity"] for x in A), max(x["discharge_capacity"] for x in A)
        s, i = fit([x["discharge_capacity"] for x in A], [x["voltage"] for x in A])
        if r.spec.get("linear", True):
            vd = [s * x["discharge_capacity"] + i - x["voltage"] for x in B if lo < x["discharge_capacity"] < hi]
    for tag, a in (("ocv", ocv), ("v_diff", vd)):
        if a is None:
            continue
        for s, nm in (("var", "var"), ("min", "min"), ("mean", "mean"), ("skew", "skew"), ("kurtosis", "kurtosis"), ("abs", "sum"), ("square", "sum_square")):
            n = len(a)
            m2 = moments(a)[2]
            if s in ("skew", "kurtosis") and (n < 4 or m2 < 1e-18):
                o[f"{nm}_{tag}"] = "any"
            else:
                o[f"{nm}_{tag}"] = stat(s, a)

    def D(c, w):
        pulse, rest = windows(c, 5)[w], windows(c, 6)[w]
        td = pulse[-1]["test_time"] - pulse[0]["test_time"]
        t = [x["test_time"] - rest[0]["test_time"] for x in rest]
        xs = [math.sqrt(q + td) - math.sqrt(q) for q in t]
        vm = min(x["voltage"] for x in rest)
        ys = [x["voltage"] - vm for x in rest]
        k = round(2 * len(xs) / 3)
        return fit(xs[k:], ys[k:])[0]
    n = min(len(windows(cyc[0], 5)), len(windows(cyc[p], 5)), 9)
    for w in range(1, n):
        a, b = D(cyc[0], w), D(cyc[p], w)
        o[f"D_{w}"] = (b - a) / a
    return o


REFS = {"CycleSummaryStats": ref_CycleSummaryStats, "DeltaQFastCharge": ref_DeltaQFastCharge, "TrajectoryFastCharge": ref_TrajectoryFastCharge,
        "DiagnosticSummaryStats": ref_DiagnosticSummaryStats, "DiagnosticProperties": ref_DiagnosticProperties, "RawInterpolatedData": ref_RawInterpolatedData,
        "ChargingProtocol": ref_ChargingProtocol, "ExclusionCriteria": ref_ExclusionCriteria, "HPPCResistanceVoltageFeatures": ref_HPPC}

# ---------------------------------------------------------------- spaces
DIAGDEV = [("blocks", 3), ("nan", 1), ("final", 1), ("null", 1), ("proto", 1), ("proto", 2), ("seq", 2), ("seq", 12), ("pat", 1), ("pat", 2)]
PLAINDEV = [("nan", 1), ("ir0", 1), ("pat", 1), ("pat", 2), ("hot", 0), ("hot", 1), ("hot", 12), ("hot", 13), ("nodis", 1), ("nostep", 1)]


def devs(base, options, depth):
    yield dict(base)
    for d in range(1, depth + 1):
        for combo in itertools.combinations(options, d):
            if len({k for k, _ in combo}) == d:
                yield dict(base, **dict(combo))


def hp_space(name, tier):
    t = tier == "thorough"
    if name in ("CycleSummaryStats",):
        st = [STATS, STATS[::-1]] + [[s] for s in STATS] + [list(x) for x in (itertools.permutations(STATS, 2) if t else (("mean", "var"), ("abs", "skew"), ("square", "min"), ("kurtosis", "var")))] + [["min", "abs", "mean"]]
        for s in st:
            yield {"cycle_comp_num": [1, 9], "statistics": s}
        for c in ([9, 1], [0, 15], [3, 4], [2, 12]):
            yield {"cycle_comp_num": c, "statistics": STATS}
    elif name == "DeltaQFastCharge":
        b = {"init_pred_cycle": 3, "mid_pred_cycle": 11, "final_pred_cycle": 13, "n_nominal_cycles": 5}
        yield b
        for k, vals in (("init_pred_cycle", (1, 2, 10)), ("mid_pred_cycle", (12,)), ("final_pred_cycle", (12, 14)), ("n_nominal_cycles", (1, 2, 40))):
            for v in vals:
                if dict(b, **{k: v})["final_pred_cycle"] > dict(b, **{k: v})["mid_pred_cycle"]:
                    yield dict(b, **{k: v})
        if t:
            for i, m, f, n in itertools.product((1, 2, 5, 10), (11, 12, 13), (12, 13, 14), (1, 3, 8, 40)):
                if f > m:
                    yield {"init_pred_cycle": i, "mid_pred_cycle": m, "final_pred_cycle": f, "n_nominal_cycles": n}
    elif name == "TrajectoryFastCharge":
        yield None
        for mx, mn, iv in itertools.product((0.98, 0.9, 3.5), (0.78, 0.5, 3.0), (0.03, 0.1, 0.05)):
            if mx > mn:
                yield {"thresh_max_cap": mx, "thresh_min_cap": mn, "interval_cap": iv}
    elif name == "DiagnosticSummaryStats":
        b = {"test_time_filter_sec": 1000000, "cycle_index_filter": 6, "diagnostic_cycle_type": "rpt_0.2C", "diag_pos_list": [0, 1], "statistics": STATS}
        yield b
        for k, vals in (("diagnostic_cycle_type", ("rpt_1C", "rpt_2C", "reset")), ("diag_pos_list", ([1, 0],)), ("statistics", (["mean", "var"], ["abs"], STATS[::-1]))):
            for v in vals:
                yield dict(b, **{k: v})
        for ty, first in (("rpt_0.2C", 2), ("rpt_1C", 3), ("rpt_2C", 4)):     # the filter ends just before the first cycle of the type
            yield dict(b, diagnostic_cycle_type=ty, cycle_index_filter=first, test_time_filter_sec=1000)
    elif name == "DiagnosticProperties":
        b = {"quantities": ["discharge_energy", "discharge_capacity"], "threshold": 0.8, "metric": "discharge_energy", "filter_kinks": None,
             "interpolation_axes": ["normalized_regular_throughput", "cycle_index"], "cycle_type": "rpt_1C", "extrapolate_threshold": True}
        yield b
        for k, vals in (("quantities", (["discharge_capacity", "discharge_energy"], ["discharge_energy"])), ("threshold", (0.9, 0.7, 0.95)), ("metric", ("discharge_capacity",)),
                        ("interpolation_axes", (["cycle_index", "normalized_regular_throughput"], ["cycle_index"], ["normalized_regular_throughput"])),
                        ("cycle_type", ("rpt_0.2C", "rpt_2C", "reset", "hppc")), ("extrapolate_threshold", (False,)),
                        ("filter_kinks", (-0.03, -0.1, -0.2))):
            for v in vals:
                yield dict(b, **{k: v})
        if t:
            for th, m, ct, ex in itertools.product((0.9, 0.8, 0.7), ("discharge_capacity", "discharge_energy"), ("rpt_0.2C", "rpt_1C", "rpt_2C", "reset"), (True, False)):
                yield dict(b, threshold=th, metric=m, cycle_type=ct, extrapolate_threshold=ex)
    elif name == "RawInterpolatedData":
        b = {"metrics": ["capacity", "dQdV", "test_time"], "cycle_types": ["rpt_0.2C", "rpt_1C", "rpt_2C"], "diag_positions": [0, 1], "impute": True}
        yield b
        for k, vals in (("metrics", (["energy"], ["voltage", "capacity"], ["test_time", "current"])), ("cycle_types", (["rpt_2C"], ["reset", "rpt_1C"], ["hppc", "rpt_1C"])),
                        ("diag_positions", ([1], [1, 0])), ("impute", (False,))):
            for v in vals:
                yield dict(b, **{k: v})
    elif name == "ChargingProtocol":
        q = ["charge_constant_current_1", "charge_constant_current_2", "charge_cutoff_voltage", "charge_constant_voltage_time", "discharge_constant_current", "discharge_cutoff_voltage"]
        yield {"quantities": q}
        yield {"quantities": q[::-1]}
        yield {"quantities": ["capacity_nominal"]}
    elif name == "ExclusionCriteria":
        b = {"EOL_conditions": {"cycle_type": "rpt_0.2C", "threshold": 0.8, "quantity": "discharge_capacity"}, "throughput_first_n_cycles": {"n": 4, "cutoff": 15},
             "equivalent_full_cycles_cutoff": 3, "early_CV_cutoff": 0.3}
        yield b
        for k, vals in (("EOL_conditions", ({"cycle_type": "rpt_1C", "threshold": 0.8, "quantity": "discharge_energy"}, {"cycle_type": "rpt_0.2C", "threshold": 0.9, "quantity": "discharge_capacity"},
                                            {"cycle_type": "rpt_0.2C", "threshold": 0.6, "quantity": "discharge_capacity"})),
                        ("throughput_first_n_cycles", ({"n": 1, "cutoff": 15}, {"n": 5, "cutoff": 1}, {"n": 8, "cutoff": 100})), ("equivalent_full_cycles_cutoff", (1, 5, 8, 20)), ("early_CV_cutoff", (0.005,))):
            for v in vals:
                yield dict(b, **{k: v})
    else:
        b = {"test_time_filter_sec": 1000000, "cycle_index_filter": 6, "diag_pos": 1, "soc_window": 8}
        yield b
        for k, vals in (("soc_window", (0, 3, 5)), ("diag_pos", (0,))):
            for v in vals:
                yield dict(b, **{k: v})
        yield dict(b, cycle_index_filter=1, test_time_filter_sec=1000)


def rec_space(name, tier):
    t = tier == "thorough"
    if name in ("CycleSummaryStats", "DeltaQFastCharge", "TrajectoryFastCharge"):
        for s in devs({"plain": 1, "blocks": 1, "nreg": 16}, PLAINDEV, 3 if t else 2):
            if s.get("nostep") and s.get("nodis"):
                continue
            if name == "CycleSummaryStats" and (s.get("nostep") or s.get("nodis") or s.get("ir0") or "hot" in s):
                continue
            if name == "TrajectoryFastCharge" and (s.get("nostep") or s.get("nodis") or s.get("ir0") or "hot" in s or s.get("nan")):
                continue
            if name == "TrajectoryFastCharge":
                yield dict(s, nreg=45)
            yield s
    elif name == "HPPCResistanceVoltageFeatures":
        for s in devs({}, [("blocks", 3), ("final", 1), ("null", 1), ("proto", 1), ("seq", 2), ("pat", 1), ("nwin", 7), ("grow", 1)], 3 if t else 2):
            yield s
    elif name == "ChargingProtocol":
        for s in devs({}, [("seq", 2), ("seq", 12), ("proto", 1), ("paths", "structured")], 2):
            yield s
    elif name == "ExclusionCriteria":
        for s in devs({}, [("blocks", 3), ("nan", 1), ("proto", 2), ("seq", 2), ("seq", 12), ("pat", 1), ("pat", 2), ("cv", 1), ("cv", 9), ("grow", 1), ("grow", 2), ("nominal", 3.3), ("paths", "structured")], 3 if t else 2):
            yield s
    elif name == "DiagnosticProperties":
        for s in devs({}, [("blocks", 3), ("blocks", 4), ("proto", 1), ("proto", 2), ("seq", 2), ("pat", 1), ("pat", 2), ("nreg", 5)], 3 if t else 2):
            yield s
        for s in devs({"grow": 1}, [("blocks", 3), ("blocks", 4), ("pat", 1), ("pat", 2)], 2):
            yield s      # the last diagnostic is better than the ones before it
        for bl, pat in itertools.product((3, 4), (0, 1, 2)):
            yield {"blocks": bl, "pat": pat, "ends": 1}      # the record ends with a diagnostic
    elif name == "DiagnosticSummaryStats":
        for s in devs({}, DIAGDEV, 3 if t else 2):
            yield s
    else:
        for s in devs({}, [x for x in DIAGDEV if x[0] not in ("final", "null")] + [("nan", 2)], 3 if t else 2):
            yield s


def cases(tier):
    for name in NAMES:
        recs = list(rec_space(name, tier))
        hps = list(hp_space(name, tier))
        simple = [s for s in recs if len(s) <= (4 if "plain" in s else 1)]
        for i, s in enumerate(recs):
            # quick: every hyperparameter set on the simple records, the first three on every pair
            for j, h in enumerate(hps):
                if s.get("final") and h and h.get("test_time_filter_sec") == 1000:
                    continue
                if tier == "thorough" and len(recs) * len(hps) <= 6000 or s in simple or j < 2 or name == "DiagnosticProperties" and "grow" in s or (i + j) % 5 == 0:
                    yield {"k": "one", "f": name, "r": s, "h": h}
    for name in NAMES:
        if name in ("DiagnosticSummaryStats", "HPPCResistanceVoltageFeatures"):
            yield {"k": "one", "f": name, "r": {"blocks": 3}, "h": dict(next(hp_space(name, tier)), **({"diag_pos": 2} if name[0] == "H" else {"diag_pos_list": [0, 2]}))}
            yield {"k": "one", "f": name, "r": {"blocks": 3}, "h": dict(next(hp_space(name, tier)), **({"diag_pos": 2, "soc_window": 2} if name[0] == "H" else {"diag_pos_list": [1, 2]}))}
    for seq in itertools.permutations(NAMES, 3 if tier == "thorough" else 2):
        yield {"k": "seq", "f": list(seq)}
    for name in NAMES:
        for w in ("nodiag", "empty", "nohppc", "one", "short", "late", "nocol", "midlow", "order", "missing1", "missing2", "nopaths", "flat", "unstructured"):
            yield {"k": "ref", "f": name, "w": w}


# ---------------------------------------------------------------- running
_CACHE = {}


def record(spec):
    key = json.dumps(spec, sort_keys=True)
    if key not in _CACHE:
        if len(_CACHE) > 40:
            _CACHE.clear()
        _CACHE[key] = Rec(spec)
    return _CACHE[key]


def fp(dp):
    """fingerprint of everything a featurizer could alter"""
    import pickle
    o = []
    for a in ("structured_summary", "structured_data", "diagnostic_summary", "diagnostic_data"):
        d = getattr(dp, a)
        o.append(None if d is None else (list(d.columns), list(d.index), [str(x) for x in d.dtypes], pickle.dumps([list(map(repr, d[c].tolist())) for c in d.columns])))
    return o, json.dumps(dp.paths), json.dumps(dp.metadata.raw), json.dumps(dp.structuring_parameters, default=str)


def full_hp(cls, h, pdir):
    if h is None:
        return None
    d = copy.deepcopy(h)
    for k in ("parameters_path", "parameters_dir"):
        if k in cls.DEFAULT_HYPERPARAMETERS:
            d[k] = pdir
    return d


def close(a, b, tol=1e-7):
    if isinstance(b, str):
        return True
    if isinstance(b, tuple):
        return any(abs(float(a) - x) <= b[1] * 1.01 + 1e-9 * max(1, abs(x)) for x in b[0])
    if isinstance(b, (list,)):
        return len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
    if isinstance(b, bool):
        return bool(a) == b
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(b) or math.isinf(a):
        return a == b
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def compare(out, name, feats, want, what):
    if not out.expect(feats.shape[0] == 1, name + "-rows", lambda: f"{feats.shape[0]} rows of features: {what}"):
        return
    missing = [c for c in want if c not in feats.columns]
    extra = [c for c in feats.columns if c not in want]
    out.expect(not missing and not extra, name + "-columns", lambda: f"missing {missing[:4]} extra {extra[:4]}: {what}")
    for c, v in want.items():
        if c in feats.columns:
            got = feats[c].iloc[0]
            if isinstance(v, tuple) and isinstance(got, list):
                got = got[0]
            tol = 1e-5 if name.startswith("HPPC") else 1e-7
            if "skew" in c or "kurtosis" in c:
                tol = max(tol, 1e-6)
            if ("skew" in c or "kurtosis" in c) and isinstance(v, float) and v < -9 and float(got) < -9:
                continue       # log of a rounding residue
            if not close(got, v, tol):
                out.bad(name + "-value", f"{c} = {got!r} expected {v!r}: {what}")
                return


def build(name, dp, h, pdir):
    from beep.features import core
    cls = getattr(core, name)
    return cls, cls(dp, hyperparameters=full_hp(cls, h, pdir))


def run_feature(out, name, dp, rec, h, pdir, what):
    from beep.features import core
    from beep.features.base import BEEPFeaturizationError
    cls = getattr(core, name)
    hp = full_hp(cls, h, pdir)
    kept = copy.deepcopy(hp)
    defaults = copy.deepcopy(cls.DEFAULT_HYPERPARAMETERS)
    force = kept if kept is not None else defaults
    before = fp(dp)
    want = REFS[name](rec, force)
    out.call(3)
    f = cls(dp, hyperparameters=hp)
    ok = f.validate()
    if not out.expect(ok[0] in (True,) or bool(ok[0]) is True, name + "-refused", lambda: f"refused by validation ({ok}): {what}"):
        return None
    try:
        f.create_features()
    except BEEPFeaturizationError as e:
        out.see("error")
        out.expect(want in ("error", "error-or"), name + "-raised", lambda: f"{e}: {what}")
        out.expect(fp(dp) == before, name + "-record", lambda: f"the record was modified: {what}")
        return None
    except Exception:
        if want == "error":
            out.bad(name + "-error", f"not the documented error: {what}")
            return None
        raise
    if want == "error":
        out.bad(name + "-noerror", f"should have been refused: {what}")
        return None
    if want != "error-or":
        compare(out, name, f.features, want, what)
        out.expect(list(f.features.columns) == list(want) or name in ("HPPCResistanceVoltageFeatures", "DiagnosticProperties", "ExclusionCriteria"), name + "-order", lambda: f"columns {list(f.features.columns)[:8]} expected {list(want)[:8]}: {what}")
    out.see(name, f.features.to_dict("list"))
    out.expect(fp(dp) == before, name + "-record", lambda: f"the record was modified: {what}")
    out.expect(hp == kept, name + "-caller", lambda: f"the caller's hyperparameters became {hp}: {what}")
    out.expect(f.hyperparameters == force, name + "-hp", lambda: f"hyperparameters in force became {f.hyperparameters}: {what}")
    if cls.DEFAULT_HYPERPARAMETERS != defaults:
        out.bad(name + "-defaults", f"the defaults became {cls.DEFAULT_HYPERPARAMETERS}: {what}")
        cls.DEFAULT_HYPERPARAMETERS = defaults
    return f


def run_case(case, out):
    td = tempfile.mkdtemp()
    try:
        pdir = param_dir(td)
        if case["k"] == "one":
            rec = record(case["r"])
            dp = rec.datapath()
            f = run_feature(out, case["f"], dp, rec, case["h"], pdir, json.dumps([case["r"], case["h"]]))
            if f is not None:
                first = repr(f.features.to_dict("list"))
                f.create_features()
                out.call()
                out.expect(repr(f.features.to_dict("list")) == first, case["f"] + "-again", "running the featurizer again gives other features")
                d = json.loads(json.dumps(f.as_dict(), default=float))
                g = type(f).from_dict(d)
                out.expect(repr(json.loads(json.dumps(f.features.to_dict("list"), default=float))) == repr(json.loads(json.dumps(g.features.to_dict("list"), default=float))), case["f"] + "-reload", "features after reload differ")
        elif case["k"] == "seq":
            sequence(case, out, pdir)
        else:
            refusal(case, out, pdir)
    finally:
        shutil.rmtree(td, ignore_errors=True)


SEQHP = {"CycleSummaryStats": {"cycle_comp_num": [6, 11], "statistics": STATS},
         "DeltaQFastCharge": {"init_pred_cycle": 7, "mid_pred_cycle": 11, "final_pred_cycle": 13, "n_nominal_cycles": 5}, "TrajectoryFastCharge": {"thresh_max_cap": 3.5, "thresh_min_cap": 3.0, "interval_cap": 0.05}}
_ALONE = {}


def sequence(case, out, pdir):
    """Each featurizer of a sequence gives what it gives on a fresh record."""
    from beep.features import core
    spec = {"blocks": 2, "final": 1, "null": 1}
    rec = record(spec)

    def run(name, dp):
        h = SEQHP.get(name) or next(hp_space(name, "quick"))
        if name == "RawInterpolatedData":
            h = dict(h, cycle_types=["rpt_1C", "rpt_2C"])
        _, f = build(name, dp, h, pdir)
        out.call(2)
        val = f.validate()
        f.create_features()
        return repr((bool(val[0]), f.features.to_dict("list")))
    alone = {}
    for n in case["f"]:
        if n not in _ALONE:
            _ALONE[n] = run(n, rec.datapath())
        alone[n] = _ALONE[n]
    dp = rec.datapath()
    for i, n in enumerate(case["f"]):
        got = run(n, dp)
        out.expect(got == alone[n], "seq", lambda: f"{n} after {case['f'][:i]} gives other features: {got[:200]} vs {alone[n][:200]}")
        out.see(n, got)


DIAGNEED = ["DiagnosticSummaryStats", "DiagnosticProperties", "RawInterpolatedData", "ChargingProtocol", "ExclusionCriteria", "HPPCResistanceVoltageFeatures"]


def refusal(case, out, pdir):
    from beep.features.base import BEEPFeaturizationError
    name, w = case["f"], case["w"]
    plain = {"plain": 1, "blocks": 1, "nreg": 16}
    h = next(hp_space(name, "quick"))
    if name == "TrajectoryFastCharge":
        h = {"thresh_max_cap": 0.98, "thresh_min_cap": 0.78, "interval_cap": 0.03}
    spec = plain if name in ("CycleSummaryStats", "DeltaQFastCharge", "TrajectoryFastCharge") else {}
    spec = dict(spec)
    expect = True
    dp = None
    if w == "nodiag":
        spec["nodiag"] = 1
        expect = name not in DIAGNEED
        dp = Rec(spec).datapath()
    elif w == "empty":
        dp = Rec(spec).datapath()
        if name in DIAGNEED:
            dp.diagnostic_summary = dp.diagnostic_summary.iloc[:0]
            expect = False
    elif w == "nohppc" and name == "HPPCResistanceVoltageFeatures":
        dp = Rec(spec).datapath()
        dp.diagnostic_summary = dp.diagnostic_summary[dp.diagnostic_summary.cycle_type != "hppc"]
        expect = False
    elif w == "one" and name == "DiagnosticSummaryStats":
        dp = Rec({"blocks": 1}).datapath()
        expect = False
    elif name == "DeltaQFastCharge" and w in ("short", "late", "nocol", "midlow", "order"):
        dp = Rec(spec).datapath()
        expect = False
        if w == "short":
            dp.structured_summary = dp.structured_summary.iloc[:13]
        elif w == "late":
            dp.structured_summary.index = dp.structured_summary.index + 20
        elif w == "nocol":
            dp.structured_summary = dp.structured_summary.drop(columns=["cycle_index"])
        elif w == "midlow":
            h = dict(h, mid_pred_cycle=10)
        else:
            h = dict(h, mid_pred_cycle=13)
    elif name == "CycleSummaryStats" and w in ("missing1", "missing2", "nocol"):
        dp = Rec(spec).datapath()
        expect = False
        if w == "nocol":
            dp.structured_data = dp.structured_data.drop(columns=["discharge_energy"])
        else:
            h = dict(h, cycle_comp_num=[99, 3] if w == "missing1" else [3, 99])
    elif w == "nopaths" and name in ("ChargingProtocol", "ExclusionCriteria"):
        dp = Rec(spec).datapath()
        dp.paths = {"other": "/x"}
        expect = False
    elif w == "flat" and name == "TrajectoryFastCharge":
        dp = Rec(spec).datapath()
        dp.structured_summary["discharge_capacity"] = [1.0] * 15 + [0.99]
        expect = False
    elif w == "unstructured":
        dp = Rec(spec).datapath()
        for a in ("structured_summary", "structured_data", "diagnostic_summary", "diagnostic_data"):
            setattr(dp, a, None)
        out.call()
        try:
            build(name, dp, h, pdir)
            out.bad("unstructured", f"{name} accepts an unstructured record")
        except BEEPFeaturizationError:
            pass
        return
    if dp is None:
        out.nontrivial = False
        return
    before = fp(dp)
    out.call(2)
    _, f = build(name, dp, h, pdir)
    ok, msg = f.validate()
    out.expect(bool(ok) == expect, "validate", lambda: f"{name} validate -> {ok} ({msg}) for {w}, expected {expect}")
    out.expect(bool(ok) or (isinstance(msg, str) and msg), "reason", lambda: f"{name} refuses {w} without a reason")
    out.expect(fp(dp) == before, "validate-record", lambda: f"{name}.validate modified the record")
    out.see(name, w, bool(ok))

"""P25 - intra-cell degradation fits."""
import itertools
import os
import tempfile
import types
import warnings

PROPERTY = "P25"
RULE = "every combination of true electrode parameters on the grid x electrode shapes x blend x error measure, each fitted by enumerating the whole parameter grid; every arrangement of diagnostic cycles for the features; non-trivial: a fit was made"
ASSUMPTIONS = ["the stochastic optimiser of scipy is replaced by exhaustive evaluation of the objective over the parameter grid (its convergence is not decided)",
               "measured curves are noise-free full-cell curves of the electrode pair, charge direction",
               "positions on the curve are resolved to two steps of the 1001-point capacity axis"]
BOUNDS = {"quick": "V2: 2 electrode pairs x 27 truths x 27 candidates x 3 error measures, blends of 3 fractions; V1: 6 initial and 27 degraded truths; features over <=4 diagnostic cycles of 2 types in every order",
          "thorough": "3 electrode pairs, 64 truths x 64 candidates"}
CHUNK = 4

# state of charge (%) -> voltage, both with structure so that the parameters are identifiable
PE = [[(0, 2.86), (3, 3.35), (20, 3.55), (45, 3.72), (60, 3.98), (85, 4.16), (100, 4.30)],
      [(0, 2.90), (5, 3.45), (30, 3.60), (55, 3.85), (75, 3.90), (100, 4.32)],
      [(0, 2.86), (2, 3.40), (40, 3.80), (70, 4.05), (100, 4.30)]]
NE = [[(0, 1.50), (4, 0.60), (12, 0.25), (30, 0.20), (50, 0.13), (80, 0.09), (100, 0.01)],
      [(0, 1.50), (8, 0.45), (25, 0.30), (52, 0.22), (60, 0.10), (100, 0.01)],
      [(0, 1.50), (5, 0.50), (35, 0.21), (65, 0.12), (100, 0.01)]]
NE2 = {"pos": [(0, 1.50), (15, 0.70), (45, 0.40), (80, 0.22), (100, 0.01)], "neg": [(0, 1.50), (3, 0.30), (30, 0.10), (60, 0.06), (100, 0.01)]}
GRID = {"quick": ([0.1, 0.45, 0.9], [4.4, 4.9, 5.3], [4.6, 5.0, 5.6]), "thorough": ([0.1, 0.3, 0.6, 0.9], [4.4, 4.7, 5.0, 5.3], [4.6, 4.9, 5.2, 5.6])}
XS = [-0.15, 0.1, 0.25]
LEVELS = [round(4.2 - 0.1 * i, 1) for i in range(16)]


def cases(tier):
    yield {"m": "feat", "v": 2, "ord": [0, 1, 2], "types": [0, 0, 0]}
    for v in (1, 2):
        for el in range(3):
            for x in (0.0, 0.05, 0.1, 0.25, 0.5, 1.0, -0.05, -0.15, -0.4, -1.0):
                for has in ("both", "pos", "none"):
                    yield {"m": "blend", "v": v, "el": el, "x": x, "has": has}
    g = GRID[tier]
    for el in range(2 if tier == "quick" else 3):
        for truth in itertools.product(*g):
            for err in ("V-Q", "dVdQ", "dQdV"):
                yield {"m": "v2", "el": el, "t": list(truth), "err": err, "g": tier}
    for x in XS:
        for truth in itertools.product(*[a[:2] for a in g]):
            yield {"m": "v2", "el": 0, "t": list(truth), "err": "V-Q", "g": tier, "x": x}
    for v in (1, 2):
        for n in (1, 2, 3, 4):
            for types_ in itertools.product((0, 1), repeat=n):
                for o in (list(range(n)), list(range(n))[::-1], [(i * 2 + 1) % n for i in range(n)] if n in (3,) else None):
                    if o is not None and (n < 4 or types_[0] == 0):
                        yield {"m": "feat", "v": v, "ord": o, "types": list(types_), "ask": 1 if types_[-1] and n < 4 else 0}
        for low in range(3):
            for ty in ([0, 0, 0], [1, 0, 0]):
                yield {"m": "feat", "v": v, "ord": [0, 1, 2], "types": ty, "low": low}
    for el in (0, 1):
        for s in INIT[0]:
            for t in itertools.product(*LOSS):
                if s == 1.0 or not any(t[1:]) or tier != "quick":
                    yield {"m": "feat", "v": 1, "ord": [0, 1], "types": [0, 0], "el": el, "s": s, "loss": [[0., 0., 0.], list(t)]}


def table(pts, np):
    s = np.linspace(0, 100, 1001)
    return s, np.interp(s, [p[0] for p in pts], [p[1] for p in pts])


def write(path, pts, np, pd):
    s, v = table(pts, np)
    pd.DataFrame({"SOC_aligned": s, "Voltage_aligned": v}).to_csv(path)


def blended(pts1, x, np):
    """voltage of the blended anode as a function of state of charge"""
    if x is None:
        s, v = table(pts1, np)
        return s, v
    s1, v1 = table(pts1, np)
    s2, v2 = table(NE2["pos" if x > 0 else "neg"], np)
    vv = np.linspace(0.01, 1.5, 8001)
    s = (1 - abs(x)) * np.interp(vv, v1[::-1], s1[::-1]) + abs(x) * np.interp(vv, v2[::-1], s2[::-1])
    return s[::-1], vv[::-1]


class Cell:
    """the full cell an electrode pair makes"""

    def __init__(self, pe, ne, x, t, np):
        lli, qp, qn = t
        self.np = np
        sp, vp = table(pe, np)
        sn, vn = blended(ne, x, np)
        lo, hi = min(0, lli), max(qp, qn + lli)
        self.dq = (hi - lo) / 1000
        self.q = np.linspace(lo, hi, 40001)
        self.pe = np.where((self.q >= 0) & (self.q <= qp), np.interp(self.q, sp / 100 * qp, vp), np.nan)
        self.ne = np.where((self.q >= lli) & (self.q <= qn + lli), np.interp(self.q, sn / 100 * qn + lli, vn), np.nan)
        self.fc = self.pe - self.ne
        ok = (self.fc >= 2.7) & (self.fc <= 4.2)
        self.zero = self.q[ok][0]
        self.top = self.q[ok][-1]
        self.qz = self.q - self.zero
        self.li = self.q[~np.isnan(self.fc)][[0, -1]]

    def at(self, u):
        return int(self.np.nanargmin(abs(self.fc - u)))

    def span(self, arr, i):
        """values of arr within two axis steps of position i"""
        k = int(2.5 * self.dq / (self.q[1] - self.q[0])) + 1
        w = arr[max(0, i - k):i + k + 1]
        w = w[~self.np.isnan(w)]
        return w.min(), w.max()


def near(out, key, got, lohi, eps=2e-4):
    lo, hi = lohi
    out.expect(lo - eps <= got <= hi + eps, key, lambda: "%s: %.5f outside [%.5f, %.5f]" % (key, got, lo, hi))


def diag_frame(curves, pd, np):
    """curves: [(cycle_index, type, cell)] in the order they stand in the record"""
    parts = []
    for ci, ty, c in curves:
        v = np.linspace(2.7, 4.2, 400)
        ok = ~np.isnan(c.fc)
        q = np.interp(v, c.fc[ok], c.qz[ok])
        n = len(v)
        parts.append(pd.DataFrame({"voltage": v, "charge_capacity": q, "discharge_capacity": 0.001 + 0 * q, "cycle_type": [ty] * n, "cycle_index": [ci] * n, "step_type": [0] * n}))
        parts.append(pd.DataFrame({"voltage": v, "charge_capacity": 9.0 + 0 * q, "discharge_capacity": 5 - q / 2, "cycle_type": [ty] * n, "cycle_index": [ci] * n, "step_type": [1] * n}))
    return pd.concat(parts, ignore_index=True)


def optimiser(grids, np):
    """stands in for scipy's differential_evolution: evaluates the objective on the whole grid"""
    log = []

    def de(func, bounds, args=(), **kw):
        axes = []
        for i, (lo, hi) in enumerate(bounds):
            axes.append([lo] if lo == hi else [g for g in grids[i] if lo <= g <= hi])
        scored = [(float(func(np.array(x), *args)), x) for x in itertools.product(*axes)]
        best = min(scored)
        log.append((scored, args, func))
        return types.SimpleNamespace(x=np.array(best[1], float), fun=best[0], success=True)

    return de, log


def check_row(out, row, c, t, x, tag):
    """row: the figures of one diagnostic cycle of the V2 analysis, by name"""
    lli, qp, qn = t
    out.expect(abs(row["LLI_opt"] - lli) < 1e-9 and abs(row["Q_pe_opt"] - qp) < 1e-9 and abs(row["Q_ne_opt"] - qn) < 1e-9 and abs(row["x_NE_2"] - x) < 1e-9, tag + "-parameters",
               lambda: "%s, true %s" % ([row[k] for k in ("LLI_opt", "Q_pe_opt", "Q_ne_opt", "x_NE_2")], (t, x)))
    for u in LEVELS:
        i = c.at(u)
        n = "FC%dp%dV" % divmod(round(u * 10), 10)
        near(out, tag + "-pe_voltage_" + n, row["pe_voltage_" + n], c.span(c.pe, i))
        near(out, tag + "-ne_voltage_" + n, row["ne_voltage_" + n], c.span(c.ne, i))
        lo, hi = c.span(c.q, i)
        near(out, tag + "-pe_soc_" + n, row["pe_soc_" + n], (lo / qp - .003, hi / qp + .003))
        near(out, tag + "-ne_soc_" + n, row["ne_soc_" + n], ((lo - lli) / qn - .003, (hi - lli) / qn + .003))
    d = 3 * c.dq
    near(out, tag + "-Q_fc", row["Q_fc"], (c.top - c.zero - d, c.top - c.zero + d))
    near(out, tag + "-Q_pe", row["Q_pe"], (qp - d, qp + d))
    near(out, tag + "-Q_ne", row["Q_ne"], (qn - d, qn + d))
    near(out, tag + "-Q_li", row["Q_li"], (c.li[1] - c.li[0] - d, c.li[1] - c.li[0] + d))


NAMES2 = (["rmse_error", "LLI_opt", "Q_pe_opt", "Q_ne_opt", "x_NE_2"] + ["%s_FC%dp%dV" % ((k,) + divmod(round(u * 10), 10)) for k in ("pe_voltage", "pe_soc", "ne_voltage", "ne_soc") for u in LEVELS]
          + ["Q_fc", "Q_pe", "Q_ne", "Q_li"])


def run_case(case, out):
    warnings.simplefilter("ignore")
    import numpy as np
    import pandas as pd
    import scipy.optimize
    real_de = scipy.optimize.differential_evolution
    with tempfile.TemporaryDirectory() as td:
        try:
            if case["m"] == "blend":
                blend(case, out, np, pd)
            elif case["m"] == "v2":
                v2(case, out, td, np, pd)
            else:
                feat(case, out, td, np, pd)
        finally:
            scipy.optimize.differential_evolution = real_de


def install(mod, de):
    import scipy.optimize
    scipy.optimize.differential_evolution = de
    if hasattr(mod, "differential_evolution"):
        mod.differential_evolution = de


def files(td, el, np, pd):
    names = {}
    for k, p in (("pe", PE[el]), ("ne", NE[el]), ("pos", NE2["pos"]), ("neg", NE2["neg"])):
        names[k] = os.path.join(td, k + ".csv")
        write(names[k], p, np, pd)
    return names


def frames_of(ia):
    return [ia.pe_pristine, ia.ne_1_pristine, ia.ne_2_pristine_pos, ia.ne_2_pristine_neg]


def v2(case, out, td, np, pd):
    import beep.features.intracell_analysis_v2 as mod
    el, t, x = case["el"], case["t"], case.get("x")
    fn = files(td, el, np, pd)
    kw = {} if x is None else {"ne_2pos_file": fn["pos"], "ne_2neg_file": fn["neg"]}
    ia = mod.IntracellAnalysisV2(fn["pe"], fn["ne"], cycle_type="rpt_0.2C", step_type=0, error_type=case["err"], **kw)
    before = [f.copy(deep=True) for f in frames_of(ia)]
    c = Cell(PE[el], NE[el], x, t, np)
    other = Cell(PE[el], NE[el], x, (t[0] + .2, t[1] - .3, t[2] + .1), np)
    data = diag_frame([(3, "reset", other), (7, "rpt_0.2C", c), (9, "rpt_0.2C", other)], pd, np)
    data0 = data.copy(deep=True)
    cell = types.SimpleNamespace(diagnostic_data=data)
    xs = 1.0 if x is None else x
    xv = list(t) + [xs]
    # the forward model
    out.call()
    pe, ne, full = ia.get_v_over_q_from_degradation_matching_ah_no_real(xv, *frames_of(ia))
    out.see(np.round(full.values, 4).tolist()[::50])
    if out.expect(len(full) == 1001 and abs(full.Q_aligned.min()) < 3 * c.dq and abs(full.Q_aligned.max() - (c.top - c.zero)) < 3 * c.dq, "full-range", lambda: "%s..%s, expected 0..%s" % (full.Q_aligned.min(), full.Q_aligned.max(), c.top - c.zero)):
        for q, v in full.iloc[::37].values:
            near(out, "full-voltage", v, c.span(c.fc, int(np.argmin(abs(c.qz - q)))))
    for name, df, arr in (("pe", pe, c.pe), ("ne", ne, c.ne)):
        for q, v in df[["Q_aligned", "Voltage_aligned"]].iloc[::41].values:
            i = int(np.argmin(abs(c.qz - q)))
            if v == v and not np.isnan(arr[i]):
                near(out, name + "-voltage", v, c.span(arr, i))
        own = df.Q_aligned[~df.Voltage_aligned.isna()]
        a = c.qz[~np.isnan(arr)]
        out.expect(abs(own.min() - a[0]) < 3 * c.dq and abs(own.max() - a[-1]) < 3 * c.dq, name + "-range", lambda: "%s spans %s..%s, expected %s..%s" % (name, own.min(), own.max(), a[0], a[-1]))
    # the fit: every candidate of the grid
    g = GRID[case["g"]]
    de, log = optimiser([g[0], g[1], g[2], XS], np)
    install(mod, de)
    bounds = ((0, 3), (2.5, 6.5), (2.5, 6.5), (1, 1)) if x is None else ((0, 3), (4, 5), (2.5, 6.5), (-1, 1))
    out.call()
    loss, prof = ia.intracell_values_wrapper_ah(7, cell, **({} if x is None and case["el"] else {"degradation_bounds": bounds}))
    out.call(len(log[0][0]))
    out.see([round(s, 5) for s, _ in log[0][0]])
    if not out.expect(list(loss) == [7] and list(prof) == [7] and len(loss[7]) == len(NAMES2), "result", "fit reports cycles %s" % list(loss)):
        return
    row = dict(zip(NAMES2, loss[7]))
    out.expect(abs(row["rmse_error"] - min(log[0][0])[0]) < 1e-12, "error", "reported error is not the objective's")
    scored = sorted((e, xx) for e, xx in log[0][0])
    out.expect(all(np.isfinite(e) for e, _ in scored), "objective", "objective is not finite")
    near(out, "truth-error", [e for e, xx in scored if np.allclose(xx, xv)][0], (0, 0.05 if case["err"] == "V-Q" else 0.1))
    check_row(out, row, c, t, xs, "fit")
    p = prof[7]["real_cell_candidate_charge_profile_aligned"]
    ok = ~np.isnan(c.fc)
    v = np.linspace(2.7, 4.2, 400)
    q = np.interp(v, c.fc[ok], c.qz[ok])
    keep = (v < 4.2) & (q > 0)
    out.expect(len(p) == 1001 and np.allclose(p.Q_aligned, np.linspace(0, q[keep].max(), 1001), atol=1e-9), "profile-axis", "capacity axis of the measured curve differs")
    want = np.interp(p.Q_aligned, q[keep], v[keep], left=2.7, right=4.2)
    out.expect(np.allclose(p.Voltage_aligned, want, atol=1e-6), "profile", "measured curve is not that of the cycle")
    # the chosen error measure decides: synthetic fits use the same one
    install(mod, de)
    r = ia.solve_emulated_degradation(full, bounds)
    out.call(len(log[-1][0]))
    for xx in (xv, [g[0][0], g[1][-1], g[2][0], xv[3]]):
        out.call(2)
        e = measure(ia, case["err"], xx, log[0][1], np)
        for which in (0, -1):
            got = float(log[which][2](np.array(xx), *log[0][1]))
            out.expect(abs(got - e) < 1e-9, ("fit", "synthetic")[which] + "-objective", lambda: "%s objective at %s is %s, the %s distance is %s" % (("fit", "synthetic")[which], xx, got, case["err"], e))
    out.expect(np.allclose(r.x, xv), "synthetic", lambda: "emulated curve of %s is explained by %s" % (xv, list(r.x)))
    out.expect(all(a.equals(b) for a, b in zip(frames_of(ia), before)) and data.equals(data0), "mutated", "electrode or cycling data were changed")


def blend(case, out, np, pd):
    if case["v"] == 2:
        import beep.features.intracell_analysis_v2 as mod
    else:
        import beep.features.intracell_analysis as mod
    x, has = case["x"], case["has"]
    fr = [pd.DataFrame(dict(zip(("SOC_aligned", "Voltage_aligned"), table(p, np)))) for p in (NE[case["el"]], NE2["pos"], NE2["neg"])]
    if has == "pos":
        fr[2] = pd.DataFrame()
    elif has == "none":
        fr[1] = fr[2] = pd.DataFrame()
    before = [f.copy(deep=True) for f in fr]
    out.call()
    got = mod.blend_electrodes(fr[0], fr[1], fr[2], x)
    s, v = blended(NE[case["el"]], None if has == "none" else abs(x) if has == "pos" else x, np) if x else table(NE[case["el"]], np)
    out.see(np.round(got.Voltage_aligned.values[::50], 4).tolist())
    if out.expect(len(got) == 1001 and abs(got.SOC_aligned.iloc[0]) < .2 and abs(got.SOC_aligned.iloc[-1] - 100) < .2 and not got.Voltage_aligned.isna().any(), "blend-range", "blend does not span 0..100 %"):
        for q, u in got[["SOC_aligned", "Voltage_aligned"]].values[::23]:
            # both axes are resampled: a voltage step of 1/1000 of the range and two steps of the state of charge
            near(out, "blend-voltage", u, (np.interp(q + .25, s, v) - .0016, np.interp(q - .25, s, v) + .0016))
    out.expect(all(a.equals(b) for a, b in zip(fr, before)), "blend-mutated", "the electrodes were changed")


def measure(ia, err, x, args, np):
    """mean standardised distance of the measured points to the emulated curve in the representation asked for"""
    if err == "V-Q":
        a, b = ia.get_v_over_q_from_degradation_matching_ah(x, *args)[2:]
        cols = ["Q_aligned", "Voltage_aligned"]
    elif err == "dQdV":
        a, b = ia.get_dqdv_over_v_from_degradation_matching_ah(x, *args)[2:4]
        cols = ["Voltage_aligned", "dQdV"]
    else:
        a, b = ia.get_dvdq_over_q_from_degradation_matching_ah(x, *args)[2:4]
        a, b = a[a.Q_aligned > 0.5], b[b.Q_aligned > 0.5]
        cols = ["Q_aligned", "dVdQ"]
    a, b = a[cols].dropna().values, b[cols].dropna().values
    var = np.concatenate([a, b]).var(0, ddof=1)
    d = (((a[:, None, :] - b[None, :, :]) ** 2) / var).sum(-1)
    return float(np.sqrt(d.min(1)).mean())


PE1 = [[(0, 3.30), (20, 3.55), (45, 3.72), (60, 3.98), (85, 4.16), (100, 4.33)], [(0, 3.30), (12, 3.60), (40, 3.66), (70, 4.02), (100, 4.36)]]
NE1 = [(0, 1.50), (4, 0.60), (12, 0.25), (30, 0.20), (50, 0.13), (80, 0.09), (100, 0.01)]
INIT = ([0.94, 1.0, 1.05], [2.0, 4.0, 7.0])      # ratio of capacities, offset; the offset of 4 is the true one
LOSS = ([0.0, 4.0, 9.0], [0.0, 5.0, 10.0], [0.0, 4.0, 8.0])
CAP = 4.8
NAMES1 = ["LLI", "LAM_PE", "LAM_NE", "x_NE_2", "alpha_real", "alpha_emulated", "PE_upper_voltage", "PE_lower_voltage", "PE_upper_SOC", "PE_lower_SOC", "PE_mass",
          "NE_upper_voltage", "NE_lower_voltage", "NE_upper_SOC", "NE_lower_SOC", "NE_mass", "Li_mass"]


class Cell1:
    """a cell of given capacity ratio and offset after losses of lithium and of active material (in % of the pristine cell)"""

    def __init__(self, pe, ne, scale, off, loss, np):
        self.np = np
        (sp, vp), (sn, vn) = table(pe, np), table(ne, np)
        w = np.linspace(0, 130, 60001)
        v = np.interp(w, sp * scale + off, vp, left=np.nan, right=np.nan) - np.interp(w, sn, vn, left=np.nan, right=np.nan)
        z = w[np.nanargmin(abs(v - 2.7))]
        top = w[(v <= 4.2) & ~np.isnan(v)].max() - z
        lli, lp, ln = loss
        f = 100 / top
        sp, sn = (sp * scale + off - z) * f, (sn - z) * f
        sp = sp * (1 - lp / 100) + lp            # the electrode shrinks towards the full cell's upper voltage limit (100 %)
        sn = sn * (1 - ln / 100) + lli           # and the other towards the lower one (0 %)
        lo, hi = min(sp[0], sn[0]), max(sp[-1], sn[-1])
        self.dq = (hi - lo) / 1000
        self.q = np.linspace(lo, hi, 60001)
        self.pe = np.interp(self.q, sp, vp, left=np.nan, right=np.nan)
        self.ne = np.interp(self.q, sn, vn, left=np.nan, right=np.nan)
        self.fc = self.pe - self.ne
        ok = ~np.isnan(self.fc)
        self.zero = self.q[ok][0]
        self.qz = (self.q - self.zero) / 100 * CAP
        self.li = self.q[ok][[0, -1]]
        self.ends = (sp[0], sp[-1], sn[0], sn[-1])

    at = Cell.at
    span = Cell.span


def frame1(curves, pd, np):
    parts = []
    for ci, ty, c in curves:
        ok = ~np.isnan(c.fc)
        v = np.linspace(c.fc[ok][0], 4.2, 500)
        q = np.interp(v, c.fc[ok], c.qz[ok])
        n = len(v)
        parts.append(pd.DataFrame({"voltage": v, "charge_capacity": q, "discharge_capacity": 0 * q, "cycle_type": [ty] * n, "cycle_index": [ci] * n, "step_type": [0] * n}))
        parts.append(pd.DataFrame({"voltage": v, "charge_capacity": 9.0 + 0 * q, "discharge_capacity": 5 - q / 2, "cycle_type": [ty] * n, "cycle_index": [ci] * n, "step_type": [1] * n}))
    return pd.concat(parts, ignore_index=True)


def check_row1(out, row, c, loss, tag):
    out.expect(all(abs(row[k] - v) < 1e-9 for k, v in zip(NAMES1, list(loss) + [1, .1, .1])), tag + "-parameters", lambda: "%s, true %s" % ([row[k] for k in NAMES1[:6]], loss))
    p0, p1, n0, n1 = c.ends
    for which, u in (("upper", 4.2), ("lower", 2.7)):
        i = c.at(u)
        near(out, "%s-PE_%s_voltage" % (tag, which), row["PE_%s_voltage" % which], c.span(c.pe, i), .002)
        near(out, "%s-NE_%s_voltage" % (tag, which), row["NE_%s_voltage" % which], c.span(c.ne, i), .002)
        lo, hi = c.span(c.q, i)
        near(out, "%s-PE_%s_SOC" % (tag, which), row["PE_%s_SOC" % which], ((lo - p0) / (p1 - p0) * 100 - .3, (hi - p0) / (p1 - p0) * 100 + .3))
        near(out, "%s-NE_%s_SOC" % (tag, which), row["NE_%s_SOC" % which], ((lo - n0) / (n1 - n0) * 100 - .3, (hi - n0) / (n1 - n0) * 100 + .3))
    d = 4 * c.dq
    near(out, tag + "-PE_mass", row["PE_mass"], (p1 - p0 - d, p1 - p0 + d))
    near(out, tag + "-NE_mass", row["NE_mass"], (n1 - n0 - d, n1 - n0 + d))
    near(out, tag + "-Li_mass", row["Li_mass"], (c.li[1] - c.li[0] - d, c.li[1] - c.li[0] + d))


def optimiser1(np, only=None):
    """only: the losses to choose from"""
    def de(func, bounds, args=(), **kw):
        if only and len(bounds) == 6:
            cand = [tuple(t) + tuple(b[0] for b in bounds[3:]) for t in only if all(lo <= g <= hi for g, (lo, hi) in zip(t, bounds))]
        else:
            grids = list(INIT) if len(bounds) == 5 else list(LOSS)
            cand = itertools.product(*[[lo] if lo == hi else [g for g in grids[i] if lo <= g <= hi] for i, (lo, hi) in enumerate(bounds)])
        scored = [(float(func(np.array(x), *args)), x) for x in cand]
        best = min(scored)
        return types.SimpleNamespace(x=np.array(best[1], float), fun=best[0], success=True)

    return de


TYPES = ["rpt_0.2C", "rpt_1C"]


def feat(case, out, td, np, pd):
    from beep.structure.arbin import ArbinDatapath
    v, n, ty = case["v"], len(case["types"]), case["types"]
    want = TYPES[case.get("ask", 0)]
    if v == 2:
        import beep.features.intracell_analysis_v2 as mod
        from beep.features.intracell_losses_v2 import IntracellCyclesV2 as Cyc, IntracellFeaturesV2 as Feat
        fn = files(td, 0, np, pd)
        truths = [[0.1, 4.9, 5.0], [0.45, 4.4, 5.6], [0.9, 5.3, 4.6], [0.45, 4.9, 5.0]]
        cells = [Cell(PE[0], NE[0], None, t, np) for t in truths]
        names, limit, frame = NAMES2, 0.0, diag_frame
        install(mod, optimiser(list(GRID["quick"]), np)[0])
    else:
        import beep.features.intracell_analysis as mod
        from beep.features.intracell_losses import IntracellCycles as Cyc, IntracellFeatures as Feat
        fn = {"pe": os.path.join(td, "pe.csv"), "ne": os.path.join(td, "ne.csv")}
        el = case.get("el", 0)
        write(fn["pe"], PE1[el], np, pd)
        write(fn["ne"], NE1, np, pd)
        truths = case.get("loss") or [[0., 0., 0.], [4., 5., 0.], [9., 0., 4.], [4., 10., 8.]]
        first = [i for i in range(n) if TYPES[ty[i]] == want]
        if first:
            truths = list(truths)
            truths[first[0]] = [0., 0., 0.]        # the first one defines the pristine cell
        cells = [Cell1(PE1[el], NE1, case.get("s", 1.0), 4.0, t, np) for t in truths]
        names, limit, frame = NAMES1, 4.84 * .7, frame1
        # a degraded cell whose curve starts away from the lower limit is not identified by the measured window:
        # there the fit only chooses between the losses that occur
        start = [c.fc[~np.isnan(c.fc)][0] for c in cells]
        install(mod, optimiser1(np, truths if "loss" in case and not all(2.5 <= v <= 2.97 for v in start) else None))
    cyc = [3, 40, 41, 100][:n]
    caps = [4.6, 4.4, 4.0, 3.6][:n]
    if case.get("low") is not None:
        caps[case["low"]] = limit - (0.001 if limit else 0)
    data = frame([(cyc[i], TYPES[ty[i]], cells[i]) for i in case["ord"]], pd, np)
    dp = ArbinDatapath(raw_data=pd.DataFrame(), metadata={}, paths={"raw": "/x/1.csv"})
    dp.structured_data = pd.DataFrame({"cycle_index": [0]})
    dp.structured_summary = pd.DataFrame({"cycle_index": [0]})
    dp.diagnostic_data = data
    dp.diagnostic_summary = pd.DataFrame({"cycle_index": cyc, "cycle_type": [TYPES[t] for t in ty], "discharge_capacity": caps})
    d0, s0 = data.copy(deep=True), dp.diagnostic_summary.copy(deep=True)
    hyp = {"diagnostic_cycle_type": want, "step_type": 0, "anode_file": fn["ne"], "cathode_file": fn["pe"]}
    use = [i for i in range(n) if TYPES[ty[i]] == want and caps[i] > limit]
    for cls, need in ((Cyc, 1), (Feat, 2)):
        f = cls(dp, dict(hyp))
        out.call()
        ok, msg = f.validate()
        out.expect(bool(ok) == (len(use) >= need) and (ok or msg), "validate", lambda: "%s.validate gives %s (%s) with %s usable diagnostics" % (cls.__name__, ok, msg, len(use)))
        if len(use) < need:
            continue
        out.call()
        f.create_features()
        df = f.features
        if cls is Cyc:
            if not out.expect(list(df.index) == [cyc[i] for i in use] and list(df.columns) == names, "rows", lambda: "rows %s, columns %s" % (list(df.index), list(df.columns))):
                continue
            rows = [dict(zip(names, r)) for r in df.values]
        else:
            cols = ["diag_%d_%s" % (k, x) for k in (0, 1) for x in names]
            if not out.expect(df.shape == (1, len(cols)) and list(df.columns) == cols, "columns", lambda: "%s" % list(df.columns)):
                continue
            vals = list(df.values[0])
            rows = [dict(zip(names, vals[:len(names)])), dict(zip(names, vals[len(names):]))]
        out.see(np.round(np.array([list(r.values()) for r in rows], float), 4).tolist())
        for i, r in zip(use, rows):
            if v == 2:
                check_row(out, r, cells[i], truths[i], 1.0, "cycle" if cls is Cyc else "features")
            else:
                check_row1(out, r, cells[i], truths[i], "cycle" if cls is Cyc else "features")
    out.expect(data.equals(d0) and dp.diagnostic_summary.equals(s0), "mutated", "diagnostic data were changed")

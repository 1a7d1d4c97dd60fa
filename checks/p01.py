"""P01 - interpolated cycle data."""
import itertools

from vmc import rawgen as g

PROPERTY = "P01"
RULE = ("every record made of up to N cycles over the step-shape alphabet, crossed with numbering/index/config "
        "deviations; non-trivial = at least one interpolated row produced")
ASSUMPTIONS = ["charge/discharge steps are monotone in their own capacity",
               "values at grid points outside a step's measured range are only required not to leave the step's own extremes"]
BOUNDS = {
    "quick": "12 cycle shapes; all records of <=2 cycles x <=1 config deviation (28 deviations), 2 records x <=2 deviations, triples over 4 shapes",
    "thorough": "as quick, plus all records of 3 cycles, 4 cycles over 4 shapes, 2 records x <=3 deviations",
}
SHAPES = ["CD", "DC", "CRD", "CVD", "C", "D", "cd", "Co", "CDx", "RCD", "CVRDR", "Cw"]
COLS = ["test_time", "voltage", "current", "charge_capacity", "discharge_capacity", "charge_energy",
        "discharge_energy", "internal_resistance", "temperature"]
F32 = {"voltage", "current", "charge_capacity", "discharge_capacity", "charge_energy", "discharge_energy",
       "internal_resistance", "temperature"}

DEFAULT = {"start": 1, "gap": 1, "index": "range", "v": None, "res": 3, "ca": "charge_capacity",
           "da": "voltage", "ex": None, "diag": None, "indet": True, "drop": None, "wf": None, "renum": None}
DEVS = [("start", 0), ("start", 7), ("gap", 2), ("index", "offset"), ("index", "rev"), ("v", [2.5, 4.0]),
        ("v", [3.0, 3.25]), ("v", [3.75, 2.5]), ("res", 2), ("res", 5), ("res", 9), ("ca", "voltage"), ("ca", "test_time"),
        ("ca", "discharge_capacity"), ("da", "discharge_capacity"), ("da", "test_time"), ("ex", [0]), ("ex", [1]),
        ("ex", [0, 1]), ("ex", [99]), ("diag", [0]), ("diag", [1]), ("indet", False), ("drop", ["temperature"]), ("wf", [0, "D"]), ("wf", [1, "D"]), ("wf", [0, "C"]),
        ("wf", [1, "C"]), ("renum", "desc"), ("renum", "mix"), ("cap0", 0.3125), ("cap0", -0.25)]


def configs(k):
    yield dict(DEFAULT)
    for n in range(1, k + 1):
        for combo in itertools.combinations(DEVS, n):
            keys = [c[0] for c in combo]
            if len(set(keys)) != len(keys) or ("wf" in keys and "ex" in keys):
                continue
            d = dict(DEFAULT)
            d.update(dict(combo))
            yield d


def mk(shapes, cfg):
    return {"shapes": list(shapes), "cfg": cfg}


def cases(tier):
    for s in SHAPES:
        yield mk([s], dict(DEFAULT))
    for s in itertools.product(SHAPES, repeat=2):
        yield mk(s, dict(DEFAULT))
    for s in ("mD", "Cn", "mn", "nm", "Cz", "zCz"):
        for o in ((), ("CD",), ("mn",), ("DC",)):
            for cfg in configs(1):
                yield mk((s,) + o, cfg)
                if o:
                    yield mk(o + (s,), cfg)
    # realistic scale: default settings, many cycles, cycle numbers and step numbers of two and three digits
    for s in (("CD",), ("CVRDR", "DC"), ("RCD", "cd", "mn")):
        yield mk(s, dict(DEFAULT, res=1000, dflt=1))
    for start in (1, 95):
        yield mk([SHAPES[i % 12] for i in range(40)], dict(DEFAULT, start=start))
        yield mk([SHAPES[i % 5] for i in range(130)], dict(DEFAULT, start=start, gap=3, index="offset"))
    for si0 in (9, 99, 300):
        for s in (("CRD", "CVD"), ("CDx", "DC", "CD")):
            yield mk(s, dict(DEFAULT, si0=si0))
    k = 2 if tier == "quick" else 3
    for cfg in configs(k):
        for s in (("CVD", "DC"), ("CRD", "cd", "CD")):
            yield mk(s, cfg)
    for cfg in configs(1):
        for s in itertools.product(SHAPES, repeat=2):
            yield mk(s, cfg)
    for s in itertools.product(["CD", "DC", "cd", "CDx"], repeat=3):
        yield mk(s, dict(DEFAULT))
    if tier == "thorough":
        for s in itertools.product(SHAPES, repeat=3):
            yield mk(s, dict(DEFAULT))
        for s in itertools.product(["CD", "DC", "cd", "CDx"], repeat=4):
            yield mk(s, dict(DEFAULT))


def spec_of(case):
    cfg = case["cfg"]
    cyc = [cfg["start"] + i * cfg["gap"] for i in range(len(case["shapes"]))]
    sp = {"cycles": [[c, s, 1.0 - (0.0625 * i if len(cyc) < 9 else 0.001953125 * i), cfg.get("si0", 1)] for i, (c, s) in enumerate(zip(cyc, case["shapes"]))],
          "index": cfg["index"]}
    sp["renum"] = cfg.get("renum")
    if cfg["drop"]:
        sp["drop"] = cfg["drop"]
    return sp, cyc


def expected_steps(rows, cyc, cfg):
    """{(cycle, kind, step_index): rows} that must be present."""
    regular = [c for i, c in enumerate(cyc) if not (cfg["diag"] and i in cfg["diag"])]
    excluded = set(cyc[i] for i in (cfg["ex"] or []) if i < len(cyc))
    want = {}
    for c in regular:
        if c in excluded:
            continue
        for si, rs in g.steps_of(rows, c).items():
            if len(rs) < 2:
                continue
            kind = g.direction(rs) or ("charge" if cfg["indet"] else "discharge")
            want[(c, kind, si)] = rs
    return want


def wf_rows(rows, cyc, cfg):
    """Indices of the rows recorded while a drive-cycle waveform was running."""
    if not cfg["wf"]:
        return []
    i, kind = cfg["wf"]
    if i >= len(cyc):
        return []
    want = "charge" if kind == "C" else "discharge"
    for si, rs in sorted(g.steps_of(rows, cyc[i]).items()):
        if len(rs) > 2 and g.direction(rs) == want:
            return [k for k, r in enumerate(rows) if r["cycle_index"] == cyc[i] and r["step_index"] == si]
    return []


def axis_range(kind, cfg, rows, rs, cyc):
    ax = cfg["ca"] if kind == "charge" else cfg["da"]
    if cfg["wf"] and not (cfg["diag"] and cfg["wf"][0] in cfg["diag"]) and wf_rows(rows, cyc, cfg):
        if kind == ("charge" if cfg["wf"][1] == "C" else "discharge"):
            ax = "test_time"
    if ax == "voltage":
        return ax, (cfg["v"] or [2.8, 3.5])
    if ax == "test_time":
        xs = [r["test_time"] for r in rs]
        return ax, [min(xs), max(xs)]
    xs = [r[ax] for r in rows]
    return ax, [min(xs), max(xs)]


def compare(out, got, rows, cyc, cfg, what=""):
    want = expected_steps(rows, cyc, cfg)
    have = {}
    if len(got):
        for rec in got.to_dict("records"):
            have.setdefault((int(rec["cycle_index"]), str(rec["step_type"]), int(rec["step_index"])), []).append(rec)
    if not out.expect(set(have) == set(want), "steps" + what,
                      lambda: "interpolated steps %s, expected %s" % (sorted(have), sorted(want))):
        return
    cols = [c for c in COLS if rows and c in rows[0]]
    for key, rs in want.items():
        kind = key[1]
        ax, rng = axis_range(kind, cfg, rows, rs, cyc)
        grid = g.linspace(rng[0], rng[1], cfg["res"])
        got_rows = have[key]
        gx = [r[ax] for r in got_rows]
        want_x = sorted(set(grid))
        if not out.expect(len(gx) == len(want_x) and all(
                abs(a - b) <= 2e-6 * max(1, abs(b)) for a, b in zip(sorted(gx), want_x)),
                "grid" + what, lambda: "step %s axis %s grid %s expected %s" % (key, ax, gx, want_x)):
            return
        if ax == "voltage" or rng[0] <= rng[1]:
            out.expect(gx == sorted(gx), "order" + what, lambda: "step %s axis %s not ascending: %s" % (key, ax, gx))
        for r in got_rows:
            x = min(want_x, key=lambda w: abs(w - r[ax]))
            for c in cols:
                if c == ax:
                    continue
                where, lo, hi = g.interp_at([(q[ax], q[c]) for q in rs], x)
                v = r[c]
                tol = 2e-6 * max(1.0, abs(hi), abs(lo)) if c in F32 else 1e-6 * max(1.0, abs(hi))
                if where == "in":
                    ok = not g.isnan(v) and lo - tol <= v <= hi + tol
                else:
                    ok = g.isnan(v) or lo - tol <= v <= hi + tol
                if not out.expect(ok, "value" + what,
                                  lambda: "step %s at %s=%r column %s is %r, expected [%r, %r] (%s)" % (
                                      key, ax, x, c, v, lo, hi, where)):
                    return


def run_case(case, out):
    cfg = dict(case["cfg"])
    spec, cyc = spec_of(case)
    rows = g.build_rows(spec)
    diag = {"rpt": [cyc[i] for i in cfg["diag"] if i < len(cyc)]} if cfg["diag"] else None
    if diag is not None and not diag["rpt"]:
        diag = None
        cfg["diag"] = None
    dp = g.make_datapath(spec, diag)
    if cfg.get("cap0"):
        # the record begins with what had been counted before
        for c in ("charge_capacity", "discharge_capacity"):
            dp.raw_data[c] = dp.raw_data[c] + cfg["cap0"]
            for r in rows:
                r[c] += cfg["cap0"]
    if cfg["wf"]:
        marked = set(wf_rows(rows, cyc, cfg))
        nan = float("nan")
        for c in ("_wf_chg_cap", "_wf_dis_cap"):
            dp.raw_data[c] = [0.5 if k in marked else nan for k in range(len(rows))]
    dp.indeterminate_step_default_charge = cfg["indet"]
    kw = dict(v_range=cfg["v"], resolution=cfg["res"], charge_axis=cfg["ca"], discharge_axis=cfg["da"])
    if cfg["ex"] is not None:
        kw["exclude_cycles"] = [cyc[i] if i < len(cyc) else 10 ** 6 for i in cfg["ex"]]
    if cfg.get("dflt"):
        kw = {}
    if not expected_steps(rows, cyc, cfg):
        out.nontrivial = False
        return
    got = dp.interpolate_cycles(**kw)
    out.call()
    out.see(g.frame_digest(got, 6))
    compare(out, got, rows, cyc, cfg)

"""P06 - cycle-life and capacity-fade queries."""
import itertools
import statistics

from vmc import rawgen as g

PROPERTY = "P06"
RULE = "every capacity history over the grid x cycle numbering x cutoff x threshold x table ranges, on the original and on the reloaded object"
ASSUMPTIONS = ["the reference capacity is the median of the first N cycles when there are more than N cycles, else 1.1 Ah (documented)",
               "a run whose last cycle is above the threshold has not reached it (documented): answer is number of cycles + 1"]
BOUNDS = {"quick": "histories of <=5 values over 4 levels, optional 38-cycle lead-in, 3 numberings, 5 cutoffs, 5 thresholds",
          "thorough": "histories of <=7 values"}
LEVELS = [1.0, 0.875, 0.75, 0.5]
NUMBERINGS = [("zero", lambda i: i), ("one", lambda i: i + 1), ("gaps", lambda i: 2 + i + 3 * (i // 2))]
CUTS = [1, 2, 3, 5, 40]
THRS = [1.0, 0.875, 0.8, 0.75, 0.0]
RANGES = [(0, 4, 1), (1, 5, 2), (0, 5, 2), (2, 3, 5), (36, 44, 3), (3, 3, 1)]
CRANGES = [(0.98, 0.78, 0.03), (0.9, 0.7, 0.1), (0.95, 0.6, 0.05), (1.0, 0.4, 0.25)]


def cases(tier):
    for n in range(1, 8 if tier == "thorough" else 6):
        for h in itertools.product(range(4), repeat=n):
            yield {"h": list(h), "lead": 0}
            if n <= 4:
                yield {"h": list(h), "lead": 38}
    for shapes in itertools.product(["CD", "CVD", "d"], repeat=2):
        for f in itertools.product([1.0, 0.5], repeat=2):
            yield {"real": [[1, shapes[0], f[0]], [4, shapes[1], f[1]], [5, "CVD", 0.75]]}


def life(caps, cyc, cut, thr):
    ref = statistics.median(caps[:cut]) if len(caps) > cut else 1.1
    if caps[-1] / ref <= thr:
        return next(c for c, q in zip(cyc, caps) if q / ref <= thr)
    return len(caps) + 1


def check(out, dp, caps, cyc, tag):
    for cut in CUTS:
        for thr in THRS:
            out.call()
            got = float(dp.get_cycle_life(n_cycles_cutoff=cut, threshold=thr))
            want = life(caps, cyc, cut, thr)
            out.see(got)
            out.expect(got == want, "life", lambda: "%s: cycle life(%s, %s) = %s, expected %s; capacities %s of cycles %s" % (tag, cut, thr, got, want, caps, cyc))
    out.expect(float(dp.get_cycle_life()) == life(caps, cyc, 40, 0.8), "life-default", tag)
    for lo, hi, st in RANGES:
        out.call()
        t = dp.cycles_to_capacities(cycle_min=lo, cycle_max=hi, cycle_interval=st)
        want = {"cycle_%d" % c: (caps[c] if c < len(caps) else 0.0) for c in range(lo, hi, st)}
        got = {c: float(t[c].iloc[0]) for c in t.columns}
        out.see(sorted(got.items()))
        out.expect(t.shape == (1, len(want)) and list(t.columns) == list(want) and got == want, "capacities",
                   lambda: "%s: capacities at cycles %s = %s, expected %s" % (tag, (lo, hi, st), got, want))
    for mx, mn, st in CRANGES:
        out.call()
        t = dp.capacities_to_cycles(thresh_max_cap=mx, thresh_min_cap=mn, interval_cap=st)
        ths = []
        k = 0
        while mx - k * st > mn + 1e-9:
            ths.append(round(mx - k * st, 2))
            k += 1
        got = [float(t[c].iloc[0]) for c in t.columns][:len(ths)]
        want = [life(caps, cyc, 40, x) for x in ths]
        names = [float(c.split("_")[1]) for c in t.columns]
        out.see(got)
        # the last point may or may not be included when the range ends exactly on it
        out.expect(names[:len(ths)] == ths and len(names) - len(ths) in (0, 1), "cap-labels", lambda: "%s: labels %s, expected %s" % (tag, names, ths))
        out.expect(got == want, "cycles", lambda: "%s: cycles at capacities %s = %s, expected %s" % (tag, ths, got, want))


def run_case(case, out):
    import pandas as pd

    if "real" in case:
        dp = g.make_datapath({"cycles": case["real"]})
        dp.structure(resolution=3)
        s = dp.structured_summary
        caps, cyc = [float(x) for x in s.discharge_capacity], [int(x) for x in s.cycle_index]
        check(out, dp, caps, cyc, "structured record")
        check(out, type(dp).from_dict(dp.as_dict()), caps, cyc, "reloaded record")
        return
    caps = [1.0] * case["lead"] + [LEVELS[i] for i in case["h"]]
    base = _base()
    for name, num in NUMBERINGS:
        cyc = [num(i) for i in range(len(caps))]
        for reload in (False, True):
            df = pd.DataFrame({"cycle_index": cyc, "discharge_capacity": caps})
            if not reload:
                df.index = pd.Index(cyc)      # what structuring produces
            base.structured_summary = df
            before = df.copy()
            check(out, base, caps, cyc, "%s numbering%s" % (name, ", reloaded" if reload else ""))
            out.expect(base.structured_summary.equals(before), "mutated", "queries changed the summary")
            if out.problems:
                return


_B = None


def _base():
    global _B
    if _B is None:
        _B = g.make_datapath({"cycles": [[1, "CD", 1.0]]})
        _B.structure(resolution=2)
    return _B

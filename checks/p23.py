"""P23 - generated drive-cycle waveforms deliver the requested profile."""
import copy
import itertools
import os
import tempfile
import warnings

from vmc import wave

PROPERTY = "P23"
RULE = "every power or current profile, velocity profile and set of charging windows in the bound; the written file is read back second by second and compared with an independent model; non-trivial: all except refusals"
ASSUMPTIONS = ["profiles hold one sample per second (the library counts samples)", "velocities: at least two samples, times increasing", "charging windows: c-rates between the given minimum and maximum; in the half-current first and last grid point (1 of 1000) of stepped waveforms, pinned by upstream tests, only the total charge is judged, within 1 %",
               "a set of charging windows whose smooth form cannot be made as long as the stepped one is refused by an assertion; refusals are allowed only with c-rates above 2, where the smooth form may hit the maximum of 3"]
BOUNDS = {"quick": "profiles of <=4 samples over 5 values x power/current x 5 settings (5 samples for one), of <=3 samples over 6 values that are close to each other; velocities of <=4 samples over 4 values x 3 time grids x 3 units x 2 separators; 3 windows over 3 c-rates x 4 meshes, ordered and unordered",
          "thorough": "profiles of <=5 samples for all settings; 4 c-rates, 5 meshes"}
CHUNK = 60
VALS = (-20.0, -3.3, 0.0, 7.5, 20.0)
NEAR = (-20.0, -19.9996, 0.0, 0.004, 19.9991, 20.0)  # neighbours that differ little, and almost nothing
DEF = {"control_mode": "P", "value_scale": 1, "charge_limit_mode": "V", "charge_limit_value": 4.2, "discharge_limit_mode": "V", "discharge_limit_value": 2.7, "charge_end_mode": "V", "charge_end_operation": ">=", "charge_end_mode_value": 4.25,
       "discharge_end_mode": "V", "discharge_end_operation": "<=", "discharge_end_mode_value": 2.5, "report_mode": "T", "report_value": 3.0, "range": "A"}
CFGS = [None, dict(DEF, value_scale=40.0), dict(DEF, control_mode="I", value_scale=0.12345, charge_limit_mode="R", charge_limit_value=2, discharge_limit_mode="P", discharge_limit_value=3, report_value=10, range="4"),
        dict(DEF, charge_end_mode="T", charge_end_operation="=", charge_end_mode_value=77.5, discharge_end_mode="I", discharge_end_operation=">=", discharge_end_mode_value=0.25, report_mode="V", report_value=0.002),
        dict(DEF, control_mode="I", value_scale=7)]
TIMES = ((0, 1, 2, 3), (0, 2, 3, 7), (5, 5.5, 6.0, 9.0))


def cases(tier):
    t = tier == "thorough"
    for n in range(1, 6):
        for p in itertools.product(range(5), repeat=n):
            for col in ("power", "current"):
                for c in range(len(CFGS)):
                    if n < 5 or t or (c == 1 and col == "power"):
                        yield {"k": "mwf", "p": list(p), "col": col, "c": c, "ix": (sum(p) + c) % 3}
    for n in (2, 3, 4) if t else (2, 3):
        for p in itertools.product(range(6), repeat=n):
            for col in ("power", "current"):
                for c in range(len(CFGS)):
                    yield {"k": "mwf", "p": list(p), "col": col, "c": c, "ix": (sum(p) + c) % 3, "near": 1}
    for n in (2, 3, 4):
        for v in itertools.product((0.0, 11.0, 25.5, 60.0), repeat=n):
            for g in range(3):
                for u in ("mph", "kmph", "mps"):
                    yield {"k": "vel", "v": list(v), "g": g, "u": u, "s": "\t," [(g + n) % 2]}
    yield {"k": "vel", "v": [0.0, 1.0], "g": 0, "u": "knots", "s": "\t"}
    rates = (0.5, 1.0, 2.0, 2.5) if t else (0.5, 1.0, 2.0)
    meshes = [(0.05, 0.25, 0.65, 0.8), (0.1, 0.3, 0.5, 0.7), (0.0, 0.11, 0.55, 0.8), (0.05, 0.4, 0.6, 0.8)] + ([(0.2, 0.3, 0.4, 0.5)] if t else [])
    for m in meshes:
        for r in itertools.product(rates, repeat=4):
            yield {"k": "chg", "m": list(m), "r": list(r)}
    for m in itertools.permutations((0.05, 0.25, 0.65, 0.8)):
        yield {"k": "chg", "m": list(m), "r": [0.5, 1.0, 2.0, 0.5]}
    yield {"k": "chg", "m": [0.05, 0.25, 0.25, 0.8], "r": [0.5, 1.0, 2.0, 0.5]}


def mwf(case, out):
    import pandas as pd
    from beep.conversion_schemas import MACCOR_WAVEFORM_CONFIG
    from beep.protocol.maccor import generate_maccor_waveform_file
    vals = [(NEAR if case.get("near") else VALS)[i] for i in case["p"]]
    n = len(vals)
    df = pd.DataFrame({"time": [float(i) for i in range(n)], case["col"]: vals})
    if case["ix"] == 1:
        df = pd.concat([df.iloc[:n // 2], df.iloc[n // 2:].reset_index(drop=True)])
    elif case["ix"] == 2:
        df["speed"] = 1.0
        df.index = range(n, 0, -1)
    keep, cfg = df.copy(deep=True), copy.deepcopy(CFGS[case["c"]])
    kept, glob = copy.deepcopy(cfg), copy.deepcopy(MACCOR_WAVEFORM_CONFIG)
    with tempfile.TemporaryDirectory() as tmp:
        path = generate_maccor_waveform_file(df, "wave", tmp, **({} if cfg is None else {"mwf_config": cfg}))
        out.call()
        out.expect(os.path.abspath(path) == os.path.join(tmp, "wave.MWF") and os.listdir(tmp) == ["wave.MWF"], "path", "written to %s" % path)
        rows = wave.read(path)
    out.expect(df.equals(keep) and list(df.columns) == list(keep.columns) and df.index.equals(keep.index), "profile-changed", "the profile passed in was modified: %s" % df.to_dict("list"))
    out.expect(cfg == kept and MACCOR_WAVEFORM_CONFIG == glob, "settings-changed", "the waveform settings were modified")
    c = cfg or DEF
    msg = wave.compare(rows, wave.samples(vals, "P" if case["col"] == "power" else "I", c), c)
    out.expect(msg is None, "waveform", "profile %s (%s, settings %d): %s" % (vals, case["col"], case["c"], msg))
    runs = 1 + sum(a != b for a, b in zip(vals, vals[1:]))
    out.expect(len(rows) == runs, "merging", "profile %s has %d different steps, file has %d rows" % (vals, runs, len(rows)))
    out.see("mwf", tuple(map(tuple, rows)))


def vel(case, out):
    from beep.utils.waveform import convert_velocity_to_power_waveform
    v, t = case["v"], list(TIMES[case["g"]][:len(case["v"])])
    with tempfile.TemporaryDirectory() as tmp:
        f = os.path.join(tmp, "v.txt")
        text = "time%svelocity\n" % case["s"] + "".join("%s%s%s\n" % (a, case["s"], b) for a, b in zip(t, v))
        open(f, "w").write(text)
        try:
            df = convert_velocity_to_power_waveform(f, case["u"])
        except NotImplementedError:
            out.call()
            out.expect(case["u"] == "knots", "unit-refused", "unit %s refused" % case["u"])
            return
        out.call()
        out.expect(open(f).read() == text, "file-changed", "the velocity file was modified")
    if not out.expect(case["u"] != "knots", "unit-accepted", "unknown unit accepted"):
        return
    want = wave.power(t, v, case["u"])
    out.expect(list(df.columns) == ["time", "power"] and list(df["time"]) == t, "velocity-times", "times %s" % df.to_dict("list"))
    out.expect(len(df) == len(want) and all(abs(a - b) <= 1e-6 * max(1, abs(b)) for a, b in zip(df["power"], want)), "power", "velocities %s %s at %s give %s, expected %s" % (v, case["u"], t, list(df["power"]), want))
    out.see("vel", tuple(round(x, 3) for x in want))


def chg(case, out):
    import numpy as np
    from beep.utils.waveform import RapidChargeWave
    m, r = case["m"], case["r"]
    m0, r0 = list(m), list(r)
    ordered = all(a < b for a, b in zip(m, m[1:]))
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            smooth, step, time = RapidChargeWave(r[-1], m[0], m[-1], 3.0, 0.2).get_currents_with_uniform_time_basis(r, m)
    except (AssertionError, ValueError, IndexError) as e:
        out.call()
        out.see("refused", ordered)
        out.expect(not (ordered and plain(r)), "refused", "windows %s at %s refused: %r" % (m, r, e))
        return
    out.call()
    if not out.expect(ordered, "windows-out-of-order", "windows %s are out of order but %d s of current were made" % (m, len(time))):
        return
    out.expect(m == m0 and r == r0, "inputs-changed", "windows or c-rates were modified")
    parts = [(b - a) / x * 3600 for a, b, x in zip(m, m[1:], r)]
    total, soc = sum(parts), m[-1] - m[0]
    out.expect(list(time) == list(range(len(time))) and len(smooth) == len(step) == len(time), "time-basis", "%d times, %d and %d currents" % (len(time), len(smooth), len(step)))
    out.expect(abs(len(time) - total) <= 0.01 * total + 3, "duration", "windows %s at %s last %.0f s, waveform %d" % (m, r, total, len(time)))
    for n, c in (("smooth", smooth), ("step", step)):
        out.expect(abs(sum(c) / 3600 - soc) <= 0.012 * soc + 0.002, n + "-charge", "windows %s at %s charge %.4f, %s waveform %.4f" % (m, r, soc, n, sum(c) / 3600))
    out.expect(min(smooth) >= 0.2 - 1e-9 and max(smooth) <= 3.0 + 1e-9, "smooth-range", "smooth currents %.3f to %.3f" % (min(smooth), max(smooth)))
    t = 0.0
    for x, n in zip(r, parts):
        cut = step[int(t + 0.05 * n + 5):int(t + 0.95 * n - 5)]
        out.expect(len(cut) > 0 and abs(cut - x).max() < 1e-6, "step-current", "windows %s at %s: currents at %s s are %s" % (m, r, t, sorted(set(np.round(cut, 4)))[:5]))
        t += n
    out.see("chg", len(time), round(float(sum(smooth)), 2))


def plain(r):
    return max(r) <= 2.0


def run_case(case, out):
    out.nontrivial = True
    {"mwf": mwf, "vel": vel, "chg": chg}[case["k"]](case, out)

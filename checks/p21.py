"""P21 - generated protocols carry exactly the parameters of their row."""
import contextlib
import csv
import hashlib
import io
import itertools
import os
import tempfile
import warnings
import xml.etree.ElementTree as ET

from vmc import wave

PROPERTY = "P21"
RULE = "every table of parameter rows in the bound (every row kind alone with every single parameter deviation; every ordered pair of kinds; runs one after another into one folder), generated by the library; each file is parsed independently and compared, value by value, with its template and its row; non-trivial: at least one protocol expected"
ASSUMPTIONS = ["template diagnosticV1 is superseded: the library fills diagnosticV2 for it, and no row uses it here", "project and sequence number are unique within a table", "diagnostic parameter sets exist in the shipped table", "rows with a supported template are complete and physically ordered (charge cut-off above discharge cut-off)",
               "the first rest is staggered by 12 min per table position (modulo 96), as the library documents in code", "the HPPC discharge between pulses is one second shorter than its state-of-charge share, to make up for the pulse",
               "values are compared within the written precision (3 decimals, resets 4), times within one second"]
BOUNDS = {"quick": "13 row kinds x single deviations (60+); ordered pairs of kinds; 2-run histories over kinds with waveforms; 2 output folders; table position up to 97",
          "thorough": "pairs of deviations for every kind with a procedure, triples of kinds, 2-run histories over all kinds"}
CHUNK = 4

DIAG = {"diagnostic_type": "HPPC+RPT", "diagnostic_parameter_set": "Tesla21700"}
REG = dict(charge_constant_current_1=1.5, charge_percent_limit_1=30, charge_constant_current_2=1.7, charge_cutoff_voltage=4.1, charge_constant_voltage_time=31, charge_rest_time=6,
           discharge_constant_current=0.7, discharge_cutoff_voltage=2.8, discharge_rest_time=16, cell_temperature_nominal=25, cell_type="Cell", capacity_nominal=4.84, diagnostic_start_cycle=29, diagnostic_interval=90, **DIAG)
DRIVE = {k: v for k, v in REG.items() if k != "discharge_constant_current"}
DRIVE.update(discharge_profile="US06", profile_charge_limit=4.2, max_profile_power=40, n_repeats=2, power_scaling=0.6)
RAPID = {k: v for k, v in REG.items() if k not in ("charge_constant_current_1", "charge_percent_limit_1", "charge_constant_current_2")}
RAPID.update(charge_type_1="smooth", charge_start_soc=0.05, charge_current_param_1=1.4, charge_current_param_2=2.1, charge_current_param_3=1.0, charge_current_param_4=0.5, charge_soc_param_1=0.11, charge_soc_param_2=0.55, charge_voltage_offset_1=0.01, charge_fast_soc_limit=0.8)
FORM = dict(capacity_nominal=0.2, initial_charge_voltage_1=3.5, initial_charge_current_1=0.1, initial_charge_cvhold_1=60, initial_charge_rest_1=30, initial_charge_voltage_2=4.2, initial_charge_current_2=0.2, initial_charge_cvhold_2=31, initial_charge_rest_2=32,
            initial_discharge_voltage_1=3.1, initial_discharge_current_1=0.3, mid_charge_voltage_1=4.15, mid_charge_current_1=0.5, mid_discharge_voltage_1=3.9, mid_discharge_current_1=0.6, mid_cycle_reps=3, final_charge_voltage_1=4.25, final_charge_current_1=1, final_discharge_voltage_1=3.45, final_discharge_current_1=0.9, final_discharge_cvhold_1=33, initial_temperature_1=30)
EXPR = dict(cutoff_voltage=4.15, charge_rate=1.9, discharge_rate=2.1)
KINDS = {
    "exp": ("EXP.000", "name", EXPR), "v2": ("diagnosticV2.000", "PreDiag", REG), "v3": ("diagnosticV3.000", "PreDiag", REG), "v4": ("diagnosticV4.000", "PredictionDiagnostics", REG),
    "drive": ("diagnosticV5.000", "Drive", DRIVE), "rapid": ("diagnosticV4.000", "RapidC", RAPID), "step": ("diagnosticV4.000", "RapidC", dict(RAPID, charge_type_1="step")), "form": ("formationV1.mps", "Form", FORM),
    "nofile": ("EXP-SOH.000", "name", EXPR), "sdu": ("20170630-3_6C_9per_5C.sdu", "name", {}), "mps": ("formationV9.mps", "Form", FORM), "none": ("", "name", {}), "txt": ("notes", "name", {}),
}
BAD = {"nofile": "Not Found", "sdu": "Not Implemented", "mps": "Not Found", "none": "Not Found", "txt": "Not Found"}
COMMON = {"charge_cutoff_voltage": [4.2, 4, 3.612], "charge_constant_voltage_time": [0, 90, 1500], "charge_rest_time": [0, 1439, 1440, 3000, 6001], "discharge_cutoff_voltage": [2.5, 3], "discharge_rest_time": [0, 60, 1441],
          "capacity_nominal": [1, 0.2, 3.71], "diagnostic_parameter_set": ["BJ-A1003335AA"], "diagnostic_start_cycle": [1, 120], "diagnostic_interval": [1, 250], "seq_num": [0, 999999, 1234567]}
DEVS = {
    "exp": {"cutoff_voltage": [4, 4.2], "charge_rate": [1, "2.0C"], "discharge_rate": [0.5, "1C"]},
    "reg": dict(COMMON, charge_constant_current_1=[1, 0.01, 1.6], charge_percent_limit_1=[80, 45.5, 1], charge_constant_current_2=[2, 3.333], discharge_constant_current=[2, 0.05]),
    "drive": dict(COMMON, charge_constant_current_1=[1, 0.01], charge_percent_limit_1=[80, 45.5], charge_constant_current_2=[3], discharge_profile=["LA4"], profile_charge_limit=[4.1], max_profile_power=[33, 40.4], n_repeats=[1, 3], power_scaling=[1, 0.27]),
    "rapid": dict(COMMON, charge_start_soc=[0.01, 0.1], charge_current_param_1=[0.8, 2.2], charge_current_param_2=[1.2], charge_current_param_3=[0.7, 2.0], charge_current_param_4=[0.21, 0.9], charge_soc_param_1=[0.3], charge_soc_param_2=[0.2, 0.7], charge_voltage_offset_1=[0.002, 0.05], charge_fast_soc_limit=[0.7]),
    "form": {k: [v * 1.5 if isinstance(v, float) else v + 1] for k, v in FORM.items()},
}
DEVS["form"]["seq_num"] = [77]
DEVS["form"]["mid_cycle_reps"] = [1, 2, 10]
DEVS["form"]["initial_charge_current_1"] = [0.05, 0.123456]
CLASS = {"v2": "reg", "v3": "reg", "v4": "reg", "step": "rapid"}


def devs(kind):
    return [(k, v) for k, vs in DEVS[CLASS.get(kind, kind)].items() for v in vs]


def cases(tier):
    t = tier == "thorough"
    good = [k for k in KINDS if k not in BAD]
    for k in KINDS:
        for o in (0, 1):
            yield {"runs": [[[k, 100, []]]], "o": o}
    for k in good:
        for d in devs(k):
            yield {"runs": [[[k, 100, [list(d)]]]], "o": 0}
        if t and k not in ("rapid", "step", "drive"):
            for a, b in itertools.combinations(devs(k), 2):
                if a[0] != b[0] and k in ("exp", "v2", "v3", "form"):
                    yield {"runs": [[[k, 100, [list(a), list(b)]]]], "o": 0}
    for a, b in itertools.product(KINDS, repeat=2):
        yield {"runs": [[[a, 100, []], [b, 101, []]]], "o": 0}
        if KINDS[a][1] != KINDS[b][1]:
            yield {"runs": [[[a, 100, []], [b, 100, []]]], "o": 0}
    for k in good:
        ds = devs(k)
        for d in ds if t else ds[::2]:
            if d[0] != "seq_num":
                yield {"runs": [[[k, 7, [list(d)]], [k, 8, []]]], "o": 0}
                if k == "drive" or t:
                    yield {"runs": [[[k, 7, []]], [[k, 8, [list(d)]]]], "o": 1}
    for a, b in itertools.product(good if t else ("drive", "rapid", "v3", "form"), repeat=2):
        yield {"runs": [[[a, 5, []]], [[b, 6, []]]], "o": 0}
    # drive rows whose waveforms go by one name but differ, in one table and over several runs
    one = [[], [["profile_charge_limit", 4.1]], [["discharge_cutoff_voltage", 2.5]], [["profile_charge_limit", 4.1], ["discharge_cutoff_voltage", 2.5]]]
    for c in itertools.permutations(range(4), 3) if t else ((0, 1, 2), (2, 3, 1), (1, 0, 3)):
        rows = [["drive", 20 + n, one[i]] for n, i in enumerate(c + c[:1])]
        yield {"runs": [rows], "o": 0}
        yield {"runs": [[x] for x in rows], "o": 1}
    for k in ("v3", "drive", "v4", "v2"):
        for n in (1, 94, 95, 96, 97):
            yield {"runs": [[["txt", 1000 + i, []] for i in range(n)] + [[k, 5, []]]], "o": 0}
    if t:
        for c in itertools.product(("exp", "v2", "v3", "drive", "rapid", "form", "sdu", "nofile", "none"), repeat=3):
            yield {"runs": [[[k, 10 + i, []] for i, k in enumerate(c)]], "o": 0}


def row_of(spec):
    kind, seq, ds = spec
    template, project, base = KINDS[kind]
    row = dict(base, project_name=project, seq_num=seq, template=template)
    row.update({k: v for k, v in ds})
    return row


# ---- reading protocols back, independently of the library


def txt(e):
    return (e.text or "").strip()


def read_proc(path):
    root = ET.parse(path).getroot()
    head = [(e.tag, txt(e)) for e in root.find("header").iter()]
    steps = []
    for s in root.find("ProcSteps"):
        d = {}
        for c in s:
            if c.tag == "Limits":
                for e in c:
                    d["lim." + e.tag] = txt(e)
            elif c.tag in ("Ends", "Reports"):
                for i, e in enumerate(c):
                    for x in e:
                        d["%s.%d.%s" % (c.tag, i, x.tag)] = txt(x)
            else:
                d[c.tag] = txt(c)
        steps.append(d)
    return head, steps


def read_mps(path):
    lines = open(path, "rb").read().decode("latin-1").replace("\r\n", "\n").split("\n")
    out = {}
    for n, l in enumerate(lines):
        if n < 25 or len(l) < 40 or " : " in l:
            out[n] = l.rstrip()
        else:
            for k in range(20, len(l), 20):
                out[(l[:20].strip(), k // 20)] = l[k:k + 20].strip()
    return out


def hms(v):
    h, m, s = v.split(":")
    return int(h) * 3600 + int(m) * 60 + int(s)


def close(a, b, tol):
    try:
        return abs(float(a) - float(b)) <= tol
    except (TypeError, ValueError):
        return str(a) == str(b)


def timed(a, b):
    try:
        return abs(hms(a) - b) <= 1
    except ValueError:
        return False


def diagset(name, repo):
    with open(os.path.join(repo, "beep/protocol/procedure_templates/PreDiag_parameters - DP.csv")) as f:
        for r in csv.DictReader(f):
            if r["diagnostic_parameter_set"] == name:
                return {k: float(v) for k, v in r.items() if k not in ("diagnostic_type", "diagnostic_parameter_set")}


class Want(dict):
    """Overrides of a template: (step, field) -> (kind, value)."""

    def v(self, i, x, tol=5.1e-4):
        self[(i, "StepValue")] = ("n", x, tol)

    def lim(self, i, k, x):
        self[(i, "lim." + k)] = ("n", x, 5.1e-4)

    def end(self, i, j, x, tol=5.1e-4):
        self[(i, "Ends.%d.Value" % j)] = ("n", x, tol)

    def time(self, i, x):
        self[(i, "Ends.0.Value")] = ("t", x, None)


def want_regular(w, kind, r, pos):
    c = r["capacity_nominal"]
    w.v(1, c)
    rapid = kind in ("rapid", "step")
    for a in (28, 60):
        if not rapid:
            w.v(a, r["charge_constant_current_1"] * c)
            w.time(a, 3600 * r["charge_percent_limit_1"] / 100 / r["charge_constant_current_1"])
            if kind != "v2":
                w.end(a, 1, r["charge_cutoff_voltage"])
        w.v(a + 1, (r["charge_current_param_4"] if rapid else r["charge_constant_current_2"]) * c)
        w.end(a + 1, 0, r["charge_cutoff_voltage"])
        w.v(a + 2, r["charge_cutoff_voltage"])
        w.time(a + 2, 60 * r["charge_constant_voltage_time"])
        w.time(a + 3, 60 * r["charge_rest_time"])
    for a, n in ((32, "diagnostic_start_cycle"), (64, "diagnostic_interval")):
        if kind != "drive":
            w.v(a, r["discharge_constant_current"] * c)
            w.end(a, 0, r["discharge_cutoff_voltage"])
        w.time(a + 1, 60 * r["discharge_rest_time"])
        w[(a + 3, "Ends.0.Value")] = ("s", str(r[n]), None)
    s = 69 if kind == "v2" else 93
    w.v(s, 0.5 * c)
    w.lim(s, "Voltage", r["discharge_cutoff_voltage"])
    w.end(s, 0, 0.05 * c)
    w.v(s + 1, 0.5 * c)
    w.time(s + 1, 720)
    if kind != "v2":
        w.time(0, 3 * 3600 + 720 * (pos % 96))


def want_diag(w, kind, c, d):
    three = kind != "v2"
    for a in (4, 37) + ((70,) if three else ()):
        w.v(a, c * d["reset_cycle_current"], 5.1e-5)
        w.lim(a, "Voltage", d["diagnostic_charge_cutoff_voltage"])
        w.end(a, 0, c * d["reset_cycle_cutoff_current"], 5.1e-5)
        w.v(a + 1, c * d["reset_cycle_current"], 5.1e-5)
        w.end(a + 1, 0, d["diagnostic_discharge_cutoff_voltage"])
    b = d["HPPC_baseline_constant_current"]
    lo, hi, cut = d["diagnostic_discharge_cutoff_voltage"], d["diagnostic_charge_cutoff_voltage"], c * d["diagnostic_cutoff_current"]
    for a in (8, 40) + ((74,) if three else ()):
        w.v(a, c * b)
        w.lim(a, "Voltage", hi)
        w.end(a, 0, cut)
        w.time(a + 2, 60 * d["HPPC_rest_time"])
        w.v(a + 3, c * d["HPPC_pulse_current_1"])
        w.time(a + 3, d["HPPC_pulse_duration_1"])
        w.end(a + 3, 1, lo)
        w.time(a + 4, d["HPPC_pulse_rest_time"])
        w.v(a + 5, c * d["HPPC_pulse_current_2"])
        w.time(a + 5, d["HPPC_pulse_duration_2"])
        w.end(a + 5, 1, d["HPPC_pulse_cutoff_voltage"])
        w.v(a + 6, c * b)
        w.time(a + 6, 3600 * d["HPPC_interval"] / 100 / b - 1)
        w.end(a + 6, 1, lo)
        w.v(a + 8, lo)
        w.lim(a + 8, "Current", c * b)
        w.end(a + 8, 0, cut)
    for a in (18, 50) + ((84,) if three else ()):
        for i in (0, 1, 2):
            w.v(a + 3 * i, c * d["RPT_charge_constant_current"])
            w.lim(a + 3 * i, "Voltage", hi)
            w.end(a + 3 * i, 0, cut)
            w.v(a + 3 * i + 1, c * d["RPT_discharge_constant_current_%d" % (i + 1)])
            w.end(a + 3 * i + 1, 0, lo)


def check_proc(out, path, kind, r, pos, repo, folder):
    head0, steps0 = read_proc(os.path.join(repo, "beep/protocol/procedure_templates", r["template"]))
    head, steps = read_proc(path)
    if not out.expect(head == head0 and len(steps) == len(steps0), "procedure-structure", "%s: header or number of steps differs from the template" % path):
        return
    w = Want()
    if kind == "exp":
        for i, s in enumerate(steps0):
            if s["StepType"] == "Charge" and "lim.Voltage" in s:
                w.lim(i, "Voltage", r["cutoff_voltage"])
        w.v(5, r["charge_rate"], 1e-9)
        w.v(6, r["discharge_rate"], 1e-9)
    else:
        want_regular(w, kind, r, pos)
        want_diag(w, kind, r["capacity_nominal"], diagset(r["diagnostic_parameter_set"], repo))
    waves = {"drive": (32, 64), "rapid": (28, 60), "step": (28, 60)}.get(kind, ())
    for i, (s0, s) in enumerate(zip(steps0, steps)):
        exp = dict(s0)
        if i in waves:
            exp = {k: v for k, v in exp.items() if not k.startswith(("Ends.", "Reports.")) and k != "StepValue"}
            exp.update(StepType="FastWave", StepMode="", Range="", Option1="", Option2="", Option3="")
            name = s.pop("StepValue", "")
            out.expect(0 < len(name) < 25, "waveform-name", "step %d refers to waveform %r" % (i + 1, name))
            mwf = os.path.join(folder, "mwf_files", name + ".MWF")
            if out.expect(os.path.isfile(mwf), "waveform-missing", "step %d of %s refers to %r, which was not written" % (i + 1, path, name)):
                check_wave(out, mwf, kind, r, repo)
        if not out.expect(set(exp) == set(s), "step-shape", "step %d: fields %s" % (i + 1, sorted(set(exp) ^ set(s)))):
            continue
        for k, v in exp.items():
            o = w.get((i, k))
            ok = s[k] == v if o is None else timed(s[k], o[1]) if o[0] == "t" else s[k] == o[1] if o[0] == "s" else close(s[k], o[1], o[2] + 1e-9)
            out.expect(ok, "step-%d-%s" % (i + 1, k), "%s (%s, row %d): step %d %s is %r, expected %s" % (os.path.basename(path), kind, pos, i + 1, k, s[k], repr(v) if o is None else o[1]))


CFG = {"control_mode": "P", "discharge_limit_mode": "V", "discharge_limit_value": 2.7, "charge_limit_mode": "V", "charge_end_mode": "V", "charge_end_operation": ">=", "discharge_end_mode": "V", "discharge_end_operation": "<=", "report_mode": "T", "report_value": 3.0, "range": "A"}
DONE = {}


def check_wave(out, path, kind, r, repo):
    rows = wave.read(path)
    c = r["capacity_nominal"]
    if kind == "drive":
        cfg = dict(CFG, value_scale=r["max_profile_power"] * r["power_scaling"], charge_limit_value=r["profile_charge_limit"], charge_end_mode_value=r["profile_charge_limit"] + 0.05, discharge_end_mode_value=r["discharge_cutoff_voltage"] - 0.1)
        f = os.path.join(repo, "beep/protocol/protocol_schemas", r["discharge_profile"] + "_velocity_waveform.txt")
        if f not in DONE:
            d = [x.split() for x in open(f).read().strip().split("\n")[1:]]
            DONE[f] = wave.power([float(x[0]) for x in d], [float(x[1]) for x in d], "mph")
        msg = wave.compare(rows, wave.samples(DONE[f] * r["n_repeats"], "P", cfg), cfg, 2e-5)
        out.expect(msg is None, "drive-waveform", "%s for row %r: %s" % (os.path.basename(path), {k: r[k] for k in ("discharge_profile", "max_profile_power", "power_scaling", "profile_charge_limit", "n_repeats", "discharge_cutoff_voltage")}, msg))
        return
    out.expect(os.path.basename(path) == "%s_%s_%d.MWF" % (r["project_name"], r["charge_type_1"], r["seq_num"]), "charge-waveform-name", path)
    lim = r["charge_cutoff_voltage"] - r["charge_voltage_offset_1"]
    for n, x in enumerate(rows):
        if not out.expect(x[:2] == ["C", "I"] and x[3] == "V" and close(x[4], lim, 1e-9) and x[6:8] == ["V", ">="] and close(x[8], 4.25, 1e-9) and x[9] == "T" and x[11] == "A", "charge-waveform-limits", "%s row %d: %r, limit %s expected" % (path, n, x, lim)):
            return
    cur = [float(x[2]) / c for x in rows for _ in range(int(x[5]))]
    pts = [r["charge_start_soc"], r["charge_soc_param_1"], r["charge_soc_param_2"], r["charge_fast_soc_limit"]]
    rates = [r["charge_current_param_%d" % i] for i in (1, 2, 3)]
    total = sum((b - a) / x * 3600 for a, b, x in zip(pts, pts[1:], rates))
    out.expect(abs(len(cur) - total) <= 0.01 * total + 5, "charge-waveform-duration", "%s lasts %d s, windows take %.0f s" % (path, len(cur), total))
    got = sum(cur) / 3600
    out.expect(abs(got - (pts[-1] - pts[0])) <= 0.01, "charge-waveform-charge", "%s charges %.4f of the capacity, %.4f requested" % (path, got, pts[-1] - pts[0]))
    out.expect(max(cur) <= 3.0 + 1e-5 and min(cur) > 0, "charge-waveform-range", "%s: c-rates %.3f to %.3f" % (path, min(cur), max(cur)))
    if kind == "step":
        t = 0.0
        for a, b, x in zip(pts, pts[1:], rates):
            n = (b - a) / x * 3600
            lo, hi = int(t + 0.1 * n + 5), int(t + 0.9 * n - 5)
            out.expect(all(abs(y - x) <= 2e-5 / min(c, 1) for y in cur[lo:hi]), "charge-waveform-step", "%s: c-rates in window %s to %s are not %s" % (path, a, b, x))
            t += n


def check_mps(out, path, r, repo):
    a, b = read_mps(os.path.join(repo, "beep/protocol/biologic_templates/formationV1.mps")), read_mps(path)
    if not out.expect(set(a) == set(b), "settings-structure", path):
        return
    c = r["capacity_nominal"]
    w = {("ctrl1_val", 2): c * r["initial_charge_current_1"], ("lim1_value", 2): r["initial_charge_voltage_1"], ("ctrl1_val", 3): r["initial_charge_voltage_1"], ("lim1_value", 3): r["initial_charge_cvhold_1"], ("lim1_value", 4): r["initial_charge_rest_1"],
         ("ctrl1_val", 5): c * r["initial_charge_current_2"], ("lim1_value", 5): r["initial_charge_voltage_2"], ("ctrl1_val", 6): r["initial_charge_voltage_2"], ("lim1_value", 6): r["initial_charge_cvhold_2"], ("lim1_value", 7): r["initial_charge_rest_2"],
         ("ctrl1_val", 8): c * r["initial_discharge_current_1"], ("lim1_value", 8): r["initial_discharge_voltage_1"], ("ctrl1_val", 9): c * r["mid_charge_current_1"], ("lim1_value", 9): r["mid_charge_voltage_1"],
         ("ctrl1_val", 10): c * r["mid_discharge_current_1"], ("lim1_value", 10): r["mid_discharge_voltage_1"], ("ctrl_repeat", 11): r["mid_cycle_reps"] - 1, ("ctrl1_val", 12): c * r["final_charge_current_1"], ("lim1_value", 12): r["final_charge_voltage_1"],
         ("ctrl1_val", 13): c * r["final_discharge_current_1"], ("lim1_value", 13): r["final_discharge_voltage_1"], ("ctrl1_val", 14): r["final_discharge_voltage_1"], ("lim1_value", 14): r["final_discharge_cvhold_1"]}
    for k in a:
        out.expect(close(b[k], w[k], 5.1e-4) if k in w else a[k] == b[k], "settings-%s" % (k if isinstance(k, int) else "%s-%d" % k).__str__().replace(" ", "_"), "%s: %s is %r, expected %r" % (os.path.basename(path), k, b[k], w.get(k, a[k])))


def digest(folder):
    return {f: hashlib.sha1(open(os.path.join(folder, f), "rb").read()).hexdigest() for f in sorted(os.listdir(folder)) if os.path.isfile(os.path.join(folder, f))}


def run_case(case, out):
    import beep.protocol.generate_protocol as g
    repo = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(g.__file__))))
    tpl = os.path.join(repo, "beep/protocol/procedure_templates")
    before = digest(tpl)
    with tempfile.TemporaryDirectory() as tmp:
        folder = os.path.join(tmp, ["out", "run.1/out"][case["o"]])
        os.makedirs(folder)
        todo = []
        for n, table in enumerate(case["runs"]):
            rows = [row_of(s) for s in table]
            cols = []
            for r in rows:
                cols += [k for k in r if k not in cols]
            src = os.path.join(tmp, "table%d_parameters.csv" % n)
            with open(src, "w", newline="") as f:
                wr = csv.DictWriter(f, cols)
                wr.writeheader()
                wr.writerows(rows)
            text = open(src).read()
            try:
                with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
                    warnings.simplefilter("ignore")
                    files, failures, result, message = g.generate_protocol_files_from_csv(src, output_directory=folder)
                out.call()
            except Exception as e:
                out.bad("raised-%s" % type(e).__name__, "table %s: %s: %s" % (table, type(e).__name__, e))
                continue
            out.expect(open(src).read() == text, "table-changed", "the parameter table was modified")
            want, fails = [], []
            for pos, (s, r) in enumerate(zip(table, rows)):
                if s[0] in BAD:
                    fails.append((r["template"], BAD[s[0]]))
                else:
                    want.append(os.path.join(folder, "settings" if s[0] == "form" else "procedures", "%s_%06d.%s" % (r["project_name"], r["seq_num"], "mps" if s[0] == "form" else "000")))
                    todo.append((want[-1], s[0], r, pos))
            out.expect([os.path.abspath(f) for f in files] == want, "files", "reported %s, expected %s" % (files, want))
            out.expect(len(failures) == len(fails) and all(f["error"] == e and (e != "Not Found" or t in f["comment"]) for f, (t, e) in zip(failures, fails)), "failures", "reported %s, expected %s" % (failures, fails))
            out.expect(result == ("error" if fails else "success"), "result", "result %r with %d failures" % (result, len(fails)))
            out.expect(message["comment"] == "Generated %d of %d protocols" % (len(want), len(rows)) and message["error"] == ("Failed to generate %d of %d protocols" % (len(fails), len(rows)) if fails else ""), "message", repr(message))
            names = [x for x in os.listdir(os.path.join(folder, "names")) if x.startswith("table%d_names_" % n)]
            if out.expect(len(names) == 1, "names-file", "names files %s" % names):
                got = open(os.path.join(folder, "names", names[0])).read().split()
                out.expect(got == [os.path.splitext(os.path.basename(f))[0] + "_" for f in want], "names", "names file lists %s for %s" % (got, want))
            out.nontrivial = out.nontrivial or bool(want)
        have = sorted(os.path.join(folder, d, f) for d in ("settings", "procedures") for f in os.listdir(os.path.join(folder, d)))
        out.expect(have == sorted({t[0] for t in todo}), "folder", "folder holds %s" % have)
        last = {t[0]: t for t in todo}
        for path, kind, r, pos in last.values():
            if os.path.isfile(path):
                if kind == "form":
                    check_mps(out, path, r, repo)
                else:
                    check_proc(out, path, kind, r, pos, repo, folder)
            out.see(kind, pos % 96, os.path.basename(path), len(case["runs"]))
    out.expect(digest(tpl) == before, "templates-changed", "the stored templates were modified")

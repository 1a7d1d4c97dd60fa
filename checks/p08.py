"""P08 - Maccor ingestion."""
import itertools
import os
import tempfile

from vmc import rawgen as g

PROPERTY = "P08"
RULE = "every sequence of <=4 step runs over states x cycle advances x run lengths, x header/timestamp/status/extension deviations"
ASSUMPTIONS = ["a step run ends with an end-of-step status and is followed by a different step number (what Maccor writes)",
               "local times are US/Pacific; ambiguous hours are daylight time (documented)"]
BOUNDS = {"quick": "4 states, <=4 runs, all cycle advances; 16 deviations on 6 records",
          "thorough": "<=5 runs; all pairs of deviations on 10 records"}
COLS = ("Rec# Cyc# Step|Test (Sec)|Step (Sec)|Amp-hr Watt-hr Amps Volts State ES|DPt Time|Loop1 Loop2 Loop3 Loop4 ACImp/Ohms DCIR/Ohms|"
        "WF Chg Cap|WF Dis Cap|WF Chg E|WF Dis E|Range VAR1 VAR2 VAR3 VAR4 VAR5 VAR6 VAR7 VAR8 VAR9 VAR10 VAR11 VAR12 VAR13 VAR14 VAR15")
HEAD = []
for part in COLS.split("|"):
    HEAD += [part] if "(" in part or part.startswith(("WF", "DPt")) else part.split(" ")
DEFAULT = {"lens": [2, 3, 2, 2, 2], "es": [133, 128, 255, 200, 130], "mid": 1, "time": 0, "ext": "070", "project": "PreDiag_000001",
           "barcode": "0001BC", "last_end": False, "steps": "seq", "cyc0": 0, "sep": " "}
DEVS = [("lens", [1, 1, 1, 1, 1]), ("lens", [3, 1, 2, 1, 3]), ("es", [129] * 5), ("mid", 127), ("mid", 0), ("time", 1), ("time", 2), ("time", 3), ("time", 4), ("time", 5), ("time", 6), ("time", 7),
        ("ext", "000"), ("ext", "txt"), ("project", "2017-12-04_xTESLADIAG_000019"), ("barcode", "EL 1-2 / x"), ("last_end", True),
        ("steps", "big"), ("steps", "back"), ("steps", "loop"), ("cyc0", 7), ("sep", "\t")]
# start times (local, UTC offset hours)
TIMES = [("07/04/2020 10:00:00", 7), ("01/15/2020 23:59:58", 8), ("11/01/2020 01:30:00", 7), ("12/31/2019 23:59:59", 8),
         # records that span a change of the clocks (rows six hours apart)
         ("03/07/2020 21:00:00", None), ("10/31/2020 21:00:00", None), ("03/09/2019 15:00:00", None), ("11/02/2019 03:00:00", None)]


def offset(dt):
    """US/Pacific, hours behind UTC (daylight time from the second Sunday of March, first Sunday of November)."""
    import datetime
    d = datetime.datetime
    spring = d(dt.year, 3, 8, 2)
    spring += datetime.timedelta(days=(6 - spring.weekday()) % 7)
    autumn = d(dt.year, 11, 1, 2)
    autumn += datetime.timedelta(days=(6 - autumn.weekday()) % 7)
    return 7 if spring <= dt < autumn else 8


def cases(tier):
    t = tier == "thorough"
    for n in range(1, 6 if t else 5):
        for states in itertools.product("CDRW", repeat=n):
            for adv in itertools.product([0, 1], repeat=n - 1):
                yield {"states": "".join(states), "adv": list(adv), "cfg": DEFAULT}
    recs = [("CDR", [0, 0]), ("CDCD", [0, 1, 0]), ("RCD", [1, 1]), ("CWDC", [0, 0, 1]), ("D", []), ("CCDD", [0, 1, 1])]
    if t:
        recs += [("WDWC", [0, 1, 0]), ("RRCD", [0, 0, 0]), ("C", []), ("DCRD", [1, 0, 1])]
    for k in (1, 2):
        for devs in itertools.combinations(DEVS, k):
            if len({d[0] for d in devs}) < k:
                continue
            for s, a in recs if (k == 1 or t) else recs[1:4:2]:
                yield {"states": s, "adv": a, "cfg": dict(DEFAULT, **dict(devs))}
    # realistic length: many runs and cycles, step numbers of three digits
    for k, n in enumerate((60, 130, 200)):
        for time in (0, 4 + k):
            for ln in (DEFAULT["lens"], [1, 2, 1]):
                st = "".join("CRDWCD"[i * (k + 1) % 6] for i in range(n))
                yield {"states": st, "adv": [1 if i % 4 == 2 else 0 for i in range(n - 1)],
                       "cfg": dict(DEFAULT, lens=ln, time=time, steps=("loop", "big", "back")[k], cyc0=(0, 95, 7)[k], sep="\t")}
    from checks.p09 import DIRS
    for d in DIRS:
        for ext in ("071", "092", "txt"):
            yield {"states": "CDR", "adv": [0, 1], "cfg": dict(DEFAULT, ext=ext, dir=d)}
    yield {"eis": 1}


def stamp(base, secs):
    import datetime
    return datetime.datetime.strptime(base, "%m/%d/%Y %H:%M:%S") + datetime.timedelta(seconds=secs)


def build(case):
    """(lines, expected rows)"""
    import datetime
    cfg = case["cfg"]
    base, off = TIMES[cfg["time"]]
    lines, rows = [], []
    t = 0.0
    cyc = cfg["cyc0"]
    acc = {"charge_capacity": 0.0, "discharge_capacity": 0.0, "charge_energy": 0.0, "discharge_energy": 0.0}
    rec = 41
    n = len(case["states"])
    wf_file = "W" in case["states"]
    for i, s in enumerate(case["states"]):
        if i and case["adv"][i - 1]:
            cyc += 1
            acc = dict.fromkeys(acc, 0.0)
        m = cfg["lens"][i % len(cfg["lens"])]
        own = dict.fromkeys(acc, 0.0)
        for k in range(m):
            q = 0.125 * (k + 1) * (i + 1)
            e = 0.5 * q + 0.25
            own = dict.fromkeys(acc, 0.0)
            wf = ["N/A"] * 4
            if s == "C":
                own["charge_capacity"], own["charge_energy"] = q, e
            elif s == "D":
                own["discharge_capacity"], own["discharge_energy"] = q, e
            elif s == "W":
                own = {"charge_capacity": q / 4, "discharge_capacity": q / 2, "charge_energy": e / 4, "discharge_energy": e / 2}
                wf = [repr(own[x]) for x in ("charge_capacity", "discharge_capacity", "charge_energy", "discharge_energy")]
            last = k == m - 1
            es = cfg["es"][i % len(cfg["es"])] if last and (i < n - 1 or cfg["last_end"]) else cfg["mid"]
            dt = stamp(base, t)
            local = dt.strftime("%m/%d/%Y %H:%M:%S")
            if local.endswith(" 00:00:00") and cfg["time"] in (1, 3):
                local = local[:10]      # Maccor drops the time of a stamp written at midnight
            step = {"seq": i + 1, "big": 60 + 3 * i, "back": 250 - i, "loop": 2 + i % 3}[cfg["steps"]]
            amps, volts = 0.5 * (i + 1) if s != "R" else 0.0, 3.0 + 0.125 * k + 0.25 * i
            lines.append([rec, cyc, step, repr(t), repr(float(10 * k)), repr(q if s in "CD" else 0.0), repr(e if s in "CD" else 0.0),
                          repr(amps), repr(volts), s if s != "W" else "D", es, local, 0, 0, 0, 0, "0.5", "0.25"] + wf + [1] + ["0.0"] * 15)
            # ambiguous autumn hour counts as daylight time throughout these few seconds
            utc = dt + datetime.timedelta(hours=off if off is not None else offset(dt))
            r = {"data_point": rec, "cycle_index": cyc, "step_index": step, "test_time": t, "step_time": 10.0 * k, "current": amps,
                 "voltage": volts, "date_time_iso": utc.isoformat() + "+00:00", "internal_resistance": 0.25}
            for x in acc:
                r[x] = acc[x] + own[x]
            rows.append(r)
            rec += 1
            t += 1.0 if off is not None else 21600.0
        for x in acc:
            acc[x] += own[x]
    return lines, rows


def run_case(case, out):
    if "eis" in case:
        return run_eis(out)
    from beep.structure.maccor import MaccorDatapath
    from beep.structure.cli import auto_load

    cfg = case["cfg"]
    lines, rows = build(case)
    sep = cfg["sep"]
    header = ("Today's Date 10/10/2019  Date of Test:%s10/09/2019%s Filename:%sC:\\Users\\M T\\x.010 Procedure: Proto\\P_000109.000%sComment/Barcode: %s"
              % (sep, sep, sep, sep, cfg["barcode"]))
    with tempfile.TemporaryDirectory() as tmp:
        if "dir" in cfg:
            os.makedirs(os.path.join(tmp, cfg["dir"]))
            tmp = os.path.join(tmp, cfg["dir"])
        fn = os.path.join(tmp, "%s_000123.%s" % (cfg["project"], cfg["ext"]))
        text = header + "\n" + "\t".join(HEAD) + "\n" + "".join("\t".join(map(str, l)) + "\n" for l in lines)
        open(fn, "w").write(text)
        out.call()
        dp = MaccorDatapath.from_file(fn) if cfg["ext"] == "txt" else auto_load(fn)
        out.expect(type(dp) is MaccorDatapath, "class", str(type(dp)))
        out.expect(open(fn).read() == text, "file-changed", "the export was modified")
    df = dp.raw_data
    out.see(g.frame_digest(df[[c for c in rows[0]]], 6))
    if not out.expect(len(df) == len(rows), "rows", "%d rows from %d lines" % (len(df), len(rows))):
        return
    for i, (got, want) in enumerate(zip(df.to_dict("records"), rows)):
        for k, v in want.items():
            ok = got[k] == v if isinstance(v, (str, int)) else abs(got[k] - v) <= 1e-6
            if not out.expect(ok, "value:" + k, lambda: "line %d (cycle %s step %s): %s is %r, expected %r" % (i, want["cycle_index"], want["step_index"], k, got[k], v)):
                return
    m = dp.metadata
    want = {"barcode": cfg["barcode"], "protocol": "Proto\\P_000109.000", "channel_id": int(cfg["ext"]) if cfg["ext"].isdigit() else None}
    got = {"barcode": m.barcode, "protocol": m.protocol, "channel_id": m.channel_id}
    out.see(sorted(map(str, got.items())))
    out.expect(got == want, "metadata", lambda: "metadata %s, expected %s" % (got, want))
    out.expect(m.raw.get("start_datetime") == "10/09/2019" and m.raw.get("filename") == "C:\\Users\\M T\\x.010", "metadata-raw", lambda: str(m.raw))
    out.expect(dp.paths.get("raw") == fn, "paths", str(dp.paths))
    out.expect(dp.schema and os.path.basename(dp.schema).startswith("schema-maccor"), "schema", str(dp.schema))


EIS = """MACCOR, INC.    AC Impedance Test
Frequency Sweep:   Open Circut Voltage
EIS method %d
name%d
Line 4
Line 5
Start Date:  Wednesday, November 2, 2016 Start Time:   15:5%d
Line 7
0.0005  2  0 %d

Freq(Hz)\tPolar(V)\tZ'(a)
"""


def run_eis(out):
    from beep.structure.maccor import MaccorDatapath

    case = {"states": "CD", "adv": [0], "cfg": DEFAULT}
    lines, rows = build(case)
    for n in (0, 1, 2):
        for explicit in (False, True):
            with tempfile.TemporaryDirectory() as tmp:
                fn = os.path.join(tmp, "PreDiag_000001_00012.070")
                open(fn, "w").write("Today's Date 1 Date of Test: 2 Filename: f Procedure: p Comment/Barcode: b\n" + "\t".join(HEAD) + "\n"
                                    + "".join("\t".join(map(str, l)) + "\n" for l in lines))
                names = []
                for k in range(n):
                    en = os.path.join(tmp, "PreDiag_000001_00012.EDA%04d.070" % k)
                    open(en, "w").write(EIS % (k, k, k, k) + "".join("%d\t%d.5\t%d.25\n" % (10 * j, j, k) for j in range(k + 2)))
                    names.append(en)
                open(os.path.join(tmp, "PreDiag_000001_00013.EDA0000.070"), "w").write("other test\n")
                dp = MaccorDatapath.from_file(fn)
                if explicit and not names:
                    continue
                dp.load_eis(names if explicit else None)
                out.call(2)
                got = sorted((e.metadata["method"].strip(), e.metadata["start"], e.metadata["frequency_sweep"],
                              e.data["Freq(Hz)"].tolist(), e.data["Z'(a)"].tolist()) for e in dp.eis)
                want = sorted(("EIS method %d" % k, "2016-11-02T15:5%d:00" % k, "Open Circuit Voltage", [10 * j for j in range(k + 2)], [k + 0.25] * (k + 2))
                              for k in range(n))
                out.see(got)
                out.expect(got == want, "eis", lambda: "spectra %s, expected %s" % (got, want))
                out.expect(sorted(dp.paths.get("eis", [])) == sorted(names), "eis-paths", str(dp.paths))
                new = MaccorDatapath.from_dict(dp.as_dict())
                out.expect(new.paths.get("eis") == dp.paths["eis"], "eis-reload", str(new.paths))

"""P09 - Arbin, Indigo, Neware, Novonix and Battery Archive ingestion."""
import datetime
import itertools
import os
import tempfile

from vmc import rawgen as g

PROPERTY = "P09"
RULE = "per format: every sequence of step runs over states x cycle advances x run lengths x format variants"
ASSUMPTIONS = ["exports are laid out as the vendor writes them (columns per the conversion schemas)",
               "Novonix rest rows: capacity attribution not claimed; Novonix run time stays in hours and Indigo energy in joule, as exported"]
BOUNDS = {"quick": "<=3 runs over 3 (Novonix 4 of 7) states, run lengths 1 and 2, all cycle advances, all variants of each format",
          "thorough": "<=4 runs, run lengths 1-3, all 7 Novonix step types"}
CHUNK = 8
FORMATS = ["arbin", "indigo", "neware", "novonix", "ba"]
VARIANTS = {"arbin": ["plain", "nan-ir", "nometa", "project", "upper", "explicit"], "indigo": ["plain", "mixed", "idx", "two", "late"],
            "neware": ["plain", "ir-first-missing", "ir-missing", "dst"], "novonix": ["plain", "us", "colon", "crlf", "summary"],
            "ba": ["plain", "noenv", "tiny"]}
# folders whose names look like those of files of one cycler or another
DIRS = ["plain", "CHEM.csv", "x_CH7.csv.d", "lot20190513/run1234", "a_neware.csv", "FastCharge.csv", "old_timeseries.csv", "lab.h5", "my_Cells.txt", "RICH_CHEN", "two words [1]", "m_xTESLADIAG.csv", "PreDiag_000123.071"]
# the project a file's name begins with -> the schema of its Arbin records
SCHEMAS = {"Iris": "nmc-phev", "xIris": "nmc-phev", "FastCharge": "lfp", "ClosedLoopOED": "lfp", "Talos": "18650-2170", "PriorLAMVal": "18650-2170", "LAMVal": "18650-2170",
           "PreDiag": "lfp", "Iris2": "lfp", "aIris": "lfp", "iris": "lfp", "LAM": "lfp", "Talos-1": "lfp", "2017-05-09": "lfp", "Unknown": "lfp"}
NOVO = {"C": 1, "D": 2, "R": 0, "K": 7, "H": 8, "E": 9, "V": 10}


def cases(tier):
    t = tier == "thorough"
    for n in range(1, 5 if t else 4):
        for f in FORMATS:
            alpha = ("CDRKHEV" if t and n < 4 else "CDKR") if f == "novonix" else "CDR"
            for states in itertools.product(alpha, repeat=n):
                for adv in itertools.product([0, 1], repeat=n - 1):
                    for lens in itertools.product([1, 2] if not t or n > 3 else [1, 2, 3], repeat=n):
                        vs = VARIANTS[f]
                        if n == 3 and not t and (f in ("neware", "novonix", "indigo") and lens not in ((1, 2, 1), (2, 1, 2), (2, 2, 2), (1, 1, 1))):
                            vs = vs[:1]
                        for v in vs:
                            yield {"f": f, "s": "".join(states), "adv": list(adv), "lens": list(lens), "v": v}
    if not t:
        for a, b in itertools.product("HEV", "CDRKHEV"):
            for adv in (0, 1):
                for s in (a + b, b + a):
                    yield {"f": "novonix", "s": s, "adv": [adv], "lens": [2, 2], "v": "plain"}
    # realistic length
    for f in FORMATS:
        for k, n in enumerate((40, 110)):
            st = "".join(("CDR", "CRDKR")[k][i % (3, 5)[k]] for i in range(n)).replace("K", "K" if f == "novonix" else "C")
            yield {"f": f, "s": st, "adv": [1 if i % (3, 5)[k] == (2, 4)[k] else 0 for i in range(n - 1)], "lens": [1 + (i * 7 + i // 3) % 3 for i in range(n)], "v": VARIANTS[f][0]}
    for f in FORMATS:
        yield {"f": f, "s": "CD", "adv": [0], "lens": [2, 2], "v": "auto"}
        for d in DIRS[0 if f != "novonix" else len(DIRS):]:
            for v in ["auto"] + VARIANTS[f]:
                yield {"f": f, "s": "CD", "adv": [0], "lens": [2, 2], "v": v, "dir": d}
    for p in SCHEMAS:
        for d in ("plain", "Talos_1", "xIris_CH1.csv"):
            for v in ("auto", "plain"):
                yield {"f": "arbin", "s": "CD", "adv": [0], "lens": [2, 2], "v": v, "dir": d, "p": p}


def rows_of(case, cyc0=1):
    """model: the measured rows"""
    rows, cyc, t, n = [], cyc0, 0.0, 0
    for i, s in enumerate(case["s"]):
        if i and case["adv"][i - 1]:
            cyc += 1
        for k in range(case["lens"][i]):
            sign = 0 if s == "R" else (1 if s in "CKH" else -1)
            rows.append({"n": n, "run": i, "state": s, "cyc": cyc, "k": k, "t": t, "st": 1.5 * k, "i": sign * 0.25 * (i + 1),
                         "v": 3.0 + 0.125 * k + 0.25 * i, "q": 0.125 * (k + 1) + 0.5 * i, "e": 0.375 * (k + 1) + 0.25 * i,
                         "T": 20.0 + n, "last": k == case["lens"][i] - 1})
            n += 1
            t += 1.5 if k < case["lens"][i] - 1 else 1.0
    return rows


def compare(out, df, want, tol=1e-5):
    cols = list(want[0])
    missing = [c for c in cols if c not in df.columns]
    if not out.expect(not missing, "columns", "missing %s in %s" % (missing, list(df.columns))):
        return
    out.see(g.frame_digest(df[cols], 5))
    if not out.expect(len(df) == len(want), "rows", "%d rows from %d measured lines" % (len(df), len(want))):
        return
    for i, (got, w) in enumerate(zip(df.to_dict("records"), want)):
        for k, v in w.items():
            x = got[k]
            if v is None:
                ok = x is None or x != x
            elif isinstance(v, str):
                ok = x == v
            else:
                ok = abs(x - v) <= tol * max(1.0, abs(v)) if k != "date_time" else abs(x - v) <= 1e-3
            if not out.expect(ok, "value:" + k, lambda: "row %d: %s is %r, expected %r" % (i, k, x, v)):
                return


EPOCH = 1587000123.25


def iso(dt):
    return dt.isoformat() + "+00:00"


def do_arbin(case, tmp, out):
    from beep.structure.arbin import ArbinDatapath
    rows = rows_of(case, 0)
    v = case["v"]
    head = "Data_Point,Test_Time,DateTime,Step_Time,Step_Index,Cycle_Index,Current,Voltage,Charge_Capacity,Discharge_Capacity,Charge_Energy,Discharge_Energy,dV/dt,Internal_Resistance,Temperature"
    text = "," + (head.upper() if v == "upper" else head) + "\n"
    want = []
    for r in rows:
        ch, d = r["i"] > 0, r["i"] < 0
        ir = "" if v == "nan-ir" and r["n"] % 2 else "0.0%d" % (r["n"] + 1)
        vals = [r["n"] + 1, r["t"], EPOCH + r["t"], r["st"], r["run"] + 1, r["cyc"], r["i"], r["v"], r["q"] if ch else 0, r["q"] if d else 0,
                r["e"] if ch else 0, r["e"] if d else 0, 0.01]
        text += ",".join([str(r["n"])] + [repr(x) for x in vals] + [ir, repr(r["T"])]) + "\n"
        w = dict(zip(["data_point", "test_time", "date_time", "step_time", "step_index", "cycle_index", "current", "voltage",
                      "charge_capacity", "discharge_capacity", "charge_energy", "discharge_energy"], vals[:-1]))
        w.update({"internal_resistance": float(ir) if ir else None, "temperature": r["T"],
                  "date_time_iso": iso(datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=EPOCH + r["t"]))})
        want.append(w)
    fn = os.path.join(tmp, case["p"] + "_000012_CH7.csv" if "p" in case else "PreDiag_1_CH7.csv" if v == "project" else "x_CH7.csv")
    open(fn, "w").write(text)
    mp = os.path.join(tmp, "elsewhere.csv") if v == "explicit" else fn[:-4] + "_Metadata.csv"
    if v != "nometa":
        open(mp, "w").write("test_id,device_id,iv_ch_id,first_start_datetime,schedule_file_name,item_id,%s\n9,140,7,1587000000,sched\\p.sdu,B-7,1\n"
                            % ("HAS_AUX" if v == "upper" else "has_aux"))
    out.call()
    dp = g.auto_load(fn) if case["v"] == "auto" else (ArbinDatapath.from_file(fn, metadata_path=mp) if v == "explicit" else ArbinDatapath.from_file(fn))
    compare(out, dp.raw_data, want)
    m = dp.metadata
    got = (m.barcode, m.protocol, m.channel_id, dp.paths.get("metadata"))
    out.expect(got == (("B-7", "sched\\p.sdu", 7, mp) if v != "nometa" else (None, None, None, None)), "metadata", str(got))
    sch = "schema-arbin-%s.yaml" % SCHEMAS.get(case.get("p"), "lfp")
    out.expect(os.path.basename(dp.schema) == sch, "schema", lambda: "%s is validated by %s, not by %s" % (os.path.basename(fn), dp.schema, sch))
    return ArbinDatapath, dp


def do_indigo(case, tmp, out):
    import h5py
    import numpy as np
    from beep.structure.indigo import IndigoDatapath
    v = case["v"]
    rows = rows_of(case)
    ints = {"cell_id": [], "experiment_count": [], "cycle_count": [], "half_cycle_count": [], "experiment_type": []}
    flo = {k: [] for k in ("time_s", "cell_coulomb_count_c", "cell_current_a", "cell_temperature_c", "cell_power_w", "cell_energy_j", "cell_voltage_v")}
    us, want = [], []
    half = 0
    prev = None
    base = 1587000123250000
    for r in rows:
        chg = r["state"] == "C"
        parity = 1 if chg else 0
        if half % 2 != parity or (prev is not None and r["cyc"] != prev):
            half += 1 if half % 2 != parity else 2
        prev = r["cyc"]
        ints["cell_id"].append(42 if not (v == "two" and r["n"] % 2) else 43)
        ints["experiment_count"].append(3)
        ints["cycle_count"].append(r["cyc"])
        ints["half_cycle_count"].append(half)
        ints["experiment_type"].append(1)
        sign = 1 if chg else -1
        flo["time_s"].append(r["t"])
        flo["cell_coulomb_count_c"].append(sign * r["q"] * 3600)
        cur = r["i"] or 0.125
        flo["cell_current_a"].append(cur)
        flo["cell_temperature_c"].append(r["T"])
        flo["cell_power_w"].append(1.0)
        flo["cell_energy_j"].append(sign * r["e"])
        flo["cell_voltage_v"].append(r["v"])
        us.append(base + int(r["t"] * 1e6) + (3600000000 if v == "late" and not us else 0))   # a clock set back after the first record
        want.append({"data_point": r["n"], "cycle_index": r["cyc"], "step_index": half, "current": cur, "voltage": r["v"], "temperature": r["T"],
                     "charge_capacity": r["q"] if chg else 0, "discharge_capacity": 0 if chg else r["q"],
                     "charge_energy": r["e"] if chg else 0, "discharge_energy": 0 if chg else r["e"],
                     "internal_resistance": r["v"] / cur, "system_time_us": us[-1],
                     "date_time_iso": iso(datetime.datetime(1970, 1, 1) + datetime.timedelta(microseconds=us[-1]))})
    fn = os.path.join(tmp, "cell.h5")
    order = list(ints) + ["system_time_us"] + list(flo)
    if v == "mixed":
        order = order[::-1]
    with h5py.File(fn, "w") as h:
        gr = h.create_group("time_series_data")
        gr["axis0"] = np.array([o.encode() for o in order])
        gr["axis1"] = np.arange(len(rows)) + (700 if v == "idx" else 0)
        names = [list(ints), ["system_time_us"], list(flo)]
        if v == "mixed":
            names = [x[::-1] for x in names]
        vals = [np.array([ints[k] for k in names[0]], dtype="int32").T, np.array([us], dtype="int64").T, np.array([flo[k] for k in names[2]], dtype="float32").T]
        for i in range(3):
            gr["block%d_items" % i] = np.array([o.encode() for o in names[i]])
            gr["block%d_values" % i] = vals[i]
    out.call()
    try:
        dp = g.auto_load(fn) if v == "auto" else IndigoDatapath.from_file(fn)
    except ValueError as e:
        out.see("refused")
        out.expect(v == "two" and len(rows) > 1, "refused", str(e))
        return None, None
    out.expect(v != "two" or len(rows) < 2, "two-cells", "file with two cells accepted")
    compare(out, dp.raw_data, want)
    out.expect(dp.metadata.raw["indigo_cell_id"] == 42 and dp.metadata.raw["start_datetime"] == min(want, key=lambda w: w["system_time_us"])["date_time_iso"], "metadata", str(dp.metadata.raw))
    return IndigoDatapath, dp


NEW_STEP = '"Cycle ID","Step ID","Step Name","DCIR(O)",'
NEW_REC = ["", "", "Record ID", "Time(h:min:s.ms)", "Voltage(V)", "Current(mA)", "Temperature(C)", "Capacity(mAh)", "Capacity Density(mAh/g)",
           "Capacitance_Chg(mAh)", "Capacitance_DChg(mAh)", "Engy_Chg(mWh)", "Engy_DChg(mWh)", "Realtime", "Min-T(C)", "Max-T(C)", "Avg-T(C)",
           "Power(mW)", "dQ/dV(mAh/V)", "dQm/dV(mAh/V.g)", "Energy(mWh)", "CmpEng(mWh/g)", "x", ""]


def do_neware(case, tmp, out):
    from beep.structure.neware import NewareDatapath
    v = case["v"]
    rows = rows_of(case)
    text = '"Cycle ID"\t,"Cap_Chg(mAh)",\n' + NEW_STEP + "\n" + ",".join('"%s"\t' % c if c else "" for c in NEW_REC) + "\n"
    start = datetime.datetime(2020, 4, 16, 10, 0, 0) if v != "dst" else datetime.datetime(2020, 1, 15, 23, 59, 58)
    off = 7 if v != "dst" else 8
    want, irs = [], []
    for r in rows:
        if r["n"] == 0 or r["cyc"] != rows[r["n"] - 1]["cyc"]:
            text += '"%d","1.0",\n' % r["cyc"]
        if r["k"] == 0:
            missing = (v == "ir-first-missing" and r["run"] == 0) or (v == "ir-missing" and r["run"] >= 1)
            ir = "\t-" if missing else "0.%02d" % (r["run"] + 5)
            text += ',"%d","step",%s,\n' % (r["run"] + 1, ir)
        irs.append(None if missing else float(ir))
        ch, d = r["i"] > 0, r["i"] < 0
        hh = 3600 * r["run"] * 13        # long steps: hours beyond 24
        st = r["st"] + hh
        ts = "%d:%02d:%06.3f" % (st // 3600, st % 3600 // 60, st % 60)
        dt = start + datetime.timedelta(seconds=int(r["t"]))
        text += ",,%d,%s,%r,%r,%r,0,0,%r,%r,%r,%r,\t%s,0,0,0,0,0,0,0,0,0,\n" % (
            r["n"] + 1, ts, r["v"], r["i"] * 1000, r["T"], r["q"] * 1000 if ch else 0.0, r["q"] * 1000 if d else 0.0,
            r["e"] * 1000 if ch else 0.0, r["e"] * 1000 if d else 0.0, dt.strftime("%m/%d/%Y %H:%M:%S"))
        want.append({"data_point": r["n"] + 1, "step_time": st, "voltage": r["v"], "current": r["i"], "temperature": r["T"], "cycle_index": r["cyc"],
                     "step_index": r["run"] + 1, "charge_capacity": r["q"] if ch else 0, "discharge_capacity": r["q"] if d else 0,
                     "charge_energy": r["e"] if ch else 0, "discharge_energy": r["e"] if d else 0,
                     "date_time_iso": iso(dt + datetime.timedelta(hours=off))})
    for i, w in enumerate(want):
        prev = [x for x in irs[:i + 1] if x is not None]
        nxt = [x for x in irs[i:] if x is not None]
        w["internal_resistance"] = prev[-1] if prev else (nxt[0] if nxt else None)
    fn = os.path.join(tmp, "a_neware.csv")
    open(fn, "w", encoding="ISO-8859-1").write(text)
    out.call()
    dp = g.auto_load(fn) if v == "auto" else NewareDatapath.from_file(fn)
    compare(out, dp.raw_data, want)
    tt = dp.raw_data["test_time"].tolist()
    for i in range(1, len(tt)):
        out.expect(tt[i] >= tt[i - 1], "test_time-back", str(tt))
        if rows[i]["run"] == rows[i - 1]["run"]:
            out.expect(abs(tt[i] - tt[i - 1] - (rows[i]["st"] - rows[i - 1]["st"])) < 1e-6, "test_time", str(tt))
    return NewareDatapath, dp


def do_novonix(case, tmp, out):
    from beep.structure.novonix import NovonixDatapath
    v = case["v"]
    rows = rows_of(case)
    desc = "Cell X: mass, Protocol at 10:30" if v == "colon" else "Enter description here..."
    text = "[Summary]\nNovonix HPC data file\nNovonix\nChannel: 01\nCell: Form-CH01.csv\nSerial Number: \nDescription: %s\nProtocol: P.pro1\nMass (g): 1.000\nCapacity (Ah): 0.24\nArea (cm2): 2.000\nDC Offset Voltage (V): 0.00000\nStarted: 2022-04-11 10:58:07 AM\nVersion: 2.2.1.6\n[End Summary]\n[Protocol]\nProtocol: other.pro\n[End Protocol]\n[Data]\n" % desc
    text += '"Date and Time,Cycle Number,Step Type,Run Time (h),Step Time (h),Current (A),Potential (V),Capacity (Ah),Temperature (°C),Circuit Temperature (°C),Energy (Wh),dVdt (I/h),dIdt (V/h),Step Number,Step position"\n'
    start = datetime.datetime(2022, 4, 11, 11, 59, 58)
    want = []
    for r in rows:
        dt = start + datetime.timedelta(seconds=int(r["t"]))
        fmt = "%m/%d/%Y %I:%M:%S %p" if v == "us" else "%Y-%m-%d %I:%M:%S %p"
        text += '"%s,%d,%d,%r,%r,%r,%r,%r,%r,%r,%r,0.0,0.0,%d,0"\n' % (
            dt.strftime(fmt), r["cyc"], NOVO[r["state"]], r["t"], r["st"], r["i"], r["v"], r["q"], r["T"], 23.5, r["e"], r["run"] + 1)
    chg = set("CKH")
    for r in rows:
        dt = start + datetime.timedelta(seconds=int(r["t"]))
        w = {"cycle_index": r["cyc"], "step_index": NOVO[r["state"]], "test_time": r["t"], "step_time": r["st"], "current": r["i"], "voltage": r["v"],
             "temperature": r["T"], "circuit_temperature": 23.5, "step_num": r["run"] + 1, "date_time_iso": dt.isoformat()}
        same = [x for x in rows if x["cyc"] == r["cyc"]]
        if r["state"] in chg:
            w.update(charge_capacity=r["q"], charge_energy=r["e"], discharge_capacity=None, discharge_energy=None, step_type="charge")
        else:
            w.update(charge_capacity=None, charge_energy=None, step_type="discharge")
            if r["state"] != "R":
                ref = [x for x in same if x["state"] in chg] or same
                w.update(discharge_capacity=max(x["q"] for x in ref) - r["q"], discharge_energy=max(x["e"] for x in ref) - r["e"])
            else:
                w.pop("step_type")
        want.append(w)
    fn = os.path.join(tmp, "nova.csv")
    if v == "crlf":
        text = text.replace("\n", "\r\n")
    open(fn, "w", encoding="utf-8", newline="").write(text)
    sp = None
    if v == "summary":
        sp = os.path.join(tmp, "s.csv")
        open(sp, "w").write(",Cycle,Qc\n0,1,0.5\n1,2,0.25\n")
    out.call()
    if v == "auto":
        try:
            g.auto_load(fn)
            out.bad("auto", "file with no known pattern loaded")
        except ValueError:
            pass
    dp = NovonixDatapath.from_file(fn, summary_path=sp)
    df = dp.raw_data
    cols = sorted({k for w in want for k in w})
    for i, w in enumerate(want):       # rest rows leave some columns unclaimed: compare row by row
        compare(out, df.iloc[[i]], [w]) if i < len(df) else None
    out.see(cols)
    out.expect(len(df) == len(want), "rows", "%d rows from %d lines" % (len(df), len(want)))
    m = dp.metadata.raw
    exp = {"channel": "01", "cell": "Form-CH01.csv", "barcode": None, "description": desc, "protocol": "P.pro1", "mass": "1.000",
           "nominal_capacity": "0.24", "area": "2.000", "offset_voltage_dc": "0.00000", "software_version": "2.2.1.6"}
    got = {k: m.get(k) for k in exp}
    out.expect(got == exp, "metadata", lambda: "metadata %s, expected %s" % (got, exp))
    out.expect(dp.external_summary == ({"Cycle": [1, 2], "Qc": [0.5, 0.25]} if sp else None), "summary", str(dp.external_summary))
    return NovonixDatapath, dp


def do_ba(case, tmp, out):
    from beep.structure.battery_archive import BatteryArchiveDatapath
    v = case["v"]
    rows = rows_of(case)
    head = "Date_Time,Test_Time (s),Cycle_Index,Current (A),Voltage (V),Charge_Capacity (Ah),Discharge_Capacity (Ah),Charge_Energy (Wh),Discharge_Energy (Wh)"
    head += ",Cell_Temperature (C)" if v == "noenv" else ",Environment_Temperature (C),Cell_Temperature (C)"
    text = head + "\n"
    want = []
    base = datetime.datetime(2020, 4, 16, 23, 59, 58, 250000)
    t0 = 0.0
    prev = None
    for r in rows:
        ch, d = r["i"] > 0, r["i"] < 0
        cur = r["i"] if v != "tiny" or r["i"] else (5e-7 if r["n"] % 2 else -5e-7)
        dt = base + datetime.timedelta(seconds=r["t"])
        vals = [r["t"], r["cyc"], cur, r["v"], r["q"] if ch else 0, r["q"] if d else 0, r["e"] if ch else 0, r["e"] if d else 0]
        text += ",".join([dt.strftime("%Y-%m-%d %H:%M:%S.%f")] + [repr(x) for x in vals] + ([] if v == "noenv" else ["15.0"]) + [repr(r["T"])]) + "\n"
        step = 2 if ch else 3 if d else 1
        if step != prev:
            t0, prev = r["t"], step
        w = dict(zip(["test_time", "cycle_index", "current", "voltage", "charge_capacity", "discharge_capacity", "charge_energy", "discharge_energy"], vals))
        w.update({"temperature": r["T"], "step_index": step, "step_time": r["t"] - t0, "date_time_iso": iso(dt)})
        want.append(w)
    fn = os.path.join(tmp, "S_timeseries.csv")
    open(fn, "w").write(text)
    out.call()
    dp = g.auto_load(fn) if v == "auto" else BatteryArchiveDatapath.from_file(fn)
    compare(out, dp.raw_data, want)
    return BatteryArchiveDatapath, dp


def run_case(case, out):
    with tempfile.TemporaryDirectory() as tmp:
        work = os.path.join(tmp, "cwd")
        os.mkdir(work)
        old = os.getcwd()
        os.chdir(work)
        try:
            home = os.path.join(tmp, case.get("dir", "."))
            os.makedirs(home, exist_ok=True)
            cls, dp = globals()["do_" + case["f"]](case, home if "dir" in case else tmp, out)
            out.expect(not os.listdir(work), "litter", "files left in the working directory")
        finally:
            os.chdir(old)
        if dp is not None:
            out.expect(type(dp) is cls, "class", str(type(dp)))
            out.expect(dp.paths.get("raw", "").startswith(tmp), "paths", str(dp.paths))

"""P30 - structuring parameters looked up from the project's parameter file and the record itself."""
import itertools
import os
import tempfile

from vmc import rawgen as g

PROPERTY = "P30"
RULE = "every record laid out by a diagnostic schedule (start, interval, length cut at every cycle, a final diagnostic run with its own step numbers or not) x every set of columns in the parameter file x every sequence number; non-trivial: all"
ASSUMPTIONS = ["a record that reaches the cycle at which its second diagnostic is scheduled runs it there; a final diagnostic comes after it and a complete first one, or in a record that ends before that cycle",
               "a final diagnostic with step numbers of its own is complete and within the last seven cycles",
               "regular cycles do not run the steps of a diagnostic cycle"]
BOUNDS = {"quick": "starts {1,2,4,6} x intervals {1,2,3} x every length up to three diagnostics x final diagnostic (none, 3 step numberings x 0-2 regular cycles before x 0-2 after x complete or cut) x 2 orders of steps; 32 column subsets x 6 names x 4 argument sets",
          "thorough": "starts 1-8, intervals 1-6, four diagnostics"}
CHUNK = 60
COUNTS = (4, 6, 3, 3, 2)
SHORT = (4, 5, 3, 3, 2)     # a later diagnostic with a pulse fewer
TYPES = ["reset", "hppc", "rpt_0.2C", "rpt_1C", "rpt_2C"]
FULL = ["capacity_nominal", "charge_cutoff_voltage", "discharge_cutoff_voltage", "diagnostic_type", "diagnostic_start_cycle", "diagnostic_interval", "diagnostic_parameter_set"]
ROWS = {1: (4.25, 3.5, 2.75, "HPPC+RPT", 2, 3, "set1"), 2: (4.5, 3.625, 2.5, "HPPC+RPT", 1, 2, "set2"), 7: (5.0, 4.25, 3.0, "HPPC", 2, 3, "set1"), 30: (1.125, 3.75, 2.875, "HPPC+RPT", 4, 1, "set30")}
NAMES = ["/PreDiag_000001_ch1.071", "/d/e/PreDiag_000002_x.072", "/PreDiagX_1/PreDiag_7.001", "/a/PreDiag_000030.002", "/a/PreDiag_000003.003", "/PreDiag_000001/Other_000001.004"]
ARGS = [{}, {"v_range": [2.0, 3.0], "resolution": 7, "nominal_capacity": 2.5, "full_fast_charge": 0.5}, {"v_range": None, "nominal_capacity": 0.25}, {"v_range": [0.0, 5.0], "resolution": 0, "full_fast_charge": 0}]


def cases(tier):
    t = tier == "thorough"
    for s, i in itertools.product(range(1, 9) if t else (1, 2, 4, 6), range(1, 7) if t else (1, 2, 3)):
        nd = 4 if t else 3
        total = 5 + s + (nd - 1) * 5 + (nd - 1) * i
        for n in range(1, total + 1):
            for o in (0, 1):
                yield {"k": "starts", "s": s, "i": i, "n": n, "fin": None, "o": o}
            for num, reg, trail, whole in itertools.product((0, 60, 120), (0, 1, 2), (0, 1, 2), (5, 3)):
                if n < 5 or whole == 3 and (trail or reg):
                    continue
                yield {"k": "starts", "s": s, "i": i, "n": n, "fin": [num, reg, trail, whole], "o": (n + reg + trail) % 2}
    for drop in itertools.chain.from_iterable(itertools.combinations(range(6), r) for r in range(7)):
        if len(drop) > 3 and not t and len(drop) < 6:
            continue
        for name in range(len(NAMES)):
            for a in range(len(ARGS)):
                yield {"k": "file", "drop": list(drop), "name": name, "a": a}
    for w in ("missing", "none", "empty"):
        yield {"k": "path", "w": w}


def layout(s, i, n, fin, later=COUNTS):
    """-> [(kind, steps)] per cycle from 1 on, and the cycles at which a diagnostic starts"""
    def diag(off, counts=COUNTS):
        o, k = [], 1
        for c in counts:
            o.append([off + k + j for j in range(c)])
            k += c
        return o
    reg = [51, 52, 53]
    cyc = diag(0)
    starts = [1]
    for b in range(4):
        cyc = cyc + [reg] * (s if b == 0 else i)
        starts.append(len(cyc) + 1)
        cyc = cyc + diag(60, later)
    cyc = cyc[:n]
    starts = [x for x in starts if x <= n]
    if fin:
        num, nreg, trail, whole = fin
        cyc = cyc + [reg] * nreg
        at = len(cyc) + 1
        cyc = cyc + diag(num, COUNTS if num == 0 or n < 6 + s or num == 120 and n < 10 + s else later)[:whole] + [reg] * trail
        second = 6 + s
        if n < second <= len(cyc):
            return None, None     # outside the assumption
        if num != 120 or whole == 5:
            starts.append(at)
        if n < second and num == 60:
            # the numbering of the later diagnostics is unknown to a record without one
            if whole != 5:
                starts.remove(at)
        # a scheduled diagnostic cut short by the final one keeps its start
    return cyc, starts


def frame(cyc, order):
    import pandas as pd
    rows, t = [], 0.0
    for c, steps in enumerate(cyc, 1):
        seq = list(steps) + [steps[0]]      # the first step is run again at the end of the cycle
        if order:
            seq = seq[::-1]
        for st in seq:
            for _ in range(2):
                t += 10.0
                rows.append((t, c, st, 1.0, 3.0, 0.5, 0.25))
    return pd.DataFrame(rows, columns=["test_time", "cycle_index", "step_index", "current", "voltage", "charge_capacity", "discharge_capacity"])


def write(d, cols):
    with open(os.path.join(d, "PreDiag_parameters - GP.csv"), "w") as f:
        f.write(",".join(["project_name", "seq_num"] + cols) + "\n")
        for q, vals in ROWS.items():
            v = dict(zip(FULL, vals))
            f.write(",".join(["PreDiag", str(q)] + [str(v[c]) for c in cols]) + "\n")
    with open(os.path.join(d, "PreDiagX_parameters - GP.csv"), "w") as f:
        f.write("project_name,seq_num,capacity_nominal,charge_cutoff_voltage,discharge_cutoff_voltage\nPreDiagX,1,9.0,9.0,0.5\n")


def lookup(dp, out, **kw):
    from beep.deprecated.parameters_lookup import determine_structuring_parameters
    out.call()
    return determine_structuring_parameters(dp, **kw)


def datapath(df, name):
    return g.datapath_class()(raw_data=df, metadata={"barcode": "b"}, paths={"raw": name})


def run_case(case, out):
    with tempfile.TemporaryDirectory() as d:
        if case["k"] == "starts":
            return starts_case(case, out, d)
        if case["k"] == "path":
            p = {"missing": os.path.join(d, "nowhere"), "none": None, "empty": ""}[case["w"]]
            try:
                r = lookup(datapath(frame([[1]], 0), NAMES[0]), out, parameters_path=p)
            except FileNotFoundError:
                out.see("refused")
                return
            out.bad("path", "a parameter directory that does not exist was accepted: %s" % (r,))
            return
        cols = [c for k, c in enumerate(FULL) if k not in case["drop"]]
        write(d, cols)
        name, kw = NAMES[case["name"]], ARGS[case["a"]]
        dp = datapath(frame(layout(2, 3, 20, None)[0], 0), name)
        before = g.frame_digest(dp.raw_data)
        v, res, nom, ffc, diag = lookup(dp, out, parameters_path=d, **kw)
        out.expect(g.frame_digest(dp.raw_data) == before, "record", "the record was changed")
        parts = os.path.basename(name).split(".")[0].split("_")
        row = dict(zip(FULL, ROWS[int(parts[1])])) if parts[0] == "PreDiag" and int(parts[1]) in ROWS else None
        wv, wn, wd = kw.get("v_range"), kw.get("nominal_capacity", 1.1), False
        if row:
            if "capacity_nominal" in cols:
                wn = row["capacity_nominal"]
            if "charge_cutoff_voltage" in cols and "discharge_cutoff_voltage" in cols:
                wv = [min(x[2] for x in ROWS.values()), max(x[1] for x in ROWS.values())]
            wd = all(c in cols for c in FULL[3:6]) and row["diagnostic_type"] == "HPPC+RPT"
        out.see(case["k"], bool(row), wv is None, wd)
        what = "%s without %s, arguments %s" % (name, [FULL[k] for k in case["drop"]], kw)
        out.expect((v is None) == (wv is None) and (wv is None or [float(x) for x in v] == wv), "v-range", lambda: "voltage range %s, expected %s: %s" % (v, wv, what))
        out.expect(float(nom) == wn, "nominal", lambda: "nominal capacity %s, expected %s: %s" % (nom, wn, what))
        out.expect(res == kw.get("resolution", 1000) and ffc == kw.get("full_fast_charge", 0.8), "passed-on", lambda: "resolution %s, full fast charge %s: %s" % (res, ffc, what))
        if not wd:
            out.expect(diag is False or not diag, "no-diagnostic", lambda: "diagnostic %s reported: %s" % (diag, what))
        elif out.expect(isinstance(diag, dict), "diagnostic", lambda: "no diagnostic reported: %s" % what):
            out.expect(diag["parameter_set"] == row["diagnostic_parameter_set"] and list(diag["cycle_type"]) == TYPES and int(diag["length"]) == 5, "diagnostic", lambda: "diagnostic %s: %s" % (diag, what))


def starts_case(case, out, d):
    cyc, want = layout(case["s"], case["i"], case["n"], case["fin"], SHORT if (case["s"] + case["n"]) % 3 == 0 else COUNTS)
    if cyc is None:
        out.nontrivial = False
        return
    with open(os.path.join(d, "Zed_parameters - GP.csv"), "w") as f:
        f.write("project_name,seq_num,diagnostic_type,diagnostic_start_cycle,diagnostic_interval,diagnostic_parameter_set\n")
        f.write("Zed,4,HPPC+RPT,%d,%d,s4\nZed,5,HPPC+RPT,%d,%d,s5\n" % (case["s"] + 1, case["i"] + 1, case["s"], case["i"]))
    dp = datapath(frame(cyc, case["o"]), "/x/Zed_000005_ch1.071")
    before = g.frame_digest(dp.raw_data)
    diag = lookup(dp, out, parameters_path=d)[4]
    out.expect(g.frame_digest(dp.raw_data) == before, "record", "the record was changed")
    got = [int(x) for x in diag["diagnostic_starts_at"]]
    out.see(tuple(want), len(cyc))
    out.expect(got == want, "starts", lambda: "diagnostics at %s, expected %s: start %d interval %d, %d cycles, final %s" % (got, want, case["s"], case["i"], len(cyc), case["fin"]))

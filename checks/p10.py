"""P10 - Biologic cycle numbering, rules serialisation and ingestion."""
import datetime
import itertools
import json
import os
import tempfile

from vmc import rawgen as g

PROPERTY = "P10"
RULE = "every walk of (sequence, loop) records up to the length bound x every rule set; every pair of technique files; every row pattern x layout of an export"
ASSUMPTIONS = ["a change of loop number takes precedence over the sequence change it causes (documented in the code)"]
BOUNDS = {"quick": "walks of <=5 records over 3 sequences x loop increments x 12 rule sets; all technique pairs over 12 walks; exports of <=3 rows x 7 layouts; records and exports of 28-42 rows over sequence numbers up to 112",
          "thorough": "walks of <=6 records; technique triples"}
CHUNK = 16

# (adv_on_start, adv_on_tech_loop, {transition: count})
RULES = [(0, 0, {}), (0, 1, {}), (1, 0, {}), (0, 0, {(0, 1): 1}), (0, 0, {(1, 0): 1}), (0, 1, {(1, 0): 1}), (1, 1, {(0, 1): 1, (1, 2): 1}), (0, 2, {(2, 0): 3}),
         (2, 1, {(0, 2): 1, (2, 1): 2, (1, 0): 1}), (0, 0, {(0, 1): 1, (1, 0): 1}), (0, 1, {(2, 0): 1, (0, 0): 5}), (0, 0, {(1, 1): 4, (0, 2): 2})]
LAYOUTS = ["plain", "cycle_index-last", "cycle_index-mid", "mapping", "mapping-noloop", "txt", "time-last"]


def walks(n):
    for ns in itertools.product((0, 1, 2), repeat=n):
        for inc in itertools.product((0, 1), repeat=n - 1):
            loop = [0]
            for i in inc:
                loop.append(loop[-1] + i)
            yield list(ns), loop


SHORT = [([0], [0]), ([0, 1], [0, 0]), ([1, 0], [0, 0]), ([1, 0], [0, 1]), ([0, 1, 0], [0, 0, 0]), ([0, 1, 0], [0, 0, 1]), ([2, 0, 2], [0, 1, 1]),
         ([0, 1, 2], [0, 0, 0]), ([0, 0, 1], [3, 4, 4]), ([2, 1, 0], [0, 0, 0]), ([1, 2, 0], [0, 1, 1]), ([0, 2, 2, 0], [0, 0, 1, 1])]


LABELS = [[0, 1, 2], [9, 10, 11], [2, 12, 112]]


def cases(tier):
    t = tier == "thorough"
    for n in range(1, 7 if t else 6):
        for ns, loop in walks(n):
            yield {"k": "walk", "ns": ns, "loop": loop}
    for n in (2, 3, 4) if t else (2, 3):          # a loop counter that starts over
        for ns in itertools.product((0, 1, 2), repeat=n):
            for loop in itertools.product((0, 1, 4), repeat=n):
                if any(b < a for a, b in zip(loop, loop[1:])):
                    yield {"k": "walk", "ns": list(ns), "loop": list(loop)}
    for n in (2, 3, 4) if t else (2, 3):         # records of realistic length, sequence numbers of two and three digits
        for ns in itertools.product((0, 1, 2), repeat=n):
            for lab in LABELS:
                for every in (1, n, 7):
                    yield {"k": "walk", "ns": list(ns) * 14, "loop": [(i // every) for i in range(14 * n)], "lab": lab}
    for ns in itertools.product((0, 1, 2), repeat=3):
        for lay in LAYOUTS:
            yield {"k": "file", "ns": list(ns) * 14, "lay": lay, "r": 3}
    for a, b in itertools.product(range(len(SHORT)), repeat=2):
        for ra in range(len(RULES)):
            yield {"k": "tech", "w": [a, b], "r": [ra, (ra * 5 + 3) % len(RULES)]}
    if t:
        for a, b, c in itertools.product(range(len(SHORT)), repeat=3):
            for ra in range(len(RULES)):
                yield {"k": "tech", "w": [a, b, c], "r": [ra, (ra + 1) % len(RULES), (ra * 5 + 2) % len(RULES)]}
    for a in range(len(RULES)):
        for loops in (True, False):
            for dbg in ({}, {(3, 4): 1}):
                yield {"k": "ser", "r": a, "loops": loops, "dbg": [[list(k), v] for k, v in dbg.items()]}
    for n in (1, 2, 3) + ((4,) if t else ()):
        for ns in itertools.product((0, 1, 2), repeat=n):
            for lay in LAYOUTS:
                for r in (3, 6) if "mapping" in lay else (0,):
                    yield {"k": "file", "ns": list(ns), "lay": lay, "r": r}
    from checks.p09 import DIRS
    for d in DIRS:
        for lay in LAYOUTS:
            yield {"k": "file", "ns": [1, 2, 1], "lay": lay, "r": 3 if "mapping" in lay else 0, "dir": d}
    for v in range(6):
        yield {"k": "meta", "v": v}


def model(ns, loop, rule, start):
    cyc = start + rule[0]
    res = []
    for i in range(len(ns)):
        if i:
            if loop is not None and loop[i] != loop[i - 1]:
                cyc += rule[1]
            elif ns[i] != ns[i - 1]:
                cyc += rule[2].get((ns[i - 1], ns[i]), 0)
        res.append(cyc)
    return res


def rules_json(rule, mod, n=1, dbg=None, loops=None):
    if mod == "s":
        from beep.structure.biologic import CycleTransitionRules as R, CycleTransitionRulesSerializer as S
    else:
        from beep.protocol.maccor_to_biologic_mb import CycleAdvancementRules as R, CycleAdvancementRulesSerializer as S
    obj = R(n, bool(rule[1]) if loops is None else loops, rule[0], rule[1], dict(rule[2]), dbg or {})
    return obj, S


def run_case(case, out):
    k = case["k"]
    with tempfile.TemporaryDirectory() as tmp:
        if k == "walk":
            from beep.structure.biologic import get_cycle_index
            lab = case.get("lab", LABELS[0])
            case = dict(case, ns=[lab[x] for x in case["ns"]])
            for i, rule in enumerate(RULES):
                rule = (rule[0], rule[1], {(lab[a], lab[b]): c for (a, b), c in rule[2].items()})
                obj, S = rules_json(rule, "s" if i % 2 else "p")
                fn = os.path.join(tmp, "r%d.json" % i)
                open(fn, "w").write(S().json(obj))
                for loop in (case["loop"], None):
                    out.call()
                    got = list(get_cycle_index(case["ns"], fn, loop_list=loop) if loop is not None else get_cycle_index(case["ns"], fn))
                    want = model(case["ns"], loop, rule, 1)
                    out.see(got)
                    if not out.expect(got == want, "cycle", lambda: "Ns %s Loop %s rules %s: %s, expected %s" % (case["ns"], loop, rule, got, want)):
                        return
        elif k == "tech":
            tech(case, out, tmp)
        elif k == "ser":
            rule = RULES[case["r"]]
            dbg = {tuple(a): b for a, b in case["dbg"]}
            for mod in "sp":
                obj, S = rules_json(rule, mod, 2, dbg, case["loops"])
                out.call()
                new = S().parse_json(S().json(obj))
                f = lambda o: (o.tech_num, o.tech_does_loop, o.adv_cycle_on_start, o.adv_cycle_on_tech_loop, o.adv_cycle_seq_transitions, o.debug_adv_cycle_on_step_transitions)
                out.see(f(new))
                out.expect(f(new) == f(obj) == (2, case["loops"], rule[0], rule[1], rule[2], dbg), "rules", lambda: "%s became %s" % (f(obj), f(new)))
                out.expect(S().json(new) == S().json(obj), "rules-json", "rewritten rules differ")
        elif k == "file":
            from_file(case, out, tmp)
        else:
            meta(case, out, tmp)


def tech(case, out, tmp):
    import pandas as pd
    from beep.protocol.maccor_to_biologic_mb import add_cycle_nums_to_csvs
    ins, rls, outs = [], [], []
    cyc = 1
    wants = []
    for i, (w, r) in enumerate(zip(case["w"], case["r"])):
        ns, loop = SHORT[w]
        fn = os.path.join(tmp, "t%d.csv" % i)
        open(fn, "w").write("Ns;Loop;Ecell/V\n" + "".join("%d;%d;%r\n" % (a, b, 3.5 + 0.25 * j) for j, (a, b) in enumerate(zip(ns, loop))))
        obj, S = rules_json(RULES[r], "p", i + 1)
        rn = os.path.join(tmp, "t%d.json" % i)
        open(rn, "w").write(S().json(obj))
        ins.append(fn), rls.append(rn), outs.append(os.path.join(tmp, "o%d.csv" % i))
        want = model(ns, loop, RULES[r], cyc)
        cyc = want[-1]
        wants.append((ns, loop, want))
    out.call()
    add_cycle_nums_to_csvs(ins, rls, outs)
    for fn, (ns, loop, want) in zip(outs, wants):
        df = pd.read_csv(fn, sep=";")
        got = (df["Ns"].tolist(), df["Loop"].tolist(), df["cycle_index"].tolist(), df["Ecell/V"].tolist())
        out.see(got)
        exp = (ns, loop, want, [3.5 + 0.25 * j for j in range(len(ns))])
        if not out.expect(got == exp, "technique", lambda: "techniques %s rules %s: %s, expected %s" % (case["w"], case["r"], got, exp)):
            return


MPL = """BT-Lab LOG FILE

Modulo Bat

Run on channel : %s (SN 0600)
User : 
Comments : %s
Mass of active material : 0.001 mg
Cycle Definition : Charge/Discharge alternance
Ns                  0                   1
ctrl_type           Rest                %s
ctrl_repeat         0                   0

"""


def from_file(case, out, tmp):
    from beep.structure.biologic import BiologicDatapath
    lay = case["lay"]
    ns = case["ns"]
    n = len(ns)
    loop = [0 if i < 2 else 1 for i in range(n)]
    cols = ["mode", "time/s", "Ecell/V", "I/mA", "cycle number", "Q charge/mA.h", "Q discharge/mA.h", "Energy charge/W.h", "Energy discharge/W.h", "Ns", "x"]
    if lay != "mapping-noloop":
        cols.append("Loop")
    if lay == "cycle_index-last":
        cols.append("cycle_index")
    if lay == "cycle_index-mid":
        cols.insert(4, "cycle_index")
    if lay == "time-last":
        cols.remove("time/s")
        cols.append("time/s")
    txt = lay == "txt"
    sep = "\t" if txt else ";"
    base = datetime.datetime(2021, 3, 14, 1, 59, 58, 250000) if n % 2 else datetime.datetime(2021, 5, 5, 15, 36, 22, 757000)
    rows, want = [], []
    own = [4 + i // 2 for i in range(n)]
    for i in range(n):
        dt = base + datetime.timedelta(seconds=0.5 * i)
        off = 8 if dt < datetime.datetime(2021, 3, 14, 3) else 7
        v = {"mode": 7, "time/s": dt.strftime("%m/%d/%Y %H:%M:%S.%f")[:-3], "Ecell/V": 3.5 + 0.125 * i, "I/mA": 250.0 * (i - 1), "cycle number": float(i),
             "Q charge/mA.h": 100.0 * i, "Q discharge/mA.h": 50.0 * (i + 1), "Energy charge/W.h": 0.25 * i, "Energy discharge/W.h": 0.5 * (i + 1), "Ns": ns[i],
             "x": "", "Loop": loop[i], "cycle_index": own[i]}
        rows.append([str(v[c]) for c in cols])
        want.append({"step_index": ns[i], "voltage": v["Ecell/V"], "current": 0.25 * (i - 1), "charge_capacity": 0.1 * i, "discharge_capacity": 0.05 * (i + 1),
                     "charge_energy": 0.25 * i, "discharge_energy": 0.5 * (i + 1), "data_point": i + 1, "test_time": 0.5 * i,
                     "date_time_iso": (dt + datetime.timedelta(hours=off)).isoformat() + "+00:00", "cycle_index": i})
    mf = None
    if "mapping" in lay:
        obj, S = rules_json(RULES[case["r"]], "s")
        mf = os.path.join(tmp, "rules.json")
        open(mf, "w").write(S().json(obj))
        cyc = model(ns, loop if lay == "mapping" else None, RULES[case["r"]], 1)
    elif "cycle_index" in lay:
        cyc = own
    else:
        cyc = list(range(n))
    for w, c in zip(want, cyc):
        w["cycle_index"] = c
    text = sep.join(cols) + "\n" + "".join(sep.join(r) + "\n" for r in rows)
    home = os.path.join(tmp, case.get("dir", "."))
    os.makedirs(home, exist_ok=True)
    fn = os.path.join(home if "dir" in case else tmp, "t_CE1.txt" if txt else "t_CE1.csv")
    if txt:
        text = (MPL % ("E1", "B 7", "CC") + text).replace("\n", "\r\n")
    else:
        open(fn[:-4] + ".mpl", "w", newline="").write((MPL % ("E1", "B 7", "CC")).replace("\n", "\r\n"))
    open(fn, "w", encoding="iso-8859-1" if txt else "utf-8", newline="").write(text)
    out.call()
    dp = BiologicDatapath.from_file(fn, mapping_file=mf) if mf else g.auto_load(fn)
    out.expect(type(dp) is BiologicDatapath, "class", str(type(dp)))
    df = dp.raw_data
    out.see(g.frame_digest(df[list(want[0])], 6))
    if not out.expect(len(df) == n, "rows", "%d rows from %d lines" % (len(df), n)):
        return
    for i, (got, w) in enumerate(zip(df.to_dict("records"), want)):
        for c, v in w.items():
            ok = got[c] == v if isinstance(v, str) else abs(got[c] - v) < 1e-9
            if not out.expect(ok, "value:" + c, lambda: "%s row %d: %s is %r, expected %r" % (lay, i, c, got[c], v)):
                return
    m = dp.metadata
    out.expect((m.barcode, m.channel_id) == ("B 7", 51), "metadata", str(m.raw))
    # saved and reloaded
    js = os.path.join(tmp, "s.json")
    dp.to_json_file(js, omit_raw=False)
    new = BiologicDatapath.from_json_file(js)
    out.call(2)
    out.expect(new.raw_data["cycle_index"].tolist() == cyc and new.metadata.raw == m.raw, "reload", "reloaded record differs")


def meta(case, out, tmp):
    """two logs have the same protocol digest iff their settings tables are the same; other fields are read verbatim"""
    from beep.structure.biologic import BiologicDatapath as B
    a = ("E1", "B 7", "CC")
    b = [("E1", "B 7", "CC"), ("E1", "B 8", "CC"), ("A12", "B 7", "CC"), ("E1", "B 7", "CV"), ("E1", "", "CC"), ("P3", "x : y", "CV")][case["v"]]
    ms = []
    for i, x in enumerate((a, b)):
        fn = os.path.join(tmp, "%d.mpl" % i)
        open(fn, "w", newline="").write((MPL % x).replace("\n", "\r\n"))
        out.call()
        ms.append(B.parse_metadata(fn))
    out.see(ms[1]["channel_id"], ms[1]["barcode"])
    out.expect((ms[0]["protocol"] == ms[1]["protocol"]) == (a[2] == b[2]), "digest", "digest equality wrong for %s" % (b,))
    ch = int(str(ord(b[0][0]) - 64) + b[0][1:])
    out.expect(ms[1]["channel_id"] == ch and (ms[1]["barcode"] or "") == b[1], "metadata", "%s gave %s" % (b, ms[1]))
    json.dumps(ms[1])

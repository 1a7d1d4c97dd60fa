"""P17 - protocol files survive being read, edited and written."""
import copy
import itertools
import os
import tempfile

PROPERTY = "P17"
RULE = "every small Arbin schedule, Biologic settings file and Maccor procedure in the bound, written back untouched and after every single edit through the accessors (thorough: pairs); the stored templates; every file read again after another one; non-trivial: all"
ASSUMPTIONS = ["Arbin: a section precedes its sub-sections, every sub-section has its section", "Biologic: Modulo Bat techniques of 62 table lines, values no longer than a column, setting names shorter than a column and unique",
               "Maccor: texts carry no blanks at their ends beyond the fixed-width padding; line ends are compared as lines; at least two steps"]
BOUNDS = {"quick": "schedules of <=3 steps x <=2 limits x 8 value texts; settings of <=2 techniques x <=3 sequences x 6 header variants; procedures of 2-3 steps over 9 step shapes; all single edits; schedules of 12-14 steps or limits, settings of 11-14 sequences or 12 techniques, procedures of 13-121 steps",
          "thorough": "procedures of <=4 steps, pairs of edits"}
CHUNK = 20
TEXTS = ["", "1", "a=b", "[x] 3", "x [A]", "µ Ω".replace("Ω", "ÿ"), "two words ", "<none>", "-1.5E-3"]
CELLK = ["Ns", "ctrl_type", "Apply I/C", "ctrl1_val", "ctrl1_val_unit"] + ["f%d" % i for i in range(57)]


def cases(tier):
    t = tier == "thorough"
    for lim in itertools.chain.from_iterable(itertools.product((0, 1, 2), repeat=n) for n in (0, 1, 2, 3)):
        for x in range(len(TEXTS)):
            if x < 2 or len(lim) <= 2:
                yield {"k": "arbin", "lim": list(lim), "x": x, "ls": x % 2, "empty": len(lim) == 2}
        for ed in ARBIN_EDITS:
            if ed[1] < len(lim) or ed[1] == 0:
                yield {"k": "arbin", "lim": list(lim), "x": 1, "ls": 0, "ed": [list(ed)]}
    for labels in itertools.product("ABN", repeat=3):
        for mode in ("first", "all"):
            for v in ("6.5", ""):
                yield {"k": "arbin", "lim": [1, 0, 1], "x": 1, "ls": 0, "lab": "".join(labels), "ed": [["label", 0, mode, v]]}
    for lim in itertools.product((0, 1, 2), repeat=2):
        for flag in itertools.product("01", repeat=2):
            for tgt in (0, 1):
                for num in (0, 1):
                    yield {"k": "arbin", "lim": list(lim), "x": 1, "ls": 0, "flag": "".join(flag), "ed": [["limit", tgt, num]]}
    # a dozen steps, sequences or limits: indices of two digits
    for lim in ([0] * 12, [2] * 14, [0, 12, 1, 0, 0, 0, 0, 0, 0, 0, 3, 12]):
        for ls in (0, 1):
            yield {"k": "arbin", "lim": lim, "x": 2, "ls": ls}
        for st in (0, 1, 9, 10, 11):
            for ed in ([["set", st, "Schedule.Step%d.m_szCtrlValue" % st, "3.25"]], [["set", st, "Schedule.Step%d.m_new" % st, "n"]], [["unset", st, "Schedule.Step%d.m_szLabel" % st, ""]],
                       [["set", st, "Schedule.Step%d.Limit1.Equation0_szRight" % st, "7"]], [["set", st, "Schedule.Step%d.Limit11.m_bStepLimit" % st, "0"]], [["set", st, "Schedule.Step%d.Limit2.m_new" % st, "1"]]):
                yield {"k": "arbin", "lim": lim, "x": 1, "ls": 0, "ed": ed}
            for at in (0, 1, 10, 11):
                for flag in ("11", "01", "10"):
                    yield {"k": "arbin", "lim": lim, "x": 1, "ls": 0, "flag": flag, "at": at, "ed": [["limit", st, 0]]}
        for lab in ("ABABABABABABAB", "BBBBBBBBBBAAAA", "NNNNNNNNNNNANA"):
            for mode in ("first", "all"):
                yield {"k": "arbin", "lim": lim, "x": 1, "ls": 0, "lab": lab, "ed": [["label", 0, mode]]}
    for cols in ([12], [14, 11], [1] * 12, [11, 1, 12]):
        for h in (0, 4):
            yield {"k": "bio", "cols": cols, "h": h}
        for te in {0, len(cols) - 1, min(1, len(cols) - 1)}:
            for st in {0, 1, 9, 10, cols[te] - 1} & set(range(cols[te])):
                for v in ("5.000", ""):
                    yield {"k": "bio", "cols": cols, "h": 0, "ed": [[te, st, 3, v], [0, 0, 60, "z"]]}
    for s in ([0, 1, 2, 3, 4, 5, 6, 7] * 3 + [8], [1] * 12 + [8], [2, 1] * 60 + [8]):
        yield {"k": "mac", "s": s, "nl": 1}
        for n in {1, 2, 9, 10, 11, 23, 24, 99, 100} & set(range(len(s))):
            for ed in (["path", n, "StepValue", "9.5"], ["path", n, "StepNote", "x > y"], ["mod", n, "Charge", "7"], ["mod", n, "Dischrge", "7"]):
                yield {"k": "mac", "s": s, "nl": 0, "ed": [ed]}
    if t:
        for a, b in itertools.product(ARBIN_EDITS, repeat=2):
            yield {"k": "arbin", "lim": [1, 2], "x": 1, "ls": 0, "ed": [list(a), list(b)]}
    for cols in [(n,) for n in (1, 2, 3)] + list(itertools.product((1, 2, 3), repeat=2)) + ([(1, 2, 1), (2, 2, 2)] if t else [(1, 2, 1)]) + [(11,), (1,) * 11]:
        for h in range(7):
            yield {"k": "bio", "cols": list(cols), "h": h}
        for te in range(len(cols)):
            for st in range(cols[te]):
                for f in (0, 3, 61):
                    for v in ("5.000", 5.25, "", "x" * 20):
                        yield {"k": "bio", "cols": list(cols), "h": 0, "ed": [[te, st, f, v]]}
    for n in (2, 3, 4) if t else (2, 3):
        for s in itertools.product(range(len(STEPS)), repeat=n):
            yield {"k": "mac", "s": list(s), "nl": n % 2}
    for s in itertools.product(range(len(STEPS)), repeat=2):
        for ed in MAC_EDITS:
            yield {"k": "mac", "s": list(s) + [8], "nl": 0, "ed": [list(ed)]}
            if t:
                for e2 in MAC_EDITS:
                    yield {"k": "mac", "s": list(s) + [8], "nl": 0, "ed": [list(ed), list(e2)]}
    for name in ("EXP.000", "diagnosticV2.000", "diagnosticV4.000", "drivingV1.000", "BioTest_000001.000", "diagnosticV5.000", "diagnosticV3.000", "diagnosticV1.000"):
        yield {"k": "tpl", "f": "procedure_templates/" + name}
    yield {"k": "tpl", "f": "biologic_templates/formationV1.mps"}
    yield {"k": "tpl", "f": "biologic_templates/BCS - 171.64.160.115_Ta19_ourprotocol_gdocSEP2019_CC7.mps"}
    yield {"k": "tpl", "f": "schedule_templates/20170630-3_6C_9per_5C.sdu"}
    for c in itertools.product((0.0, 1.1, 3.96, 4.0, 10.0), (0.0, 0.086, 0.5, 1.0), (2.0, 5.5, 10.0)):
        yield {"k": "fast", "c": list(c)}


ARBIN_EDITS = [("set", 0, "Schedule.m_szX", "77"), ("set", 0, "Schedule.Step0.m_szCtrlValue", "3.25"), ("set", 1, "Schedule.Step1.m_szCtrlValue", "9"), ("set", 0, "Version Section.Build", "b.c=d"),
               ("set", 1, "Schedule.Step1.Limit0.Equation0_szRight", "4.2"), ("set", 0, "Schedule.Step0.m_new", "n"), ("unset", 0, "Schedule.Step0.m_szCtrlValue", "")]
MAC_EDITS = [("path", 0, "StepValue", "9.5"), ("path", 1, "StepNote", "a & <b>"), ("mod", 0, " Charge ", "7"), ("mod", 1, "Dischrge", "8"), ("mod", 2, "End", "1"), ("mod", 0, "Rest", "2")]


def end(t, o, s, v, extra=""):
    return "        <EndEntry>\n          <EndType>%s</EndType>\n          <SpecialType> </SpecialType>\n          <Oper>%s</Oper>\n          <Step>%s</Step>\n          <Value>%s</Value>\n%s        </EndEntry>\n" % (t, o, s, v, extra)


def rep(t, v):
    return "        <ReportEntry>\n          <ReportType>%s</ReportType>\n          <Value>%s</Value>\n        </ReportEntry>\n" % (t, v)


V = end("Voltage ", "&gt;= ", "023", "4.25", "          <ChanSafetyEnd>True</ChanSafetyEnd>\n")
STEPS = [
    # type, mode, value, limits, ends, reports, note
    ("  Rest  ", "        ", "", "", end("StepTime", " = ", "002", "00:00:05"), "", ""),
    (" Charge ", "Current ", "2.0C", "<Voltage>4.1</Voltage>", V + end("Voltage ", "&lt;= ", "003", "2.9"), rep("StepTime", "00:00:30") + rep("Voltage ", "0.01"), "charge &amp; hold"),
    ("Dischrge", "Current ", "0.75", "", end("Voltage ", "&lt;= ", "004", "2.7") + end("Current ", "&lt;= ", "004", "0.05"), rep("Current ", "0.1"), "µ"),
    ("AdvCycle", "        ", "", "", "", "", ""),
    ("  Do 1  ", "        ", "", "", "", "", "<![x]".replace("<", "&lt;")),
    (" Loop 1 ", "        ", "", "", end("Loop Cnt", " = ", "005", "3"), "", ""),
    (" Charge ", "Voltage ", "4.2", "<Current>1.5</Current>", V, rep("StepTime", "00:01:00"), ""),
    ("FastWave", "        ", "", "", "", "", "WAVE_1"),
    ("  End   ", "        ", "", "", "", "", ""),
]


def mac_text(steps):
    s = '<?xml version="1.0" encoding="UTF-8"?>\n<?maccor-application progid="Maccor Procedure File"?>\n<MaccorTestProcedure>\n  <header>\n    <BuildTestVersion>\n      <major>1</major>\n    </BuildTestVersion>\n    <ProcDesc>\n      <desc></desc>\n    </ProcDesc>\n  </header>\n  <ProcSteps>\n'
    for ty, mo, va, li, en, re_, no in steps:
        s += "    <TestStep>\n      <StepType>%s</StepType>\n      <StepMode>%s</StepMode>\n      <StepValue>%s</StepValue>\n" % (ty, mo, va)
        s += "      <Limits>\n        %s\n      </Limits>\n" % li if li else "      <Limits/>\n"
        s += "      <Ends>\n%s      </Ends>\n" % en if en else "      <Ends/>\n"
        s += "      <Reports>\n%s      </Reports>\n" % re_ if re_ else "      <Reports/>\n"
        s += "      <Range>4</Range>\n      <Option1>N</Option1>\n      <StepNote>%s</StepNote>\n    </TestStep>\n" % no
    return s + "  </ProcSteps>\n</MaccorTestProcedure>\n"


def sections(data):
    """independent reading of a schedule: [(heading, [(key, value)])]"""
    out = []
    for line in data.decode("latin-1").split("\n"):
        line = line.rstrip("\r")
        if line.startswith("[") and line.rstrip().endswith("]") and "=" not in line:
            out.append((line.strip()[1:-1], []))
        elif line.strip():
            out[-1][1].append(tuple(line.split("=", 1)))
    return out


def run_case(case, out):
    with tempfile.TemporaryDirectory() as d:
        {"arbin": arbin, "bio": bio, "mac": mac, "tpl": tpl, "fast": fast}[case["k"]](case, out, d)


def rw(d, name, data):
    p = os.path.join(d, name)
    with open(p, "wb") as f:
        f.write(data)
    return p


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def arbin(case, out, d):
    from beep.protocol.arbin import Schedule
    x = TEXTS[case["x"]]
    labs = case.get("lab", "ABCDEFGHIJKLMN")
    secs = [("Version Section", [("Title", x), ("Build", "1.0")]), ("Signature Section", [("s", "q"), ("t", x)]), ("Schedule", [("m_uStepNum", str(len(case["lim"]))), ("m_szX", x)])]
    if case.get("empty"):
        secs.append(("Schedule_AuxFlags", []))
    for i, n in enumerate(case["lim"]):
        secs.append(("Schedule_Step%d" % i, [("m_szLabel", labs[i]), ("m_szCtrlValue", x), ("m_uLimitNum", str(n))]))
        for j in range(n):
            secs.append(("Schedule_Step%d_Limit%d" % (i, j), [("m_bStepLimit", case.get("flag", "11")[min(j, 1)]), ("Equation0_szLeft", "PV_CHAN_Charge_Capacity" if j == case.get("at", 0) else "PV_CHAN_Voltage"), ("Equation0_szCompareSign", ">="), ("Equation0_szRight", x)]))
    secs.append(("Z Section", [("last", x)]))
    ls = "\n" if case["ls"] else "\r\n"
    data = "".join("[%s]%s" % (h, ls) + "".join("%s=%s%s" % (k, v, ls) for k, v in b) for h, b in secs).encode("latin-1")
    p = rw(d, "a.sdu", data)
    s = Schedule.from_file(p)
    out.call()
    o = os.path.join(d, "o.sdu")
    exp = [(h, list(b)) for h, b in secs]

    def change(h, k, v):
        for hh, b in exp:
            if hh == h:
                ks = [q for q, _ in b]
                if v is None:
                    b[:] = [e for e in b if e[0] != k]
                elif k in ks:
                    b[ks.index(k)] = (k, v)
                else:
                    b.append((k, v))
    for ed in case.get("ed", []):
        kind, n = ed[0], ed[1]
        heads = [h for h, _ in exp]
        if kind in ("set", "unset"):
            h, k = ed[2].rsplit(".", 1)
            h = h.replace(".", "_")
            if h not in heads:
                out.nontrivial = False
                continue
            if kind == "set":
                s.set(ed[2], ed[3])
                change(h, k, ed[3])
            else:
                s.unset(ed[2])
                change(h, k, None)
        elif kind == "label":
            v = ed[3] if len(ed) > 3 else "6.5"
            s.set_labelled_steps("A", "m_szCtrlValue", step_value=v, mode=ed[2])
            hit = [i for i, c in enumerate(labs) if c == "A"]
            for i in hit[:1] if ed[2] == "first" else hit:
                change("Schedule_Step%d" % i, "m_szCtrlValue", v)
        else:
            val = 4 if ed[2] else "4.15"
            s.set_labelled_limits(labs[n], ["PV_CHAN_Charge_Capacity", "PV_CHAN_Voltage"][0], comparator="<", value=val)
            at = case.get("at", 0)
            if case["lim"][n] > at and case["flag"][min(at, 1)] == "1":
                change("Schedule_Step%d_Limit%d" % (n, at), "Equation0_szCompareSign", "<")
                change("Schedule_Step%d_Limit%d" % (n, at), "Equation0_szRight", str(val))
        out.call()
    held = copy.deepcopy(s)
    for rnd in (0, 1):
        s.to_file(o, linesep=ls)
        got = rd(o)
        out.expect(s == held, "arbin-object", "writing the schedule changed the schedule in memory")
    out.see(got)
    want = "".join("[%s]%s" % (h, ls) + "".join("%s=%s%s" % (k, v, ls) for k, v in b) for h, b in exp).encode("latin-1")
    if got != want:
        a, b = sections(got), exp
        diff = [(g, w) for g, w in itertools.zip_longest(a, b) if g != w][:2]
        out.bad("arbin-write" if case.get("ed") else "arbin-roundtrip", "written schedule differs: %s" % (diff or "in its line structure",))
    out.expect(rd(p) == data, "input", "the input file was changed")
    again = Schedule.from_file(p)
    again.to_file(o, linesep=ls)
    out.expect(rd(o) == data, "arbin-again", lambda: "reading the file again after edits gives other contents")


HEADS = ["", "Comments : blank\r\n", "Comments : Technique\r\n", "Filename : C:\\Technique_1\\a.mps\r\n", " at x = 0.000\r\n\r\n\r\n", "Comments :\r\nMass : 0.001 mg : x\r\n", "Electrolyte : \r\nsurface : 0.001 cm²\r\n"]


def cellval(te, st, k):
    if k == "Ns":
        return str(st)
    return {"ctrl_type": ["Rest", "CC", "CV"][(te + st) % 3], "ctrl1_val": "" if st == 0 else "%d.%03d" % (te, st), "Apply I/C": "I"}.get(k, "%s%d%d" % (k[:9], te, st) if int(k[1:] if k[1:].isdigit() else 0) % 3 else ("full column value %02d" % (st * 10 + te))[:20] if k[1:] in ("31", "58") else "Next sequence")


def bio(case, out, d):
    from beep.protocol.biologic import Settings
    tabs = [[[cellval(te, st, k) for k in CELLK] for st in range(n)] for te, n in enumerate(case["cols"])]

    def text():
        t = "BT-LAB SETTING FILE\r\n\r\nNumber of linked techniques : %d\r\n\r\n%sDevice : BCS-815\r\nEcell ctrl range : min = 0.00 V, max = 9.00 V\r\nDo not turn to OCV between techniques\r\n" % (len(tabs), HEADS[case["h"]])
        for te, tab in enumerate(tabs):
            t += "\r\nTechnique : %d\r\nModulo Bat\r\n" % (te + 1)
            for i, k in enumerate(CELLK):
                t += k.ljust(20) + "".join(str(c[i]).ljust(20) for c in tab) + "\r\n"
        return t.encode("latin-1")
    data = text()
    p = rw(d, "a.mps", data)
    o = os.path.join(d, "o.mps")
    s = Settings.from_file(p)
    out.call()
    for te, st, f, v in case.get("ed", []):
        path = "Technique.%d.Step.%d.%s" % (te + 1, st + 1, CELLK[f])
        out.expect(s.get_path(path) == tabs[te][st][f], "bio-get", lambda: "%s reads %r, the file says %r" % (path, s.get_path(path), tabs[te][st][f]))
        s.set(path, v)
        tabs[te][st][f] = v
        out.call()
    for te, tab in enumerate(tabs):
        got = s.get_path("Technique.%d.Step" % (te + 1))
        if out.expect(got is not None and list(got) == [str(i + 1) for i in range(len(tab))], "bio-steps", lambda: "technique %d has sequences %s, the file has %d" % (te + 1, got and list(got), len(tab))):
            for st, col in enumerate(tab):
                out.expect(list(got[str(st + 1)].items()) == list(zip(CELLK, col)), "bio-values", lambda: "technique %d sequence %d reads %s" % (te + 1, st, list(got[str(st + 1)].items())[:5]))
    held = copy.deepcopy(s)
    for rnd in (0, 1):
        s.to_file(o)
        out.expect(s == held, "bio-object", "writing the settings changed them in memory")
    got, want = rd(o), text()
    out.see(got)
    if got != want:
        a, b = got.decode("latin-1").split("\r\n"), want.decode("latin-1").split("\r\n")
        diff = next(((i, g, w) for i, (g, w) in enumerate(itertools.zip_longest(a, b)) if g != w), None)
        out.bad("bio-write" if case.get("ed") else "bio-roundtrip", "written settings differ at line %s (%d lines, expected %d)" % (diff, len(a), len(b)))
    Settings.from_file(p).to_file(o)
    out.expect(rd(o) == data, "bio-again", "reading the file again after edits gives other contents")


def mac(case, out, d):
    from beep.protocol.maccor import Procedure
    steps = [STEPS[i] for i in case["s"]]
    nl = "\r\n" if case["nl"] else "\n"
    data = mac_text(steps).replace("\n", nl).encode("utf-8")
    p = rw(d, "a.000", data)
    o = os.path.join(d, "o.000")
    proc = Procedure.from_file(p)
    out.call()
    exp = [list(s) for s in steps]
    esc = lambda v: v.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")
    for kind, n, a, v in case.get("ed", []):
        if kind == "path":
            proc.set("MaccorTestProcedure.ProcSteps.TestStep.%d.%s" % (n, a), v)
            exp[n][{"StepValue": 2, "StepNote": 6}[a]] = esc(v)
        else:
            proc.modify_step_value(n, a.strip(), v)
            if exp[n][0].strip() == a.strip():
                exp[n][2] = v
        out.call()
    held = copy.deepcopy(proc)
    for rnd in (0, 1):
        proc.to_file(o)
        out.expect(proc == held, "mac-object", "writing the procedure changed it in memory")
        got = rd(o)
        want = mac_text(exp).encode("utf-8")
        if got.replace(b"\r\n", b"\n") != want:
            a, b = got.decode("utf-8", "replace").split("\n"), want.decode("utf-8").split("\n")
            diff = next(((i, g, w) for i, (g, w) in enumerate(itertools.zip_longest(a, b)) if g != w), None)
            out.bad("mac-write" if case.get("ed") else "mac-roundtrip", "written procedure (write %d) differs at line %s" % (rnd + 1, diff))
    out.see(got)
    Procedure.from_file(p).to_file(o)
    out.expect(rd(o).replace(b"\r\n", b"\n") == data.replace(b"\r\n", b"\n"), "mac-again", "reading the file again after edits gives other contents")
    if case["s"] == [2, 2] or case["s"] == [1, 2]:
        lat = rw(d, "l.000", mac_text(exp).replace("UTF-8", "latin-1", 1).encode("latin-1"))
        Procedure.from_file(lat, encoding="latin-1").to_file(o, encoding="latin-1")
        out.expect(rd(o) == rd(lat), "mac-encoding", lambda: "a latin-1 procedure is written differently")


def tpl(case, out, d):
    import beep.protocol as bp
    from beep.protocol.arbin import Schedule
    from beep.protocol.biologic import Settings
    from beep.protocol.maccor import Procedure
    p = os.path.join(os.path.dirname(bp.__file__), case["f"])
    data = rd(p)
    cls = Schedule if p.endswith("sdu") else Settings if p.endswith("mps") else Procedure
    o = os.path.join(d, "o")
    for k in (0, 1):
        cls.from_file(p).to_file(o)
        out.call()
        a, b = rd(o), data
        if cls is not Settings:
            a, b = a.replace(b"\r\n", b"\n"), b.replace(b"\r\n", b"\n")
        out.expect(a == b, "template", lambda: "template %s is not written back as read" % case["f"])
    out.see(a)
    out.expect(rd(p) == data, "template-changed", "the template was changed")


def fast(case, out, d):
    import beep.protocol as bp
    from beep.protocol.arbin import Schedule
    p = os.path.join(os.path.dirname(bp.__file__), "schedule_templates/20170630-3_6C_9per_5C.sdu")
    o = os.path.join(d, "o")
    c1, q, c2 = case["c"]
    Schedule.from_fast_charge(c1, q, c2, p).to_file(o)
    out.call()
    a, b = sections(rd(p)), sections(rd(o))
    out.see(b)
    lab = {h: dict(x).get("m_szLabel") for h, x in a}
    out.expect([h for h, _ in a] == [h for h, _ in b], "fast-sections", "sections changed")
    seen = set()
    for (h, x), (_, y) in zip(a, b):
        y = dict(y)
        out.expect([k for k, _ in x] == list(y), "fast-keys", lambda: "keys of %s changed" % h)
        step = "_".join(h.split("_")[:2])
        for k, v in x:
            want, num = v, False
            if h == step and k == "m_szCtrlValue" and lab.get(step) in ("CC1", "CC2") and lab[step] not in seen:
                want, num = (c1 if lab[step] == "CC1" else c2), True
            if h != step and lab.get(step) == "CC1" and dict(x).get("m_bStepLimit") == "1" and dict(x).get("Equation0_szLeft") == "PV_CHAN_Charge_Capacity":
                if k == "Equation0_szRight":
                    want, num = q, True
                if k == "Equation0_szCompareSign":
                    want = ">"
            try:
                ok = abs(float(y[k]) - want) < 5.1e-4 if num else y[k] == want
            except (ValueError, KeyError):
                ok = False
            out.expect(ok, "fast:%s" % k, lambda: "%s %s is %r, expected %r" % (h, k, y.get(k), want))
        if h == step and lab.get(step):
            seen.add(lab[step])

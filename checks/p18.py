"""P18 - Maccor procedure -> Arbin schedule: lock-step exploration of both machines."""
import copy
import itertools
import json
import os
import tempfile

from vmc import macproc as mp

PROPERTY = "P18"
RULE = "every procedure in the bound is converted, written and read back; both machines are then run in lock step over every choice of which end condition fires, from every reachable joint state; non-trivial: the procedure is accepted"
ASSUMPTIONS = ["Arbin executes a Set Variable(s) step as reset bits, then increment bits, then takes the first step limit that holds", "Maccor repeats a loop until its counter reaches Loop Cnt",
               "C-rate steps with a voltage limit are only compared in number (the schedule's CCCV control has no C-rate)", "working steps have at least one end condition"]
BOUNDS = {"quick": "all well-nested procedures of <=5 steps (+End) over work/AdvCycle/2 loop levels with counts 1-3; all gotos of one extra condition in <=4 steps; all step shapes x <=2 end conditions x reports; 11 procedures of 14-125 steps with loops of up to 100 repeats and gotos",
          "thorough": "<=6 steps, gotos in <=5 steps, <=3 end conditions"}
CHUNK = 6
SHAPES = [("Rest", None, "", None), ("Charge", "Current", "1.5", None), ("Dischrge", "Current", "0.75", None), ("Charge", "Current", "1.5", {"Voltage": "4.2"}), ("Dischrge", "Current", "2", {"Voltage": "2.7"}),
          ("Charge", "Voltage", "4.1", {"Current": "1.25"}), ("Dischrge", "Voltage", "2.9", {"Current": "3.0"}), ("Charge", "Voltage", "4.1", None), ("Dischrge", "Voltage", "2.9", None),
          ("Charge", "Current", "0.5C", None), ("Dischrge", "Current", "2.0C", None), ("Charge", "Current", "1.0C", {"Voltage": "4.0"}), ("Dischrge", "Current", "0.2C", {"Voltage": "2.8"})]
ENDS = [("StepTime", "=", "00:30:00"), ("Voltage", ">=", "4.25"), ("Voltage", "<=", "2.5"), ("Current", "<=", "0.05"), ("Current", ">=", "5.5"), ("StepTime", "=", "48:00:01"), ("StepTime", "=", "::.1"), ("StepTime", "=", "01:02:03.25"), ("StepTime", "=", "::5")]
REPS = [[], [("StepTime", "00:00:30")], [("Voltage", "0.01")], [("Voltage", "0.002"), ("StepTime", "00:01:00"), ("Current", "0.5")], [("StepTime", "::.1"), ("StepTime", "30:00:00")]]
BAD = [mp.step("Charge", "Power", "5", None, [("StepTime", "=", 2, "00:00:01")]), mp.step("FastWave", None, "WAVE", None, [("StepTime", "=", 2, "00:00:01")]), mp.step("Chg Func", None, "", None, [("StepTime", "=", 2, "00:00:01")]),
       mp.step("Charge", "Voltage", "4.1", {"Current": "1.0C"}, [("StepTime", "=", 2, "00:00:01")]), mp.step("Rest", None, "", {"Voltage": "4"}, [("StepTime", "=", 2, "00:00:01")]),
       mp.step("Charge", "Current", "1.0", None, [("Current", "<=", 2, "0.1")]), mp.step("Rest", None, "", None, [("Current", "<=", 2, "0.1")]), mp.step("Charge", "Current", "1.0", None, [("Capacity", ">=", 2, "0.1")]),
       mp.step("Do 5", None, "", None, []), mp.step("Loop 1", None, "", None, [("Loop Cnt", "=", 2, "2")])]


def cases(tier):
    t = tier == "thorough"
    for s in range(len(SHAPES)):
        for n in (1, 2, 3) if t else (1, 2):
            for es in itertools.combinations(range(len(ENDS)), n):
                yield {"k": "shape", "s": s, "e": list(es), "r": 0}
        for r in range(1, len(REPS)):
            for es in ((0,), (0, 1), (1, 2, 0)):
                yield {"k": "shape", "s": s, "e": list(es), "r": r}
    for r in range(len(REPS)):
        yield {"k": "loopreps", "r": r}
    for n in range(1, 7 if t else 6):
        for sk in mp.skeletons(n, counts=(1, 2, 3) if n < 5 else (2,)):
            if "W" in sk:
                yield {"k": "flow", "sk": sk}
                if any(x[0] == "D" and x[1] == 2 for x in sk if x not in ("W", "A")):
                    yield {"k": "flow", "sk": sk, "swap": 1}
    for sk in mp.long_skeletons():
        yield {"k": "flow", "sk": sk}
        if ["D", 2] in sk:
            yield {"k": "flow", "sk": sk, "swap": 1}
        n, ws = len(sk), [i for i, x in enumerate(sk) if x == "W"]
        for w in sorted({0, 8, 9, 10, 98, 99, ws[-1]} & set(ws)):
            for g in sorted({1, 2, 9, 10, 11, 12, 99, 100, 101, n, n + 1} & set(range(1, n + 2))):
                if g != w + 2:
                    yield {"k": "goto", "sk": sk, "w": w, "g": g}
    for n in range(2, 6 if t else 5):
        for sk in mp.skeletons(n, counts=(2,)):
            ws = [i for i, x in enumerate(sk) if x == "W"]
            for w in ws:
                for g in range(1, n + 2):
                    yield {"k": "goto", "sk": sk, "w": w, "g": g}
    for b in range(len(BAD)):
        yield {"k": "bad", "b": b}
    for o in range(5):
        yield {"k": "opts", "o": o}


OPTS = [{}, {"current_range": "Range3"}, {"global_v_range": [2.0, 4.4]}, {"global_temp_range": [0, 60]}, {"global_current_range": [-3.3, 3.3]}]


def simple(g=None, at=None):
    def w(i, num):
        kind = (("Charge", "Current", "1.%d" % i, None), ("Dischrge", "Current", "2.%d" % i, None), ("Rest", None, "", None))[i % 3]
        ends = [["StepTime", "=", num + 1, "%02d:%02d:00" % divmod(i + 1, 60)]]
        if at is not None and num == at + 1:
            ends.append(["Voltage", ">=", g, "4.3"])
        return mp.step(kind[0], kind[1], kind[2], None, ends, [], "n%d" % i if i % 2 else "")
    return w


def program(case):
    k = case["k"]
    if k == "shape":
        ty, mo, va, li = SHAPES[case["s"]]
        ends = [[e[0], e[1], (3, 1, 4)[j % 3] if j else 3, e[2]] for j, e in enumerate(ENDS[x] for x in case["e"])]
        return [mp.step("Rest", None, "", None, [("StepTime", "=", 2, "00:00:10")]), mp.step(ty, mo, va, li, ends, REPS[case["r"]], "the step"), mp.step("AdvCycle"), mp.step("Rest", None, "", None, [("StepTime", "=", 5, "00:00:20")]), mp.step("End")]
    if k == "loopreps":
        return [mp.step("Do 1"), mp.step("Rest", None, "", None, [("StepTime", "=", 3, "00:00:10")], REPS[case["r"]]), mp.step("Loop 1", ends=[("Loop Cnt", "=", 4, "2")]), mp.step("End")]
    if k == "bad":
        return [BAD[case["b"]], mp.step("End")]
    if k == "opts":
        return [mp.step("Charge", "Current", "1.0", None, [("StepTime", "=", 2, "00:00:01")]), mp.step("End")]
    if k == "goto":
        return mp.build(case["sk"], simple(case["g"], case["w"]))
    return mp.build(case["sk"], simple(), case.get("swap"))


def sections(path):
    out = []
    with open(path, encoding="latin-1", newline="") as f:
        for line in f.read().split("\n"):
            line = line.rstrip("\r")
            if line.startswith("[") and line.endswith("]"):
                out.append((line[1:-1], []))
            elif line.strip():
                out[-1][1].append(tuple(line.split("=", 1)))
    return out


def describe(p):
    """expected control of a working step"""
    sg = -1 if p["t"] == "Dischrge" else 1
    if p["t"] == "Rest":
        return ("Rest",)
    if p["m"] == "Current":
        v = float(p["v"].replace("C", ""))
        if p["lim"]:
            return ("CCCV", sg * v, float(p["lim"]["Voltage"]))
        return ("C-Rate" if "C" in p["v"] else "Current(A)", sg * v)
    if p["lim"]:
        return ("CCCV", sg * float(p["lim"]["Current"]), float(p["v"]))
    return ("Voltage(V)", float(p["v"]))


def exp_end(p, e):
    t, o, g, v = e
    ctl = describe(p)[0]
    if t == "Voltage":
        return ("PV_CHAN_Voltage", o, float(v))
    if t == "StepTime":
        return ("PV_CHAN_Step_Time", ">", mp.seconds(v))
    if t == "Current" and ctl in ("CCCV", "Voltage(V)"):
        var = "PV_CHAN_CV_Stage_Current" if ctl == "CCCV" else "PV_CHAN_Current"
        if p["t"] == "Dischrge":
            return (var, {"<=": ">=", ">=": "<="}[o], -float(v))
        return (var, o, float(v))
    return None


_YAML = {}


def quick_yaml():
    """The converter reads the same yaml tables once per step; read them once per process (a fresh copy for every caller)."""
    from beep.protocol import maccor_to_arbin as m
    real = getattr(m, "loadfn", None)
    if real is None or getattr(real, "remembers", False):
        return

    def loadfn(fn, *a, **k):
        if a or k or not str(fn).endswith(".yaml"):
            return real(fn, *a, **k)
        key = (str(fn), os.stat(fn).st_mtime_ns)
        if key not in _YAML:
            _YAML[key] = real(fn)
        return copy.deepcopy(_YAML[key])
    loadfn.remembers = True
    m.loadfn = loadfn


def run_case(case, out):
    quick_yaml()
    from beep.protocol.maccor import Procedure
    from beep.protocol.maccor_to_arbin import ProcedureToSchedule
    import beep.protocol as bp
    steps = program(case)
    tpl = os.path.join(os.path.dirname(bp.__file__), "schedule_templates", "20170630-3_6C_9per_5C.sdu")
    unsupported = case["k"] == "bad" or any(p["t"] in mp.WORK and any(exp_end(p, e) is None for e in p["ends"]) for p in steps)
    opts = OPTS[case["o"]] if case["k"] == "opts" else {}
    with tempfile.TemporaryDirectory() as d:
        src, dst = os.path.join(d, "p.000"), os.path.join(d, "o.sdu")
        with open(src, "w", encoding="utf-8") as f:
            f.write(mp.xml(steps))
        proc = Procedure.from_file(src)
        inner = proc["MaccorTestProcedure"]["ProcSteps"]["TestStep"]
        before = copy.deepcopy(inner)
        conv = ProcedureToSchedule(inner)
        try:
            conv.create_sdu(tpl, dst, **opts)
            err = None
        except Exception as e:
            err = e
        out.call()
        out.expect(json.dumps(inner) == json.dumps(before), "mutated", "converting changed the procedure")
        if unsupported:
            out.nontrivial = False
            out.expect(err is not None and not os.path.exists(dst), "not-refused", lambda: "a procedure that cannot be represented was converted: %s" % steps[0 if case["k"] == "bad" else 1])
            return
        if err is not None:
            raise err
        secs = sections(dst)
        with open(dst, "rb") as f:
            first = f.read()
        conv.create_sdu(tpl, dst, **opts)
        ProcedureToSchedule(Procedure.from_file(src)["MaccorTestProcedure"]["ProcSteps"]["TestStep"]).create_sdu(tpl, dst + "2", **opts)
        out.call(2)
        for q in (dst, dst + "2"):
            with open(q, "rb") as f:
                out.expect(f.read() == first, "repeat", "converting again gives another schedule")
    out.see(secs)
    check_shell(secs, sections(tpl), len(steps), opts, out)
    by = dict(secs)
    ast = []
    for i in range(len(steps)):
        body = dict(by.get("Schedule_Step%d" % i, []))
        if not out.expect(bool(body), "missing-step", lambda: "schedule has no Step%d" % i):
            return
        n = sum(1 for h in by if h.startswith("Schedule_Step%d_Limit" % i))
        out.expect(body.get("m_uLimitNum") == str(n) and all("Schedule_Step%d_Limit%d" % (i, j) in by for j in range(n)), "limit-count", lambda: "Step%d says %s limits, has %s" % (i, body.get("m_uLimitNum"), [h for h in by if h.startswith("Schedule_Step%d_" % i)]))
        out.expect(body["m_szCurrentRange"] == opts.get("current_range", "Range1"), "range", lambda: "current range %s" % body["m_szCurrentRange"])
        ast.append((body, [dict(by["Schedule_Step%d_Limit%d" % (i, j)]) for j in range(n) if "Schedule_Step%d_Limit%d" % (i, j) in by]))
    out.expect("Schedule_Step%d" % len(steps) not in by, "extra-step", "schedule has surplus steps")
    labels = [b["m_szLabel"] for b, _ in ast]
    if not out.expect(len(set(labels)) == len(labels), "labels", lambda: "labels not unique: %s" % labels):
        return

    def target(i, lim):
        g = lim["m_szGotoStep"]
        if g == "Next Step":
            return i + 1
        return labels.index(g) if g in labels else None

    def asettle(pc, cnt):
        cnt, adv, n = dict(cnt), 0, 0
        while True:
            n += 1
            if n > 5000:
                raise mp.Stuck("endless")
            if pc is None or pc >= len(ast):
                return None, tuple(sorted(cnt.items())), adv
            body, lims = ast[pc]
            if body["m_szStepCtrlType"] != "Set Variable(s)":
                if pc == len(ast) - 1:
                    return None, tuple(sorted(cnt.items())), adv
                return pc, tuple(sorted(cnt.items())), adv
            reset, inc, dec = (int(body[q] or 0) for q in ("m_szCtrlValue", "m_szExtCtrlValue1", "m_szExtCtrlValue2"))
            for c in (1, 2, 3, 4):
                if reset >> (15 + c) & 1:
                    cnt[str(c)] = 0
                if inc >> c & 1:
                    cnt[str(c)] = cnt.get(str(c), 0) + 1
                if dec >> c & 1:
                    cnt[str(c)] = cnt.get(str(c), 0) - 1
            if inc & 1:
                adv += 1
                out.expect(reset & 15 == 15, "pv-reset", lambda: "cycle advance without resetting capacities")
            else:
                out.expect(reset & 15 == 0, "pv-reset", lambda: "capacities reset without cycle advance")
            nxt = None
            for lim in lims:
                if lim["m_bStepLimit"] != "1":
                    continue
                left, sign, right = lim["Equation0_szLeft"], lim["Equation0_szCompareSign"], float(lim["Equation0_szRight"])
                if left == "PV_CHAN_Step_Time":
                    val = 1e9
                elif left.startswith("TC_Counter"):
                    val = cnt.get(left[10:], 0)
                else:
                    continue
                if {"<": val < right, "<=": val <= right, ">": val > right, ">=": val >= right, "=": val == right}[sign]:
                    nxt = lim
                    break
            if nxt is None:
                raise mp.Stuck("no limit of step %d holds" % pc)
            pc = target(pc, nxt)

    def num(x):
        try:
            return float(x)
        except (TypeError, ValueError):
            return x

    seen, todo = set(), [((0, ()), (0, ()))]
    while todo:
        (mpc, mc), (apc, ac) = todo.pop()
        try:
            mpc, mc, madv = mp.settle(steps, mpc, mc)
        except mp.Stuck:
            out.nontrivial = False
            continue
        try:
            apc, ac, aadv = asettle(apc, ac)
        except mp.Stuck as e:
            out.bad("stuck", "the schedule hangs where the procedure goes on: %s" % e)
            return
        if not out.expect(madv == aadv, "advance", lambda: "before step %s the procedure advances %d cycles, the schedule %d" % (mpc, madv, aadv)):
            return
        if not out.expect((mpc is None) == (apc is None), "end", lambda: "procedure at %s, schedule at %s" % (mpc, apc)):
            return
        if mpc is None or (mpc, mc, apc, ac) in seen:
            continue
        seen.add((mpc, mc, apc, ac))
        out.see(mpc, mc, apc, ac)
        out.call()
        p = steps[mpc]
        body, lims = ast[apc]
        want = describe(p)
        got = (body["m_szStepCtrlType"],) + tuple(num(body[k]) for k in ("m_szCtrlValue", "m_szExtCtrlValue1")[:len(want) - 1])
        if not out.expect(got == want, "control", lambda: "step %d %s %s %s %s became %s, expected %s" % (mpc + 1, p["t"], p["m"], p["v"], p["lim"], got, want)):
            return
        alim = [((l["Equation0_szLeft"], l["Equation0_szCompareSign"], num(l["Equation0_szRight"])), target(apc, l)) for l in lims if l["m_bStepLimit"] == "1"]
        elim = [(exp_end(p, e), e[2] - 1) for e in p["ends"]]
        close = lambda a, b: a[0] == b[0] and a[1] == b[1] and abs(a[2] - b[2]) < 1e-6
        if not out.expect(len(alim) == len(elim) and all(close(a[0], b[0]) for a, b in zip(alim, elim)), "limits", lambda: "step %d has limits %s, expected %s" % (mpc + 1, alim, elim)):
            return
        logs = [(l["Equation0_szLeft"], l["Equation0_szCompareSign"], num(l["Equation0_szRight"])) for l in lims if l["m_bStepLimit"] != "1" and l["m_bLogDataLimit"] == "1"]
        elog = [({"Voltage": "DV_Voltage", "Current": "DV_Current", "StepTime": "DV_Time"}[r[0]], ">", mp.seconds(r[1]) if r[0] == "StepTime" else float(r[1])) for r in p["reps"]]
        if not out.expect(len(logs) == len(elog) and all(close(a, b) for a, b in zip(logs, elog)), "reports", lambda: "step %d logs %s, expected %s" % (mpc + 1, logs, elog)):
            return
        for (_, at), (_, mt) in zip(alim, elim):
            if not out.expect(at is not None, "target", lambda: "a limit of step %d leads to an unknown step" % (mpc + 1)):
                return
            todo.append(((mt, mc), (at, ac)))


def check_shell(secs, tpl, n, opts, out):
    strip = lambda ss: [(h, b) for h, b in ss if not h.startswith("Schedule_Step")]
    a, b = strip(secs), strip(tpl)
    out.expect([h for h, _ in a] == [h for h, _ in b], "shell-sections", lambda: "sections outside the steps changed")
    v, te, cu = opts.get("global_v_range", [2.5, 4.5]), opts.get("global_temp_range", [-100, 100]), opts.get("global_current_range", [-30, 30])
    want = {"m_uStepNum": str(n), "m_VoltageSafetyScope": v, "m_AuxTempSafetyScope": te, "m_CurrentSafetyScope": cu}
    for (h, x), (_, y) in zip(a, b):
        x, y = dict(x), dict(y)
        if h == "Schedule":
            for k, w in want.items():
                g = x.get(k)
                ok = g == w if isinstance(w, str) else g is not None and [float(q) for q in g.split("^")] == w
                out.expect(ok, "shell:%s" % k, lambda: "%s is %s, expected %s" % (k, g, w))
                x.pop(k, None)
                y.pop(k, None)
            if te != [-100, 100]:
                out.expect(x.get("m_AuxSafetyEnabled", "").replace(" ", "").split(";")[1:2] == ["1^1"], "shell:aux", "temperature safety not enabled")
                x.pop("m_AuxSafetyEnabled", None)
                y.pop("m_AuxSafetyEnabled", None)
        out.expect(x == y, "shell", lambda: "section %s changed" % h)

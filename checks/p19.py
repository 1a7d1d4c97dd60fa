"""P19 - Maccor procedure -> Biologic Modulo Bat: lock-step exploration of both machines and of the cycle rules."""
import io
import contextlib
import itertools
import json
import os
import re
import tempfile

from vmc import macproc as mp

PROPERTY = "P19"
RULE = "every procedure in the bound is converted; the written settings file is parsed and both machines are run in lock step over every choice of which end condition fires from every reachable joint state; the written cycle rules are applied to every transition and, through add_cycle_nums_to_csvs, to complete runs; non-trivial: the procedure is accepted"
ASSUMPTIONS = ["a Loop technique with 'nt times' n runs the technique n times in all (the count the converter writes); a Loop sequence with ctrl_repeat n jumps back n times", "sequence target 9999 ends the experiment; one past the last sequence ends the technique",
               "each visited sequence leaves at least one data row, with its technique loop in column Loop", "end conditions beyond the configured voltage and current window are left to the instrument's safety limits",
               "jumps into a loop body and techniques without any working step are not claimed"]
BOUNDS = {"quick": "all well-nested procedures of <=7 steps (+End) over work/AdvCycle/2 loop levels; all gotos of one extra condition in <=6 steps; all step shapes x <=3 end conditions x reports x value grid; all window settings; 11 procedures of 14-125 steps with loops of up to 100 repeats and gotos",
          "thorough": "<=8 steps, gotos in <=7 steps"}
CHUNK = 12
SHAPES = [("Rest", None, "", None), ("Charge", "Current", "1.5", None), ("Dischrge", "Current", "0.75", None), ("Charge", "Current", "1.5", {"Voltage": "4.2"}), ("Dischrge", "Current", "0.02", {"Voltage": "2.7"}),
          ("Charge", "Voltage", "4.1", None), ("Dischrge", "Voltage", "2.9", None)]
VMODE = [("Charge", "Voltage", "4.1", {"Current": "1.25"}), ("Dischrge", "Voltage", "2.9", {"Current": "3.0"})]
ENDS = [("StepTime", "=", "00:30:00"), ("Voltage", ">=", "4.25"), ("Voltage", "<=", "2.5"), ("Current", "<=", "0.05"), ("Current", ">=", "5.5"), ("Voltage", ">=", "4.15"), ("Voltage", "<=", "2.75")]
REPS = [[("StepTime", "00:00:30")], [("Voltage", "0.01")], [("Voltage", "0.002"), ("StepTime", "00:01:00"), ("Current", "0.5")], [("StepTime", "::.1"), ("StepTime", "30:00:00")]]
TIMES = ["00:30:00", "48:00:01", "::.1", "::2.01", "01:02:03.25", "::5", "3600::", "00:00:59.99", "1.5::", ":90:", "100:30:00", "::.29"]
AMPS = ["1.5", "0.75", "0.05", "0.0005", "0.00125", "2.34567", "1E-3", "1.5E-6", "10.0", "0.123456", "3"]
VOLTS = ["4.2", "4.1234", "0.5", "3", "2.75", "0.0005", "4.20000", "1E-2", "3.65000001"]
BAD = [mp.step("Charge", "Power", "5", None, [("StepTime", "=", 2, "00:00:01")], REPS[0]), mp.step("FastWave", None, "WAVE", None, [("StepTime", "=", 2, "00:00:01")], REPS[0]), mp.step("Charge", "Current", "1.0", None, [("Capacity", ">=", 2, "0.1")], REPS[0]),
       mp.step("Rest", None, "", None, [("StepTime", ">=", 2, "00:00:01")], REPS[0]), mp.step("Rest", None, "", {"Voltage": "4"}, [("StepTime", "=", 2, "00:00:01")], REPS[0]), mp.step("Charge", "Current", "1", {"Power": "4"}, [("StepTime", "=", 2, "00:00:01")], REPS[0]),
       mp.step("Rest", None, "", None, [("StepTime", "=", 2, "00:00:01"), ("Voltage", ">=", 2, "4.1"), ("Voltage", "<=", 2, "3.1"), ("Voltage", ">=", 2, "4.2")], REPS[0]),
       mp.step("Rest", None, "", None, [("StepTime", "=", 2, "00:00:01")], [("StepTime", "00:00:01"), ("StepTime", "00:00:02"), ("StepTime", "00:00:03"), ("StepTime", "00:00:04")]),
       mp.step("Rest", None, "", None, [("StepTime", "=", 2, "00:00:01")], [("Capacity", "0.1")]), mp.step("Loop 1", None, "", None, [("Loop Cnt", "=", 2, "2")]), mp.step("Do 3", None, "", None, [])]
WINDOWS = [(4.45, 0, None, None), (4.2, 2.5, None, None), (4.3, 2.4, 5.0, 0.1), (4.2, 2.5, 5.5, 0.05), (10.0, -10.0, 10.0, -10.0), (4.0, 3.0, None, 0.06)]
UNIT = {"pA": 1e-12, "nA": 1e-9, "\N{Micro Sign}A": 1e-6, "mA": 1e-3, "A": 1, "mV": 1e-3, "V": 1, "ms": 1e-3, "s": 1, "mn": 60, "h": 3600}


class Tell:
    """Problem keys are kind:case, with the two known-finding cases named on their own."""

    def __init__(self, out, case):
        self.out, self.case = out, case
        self.see = out.see

    @property
    def violations(self):
        return self.out.problems

    def call(self, *a):
        self.out.call()

    def bad(self, kind, tag, msg):
        self.out.bad("voltage-mode-limit-%d" % self.case["v"] if self.case["k"] == "vmode" else kind, "%s: %s" % (tag, msg))

    def expect(self, ok, kind, tag, msg):
        if not ok:
            self.bad(kind, tag, msg)

    def nontrivial(self, yes=True):
        self.out.nontrivial = bool(yes)


def cases(tier):
    t = tier == "thorough"
    for s in range(len(SHAPES)):
        for n in (1, 2, 3):
            for es in itertools.combinations(range(len(ENDS)), n):
                yield {"k": "shape", "s": s, "e": list(es), "r": 0}
        for r in range(1, len(REPS)):
            yield {"k": "shape", "s": s, "e": [0, 1], "r": r}
        for w in range(len(WINDOWS)):
            for es in itertools.permutations(range(5), 2):
                yield {"k": "window", "s": s, "e": list(es), "win": w, "r": 0}
    for v in range(len(VMODE)):
        yield {"k": "vmode", "v": v}
    for kind, vals in (("time", TIMES), ("amps", AMPS), ("volts", VOLTS)):
        for v in vals:
            yield {"k": "value", "q": kind, "v": v}
    for n in range(1, 9 if t else 8):
        for sk in mp.skeletons(n, counts=(1, 2, 3) if n < 5 else (2,)):
            if "W" in sk:
                yield {"k": "flow", "sk": sk}
                if n < 6 and any(x[0] == "D" and x[1] == 2 for x in sk if x not in ("W", "A")):
                    yield {"k": "flow", "sk": sk, "swap": 1}
    for sk in mp.long_skeletons():
        yield {"k": "flow", "sk": sk}
        if ["D", 2] in sk:
            yield {"k": "flow", "sk": sk, "swap": 1}
        n, ws = len(sk), [i for i, x in enumerate(sk) if x == "W"]
        for w in sorted({0, 8, 9, 10, 98, 99, ws[-1]} & set(ws)):
            for g in sorted({1, 2, 9, 10, 11, 12, 99, 100, 101, n, n + 1} & set(range(1, n + 2))):
                if g != w + 2:
                    yield {"k": "goto", "sk": sk, "w": w, "g": g}
    for n in range(2, 8 if t else 7):
        for sk in mp.skeletons(n, counts=(2,)):
            for w in [i for i, x in enumerate(sk) if x == "W"]:
                for g in range(1, n + 2):
                    if g != w + 2:
                        yield {"k": "goto", "sk": sk, "w": w, "g": g}
    for b in range(len(BAD)):
        yield {"k": "bad", "b": b}
    for a in itertools.product(range(3), repeat=2):
        yield {"k": "mappers", "m": list(a)}
    for n in range(0, 4):
        yield {"k": "rules", "n": n}


def simple(g=None, at=None):
    def w(i, num):
        kind = (("Charge", "Current", "1.%d" % i, None), ("Charge", "Current", "0.%d5" % i, {"Voltage": "4.1%d" % i}), ("Rest", None, "", None), ("Dischrge", "Current", "2.%d" % i, None))[i % 4]
        ends = [["StepTime", "=", num + 1, "%02d:%02d:00" % divmod(i + 1, 60)]]
        if at is not None and num == at + 1:
            ends.append(["Voltage", "<=", g, "3.3"])
        return mp.step(kind[0], kind[1], kind[2], kind[3], ends, [("StepTime", "00:00:1%d" % i if i < 10 else "00:%02d:%02d" % divmod(i + 60, 60))], "")
    return w


def program(case):
    k = case["k"]
    if k in ("shape", "window"):
        ty, mo, va, li = SHAPES[case["s"]]
        ends = [[e[0], e[1], (3, 5, 4)[j % 3], e[2]] for j, e in enumerate(ENDS[x] for x in case["e"])]
        return [mp.step("Rest", None, "", None, [("StepTime", "=", 2, "00:00:10")], REPS[0]), mp.step(ty, mo, va, li, ends, REPS[case["r"]], "the step"), mp.step("Rest", None, "", None, [("StepTime", "=", 4, "00:00:20")], REPS[0]),
                mp.step("Rest", None, "", None, [("StepTime", "=", 5, "00:00:20")], REPS[0]), mp.step("End")]
    if k == "vmode":
        ty, mo, va, li = VMODE[case["v"]]
        return [mp.step(ty, mo, va, li, [("StepTime", "=", 2, "00:30:00")], REPS[0]), mp.step("End")]
    if k == "value":
        q, v = case["q"], case["v"]
        end = {"time": ("StepTime", "="), "amps": ("Current", "<="), "volts": ("Voltage", ">=")}[q]
        rep = {"time": "StepTime", "amps": "Current", "volts": "Voltage"}[q]
        return [mp.step("Charge", "Voltage" if q == "volts" else "Current", v if q != "time" else "1.0", None, [(end[0], end[1], 2, v), ("StepTime", "=", 2, "400::")][:1 if q == "time" else 2], [(rep, v)]),
                mp.step("Dischrge", "Current", v if q == "amps" else "1.0", {"Voltage": v if q == "volts" else "2.0"}, [("StepTime", "=", 3, v if q == "time" else "00:01:00")], [(rep, v)]), mp.step("End")]
    if k == "bad":
        return [BAD[case["b"]], mp.step("End")]
    if k == "mappers":
        return [mp.step("Charge", "Current", "1.0", None, [("StepTime", "=", 2, "00:01:00"), ("Voltage", ">=", 3, "4.1")], REPS[0]), mp.step("Rest", None, "", None, [("StepTime", "=", 3, "00:01:00")], REPS[0]), mp.step("End")]
    if k == "goto":
        return mp.build(case["sk"], simple(case["g"], case["w"]))
    return mp.build(case["sk"], simple(), bool(case.get("swap")))


# ---------------------------------------------------------------- the settings file
def parse(text):
    techs, cur = [], None
    lines = text.split("\r\n")
    head = []
    for i, l in enumerate(lines):
        if l.startswith("Technique : "):
            cur = {"num": int(l[12:]), "rows": []}
            techs.append(cur)
        elif cur is None:
            head.append(l)
        elif "type" not in cur:
            cur["type"] = l
        elif l.strip():
            cur["rows"].append((l[:20].strip(), [l[j:j + 20].strip() for j in range(20, len(l), 20)]))
    for t in techs:
        if t["type"] == "Modulo Bat":
            n = max([len(v) for _, v in t["rows"]] or [0])
            t["seqs"] = [{k: v[j] for k, v in t["rows"]} for j in range(n)]
        else:
            t["set"] = {k: v[0] for k, v in t["rows"]}
    return head, techs


def num(s):
    return float(s)


def close(a, b):
    return abs(a - b) <= 1e-6 * max(abs(a), abs(b)) + 1e-15


class Bio:
    def __init__(self, techs):
        self.t = techs

    def settle(self, ti, si, loops, tl):
        """-> (ti, si, loops, tl) at a working sequence, or None at the end."""
        loops, tl = dict(loops), dict(tl)
        for _ in range(10000):
            if ti >= len(self.t):
                return None
            t = self.t[ti]
            if t["type"] == "Loop":
                back = int(t["set"]["goto Ne"])
                tl[back] = tl.get(back, 0) + 1
                if tl[back] < int(t["set"]["nt times"]):
                    ti = next(i for i, x in enumerate(self.t) if x["num"] == back)
                    loops = {k: v for k, v in loops.items() if k[0] != ti}
                else:
                    ti += 1
                si = 0
                continue
            if si == len(t["seqs"]):
                ti, si = ti + 1, 0
                continue
            if si > len(t["seqs"]):
                raise LookupError("sequence %d of technique %d does not exist" % (si, t["num"]))
            s = t["seqs"][si]
            if s["ctrl_type"] == "Loop":
                c = loops.get((ti, si), 0)
                if c < int(s["ctrl_repeat"]):
                    loops[(ti, si)] = c + 1
                    si = int(s["ctrl_seq"])
                else:
                    loops.pop((ti, si), None)
                    si += 1
                continue
            return ti, si, tuple(sorted(loops.items())), tuple(sorted(tl.items()))
        raise LookupError("endless loop without a working sequence")


def target(s, si, j):
    g = int(s["lim%d_seq" % j])
    if s["lim%d_action" % j] == "Next sequence":
        return si + 1
    return None if g == 9999 else g


def limits(s, si):
    out = []
    for j in range(1, int(s["lim_nb"]) + 1):
        out.append((s["lim%d_type" % j], s["lim%d_comp" % j], num(s["lim%d_value" % j]) * UNIT[s["lim%d_value_unit" % j]], target(s, si, j)))
    return out


def value(kind, v):
    return mp.seconds(v) if kind == "StepTime" else float(v)


TYPE = {"StepTime": "Time", "Voltage": "Ecell", "Current": "|I|"}
COMP = {"=": ">", ">=": ">", "<=": "<"}


def outside(e, win):
    """An end condition the configured window takes over."""
    mx, mn, mi, ni = win
    ty, op, _, v = e
    if ty == "Voltage":
        return (op == ">=" and mx is not None and float(v) >= mx) or (op == "<=" and mn is not None and float(v) <= mn)
    if ty == "Current":
        return (op == ">=" and mi is not None and float(v) > mi) or (op == "<=" and ni is not None and float(v) < ni)
    return False


def phases(p, win):
    """A step as a list of (control, required ends, allowed ends, limit to next phase)."""
    ends = [e for e in p["ends"] if not outside(e, win)] if len(p["ends"]) > 1 else list(p["ends"])
    if p["t"] == "Rest":
        return [(("Rest", None, None), ends, ends, None)]
    ctrl = {"Current": "CC", "Voltage": "CV"}
    d = "Charge" if p["t"] == "Charge" else "Discharge"
    if not p["lim"]:
        return [((ctrl[p["m"]], d, float(p["v"])), ends, ends, None)]
    if p["m"] == "Current":
        lim, op = p["lim"]["Voltage"], ">=" if d == "Charge" else "<="
        cc, cv = float(p["v"]), float(lim)
    else:
        lim, op = p["v"], ">=" if d == "Charge" else "<="
        cc, cv = float(p["lim"]["Current"]), float(p["v"])

    def never(e):
        return e[0] == "Current" or (e[0] == "Voltage" and e[1] == op and ((float(e[3]) - float(lim)) * (1 if op == ">=" else -1) >= 0))
    return [(("CC", d, cc), [e for e in ends if not never(e)], ends, (op, float(lim))), (("CV", d, cv), ends, ends, None)]


def compare(p, ph, s, si, out, tag):
    """One phase against one sequence. Returns {end index: target} or None, plus the successor phase's target."""
    (ct, d, v), req, allow, lim = ph
    if s["ctrl_type"] != ct:
        out.bad("control", tag, "expected %s, sequence has %s" % (ct, s["ctrl_type"]))
        return None
    if ct != "Rest":
        u = UNIT.get(s["ctrl1_val_unit"])
        if u is None or (ct == "CC") != s["ctrl1_val_unit"].endswith("A") or not close(num(s["ctrl1_val"]) * u, v):
            out.bad("value", tag, "expected %s %r, sequence has %s %s" % (ct, v, s["ctrl1_val"], s["ctrl1_val_unit"]))
        if s["charge/discharge"] != d:
            out.bad("direction", tag, "expected %s, sequence has %s" % (d, s["charge/discharge"]))
    have = limits(s, si)
    used, tg = set(), {}
    nxt = None
    if lim:
        hit = [k for k, h in enumerate(have) if h[0] == "Ecell" and h[1] == COMP[lim[0]] and close(h[2], lim[1])]
        if not hit:
            out.bad("switch", tag, "no switch to constant voltage at %r: limits %r" % (lim, have))
            return None
        used.add(hit[-1])
        nxt = have[hit[-1]][3]
    for e in allow:
        hit = [k for k, h in enumerate(have) if k not in used and h[0] == TYPE[e[0]] and h[1] == COMP[e[1]] and close(h[2], value(e[0], e[3]))]
        if not hit:
            if e in req:
                out.bad("missing-limit", tag, "no limit for end condition %r: limits %r" % (e, have))
            continue
        used.add(hit[0])
        tg[p["ends"].index(e)] = have[hit[0]][3]
    if len(used) != len(have):
        out.bad("extra-limit", tag, "limits without an end condition: %r" % [h for k, h in enumerate(have) if k not in used])
    rec = sorted((s["rec%d_type" % j], num(s["rec%d_value" % j]) * UNIT[s["rec%d_value_unit" % j]]) for j in range(1, int(s["rec_nb"]) + 1))
    want = sorted(({"StepTime": "Time", "Voltage": "Ecell", "Current": "I"}[r[0]], value(*r)) for r in p["reps"])
    if len(rec) != len(want) or any(a[0] != b[0] or not close(a[1], b[1]) for a, b in zip(rec, want)):
        out.bad("record", tag, "expected records %r, sequence has %r" % (want, rec))
    return tg, nxt


def must_convert(case, steps):
    """Procedures inside the documented abilities of the converter."""
    if case["k"] in ("bad", "vmode") or case.get("swap"):
        return False
    # techniques: an outer loop with an inner loop is one, the stretches between are others
    types = [p["t"] for p in steps]
    part, cur, i = [None] * len(steps), 0, 0
    while i < len(steps):
        if types[i] == "Do 1":
            j = types.index("Loop 1", i)
            if "Do 2" in types[i:j]:
                cur += 1
                part[i] = part[j] = ("edge", cur)
                for x in range(i + 1, j):
                    part[x] = cur
                i, cur = j + 1, cur + 1
                continue
            for x in range(i, j + 1):
                part[x] = cur
            i = j + 1
            continue
        part[i] = cur
        i += 1
    for i, p in enumerate(steps):
        if p["t"] not in mp.WORK:
            continue
        if len([e for e in p["ends"]]) + (1 if p["lim"] else 0) > 3:
            return False
        for e in p["ends"]:
            g = e[2] - 1
            if g in (i + 1, len(steps) - 1):
                continue
            if part[g] != part[i] or any(types[x][:2] in ("Do", "Lo") for x in range(min(i, g), max(i, g) + 1)):
                return False
    for j, p in enumerate(steps):
        if p["t"].startswith("Loop"):
            i = max(x for x in range(j) if types[x] == "Do " + p["t"][5:])
            if not any(x in mp.WORK for x in types[i:j]):
                return False
    # cycle counting: every step-to-step transition inside a technique must stand for one number of advances
    seen, todo, adv = set(), [], {}
    pc, cnt, a = mp.settle(steps, 0, ())
    todo.append((pc, cnt))
    while todo:
        st = todo.pop()
        if st in seen or st[0] is None:
            continue
        seen.add(st)
        for e in steps[st[0]]["ends"]:
            q, c2, a = mp.settle(steps, e[2] - 1, st[1])
            if q is not None:
                if part[q] == part[st[0]]:
                    adv.setdefault((st[0], q, dict(st[1]).get("1") == dict(c2).get("1") or part[q] == 0), set()).add(a)
                else:
                    adv.setdefault((part[st[0]], "exit"), set()).add(a)
            todo.append((q, c2))
    return all(len(v) == 1 for v in adv.values()) and not any(k[0] == k[1] and max(v) > 0 for k, v in adv.items())


def convert(steps, d, setup=None):
    from beep.protocol.maccor_to_biologic_mb import MaccorToBiologicMb
    src = os.path.join(d, "proc.000")
    text = mp.xml(steps)
    open(src, "w", encoding="UTF-8").write(text)
    od = os.path.join(d, "out")
    os.makedirs(od, exist_ok=True)
    c = MaccorToBiologicMb()
    if setup:
        setup(c)
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf):
            res = c.convert(src, od, "p")
    except Exception as e:
        res = e
    return res, od, open(src, encoding="UTF-8").read() == text


def run_case(case, out):
    out.nontrivial = False
    out = Tell(out, case)
    with tempfile.TemporaryDirectory() as d:
        if case["k"] == "rules":
            return rules_roundtrip(case, out)
        if case["k"] == "mappers":
            return mappers(case, out, d)
        explore(case, out, d)


def explore(case, out, d):
    steps = program(case)
    tag = json.dumps(case, sort_keys=True)
    win = WINDOWS[case.get("win", 0)]

    def setup(c):
        c.max_voltage_v, c.min_voltage_v, c.max_current_a, c.min_current_a = win
    try:
        mp.settle(steps, 0, ())
        stuck = False
    except (mp.Stuck, StopIteration, ValueError):
        stuck = True
    out.call("convert", tag)
    res, od, same = convert(steps, d, setup)
    out.expect(same, "source", tag, "the procedure file was changed")
    if isinstance(res, Exception):
        out.see("refused", type(res).__name__)
        if os.listdir(od):
            out.bad("refused-output", tag, "refused (%s: %s) but wrote %r" % (type(res).__name__, res, os.listdir(od)))
        try:
            must = not stuck and must_convert(case, steps)
        except mp.Stuck:
            must = False
        if must:
            out.bad("refused", tag, "supported procedure refused: %s: %s" % (type(res).__name__, str(res)[:300]))
        return
    if case["k"] == "bad":
        out.bad("accepted", tag, "unsupported procedure converted")
        return
    if stuck:
        return
    types = [p["t"] for p in steps]
    for j, ty in enumerate(types):
        if ty.startswith("Loop"):
            i = max(x for x in range(j) if types[x] == "Do " + ty[5:])
            for w, p in enumerate(steps):
                if p["t"] in mp.WORK and not i < w < j and any(i < e[2] - 1 <= j for e in p["ends"]):
                    out.see("jump into a loop")
                    return
    fp, rule_fps = res
    head, techs = parse(open(fp, encoding="ISO-8859-1", newline="").read())
    out.expect(any(h == "Number of linked techniques : %d" % len(techs) for h in head), "count", tag, "number of techniques in the header: %r" % head[2:3])
    out.expect([t["num"] for t in techs] == list(range(1, len(techs) + 1)), "count", tag, "technique numbers %r" % [t["num"] for t in techs])
    out.expect("\tEcell min = %.2f V" % win[1] in head and "\tEcell max = %.2f V" % win[0] in head, "safety", tag, "safety limits in the header: %r" % head[8:11])
    for t in techs:
        for j, s in enumerate(t.get("seqs", [])):
            if s["Ns"] != str(j):
                out.bad("number", tag, "sequence %d of technique %d is numbered %r" % (j, t["num"], s["Ns"]))
    bio = Bio(techs)
    out.see([t["rows"] for t in techs])
    from beep.protocol.maccor_to_biologic_mb import CycleAdvancementRulesSerializer
    rules = {}
    for f in rule_fps:
        r = CycleAdvancementRulesSerializer().parse_json(open(f).read())
        rules[r.tech_num] = r
    out.expect(sorted(rules) == [t["num"] for t in techs if t["type"] == "Modulo Bat"], "rules", tag, "rule files for techniques %r" % sorted(rules))
    working = {t["num"]: any(s["ctrl_type"] != "Loop" for s in t.get("seqs", [])) for t in techs}
    if not all(working[t] for t in rules):
        out.see("empty technique")
        return
    try:
        pc, cnt, adv = mp.settle(steps, 0, ())
        b = bio.settle(0, 0, (), ())
        start = (pc, 0, cnt, b)
        adv0 = adv
        if (pc is None) != (b is None):
            out.bad("flow", tag, "procedure starts at %r, settings at %r" % (pc, b))
            return
        seen, todo = {}, [start]
        edges = {}
        while todo:
            st = todo.pop()
            if st in seen or st[0] is None:
                continue
            seen[st] = True
            pc, ph, cnt, (ti, si, loops, tl) = st
            p = steps[pc]
            s = techs[ti]["seqs"][si]
            phs = phases(p, win)
            got = compare(p, phs[ph], s, si, out, tag + " step %d phase %d" % (pc + 1, ph))
            if got is None or out.violations:
                return
            tg, nxt = got
            es = []
            if phs[ph][3]:
                nb = bio.settle(ti, nxt, loops, tl) if nxt is not None else None
                if nb is None:
                    out.bad("flow", tag, "step %d: the limit leads to the end instead of the second phase" % (pc + 1))
                    return
                es.append((pc, ph + 1, cnt, nb, 0))
            for j, e in enumerate(p["ends"]):
                if j not in tg:
                    continue
                q, c2, a = mp.settle(steps, e[2] - 1, cnt)
                nb = bio.settle(ti, tg[j], loops, tl) if tg[j] is not None else None
                if (q is None) != (nb is None):
                    out.bad("flow", tag, "step %d end %r: procedure goes to %s, settings to %s" % (pc + 1, e, "End" if q is None else q + 1, nb and nb[:2]))
                    return
                es.append((q, 0, c2, nb, a))
            edges[st] = es
            for q, f, c2, nb, a in es:
                out.see("edge")
                if q is None:
                    continue
                t1, t2 = techs[ti]["num"], techs[nb[0]]["num"]
                l1, l2 = dict(tl).get(t1, 0), dict(nb[3]).get(t2, 0)
                if t1 != t2:
                    w = rules[t2].adv_cycle_on_start
                elif l1 != l2:
                    w = rules[t1].adv_cycle_on_tech_loop
                elif si != nb[1]:
                    w = rules[t1].adv_cycle_seq_transitions.get((si, nb[1]), 0)
                else:
                    w = 0
                if w != a:
                    out.bad("cycle", tag, "step %d -> step %d advances %d cycles, the rules give %d (technique %d sequence %d -> technique %d sequence %d)" % (pc + 1, q + 1, a, w, t1, si, t2, nb[1]))
                    return
                todo.append((q, f, c2, nb))
        out.expect(start[0] is None or rules[techs[start[3][0]]["num"]].adv_cycle_on_start == adv0, "cycle", tag, "advances before the first step: %d expected" % adv0)
        for pick in (0, -1):
            full_run(case, out, tag, start, edges, techs, rule_fps, rules, adv0, d, pick)
            if out.violations:
                return
    except mp.Stuck:
        out.see("stuck")
        return
    except LookupError as e:
        out.bad("flow", tag, str(e))
        return
    out.nontrivial(len(steps) > 2)


def full_run(case, out, tag, start, edges, techs, rule_fps, rules, adv0, d, pick):
    """Write the data files a complete run would leave and number their cycles with the real code."""
    from beep.protocol.maccor_to_biologic_mb import add_cycle_nums_to_csvs
    rows, st, cyc, used = {}, start, 1 + adv0, []
    for _ in range(300):
        if st[0] is None:
            break
        t = techs[st[3][0]]["num"]
        loop = dict(st[3][3]).get(t, 0)
        if t not in rows:
            rows[t] = []
            used.append(t)
        rows[t].append((st[3][1], loop, cyc))
        if len(rows[t]) % 2:
            rows[t].append((st[3][1], loop, cyc))
        if st not in edges or not edges[st]:
            return
        q, f, c2, nb, a = edges[st][pick]
        cyc += a
        st = (q, f, c2, nb)
    else:
        return
    if used != sorted(used):
        return
    fps = dict(zip(sorted(rules), rule_fps))
    ins, outs, rf = [], [], []
    for t in used:
        i, o = os.path.join(d, "t%d.csv" % t), os.path.join(d, "t%d.out.csv" % t)
        with open(i, "w") as f:
            f.write("Ns;Loop;x\n" + "".join("%d;%d;%d\n" % (r[0], r[1], n) for n, r in enumerate(rows[t])))
        ins.append(i)
        outs.append(o)
        rf.append(fps[t])
    out.call("add_cycle_nums_to_csvs", tag)
    before = [open(i).read() for i in ins]
    add_cycle_nums_to_csvs(ins, rf, outs)
    out.expect(before == [open(i).read() for i in ins], "csv", tag, "data files were changed")
    import pandas as pd
    for t, o in zip(used, outs):
        got = pd.read_csv(o, sep=";")
        if list(got["cycle_index"]) != [r[2] for r in rows[t]] or list(got["Ns"]) != [r[0] for r in rows[t]] or list(got["x"]) != list(range(len(rows[t]))):
            out.bad("cycle-index", tag, "technique %d rows (Ns, Loop, cycle) %r numbered %r" % (t, rows[t], list(got["cycle_index"])))
            return


def rules_roundtrip(case, out):
    from beep.protocol.maccor_to_biologic_mb import CycleAdvancementRules, CycleAdvancementRulesSerializer
    n = case["n"]
    pairs = list(itertools.product(range(3), repeat=2))
    for tr in itertools.combinations(pairs, n):
        for loop, a, b in itertools.product((True, False), (0, 2), (0, 1)):
            r = CycleAdvancementRules(3, loop, a, b, {p: i + 1 for i, p in enumerate(tr)}, {(p[0] + 10, p[1] + 10): i + 1 for i, p in enumerate(tr)})
            s = CycleAdvancementRulesSerializer()
            q = s.parse_json(s.json(r))
            out.call("rules", [tr, loop, a, b])
            if vars(q) != vars(r):
                out.bad("rules", json.dumps([tr, loop, a, b]), "rules %r read back as %r" % (vars(r), vars(q)))
                return
    out.nontrivial(n > 0)


def mappers(case, out, d):
    """Every configured mapping is applied to every sequence, in order."""
    def m(k, v):
        def f(tech, seq, i):
            s = dict(seq)
            s[k] = v + (s[k] if k == "Bandwidth" else "")
            return s
        return f
    fs = [m("I Range", "1 A"), m("auto rest", "1"), m("Bandwidth", "7")]
    keys = ["I Range", "auto rest", "Bandwidth"]
    sm = []

    def setup(c):
        c.seq_mappers += [fs[x] for x in case["m"]]

        def drop(step, n):
            s = json.loads(json.dumps(step))
            if isinstance(s.get("Ends", None) and s["Ends"].get("EndEntry"), list):
                s["Ends"]["EndEntry"] = s["Ends"]["EndEntry"][:1]
            return s

        def slow(step, n):
            s = json.loads(json.dumps(step))
            if s["StepType"] == "Charge":
                s["StepValue"] = "0.25"
            return s
        c.step_mappers += [drop, slow]
    res, od, _ = convert(program(case), d, setup)
    tag = json.dumps(case)
    if isinstance(res, Exception):
        out.bad("mappers", tag, "%s: %s" % (type(res).__name__, res))
        return
    seqs = parse(open(res[0], encoding="ISO-8859-1", newline="").read())[1][0]["seqs"]
    base = {"I Range": "1 mA", "auto rest": "0", "Bandwidth": "4"}
    for x in case["m"]:
        k = keys[x]
        base[k] = {"I Range": "1 A", "auto rest": "1", "Bandwidth": "7" + base["Bandwidth"]}[k]
    for s in seqs:
        if any(s[k] != base[k] for k in keys):
            out.bad("mappers", tag, "expected %r, sequence has %r" % (base, {k: s[k] for k in keys}))
            return
    out.expect(seqs[0]["lim_nb"] == "1" and seqs[0]["ctrl1_val"] == "250.000", "mappers", tag, "step mappings not applied: lim_nb %s value %s" % (seqs[0]["lim_nb"], seqs[0]["ctrl1_val"]))
    out.nontrivial()

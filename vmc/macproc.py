"""Small Maccor procedures as data, their XML form and their reference machine.

A step is a dict: t (StepType), m (StepMode or None), v (StepValue), lim (dict or None),
ends [(EndType, Oper, target step number, value)], reps [(ReportType, value)], note.
"""
import itertools


def pad(s, n=8):
    s = s or " "
    while len(s) < n:
        s = s.center(n)
    return s


def esc(v):
    return str(v).replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")


def step(t, m=None, v="", lim=None, ends=(), reps=(), note=""):
    return {"t": t, "m": m, "v": v, "lim": lim, "ends": [list(e) for e in ends], "reps": [list(r) for r in reps], "note": note}


def xml(steps):
    s = '<?xml version="1.0" encoding="UTF-8"?>\n<?maccor-application progid="Maccor Procedure File"?>\n<MaccorTestProcedure>\n  <header>\n    <BuildTestVersion>\n      <major>1</major>\n      <minor>5</minor>\n      <release>7006</release>\n      <build>32043</build>\n    </BuildTestVersion>\n    <FileFormatVersion>\n      <BTVersion>11</BTVersion>\n    </FileFormatVersion>\n    <ProcDesc>\n      <desc></desc>\n    </ProcDesc>\n  </header>\n  <ProcSteps>\n'
    for p in steps:
        s += "    <TestStep>\n      <StepType>%s</StepType>\n      <StepMode>%s</StepMode>\n      <StepValue>%s</StepValue>\n" % (pad(p["t"]), pad(p["m"]), esc(p["v"]))
        if p["lim"]:
            s += "      <Limits>\n" + "".join("        <%s>%s</%s>\n" % (k, v, k) for k, v in p["lim"].items()) + "      </Limits>\n"
        else:
            s += "      <Limits/>\n"
        if p["ends"]:
            s += "      <Ends>\n" + "".join(
                "        <EndEntry>\n          <EndType>%s</EndType>\n          <SpecialType> </SpecialType>\n          <Oper>%s</Oper>\n          <Step>%03d</Step>\n          <Value>%s</Value>\n        </EndEntry>\n" % (
                    pad(t), esc(o.center(3) if len(o) < 2 else o.ljust(3)), g, v) for t, o, g, v in p["ends"]) + "      </Ends>\n"
        else:
            s += "      <Ends/>\n"
        if p["reps"]:
            s += "      <Reports>\n" + "".join("        <ReportEntry>\n          <ReportType>%s</ReportType>\n          <Value>%s</Value>\n        </ReportEntry>\n" % (pad(t), v) for t, v in p["reps"]) + "      </Reports>\n"
        else:
            s += "      <Reports/>\n"
        s += "      <Range>A</Range>\n      <Option1>N</Option1>\n      <Option2>N</Option2>\n      <Option3>N</Option3>\n      <StepNote>%s</StepNote>\n    </TestStep>\n" % esc(p["note"])
    return s + "  </ProcSteps>\n</MaccorTestProcedure>\n"


def seconds(v):
    h, m, s = (str(v).split(":") + ["0", "0"])[:3]
    return float(h or 0) * 3600 + float(m or 0) * 60 + float(s or 0)


WORK = ("Charge", "Dischrge", "Rest")


class Stuck(Exception):
    pass


def settle(steps, pc, cnt):
    """Run the silent steps from pc (0-based). Returns (pc of a working step or None at End, counters, cycle advances)."""
    cnt = dict(cnt)
    adv, seen = 0, set()
    while True:
        if pc >= len(steps):
            raise Stuck("ran off the end")
        t = steps[pc]["t"]
        if t in WORK:
            return pc, tuple(sorted(cnt.items())), adv
        if t == "End":
            return None, tuple(sorted(cnt.items())), adv
        key = (pc, tuple(sorted(cnt.items())))
        if key in seen:
            raise Stuck("endless loop without a working step")
        seen.add(key)
        if t == "AdvCycle":
            adv += 1
            pc += 1
        elif t.startswith("Do "):
            cnt[t[3:]] = 0
            pc += 1
        else:
            n = t[5:]
            cnt[n] = cnt.get(n, 0) + 1
            want = int(steps[pc]["ends"][0][3])
            if cnt[n] == want:
                pc = steps[pc]["ends"][0][2] - 1
            elif cnt[n] > want:
                raise Stuck("loop counter beyond its end")
            else:
                d = next(i for i in range(pc - 1, -1, -1) if steps[i]["t"] == "Do " + n)
                pc = d + 1


def skeletons(n, depth=2, counts=(1, 2, 3)):
    """All well-nested token strings of exactly n tokens over W, A and loops; tokens: 'W', 'A', ('D', k), ('L', k, count)."""
    def gen(n, level):
        if n == 0:
            yield []
            return
        for tok in ("W", "A"):
            for rest in gen(n - 1, level):
                yield [tok] + rest
        if n >= 2 and level < depth:
            for inner in range(0, n - 1):
                for body in gen(inner, level + 1):
                    for rest in gen(n - 2 - inner, level):
                        for c in counts:
                            yield [["D", level + 1]] + body + [["L", level + 1, c]] + rest
    return gen(n, 0)


def build(tokens, work, swap=False):
    """tokens -> steps; work(i, number) makes the i-th working step given its step number (1-based)."""
    steps, w = [], 0
    for i, tok in enumerate(tokens):
        if tok == "W":
            steps.append(work(w, i + 1))
            w += 1
        elif tok == "A":
            steps.append(step("AdvCycle"))
        elif tok[0] == "D":
            steps.append(step("Do %d" % ((3 - tok[1]) if swap else tok[1])))
        else:
            steps.append(step("Loop %d" % ((3 - tok[1]) if swap else tok[1]), ends=[("Loop Cnt", "=", i + 2, str(tok[2]))]))
    steps.append(step("End"))
    return steps


def long_skeletons():
    """Procedures of realistic length: step numbers of two and three digits, loop counts and loop bodies of ten and more."""
    W, A = ["W"], ["A"]
    loop = lambda k, c, body: [["D", k]] + body + [["L", k, c]]
    yield W * 14
    yield (W + A) * 8
    yield A + W * 11 + A + W
    yield loop(1, 12, W * 11 + A) + W
    yield W * 9 + loop(1, 10, W + A + W) + W * 3
    yield loop(1, 10, loop(2, 11, W + W + A) + A + W) + W
    yield loop(1, 2, W * 9 + loop(2, 3, W + A) + A + W) + W * 2 + A
    yield sum([loop(1, c, W + A) for c in (2, 10, 3, 1, 11, 2, 5, 100)], [])
    yield sum([loop(1, 2, W + loop(2, c, W + A)) for c in (2, 10, 3)], []) + W
    yield W * 3 + loop(1, 3, W * 98 + A) + W * 4
    yield sum([loop(1, 2, W * 3 + A + W) for _ in range(20)], []) + A + W

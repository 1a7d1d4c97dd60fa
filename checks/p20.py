"""P20 - Biologic Modulo Bat settings -> Maccor procedure: lock-step exploration of both machines."""
import itertools
import json
import os
import tempfile
import xml.etree.ElementTree as ET

PROPERTY = "P20"
RULE = "every settings file in the bound is converted; the written procedure is parsed and both machines are run in lock step from every reachable joint state over every limit that may fire and every loop decision; non-trivial: the file is accepted"
ASSUMPTIONS = ["loop decisions are explored as free choices on both sides (the loop count itself is a known finding, pinned by an upstream test)", "a loop sequence advances the cycle once each time it is passed", "a Time limit with '<' is not claimed",
               "sequences are compared by direction, control, value in base units, limits, targets and records"]
BOUNDS = {"quick": "all sequence tables of <=6 sequences over working / loop / blank loop; one extra jump of any working sequence to any sequence or the end in <=5 sequences; all control x unit x limit x record shapes; 10 tables of 13-105 sequences with jumps",
          "thorough": "<=7 sequences, jumps in <=6"}
CHUNK = 16
KEYS = """Ns|ctrl_type|Apply I/C|ctrl1_val|ctrl1_val_unit|ctrl1_val_vs|ctrl2_val|ctrl2_val_unit|ctrl2_val_vs|ctrl3_val|ctrl3_val_unit|ctrl3_val_vs|N|charge/discharge|ctrl_seq|ctrl_repeat|ctrl_trigger|ctrl_TO_t|ctrl_TO_t_unit|ctrl_Nd|ctrl_Na|ctrl_corr|lim_nb|lim1_type|lim1_comp|lim1_Q|lim1_value|lim1_value_unit|lim1_action|lim1_seq|lim2_type|lim2_comp|lim2_Q|lim2_value|lim2_value_unit|lim2_action|lim2_seq|lim3_type|lim3_comp|lim3_Q|lim3_value|lim3_value_unit|lim3_action|lim3_seq|rec_nb|rec1_type|rec1_value|rec1_value_unit|rec2_type|rec2_value|rec2_value_unit|rec3_type|rec3_value|rec3_value_unit|E range min (V)|E range max (V)|I Range|I Range min|I Range max|I Range init|auto rest|Bandwidth""".split("|")
MU = ["\N{Micro Sign}"]
CTRL = ([("CC", "1.500", u) for u in ("A", "mA", "\N{Micro Sign}A", "nA", "pA")] + [("CV", "3.650", u) for u in ("V", "mV")] + [("CR", "12.250", u) for u in ("MOhm", "kOhm", "Ohm", "mOhm", "\N{Micro Sign}Ohm")] +
        [("CP", "0.560", u) for u in ("W", "mW", "\N{Micro Sign}W")] + [("Rest", "", "")])
LIMS = [("Time", ">", "30.000", "s"), ("Time", ">", "2.000", "h"), ("Time", ">", "90.000", "mn"), ("Time", ">", "250.000", "ms"), ("Ecell", ">", "4.200", "V"), ("Ecell", "<", "2700.000", "mV"), ("I", "<", "50.000", "mA"), ("I", ">", "2.000", "A"), ("I", "<", "1.000", "nA"), ("Time", ">", "12340.000", "ms"), ("Time", ">", "1.500", "h")]
RECS = [("Time", "10.000", "s"), ("Ecell", "10.000", "mV"), ("I", "5.000", "\N{Micro Sign}A"), ("Power", "5.000", "W"), ("Time", "100.000", "ms"), ("Ecell", "0.005", "V"), ("I", "1.000", "A")]
BADS = ["ctrl:CX", "unit:kA", "limtype:|Q|", "limcomp:=", "action:Jump", "reclim:Q", "nlim:4", "nrec:4", "vs:Ewe", "dir:Both", "goto:9", "ms:12", "tech2", "type:CV loop"]
SCALE = {"p": 1e-12, "n": 1e-9, "\N{Micro Sign}": 1e-6, "m": 1e-3, "k": 1e3, "M": 1e6}
BASE = {"Ecell": "Voltage", "I": "Current", "Time": "StepTime", "Power": "Power"}
DIRS = ["Charge", "Discharge"]


def base(v, u):
    v = float(v)
    if u in ("s", "h", "mn", "ms"):
        return v * {"s": 1, "h": 3600, "mn": 60, "ms": 1e-3}[u]
    for b in ("Ohm", "A", "V", "W"):
        if u.endswith(b):
            return v * (SCALE[u[0]] if u != b else 1)
    raise ValueError(u)


def close(a, b):
    return abs(a - b) <= 1e-9 * max(abs(a), abs(b)) + 1e-18


def tables(n):
    """All tables of n sequences: 'W', 'B' (blank loop) or a loop target."""
    def gen(i):
        if i == n:
            yield []
            return
        for tok in ["W", "B"] + list(range(i)):
            for rest in gen(i + 1):
                yield [tok] + rest
    return gen(0)


def long_tables():
    """Sequence numbers of two and three digits, loops over ten and more sequences."""
    yield ["W"] * 14
    yield ["W"] * 11 + [0, "W"]
    yield ["W"] * 12 + [10, "W"]
    yield ["W"] * 10 + [9, "W", 11, "W", "W"] + [13]
    yield sum([["W", "W", 3 * i] for i in range(5)], [])
    yield sum([["W", "B", 3 * i + 1] for i in range(5)], []) + ["W"]
    yield ["W"] * 9 + ["B", 9, "W", "B", 12, "W", "W", 14]
    yield ["W"] + sum([["W", 2 * i + 1] for i in range(8)], [])
    yield ["W"] * 100 + [98, "W", "W", 101, "W"]
    yield ["W"] * 3 + sum([["W"] * 4 + [5 * i + 3] for i in range(20)], [])


def cases(tier):
    t = tier == "thorough"
    for tb in long_tables():
        yield {"k": "flow", "t": tb}
        n, ws = len(tb), [i for i, x in enumerate(tb) if x == "W"]
        for w in sorted({0, 8, 9, 10, 99, ws[-1]} & set(ws)):
            for g in ["End", "stale"] + sorted({0, 1, 8, 9, 10, 11, 99, 100, 101, n - 1} & set(range(n))):
                yield {"k": "goto", "t": tb, "w": w, "g": g}
    for c in range(len(CTRL)):
        for dr in (0, 1):
            for l in range(len(LIMS)):
                yield {"k": "shape", "c": c, "d": dr, "l": [l], "r": [0]}
            for ls in itertools.permutations(range(0, 8), 2 if not t else 3):
                if c in (0, 5, 14) or t and c == 7:
                    yield {"k": "shape", "c": c, "d": dr, "l": list(ls), "r": [1]}
            yield {"k": "shape", "c": c, "d": dr, "l": [], "r": []}
    for n in (1, 2, 3):
        for rs in itertools.permutations(range(len(RECS)), n):
            yield {"k": "shape", "c": 1, "d": 1, "l": [0], "r": list(rs)}
    for n in range(1, 8 if t else 7):
        for tb in tables(n):
            if "W" in tb:
                yield {"k": "flow", "t": tb}
    for n in range(2, 7 if t else 6):
        for tb in tables(n):
            if sum(1 for x in tb if not isinstance(x, str)) > 2 or n == 6 and "B" in tb:
                continue
            for w in [i for i, x in enumerate(tb) if x == "W"]:
                for g in ["End", "stale"] + [x for x in range(n)]:
                    yield {"k": "goto", "t": tb, "w": w, "g": g}
    for b in range(len(BADS)):
        yield {"k": "bad", "b": b}
    for e in ("ISO-8859-1", "utf-8"):
        yield {"k": "encoding", "e": e}


def blank(i):
    s = {k: "" for k in KEYS}
    s.update({"Ns": str(i), "Apply I/C": "I", "ctrl_seq": "0", "ctrl_repeat": "0", "ctrl_trigger": "Falling Edge", "ctrl_TO_t": "0.000", "ctrl_TO_t_unit": "d", "ctrl_Nd": "6", "ctrl_Na": "1", "ctrl_corr": "1", "lim_nb": "0", "rec_nb": "0",
              "charge/discharge": "Charge", "N": "15.00", "E range min (V)": "0.000", "E range max (V)": "10.000", "I Range": "1 A", "I Range min": "Unset", "I Range max": "Unset", "I Range init": "Unset", "auto rest": "0", "Bandwidth": "4"})
    for j in "123":
        s.update({"lim%s_type" % j: "Time", "lim%s_comp" % j: ">", "lim%s_Q" % j: "Q limit", "lim%s_value" % j: "7.000", "lim%s_value_unit" % j: "s", "lim%s_action" % j: "Next sequence", "lim%s_seq" % j: str(i + 1),
                  "rec%s_type" % j: "Time", "rec%s_value" % j: "10.000", "rec%s_value_unit" % j: "s"})
    return s


def setlim(s, j, lim, action="Next sequence", seq=None):
    ty, co, v, u = lim
    s["lim%d_type" % j], s["lim%d_comp" % j], s["lim%d_value" % j], s["lim%d_value_unit" % j], s["lim%d_action" % j] = ty, co, v, u, action
    if seq is not None:
        s["lim%d_seq" % j] = str(seq)
    s["lim_nb"] = str(max(int(s["lim_nb"]), j))


def setrec(s, j, rec):
    s["rec%d_type" % j], s["rec%d_value" % j], s["rec%d_value_unit" % j] = rec
    s["rec_nb"] = str(max(int(s["rec_nb"]), j))


def work(i, c=None, dr=None):
    s = blank(i)
    ty, v, u = CTRL[c] if c is not None else (("CC", "%d.500" % (i + 1), "mA"), ("CV", "3.%d00" % i, "V"), ("Rest", "", ""))[i % 3]
    s["ctrl_type"], s["ctrl1_val"], s["ctrl1_val_unit"] = ty, v, u
    s["ctrl1_val_vs"] = "Ref" if ty == "CV" else "<None>"
    s["charge/discharge"] = DIRS[dr if dr is not None else 1]
    return s


def program(case):
    k = case["k"]
    if k == "shape":
        s0, s2 = work(0, 15), work(2, 15)
        setlim(s0, 1, LIMS[0])
        setlim(s2, 1, LIMS[1])
        s = work(1, case["c"], case["d"])
        for j, l in enumerate(case["l"]):
            setlim(s, j + 1, LIMS[l], *(("Next sequence", 2), ("Goto sequence", 0), ("End", 3))[j])
        for j, r in enumerate(case["r"]):
            setrec(s, j + 1, RECS[r])
        return [s0, s, s2]
    if k in ("bad", "encoding"):
        s = work(0, 2 if k == "encoding" else 0, 1)
        setlim(s, 1, LIMS[0])
        setrec(s, 1, RECS[2])
        if k == "bad":
            what, _, v = BADS[case["b"]].partition(":")
            for f, key in (("ctrl", "ctrl_type"), ("unit", "ctrl1_val_unit"), ("limtype", "lim1_type"), ("limcomp", "lim1_comp"), ("action", "lim1_action"), ("reclim", "rec1_type"), ("nlim", "lim_nb"), ("nrec", "rec_nb"), ("dir", "charge/discharge")):
                if what == f:
                    s[key] = v
            if what == "vs":
                s["ctrl_type"], s["ctrl1_val_unit"], s["ctrl1_val_vs"] = "CV", "V", v
            if what == "goto":
                s["lim1_action"], s["lim1_seq"] = "Goto sequence", v
            if what == "ms":
                s["lim1_value"], s["lim1_value_unit"] = v, "ms"
        return [s]
    seqs = []
    for i, tok in enumerate(case["t"]):
        if tok == "W":
            s = work(i)
            setlim(s, 1, ("Time", ">", "%d.000" % (10 + i), "s"))
            setrec(s, 1, RECS[0])
            if case["k"] == "goto" and case["w"] == i:
                if case["g"] == "End":
                    setlim(s, 2, LIMS[4], "End", i + 1)
                elif case["g"] == "stale":
                    # a target that is not in use
                    setlim(s, 2, LIMS[4], "End", 0)
                else:
                    setlim(s, 2, LIMS[4], "Goto sequence", case["g"])
        else:
            s = blank(i)
            s["ctrl_type"] = "Loop"
            if tok != "B":
                s["ctrl_seq"], s["ctrl_repeat"] = str(tok), str(i + 1)
        seqs.append(s)
    return seqs


def text(seqs, tech=1):
    t = "BT-LAB SETTING FILE\r\n\r\nNumber of linked techniques : %d\r\n\r\nFilename : C:\\a.mps\r\n\r\nDevice : BCS-815\r\nElectrode surface area : 0.001 cm\N{superscript two}\r\n" % tech
    for n in range(tech):
        t += "\r\nTechnique : %d\r\nModulo Bat\r\n" % (n + 1)
        for k in KEYS:
            t += k.ljust(20) + "".join(str(s[k]).ljust(20) for s in seqs) + "\r\n"
        for j in range(63 - 1 - len(KEYS)):
            t += ("extra%d" % j).ljust(20) + "".join("0".ljust(20) for s in seqs) + "\r\n"
    return t


# ------------------------------------------------------------------ machines
def is_blank(s):
    return s["ctrl_type"] == "Loop" and int(s["ctrl_repeat"]) == 0


def bio_next(seqs, i):
    """From sequence i, all (choices, working sequence or None, cycle advances)."""
    out, todo, seen = [], [(i, "", 0)], set()
    while todo:
        i, ch, adv = todo.pop()
        if i >= len(seqs):
            out.append((ch, None, adv))
            continue
        s = seqs[i]
        if s["ctrl_type"] != "Loop":
            out.append((ch, i, adv))
        elif is_blank(s):
            todo.append((i + 1, ch, adv))
        elif int(s["ctrl_seq"]) == i - 1 and is_blank(seqs[i - 1]):
            todo.append((i + 1, ch, adv + 1))
        else:
            if i in seen:
                continue
            seen.add(i)
            todo.append((int(s["ctrl_seq"]), ch + "L", adv + 1))
            todo.append((i + 1, ch + "X", adv + 1))
    return sorted(out, key=str)


def mac_next(steps, i, open_):
    out, todo, seen = [], [(i, "", 0, open_)], set()
    while todo:
        i, ch, adv, op = todo.pop()
        if i >= len(steps):
            raise LookupError("ran past the last step")
        t = steps[i]["t"]
        if t == "End":
            out.append((ch, None, adv, op))
        elif t in ("Charge", "Dischrge", "Rest"):
            out.append((ch, i, adv, op))
        elif t == "AdvCycle":
            todo.append((i + 1, ch, adv + 1, op))
        elif t == "Do 1":
            todo.append((i + 1, ch, adv, i))
        elif t == "Loop 1":
            do = max([x for x in range(i) if steps[x]["t"] == "Do 1"] or [-1])
            if do < 0 or op != do:
                raise LookupError("step %d closes a loop that was not entered through its Do step" % (i + 1))
            if i in seen:
                continue
            seen.add(i)
            todo.append((do + 1, ch + "L", adv, op))
            todo.append((i + 1, ch + "X", adv, None))
        else:
            raise LookupError("unknown step type %r" % t)
    return sorted(out, key=str)


def read(xmltext):
    root = ET.fromstring(xmltext.split("?>", 2)[2].strip().encode("utf-8"))
    steps = []

    def tx(e, n):
        return (e.findtext(n) or "").strip()
    for e in root.find("ProcSteps"):
        steps.append({"t": tx(e, "StepType"), "m": tx(e, "StepMode"), "v": tx(e, "StepValue"),
                      "ends": [{c.tag: (c.text or "").strip() for c in x} for x in (e.find("Ends") if e.find("Ends") is not None else [])],
                      "reps": [{c.tag: (c.text or "").strip() for c in x} for x in (e.find("Reports") if e.find("Reports") is not None else [])],
                      "lim": len(list(e.find("Limits")))})
    return steps


def seconds(v):
    h, m, s = v.split(":")
    return float(h or 0) * 3600 + float(m or 0) * 60 + float(s or 0)


def val(kind, v):
    return seconds(v) if kind == "StepTime" else float(v)


# ------------------------------------------------------------------ expectations
def must_accept(case, seqs):
    if case["k"] == "bad":
        return False
    spans = []
    for i, s in enumerate(seqs):
        if s["ctrl_type"] == "Loop" and not is_blank(s):
            to = int(s["ctrl_seq"])
            if to == i - 1 and is_blank(seqs[to]):
                spans.append((i, i))
                continue
            if seqs[to]["ctrl_type"] == "Loop":
                return False
            if any(a <= to <= b for a, b in spans) or any(to <= a for a, b in spans if b < i and a >= to):
                return False
            spans.append((to, i))
    if case["k"] == "goto" and isinstance(case["g"], int):
        w, g = case["w"], case["g"]
        if seqs[g]["ctrl_type"] == "Loop":
            return False
        inside = [x for x in spans if x[0] <= w <= x[1]]
        ok = False
        if inside:
            a, b = inside[0]
            ok = a <= g <= b
        else:
            at = [x for x in spans if x[0] <= g <= x[1]]
            ok = (not at and not any(g <= b < w for a, b in spans)) or (at and g == at[0][0] and g > w)
        if not ok:
            return False
    return True


def run_case(case, out):
    from beep.protocol.biologic_mb_to_maccor import BiologicMbToMaccorProcedure as B
    out.nontrivial = False
    seqs = program(case)
    tag = json.dumps(case, sort_keys=True)
    src = text(seqs, 2 if case["k"] == "bad" and BADS[case["b"]] == "tech2" else 1)
    if case["k"] == "bad" and BADS[case["b"]].startswith("type:"):
        src = src.replace("Modulo Bat", "Constant C")
    enc = case.get("e", "ISO-8859-1")
    with tempfile.TemporaryDirectory() as d:
        p, o = os.path.join(d, "a.mps"), os.path.join(d, "a.000")
        open(p, "wb").write(src.encode(enc))
        out.call()
        err = None
        try:
            B.convert(p, o, **({} if enc == "ISO-8859-1" else {"mps_file_encoding": enc}))
        except Exception as e:
            err = e
        out.expect(open(p, "rb").read() == src.encode(enc), "source", tag + ": the settings file was changed")
        if err is not None:
            out.see("refused")
            out.expect(not os.path.exists(o), "refused-output", tag + ": refused but wrote a file")
            if must_accept(case, seqs):
                out.bad("refused", "%s: supported settings refused: %s: %s" % (tag, type(err).__name__, str(err)[:200]))
            return
        if case["k"] == "bad":
            out.bad("accepted", tag + " (%s): unsupported settings converted" % BADS[case["b"]])
            return
        xml = open(o, encoding="utf-8", newline="").read()
    ls = xml.splitlines()
    out.expect(ls[:3] == ['<?xml version="1.0" encoding="UTF-8"?>', '<?maccor-application progid="Maccor Procedure File"?>', "<MaccorTestProcedure>"] and ls[-1] == "</MaccorTestProcedure>", "file", tag + ": not a procedure file")
    out.expect(B.biologic_mb_text_to_maccor_xml(src) == xml, "repeat", tag + ": a second conversion gives another procedure")
    steps = read(xml)
    out.see(steps)
    out.nontrivial = len(seqs) > 1
    if not steps or steps[-1]["t"] != "End" or [s["t"] for s in steps].count("End") != 1:
        out.bad("end", tag + ": step types %r" % [s["t"] for s in steps])
        return
    try:
        walk(case, out, seqs, steps, tag)
    except LookupError as e:
        out.bad("flow", "%s: %s" % (tag, e))


def pair(out, tag, here, a, b, todo):
    """Match all continuations of both machines."""
    if [(x[0], x[1] is None, x[2]) for x in a] != [(x[0], x[1] is None, x[2]) for x in b]:
        out.bad("flow", "%s: %s: settings continue at %r, procedure at %r" % (tag, here, a, b))
        return
    for x, y in zip(a, b):
        if x[1] is not None:
            todo.append((x[1], y[1], y[3]))


def walk(case, out, seqs, steps, tag):
    todo, seen, image = [], set(), {}
    for i, s in enumerate(steps):
        if s["t"] == "Loop 1":
            # known finding: the count of a loop is written where Maccor does not look for it
            e = s["ends"][0] if len(s["ends"]) == 1 else {}
            back = [q for q in seqs if q["ctrl_type"] == "Loop" and not is_blank(q)]
            do = max([x for x in range(i) if steps[x]["t"] == "Do 1"] or [-1]) + 1
            nth = [x for x in range(len(steps)) if steps[x]["t"] == "Loop 1"].index(i)
            real = [q for q in back if not (int(q["ctrl_seq"]) == int(q["Ns"]) - 1 and is_blank(seqs[int(q["ctrl_seq"])]))]
            rep = real[nth]["ctrl_repeat"] if nth < len(real) else None
            if e.get("Value", "") == "" and e.get("StepValue") == rep and e.get("Step") == "%03d" % do and e.get("EndType") == "Loop Cnt" and e.get("Oper") == "=":
                out.bad("loop-count-field", "%s: loop step %d has no count in Value" % (tag, i + 1))
            elif e.get("Value") != str(int(rep or 0) + 1) or e.get("Step") != "%03d" % (i + 2) or e.get("EndType") != "Loop Cnt":
                out.bad("loop-count", "%s: loop step %d ends %r for ctrl_repeat %s" % (tag, i + 1, e, rep))
    pair(out, tag, "start", bio_next(seqs, 0), mac_next(steps, 0, None), todo)
    while todo:
        st = todo.pop()
        if st in seen:
            continue
        seen.add(st)
        si, pi, op = st
        if image.setdefault(si, pi) != pi:
            out.bad("flow", "%s: sequence %d runs as step %d and step %d" % (tag, si, image[si] + 1, pi + 1))
            return
        s, p = seqs[si], steps[pi]
        here = "sequence %d, step %d" % (si, pi + 1)
        ty = s["ctrl_type"]
        if ty == "Rest":
            out.expect(p["t"] == "Rest" and p["m"] == "" and p["v"] == "", "control", "%s: %s: rest became %s %s %s" % (tag, here, p["t"], p["m"], p["v"]))
        else:
            want = {"Charge": "Charge", "Discharge": "Dischrge"}[s["charge/discharge"]]
            if p["t"] != want:
                out.bad("charge-as-discharge" if p["t"] == "Dischrge" else "direction", "%s: %s: %s became %s" % (tag, here, s["charge/discharge"], p["t"]))
            mode = {"CC": "Current", "CV": "Voltage", "CR": "Resistance", "CP": "Power"}[ty]
            out.expect(p["m"] == mode, "control", "%s: %s: %s became %r" % (tag, here, ty, p["m"]))
            try:
                ok = close(float(p["v"]), base(s["ctrl1_val"], s["ctrl1_val_unit"]))
            except ValueError:
                ok = False
            out.expect(ok, "value", "%s: %s: %s %s became %r" % (tag, here, s["ctrl1_val"], s["ctrl1_val_unit"], p["v"]))
        out.expect(p["lim"] == 0, "limits", "%s: %s: has step limits" % (tag, here))
        n = int(s["lim_nb"])
        if len(p["ends"]) != n:
            out.bad("ends", "%s: %s: %d limits became %d end conditions" % (tag, here, n, len(p["ends"])))
            return
        for j in range(1, n + 1):
            e = p["ends"][j - 1]
            k = BASE[s["lim%d_type" % j]]
            oper = "=" if k == "StepTime" else {">": ">=", "<": "<="}[s["lim%d_comp" % j]]
            try:
                ok = e["EndType"] == k and e["Oper"] == oper and close(val(k, e["Value"]), base(s["lim%d_value" % j], s["lim%d_value_unit" % j]))
            except ValueError:
                ok = False
            out.expect(ok, "ends", "%s: %s: limit %s %s %s %s became %r" % (tag, here, s["lim%d_type" % j], s["lim%d_comp" % j], s["lim%d_value" % j], s["lim%d_value_unit" % j], e))
            act = s["lim%d_action" % j]
            g = {"Next sequence": si + 1, "End": len(seqs), "Goto sequence": int(s["lim%d_seq" % j])}[act]
            try:
                t = int(e["Step"]) - 1
            except ValueError:
                out.bad("ends", "%s: %s: target %r" % (tag, here, e["Step"]))
                return
            if not 0 <= t < len(steps):
                out.bad("ends", "%s: %s: target %r of %d steps" % (tag, here, e["Step"], len(steps)))
                return
            pair(out, tag, here + " limit %d" % j, bio_next(seqs, g), mac_next(steps, t, op), todo)
        if n == 0:
            out.expect(p["ends"] == [], "ends", "%s: %s: end conditions without limits" % (tag, here))
        r = int(s["rec_nb"])
        want = [(BASE[s["rec%d_type" % j]], base(s["rec%d_value" % j], s["rec%d_value_unit" % j])) for j in range(1, r + 1)]
        try:
            got = [(x["ReportType"], val(x["ReportType"], x["Value"])) for x in p["reps"]]
        except ValueError:
            got = [x for x in p["reps"]]
        out.expect(len(got) == len(want) and all(a[0] == b[0] and close(a[1], b[1]) for a, b in zip(got, want)), "records", "%s: %s: records %r became %r" % (tag, here, want, got))
        if any(k not in ("charge-as-discharge", "loop-count-field") for k, _ in out.problems):
            return

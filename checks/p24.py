"""P24 - splicing two Maccor exports: all small pairs of counter sequences."""
import itertools
import os
import tempfile

PROPERTY = "P24"
RULE = "every pair (how the first export ends, how the second begins) for every counter, for all counters at once and for each counter deviating alone; x file shapes; non-trivial: every pair"
ASSUMPTIONS = ["a counter of the second export that starts below the last value of the first has restarted; one that starts at or above it was continued by the cycler"]
BOUNDS = {"quick": "1-3 rows per file; counter steps over {0,1,2,5}; each of the 7 counters alone against 2 settings of the others",
          "thorough": "counter steps over {0,1,2,3,5,7}, pairs of counters deviating together"}
CHUNK = 40
COUNT = ["Rec#", "Cyc#", "Test (Sec)", "Loop1", "Loop2", "Loop3", "Loop4"]
HEAD = ["Rec#", "Cyc#", "Step", "Test (Sec)", "Step (Sec)", "Amp-hr", "Watt-hr", "Amps", "Volts", "State", "ES", "DPt Time", "ACImp/Ohms", "Loop1", "Loop2", "Loop3", "Loop4", "Flags"]


def seqs(vals, n):
    return [list(s) for k in range(1, n + 1) for s in itertools.product(vals, repeat=k)]


def cases(tier):
    vals = (0, 1, 2, 3, 5, 7) if tier == "thorough" else (0, 1, 2, 5)
    for a in seqs(vals, 3 if tier == "thorough" else 2):
        for b in seqs(vals, 2):
            yield {"all": [a, b]}
            for c in range(len(COUNT)):
                for o in (0, 1):
                    yield {"dev": {str(c): [a, b]}, "o": o}
    if tier == "thorough":
        for c, d in itertools.combinations(range(len(COUNT)), 2):
            for x, y in itertools.product(((1, 0), (0, 1), (2, 2), (5, 3)), repeat=2):
                yield {"dev": {str(c): [[x[0]], [x[1]]], str(d): [[y[0]], [y[1]]]}, "o": 0}
    for k in range(6):
        yield {"all": [[3, 5], [1, 2]], "shape": k}
        yield {"all": [[3, 5], [7, 8]], "shape": k}


def run_case(case, out):
    from beep.utils.splice import MaccorSplice
    import beep.utils as bu

    def seq(c, which):
        if "all" in case:
            return case["all"][which]
        s = case["dev"].get(str(c))
        if s:
            return s[which]
        return [[3, 4], [1, 2]][which] if case["o"] == 0 else [[3, 4], [5, 6]][which]

    def rows(which):
        n = max(len(seq(c, which)) for c in range(len(COUNT)))
        rs = []
        for i in range(n):
            r = {}
            for c, name in enumerate(COUNT):
                s = seq(c, which)
                v = s[min(i, len(s) - 1)] if i < len(s) else s[-1]
                r[name] = "%.4f" % (v * 1.25) if name == "Test (Sec)" else str(v)
            r.update({"Step": str(9 - i + which), "Step (Sec)": "%.2f" % (1.5 + i), "Amp-hr": "%.10f" % (0.0123456789 * (i + 1) + which), "Watt-hr": "1.2E-05", "Amps": "-0.25", "Volts": "%.8f" % (3.71415926 + i),
                      "State": "CDRS"[(i + which) % 4], "ES": str(128 + i), "DPt Time": "12/31/2019 23:5%d:00" % i, "ACImp/Ohms": "" if i == 0 else "0.5", "Flags": "a b" if which else ""})
            rs.append(r)
        return rs
    shape = case.get("shape", 0)
    nl = "\r\n" if shape == 1 else "\n"
    last_nl = shape != 2
    heads = [list(HEAD), list(HEAD)]
    if shape == 3:
        heads[1] = HEAD[::-1]
    if shape == 4:
        heads[1] = HEAD + ["Extra"]
    meta = ["Today's Date\t01/02/2020\tDate of Test:\t12/30/2019\tFilename:\tC:\\x\\PreDiag_1.001\n", "Today's Date\t01/03/2020\tFilename:\tother\n"]
    data = [rows(0), rows(1)]
    if shape == 4:
        for r in data[1]:
            r["Extra"] = "7"
    if shape == 5:
        data[0][0]["Cyc#"], data[0][-1]["Cyc#"] = "9", "5"   # a counter that fell inside the first export
    with tempfile.TemporaryDirectory() as d:
        names = [os.path.join(d, "a.001"), os.path.join(d, "b.002")]
        raw = []
        for k in (0, 1):
            text = meta[k].replace("\n", nl) + "\t".join(heads[k]) + nl + nl.join("\t".join(r[h] for h in heads[k]) for r in data[k]) + (nl if last_nl else "")
            with open(names[k], "w", newline="") as f:
                f.write(text)
            raw.append(text)
        o = os.path.join(d, "o.txt")
        cls = bu.MaccorSplice if shape == 1 else MaccorSplice
        cls(names[0], names[1], o).run_splice()
        out.call()
        for k in (0, 1):
            with open(names[k], newline="") as f:
                out.expect(f.read() == raw[k], "input-changed", lambda: "an input file was modified")
        with open(o) as f:
            got = f.read().split("\n")
    out.see(got)
    exp = [dict(r) for r in data[0]]
    shift = {c: (float(data[0][-1][c]) if float(data[1][0][c]) < float(data[0][-1][c]) else 0.0) for c in COUNT}
    for r in data[1]:
        exp.append({h: (float(r[h]) + shift[h] if h in shift else r[h]) for h in r})
    out.expect(got[0].strip() == meta[0].strip(), "meta", lambda: "metadata line %r" % got[0])
    while got and got[-1].strip() == "":
        got.pop()
    hd = got[1].rstrip("\r").split("\t")
    out.expect(set(hd) == set(heads[0]) | set(heads[1]) and len(hd) == len(set(hd)), "columns", lambda: "columns %s" % hd)
    body = [dict(zip(hd, l.rstrip("\r").split("\t"))) for l in got[2:]]
    if not out.expect(len(body) == len(exp), "rows", lambda: "%d rows, expected %d" % (len(body), len(exp))):
        return
    for i, (b, e) in enumerate(zip(body, exp)):
        for h in hd:
            v, w = b.get(h, ""), e.get(h, "")
            try:
                ok = abs(float(v) - float(w)) <= 1e-9 * max(1.0, abs(float(w)))
            except ValueError:
                ok = v.strip() == str(w).strip()
            out.expect(ok, "value:%s" % h, lambda: "row %d column %s is %r, expected %r (first file ends %s, second starts %s)" % (
                i, h, v, w, data[0][-1].get(h), data[1][0].get(h)))
        for h in ("Rec#", "Cyc#", "Step"):
            out.expect("." not in b[h] and "e" not in b[h].lower(), "int:%s" % h, lambda: "column %s became %r" % (h, b[h]))
    for c in COUNT:
        v = [float(b[c]) for b in body]
        n = len(data[0])
        out.expect(v[n] >= v[n - 1], "backwards:%s" % c, lambda: "%s falls from %s to %s at the join" % (c, v[n - 1], v[n]))

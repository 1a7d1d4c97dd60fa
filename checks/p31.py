"""P31 - impedance spectra: every small impedance file, every set of files in a folder, every form of spectrum saved and reloaded."""
import datetime
import itertools
import json
import math
import os
import tempfile

PROPERTY = "P31"
RULE = ("every combination of header fields, line ending, columns, rows and gaps of an impedance file; every subset of the files of a folder x kinds of folder and file name, found or listed in every order; "
        "every shape of table and metadata saved by dictionary and by file; non-trivial: a spectrum was read or reloaded")
ASSUMPTIONS = ["header values are stripped of white space before they are compared", "the order of runs that are found, rather than asked for, is not specified"]
BOUNDS = {"quick": "files of <=3 rows x <=4 columns with gaps, 6 sweeps x 4 names, 60 start times; subsets of 7 files in 8 kinds of folder; lists of <=3 runs; 6 tables x 9 metadata x 3 ways of saving",
          "thorough": "files of <=5 rows x <=6 columns, 400 start times"}
CHUNK = 40

SWEEPS = ["Open Circut Voltage", "Open Circuit Voltage", "Constant Voltage", "Circut", "Sweep: Frequency Sweep", "  "]
NAMES = ["EIS 1.000FRA default", "Start Date: x", "m\u00fc", "a\tb  c"]
COLS = ["Freq(Hz)", "Polar(V)", "Z'(a)", "Z''(b)", "Status", "C(F)"]
FOLDERS = ["plain", "two words", "run [1]", "star*", "quest?", "dot.dir", "\u00fcml\u00e4ut", "[a-z]"]
BASES = ["PreDiag_000001_00012", "Cell [3]", "x.y", "a*b"]


def date(i):
    return datetime.datetime(2016 + i % 5, 1 + (i * 5) % 12, 1 + (i * 7) % 28, (i * 11) % 24, (i * 13) % 60)


def head(d, pad):
    return "%s, %s %d, %d Start Time: %s%d:%02d" % (d.strftime("%A"), d.strftime("%B"), d.day, d.year, "  " if pad else "", d.hour, d.minute)


def value(r, c, gap):
    if gap == "none" or gap == "col" and c != 1 or gap == "one" and (r, c) != (1, 0) or gap == "tail" and c < 2:
        w = (r * 37 + c * 11 + r * c * 5 + 13) % 89
        return [w * 11236.0625, -w / 16.0, w / 1024.0][c % 3]
    return None


def text(case):
    nl = "\r\n" if case["crlf"] else "\n"
    d = date(case["d"])
    cols = COLS[:case["nc"]]
    lines = ["MACCOR, INC.    AC Impedance Test", "Frequency Sweep:   " + SWEEPS[case["s"]], NAMES[case["n"]], "HOST_%d.EDA0001.041" % case["n"], "Line 4", "Line 5",
             "Start Date:  " + head(d, case["pad"]), "Line 7", "0.0005  2  0 %d" % case["d"], "", "\t".join(cols)]
    if case["blank"]:
        lines.append("")
    for r in range(case["nr"]):
        vals = [value(r, c, case["gap"]) for c in range(case["nc"])]
        cells = ["" if v is None else repr(v) for v in vals]
        if case["gap"] == "tail":
            cells = cells[:2]
        lines.append("\t".join(cells))
    return nl.join(lines) + (nl if case["end"] else "")


def cases(tier):
    t = tier == "thorough"
    base = {"k": "file", "s": 0, "n": 0, "d": 0, "pad": 0, "crlf": 1, "nc": 3, "nr": 2, "gap": "none", "blank": 1, "end": 1}
    for s, n, crlf, pad in itertools.product(range(len(SWEEPS)), range(len(NAMES)), (0, 1), (0, 1)):
        yield dict(base, s=s, n=n, crlf=crlf, pad=pad)
    for d in range(400 if t else 60):
        yield dict(base, d=d, pad=d % 2)
    for nc, nr, gap, blank, crlf, end in itertools.product(range(1, 7 if t else 5), range(0, 6 if t else 4), ("none", "col", "one", "tail"), (0, 1), (0, 1), (0, 1)):
        if gap == "none" or gap == "col" and nc > 1 or gap == "one" and nr > 1 and nc > 1 or gap == "tail" and nc > 2 and nr:
            yield dict(base, nc=nc, nr=nr, gap=gap, blank=blank, crlf=crlf, end=end)
    for f in range(len(FOLDERS)):
        for b in range(len(BASES)):
            subs = itertools.product((0, 1), repeat=7) if f == b == 0 or t else [(1,) * 7, (0,) * 7] + [tuple(int(i == j) for j in range(7)) for i in range(7)]
            for m in subs:
                yield {"k": "find", "f": f, "b": b, "m": list(m)}
    for n in (1, 2, 3):
        for o in itertools.permutations(range(3), n):
            yield {"k": "list", "o": list(o)}
    for bad in range(5):
        for o in ([0], [0, 1], [1, 0]):
            yield {"k": "bad", "o": o, "bad": bad}
    for tab in range(6):
        for md in range(9):
            for how in range(3):
                yield {"k": "save", "t": tab, "md": md, "how": how}


def eq(a, b):
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(eq(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    return a == b


def frame(f):
    return {c: [x for x in f[c].tolist()] for c in f.columns}


def spectrum(e):
    return {k: v.strip() if isinstance(v, str) else v for k, v in e.metadata.items()}, frame(e.data)


def expected(case):
    s = SWEEPS[case["s"]].strip().replace("Circut", "Circuit")
    if "Frequency Sweep" in s:
        s = None
    md = {"frequency_sweep": s, "method": NAMES[case["n"]].strip(), "filename": "HOST_%d.EDA0001.041" % case["n"], "start": date(case["d"]).isoformat(),
          "line_8": ["0.0005", "2", "0", str(case["d"])]}
    return md, {c: [float("nan") if value(r, i, case["gap"]) is None else value(r, i, case["gap"]) for r in range(case["nr"])] for i, c in enumerate(COLS[:case["nc"]])}


def record(path):
    from beep.structure.maccor import MaccorDatapath
    import pandas as pd
    return MaccorDatapath(raw_data=pd.DataFrame({"cycle_index": [0], "voltage": [3.5]}), metadata={"barcode": "b", "protocol": "p", "channel_id": 1}, paths={"raw": path})


def run_case(case, out):
    with tempfile.TemporaryDirectory() as td:
        globals()["k_" + case["k"]](case, out, td)


def snapshot(td):
    return {os.path.join(p, f): open(os.path.join(p, f), "rb").read() for p, _, fs in os.walk(td) for f in fs}


def k_file(case, out, td):
    from beep.structure.maccor import MaccorDatapath
    fn = os.path.join(td, "a.EDA0001.070")
    open(fn, "w", newline="", encoding="utf-8").write(text(case))
    before = snapshot(td)
    out.call()
    e = MaccorDatapath.MaccorEIS.from_file(fn)
    md, data = spectrum(e)
    wmd, wdata = expected(case)
    if wmd["frequency_sweep"] is None:
        wmd["frequency_sweep"] = md.get("frequency_sweep")
    out.see(md, repr(data))
    out.expect(md == wmd, "header", lambda: "%s, expected %s" % (md, wmd))
    out.expect(list(data) == list(wdata) and all(eq([float(x) for x in data[c]], wdata[c]) for c in data), "rows", lambda: "%s, expected %s" % (data, wdata))
    roundtrip(out, e, case["d"] % 3, td, "file")
    out.expect(all(open(k, "rb").read() == v for k, v in before.items()), "changed", "the impedance file was changed")


def roundtrip(out, e, how, td, tag):
    from monty.serialization import dumpfn, loadfn
    out.call(2)
    if how == 0:
        r = type(e).from_dict(e.as_dict())
    elif how == 1:
        r = type(e).from_dict(json.loads(json.dumps(e.as_dict())))
    else:
        fn = os.path.join(td, "saved.json.gz")
        dumpfn(e, fn)
        r = loadfn(fn)
        os.remove(fn)
    out.see(type(r).__name__)
    if not out.expect(type(r) is type(e), tag + "-class", lambda: "a %s is reloaded as %s" % (type(e), type(r))):
        return
    out.expect(eq(frame(r.data), frame(e.data)), tag + "-reload", lambda: "table %s is reloaded as %s" % (frame(e.data), frame(r.data)))
    if isinstance(e.metadata, dict):
        out.expect(isinstance(r.metadata, dict) and eq(r.metadata, e.metadata), tag + "-metadata", lambda: "%s is reloaded as %s" % (e.metadata, r.metadata))
    else:
        out.expect(not isinstance(r.metadata, dict) and eq(frame(r.metadata), frame(e.metadata)) and r.metadata.index.tolist() == e.metadata.index.tolist(), tag + "-metadata",
                   lambda: "%s is reloaded as %s" % (e.metadata, r.metadata))


SMALL = {"k": "file", "s": 0, "n": 0, "d": 0, "pad": 0, "crlf": 1, "nc": 3, "nr": 2, "gap": "none", "blank": 1, "end": 1}


def k_find(case, out, td):
    d = os.path.join(td, FOLDERS[case["f"]])
    os.mkdir(d)
    b = BASES[case["b"]]
    # the record's own runs first, then files of others
    names = [b + ".EDA0001.070", b + ".EDA0002.070", b + ".EDA0003.070", "Z" + b + ".EDA0001.070", b + "2.EDA0001.070", b + ".EDA0001.071", b + ".070.bak"]
    raw = os.path.join(d, b + ".070")
    open(raw, "w").write("raw\n")
    # look-alikes that a file name pattern would take for the name itself
    for other in ("plain1", "1", "a", "starX", "questX"):
        os.makedirs(os.path.join(td, other), exist_ok=True)
    own = []
    for i, (n, on) in enumerate(zip(names, case["m"])):
        if on:
            open(os.path.join(d, n), "w", newline="").write(text(dict(SMALL, d=i)))
            if i < 3:
                own.append(os.path.join(d, n))
    if b == "a*b" and case["m"][0]:
        open(os.path.join(d, "aXb.EDA0001.070"), "w").write(text(dict(SMALL, d=9)))
    before = snapshot(td)
    dp = record(raw)
    out.call()
    dp.load_eis()
    got = sorted(spectrum(e)[0]["start"] for e in dp.eis)
    want = sorted(date(i).isoformat() for i in range(3) if case["m"][i])
    out.see(got)
    out.expect(sorted(dp.paths.get("eis")) == sorted(own), "found", lambda: "found %s, the record's own are %s" % (dp.paths.get("eis"), own))
    out.expect(got == want, "spectra", lambda: "spectra of %s, expected %s" % (got, want))
    for p, e in zip(dp.paths["eis"], dp.eis):
        i = names.index(os.path.basename(p)) if os.path.basename(p) in names else None
        out.expect(i is not None and spectrum(e)[0]["start"] == date(i).isoformat(), "pairing", "paths and spectra are not in the same order")
    out.expect(snapshot(td) == before, "changed", "files were changed")


def k_list(case, out, td):
    paths = []
    for i in range(3):
        p = os.path.join(td, "q%d.txt" % (2 - i))
        open(p, "w", newline="").write(text(dict(SMALL, d=i, nr=i)))
        paths.append(p)
    dp = record(os.path.join(td, "cell.070"))
    asked = [paths[i] for i in case["o"]]
    out.call(2)
    dp.load_eis(list(asked))
    got = [spectrum(e) for e in dp.eis]
    want = [expected(dict(SMALL, d=i, nr=i)) for i in case["o"]]
    out.see(repr(got))
    out.expect([g[0] for g in got] == [w[0] for w in want] and all(eq(g[1], w[1]) for g, w in zip(got, want)), "listed", lambda: "%s, expected %s" % (got, want))
    out.expect(dp.paths.get("eis") == asked and dp.paths["raw"] == os.path.join(td, "cell.070"), "paths", str(dp.paths))
    fn = os.path.join(td, "r.json.gz")
    dp.to_json_file(fn)
    new = type(dp).from_json_file(fn)
    out.expect(new.paths.get("eis") == asked, "paths-reload", lambda: str(new.paths))
    # loading again replaces, not adds
    dp.load_eis(asked[:1])
    out.expect(len(dp.eis) == 1 and dp.paths["eis"] == asked[:1], "again", lambda: "%d spectra after loading one" % len(dp.eis))


def k_bad(case, out, td):
    from beep.structure.maccor import MaccorDatapath
    good, bad = os.path.join(td, "good.EDA"), os.path.join(td, "bad.EDA")
    t = text(dict(SMALL, crlf=0))
    open(good, "w").write(t)
    lines = t.split("\n")
    if case["bad"] == 0:
        t = ""
    elif case["bad"] == 1:
        lines[1] = "Sweep of frequencies"
    elif case["bad"] == 2:
        lines[6] = "Start Date: yesterday"
    elif case["bad"] == 3:
        lines = lines[:7]
    if case["bad"] in (1, 2, 3):
        t = "\n".join(lines)
    if case["bad"] < 4:
        open(bad, "w").write(t)      # otherwise there is no such file
    dp = record(os.path.join(td, "cell.070"))
    dp.load_eis([good])
    first, paths = dp.eis, json.dumps(dp.paths)
    out.call(2)
    try:
        dp.load_eis([(good, bad)[1 - i] if case["o"] != [0] else bad for i in case["o"]])
        out.bad("accepted", "a file that is no impedance run (%d) was taken for one" % case["bad"])
    except Exception as e:
        out.see(type(e).__name__)
    out.expect(dp.eis is first and json.dumps(dp.paths) == paths, "lost", "a run that cannot be read cost the record the runs it had")


def k_save(case, out, td):
    import pandas as pd
    from beep.structure.base_eis import EIS
    from beep.structure.maccor import MaccorDatapath
    nan = float("nan")
    tab = [pd.DataFrame({"f": [1.0, 2.5], "z": [0.25, -4.0]}), pd.DataFrame({"f": [nan, 2.5, nan], "z": [1, 2, 3]}), pd.DataFrame({"f": [], "z": []}),
           pd.DataFrame({"Z'(a)": [1e300, 1e-300, 0.1 + 0.2], "s": ["a", "", "\u00fc"]}), pd.DataFrame({"b": [True, False], "i": [2 ** 53 + 1, -1]}), pd.DataFrame({"only": [float(i) / 7 for i in range(40)]})][case["t"]]
    md = [pd.DataFrame({"method": ["sweep"]}), pd.DataFrame({"method": ["a", "b"], "v": [1.5, 2.0]}), pd.DataFrame({"method": ["r%d" % i for i in range(12)]}), pd.DataFrame({"a": [1, 2, 3]}),
          {}, {"method": "m\n", "line_8": ["1", "2"]}, {"start": "2016-11-02T15:58:00", "n": 3, "x": None}, {"line_8": []}, {"nested": {"a": [1, {"b": 2}]}, "line_8": ["x"] * 30}][case["md"]]
    cls = MaccorDatapath.MaccorEIS if isinstance(md, dict) else EIS
    e = cls(tab, md)
    before = repr(tab.to_dict("list")) + repr(md if isinstance(md, dict) else md.to_dict())
    roundtrip(out, e, case["how"], td, "saved")
    out.expect(repr(tab.to_dict("list")) + repr(md if isinstance(md, dict) else md.to_dict()) == before, "save-changed", "saving changed the spectrum")

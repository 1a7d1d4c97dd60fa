"""P15 - batch structure and featurize commands."""
import contextlib
import copy
import gzip
import hashlib
import itertools
import json
import os
import tempfile
from types import SimpleNamespace

from vmc import rawgen as g

PROPERTY = "P15"
RULE = "every batch of files over the kinds up to the bound x naming x strictness, and every single and pair of option deviations on fixed batches; the command runs for real in a scratch directory and is compared with the library calls on each file alone"
ASSUMPTIONS = ["structure checks that the named files exist before it starts: a missing file refuses the whole command and nothing is written",
               "two inputs that would write one output may be refused as a whole (nothing written) or written apart", "S3 is a stand-in that copies from a scratch directory"]
BOUNDS = {"quick": "structure: batches of <=2 of 9 kinds and of 3 of 5 kinds x 3 namings x halt; all single and pair deviations of 12 options on 2 batches; featurize: batches of <=3 of 5 kinds x halt, 4 featurizer lists; both with batches of 12-13 files",
          "thorough": "structure: batches of 3 of 9 kinds; option triples; featurize: batches of 3 of 7 kinds with every featurizer list"}
CHUNK = 4
FAILS = (Exception,)      # extended with the library's own errors, which are BaseExceptions
# kind -> (relative path, content key)
KINDS = {"a": ("in/a_CH1.csv", "one"), "b": ("in/b_CH2.csv", "two"), "t": ("in/t_CH9.csv", "three"), "m": ("in/Proj_000123.071", "maccor"),
         "i": ("in/i_CH3.csv", "invalid"), "u": ("in/u_CH4.csv", "garbage"), "p": ("in/readme.txt", "garbage"), "e": ("in/e_CH5.csv", "empty"),
         "f": ("in/f_CH6.csv", "nostruct"), "s": ("in/two/a_CH1.csv", "two"), "x": ("in/x_CH7.csv", None)}
FKINDS = {"a": ("in/a_structured.json.gz", "one"), "b": ("in/b_structured.json", "two"), "s": ("in/two/a_structured.json.gz", "two"), "t": ("in/t.json", "three"),
          "r": ("in/r.json", "raw"), "g": ("in/g.json", "garbage"), "l": ("in/l.json", "list"), "x": ("in/x.json", None)}
# batches of realistic length: a dozen distinct good files
MANY = "0123456789AB"
for _i, _c in enumerate(MANY):
    KINDS[_c] = ("in/n%d_CH%d.csv" % (_i, _i + 10), ("one", "two", "three")[_i % 3])
    FKINDS[_c] = ("in/n%d_structured.json" % _i, ("one", "two", "three")[_i % 3])
OPTS = [("v", ["-v", "2.9", "3.3"]), ("r", ["-r", "7"]), ("n", ["-n", "0.5"]), ("f", ["-f", "0.25"]), ("c", ["-c", "test_time"]), ("c", ["-c", "no_such_axis"]), ("x", ["-x", "test_time"]),
        ("raw", ["--no-raw"]), ("val", ["--validation-only"]), ("auto", ["--automatic"]), ("halt", ["HALT"]), ("meta", ["META"]), ("name", ["NAME-d"]), ("name", ["NAME-o"]), ("name", ["NAME-od"]), ("name", ["NAME-bad"])]
FEATS = {"A": ["-f", "vmc.toyfeat.CliA"], "AB": ["-f", "vmc.toyfeat.CliA", "-f", "vmc.toyfeat.CliB"], "I": ["-f", "vmc.toyfeat.CliInvalid", "-f", "vmc.toyfeat.CliA"],
         "R": ["-f", "vmc.toyfeat.CliA", "-f", "vmc.toyfeat.CliRaise", "-f", "vmc.toyfeat.CliB"],
         "H": ["-f", "vmc.toyfeat.CliA", "-h", '{"vmc.toyfeat.CliA": {"k": 2}}', "-h", '{"vmc.toyfeat.CliA": {"k": 2, "w": [7]}}', "-h", '{"vmc.toyfeat.CliB": {"w": []}}']}


def cases(tier):
    t = tier == "thorough"
    for n in (1, 2, 3):
        for b in itertools.product("abmiupefsx" if n < 3 or t else "abius", repeat=n):
            for name in ("cwd", "d", "o") if n < 3 else ("d",):
                for halt in (0, 1) if (n < 3 or t) else (0,):
                    yield {"cmd": "s", "b": "".join(b), "name": name, "halt": halt, "opts": []}
    for bad in ("", "u", "i", "p", "f"):
        for at in (0, 1, 5, 10, 11, 12) if t else (0, 10, 12):
            for halt in (0, 1):
                for name in ("cwd", "o") if at == 10 or not bad else ("d",):
                    if bad or not at:
                        yield {"cmd": "s", "b": MANY[:at] + bad + MANY[at:], "name": name, "halt": halt, "opts": []}
    yield {"cmd": "s", "b": MANY[::-1], "name": "o", "halt": 0, "opts": ["-r", "9", "--no-raw"]}
    for bad in ("", "x", "g", "r"):
        for at in (0, 10, 12) if bad else (0,):
            for halt in (0, 1):
                for f in ("H", "R"):
                    yield {"cmd": "f", "b": MANY[:at] + bad + MANY[at:], "halt": halt, "f": f, "v": 1 if at else 3}
    for b in ("aib", "am"):
        for k in (1, 2, 3) if t else (1, 2):
            for o in itertools.combinations(OPTS, k):
                if len({x[0] for x in o}) == k:
                    yield {"cmd": "s", "b": b, "name": "cwd", "halt": 0, "opts": [y for x in o for y in x[1]]}
    for n in (1, 2, 3):
        for b in itertools.product("abxg" + ("srl" if n < 3 or t else "s"), repeat=n):
            for halt in (0, 1):
                for f in FEATS if n < 3 or t else ("R" if halt else "H"):
                    for v in ((0, 1, 2, 3) if n == 1 else (3, 1) if n == 2 else (1,)):
                        yield {"cmd": "f", "b": "".join(b), "halt": halt, "f": f, "v": v}
    for n in (1, 2, 3):
        for at in range(n):
            for cmd in ("s", "f"):
                for halt in (0, 1):
                    yield {"cmd": "int", "on": cmd, "n": n, "at": at, "halt": halt}
    # an output, a status file or an intermediate file named like an input or like each other
    for n in (1, 2):
        for m in OWN:
            for st in OWN:
                for link in (0, 1):
                    yield {"cmd": "own", "on": "f", "n": n, "m": m, "st": st, "link": link}
        for st in OWN:
            for name in ("cwd", "o"):
                yield {"cmd": "own", "on": "s", "n": n, "m": name, "st": st, "link": 0}
                yield {"cmd": "own", "on": "s", "n": n, "m": name, "st": st, "link": 1}
    for n in (1, 2, 3):
        for b in itertools.product(("k1.csv", "d/k1.csv", "k*", "loc_CH1.csv", "d/loc_CH1.csv", "both_CH1.csv"), repeat=n):
            if len(set(b)) == n:
                for name in ("cwd", "o"):
                    yield {"cmd": "s3", "b": list(b), "name": name}
    names = ["all_features", "all_targets", "vmc.toyfeat.CliA", "vmc.toyfeat.CliB", "HPPCResistanceVoltageFeatures", "DiagnosticProperties"]
    for n in range(4 if t else 3):
        for f in itertools.permutations(range(6), n):
            if not {0, 1} <= set(f):
                yield {"cmd": "sets", "f": [names[i] for i in f]}
    yield {"cmd": "sets", "f": names[2:] + names[:1]}
    yield {"cmd": "sets", "f": names[1:]}


def raw_text(spec, barcode):
    """An Arbin export of the toy record."""
    head = ["data_point", "test_time", "datetime", "step_time", "step_index", "cycle_index", "current", "voltage", "charge_capacity", "discharge_capacity", "charge_energy", "discharge_energy",
            "dv/dt", "internal_resistance", "temperature"]
    lines = ["," + ",".join(head)]
    for i, r in enumerate(g.build_rows(spec)):
        row = dict(r, data_point=i, datetime=1587000000 + r["test_time"], step_time=r["test_time"])
        row["dv/dt"] = 0
        lines.append(",".join([str(i)] + [repr(row[h]) for h in head]))
    return "\n".join(lines) + "\n"


def maccor_text():
    from checks import p08
    lines, _ = p08.build({"states": "CDCD", "adv": [0, 1, 0], "cfg": dict(p08.DEFAULT, lens=[3, 3, 3, 3, 3])})
    for l in lines:
        l[7] = "-" + l[7] if l[9] == "D" else l[7]
    head = "Today's Date 10/10/2019  Date of Test: 10/09/2019 Filename: C:\\x.010 Procedure: Proto\\P_000109.000 Comment/Barcode: MC1"
    return head + "\n" + "\t".join(p08.HEAD) + "\n" + "".join("\t".join(map(str, l)) + "\n" for l in lines)


_TXT = {}


def content(key):
    if not _TXT:
        sp = {"one": [(0, "CD", 1.0), (1, "CVD", 0.9), (2, "CD", 0.75)], "two": [(0, "CD", 0.8), (1, "CD", 0.5)], "three": [(1, "CVD", 0.7), (2, "CVD", 0.6), (3, "CD", 0.5)]}
        for k, c in sp.items():
            _TXT[k] = raw_text({"cycles": c}, k)
        _TXT["invalid"] = _TXT["one"].replace(",25.0", ",95.0")
        _TXT["nostruct"] = _TXT["two"].replace("discharge_energy", "other")
        _TXT["garbage"] = "{ not , a\nrecord \x00 at all"
        _TXT["list"] = "[1, 2]"
        _TXT["empty"] = ""
        _TXT["maccor"] = maccor_text()
    return _TXT[key]


META = "test_id,device_id,iv_ch_id,first_start_datetime,schedule_file_name,item_id\n9,140,7,1587000000,s.sdu,%s\n"
_STRUCT = {}


def place(path, key, structured=False):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if key is None:
        return
    if structured and key in ("one", "two", "three", "raw"):
        if key not in _STRUCT:
            with tempfile.TemporaryDirectory() as tmp:
                f = os.path.join(tmp, "q_CH1.csv")
                place(f, "one" if key == "raw" else key)
                dp = g.auto_load(f)
                if key != "raw":
                    dp.structure(resolution=5)
                dp.to_json_file(os.path.join(tmp, "s.json"))
                d = json.load(open(os.path.join(tmp, "s.json")))
                d["metadata"]["barcode"] = "b2" if key == "two" else "b1"
                _STRUCT[key] = json.dumps(d)
        (gzip.open if path.endswith("gz") else open)(path, "wt").write(_STRUCT[key])
        return
    open(path, "w").write(content(key))
    if path.endswith(".csv"):
        open(path.replace(".csv", "_Metadata.csv"), "w").write(META % key)


def tree(d):
    res = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            res[os.path.relpath(p, d)] = hashlib.md5(open(p, "rb").read()).hexdigest()
    return res


def load(path):
    """A saved object as plain data, whatever its compression."""
    raw = open(path, "rb").read()
    d = json.loads(gzip.decompress(raw) if raw[:2] == b"\x1f\x8b" else raw)
    if isinstance(d, dict) and isinstance(d.get("paths"), dict):
        d["paths"].pop("structured", None)
    return d


def norm(x):
    if isinstance(x, dict):
        return {str(k): norm(v) for k, v in sorted(x.items(), key=lambda y: str(y[0]))}
    if isinstance(x, (list, tuple)):
        return [norm(v) for v in x]
    return "nan" if isinstance(x, float) and x != x else x


@contextlib.contextmanager
def inside(d):
    old = os.getcwd()
    os.chdir(d)
    try:
        yield
    finally:
        os.chdir(old)


def invoke(args, catch=True):
    from click.testing import CliRunner
    from beep.cmd import cli
    from beep import logger
    before = list(logger.handlers)
    try:
        return CliRunner().invoke(cli, args)
    except FAILS as e:
        # the runner lets errors that are no Exception pass: a traceback and status 1 in a shell
        return SimpleNamespace(exit_code=1, exception=e)
    finally:
        for h in list(logger.handlers):
            if h not in before:
                h.close()
                logger.removeHandler(h)


def alone(path, params, raw, outp, validation_only):
    """What the library does with this file by itself: (loaded, validated, structured)."""
    try:
        dp = g.auto_load(path)
    except FAILS:
        return None, False, False
    schema = dp.schema
    try:
        ok, _ = dp.validate()
    except FAILS:
        return schema, False, False
    if not ok or validation_only:
        return schema, bool(ok), False
    try:
        dp.structure(**params)
        dp.to_json_file(outp, omit_raw=not raw)
    except FAILS:
        return schema, True, False
    return schema, True, True


def md5(p):
    return hashlib.md5(open(p, "rb").read()).hexdigest()


def run_case(case, out):
    global FAILS
    import numpy as np
    from beep.features.base import BEEPFeaturizationError
    from beep.structure.validate import BEEPValidationError
    FAILS = (Exception, BEEPFeaturizationError, BEEPValidationError)
    np.seterr(all="ignore")
    with tempfile.TemporaryDirectory() as tmp:
        tmp = os.path.realpath(tmp)
        w = os.path.join(tmp, "work")
        os.makedirs(w)
        os.makedirs(os.path.join(tmp, "ref"))
        with inside(w):
            {"s": structure, "f": featurize, "s3": from_s3, "int": interrupt, "own": own, "sets": sets}[case["cmd"]](case, out, tmp, w)


def status_meta(out, st, run, tags, op):
    m = st.get("metadata") or {}
    out.expect(st.get("op_type") == op and m.get("run_id") == run and list(m.get("tags") or []) == tags, "status-metadata", "%s %s" % (st.get("op_type"), m))


def structure(case, out, tmp, w):
    opts = list(case["opts"])
    name, halt = case["name"], case["halt"]
    run, tags = None, []
    base = ["-s", "status.json"]
    for o in [o for o in opts if o.isupper() or o.startswith("NAME")]:
        opts.remove(o)
        if o == "HALT":
            halt = 1
        elif o == "META":
            run, tags = 17, ["t1", "t 2"]
            base = ["-s", "status.json.gz", "-r", "17", "-t", "t1", "-t", "t 2", "-l", "log.jsonl"]
        else:
            name = o[5:]
    if halt:
        base.append("--halt-on-error")
    if "-r" not in opts:
        opts += ["-r", "5"]
    get = lambda f, d, n=1: d if f not in opts else (float(opts[opts.index(f) + 1]) if n == 1 else tuple(map(float, opts[opts.index(f) + 1:opts.index(f) + 3])))
    txt = lambda f, d: d if f not in opts else opts[opts.index(f) + 1]
    params = {"v_range": get("-v", None, 2), "resolution": int(get("-r", 1000)), "nominal_capacity": get("-n", 1.1), "full_fast_charge": get("-f", 0.8),
              "charge_axis": txt("-c", "charge_capacity"), "discharge_axis": txt("-x", "voltage")}
    raw, vo, auto = "--no-raw" not in opts, "--validation-only" in opts, "--automatic" in opts
    files = []
    for k in case["b"]:
        p = os.path.join(tmp, KINDS[k][0])
        if not os.path.exists(p):
            place(p, KINDS[k][1])
        files.append(p)
    uniq = list(dict.fromkeys(files))
    stem = lambda p: os.path.splitext(os.path.basename(p))[0] + "_structured.json.gz"
    dest = {"cwd": lambda i, p: os.path.join(w, stem(p)), "d": lambda i, p: os.path.join(tmp, "od", stem(p)), "o": lambda i, p: os.path.join(tmp, "n%d.json" % i),
            "od": lambda i, p: os.path.join(tmp, "od", stem(p)), "bad": lambda i, p: os.path.join(tmp, "nodir" if i == 0 else "od", "n%d.json" % i)}[name]
    if name in ("d", "od", "bad"):
        os.makedirs(os.path.join(tmp, "od"))
    if name in ("d", "od"):
        opts += ["-d", os.path.join(tmp, "od")]
    if name in ("o", "od", "bad"):
        for i in range(len(files)):
            opts += ["-o", os.path.join(tmp, "m%d.json" % i) if name == "od" else dest(i, files[i])]
    listed = files if name in ("o", "bad") else uniq
    dests = [dest(i, p) for i, p in enumerate(listed)]
    ref = {}
    for i, p in enumerate(listed):
        if os.path.exists(p):
            ref[p] = alone(p, params, raw, os.path.join(tmp, "ref", "%d.json" % uniq.index(p)), vo)
            if name == "bad" and i == 0 and ref[p][2]:
                ref[p] = ref[p][:2] + (False,)
    before = tree(os.path.join(tmp, "in"))
    out.call()
    r = invoke(base + ["structure"] + opts + files)
    out.see(r.exit_code)
    made = {f: h for f, h in tree(tmp).items() if not f.startswith(("in/", "ref/"))}
    outs = {f for f in made if "status" not in f and "log" not in f}
    out.expect(tree(os.path.join(tmp, "in")) == before, "inputs-changed", "input files were modified: %s" % case)
    missing = [p for p in files if not os.path.exists(p)]
    if missing:
        out.expect(r.exit_code != 0 and not outs, "missing-file", "exit status %s, written %s with missing files %s" % (r.exit_code, sorted(outs), missing))
        return
    if len(set(dests)) < len(dests) and r.exit_code != 0 and (not halt or not outs):
        out.expect(not outs, "refused-but-written", "%s written by a refused command" % sorted(outs))
        return
    fails = lambda p: not ref[p][1] or (not vo and not ref[p][2]) or auto
    if halt and any(fails(p) for p in listed):
        out.expect(r.exit_code != 0, "halt", "no error status although %s failed under --halt-on-error" % [p for p in listed if fails(p)])
        return check_outs(case, out, tmp, listed[:[fails(p) for p in listed].index(True)], dests, uniq, outs, vo)
    if not out.expect(r.exit_code == 0, "exit-status", "exit status %s (%r) although failures are reported per file" % (r.exit_code, r.exception)):
        return
    st_path = base[1]
    if not out.expect(os.path.exists(st_path), "no-status", "no status file"):
        return
    from monty.serialization import loadfn
    st = loadfn(st_path)
    status_meta(out, st, run, tags, "structure")
    if not out.expect(sorted(st["files"]) == sorted(uniq), "status-files", "status for %s of inputs %s" % (sorted(st["files"]), uniq)):
        return
    used = []
    for i, p in enumerate(listed):
        e, (schema, valid, done) = st["files"][p], ref[p]
        if p in listed[i + 1:]:
            # named twice: one status entry, both outputs
            if ref[p][2] and os.path.exists(dests[i]):
                used.append(dests[i])
                out.expect(norm(load(dests[i])) == norm(load(os.path.join(tmp, "ref", "%d.json" % uniq.index(p)))), "output-differs", p)
            continue
        if auto and valid and not vo:
            out.expect(e["structured"], "automatic-structuring", "--automatic fails on every file: %s" % str(e["traceback"])[-200:])
            continue
        got = (bool(e["validated"]), bool(e["structured"]), e["validation_schema"])
        out.see(got)
        out.expect(got == (valid, done, schema), "status-outcome", "%s reported (validated, structured, schema) %s, alone %s" % (p, got, (valid, done, schema)))
        out.expect(bool(e["traceback"]) == (not valid or (not done and not vo)), "status-traceback", "%s: traceback %s for outcome %s" % (p, str(e["traceback"])[-120:], got))
        out.expect(e["raw_md5_chksum"] == before[os.path.relpath(p, os.path.join(tmp, "in"))], "status-raw-md5", p)
        out.expect(isinstance(e["walltime"], float), "status-walltime", p)
        o = e["output"]
        if not done:
            out.expect(o is None and e["processed_md5_chksum"] is None, "status-output-failed", "%s failed but reports output %s" % (p, o))
            continue
        if len(set(dests)) == len(dests):
            out.expect(o == dests[i], "output-path", "%s written to %s, expected %s" % (p, o, dests[i]))
        out.expect(o not in used, "output-shared", "%s also holds another input" % o)
        used.append(o)
        if not out.expect(o is not None and os.path.exists(o), "output-missing", "%s reports %s, which does not exist" % (p, o)):
            continue
        out.expect(md5(o) == e["processed_md5_chksum"], "status-processed-md5", "%s: checksum of %s is not the one reported" % (p, o))
        a, b = norm(load(o)), norm(load(os.path.join(tmp, "ref", "%d.json" % uniq.index(p))))
        out.see(json.dumps(a, default=str).replace(tmp, ""))
        out.expect(a == b, "output-differs", lambda: "%s: output differs from the file structured alone in %s" % (p, [k for k in b if a.get(k) != b[k]] + [k for k in a if k not in b]))
        sp = e["structuring_parameters"]
        out.expect(norm(sp) == b.get("structuring_parameters"), "status-parameters", "%s: parameters %s" % (p, sp))
    if not auto:
        allow = {os.path.relpath(o, tmp) for o in used}
        out.expect(outs == allow, "stray-output", "files written: %s, reported: %s" % (sorted(outs), sorted(allow)))


def check_outs(case, out, tmp, done, dests, uniq, outs, vo):
    """Files before the one that halted the command are processed in full, later ones not at all."""
    if vo or len(set(dests)) < len(dests):
        return
    want = {os.path.relpath(dests[i], tmp) for i in range(len(done))}
    out.expect(outs == want, "halt-outputs", "halted command wrote %s, expected %s" % (sorted(outs), sorted(want)))
    for i, p in enumerate(done):
        if os.path.exists(dests[i]):
            out.expect(norm(load(dests[i])) == norm(load(os.path.join(tmp, "ref", "%d.json" % uniq.index(p)))), "output-differs", p)


def featurize(case, out, tmp, w):
    from monty.serialization import loadfn
    from vmc import toyfeat as tf
    from beep.structure.cli import auto_load_processed
    from beep.features.base import BEEPFeatureMatrix
    feats, v = FEATS[case["f"]], case["v"]
    files = []
    for k in case["b"]:
        p = os.path.join(tmp, FKINDS[k][0])
        if not os.path.exists(p):
            place(p, FKINDS[k][1], True)
        files.append(p)
    uniq = list(dict.fromkeys(files))
    todo = []
    for flag in ("-f", "-h"):
        for i in range(0, len(feats), 2):
            if feats[i] == flag:
                nm, hp = (feats[i + 1], None) if flag == "-f" else list(json.loads(feats[i + 1]).items())[0]
                cls = getattr(tf, nm.rpartition(".")[2])
                todo.append((cls, dict(copy.deepcopy(cls.DEFAULT_HYPERPARAMETERS), **(hp or {}))))
    ref, bfs, fail = {}, [], []
    for p in uniq:
        try:
            dp = auto_load_processed(p)
        except FAILS:
            ref[p] = None
            fail.append((p, None))
            continue
        ref[p] = []
        for cls, hp in todo:
            try:
                f = cls(dp, copy.deepcopy(hp))
                ok = f.validate()[0]
            except FAILS:
                ref[p].append((False, False, None))
                fail.append((p, cls))
                continue
            try:
                if ok:
                    f.create_features()
                else:
                    raise ValueError
            except FAILS:
                ref[p].append((ok, False, None))
                fail.append((p, cls))
                continue
            ref[p].append((True, True, f))
            bfs.append(f)
    want = BEEPFeatureMatrix(bfs) if bfs else None
    base, opts, outdir, fm = ["-s", "status.json"], list(feats), w, None
    if case["halt"]:
        base.append("--halt-on-error")
    if v & 1:
        opts += ["--save-intermediates"]
    if v & 2:
        outdir = os.path.join(tmp, "od")
        os.makedirs(outdir)
        opts += ["-d", outdir]
    if v in (1, 2):
        fm = os.path.join(tmp, "m", "fm.json.gz")
        os.makedirs(os.path.dirname(fm))
        opts += ["-o", fm]
    before = tree(os.path.join(tmp, "in"))
    defaults = json.dumps([c.DEFAULT_HYPERPARAMETERS for c, _ in todo])
    out.call()
    r = invoke(base + ["featurize"] + opts + files)
    out.see(r.exit_code)
    out.expect(tree(os.path.join(tmp, "in")) == before, "inputs-changed", "input files were modified: %s" % case)
    out.expect(json.dumps([c.DEFAULT_HYPERPARAMETERS for c, _ in todo]) == defaults, "defaults-changed", "default hyperparameters changed")
    if case["halt"] and (fail or want is None):
        out.expect(r.exit_code != 0, "halt", "no error status although %s failed under --halt-on-error" % fail)
        return
    if not out.expect(r.exit_code == 0, "exit-status", "exit status %s (%r) although failures are reported per file" % (r.exit_code, r.exception)):
        return
    st = loadfn("status.json")
    status_meta(out, st, None, [], "featurize")
    if not out.expect(sorted(st["files"]) == sorted(uniq), "status-files", "status for %s of inputs %s" % (sorted(st["files"]), uniq)):
        return
    inter = set()
    for p in uniq:
        e = st["files"][p]
        if os.path.exists(p):
            out.expect(e["processed_md5_chksum"] == md5(p), "status-md5", p)
        if ref[p] is None:
            out.expect(e.get("traceback") and not any(f["featurized"] for f in e["featurizers"]), "status-unloadable", "%s could not be loaded, reported %s" % (p, e))
            continue
        if not out.expect(len(e["featurizers"]) == len(todo), "status-featurizers", "%s: %d featurizers reported of %d" % (p, len(e["featurizers"]), len(todo))):
            continue
        for f, (valid, done, obj), (cls, hp) in zip(e["featurizers"], ref[p], todo):
            got = (f["featurizer_name"], norm(f["hyperparameters"]), f["valid"], f["featurized"], bool(f["traceback"]))
            exp = (cls.__name__, norm(hp), valid, done, not done)
            out.see(got)
            out.expect(got == exp, "status-featurizer", "%s: %s, expected %s" % (p, got, exp))
            if not (v & 1) or not done:
                out.expect(f["output"] is None and f["subop_md5_chksum"] is None, "intermediate-unasked", str(f["output"]))
                continue
            o = f["output"]
            if not out.expect(o and os.path.exists(o) and os.path.dirname(o) == outdir, "intermediate-missing", "%s %s: %s" % (p, cls.__name__, o)):
                continue
            out.expect(o not in inter, "intermediate-shared", "%s holds two featurizers" % o)
            inter.add(o)
            out.expect(md5(o) == f["subop_md5_chksum"], "intermediate-md5", o)
            got = loadfn(o)
            out.expect(type(got) is cls and got.features.equals(obj.features) and norm(got.hyperparameters) == norm(obj.hyperparameters), "intermediate-content", "%s is not what %s gives for %s" % (o, cls.__name__, p))
    m = st["feature_matrix"]
    if want is None:
        made = {f for f in tree(tmp) if not f.startswith(("in/", "ref/")) and "status" not in f}
        out.expect(m["created"] is False and m["traceback"] and m["output"] is None and not made, "matrix-empty", "%s %s" % (m, made))
        return
    if not out.expect(m["created"] is True and m["traceback"] is None and m["output"] and os.path.exists(m["output"]), "matrix", str(m)[:300]):
        return
    if fm:
        out.expect(m["output"] == fm, "matrix-path", "%s instead of %s" % (m["output"], fm))
    else:
        out.expect(os.path.dirname(m["output"]) == outdir, "matrix-dir", "matrix saved at %s, output directory %s" % (m["output"], outdir))
    got, exp = loadfn(m["output"]).matrix, want.matrix
    out.see(got.replace(float("nan"), None).to_dict().__repr__().replace(tmp, ""))
    same = list(got.index) == list(exp.index) and list(got.columns) == list(exp.columns) and got.astype(float).equals(exp.astype(float))
    out.expect(same, "matrix-content", lambda: "%s, expected %s" % (got.to_dict(), exp.to_dict()))
    made = {os.path.join(tmp, f) for f in tree(tmp) if not f.startswith(("in/", "ref/")) and "status" not in f}
    out.expect(made == inter | {m["output"]}, "stray-output", "files written: %s" % sorted(made))


@contextlib.contextmanager
def swapped(modules, name, new):
    """replace a function in every module that holds it under its name"""
    old = [(m, getattr(m, name)) for m in modules if hasattr(m, name)]
    for m, _ in old:
        setattr(m, name, new)
    try:
        yield
    finally:
        for m, f in old:
            setattr(m, name, f)


def interrupt(case, out, tmp, w):
    """Ctrl-C while a file is read: the command ends with an error status and starts no later file."""
    import beep.cmd as c
    st = case["on"] == "f"
    files = []
    for k in "abt"[:case["n"]]:
        files.append(os.path.join(tmp, (FKINDS if st else KINDS)[k][0]))
        place(files[-1], (FKINDS if st else KINDS)[k][1], st)
    name = "auto_load_processed" if st else "auto_load"
    import beep.structure.cli as sc
    real, seen = getattr(sc, name), []

    def reader(f):
        seen.append(f)
        if len(seen) == case["at"] + 1:
            raise KeyboardInterrupt
        return real(f)

    before = tree(os.path.join(tmp, "in"))
    out.call()
    with swapped((c, sc), name, reader):
        try:
            r = invoke((["--halt-on-error"] if case["halt"] else []) + (["featurize"] + FEATS["A"] if st else ["structure", "-r", "5"]) + files)
        except KeyboardInterrupt:
            r = SimpleNamespace(exit_code=130, exception=None)
    out.see(r.exit_code, len(seen), case)
    out.expect(r.exit_code not in (0, None), "interrupt-status", "exit status %s after an interrupt" % r.exit_code)
    out.expect(len(seen) == case["at"] + 1, "interrupt-goes-on", "%d files read after an interrupt at file %d" % (len(seen), case["at"] + 1))
    out.expect(tree(os.path.join(tmp, "in")) == before, "inputs-changed", "input files were modified")
    if not st:
        outs = sorted(f for f in tree(tmp) if not f.startswith("in/"))
        out.expect(outs == sorted("work/%s_CH%d_structured.json.gz" % (k, i) for k, i in (("a", 1), ("b", 2), ("t", 9))[:case["at"]]), "interrupt-outputs", str(outs))


OWN = ("free", "in0", "in1", "mid", "same")


def own(case, out, tmp, w):
    """Files the command writes are named like files it reads or writes: refused with nothing written, or everything comes out as reported."""
    st, n = case["on"] == "f", case["n"]
    files = []
    for k in "ab"[:n]:
        files.append(os.path.join(tmp, (FKINDS if st else KINDS)[k][0]))
        place(files[-1], (FKINDS if st else KINDS)[k][1], st)
    mid = os.path.join(w, "CliA-" + os.path.basename(files[0])) if st else os.path.join(w, "a_CH1_structured.json.gz")

    def named(x, other, free):
        p = {"free": os.path.join(w, free), "in0": files[0], "in1": files[-1], "mid": mid, "same": other}[x]
        if case["link"] and x != "free":
            # the same file by another name
            return os.path.join(os.path.dirname(p), ".", "..", os.path.basename(os.path.dirname(p)), os.path.basename(p))
        return p
    fm = named(case["m"], os.path.join(w, "st.json"), "fm.json") if st else None
    status = named(case["st"], fm if st else os.path.join(w, "b_CH2_structured.json.gz"), "st.json")
    if st:
        args = ["featurize"] + FEATS["AB"] + ["--save-intermediates", "-o", fm] + files
    else:
        args = ["structure", "-r", "5"] + [x for i in range(n) if case["m"] == "o" for x in ("-o", [mid, os.path.join(w, "b_CH2_structured.json.gz")][i])] + files
    before = tree(tmp)
    out.call()
    r = invoke(["-s", status] + args)
    out.see(r.exit_code, case)
    out.expect(tree(os.path.join(tmp, "in")) == {k[3:]: v for k, v in before.items() if k.startswith("in/")}, "inputs-changed", "input files were modified by %s" % args)
    if r.exit_code:
        out.expect(tree(tmp) == before, "refused-but-wrote", "exit status %s but files were written: %s" % (r.exit_code, sorted(set(tree(tmp)) - set(before))))
        return
    d = load(status)
    if not out.expect(isinstance(d, dict) and d.get("op_type") == ("featurize" if st else "structure"), "status-lost", "the status file %s of %s was overwritten" % (status, args)):
        return
    for f in files:
        for e in d["files"][f]["featurizers"] if st else [d["files"][f]]:
            o = e["output"]
            if not out.expect(o, "own-unfinished", lambda: "%s of %s failed: %s" % (f, args, (e["traceback"] or [""])[-1])):
                continue
            got = load(o)
            cls = got.get("@class")
            out.expect(cls == e["featurizer_name"] if st else "cycles_interpolated" in got or "structured_data" in got or cls, "output-lost", lambda: "%s of %s holds a %s" % (o, args, cls or sorted(got)[:5]))
            out.expect(md5(o) == e["subop_md5_chksum" if st else "processed_md5_chksum"], "output-md5", lambda: "%s of %s was overwritten" % (o, args))
    if st:
        out.expect(load(d["feature_matrix"]["output"]).get("@class") == "BEEPFeatureMatrix", "matrix-lost", "the matrix of %s was overwritten" % args)


def sets(case, out, tmp, w):
    """The sets of core featurizers replace those named one by one; those with hyperparameters are always applied."""
    import collections
    f = case["f"]
    p = os.path.join(tmp, FKINDS["a"][0])
    place(p, FKINDS["a"][1], True)
    out.call()
    r = invoke(["-s", "status.json", "featurize"] + [x for n in f for x in ("-f", n)] + ["-h", '{"vmc.toyfeat.CliA": {"k": 7}}', p])
    out.see(r.exit_code, f)
    if not out.expect(r.exit_code == 0, "sets-exit", "exit status %s (%r)" % (r.exit_code, r.exception)):
        return
    got = collections.Counter(e["featurizer_name"] for e in load("status.json")["files"][p]["featurizers"])
    if not f or "all_features" in f:
        want = ["HPPCResistanceVoltageFeatures", "DeltaQFastCharge", "DiagnosticSummaryStats", "CycleSummaryStats"]
    elif "all_targets" in f:
        want = ["TrajectoryFastCharge", "DiagnosticProperties"]
    else:
        want = [n.rpartition(".")[2] for n in f]
    want = collections.Counter(want + ["CliA"])
    out.expect(got == want, "sets", lambda: "featurizers applied for -f %s: %s, expected %s" % (f, dict(got), dict(want)))


# key in the bucket -> content, and files of the working directory
BUCKET = {"k1_CH1.csv": "one", "k2_CH1.csv": "two", "d/loc_CH1.csv": "three", "d/k1_CH1.csv": "two", "both_CH1.csv": "one"}
LOCAL = {"loc_CH1.csv": "two", "both_CH1.csv": "three"}


def from_s3(case, out, tmp, w):
    from monty.serialization import loadfn
    for f, k in LOCAL.items():
        place(os.path.join(w, f), k)
    args = [{"k1.csv": "k1_CH1.csv", "d/k1.csv": "d/k1_CH1.csv", "k*": "k*_CH1.csv"}.get(a, a) for a in case["b"]]
    # what each argument stands for, in order: (local path, content)
    plan = []
    for a in args:
        keys = [a] if a in LOCAL else (sorted(k for k in BUCKET if k.startswith("k")) if "*" in a else [a])
        for k in keys:
            plan.append((os.path.join(w, os.path.basename(k)), LOCAL[k] if k in LOCAL else BUCKET[k]))
    byp = {}
    for p, c in plan:
        byp.setdefault(p, set()).add(c)
    clash = any(len(c) > 1 for c in byp.values())
    asked = []

    def download(bucket, key, dst):
        asked.append((bucket, key))
        open(dst, "w").write(content(BUCKET[key]))

    n = len(plan)
    opts = ["-b", "bkt", "-r", "5"]
    if case["name"] == "o":
        for i in range(n):
            opts += ["-o", "n%d.json" % i]
    before = {f: md5(f) for f in LOCAL}
    out.call()
    import beep.cmd as c
    import beep.utils.s3 as s3
    with swapped((c, s3), "list_s3_objects", lambda b: [SimpleNamespace(key=k) for k in sorted(BUCKET)]), swapped((c, s3), "download_s3_object", download):
        r = invoke(["-s", "status.json", "structure"] + opts + args)
    out.see(r.exit_code, case["b"], case["name"])
    local = [a for a in args if a in LOCAL]
    out.expect(all(md5(f) == before[f] for f in local), "inputs-changed", "a named local file was overwritten: %s" % args)
    if clash or (len(byp) < n and case["name"] == "o"):
        if r.exit_code != 0:
            out.expect(not [f for f in tree(tmp) if f.endswith(".gz") or "/n" in f], "refused-but-written", str(args))
            return
    if not out.expect(r.exit_code == 0, "s3-exit", "%r for %s" % (r.exception, args)):
        return
    st = loadfn("status.json")
    out.expect(set(st["files"]) == set(byp), "s3-files", "%s processed for %s" % (sorted(st["files"]), args))
    for i, (p, c) in enumerate(plan):
        e = st["files"].get(p)
        if not out.expect(e is not None and e["structured"], "s3-structured", "%s: %s" % (p, e and str(e["traceback"])[-200:])):
            continue
        want = os.path.join(w, "n%d.json" % max(j for j in range(n) if plan[j][0] == p)) if case["name"] == "o" else os.path.join(w, os.path.basename(p)[:-4] + "_structured.json.gz")
        out.expect(e["output"] == want, "s3-order", "%s written to %s, expected %s" % (p, e["output"], want))
        out.expect(e["raw_md5_chksum"] == hashlib.md5(content(c).encode()).hexdigest(), "s3-source", "%s was not read from the source named by %s" % (p, args))

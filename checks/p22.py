"""P22 - path-style access to nested protocol dictionaries; project parameter lookup."""
import copy
import itertools
import os
import tempfile
from collections import OrderedDict

PROPERTY = "P22"
RULE = "every sequence of set/unset/merge operations up to the bound on every path, from an empty and from a pre-filled object, then every path read; every set of parameter files x file name; non-trivial: all"
ASSUMPTIONS = ["a set whose path runs through a plain value may fail, but then changes nothing", "paths are dotted names without escapes; reads that index into a text or list value are left out"]
BOUNDS = {"quick": "paths of depth <=3 over {a, 1}: sequences of 3 operations; depth <=2 over {a, 1, b c}: sequences of 2 incl. dict values and merges; lookups over all subsets of 5 parameter files",
          "thorough": "sequences of 3 over all 45 operations incl. merges and list values"}
CHUNK = 400
P2 = [".".join(p) for n in (1, 2, 3) for p in itertools.product(("a", "1"), repeat=n)]
P3 = [".".join(p) for n in (1, 2) for p in itertools.product(("a", "1", "b c"), repeat=n)]
START = {"0": {}, "1": {"a": {"a": {"z": "0"}, "1": "x"}, "y": {"w": {"v": "1"}}}}
FILES = {"PreDiag_parameters - GP.csv": [1, 2, 109], "PreDiagX_parameters - GP.csv": [1, 3], "Pre_parameters - GP.csv": [2, 4], "PreDiag-old.txt": None, "Zed.csv": [7]}
NAMES = ["PreDiag_000001_ch1.071", "/d/e/PreDiag_000002.001.json", "PreDiag_109_x_y.csv", "PreDiag_000003.003", "PreDiagX_3.004", "Pre_000004_a.005", "Pre_2.1", "Zed_07_b.xlsx", "Nope_1.csv", "Nope"]


def cases(tier):
    o2 = [["s", p] for p in P2] + [["u", p] for p in P2]
    for s in "01":
        for n in (1, 2, 3):
            for ops in itertools.product(o2, repeat=n):
                yield {"s": s, "ops": [list(o) for o in ops]}
    o3 = [["s", p] for p in P3] + [["d", p] for p in P3] + [["u", p] for p in P3] + [["l", p] for p in P3[:2]] + [["m", p] for p in P3]
    for s in "01":
        for n in (1, 2, 3) if tier == "thorough" else (1, 2):
            for ops in itertools.product(o3, repeat=n):
                yield {"s": s, "ops": [list(o) for o in ops]}
    for k in range(2 ** len(FILES)):
        yield {"files": [f for i, f in enumerate(sorted(FILES)) if k >> i & 1]}


def val(k, i):
    return {"s": "v%d" % i, "d": OrderedDict([("p", "v%d" % i), ("a", "w")]), "l": ["v%d" % i]}[k]


def mget(m, path):
    for k in path:
        if isinstance(m, dict) and k in m:
            m = m[k]
        elif isinstance(m, list) and k.isdigit() and int(k) < len(m):
            m = m[int(k)]
        else:
            return KeyError
    return m


def deep(v):
    if isinstance(v, dict):
        return [[k, deep(x)] for k, x in v.items()]
    if isinstance(v, list):
        return ["list"] + [deep(x) for x in v]
    return v


def merge(m, o):
    for k, v in o.items():
        if isinstance(v, dict) and isinstance(m.get(k), dict):
            merge(m[k], v)
        else:
            m[k] = copy.deepcopy(v)


def run_case(case, out):
    if "files" in case:
        return lookup(case, out)
    from beep.utils import DashOrderedDict
    start = START[case["s"]]
    d, other, model = DashOrderedDict(copy.deepcopy(start)), DashOrderedDict(copy.deepcopy(start)), copy.deepcopy(start)
    for i, (k, p) in enumerate(case["ops"]):
        keys = p.split(".")
        before = deep(d)
        blocked = False     # does the path run through something that is not a dict?
        m = model
        for q in keys[:-1]:
            if isinstance(m, dict):
                m = m.get(q, {})
            if not isinstance(m, dict):
                blocked = True
        try:
            if k == "u":
                d.unset(p)
            elif k == "m":
                v = "v%d" % i
                for q in reversed(keys):
                    v = {q: v}
                d.merge(v)
            else:
                d.set(p, val(k, i))
            err = None
        except Exception as e:
            err = e
        out.call()
        if blocked and k != "m":
            if isinstance(mget(model, keys[:1]), list) or any(isinstance(mget(model, keys[:j]), list) for j in range(1, len(keys))):
                out.nontrivial = False
                return
            out.expect(deep(d) == before, "blocked", lambda: "%s %s through a plain value changed the object" % (k, p))
            continue
        if k == "m" and any(isinstance(mget(model, keys[:j]), list) for j in range(1, len(keys) + 1)):
            out.nontrivial = False
            return
        if not out.expect(err is None, "raises:%s" % k, lambda: "%s %s raised %r" % (k, p, err)):
            return
        if k == "u":
            par = mget(model, keys[:-1])
            if isinstance(par, dict):
                par.pop(keys[-1], None)
        elif k == "m":
            v = "v%d" % i
            for q in reversed(keys):
                v = {q: v}
            merge(model, v)
        else:
            m = model
            for q in keys[:-1]:
                m = m.setdefault(q, {})
            m[keys[-1]] = val(k, i)
        if not out.expect(deep(d) == deep(model), "state:%s" % k, lambda: "after %s the object is %s, expected %s" % (case["ops"][:i + 1], deep(d), deep(model))):
            return
    out.see(deep(d))
    for p in P2 + P3 + ["a.a.z", "y.w.v", "y.w"]:
        e = mget(model, p.split("."))
        if any(isinstance(mget(model, p.split(".")[:j]), (str, list)) for j in range(1, 1 + p.count("."))):
            continue    # indexing into text or lists is outside this property
        got = d.get_path(p, default="dflt")
        want = "dflt" if e is KeyError else e
        if isinstance(got, (dict, list)):
            got = deep(got)
        if not out.expect(got == (deep(want) if isinstance(want, (dict, list)) else want), "get", lambda: "get_path(%s) is %s, expected %s" % (p, got, want)):
            return
        if e is KeyError:
            out.expect(d.get_path(p) is None, "get-default", lambda: "get_path(%s) is %r on a missing path" % (p, d.get_path(p)))
    out.expect(deep(d) == deep(model), "get-changes", lambda: "reading changed the object")
    out.expect(deep(other) == deep(start), "other", lambda: "another object changed")
    out.expect(str(d).split(":\n", 1)[0] == "DashOrderedDict", "str", "string form")


def lookup(case, out):
    from beep.deprecated.parameters_lookup import get_diagnostic_parameters, get_protocol_parameters
    with tempfile.TemporaryDirectory() as d:
        for n in case["files"]:
            with open(os.path.join(d, n), "w") as f:
                if FILES[n] is None:
                    f.write("nothing\n")
                    continue
                f.write("project_name,seq_num,capacity_nominal,diagnostic_parameter_set,diagnostic_discharge_cutoff_voltage,diagnostic_charge_cutoff_voltage\n")
                for k, s in enumerate(FILES[n]):
                    f.write("%s,%d,%s,set%d,%s,%s\n" % (n.split("_")[0].split(".")[0], s, len(n) + k / 4, s, 2.0 + k / 8, 4.0 + s / 1024))
        listing = sorted(os.listdir(d))
        for name in NAMES:
            proj = os.path.basename(name).split(".")[0].split("_")[0]
            mine = [n for n in case["files"] if n.startswith(proj) and not n[len(proj):len(proj) + 1].isalnum()]
            try:
                row, df = get_protocol_parameters(name, d)
                err = None
            except Exception as e:
                row, df, err = None, None, e
            out.call()
            if len(mine) > 1:
                out.expect(isinstance(err, AssertionError), "ambiguous", lambda: "%s with files %s was not refused" % (name, mine))
                continue
            if mine and FILES[mine[0]] is None:
                continue
            if not out.expect(err is None, "lookup-raises", lambda: "looking up %s among %s raised %r" % (name, case["files"], err)):
                continue
            parts = os.path.basename(name).split(".")[0].split("_")
            if not mine or int(parts[1]) not in FILES[mine[0]]:
                out.expect(row is None and df is None, "found-wrong", lambda: "%s found parameters %s among %s" % (name, row, case["files"]))
            else:
                s = int(parts[1])
                k = FILES[mine[0]].index(s)
                out.expect(row is not None and len(row) == 1 and int(row["seq_num"].iloc[0]) == s and float(row["capacity_nominal"].iloc[0]) == len(mine[0]) + k / 4 and
                           df is not None and [int(x) for x in df["seq_num"]] == FILES[mine[0]], "row", lambda: "%s found %s" % (name, row))
            if mine:
                for k, s in enumerate(FILES[mine[0]]):
                    v = get_diagnostic_parameters({"parameter_set": "set%d" % s}, d, proj)
                    out.call()
                    out.expect([float(x) for x in v] == [2.0 + k / 8, 4.0 + s / 1024], "diag", lambda: "diagnostic voltages of %s set%d are %s" % (proj, s, v))
            else:
                v = get_diagnostic_parameters({"parameter_set": "set1"}, d, proj)
                out.expect(list(v) == [2.7, 4.2], "diag-default", lambda: "default diagnostic voltages %s" % v)
            out.see(name, row is not None)
        out.expect(sorted(os.listdir(d)) == listing, "dir", "lookup changed the directory")

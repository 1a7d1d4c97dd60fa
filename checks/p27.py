"""P27 - copying files from one project to another."""
import contextlib
import io
import itertools
import os
import tempfile

from checks.p15 import inside, tree

PROPERTY = "P27"
RULE = "listing: every subset of a pool of keys x page size x exclusions; transfer: every sequence of file contents up to the bound x project names x dry run x every subset of refused uploads; S3 is an in-memory store, files really are written"
ASSUMPTIONS = ["S3 is a stand-in with the calls of boto3's client that lists keys in order and page by page, and keeps what an uploaded file holds at the moment of the call",
               "no two projects in one folder have names of which one begins with the other; the name of the project occurs once in a file's name", "a download that fails is not claimed"]
BOUNDS = {"quick": "all subsets of 8 keys x 3 page sizes x 3 exclusion lists x 2 prefixes; sequences of <=2 of 10 contents x 3 project pairs x dry run x refused uploads; sequences of 12 files",
          "thorough": "sequences of <=3 of 10 contents"}
CHUNK = 60
PRE = "d3/raw/LOANER #2"
KEYS = [PRE + "/Other_000001.001", PRE + "/Proj_000001_00001A.001", PRE + "/Proj_000002_00001B.002", PRE + "/Proj_000003.Logs.txt", PRE + "/XProj_000004.003", PRE + "/sub/Proj_000005.001",
        "d3/raw/OTHER/Proj_000006.001", PRE + "/Proj_000007.011"]
EXCL = [[], ["Logs"], ["_000002", "Logs", "00001A"]]
PROJ = [("PredictionDiagnostics", "PreDiag"), ("Pro", "ProPro"), ("A#(.*)", "B\\1")]
BODY = "Rec#\tCyc#\tStep\r\n1\t0\t1\tPROJ\n2\t0\t2\tPROJ_x\n"
CONTENT = [
    b"Today's Date\t05/01/2020\tFilename:\tC:\\data\\PROJ_000001.001\tProcedure:\tPROJ\\PROJ_000001.000\n" + BODY.encode(),
    b"Filename:\tC:\\PROJ_000002\r\nPROJ\r\n\r\nlast PROJ\r\n",
    b"no name here\nPROJ second line\nlast line without end",
    b"",
    b"PROJ only line",
    b"PROJ\n",
    b"\nPROJ after an empty line\n",
    b"PROJ temp \xb0C \xff\n25 \xb0C \xe9PROJ\x00\n\x1a tail\n",
    b"PROJ\n" + b"".join(b"%d\t0.123456789\tPROJ\n" % i for i in range(9000)),
    b"x" * 20000 + b"PROJ" + b"y" * 70000 + b"\nshort PROJ",
]
MANY = 12


def cases(tier):
    t = tier == "thorough"
    for m in range(1 << len(KEYS)):
        for page in (1, 3, 1000):
            for e in range(len(EXCL)):
                yield {"list": m, "page": page, "ex": e, "slash": m % 2 ^ e % 2}
    for n in (1, 2, 3) if t else (1, 2):
        for s in itertools.product(range(len(CONTENT)), repeat=n):
            for p in range(len(PROJ)) if n < 3 else (0,):
                for dry in (0, 1):
                    for bad in range(1 << n) if n < 3 else (0, 2):
                        if n < 2 or t or not bad or (p == 0 and (s[0] + s[1]) % 3 == 0):
                            yield {"s": list(s), "p": p, "dry": dry, "bad": bad}
    for bad in (0, 1, 1 << 11, 5 << 4, (1 << MANY) - 1):
        yield {"s": [(i * 3) % 8 for i in range(MANY)], "p": 0, "dry": 0, "bad": bad}
    yield {"s": [], "p": 0, "dry": 0, "bad": 0}


class Store:
    """an S3 of buckets that are dictionaries; `log` records what was asked to change"""

    def __init__(self, buckets, page=1000, refuse=()):
        self.b, self.page, self.refuse, self.log, self.tried = buckets, page, set(refuse), [], 0

    def download_file(self, Bucket, Key, Filename, **k):
        with open(Filename, "wb") as f:
            f.write(self.b[Bucket][Key])

    def download_fileobj(self, Bucket, Key, Fileobj, **k):
        Fileobj.write(self.b[Bucket][Key])

    def get_object(self, Bucket, Key, **k):
        return {"Body": io.BytesIO(self.b[Bucket][Key]), "ContentLength": len(self.b[Bucket][Key])}

    def _put(self, bucket, key, data):
        self.tried += 1
        if self.tried - 1 in self.refuse:
            from botocore.exceptions import ClientError
            raise ClientError({"Error": {"Code": "AccessDenied", "Message": "refused"}}, "PutObject")
        self.b.setdefault(bucket, {})[key] = data
        self.log.append((bucket, key))

    def upload_file(self, Filename, Bucket, Key, **k):
        with open(Filename, "rb") as f:
            data = f.read()
        self._put(Bucket, Key, data)

    def upload_fileobj(self, Fileobj, Bucket, Key, **k):
        self._put(Bucket, Key, Fileobj.read())

    def put_object(self, Bucket, Key, Body=b"", **k):
        self._put(Bucket, Key, Body.encode() if isinstance(Body, str) else Body if isinstance(Body, bytes) else Body.read())

    def delete_object(self, Bucket, Key, **k):
        self.log.append(("delete", Bucket, Key))
        self.b[Bucket].pop(Key, None)

    def get_paginator(self, name):
        assert name in ("list_objects_v2", "list_objects")
        return self

    def paginate(self, Bucket, Prefix="", Delimiter=None, **k):
        items, seen = [], set()
        for key in sorted(self.b.get(Bucket, {})):
            if key.startswith(Prefix):
                i = key.find(Delimiter, len(Prefix)) if Delimiter else -1
                if i < 0:
                    items.append(("Contents", {"Key": key, "Size": len(self.b[Bucket][key])}))
                elif key[:i + 1] not in seen:
                    seen.add(key[:i + 1])
                    items.append(("CommonPrefixes", {"Prefix": key[:i + 1]}))
        pages = [items[i:i + self.page] for i in range(0, len(items), self.page)] or [[]]
        for p in pages:
            r = {"KeyCount": len(p), "IsTruncated": p is not pages[-1]}
            for kind, v in p:
                r.setdefault(kind, []).append(v)
            yield r

    def list_objects_v2(self, Bucket, Prefix="", Delimiter=None, ContinuationToken=None, **k):
        pages = list(self.paginate(Bucket, Prefix, Delimiter))
        n = int(ContinuationToken or 0)
        r = pages[n]
        if n + 1 < len(pages):
            r["NextContinuationToken"] = str(n + 1)
        return r


@contextlib.contextmanager
def s3(store):
    import boto3
    from beep.utils import project_transfer as pt
    real = boto3.client
    fake = lambda *a, **k: store
    names = [n for n, v in vars(pt).items() if v is real]      # imported by name
    boto3.client = fake
    for n in names:
        setattr(pt, n, fake)
    try:
        yield pt.ProjectTransfer
    finally:
        boto3.client = real
        for n in names:
            setattr(pt, n, real)


def run_case(case, out):
    if "list" in case:
        have = [k for i, k in enumerate(KEYS) if case["list"] >> i & 1]
        st = Store({"buck": {k: b"x" for k in have}, "beep-sync-test-stage": {PRE + "/Proj_000009.001": b"y"}}, case["page"])
        ex = list(EXCL[case["ex"]])
        with s3(st) as PT, contextlib.redirect_stdout(io.StringIO()):
            got = PT("Proj", "New", "buck", PRE + ("/" if case["slash"] else "")).get_list_files(ex)
        out.call()
        want = [k for k in have if k.startswith(PRE + "/Proj") and not any(e in k for e in EXCL[case["ex"]])]
        out.see(got)
        out.expect(sorted(got) == sorted(want), "listing", lambda: "selected %s of %s, expected %s" % (got, have, want))
        out.expect(ex == EXCL[case["ex"]] and not st.log, "listing-effect", "listing changed its arguments or the store")
        return
    a, b = PROJ[case["p"]]
    names = ["%s/%s_%06d_0000%02d.%03d" % (PRE if i % 2 == 0 else "raw/" + a, a, i // 2 if case["p"] else i, i, i + 1) for i in range(len(case["s"]))]
    data = [CONTENT[c].replace(b"PROJ", a.encode()) for c in case["s"]]
    src = dict(zip(names, data))
    before = {"buck": dict(src, **{"raw/else": b"else"}), "beep-sync-test-stage": {"old": b"old"}}
    st = Store({k: dict(v) for k, v in before.items()}, refuse=[i for i in range(len(names)) if case["bad"] >> i & 1])
    arg = list(names)
    with tempfile.TemporaryDirectory() as tmp:
        w = os.path.join(tmp, "w")
        os.mkdir(w)
        with open(os.path.join(w, "keep"), "w") as f:
            f.write("keep")
        buf = io.StringIO()
        with inside(w), s3(st) as PT, contextlib.redirect_stdout(buf):
            t = PT(a, b, "buck", PRE, dry_run=bool(case["dry"])) if case["p"] != 1 or not case["dry"] else PT(a, b, "buck", PRE)
            try:
                t.download_and_modify(arg)
            except Exception as e:
                out.expect(False, "raises", "transfer of %s raised %r" % (names, e))
                return
            here = os.path.realpath(os.getcwd()) == os.path.realpath(w)
        out.call()
        out.expect(here, "cwd", "working directory changed")
        out.expect(tree(tmp) and sorted(os.listdir(w)) == ["keep"] and sorted(os.listdir(tmp)) == ["w"], "left", lambda: "left behind %s" % tree(tmp))
    dest = "beep-sync-test-stage" if case["dry"] else "buck"
    want = {k: dict(v) for k, v in before.items()}
    for i, (n, d) in enumerate(zip(names, data)):
        if not case["bad"] >> i & 1:
            first, nl, rest = d.partition(b"\n")
            folder, base = os.path.split(n)
            want[dest][folder + "/" + base.replace(a, b)] = first.replace(a.encode(), b.encode()) + nl + rest
    out.expect(arg == names, "argument", "the list of names was changed")
    if case["bad"]:
        out.expect("refused" in buf.getvalue(), "silent", "a refused upload was not reported")
    for bucket in sorted(set(want) | set(st.b)):
        x, y = st.b.get(bucket, {}), want.get(bucket, {})
        out.expect(sorted(x) == sorted(y), "keys", lambda: "%s holds %s, expected %s" % (bucket, sorted(x), sorted(y)))
        for k in y:
            if k in x:
                out.see(len(x[k]))
                out.expect(x[k] == y[k], "content", lambda: "%s of %s holds %d bytes %r.., expected %d bytes %r.." % (k, bucket, len(x[k]), x[k][:40], len(y[k]), y[k][:40]))
    out.expect(not any(e[0] == "delete" for e in st.log), "deleted", "an object was deleted")

"""Tiny synthetic cycler records, and reference computations over plain rows.

A record is described by a JSON-able spec:

  {"cycles": [[index, "CVD", fade], ...], "index": "range"|"offset"|"rev", "t0": ...}

Each letter is one step of the cycle (step_index = 1-based position):
  C  constant-current charge, 4 rows      V  constant-voltage tail, 4 rows
  D  discharge, 4 rows                    R  rest, 3 rows
  c  charge with 2 rows only              d  discharge with 2 rows only
  o  a single-row discharge               x  a second charge burst that re-uses the step index of the 1st C
  w  discharge that stops early (voltage stays above 3.3 V, 40 % of the charge)
  m  net charge with a discharge burst, 5 rows   n  net discharge with a charge burst, 5 rows
  z  discharge in which the voltage recovers once, 5 rows
  K  CC then CV in one step, 7 rows     P, Q, S  a rest in which the test was paused for 2 h, 4 h, 50 min
Rows are plain dicts so that the reference model never touches pandas.
"""
import datetime

BASE = datetime.datetime(2020, 1, 1, 0, 0, 0)

FR4 = (0.0, 0.25, 0.625, 1.0)
T4 = (0.0, 100.0, 350.0, 1000.0)


def iso(t):
    return (BASE + datetime.timedelta(seconds=t)).isoformat() + "+00:00"


def cycle_rows(cyc, shape, fade, t, si0=1, rows=None):
    """Append the rows of one cycle; returns the end time."""
    rows = rows if rows is not None else []
    qc = qd = ec = ed = 0.0
    v = 2.75
    scale = fade
    first_c = None
    for pos, s in enumerate(shape):
        si = si0 + pos
        pts = []
        if s in "Cc":
            if first_c is None:
                first_c = si
            fr, tt = (FR4, T4) if s == "C" else ((0.0, 1.0), (0.0, 600.0))
            q = 1.0 * scale
            v0, v1 = max(v, 2.75), 3.625
            for f, dt in zip(fr, tt):
                pts.append((t + dt, v0 + (v1 - v0) * f * (2 - f), 1.0, q * f, 0.0))
            v = v1
        elif s == "K":
            # constant current then constant voltage within one step
            if first_c is None:
                first_c = si
            q = 1.0 * scale
            v0, v1 = max(v, 2.75), 3.625
            for f, dt in zip(FR4, T4):
                pts.append((t + dt, v0 + (v1 - v0) * f * (2 - f), 1.0, q * f, 0.0))
            for f, dt, i in zip(FR4[1:], T4[1:], (0.75, 0.25, 0.0625)):
                pts.append((t + T4[-1] + dt, v1, i, q + 0.125 * scale * (1 - (1 - f) ** 2), 0.0))
            v = v1
        elif s == "x":
            si = first_c if first_c is not None else si
            for f, dt in zip(FR4, T4):
                pts.append((t + dt, 3.625 + 0.0625 * f, 0.5, 0.125 * scale * f, 0.0))
            v = 3.6875
        elif s == "V":
            for f, dt, i in zip(FR4, T4, (0.75, 0.5, 0.25, 0.0625)):
                pts.append((t + dt, v, i, 0.125 * scale * (1 - (1 - f) ** 2), 0.0))
        elif s in "Dwdo":
            fr, tt = (FR4, T4)
            q, v1 = 1.0 * scale, 2.6875
            if s == "w":
                q, v1 = 0.4 * scale, 3.375
            if s == "d":
                fr, tt = (0.0, 1.0), (0.0, 600.0)
            if s == "o":
                fr, tt = (0.5,), (0.0,)
            v0 = v if v > 3.4 else 3.5
            for f, dt in zip(fr, tt):
                pts.append((t + dt, v0 + (v1 - v0) * f * (2 - f), -1.0, 0.0, q * f))
            v = v1
        elif s in "mn":
            # a drive profile: net charge with one discharge burst (m), net discharge with one charge burst (n)
            v0, v1 = (max(v, 2.75), 3.625) if s == "m" else (v if v > 3.4 else 3.5, 2.6875)
            a, b = (0.0, 0.375, 0.75, 0.75, 1.0), (0.0, 0.0, 0.0, 0.25, 0.25)
            for f, dt, x, y in zip((0.0, 0.3125, 0.5, 0.75, 1.0), (0.0, 100.0, 350.0, 400.0, 1000.0), a, b):
                x, y = (x, y) if s == "m" else (y, x)
                pts.append((t + dt, v0 + (v1 - v0) * f, (1.0 if s == "m" else -1.0) * (-0.5 if dt == 400.0 else 1), scale * x, scale * y))
            v = v1
        elif s == "z":
            # a pulsed discharge: the voltage recovers once on the way down
            for f, dt, vv, i in ((0.0, 0.0, 3.5, -1.0), (0.375, 100.0, 3.1875, -1.0), (0.4375, 350.0, 3.3125, -0.25), (0.75, 600.0, 2.9375, -1.0), (1.0, 1000.0, 2.6875, -1.0)):
                pts.append((t + dt, vv, i, 0.0, scale * f))
            v = 2.6875
        elif s == "u":
            # a discharge pulse and its recovery: the step ends at the voltage it began with
            for f, dt, vv, i in ((0.0, 0.0, 3.5, -1.0), (0.25, 10.0, 3.25, -1.0), (0.375, 20.0, 3.0625, -1.0), (0.4375, 40.0, 3.375, -0.25), (0.5, 60.0, 3.5, -0.125)):
                pts.append((t + dt, vv, i, 0.0, 0.5 * scale * f))
            v = 3.5
        elif s in "RPQS":
            gap = {"R": 50.0, "P": 7200.0, "Q": 14400.0, "S": 3000.0}[s]
            for k, dt in enumerate((0.0, 40.0, 40.0 + gap)):
                pts.append((t + dt, v + 0.001953125 * k, 0.0, 0.0, 0.0))
        for k, (tt_, vv, ii, dqc, dqd) in enumerate(pts):
            rows.append(
                {
                    "test_time": tt_,
                    "cycle_index": cyc,
                    "step_index": si,
                    "current": ii,
                    "voltage": vv,
                    "charge_capacity": qc + dqc,
                    "discharge_capacity": qd + dqd,
                    "charge_energy": ec + 3.5 * dqc + dqc * dqc,
                    "discharge_energy": ed + 3.25 * dqd + 0.5 * dqd * dqd,
                    "internal_resistance": 0.015625 * (1 + (cyc % 5)) + 0.0009765625 * (len(rows) % 7),
                    "temperature": 25.0 + (len(rows) * 7 % 11) * 0.5 + (cyc % 3),
                    "date_time_iso": iso(tt_),
                }
            )
        if pts:
            _, _, _, dqc, dqd = pts[-1]
            qc += dqc
            ec += 3.5 * dqc + dqc * dqc
            qd += dqd
            ed += 3.25 * dqd + 0.5 * dqd * dqd
            t = pts[-1][0] + 30.0
    return t


RENUM = {"desc": lambda si: 200 - si, "mix": lambda si: 1 + si * 7 % 23}


def build_rows(spec):
    rows = []
    t = spec.get("t0", 0.0)
    for c in spec["cycles"]:
        cyc, shape, fade = c[0], c[1], c[2]
        si0 = c[3] if len(c) > 3 else 1
        t = cycle_rows(cyc, shape, fade, t, si0, rows)
    renum = RENUM.get(spec.get("renum"))
    if renum:      # the procedure does not run its steps in the order of their numbers
        for r in rows:
            r["step_index"] = renum(r["step_index"])
    drop = spec.get("drop")
    if drop:
        for r in rows:
            for k in drop:
                r.pop(k, None)
    return rows


COLS = ["test_time", "cycle_index", "step_index", "current", "voltage", "charge_capacity",
        "discharge_capacity", "charge_energy", "discharge_energy", "internal_resistance",
        "temperature", "date_time_iso"]


def build_df(spec):
    import pandas as pd

    rows = build_rows(spec)
    cols = [c for c in COLS if rows and c in rows[0]]
    df = pd.DataFrame({c: [r[c] for r in rows] for c in cols})
    kind = spec.get("index", "range")
    if kind == "offset":
        df.index = [100 + i for i in range(len(df))]
    elif kind == "rev":
        df.index = list(range(len(df) - 1, -1, -1))
    return df


def make_datapath(spec, diagnostic=None, metadata=None, paths=None, schema=None):
    from beep.structure.base import BEEPDatapath

    dp = datapath_class()(
        raw_data=build_df(spec),
        metadata=metadata if metadata is not None else {"barcode": "b1", "protocol": "p1", "channel_id": 3},
        paths=paths,
        schema=schema,
    )
    if diagnostic is not None:
        from beep.structure.diagnostic import DiagnosticConfig

        dp.diagnostic = DiagnosticConfig({k: set(v) for k, v in diagnostic.items()})
    return dp


_CLS = None


def datapath_class():
    """A minimal concrete datapath: the abstract base plus a trivial loader."""
    global _CLS
    if _CLS is None:
        from beep.structure.base import BEEPDatapath

        class PlainDatapath(BEEPDatapath):
            @classmethod
            def from_file(cls, path, *a, **k):
                raise NotImplementedError

        _CLS = PlainDatapath
    return _CLS


def frame_digest(df, nd=9):
    """Order-preserving, dtype-independent digest of a frame."""
    import math

    if df is None:
        return None
    out = []
    for c in df.columns:
        vals = []
        for v in df[c].tolist():
            if isinstance(v, float):
                vals.append("nan" if math.isnan(v) else "%.*g" % (nd, v))
            else:
                vals.append(str(v))
        out.append((str(c), tuple(vals)))
    return tuple(sorted(out))


# ---------------------------------------------------------------- reference model

def isnan(x):
    return x is None or (isinstance(x, float) and x != x)


def direction(rows):
    """Direction of one step from its own capacity change: 'charge', 'discharge' or None (no change)."""
    dc = rows[-1]["charge_capacity"] - rows[0]["charge_capacity"]
    dd = rows[-1]["discharge_capacity"] - rows[0]["discharge_capacity"]
    if len(rows) < 2:
        return None
    if dc > dd and dc > 0:
        return "charge"
    if dd > dc and dd > 0:
        return "discharge"
    return None


def steps_of(rows, cyc):
    by = {}
    for r in rows:
        if r["cycle_index"] == cyc:
            by.setdefault(r["step_index"], []).append(r)
    return by


def linspace(a, b, n):
    if n == 1:
        return [a]
    return [a + (b - a) * k / (n - 1) for k in range(n)]


def interp_at(pts, x):
    """Piecewise-linear value of [(x, y)...] at x.

    Returns ("in", lo, hi): admissible interval (a single value unless x hits a repeated
    abscissa), or ("out", ymin, ymax) when x is outside the measured range."""
    pts = sorted(pts, key=lambda p: p[0])
    xs = [p[0] for p in pts]
    tol = 1e-9 * max(1.0, abs(x))
    if x < xs[0] - tol or x > xs[-1] + tol:
        ys = [p[1] for p in pts]
        return "out", min(ys), max(ys)
    hit = [p[1] for p in pts if abs(p[0] - x) <= tol]
    if hit:
        return "in", min(hit), max(hit)
    for (x0, y0), (x1, y1) in zip(pts, pts[1:]):
        if x0 < x < x1:
            # neighbours with a repeated abscissa make the segment ambiguous
            l = [p[1] for p in pts if abs(p[0] - x0) <= tol]
            h = [p[1] for p in pts if abs(p[0] - x1) <= tol]
            w = (x - x0) / (x1 - x0)
            vals = [a + (b - a) * w for a in (min(l), max(l)) for b in (min(h), max(h))]
            return "in", min(vals), max(vals)
    return "out", None, None


def auto_load(fn):
    from beep.structure.cli import auto_load as al
    return al(fn)

"""Reference model of drive-cycle powers and of Maccor waveform files."""
import math

SCALE = {"mph": 1600.0 / 3600.0, "kmph": 1000.0 / 3600.0, "mps": 1.0}


def gradient(v, t):
    n, g = len(v), []
    for i in range(n):
        if i == 0:
            g.append((v[1] - v[0]) / (t[1] - t[0]))
        elif i == n - 1:
            g.append((v[-1] - v[-2]) / (t[-1] - t[-2]))
        else:
            a, b = t[i] - t[i - 1], t[i + 1] - t[i]
            g.append((v[i + 1] - v[i]) / b * a / (a + b) + (v[i] - v[i - 1]) / a * b / (a + b))
    return g


def power(t, v, unit):
    """Power in W into the battery (positive charges) for a car of 1500 kg."""
    v = [x * SCALE[unit] for x in v]
    return [-(1500 * a + 0.01 * 1500 * 9.8 + 0.5 * 1.225 * 0.34 * 1.75 * x * x) * x for x, a in zip(v, gradient(v, t))]


def samples(values, mode, cfg):
    """One entry per second: (state, control, value, limit mode, limit, end mode, operation, end)."""
    peak = max(abs(x) for x in values)
    out = []
    for x in values:
        y = x / peak * cfg["value_scale"] if peak else 0.0
        k = "charge" if x > 0 else "discharge"
        out.append(("C" if x > 0 else "D", "I" if x == 0 and mode == "P" and cfg["control_mode"] == "P" else cfg["control_mode"], abs(y),
                    cfg[k + "_limit_mode"], cfg[k + "_limit_value"], cfg[k + "_end_mode"], cfg[k + "_end_operation"], cfg[k + "_end_mode_value"]))
    return out


def read(path):
    """Rows of a waveform file as written: lists of 12 texts."""
    with open(path) as f:
        return [line.rstrip("\n").split("\t") for line in f]


def same(a, b, tol=1e-9):
    if isinstance(b, str):
        return a == b
    if b is None:
        return a == ""
    try:
        return abs(float(a) - b) <= tol
    except ValueError:
        return False


def compare(rows, want, cfg, tol=6e-6):
    """None or a text saying where the file differs from the wanted samples."""
    i = 0
    for n, r in enumerate(rows):
        if len(r) != 12:
            return "row %d has %d fields" % (n, len(r))
        try:
            d = int(r[5])
        except ValueError:
            return "row %d lasts %r" % (n, r[5])
        if d < 1 or i + d > len(want):
            return "rows last longer than the profile (row %d, %d s of %d)" % (n, i + d, len(want))
        for w in want[i:i + d]:
            if not (r[0] == w[0] or 0 < abs(w[2]) <= tol) or r[1] != w[1] or not same(r[2], w[2], tol):
                return "second %d: %r instead of %r" % (i, r[:3], w[:3])
            if r[0] == w[0] and not all(same(a, b) for a, b in zip((r[3], r[4], r[6], r[7], r[8]), w[3:])):
                return "second %d limits: %r instead of %r" % (i, r[3:9], w[3:])
        if r[9] != cfg["report_mode"] or not same(r[10], cfg["report_value"]) or r[11] != cfg["range"]:
            return "row %d: report or range %r" % (n, r[9:])
        i += d
    if i != len(want):
        return "file lasts %d s instead of %d" % (i, len(want))
    return None

"""Synthetic structured records for the featurizers, kept as plain Python rows (the oracle reads these)
and turned into the frames of a real datapath (which the code under test reads)."""
import math
import os

NAN = float("nan")
PARAMS = {  # seq_num -> row of the parameter table
    1: dict(capacity_nominal=4.0, diagnostic_start_cycle=5, diagnostic_interval=10, charge_constant_current_1=2.0, charge_constant_current_2=1.0,
            charge_cutoff_voltage=3.6, charge_constant_voltage_time=30, discharge_constant_current=1.0, discharge_cutoff_voltage=2.7),
    2: dict(capacity_nominal=5.0, diagnostic_start_cycle=6, diagnostic_interval=20, charge_constant_current_1=1.0, charge_constant_current_2=3.0,
            charge_cutoff_voltage=3.8, charge_constant_voltage_time=15, discharge_constant_current=2.0, discharge_cutoff_voltage=2.9),
    12: dict(capacity_nominal=4.5, diagnostic_start_cycle=7, diagnostic_interval=30, charge_constant_current_1=3.0, charge_constant_current_2=1.5,
             charge_cutoff_voltage=3.7, charge_constant_voltage_time=10, discharge_constant_current=0.5, discharge_cutoff_voltage=2.8),
}
TYPES = ["reset", "hppc", "rpt_0.2C", "rpt_1C", "rpt_2C"]
CRATE = {"reset": 0.05, "rpt_0.2C": 0.2, "rpt_1C": 1.0, "rpt_2C": 2.0}


def param_dir(td):
    d = os.path.join(td, "params")
    os.makedirs(d, exist_ok=True)
    cols = list(PARAMS[1])
    with open(os.path.join(d, "Toy_parameters - GP.csv"), "w") as f:
        f.write("project_name,seq_num," + ",".join(cols) + "\n")
        for s, row in PARAMS.items():
            f.write(f"Toy,{s}," + ",".join(str(row[c]) for c in cols) + "\n")
    with open(os.path.join(d, "Zoo_parameters - GP.csv"), "w") as f:
        f.write("project_name,seq_num," + ",".join(cols) + "\n")
        f.write("Zoo,1," + ",".join("9" for c in cols) + "\n")
    return d


def wob(i, j=0):
    """A smooth, irregular, deterministic value in (0,1)."""
    return ((i * i * 37 + i * 11 + j * j * 29 + i * j * 53 + j * 101 + 13) % 97) / 97.0


class Rec:
    """spec keys: blocks, nreg, nan, final, null, proto, seq, pat, ir0, nostep, cv, hot"""

    def __init__(self, spec):
        self.spec = spec
        g = spec.get
        self.blocks, nreg, self.seq, pat = g("blocks", 2), g("nreg", 8), g("seq", 1), g("pat", 0)
        cap = PARAMS[self.seq]["capacity_nominal"]
        self.cap = cap
        self.summary, self.interp, self.dsum, self.diag = [], [], [], []
        t = 0.0
        cyc = 0
        thr = 0.0
        nreg_done = 0
        for b in range(self.blocks):
            for ty in ([] if g("plain") else TYPES):
                self.diag_cycle(cyc, ty, b, t, pat)
                fade = 1.0 - (0.07, 0.13, 0.25)[pat % 3] * b - 0.01 * wob(b, TYPES.index(ty))
                if g("grow") and b == self.blocks - 1:
                    fade = 1.2
                self.dsum.append(dict(cycle_index=cyc, cycle_type=ty, date_time_iso="2020-01-%02dT00:00:%02d+00:00" % (1 + b, cyc % 60),
                                      discharge_capacity=cap * fade * (1 - 0.03 * TYPES.index(ty)), charge_capacity=cap * fade * (1.01 - 0.02 * TYPES.index(ty)),
                                      discharge_energy=3.5 * cap * fade * (1 - 0.04 * TYPES.index(ty)), charge_energy=3.7 * cap * fade * (1 - 0.05 * TYPES.index(ty))))
                if g("grow") == 2 and b == self.blocks - 1:      # exactly as good as at the start
                    self.dsum[-1].update({m: self.dsum[0][m] for m in ("discharge_capacity", "charge_capacity", "discharge_energy", "charge_energy")})
                cyc += 1
                t += 20000.0
            for k in range(0 if g("ends") and b == self.blocks - 1 else nreg):
                q = cap * (0.9 - 0.012 * nreg_done * (1 + pat) + 0.01 * wob(nreg_done, pat))
                thr += q * 1.02
                self.summary.append(dict(cycle_index=cyc, discharge_capacity=q, charge_capacity=q * 1.01, discharge_energy=3.3 * q - 0.1, charge_energy=3.6 * q,
                                         dc_internal_resistance=0.0 if g("ir0") and nreg_done % 3 == 2 else 0.02 + 0.001 * nreg_done + 0.002 * wob(nreg_done, 3),
                                         temperature_maximum=NAN if g("nan") and nreg_done == 3 else 30 + 3 * wob(nreg_done, 5) + (40 if g("hot") is not None and nreg_done == g("hot") else 0),
                                         temperature_minimum=25 - 3 * wob(nreg_done, 7) - (40 if g("hot") is not None and nreg_done == g("hot") else 0),
                                         time_temperature_integrated=NAN if g("nan") and nreg_done == 4 else 1000 + 50 * wob(nreg_done, 9),
                                         charge_duration=NAN if g("nan") and nreg_done == 2 else 3000 + 100 * wob(nreg_done, 11), charge_throughput=NAN if g("nan") and nreg_done == 5 else thr,
                                         date_time_iso="2020-02-%02dT00:00:00+00:00" % (1 + cyc % 28)))
                self.reg_cycle(cyc, q, t, nreg_done)
                cyc += 1
                nreg_done += 1
                t += 8000.0
        if g("final"):
            # a final diagnostic appended with the cycle numbers of the first one
            tt = 2.0e6
            for c, ty in enumerate(TYPES):
                if ty != "reset":
                    self.diag_cycle(c, ty, 7, tt, pat)
                tt += 20000.0
        if g("null"):
            for c, ty in ((2, "rpt_0.2C"), (1, "hppc")):
                for i in range(3):
                    self.diag.append(dict(cycle_index=c, cycle_type=ty, step_index=77, step_index_counter=77, test_time=NAN, voltage=3.0 + i * 0.1, current=NAN,
                                          charge_capacity=NAN, discharge_capacity=NAN, charge_energy=NAN, discharge_energy=NAN, charge_dQdV=NAN, discharge_dQdV=NAN))

    def reg_cycle(self, cyc, q, t, k):
        g = self.spec.get
        n = 6
        for st in ("charge", "discharge"):
            if g("nostep") and st == "charge":
                continue
            if g("nodis") and st == "discharge":
                continue
            for i in range(n):
                f = i / (n - 1.0)
                nan = g("nan") and i == 0
                if st == "charge":
                    # constant current up to row 3, then constant voltage: CV onset early or late in the cycle
                    late = not (g("cv") and k == g("cv"))
                    ts = (0, 600, 1200, 1500, 1700, 1900) if late else (0, 20, 40, 60, 1000, 1900)
                    vol = (2.8, 3.0, 3.2, 3.6, 3.6, 3.6)[i]
                    cur = (2.0, 2.0, 2.0, 2.0, 1.2, 0.4)[i]
                    tt = t + ts[i]
                else:
                    vol, cur, tt = 3.5 - 0.8 * f, -1.0, t + 2000 + 200 * i
                w = wob(k, i)
                self.interp.append(dict(cycle_index=cyc, step_type=st, voltage=vol, current=cur, test_time=tt,
                                        charge_capacity=NAN if nan and st == "charge" else q * (f + 0.02 * w) if st == "charge" else q * 1.01 + 0.003 * w,
                                        discharge_capacity=NAN if nan and st == "discharge" else (q * (f + 0.03 * w * w) + 0.001 * k if st == "discharge" else 0.002 * w * q),
                                        charge_energy=q * (3.3 * f + 0.05 * w * w) if st == "charge" else q * 3.6 + 0.05 * w,
                                        discharge_energy=q * (3.2 * f + 0.04 * math.sqrt(w)) if st == "discharge" else 0.05 * w * w))

    def diag_cycle(self, c, ty, b, t, pat):
        g = self.spec.get
        cap = self.cap
        off = 20 * b if b < 7 else 0   # later diagnostics use other step numbers
        if ty != "hppc":
            cr = CRATE[ty]
            base = {"reset": 1, "rpt_0.2C": 9, "rpt_1C": 11, "rpt_2C": 13}[ty]
            n = 7
            for s, st in enumerate(("charge", "discharge")):
                for i in range(n):
                    f = i / (n - 1.0)
                    w = wob(b * 5 + i, TYPES.index(ty) + s)
                    nan = g("nan") and ((s == 0 and i == 0) or (s == 1 and i == n - 1)) or g("nan") == 2 and i == 3
                    tt = t + (5000.0 if s else 0.0) + 3600 * 0.9 * f
                    fade = 1 - 0.1 * (1 + pat) * (b if b < 7 else 4)
                    r = dict(cycle_index=c, cycle_type=ty, step_index=base + s + off, step_index_counter=base + s + (1000 if b == 7 else 0), test_time=NAN if nan else tt,
                             voltage=(2.7 + 0.9 * f) if s == 0 else 3.6 - 0.9 * f, current=NAN if nan else cap * cr * (1 if s == 0 else -1),
                             charge_capacity=NAN if nan else (cap * fade * (f + 0.05 * w) if s == 0 else cap * fade * 1.06),
                             discharge_capacity=NAN if nan else (0.0 if s == 0 else cap * fade * (f + 0.04 * w)),
                             charge_energy=NAN if nan else (3.5 * cap * fade * (f + 0.06 * w * w) if s == 0 else 3.7 * cap * fade),
                             discharge_energy=NAN if nan else (0.0 if s == 0 else 3.3 * cap * fade * (f + 0.03 * w * w)),
                             charge_dQdV=NAN if nan else (cap * (1 + w) * fade if s == 0 else 0.0), discharge_dQdV=NAN if nan else (0.0 if s == 0 else -cap * (0.5 + w * w) * fade))
                    self.diag.append(r)
            return
        # hppc: charge to soc, then windows of rest / discharge pulse / rest / charge pulse / discharge to next soc, then a final discharge
        age = (b if b < 7 else 4)
        cnt = 1100 if b == 7 else 100
        tt = t
        q = 0.0

        def row(step, time, v, i, qd):
            self.diag.append(dict(cycle_index=c, cycle_type=ty, step_index=step + off, step_index_counter=cnt, test_time=time, voltage=v, current=i,
                                  charge_capacity=cap, discharge_capacity=qd, charge_energy=3.6 * cap, discharge_energy=3.4 * qd, charge_dQdV=0.0, discharge_dQdV=0.0))
        for i in range(5):
            row(3, tt + 200.0 * i, 3.0 + 0.1 * i, 0.5 * cap, 0.0)
        tt += 1000.0
        cnt += 1
        nwin = g("nwin", 9)
        for w in range(nwin):
            ocv = 4.0 - 0.12 * w - 0.01 * age * wob(w, pat)
            # long rest: the value 10 points before the end equals the mean of the last 10
            wig = (0.0, 0.001, -0.001, 0.003, -0.003, 0.002, -0.002, 0.004, -0.004, 0.0)
            for i in range(13):
                v = ocv + (wig[i - 3] if i >= 3 else 0.02 * (3 - i))
                row(4, tt + 300.0 * i, v, 0.02 * cap * (i - 10) * (1 + age) if g("grow") and i > 10 else 0.0, q)   # a little leakage
            last = ocv
            tt += 300.0 * 12 + 1
            cnt += 1
            rr = 0.05 + 0.01 * age + 0.004 * wob(w, 3 + pat)
            for i, dt in enumerate((0.0, 1.0, 2.5, 5.0, 20.0, 40.0)):
                row(5, tt + dt, last - cap * rr * (1 + 0.1 * math.sqrt(dt)), -cap, q)
            tt += 41.0
            cnt += 1
            slope = 0.01 * (1 + 0.1 * w) * (1 + 0.2 * age)
            vr = last - 0.03
            for i in range(9):
                dt = 5.0 * i
                x = math.sqrt(dt + 40.0) - math.sqrt(dt)
                row(6, tt + dt, vr - slope * x - 0.0003 * wob(i, w), 0.01 * cap * (i - 6) * (1 + age) if g("grow") and i > 6 else 0.0, q)
            vrest = vr - slope * (math.sqrt(80.0) - math.sqrt(40.0))
            tt += 41.0
            cnt += 1
            for i, dt in enumerate((0.0, 0.5, 2.9, 4.0, 40.0)):
                row(7, tt + dt, vrest + 0.75 * cap * rr * (1 + 0.07 * math.sqrt(dt)), 0.75 * cap, q)
            tt += 41.0
            cnt += 1
            dq = 0.095 * cap * (1 + (0.03 if g("grow") else -0.02) * age)
            for i in range(6):
                f = i / 5.0
                qq = q + dq * f
                v = 4.0 - 1.2 * qq / cap - (0.02 * age * (1 + 0.3 * wob(i, w)))
                row(8, tt + 1200.0 * f, v, -0.3 * cap, qq)
            q += dq
            tt += 1201.0
            cnt += 1
        for i in range(5):
            row(9, tt + 300.0 * i, 2.9 - 0.05 * i, -0.2 * cap, q + 0.01 * i)

    # -- frames ---------------------------------------------------------------
    def datapath(self):
        import pandas as pd
        from beep.structure.arbin import ArbinDatapath
        name = "Toy_%06d_CH1" % self.seq
        proto = {0: "%s.000", 1: "2020\\x\\%s.000", 2: "/home/prot/%s.000"}[self.spec.get("proto", 0)] % name
        paths = {"raw": "/data/%s.csv" % name, "structured": "/data/%s_structure.json" % name}
        if self.spec.get("paths") == "structured":
            paths.pop("raw")
        dp = ArbinDatapath(raw_data=None, metadata={"barcode": "b", "protocol": proto, "channel_id": 1}, paths=paths)
        dp.structured_summary = pd.DataFrame(self.summary)
        dp.structured_data = pd.DataFrame(self.interp)
        if self.spec.get("nostep"):
            dp.structured_data = dp.structured_data.drop(columns=["step_type"])
        if not self.spec.get("nodiag") and not self.spec.get("plain"):
            dp.diagnostic_summary = pd.DataFrame(self.dsum)
            dp.diagnostic_data = pd.DataFrame(self.diag)
        if self.spec.get("nominal"):
            dp.structuring_parameters = {"nominal_capacity": self.spec["nominal"]}
        return dp

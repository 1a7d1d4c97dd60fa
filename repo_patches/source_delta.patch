From bc527ecba612ca1ad24650f3eab7fcf17c92bd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:15 +0000
Subject: [PATCH 001/109] fix: classify two-sample charge steps as charge

When every charge-capacity increment of a step is flagged as a jump (e.g. a step
with two samples), the step was labelled as charging iff it was discharging.
---
 beep/structure/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index c37bfdd..4251999 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -1353,7 +1353,9 @@ def step_is_chg_state(step_df, chg, indeterminate_step_charge=True):
     if np.isnan(avg_chg_delta) and np.isnan(avg_dchg_delta):
         is_charging = None
     elif np.isnan(avg_chg_delta):
-        is_charging = avg_dchg_delta > 0
+        is_charging = avg_dchg_delta < 0 or (
+            avg_dchg_delta == 0 and total_cap_diffs["charge_capacity"] > 0
+        )
     elif np.isnan(avg_dchg_delta):
         is_charging = avg_chg_delta > 0
     else:
-- 
2.43.0


From bf7314868267fe60c39a50315cd64d2460d5d932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:23 +0000
Subject: [PATCH 002/109] fix: interpolate cycles of raw data with a
 non-default index

---
 beep/structure/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index 4251999..10cf696 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -709,7 +709,7 @@ class BEEPDatapath(abc.ABC, MSONable):
             diag_mask = self.raw_data.cycle_index.isin(self.diagnostic.all_ix)
             reg_mask = ~diag_mask
         else:
-            reg_mask = pd.Series([True] * self.raw_data.shape[0])
+            reg_mask = pd.Series(True, index=self.raw_data.index)
 
         reg_cycles = self.raw_data[reg_mask].cycle_index.unique()
 
-- 
2.43.0


From 0a68971bcee0938d256e1cf5d40918d38d8000e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:50 +0000
Subject: [PATCH 003/109] fix: report charge_duration on the row of the cycle
 it belongs to

The durations carried a positional index and were aligned with the cycle
numbers, so every record not numbered 0..n-1 got shifted or missing values.
---
 beep/structure/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index 10cf696..94aaf73 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -827,6 +827,7 @@ class BEEPDatapath(abc.ABC, MSONable):
             pd.to_datetime(merged.date_time_iso_y, utc=True, errors="coerce"),
             pd.to_datetime(merged.date_time_iso_x, utc=True, errors="coerce"),
         )
+        time_diff.index = merged["cycle_index"]
         summary["charge_duration"] = np.round(
             time_diff / np.timedelta64(1, "s"), 2)
 
-- 
2.43.0


From f1ec0b4d2ca442e5181919d9af36128f1a4f9a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:50 +0000
Subject: [PATCH 004/109] fix: do not leave a scratch column in the raw data
 after summarizing

---
 beep/structure/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index 94aaf73..b0d9d78 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -852,7 +852,7 @@ class BEEPDatapath(abc.ABC, MSONable):
             )
 
         # Drop the time since cycle start column
-        self.raw_data.drop(columns=["time_since_cycle_start"])
+        self.raw_data.drop(columns=["time_since_cycle_start"], inplace=True)
 
         # Determine if any of the cycles has been paused
         summary["paused"] = self.raw_data.groupby("cycle_index").apply(
-- 
2.43.0


From 741ec32009ad34480677703b3dfb9370a6bde65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:50 +0000
Subject: [PATCH 005/109] fix: judge completeness of the last regular cycle on
 its own voltages

With a diagnostic cycle at the end of the record, the voltages of that
diagnostic cycle were combined with the capacities of the last regular cycle.
---
 beep/structure/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index b0d9d78..b5f31a4 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -886,7 +886,7 @@ class BEEPDatapath(abc.ABC, MSONable):
             return summary
 
         last_voltage = self.raw_data.loc[
-            self.raw_data["cycle_index"] == self.raw_data["cycle_index"].max()
+            self.raw_data["cycle_index"] == summary["cycle_index"].iloc[-1]
             ]["voltage"]
         if (
                 (last_voltage.min() < cycle_complete_vmin)
-- 
2.43.0


From 4b95eebc4bd725e152fdf32b2610608e1fa86582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:49 +0000
Subject: [PATCH 006/109] fix: report the cycle life as the cycle that reaches
 the threshold

The end-of-run test used <= but the search used <, so a run ending exactly
at the threshold raised IndexError; and the row label was returned, which is
the cycle index only until the object is saved and reloaded.
---
 beep/structure/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index b5f31a4..348df75 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -1153,9 +1153,9 @@ class BEEPDatapath(abc.ABC, MSONable):
 
         # If capacity falls below 80% of initial capacity by end of run
         if self.structured_summary.discharge_capacity.iloc[-1] / max_capacity <= threshold:
-            cycle_life = self.structured_summary[
-                self.structured_summary.discharge_capacity < threshold * max_capacity
-            ].index[0]
+            cycle_life = self.structured_summary.cycle_index[
+                self.structured_summary.discharge_capacity / max_capacity <= threshold
+            ].iloc[0]
         else:
             # Some cells do not degrade below the threshold (low degradation rate)
             cycle_life = len(self.structured_summary) + 1
-- 
2.43.0


From 210fbb182ffcf0dd8bf80e61770589a30890da60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:49 +0000
Subject: [PATCH 007/109] fix: size the capacity table by the cycles it lists

A range that is not a multiple of the interval raised a length mismatch.
---
 beep/structure/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index 348df75..6e6ea7c 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -1175,11 +1175,11 @@ class BEEPDatapath(abc.ABC, MSONable):
         Returns:
             pandas.DataFrame:
         """
+        cycle_indices = np.arange(cycle_min, cycle_max, cycle_interval)
         discharge_capacities = pd.DataFrame(
-            np.zeros((1, int((cycle_max - cycle_min) / cycle_interval)))
+            np.zeros((1, len(cycle_indices)))
         )
         counter = 0
-        cycle_indices = np.arange(cycle_min, cycle_max, cycle_interval)
         for cycle_index in cycle_indices:
             try:
                 discharge_capacities[counter] = self.structured_summary.discharge_capacity.iloc[
-- 
2.43.0


From 51b7fb3c45d65c59bbddd4dffc14362be0a15f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:49 +0000
Subject: [PATCH 008/109] fix: record exclude_cycles among the structuring
 parameters

---
 beep/structure/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index 6e6ea7c..e424bb5 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -559,7 +559,8 @@ class BEEPDatapath(abc.ABC, MSONable):
             "nominal_capacity": nominal_capacity,
             "full_fast_charge": full_fast_charge,
             "charge_axis": charge_axis,
-            "discharge_axis": discharge_axis
+            "discharge_axis": discharge_axis,
+            "exclude_cycles": exclude_cycles
         }
 
     @StructuringDecorators.must_not_be_legacy
-- 
2.43.0


From f1e6754b9f555c790fac378ff622f2aaadd45fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:49 +0000
Subject: [PATCH 009/109] fix: drop stale diagnostic results when structuring
 without a diagnostic

---
 beep/structure/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index e424bb5..3f2a967 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -533,6 +533,8 @@ class BEEPDatapath(abc.ABC, MSONable):
                 voltage_resolution=diagnostic_resolution
             )
         else:
+            self.diagnostic_summary = None
+            self.diagnostic_data = None
             logger.info("Diagnostic not set; interpolating aging cycles only.")
 
         logger.info(
-- 
2.43.0


From e25130dd0a26a752240c83a5b5b1d124cd936925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:49 +0000
Subject: [PATCH 010/109] fix: an unstructured datapath stays unstructured when
 reloaded

---
 beep/structure/base.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index 3f2a967..1593936 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -444,8 +444,11 @@ class BEEPDatapath(abc.ABC, MSONable):
         datapath = cls(raw_data=raw_data, metadata=metadata, paths=paths, schema=schema)
         datapath._is_legacy = is_legacy
 
-        datapath.structured_data = pd.DataFrame(d["cycles_interpolated"])
-        datapath.structured_summary = pd.DataFrame(d["summary"])
+        structured_data = d["cycles_interpolated"]
+        structured_summary = d["summary"]
+        datapath.structured_data = structured_data if structured_data is None else pd.DataFrame(structured_data)
+        datapath.structured_summary = structured_summary if structured_summary is None else pd.DataFrame(
+            structured_summary)
 
         diagnostic_summary = d.get("diagnostic_summary")
         diagnostic_data = d.get("diagnostic_interpolated")
-- 
2.43.0


From 8311b79d1703cb4bd39e5a9ee27ee4b535bc2994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:49 +0000
Subject: [PATCH 011/109] fix: from_dict leaves the caller's dictionary as it
 was

---
 beep/structure/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index 1593936..39f03d6 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -421,7 +421,10 @@ class BEEPDatapath(abc.ABC, MSONable):
         Returns:
             beep.structure.ProcessedCyclerRun: deserialized ProcessedCyclerRun.
         """
+        d = dict(d)
         for obj, dtype_dict in STRUCTURE_DTYPES.items():
+            if d.get(obj) is not None:
+                d[obj] = dict(d[obj])
             for column, dtype in dtype_dict.items():
                 if d.get(obj) is not None:
                     if d[obj].get(column) is not None:
-- 
2.43.0


From c8a44f93ff2ea58c7184c628dbb6e9326b232cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:49 +0000
Subject: [PATCH 012/109] fix: keep the metadata of structured files saved
 without raw data

---
 beep/structure/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index 39f03d6..4a430b1 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -437,7 +437,9 @@ class BEEPDatapath(abc.ABC, MSONable):
         # support loads when raw_data not available
         if any([k not in d for k in ("raw_data", "metadata")]):
             raw_data = None
-            metadata = {k: d.get(k) for k in ("barcode", "protocol", "channel_id")}
+            metadata = d.get("metadata")
+            if metadata is None:
+                metadata = {k: d.get(k) for k in ("barcode", "protocol", "channel_id")}
             is_legacy = True
         else:
             raw_data = pd.DataFrame(d["raw_data"])
-- 
2.43.0


From dfa5f39e41784e0cddd7593bfe8d6ba92ba91434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:58 +0000
Subject: [PATCH 013/109] fix: name the broken minimum rule in the validation
 reason

---
 beep/structure/validate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/validate.py b/beep/structure/validate.py
index c573068..c0017d0 100644
--- a/beep/structure/validate.py
+++ b/beep/structure/validate.py
@@ -198,7 +198,7 @@ class SimpleValidator:
                     value = dataframe[column_name].iloc[index]
                     reason = (
                         "{} needs to reach under {} for processing, instead found:"
-                        "value={}".format(column_name, max_at_least_rule, value)
+                        "value={}".format(column_name, min_is_below_rule, value)
                     )
                     return False, reason
 
-- 
2.43.0


From a17f2078f7054fe0d9f0f0b186f7196195063b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:58 +0000
Subject: [PATCH 014/109] fix: report a missing column as invalid instead of
 raising KeyError

---
 beep/structure/validate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/beep/structure/validate.py b/beep/structure/validate.py
index c0017d0..f8814c8 100644
--- a/beep/structure/validate.py
+++ b/beep/structure/validate.py
@@ -145,6 +145,10 @@ class SimpleValidator:
             type_rule = column_schema.get("type")
             monotonic_rule = column_schema.get("monotonic")
 
+            # Check presence
+            if column_name not in dataframe.columns:
+                return False, "Column {} is missing".format(column_name)
+
             # Check type
             if type_rule is not None:
                 validity, reason = self.check_type(
-- 
2.43.0


From a1f3216a8d47984a82cd24dbbbf325cf5a747e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:32 +0000
Subject: [PATCH 015/109] fix: restart capacity and energy sums when the last,
 unfinished step opens a new cycle

---
 beep/structure/maccor.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/beep/structure/maccor.py b/beep/structure/maccor.py
index 84be1de..ba7e7ac 100644
--- a/beep/structure/maccor.py
+++ b/beep/structure/maccor.py
@@ -239,6 +239,11 @@ class MaccorDatapath(BEEPDatapathWithEIS):
         # Update any dangling step without an end
         last_index = quantity_agg.index[-1]
         if end_step_inds[-1] < last_index:
+            if (
+                data.loc[begin_step_ind - 1, "cycle_index"]
+                != data.loc[begin_step_ind, "cycle_index"]
+            ):
+                cycle_sum = 0.0
             quantity_agg[begin_step_ind:] += cycle_sum
         return quantity_agg
 
-- 
2.43.0


From 54d88cf1645455e16b025a066ffe00264a1d8513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:32 +0000
Subject: [PATCH 016/109] fix: load_eis uses the package's progress bar as
 imported

---
 beep/structure/maccor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/maccor.py b/beep/structure/maccor.py
index ba7e7ac..16cdafd 100644
--- a/beep/structure/maccor.py
+++ b/beep/structure/maccor.py
@@ -162,7 +162,7 @@ class MaccorDatapath(BEEPDatapathWithEIS):
             paths = glob(eis_pattern)
 
         eis_runs = []
-        for path in tqdm.tqdm(paths, desc="Loading EIS files..."):
+        for path in tqdm(paths, desc="Loading EIS files..."):
             eis = self.MaccorEIS.from_file(path)
             eis_runs.append(eis)
 
-- 
2.43.0


From 4e355a358875ba8be3bb7977665713925550f465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:32 +0000
Subject: [PATCH 017/109] fix: spell channel_id in Maccor metadata

---
 beep/structure/maccor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/maccor.py b/beep/structure/maccor.py
index 16cdafd..6e8e4f0 100644
--- a/beep/structure/maccor.py
+++ b/beep/structure/maccor.py
@@ -110,7 +110,7 @@ class MaccorDatapath(BEEPDatapathWithEIS):
             metadata["channel_id"] = int(channel_number.replace(".", ""))
         except ValueError:
             logger.warning("Could not infer channel number from path name!")
-            metadata["channnel_id"] = None
+            metadata["channel_id"] = None
 
         metadata.rename(str.lower, axis="columns", inplace=True)
         metadata.rename(MACCOR_CONFIG["metadata_fields"], axis="columns", inplace=True)
-- 
2.43.0


From 2d45df600714c0d926373b640858b859e863c984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:32 +0000
Subject: [PATCH 018/109] fix: accept lists of paths, as documented, when
 reloading a datapath

---
 beep/structure/base.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index 4a430b1..298dfe0 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -189,9 +189,10 @@ class BEEPDatapath(abc.ABC, MSONable):
 
         # paths may include "raw", "metadata", and "structured", as well as others.
         if paths:
-            for path_ref, path in paths.items():
-                if path and not os.path.isabs(path):
-                    raise ValueError(f"{path_ref}: '{path}' is not absolute! All paths must be absolute.")
+            for path_ref, path_or_paths in paths.items():
+                for path in path_or_paths if isinstance(path_or_paths, (list, tuple)) else [path_or_paths]:
+                    if path and not os.path.isabs(path):
+                        raise ValueError(f"{path_ref}: '{path}' is not absolute! All paths must be absolute.")
             self.paths = paths
         else:
             self.paths = {"raw": None}
-- 
2.43.0


From 282f1b5e8a97886472617292db9c6012c6c63810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:56 +0000
Subject: [PATCH 019/109] fix: keep epoch timestamps in double precision

A 32-bit float resolves present-day epoch seconds only to 128 s.
---
 beep/conversion_schemas/arbin_conversion.yaml | 2 +-
 beep/structure/battery_archive.py             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/beep/conversion_schemas/arbin_conversion.yaml b/beep/conversion_schemas/arbin_conversion.yaml
index 98a7098..889d92b 100644
--- a/beep/conversion_schemas/arbin_conversion.yaml
+++ b/beep/conversion_schemas/arbin_conversion.yaml
@@ -39,7 +39,7 @@ data_columns:
 data_types:
   data_point: 'int32'
   test_time: 'float64'
-  datetime: 'float32'
+  datetime: 'float64'
   step_time: 'float32'
   step_index: 'int16'
   cycle_index: 'int32'
diff --git a/beep/structure/battery_archive.py b/beep/structure/battery_archive.py
index 53999b7..f173a59 100644
--- a/beep/structure/battery_archive.py
+++ b/beep/structure/battery_archive.py
@@ -50,7 +50,7 @@ class BatteryArchiveDatapath(BEEPDatapath):
         "charge_energy": "float64",
         "discharge_energy": "float64",
         "temperature": "float32",
-        "date_time": "float32",
+        "date_time": "float64",
     }
 
     FILE_PATTERN = ".*timeseries\\.csv"
-- 
2.43.0


From 45b0f9cb736f43dc5e6f1b4603af90a04d5c4e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:56 +0000
Subject: [PATCH 020/109] fix: restart the step time when the last Battery
 Archive row opens a step

---
 beep/structure/battery_archive.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/beep/structure/battery_archive.py b/beep/structure/battery_archive.py
index f173a59..5bd77f2 100644
--- a/beep/structure/battery_archive.py
+++ b/beep/structure/battery_archive.py
@@ -85,7 +85,7 @@ class BatteryArchiveDatapath(BEEPDatapath):
         start_times = df["test_time (s)"].loc[step_change_ix]
         arrays = [None] * len(step_change_ix)
 
-        final_ix = [df.shape[0] - 1]
+        final_ix = [df.shape[0]]
         step_change_ix_buffered = np.append(step_change_ix[1:], final_ix)
 
         for i, scix in enumerate(step_change_ix_buffered):
@@ -93,9 +93,7 @@ class BatteryArchiveDatapath(BEEPDatapath):
             n_repeats = scix - prev_scix
             arrays[i] = np.repeat(start_times.loc[prev_scix], n_repeats)
 
-        # include the final data point, which is not a real step change
         subtractor = np.concatenate(arrays, axis=0)
-        subtractor = np.append(subtractor, [subtractor[-1]])
 
         df["step_time"] = df["test_time (s)"] - subtractor
 
-- 
2.43.0


From 6c0e72d6af91a359700d207a78913e2469d89c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:56 +0000
Subject: [PATCH 021/109] fix: use the energy reading for energies of Novonix
 discharge-only cycles

---
 beep/structure/novonix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/novonix.py b/beep/structure/novonix.py
index 3b20815..3d84c96 100644
--- a/beep/structure/novonix.py
+++ b/beep/structure/novonix.py
@@ -152,7 +152,7 @@ class NovonixDatapath(BEEPDatapath):
                 ix_range = data[data["cycle_index"] == cyc_ix].index
                 dchg_only_cycle_ix.append(cyc_ix)
                 for convention in ("capacity", "energy"):
-                    data.loc[ix_range, f"cycle_chg_max_{convention}"] = cyc_df["capacity"].max()
+                    data.loc[ix_range, f"cycle_chg_max_{convention}"] = cyc_df[convention].max()
         logger.warning(
             f"No charge steps found in cycles {dchg_only_cycle_ix}! "
             f"Using highest capacity reading to determine convention."
-- 
2.43.0


From bb5a0d1d0028d276f8144db1fc8f47e61d2852de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:56 +0000
Subject: [PATCH 022/109] fix: take Novonix metadata by the field name of the
 line

A field name occurring in another field's value overwrote that field, and
values holding a colon were cut.
---
 beep/structure/novonix.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/beep/structure/novonix.py b/beep/structure/novonix.py
index 3d84c96..2183c81 100644
--- a/beep/structure/novonix.py
+++ b/beep/structure/novonix.py
@@ -52,13 +52,12 @@ class NovonixDatapath(BEEPDatapath):
 
                 # Rip metadata from summary section
                 if begin_summary and not end_summary:
-                    l = str(line)
+                    field, _, value = line.decode("utf-8", "replace"). \
+                        strip().strip('"').partition(":")
                     for conversion_phrase in metadata_conversion:
-                        if conversion_phrase in l:
+                        if field.startswith(conversion_phrase):
                             k = metadata_conversion[conversion_phrase]
-                            metadata_value = \
-                                l.split(":")[-1].strip(). \
-                                replace("\\n", "").replace("'", "")
+                            metadata_value = value.strip()
                             metadata[k] = metadata_value if metadata_value else None
                             break
                 i += 1
-- 
2.43.0


From 99f9e07da58130865037c64e304318db6e2b18b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:56 +0000
Subject: [PATCH 023/109] fix: label Indigo columns by the block they are
 stored in

---
 beep/structure/indigo.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/beep/structure/indigo.py b/beep/structure/indigo.py
index 9e989ab..9a48d27 100644
--- a/beep/structure/indigo.py
+++ b/beep/structure/indigo.py
@@ -32,19 +32,19 @@ class IndigoDatapath(BEEPDatapath):
         #        if using python 3.7, 3.8 or 3.9
         hdf = h5py.File(path, "r")
         d0 = hdf.get('time_series_data')
-        d1 = np.array(d0.get('axis0'))
         d2 = np.array(d0.get('axis1'))
-        # d3 = np.array(d0.get('block0_items'))
+        d3 = np.array(d0.get('block0_items'))
         d4 = np.array(d0.get('block0_values'))
-        # d5 = np.array(d0.get('block1_items'))
+        d5 = np.array(d0.get('block1_items'))
         d6 = np.array(d0.get('block1_values'))
-        # d7 = np.array(d0.get('block2_items'))
+        d7 = np.array(d0.get('block2_items'))
         d8 = np.array(d0.get('block2_values'))
         d9 = np.concatenate((d4, d6, d8), axis=1)
         d10 = pd.DataFrame(d9)
         d11 = d10.set_axis(d2, axis="index")
         d1_string = []
-        for i in d1:
+        # the blocks group columns by type, in which order axis0 need not be
+        for i in np.concatenate((d3, d5, d7)):
             j = i.decode("utf-8")
             d1_string.append(j)
         data = d11.set_axis(d1_string, axis="columns")
-- 
2.43.0


From 2cb2fabf65d09c06e86974bb3ee42e213e0986a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:56 +0000
Subject: [PATCH 024/109] fix: recognise the last column of a Biologic export

The line end was kept in its name, so the cycle_index column that
add_cycle_nums_to_csvs appends was ignored.
---
 beep/structure/biologic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beep/structure/biologic.py b/beep/structure/biologic.py
index 91baba0..5ab4a40 100644
--- a/beep/structure/biologic.py
+++ b/beep/structure/biologic.py
@@ -83,7 +83,7 @@ class BiologicDatapath(BEEPDatapath):
                 i += 1
                 if i == header_line:
                     header = str(line.decode(encoding=encoding))
-                    columns = header.split(sep)
+                    columns = header.rstrip("\r\n").split(sep)
                     for c in columns:
                         raw[c] = list()
                 if i >= data_starts_line:
@@ -91,7 +91,7 @@ class BiologicDatapath(BEEPDatapath):
                     if len(line) == 0:
                         empty_lines += 1
                         continue
-                    items = line.split(sep)
+                    items = line.rstrip("\r\n").split(sep)
                     for ci in range(len(items)):
                         column_name = columns[ci]
                         data_type = column_map.get(column_name, dict()).get(
-- 
2.43.0


From a40ca1c76f6e2a59b7723a0040afc7af8e3aeb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:56 +0000
Subject: [PATCH 025/109] fix: keep the Biologic protocol digest as text

Raw bytes in the metadata cannot be written to JSON, so no Biologic
record could be saved.
---
 beep/structure/biologic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/biologic.py b/beep/structure/biologic.py
index 5ab4a40..1f779ce 100644
--- a/beep/structure/biologic.py
+++ b/beep/structure/biologic.py
@@ -199,7 +199,7 @@ class BiologicDatapath(BEEPDatapath):
                 if flag_protocol_start:
                     if line == "":
                         flag_protocol = True
-                        protocol = hashlib.md5(protocol_text.encode()).digest()
+                        protocol = hashlib.md5(protocol_text.encode()).hexdigest()
                         metadata["protocol"] = protocol
                     else:
                         protocol_text += line + "\n"
-- 
2.43.0


From aff8a0026cd9a336156e51c7b0ba555d663f6209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:56 +0000
Subject: [PATCH 026/109] fix: an empty comment is no barcode of its own name

---
 beep/structure/biologic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/biologic.py b/beep/structure/biologic.py
index 1f779ce..8808288 100644
--- a/beep/structure/biologic.py
+++ b/beep/structure/biologic.py
@@ -188,7 +188,7 @@ class BiologicDatapath(BEEPDatapath):
                     flag_cell_id = True
 
                 if "Comments" in line.strip().split(" : ")[0]:
-                    barcode = line.strip().split(" : ")[-1]
+                    barcode = line.partition(" : ")[2].strip()
                     metadata["barcode"] = barcode
                     flag_barcode = True
 
-- 
2.43.0


From e6bdd37fa6f34e4c2452ce5f9c308c0849c8a76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:16 +0000
Subject: [PATCH 027/109] fix: featurizers no longer share hyperparameter
 objects with the class defaults or the caller

---
 beep/features/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beep/features/base.py b/beep/features/base.py
index b70a596..cae1c29 100644
--- a/beep/features/base.py
+++ b/beep/features/base.py
@@ -63,14 +63,14 @@ class BEEPFeaturizer(MSONable, abc.ABC):
         # If no hyperparameters are specified, use defaults
         if hyperparameters:
             if all(k in hyperparameters for k in self.DEFAULT_HYPERPARAMETERS):
-                self.hyperparameters = hyperparameters
+                self.hyperparameters = copy.deepcopy(hyperparameters)
             else:
                 raise BEEPFeaturizationError(
                     f"Features cannot be created with incomplete set of "
                     f"hyperparameters {hyperparameters.keys()} < "
                     f"{self.DEFAULT_HYPERPARAMETERS.keys()}!")
         else:
-            self.hyperparameters = self.DEFAULT_HYPERPARAMETERS
+            self.hyperparameters = copy.deepcopy(self.DEFAULT_HYPERPARAMETERS)
 
         if not (structured_datapath is None or structured_datapath.is_structured):
             raise BEEPFeaturizationError("BEEPDatapath input is not structured!")
-- 
2.43.0


From 4fc0f3afa228e0543de9bf96da85828d6c3cec58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:16 +0000
Subject: [PATCH 028/109] fix: an empty feature matrix can be serialized

---
 beep/features/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/features/base.py b/beep/features/base.py
index cae1c29..0ef155c 100644
--- a/beep/features/base.py
+++ b/beep/features/base.py
@@ -308,7 +308,7 @@ class BEEPFeatureMatrix(MSONable):
 
             # Core parts of BEEPFeaturizer
             "featurizers": [f.as_dict() for f in self.featurizers],
-            "matrix": self.matrix.to_dict("list"),
+            "matrix": None if self.matrix is None else self.matrix.to_dict("list"),
         }
 
     @classmethod
-- 
2.43.0


From 4973f34eb945f51b3cff5ca5bc565c98d776c1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:16 +0000
Subject: [PATCH 029/109] fix: feature matrix column ids no longer change on
 reload when a hyperparameter is a tuple

---
 beep/features/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/beep/features/base.py b/beep/features/base.py
index 0ef155c..ebe9dab 100644
--- a/beep/features/base.py
+++ b/beep/features/base.py
@@ -240,7 +240,10 @@ class BEEPFeatureMatrix(MSONable):
                     # on a specific file, this op string will be the same as long as
                     # the featurizer class name, hyperparameters, and class are the same
 
-                    param_str = "-".join([f"{k}:{v}" for k, v in params])
+                    # (tuples read back from json as lists, so both must give the same id)
+                    param_str = "-".join(
+                        [f"{k}:{list(v) if isinstance(v, tuple) else v}" for k, v in params]
+                    )
                     param_hash = hashlib.sha256(param_str.encode("utf-8")).hexdigest()
 
                     # Get an id for this featurizer operation (including hyperparameters)
-- 
2.43.0


From 6ded4587c4af195239fbaaee0a9d678c4e4739d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:16 +0000
Subject: [PATCH 030/109] fix: CycleSummaryStats takes the discharge energy
 from the discharge steps

---
 beep/features/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beep/features/core.py b/beep/features/core.py
index 6db4add..65c5209 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -188,9 +188,9 @@ class CycleSummaryStats(BEEPFeaturizer):
 
         # # Discharging Energy features
         Ed100_1 = cycle_comp_1[
-            cycle_comp_1.step_type == "charge"].discharge_energy
+            cycle_comp_1.step_type == "discharge"].discharge_energy
         Ed10_1 = cycle_comp_0[
-            cycle_comp_0.step_type == "charge"].discharge_energy
+            cycle_comp_0.step_type == "discharge"].discharge_energy
         EdDiff = Ed100_1.values - Ed10_1.values
         EdDiff = EdDiff[~np.isnan(EdDiff)]
 
-- 
2.43.0


From 57bd0e63433345cb85d02e85b483abbe3ae0662a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:47 +0000
Subject: [PATCH 031/109] fix: summary statistics features honour the requested
 statistics and their order

---
 beep/features/core.py | 72 ++++++++++++++++++++++---------------------
 1 file changed, 37 insertions(+), 35 deletions(-)

diff --git a/beep/features/core.py b/beep/features/core.py
index 65c5209..1d9b293 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -151,7 +151,7 @@ class CycleSummaryStats(BEEPFeaturizer):
 
         # TODO: extend this dataframe and uncomment energy features when
         #   structuring is refactored
-        X = pd.DataFrame(np.zeros((1, 28)))
+        values = []
 
         reg_cycle_comp_num = self.hyperparameters.get("cycle_comp_num")
         cycle_comp_1 = self.datapath.structured_data[
@@ -167,7 +167,7 @@ class CycleSummaryStats(BEEPFeaturizer):
         QcDiff = Qc100_1.values - Qc10_1.values
         QcDiff = QcDiff[~np.isnan(QcDiff)]
 
-        X.loc[0, 0:6] = self.get_summary_statistics(QcDiff)
+        values.extend(self.get_summary_statistics(QcDiff))
 
         Qd100_1 = cycle_comp_1[
             cycle_comp_1.step_type == "discharge"].discharge_capacity
@@ -176,7 +176,7 @@ class CycleSummaryStats(BEEPFeaturizer):
         QdDiff = Qd100_1.values - Qd10_1.values
         QdDiff = QdDiff[~np.isnan(QdDiff)]
 
-        X.loc[0, 7:13] = self.get_summary_statistics(QdDiff)
+        values.extend(self.get_summary_statistics(QdDiff))
 
         # # Charging Energy features
         Ec100_1 = cycle_comp_1[cycle_comp_1.step_type == "charge"].charge_energy
@@ -184,7 +184,7 @@ class CycleSummaryStats(BEEPFeaturizer):
         EcDiff = Ec100_1.values - Ec10_1.values
         EcDiff = EcDiff[~np.isnan(EcDiff)]
 
-        X.loc[0, 14:20] = self.get_summary_statistics(EcDiff)
+        values.extend(self.get_summary_statistics(EcDiff))
 
         # # Discharging Energy features
         Ed100_1 = cycle_comp_1[
@@ -194,7 +194,7 @@ class CycleSummaryStats(BEEPFeaturizer):
         EdDiff = Ed100_1.values - Ed10_1.values
         EdDiff = EdDiff[~np.isnan(EdDiff)]
 
-        X.loc[0, 21:27] = self.get_summary_statistics(EdDiff)
+        values.extend(self.get_summary_statistics(EdDiff))
 
         quantities = [
             "charging_capacity",
@@ -203,10 +203,10 @@ class CycleSummaryStats(BEEPFeaturizer):
             "discharging_energy",
         ]
 
-        X.columns = [y + "_" + x for x in quantities for y in
-                     self.hyperparameters["statistics"]]
+        columns = [y + "_" + x for x in quantities for y in
+                   self.hyperparameters["statistics"]]
 
-        self.features = X
+        self.features = pd.DataFrame([values], columns=columns)
 
     def get_summary_statistics(self, array):
         """
@@ -233,23 +233,24 @@ class CycleSummaryStats(BEEPFeaturizer):
             raise ValueError(
                 f"Unsupported statistics in {stats_names}: supported statistics are {supported_stats}")
 
+        # One value per requested statistic, in the order they are requested
         stats = []
-
-        if "var" in stats_names:
-            stats.append(np.log10(np.absolute(np.var(array))))
-        if "min" in stats_names:
-            stats.append(np.log10(np.absolute(min(array))))
-        if "mean" in stats_names:
-            stats.append(np.log10(np.absolute(np.mean(array))))
-        if "skew" in stats_names:
-            stats.append(np.log10(np.absolute(skew(array))))
-        if "kurtosis" in stats_names:
-            stats.append(np.log10(
-                np.absolute(kurtosis(array, fisher=False, bias=False))))
-        if "abs" in stats_names:
-            stats.append(np.log10(np.sum(np.absolute(array))))
-        if "square" in stats_names:
-            stats.append(np.log10(np.sum(np.square(array))))
+        for name in stats_names:
+            if name == "var":
+                stats.append(np.log10(np.absolute(np.var(array))))
+            elif name == "min":
+                stats.append(np.log10(np.absolute(min(array))))
+            elif name == "mean":
+                stats.append(np.log10(np.absolute(np.mean(array))))
+            elif name == "skew":
+                stats.append(np.log10(np.absolute(skew(array))))
+            elif name == "kurtosis":
+                stats.append(np.log10(
+                    np.absolute(kurtosis(array, fisher=False, bias=False))))
+            elif name == "abs":
+                stats.append(np.log10(np.sum(np.absolute(array))))
+            elif name == "square":
+                stats.append(np.log10(np.sum(np.square(array))))
 
         return np.asarray(stats)
 
@@ -367,7 +368,7 @@ class DiagnosticSummaryStats(CycleSummaryStats):
 
         diag_intrp = self.datapath.diagnostic_data
 
-        X = pd.DataFrame(np.zeros((1, 54)))
+        values = []
 
         # Calculate the cycles and the steps for the selected diagnostics
         cycles = diag_intrp.cycle_index[diag_intrp.cycle_type ==
@@ -414,7 +415,7 @@ class DiagnosticSummaryStats(CycleSummaryStats):
         QcDiff = Qc_1.values - Qc_0.values
         QcDiff = QcDiff[~np.isnan(QcDiff)]
 
-        X.loc[0, 0:6] = self.get_summary_statistics(QcDiff)
+        values.extend(self.get_summary_statistics(QcDiff))
 
         # Discharging Capacity features
         Qd_1 = diag_intrp.discharge_capacity[mask_pos_1_discharge]
@@ -422,7 +423,7 @@ class DiagnosticSummaryStats(CycleSummaryStats):
         QdDiff = Qd_1.values - Qd_0.values
         QdDiff = QdDiff[~np.isnan(QdDiff)]
 
-        X.loc[0, 7:13] = self.get_summary_statistics(QdDiff)
+        values.extend(self.get_summary_statistics(QdDiff))
 
         # Charging Energy features
         Ec_1 = diag_intrp.charge_energy[mask_pos_1_charge]
@@ -430,7 +431,7 @@ class DiagnosticSummaryStats(CycleSummaryStats):
         EcDiff = Ec_1.values - Ec_0.values
         EcDiff = EcDiff[~np.isnan(EcDiff)]
 
-        X.loc[0, 14:20] = self.get_summary_statistics(EcDiff)
+        values.extend(self.get_summary_statistics(EcDiff))
 
         # Discharging Energy features
         Ed_1 = diag_intrp.discharge_energy[mask_pos_1_discharge]
@@ -438,7 +439,7 @@ class DiagnosticSummaryStats(CycleSummaryStats):
         EdDiff = Ed_1.values - Ed_0.values
         EdDiff = EdDiff[~np.isnan(EdDiff)]
 
-        X.loc[0, 21:27] = self.get_summary_statistics(EdDiff)
+        values.extend(self.get_summary_statistics(EdDiff))
 
         # Charging dQdV features
         dQdVc_1 = diag_intrp.charge_dQdV[mask_pos_1_charge]
@@ -446,7 +447,7 @@ class DiagnosticSummaryStats(CycleSummaryStats):
         dQdVcDiff = dQdVc_1.values - dQdVc_0.values
         dQdVcDiff = dQdVcDiff[~np.isnan(dQdVcDiff)]
 
-        X.loc[0, 28:34] = self.get_summary_statistics(dQdVcDiff)
+        values.extend(self.get_summary_statistics(dQdVcDiff))
 
         # Discharging Capacity features
         dQdVd_1 = diag_intrp.discharge_dQdV[mask_pos_1_discharge]
@@ -454,11 +455,12 @@ class DiagnosticSummaryStats(CycleSummaryStats):
         dQdVdDiff = dQdVd_1.values - dQdVd_0.values
         dQdVdDiff = dQdVdDiff[~np.isnan(dQdVdDiff)]
 
-        X.loc[0, 35:41] = self.get_summary_statistics(dQdVdDiff)
+        values.extend(self.get_summary_statistics(dQdVdDiff))
 
-        X.loc[0, 42:53], names = self.get_summary_diff(
+        diff_values, names = self.get_summary_diff(
             self.hyperparameters["diag_pos_list"]
         )
+        values.extend(diff_values)
 
         quantities = [
             "charging_capacity",
@@ -469,9 +471,9 @@ class DiagnosticSummaryStats(CycleSummaryStats):
             "discharging_dQdV",
         ]
 
-        X.columns = [y + "_" + x for x in quantities for y in
-                     self.hyperparameters["statistics"]] + names
-        self.features = X
+        columns = [y + "_" + x for x in quantities for y in
+                   self.hyperparameters["statistics"]] + names
+        self.features = pd.DataFrame([values], columns=columns)
 
 
 class DeltaQFastCharge(BEEPFeaturizer):
-- 
2.43.0


From 1cfdb1fe43336756bbee936234299e7fb325c807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:47 +0000
Subject: [PATCH 032/109] fix: DeltaQFastCharge uses the n_nominal_cycles it is
 given

---
 beep/features/core.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/beep/features/core.py b/beep/features/core.py
index 1d9b293..cb173f3 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -540,9 +540,6 @@ class DeltaQFastCharge(BEEPFeaturizer):
         i_mid = self.hyperparameters["mid_pred_cycle"] - 1
 
         summary = self.datapath.structured_summary
-        self.hyperparameters[
-            "n_nominal_cycles"
-        ] = 40  # For nominal capacity, use median discharge capacity of first n cycles
 
         if "step_type" in self.datapath.structured_data.columns:
             interpolated_df = self.datapath.structured_data[
@@ -652,7 +649,7 @@ class DeltaQFastCharge(BEEPFeaturizer):
         )
         labels.append("internal_resistance_difference_cycles_2:100")
 
-        # Nominal capacity
+        # Nominal capacity, use median discharge capacity of first n cycles
         end = self.hyperparameters["n_nominal_cycles"]
         X[20] = np.median(summary.discharge_capacity.iloc[0: end])
         labels.append("nominal_capacity_by_median")
-- 
2.43.0


From 8cdacf5a13238cf9b9d2681a6845a31d63e48c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:47 +0000
Subject: [PATCH 033/109] fix: DeltaQFastCharge uses the init_pred_cycle it is
 given

---
 beep/features/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/features/core.py b/beep/features/core.py
index cb173f3..6e1635f 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -578,7 +578,7 @@ class DeltaQFastCharge(BEEPFeaturizer):
             interpolated_df.cycle_index == i_final
             ]
         Qd_10 = interpolated_df.discharge_capacity[
-            interpolated_df.cycle_index == 9]
+            interpolated_df.cycle_index == self.hyperparameters["init_pred_cycle"] - 1]
 
         Qd_diff = Qd_final.values - Qd_10.values
 
-- 
2.43.0


From b9afea83811bab74d85b61686c3f33d4d40031ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:47 +0000
Subject: [PATCH 034/109] fix: DeltaQFastCharge reports missing capacity
 difference features as missing, not zero

---
 beep/features/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/features/core.py b/beep/features/core.py
index 6e1635f..9361d75 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -592,7 +592,7 @@ class DeltaQFastCharge(BEEPFeaturizer):
             X[9] = np.log10(np.abs(kurtosis(Qd_diff)))  # Kurtosis
             X[10] = np.log10(np.abs(Qd_diff[0]))  # First difference
         else:
-            X[5:11] = np.nan
+            X[list(range(5, 11))] = np.nan
 
         labels.append("abs_min_discharge_capacity_difference_cycles_2:100")
         labels.append("abs_mean_discharge_capacity_difference_cycles_2:100")
-- 
2.43.0


From e4150bab8f2ef7cff1de716b4bb3b78d7bf986ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:47 +0000
Subject: [PATCH 035/109] fix: diagnostic featurizers no longer filter the
 record they are given

---
 beep/features/core.py | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/beep/features/core.py b/beep/features/core.py
index 9361d75..7b18a96 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -1,3 +1,5 @@
+import copy
+
 import numpy as np
 import pandas as pd
 from scipy.stats import skew, kurtosis
@@ -41,25 +43,26 @@ class HPPCResistanceVoltageFeatures(BEEPFeaturizer):
 
     def create_features(self):
         # Filter out low cycle numbers at the end of the test, corresponding to the "final" diagnostic
-        self.datapath.diagnostic_data = self.datapath.diagnostic_data[
-            ~((self.datapath.diagnostic_data.test_time > self.hyperparameters[
+        datapath = copy.copy(self.datapath)  # filter a view, not the record itself
+        datapath.diagnostic_data = datapath.diagnostic_data[
+            ~((datapath.diagnostic_data.test_time > self.hyperparameters[
                 'test_time_filter_sec']) &
-              (self.datapath.diagnostic_data.cycle_index < self.hyperparameters[
+              (datapath.diagnostic_data.cycle_index < self.hyperparameters[
                   'cycle_index_filter']))
         ]
-        self.datapath.diagnostic_data = self.datapath.diagnostic_data.groupby(
+        datapath.diagnostic_data = datapath.diagnostic_data.groupby(
             ["cycle_index", "step_index", "step_index_counter"]
         ).filter(lambda x: ~x["test_time"].isnull().all())
 
         # diffusion features
         diffusion_features = featurizer_helpers.get_diffusion_features(
-            self.datapath, self.hyperparameters["diag_pos"]
+            datapath, self.hyperparameters["diag_pos"]
         )
 
         hppc_r = pd.DataFrame()
         # the 9 by 6 dataframe
         df_dr = featurizer_helpers.get_dr_df(
-            self.datapath, self.hyperparameters["diag_pos"]
+            datapath, self.hyperparameters["diag_pos"]
         )
         # transform this dataframe to be 1 by 54
         columns = df_dr.columns
@@ -70,14 +73,14 @@ class HPPCResistanceVoltageFeatures(BEEPFeaturizer):
 
         # the variance of ocv features
         hppc_ocv = featurizer_helpers.get_hppc_ocv(
-            self.datapath,
+            datapath,
             self.hyperparameters["diag_pos"],
             parameters_path=self.hyperparameters["parameters_path"]
         )
 
         # the v_diff features
         v_diff = featurizer_helpers.get_v_diff(
-            self.datapath,
+            datapath,
             self.hyperparameters["diag_pos"],
             self.hyperparameters["soc_window"],
             self.hyperparameters["parameters_path"]
@@ -356,17 +359,18 @@ class DiagnosticSummaryStats(CycleSummaryStats):
         """
         # Filter out "final" diagnostic cycles that have been appended to the end of the file with the wrong
         # cycle number(test time is monotonic)
-        self.datapath.diagnostic_data = self.datapath.diagnostic_data[
-            ~((self.datapath.diagnostic_data.test_time > self.hyperparameters[
+        datapath = copy.copy(self.datapath)  # filter a view, not the record itself
+        datapath.diagnostic_data = datapath.diagnostic_data[
+            ~((datapath.diagnostic_data.test_time > self.hyperparameters[
                 'test_time_filter_sec']) &
-              (self.datapath.diagnostic_data.cycle_index < self.hyperparameters[
+              (datapath.diagnostic_data.cycle_index < self.hyperparameters[
                   'cycle_index_filter']))
         ]
-        self.datapath.diagnostic_data = self.datapath.diagnostic_data.groupby(
+        datapath.diagnostic_data = datapath.diagnostic_data.groupby(
             ["cycle_index", "step_index", "step_index_counter"]
         ).filter(lambda x: ~x["test_time"].isnull().all())
 
-        diag_intrp = self.datapath.diagnostic_data
+        diag_intrp = datapath.diagnostic_data
 
         values = []
 
@@ -375,13 +379,13 @@ class DiagnosticSummaryStats(CycleSummaryStats):
                                         self.hyperparameters[
                                             "diagnostic_cycle_type"]].unique()
         step_dict_0 = featurizer_helpers.get_step_index(
-            self.datapath,
+            datapath,
             cycle_type=self.hyperparameters["diagnostic_cycle_type"],
             diag_pos=self.hyperparameters["diag_pos_list"][0],
             parameters_path=self.hyperparameters["parameters_path"]
         )
         step_dict_1 = featurizer_helpers.get_step_index(
-            self.datapath,
+            datapath,
             cycle_type=self.hyperparameters["diagnostic_cycle_type"],
             diag_pos=self.hyperparameters["diag_pos_list"][1],
             parameters_path=self.hyperparameters["parameters_path"]
-- 
2.43.0


From 8016b9f0a67188a2a62ed5df7bc7b7379b33bea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:27 +0000
Subject: [PATCH 036/109] fix: DiagnosticProperties thresholds the cycle type
 and metric it is asked for

---
 beep/features/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beep/features/core.py b/beep/features/core.py
index 7b18a96..5fca9b2 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -829,6 +829,8 @@ class DiagnosticProperties(BEEPFeaturizer):
         filter_kinks = self.hyperparameters["filter_kinks"]
         extrapolate_threshold = self.hyperparameters["extrapolate_threshold"]
 
+        df = df[(df['cycle_type'] == cycle_type) & (df['metric'] == metric)]
+
         if filter_kinks:
             if np.any(df['fractional_metric'].diff().diff() < filter_kinks):
                 last_good_cycle = df[
-- 
2.43.0


From 512a7d07de8ae7423d18b665057a8d60cff51ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:27 +0000
Subject: [PATCH 037/109] fix: DiagnosticProperties raises its error when
 extrapolation is off and the threshold is not crossed

---
 beep/features/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/features/core.py b/beep/features/core.py
index 5fca9b2..c8f815f 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -845,7 +845,7 @@ class DiagnosticProperties(BEEPFeaturizer):
         # Logic around how to deal with cells that have not crossed threshold
         if df['fractional_metric'].min() > threshold and \
                 not extrapolate_threshold:
-            BEEPFeaturizationError(
+            raise BEEPFeaturizationError(
                 "DiagnosticProperties data has not crossed threshold "
                 "and extrapolation inaccurate"
             )
-- 
2.43.0


From c1a03aefdb04dd7e7a30411c6821640b4b5088f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:27 +0000
Subject: [PATCH 038/109] fix: DiagnosticProperties accepts any number of
 interpolation axes

---
 beep/features/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/features/core.py b/beep/features/core.py
index c8f815f..4df9c65 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -892,7 +892,7 @@ class DiagnosticProperties(BEEPFeaturizer):
             crossing_array = abs(f_axis[indx](x_linspace) - threshold)
             x_to_threshold.append(x_linspace[np.argmin(crossing_array)])
 
-        if ~(x_to_threshold[0] > 0) or ~(x_to_threshold[1] > 0):
+        if not all(x > 0 for x in x_to_threshold):
             raise BEEPFeaturizationError(
                 "DiagnosticProperties data does not have a positive value "
                 "to threshold"
-- 
2.43.0


From 5b7b0d661df51bb1c710e10afd634399eb55f846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:28 +0000
Subject: [PATCH 039/109] fix: voltage difference features use the step indices
 of the requested diagnostic

---
 beep/features/featurizer_helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beep/features/featurizer_helpers.py b/beep/features/featurizer_helpers.py
index 257d1c6..19a5043 100644
--- a/beep/features/featurizer_helpers.py
+++ b/beep/features/featurizer_helpers.py
@@ -254,7 +254,8 @@ def get_v_diff(processed_cycler_run, diag_pos, soc_window, parameters_path=PROTO
     hppc_data_1 = hppc_data_1.loc[hppc_data_1.discharge_capacity < 8]
 
     step_ind_1 = get_step_index(processed_cycler_run, cycle_type="hppc", diag_pos=0, parameters_path=parameters_path)
-    step_ind_2 = get_step_index(processed_cycler_run, cycle_type="hppc", diag_pos=1, parameters_path=parameters_path)
+    step_ind_2 = get_step_index(processed_cycler_run, cycle_type="hppc", diag_pos=diag_pos,
+                                parameters_path=parameters_path)
 
     hppc_data_2_d = hppc_data_2.loc[hppc_data_2.step_index == step_ind_2["hppc_discharge_to_next_soc"]]
     hppc_data_1_d = hppc_data_1.loc[hppc_data_1.step_index == step_ind_1["hppc_discharge_to_next_soc"]]
-- 
2.43.0


From aa276c2cca6aa8144315ff258fe514fb25d5c723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:28 +0000
Subject: [PATCH 040/109] fix: diffusion features look up the protocol in the
 given parameters path

---
 beep/features/core.py               | 3 ++-
 beep/features/featurizer_helpers.py | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/beep/features/core.py b/beep/features/core.py
index 4df9c65..562f0d8 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -56,7 +56,8 @@ class HPPCResistanceVoltageFeatures(BEEPFeaturizer):
 
         # diffusion features
         diffusion_features = featurizer_helpers.get_diffusion_features(
-            datapath, self.hyperparameters["diag_pos"]
+            datapath, self.hyperparameters["diag_pos"],
+            parameters_path=self.hyperparameters["parameters_path"]
         )
 
         hppc_r = pd.DataFrame()
diff --git a/beep/features/featurizer_helpers.py b/beep/features/featurizer_helpers.py
index 19a5043..3826e52 100644
--- a/beep/features/featurizer_helpers.py
+++ b/beep/features/featurizer_helpers.py
@@ -392,7 +392,7 @@ def get_diffusion_coeff(processed_cycler_run, diag_pos, parameters_path=PROTOCOL
     return result
 
 
-def get_diffusion_features(processed_cycler_run, diag_pos):
+def get_diffusion_features(processed_cycler_run, diag_pos, parameters_path=PROTOCOL_PARAMETERS_DIR):
     """
     This method calculates changes in diffusion coefficient between a specified hppc cycle and the first one at
     different state of charge.
@@ -406,8 +406,8 @@ def get_diffusion_features(processed_cycler_run, diag_pos):
         a dataframe contains 8 normalized slope changes.
 
     """
-    df_0 = get_diffusion_coeff(processed_cycler_run, 0)
-    df = get_diffusion_coeff(processed_cycler_run, diag_pos)
+    df_0 = get_diffusion_coeff(processed_cycler_run, 0, parameters_path)
+    df = get_diffusion_coeff(processed_cycler_run, diag_pos, parameters_path)
     result = (df - df_0)/(df_0)
     return result
 
-- 
2.43.0


From 3f5f8f7040c0cb238650925daf52a2f24bcd50e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:18 +0000
Subject: [PATCH 041/109] fix: training features are dropped by the feature
 threshold, not the sample threshold

---
 beep/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/model.py b/beep/model.py
index 2024cf5..b965512 100644
--- a/beep/model.py
+++ b/beep/model.py
@@ -135,7 +135,7 @@ class BEEPLinearModelExperiment(MSONable):
             )
 
         # Form the clean feature matrix
-        X = X.dropna(axis=1, thresh=train_sample_drop_nan_thresh * X.shape[0])
+        X = X.dropna(axis=1, thresh=train_feature_drop_nan_thresh * X.shape[0])
         X = X.dropna(axis=0, thresh=train_sample_drop_nan_thresh * X.shape[1])
         X = self._impute_df(X, method=impute_strategy)
         self.impute_strategy = impute_strategy
-- 
2.43.0


From c028cd14966cfefb9e050441f8ec372d19fe192c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:18 +0000
Subject: [PATCH 042/109] fix: predicting no longer renames the columns of the
 caller's feature matrix

---
 beep/model.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/beep/model.py b/beep/model.py
index b965512..1e6da88 100644
--- a/beep/model.py
+++ b/beep/model.py
@@ -446,8 +446,7 @@ class BEEPLinearModelExperiment(MSONable):
         """
         d = BEEPFeatureMatrix.OP_DELIMITER
         cols_stripped = [d.join(c.split(d)[:-1]) for c in X.columns]
-        X.columns = cols_stripped
-        return X
+        return X.set_axis(cols_stripped, axis=1)
 
     @staticmethod
     def _impute_df(df, method="median"):
-- 
2.43.0


From 835318cfbb96c5171a935179ab2ea21a450f035e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:18 +0000
Subject: [PATCH 043/109] fix: the prediction sample threshold counts only the
 features the model uses

---
 beep/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/model.py b/beep/model.py
index 1e6da88..753c3e1 100644
--- a/beep/model.py
+++ b/beep/model.py
@@ -353,7 +353,7 @@ class BEEPLinearModelExperiment(MSONable):
         X_old = copy.deepcopy(X)
         X = X[self.feature_labels].dropna(
             axis=0,
-            thresh=self.predict_sample_nan_thresh * X.shape[1]
+            thresh=self.predict_sample_nan_thresh * len(self.feature_labels)
         )
         X = self._impute_df(X, self.impute_strategy)
 
-- 
2.43.0


From f5ba472356b257ba191116044d95433ff64a58d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:18 +0000
Subject: [PATCH 044/109] fix: predict reports the samples that were dropped
 and only those

---
 beep/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/model.py b/beep/model.py
index 753c3e1..b203284 100644
--- a/beep/model.py
+++ b/beep/model.py
@@ -359,7 +359,7 @@ class BEEPLinearModelExperiment(MSONable):
 
         dropped = []
         if X_old.shape[0] != X.shape[0]:
-            dropped = [s for s in X_old.index if s not in X]
+            dropped = [s for s in X_old.index if s not in X.index]
             logger.warning(
                 f"{len(dropped)} samples dropped due to nan sample threshold "
                 f"of {self.predict_sample_nan_thresh}. List of those dropped "
-- 
2.43.0


From 26da4b658e996646a0b3e9a294e9bb6ed8d65b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:18 +0000
Subject: [PATCH 045/109] fix: infinite features count as missing in prediction
 as they do in training

---
 beep/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beep/model.py b/beep/model.py
index b203284..0459259 100644
--- a/beep/model.py
+++ b/beep/model.py
@@ -326,6 +326,7 @@ class BEEPLinearModelExperiment(MSONable):
             X = feature_matrix.matrix
         else:
             X = feature_matrix
+        X = X.replace([np.inf, -np.inf], np.nan)
 
         # make sure features will have the same names if homogenize features
         # even if featurizer' hyperparameters are different
-- 
2.43.0


From b189e6bae832786a6810b719190e470c0f105fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:18 +0000
Subject: [PATCH 046/109] fix: predictions impute missing features from the
 training data, not from the other samples of the request

---
 beep/model.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/beep/model.py b/beep/model.py
index 0459259..228c068 100644
--- a/beep/model.py
+++ b/beep/model.py
@@ -137,6 +137,8 @@ class BEEPLinearModelExperiment(MSONable):
         # Form the clean feature matrix
         X = X.dropna(axis=1, thresh=train_feature_drop_nan_thresh * X.shape[0])
         X = X.dropna(axis=0, thresh=train_sample_drop_nan_thresh * X.shape[1])
+        # Unknown values are imputed from the training data, also in prediction
+        self.impute_reference = X
         X = self._impute_df(X, method=impute_strategy)
         self.impute_strategy = impute_strategy
         if X.shape[0] < 2 or X.shape[1] < 1:
@@ -356,7 +358,7 @@ class BEEPLinearModelExperiment(MSONable):
             axis=0,
             thresh=self.predict_sample_nan_thresh * len(self.feature_labels)
         )
-        X = self._impute_df(X, self.impute_strategy)
+        X = self._impute_df(X, self.impute_strategy, self.impute_reference)
 
         dropped = []
         if X_old.shape[0] != X.shape[0]:
@@ -450,22 +452,25 @@ class BEEPLinearModelExperiment(MSONable):
         return X.set_axis(cols_stripped, axis=1)
 
     @staticmethod
-    def _impute_df(df, method="median"):
+    def _impute_df(df, method="median", reference=None):
         """
         Impute a dataframe using a specified method.
 
         Args:
             df (pd.Dataframe): A dataframe, with zero or more nan values.
             method (str): One of "median", "mean", or "none".
+            reference (pd.DataFrame): The dataframe whose median or mean
+                is used; df itself by default.
 
         Returns:
             df (pd.Dataframe): The imputed dataframe.
 
         """
+        reference = df if reference is None else reference
         if method == "median":
-            return df.apply(lambda x: x.fillna(x.median()), axis=0)
+            return df.apply(lambda x: x.fillna(reference[x.name].median()), axis=0)
         elif method == "mean":
-            return df.apply(lambda x: x.fillna(x.mean()), axis=0)
+            return df.apply(lambda x: x.fillna(reference[x.name].mean()), axis=0)
         elif method == 'none':
             return df
         else:
-- 
2.43.0


From b54b91c39a6286866999621842b022e31f6e7eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:18 +0000
Subject: [PATCH 047/109] fix: a reloaded model scales features with the
 statistics it was trained with

---
 beep/model.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/beep/model.py b/beep/model.py
index 228c068..b03d8a0 100644
--- a/beep/model.py
+++ b/beep/model.py
@@ -516,6 +516,10 @@ class BEEPLinearModelExperiment(MSONable):
                 "intercept_": self.model.intercept_.tolist(),
                 "optimal_hyperparameters": self.optimal_hyperparameters,
             },
+            "scaler_sklearn": {
+                "mean_": self.scaler.mean_.tolist(),
+                "scale_": self.scaler.scale_.tolist(),
+            },
 
         }
 
@@ -564,6 +568,12 @@ class BEEPLinearModelExperiment(MSONable):
         model.intercept_ = np.asarray(model_params["intercept_"])
         o.model = model
         o.optimal_hyperparameters = model_params["optimal_hyperparameters"]
+
+        # The scaler the model was trained with (absent from older files)
+        scaler_params = d.get("scaler_sklearn")
+        if scaler_params:
+            o.scaler.mean_ = np.asarray(scaler_params["mean_"])
+            o.scaler.scale_ = np.asarray(scaler_params["scale_"])
         return o
 
     @classmethod
-- 
2.43.0


From 1fa83f178e32412b9b67f361ab56cfc880e78488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:40 +0000
Subject: [PATCH 048/109] fix: the default max_iter is an integer, as the
 estimators require

---
 beep/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/model.py b/beep/model.py
index b03d8a0..41203b6 100644
--- a/beep/model.py
+++ b/beep/model.py
@@ -100,7 +100,7 @@ class BEEPLinearModelExperiment(MSONable):
             drop_nan_training_targets: bool = False,
             impute_strategy: str = "median",
             kfold: int = 5,
-            max_iter: int = 1e6,
+            max_iter: int = 1000000,
             tol: float = 1e-4,
             # only relevant for elasticnet
             l1_ratio: Union[Tuple[float], List[float]] = (
-- 
2.43.0


From 3b5cd54d9ae85e0d7486129c0bb341025f1c2183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:58 +0000
Subject: [PATCH 049/109] fix: a reloaded data splitter keeps its imputation
 and exclusion settings

---
 beep/prediction/beep_data_splitter.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/beep/prediction/beep_data_splitter.py b/beep/prediction/beep_data_splitter.py
index 8d475da..1e5c9df 100644
--- a/beep/prediction/beep_data_splitter.py
+++ b/beep/prediction/beep_data_splitter.py
@@ -223,6 +223,8 @@ class BEEPDataSplitter(MSONable):
         self.n_splits = n_splits
         self.random_state = random_state
         self.split_columns = split_columns
+        self.exclusion_columns = exclusion_columns
+        self.drop_split_threshold = drop_split_threshold
         self.datasets = None
 
     def split(self):
@@ -335,6 +337,9 @@ class BEEPDataSplitter(MSONable):
             "n_splits": self.n_splits,
             "random_state": self.random_state,
             "split_columns": self.split_columns,
+            "impute_strategy": self.impute_strategy,
+            "exclusion_columns": self.exclusion_columns,
+            "drop_split_threshold": self.drop_split_threshold,
             "datasets": [d.as_dict() for d in self.datasets]
         }
 
@@ -352,7 +357,9 @@ class BEEPDataSplitter(MSONable):
             homogenize_features=d["homogenize_features"],
             n_splits=d["n_splits"],
             random_state=d["random_state"],
-            split_columns=d["split_columns"]
+            split_columns=d["split_columns"],
+            # absent from older files
+            **{k: d[k] for k in ("impute_strategy", "exclusion_columns", "drop_split_threshold") if k in d}
         )
 
         bds.datasets = [BEEPDataset.from_dict(dataset) for dataset in d["datasets"]]
-- 
2.43.0


From 67ffc0c2b49d1d124eb3fb264cbd4b9aca0ff512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:15 +0000
Subject: [PATCH 050/109] fix: look up the parameters of a project among its
 own files only

---
 beep/deprecated/parameters_lookup.py | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/beep/deprecated/parameters_lookup.py b/beep/deprecated/parameters_lookup.py
index 266c999..89fb035 100644
--- a/beep/deprecated/parameters_lookup.py
+++ b/beep/deprecated/parameters_lookup.py
@@ -1,4 +1,4 @@
-from glob import glob
+from glob import escape, glob
 import os
 
 import pandas as pd
@@ -28,6 +28,26 @@ def get_project_sequence(path):
     return file_parts
 
 
+def get_project_files(path, project_name):
+    """
+    Returns the parameter files that belong to a project, leaving out those of
+    projects whose name merely starts with the same letters
+
+    Args:
+        path (str): location to look for parameter files
+        project_name (str): name of the project
+
+    Returns:
+        ([str]): paths of the files
+
+    """
+    prefix = os.path.join(path, project_name)
+    return [
+        file for file in glob(escape(prefix) + "*")
+        if not file[len(prefix):][:1].isalnum()
+    ]
+
+
 def get_protocol_parameters(filepath, parameters_path):
     """
     Helper function to get the project parameters for a file given the filename
@@ -44,7 +64,7 @@ def get_protocol_parameters(filepath, parameters_path):
     project_name_list = get_project_sequence(filepath)
     project_name = project_name_list[0]
     path = os.path.abspath(parameters_path)
-    project_parameter_files = glob(os.path.join(path, project_name + "*"))
+    project_parameter_files = get_project_files(path, project_name)
     assert len(project_parameter_files) <= 1, (
             "Found too many parameter files for: " + project_name
     )
@@ -81,9 +101,7 @@ def get_diagnostic_parameters(
             diagnostic cycle
 
     """
-    project_diag_files = glob(
-        os.path.join(diagnostic_parameter_path, project_name + "*")
-    )
+    project_diag_files = get_project_files(diagnostic_parameter_path, project_name)
     assert len(project_diag_files) <= 1, (
             "Found too many diagnostic parameter files for: " + project_name
     )
-- 
2.43.0


From 9fa5a265e2c318f472ec8e1a7956afbac0db6032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:59 +0000
Subject: [PATCH 051/109] fix: brackets inside a schedule value do not start a
 section

---
 beep/protocol/arbin.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beep/protocol/arbin.py b/beep/protocol/arbin.py
index 3544b83..0503c33 100644
--- a/beep/protocol/arbin.py
+++ b/beep/protocol/arbin.py
@@ -59,7 +59,8 @@ class Schedule(DashOrderedDict):
             text = f.read()
             text = text.decode(encoding)
 
-        split_text = re.split(r"\[(.+)\]", text)
+        # Headings are on lines of their own, brackets elsewhere belong to values
+        split_text = re.split(r"(?:^|(?<=[\r\n]))\[([^\r\n]+)\](?=[ \t]*(?:[\r\n]|$))", text)
         for heading, body in zip(split_text[1::2], split_text[2::2]):
             body_lines = re.split(r"[\r\n]+", body.strip())
             body_dict = OrderedDict([line.split("=", 1) for line in body_lines])
-- 
2.43.0


From ea1e403e6ca2ba811e796eebccbc707533fc15ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:59 +0000
Subject: [PATCH 052/109] fix: read and write schedule sections without
 entries, keep blanks at the end of a value

---
 beep/protocol/arbin.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beep/protocol/arbin.py b/beep/protocol/arbin.py
index 0503c33..d2fdcec 100644
--- a/beep/protocol/arbin.py
+++ b/beep/protocol/arbin.py
@@ -62,8 +62,8 @@ class Schedule(DashOrderedDict):
         # Headings are on lines of their own, brackets elsewhere belong to values
         split_text = re.split(r"(?:^|(?<=[\r\n]))\[([^\r\n]+)\](?=[ \t]*(?:[\r\n]|$))", text)
         for heading, body in zip(split_text[1::2], split_text[2::2]):
-            body_lines = re.split(r"[\r\n]+", body.strip())
-            body_dict = OrderedDict([line.split("=", 1) for line in body_lines])
+            body_lines = re.split(r"[\r\n]+", body)
+            body_dict = OrderedDict([line.split("=", 1) for line in body_lines if line.strip()])
             heading = heading.replace("_", ".")
             obj.set(heading, body_dict)
 
@@ -102,7 +102,7 @@ class Schedule(DashOrderedDict):
             body = linesep.join(
                 ["=".join([key, value]) for key, value in body_data.items()]
             )
-            blocks.append(linesep.join([section_header, body]))
+            blocks.append(linesep.join([section_header, body]) if body else section_header)
         contents = linesep.join(blocks) + linesep
 
         # Write file
-- 
2.43.0


From 615ce21fcce9ac80f44ae3ce819bacae5320a1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:59 +0000
Subject: [PATCH 053/109] fix: write schedule limits given as numbers

---
 beep/protocol/arbin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/protocol/arbin.py b/beep/protocol/arbin.py
index d2fdcec..4328b83 100644
--- a/beep/protocol/arbin.py
+++ b/beep/protocol/arbin.py
@@ -100,7 +100,7 @@ class Schedule(DashOrderedDict):
         for section_title, body_data in data_tuples:
             section_header = "[{}]".format(section_title)
             body = linesep.join(
-                ["=".join([key, value]) for key, value in body_data.items()]
+                ["=".join([key, str(value)]) for key, value in body_data.items()]
             )
             blocks.append(linesep.join([section_header, body]) if body else section_header)
         contents = linesep.join(blocks) + linesep
-- 
2.43.0


From 5994d5826d8600ca1ba8ff474edd445fa505ce7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:59 +0000
Subject: [PATCH 054/109] fix: read Biologic settings with several techniques

---
 beep/protocol/biologic.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/beep/protocol/biologic.py b/beep/protocol/biologic.py
index 83f545f..4feae53 100644
--- a/beep/protocol/biologic.py
+++ b/beep/protocol/biologic.py
@@ -65,9 +65,10 @@ class Settings(DashOrderedDict):
 
         extra_lines = list(range(len(split_text)))
         technique_lines = [
-            indx for indx, val in enumerate(split_text) if "Technique" in val
+            indx for indx, val in enumerate(split_text) if re.match(r"Technique : \d", val)
         ]
         technique_pos = []
+        lines_to_parse = extra_lines
         for technique_start_line in technique_lines:
             technique_num = split_text[technique_start_line].split(":")[-1].strip()
             start = (
@@ -76,14 +77,14 @@ class Settings(DashOrderedDict):
             end = start + step_entry_length
             technique_pos.append((technique_num, start, end))
             lines_to_parse = [
-                i for i in extra_lines if i not in list(range(start, end))
+                i for i in lines_to_parse if i not in list(range(start, end))
             ]
 
         section = "Metadata"
         metadata = []
         for line_num in lines_to_parse:
-            if ":" in split_text[line_num]:
-                if "Technique" in split_text[line_num]:
+            if " : " in split_text[line_num]:
+                if line_num in technique_lines:
                     metadata.append(
                         [
                             "_".join(split_text[line_num].split(" : ", 1)),
-- 
2.43.0


From 0f6b58b04e5b1820845db0fec41b48442472b25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:59 +0000
Subject: [PATCH 055/109] fix: writing Biologic settings does not drop a
 section named in the metadata

---
 beep/protocol/biologic.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/beep/protocol/biologic.py b/beep/protocol/biologic.py
index 4feae53..390c392 100644
--- a/beep/protocol/biologic.py
+++ b/beep/protocol/biologic.py
@@ -173,7 +173,6 @@ class Settings(DashOrderedDict):
             elif data["Metadata"][meta_key] is not None:
                 line = " : ".join([meta_key, data["Metadata"][meta_key]])
             blocks.append(line)
-            data.unset(data["Metadata"][meta_key])
 
         contents = linesep.join(blocks)
 
-- 
2.43.0


From d35a93001c8a86045cb30bed78f9f23b2126bf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:59 +0000
Subject: [PATCH 056/109] fix: write a Maccor procedure in the encoding it
 declares

---
 beep/protocol/maccor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/protocol/maccor.py b/beep/protocol/maccor.py
index 511c3e6..d33cfec 100644
--- a/beep/protocol/maccor.py
+++ b/beep/protocol/maccor.py
@@ -140,7 +140,7 @@ class Procedure(DashOrderedDict):
         contents = "\n".join([line0, line1, remainder])
         contents = self.fixup_empty_elements(contents)
         contents += "\n"
-        with open(filename, "w") as f:
+        with open(filename, "w", encoding=encoding) as f:
             f.write(contents)
 
     @staticmethod
-- 
2.43.0


From 30a90890bd93c73c267f30c1a600e97cd18385b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:35 +0000
Subject: [PATCH 057/109] fix: keep a Biologic setting whose value is the word
 blank

---
 beep/protocol/biologic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/protocol/biologic.py b/beep/protocol/biologic.py
index 390c392..a98e529 100644
--- a/beep/protocol/biologic.py
+++ b/beep/protocol/biologic.py
@@ -168,7 +168,7 @@ class Settings(DashOrderedDict):
                 continue
             elif data["Metadata"][meta_key] is None:
                 line = meta_key
-            elif data["Metadata"][meta_key] == "blank":
+            elif data["Metadata"][meta_key] == "blank" and re.match(r"line\d+$", meta_key):
                 line = ""
             elif data["Metadata"][meta_key] is not None:
                 line = " : ".join([meta_key, data["Metadata"][meta_key]])
-- 
2.43.0


From 16d704884acb904378c965d7d731837c35eebfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:09 +0000
Subject: [PATCH 058/109] fix: find the start of a loop that begins at the
 first or second step

---
 beep/protocol/maccor_to_arbin.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/beep/protocol/maccor_to_arbin.py b/beep/protocol/maccor_to_arbin.py
index 2a10fe4..ccb8612 100644
--- a/beep/protocol/maccor_to_arbin.py
+++ b/beep/protocol/maccor_to_arbin.py
@@ -124,14 +124,15 @@ class ProcedureToSchedule:
             step_name_list.append(str(indx + 1) + "-" + str(step["StepNote"]))
             if "Loop" in step["StepType"]:
                 loop_counter = int(re.search(r"\d+", step["StepType"]).group())
-                i = 1
-                while (indx - i) > 1:
-                    if self.procedure_dict_steps[abs(indx - i)][
+                do_index = None
+                for i in range(indx - 1, -1, -1):
+                    if self.procedure_dict_steps[i][
                         "StepType"
                     ] == "Do {}".format(loop_counter):
-                        do_index = abs(indx - i)
+                        do_index = i
                         break
-                    i = i + 1
+                if do_index is None:
+                    raise ValueError("No Do step for Loop at step {}".format(indx + 1))
                 step_flow_ctrl.update({indx: step_name_list[do_index + 1]})
         return step_name_list, step_flow_ctrl
 
-- 
2.43.0


From d1eb6c1f96642e27ab91e8073a473e26f7879ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:09 +0000
Subject: [PATCH 059/109] fix: converting a procedure to a schedule leaves the
 procedure as it was

---
 beep/protocol/maccor_to_arbin.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beep/protocol/maccor_to_arbin.py b/beep/protocol/maccor_to_arbin.py
index ccb8612..563f6b2 100644
--- a/beep/protocol/maccor_to_arbin.py
+++ b/beep/protocol/maccor_to_arbin.py
@@ -196,6 +196,7 @@ class ProcedureToSchedule:
             os.path.join(PROTOCOL_SCHEMA_DIR, "arbin_schedule_schema.yaml")
         )
         blank_step = OrderedDict(ARBIN_SCHEMA["step_blank_body"])
+        step_abs = deepcopy(step_abs)
 
         blank_step["m_szLabel"] = str(step_index + 1) + "-" + str(step_abs["StepNote"])
         blank_step["m_szCurrentRange"] = current_range
-- 
2.43.0


From a88e0c02b7b9c92b8fe5a35cd648f4e13c775168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:09 +0000
Subject: [PATCH 060/109] fix: convert the only end condition of a step

---
 beep/protocol/maccor_to_arbin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/protocol/maccor_to_arbin.py b/beep/protocol/maccor_to_arbin.py
index 563f6b2..a6a857d 100644
--- a/beep/protocol/maccor_to_arbin.py
+++ b/beep/protocol/maccor_to_arbin.py
@@ -327,7 +327,7 @@ class ProcedureToSchedule:
 
         # Ends
         if step_abs["Ends"] is not None:
-            if isinstance(step_abs["Ends"]["EndEntry"], OrderedDict):
+            if isinstance(step_abs["Ends"]["EndEntry"], dict):
                 blank_step["m_uLimitNum"] = 1
                 end = step_abs["Ends"]["EndEntry"]
                 end_index = 0
-- 
2.43.0


From 445f3762ad9b550d0138e794e788a5c1363e7a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:09 +0000
Subject: [PATCH 061/109] fix: number the logging limits of a step after its
 end conditions

---
 beep/protocol/maccor_to_arbin.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/beep/protocol/maccor_to_arbin.py b/beep/protocol/maccor_to_arbin.py
index a6a857d..bf02ecd 100644
--- a/beep/protocol/maccor_to_arbin.py
+++ b/beep/protocol/maccor_to_arbin.py
@@ -364,23 +364,22 @@ class ProcedureToSchedule:
 
         # Reports
         if step_abs["Reports"] is not None:
+            limit_start = blank_step["m_uLimitNum"]
             if isinstance(step_abs["Reports"]["ReportEntry"], dict):
                 blank_step["m_uLimitNum"] = blank_step["m_uLimitNum"] + 1
                 report = step_abs["Reports"]["ReportEntry"]
                 report_index = 0
-                limit_start = len(step_abs["Ends"]["EndEntry"])
                 limit_key = "Limit{}".format(str(report_index + limit_start))
                 blank_step[limit_key] = OrderedDict(
                     self.convert_report_to_logging_limit(report)
                 )
-            elif isinstance(step_abs["Ends"]["EndEntry"], list):
+            elif isinstance(step_abs["Reports"]["ReportEntry"], list):
                 blank_step["m_uLimitNum"] = blank_step["m_uLimitNum"] + len(
                     step_abs["Reports"]["ReportEntry"]
                 )
                 for report_index, report in enumerate(
                     step_abs["Reports"]["ReportEntry"]
                 ):
-                    limit_start = len(step_abs["Ends"]["EndEntry"])
                     limit_key = "Limit{}".format(str(report_index + limit_start))
                     blank_step[limit_key] = OrderedDict(
                         self.convert_report_to_logging_limit(report)
-- 
2.43.0


From 1864d2d492ebf488dd39204513afd7bb220f0e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:09 +0000
Subject: [PATCH 062/109] fix: keep the voltage limit of a C-rate discharge

---
 beep/protocol/maccor_to_arbin.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beep/protocol/maccor_to_arbin.py b/beep/protocol/maccor_to_arbin.py
index bf02ecd..41be9d1 100644
--- a/beep/protocol/maccor_to_arbin.py
+++ b/beep/protocol/maccor_to_arbin.py
@@ -234,6 +234,8 @@ class ProcedureToSchedule:
                     blank_step["m_szCtrlValue"] = "-" + step_abs["StepValue"].replace(
                         "C", ""
                     )
+                    blank_step["m_szExtCtrlValue1"] = step_abs["Limits"]["Voltage"]
+                    blank_step["m_szExtCtrlValue2"] = "0"
             elif step_abs["Limits"] is None:
                 blank_step["m_szStepCtrlType"] = "C-Rate"
                 if step_abs["StepType"] == "Charge":
-- 
2.43.0


From d81ef9e855017ed1a8ff647f53a61ac6a41a89df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:09 +0000
Subject: [PATCH 063/109] fix: mirror both comparisons of a discharge current

---
 beep/protocol/maccor_to_arbin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beep/protocol/maccor_to_arbin.py b/beep/protocol/maccor_to_arbin.py
index 41be9d1..be7d557 100644
--- a/beep/protocol/maccor_to_arbin.py
+++ b/beep/protocol/maccor_to_arbin.py
@@ -456,7 +456,7 @@ class ProcedureToSchedule:
             elif step_type == "Dischrge":
                 limit["Equation0_szRight"] = "-" + end["Value"]
                 limit["Equation0_szCompareSign"] = (
-                    end["Oper"].replace(" ", "").replace("<", ">")
+                    end["Oper"].replace(" ", "").translate(str.maketrans("<>", "><"))
                 )
             else:
                 raise ValueError(
@@ -475,7 +475,7 @@ class ProcedureToSchedule:
             elif step_type == "Dischrge":
                 limit["Equation0_szRight"] = "-" + end["Value"]
                 limit["Equation0_szCompareSign"] = (
-                    end["Oper"].replace(" ", "").replace("<", ">")
+                    end["Oper"].replace(" ", "").translate(str.maketrans("<>", "><"))
                 )
             else:
                 raise ValueError(
-- 
2.43.0


From b7bbec5621ab9464210fd1bd4e201f2cb10c82d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:09 +0000
Subject: [PATCH 064/109] fix: convert step times of a day and more

---
 beep/protocol/maccor_to_arbin.py | 46 ++++++++++++--------------------
 1 file changed, 17 insertions(+), 29 deletions(-)

diff --git a/beep/protocol/maccor_to_arbin.py b/beep/protocol/maccor_to_arbin.py
index be7d557..ecb3812 100644
--- a/beep/protocol/maccor_to_arbin.py
+++ b/beep/protocol/maccor_to_arbin.py
@@ -15,7 +15,6 @@
 
 import os
 import re
-from datetime import datetime
 from copy import deepcopy
 from beep.protocol import PROTOCOL_SCHEMA_DIR
 from collections import OrderedDict
@@ -411,6 +410,21 @@ class ProcedureToSchedule:
         limit["Equation0_szRight"] = "0"
         return limit
 
+    @staticmethod
+    def convert_time_to_seconds(value):
+        """
+        Converts a maccor time (HH:MM:SS with optional fractions, where empty parts
+        are zero and the hours may exceed a day) to seconds.
+
+        Args:
+            value (str): the maccor time
+
+        Returns:
+            float: number of seconds
+        """
+        hours, minutes, seconds = [float(part or 0) for part in value.split(":")]
+        return round(hours * 3600 + minutes * 60 + seconds, 6)
+
     def convert_end_to_limit(
         self, blank_step, end, step_index, step_name_list, step_type, step_flow_ctrl
     ):
@@ -486,20 +500,7 @@ class ProcedureToSchedule:
         elif end["EndType"] == "StepTime":
             limit["Equation0_szLeft"] = "PV_CHAN_Step_Time"
             limit["Equation0_szCompareSign"] = ">"
-            if "." in end["Value"]:
-                nofrag, frag = end["Value"].split(".")
-                frag = frag[:6]  # truncate to microseconds
-                frag += (6 - len(frag)) * "0"  # add 0s
-                elapsed = datetime.strptime(
-                    nofrag.replace("::", "00:00:0"), "%H:%M:%S"
-                ).replace(microsecond=int(frag)) - datetime.strptime(
-                    "00:00:00", "%H:%M:%S"
-                )
-            else:
-                elapsed = datetime.strptime(
-                    end["Value"].replace("::", "00:00:0"), "%H:%M:%S"
-                ) - datetime.strptime("00:00:00", "%H:%M:%S")
-            limit["Equation0_szRight"] = str(elapsed.total_seconds())
+            limit["Equation0_szRight"] = str(self.convert_time_to_seconds(end["Value"]))
         elif end["EndType"] == "Loop Cnt":
             loop_counter = int(re.search(r"\d+", step_type).group())
             limit["Equation0_szLeft"] = "TC_Counter{}".format(loop_counter)
@@ -550,19 +551,6 @@ class ProcedureToSchedule:
         elif report["ReportType"] == "StepTime":
             limit["Equation0_szLeft"] = "DV_Time"
             limit["Equation0_szCompareSign"] = ">"
-            if "." in report["Value"]:
-                nofrag, frag = report["Value"].split(".")
-                frag = frag[:6]  # truncate to microseconds
-                frag += (6 - len(frag)) * "0"  # add 0s
-                elapsed = datetime.strptime(
-                    nofrag.replace("::", "00:00:0"), "%H:%M:%S"
-                ).replace(microsecond=int(frag)) - datetime.strptime(
-                    "00:00:00", "%H:%M:%S"
-                )
-            else:
-                elapsed = datetime.strptime(
-                    report["Value"].replace("::", "00:00:0"), "%H:%M:%S"
-                ) - datetime.strptime("00:00:00", "%H:%M:%S")
-            limit["Equation0_szRight"] = str(elapsed.total_seconds())
+            limit["Equation0_szRight"] = str(self.convert_time_to_seconds(report["Value"]))
 
         return limit
-- 
2.43.0


From e1f2873269227a890ce77cc1e60ff7a77b3349b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:27 +0000
Subject: [PATCH 065/109] fix: do not cut off times converted to biologic

---
 beep/protocol/maccor_to_biologic_mb.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/beep/protocol/maccor_to_biologic_mb.py b/beep/protocol/maccor_to_biologic_mb.py
index 2b62a3f..b2bfd3c 100644
--- a/beep/protocol/maccor_to_biologic_mb.py
+++ b/beep/protocol/maccor_to_biologic_mb.py
@@ -168,17 +168,17 @@ class MaccorToBiologicMb:
         secs = 0.0 if sec_str == "" else float(sec_str)
 
         if mins == 0.0 and secs == 0.0:
-            return "{:.3f}".format(int(hours)), "h"
+            return "{:.3f}".format(hours), "h"
 
         if secs == 0.0:
-            total_time_min = int(hours * 60 + mins)
+            total_time_min = hours * 60 + mins
             return "{:.3f}".format(total_time_min), "mn"
 
         if secs % 1.0 == 0.0:
-            total_time_sec = int(hours * 60 * 60 + mins * 60 + secs)
+            total_time_sec = hours * 60 * 60 + mins * 60 + secs
             return "{:.3f}".format(total_time_sec), "s"
 
-        total_time_ms = int(hours * 60 * 60 * 1000 + mins * 60 * 1000 + secs * 1000)
+        total_time_ms = round(hours * 60 * 60 * 1000 + mins * 60 * 1000 + secs * 1000)
 
         biologic_max_time_num = 1e10  # taken from biologic ec-lab software
         if total_time_ms < biologic_max_time_num:
-- 
2.43.0


From d6871b8b10bdc34b258db76c232ee59b186ca664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:27 +0000
Subject: [PATCH 066/109] fix: apply every sequence mapping, not only the last

---
 beep/protocol/maccor_to_biologic_mb.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/beep/protocol/maccor_to_biologic_mb.py b/beep/protocol/maccor_to_biologic_mb.py
index b2bfd3c..385b182 100644
--- a/beep/protocol/maccor_to_biologic_mb.py
+++ b/beep/protocol/maccor_to_biologic_mb.py
@@ -846,13 +846,13 @@ class MaccorToBiologicMb:
         for i, seq in enumerate(seqs):
             mapped_seq = seq
 
-            mapped_seq = self._apply_max_current_to_seq(technique_num, seq, i)
-            mapped_seq = self._apply_min_current_to_seq(technique_num, seq, i)
-            mapped_seq = self._apply_max_voltage_to_seq(technique_num, seq, i)
-            mapped_seq = self._apply_min_voltage_to_seq(technique_num, seq, i)
+            mapped_seq = self._apply_max_current_to_seq(technique_num, mapped_seq, i)
+            mapped_seq = self._apply_min_current_to_seq(technique_num, mapped_seq, i)
+            mapped_seq = self._apply_max_voltage_to_seq(technique_num, mapped_seq, i)
+            mapped_seq = self._apply_min_voltage_to_seq(technique_num, mapped_seq, i)
 
             for mapper in self.seq_mappers + extra_mappers:
-                mapped_seq = mapper(technique_num, seq, i)
+                mapped_seq = mapper(technique_num, mapped_seq, i)
 
             mapped_seqs.append(mapped_seq)
 
-- 
2.43.0


From 818274de823d67b758787bf63b982f512e021082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:27 +0000
Subject: [PATCH 067/109] fix: keep the end conditions of a limited step in its
 first part

---
 beep/protocol/maccor_to_biologic_mb.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/beep/protocol/maccor_to_biologic_mb.py b/beep/protocol/maccor_to_biologic_mb.py
index 385b182..98ca89a 100644
--- a/beep/protocol/maccor_to_biologic_mb.py
+++ b/beep/protocol/maccor_to_biologic_mb.py
@@ -348,8 +348,11 @@ class MaccorToBiologicMb:
                     )
 
                 goto_seq = -1
-                if goto_step_num == step_num + 1:
+                if i < len(step_parts) - 1 and lim_num == num_end_entries:
+                    # the limit that _split_step put last leads to the next part
                     goto_seq = seq_num + 1
+                elif goto_step_num == step_num + 1:
+                    goto_seq = seq_nums_by_step_num[step_num][-1] + 1
                 elif goto_step_num == end_step_num:
                     goto_seq = END_SEQ_NUM
                 else:
@@ -357,7 +360,7 @@ class MaccorToBiologicMb:
 
                 new_seq["lim{}_seq".format(lim_num)] = goto_seq
 
-                if goto_step_num != step_num + 1:
+                if goto_seq != seq_num + 1:
                     new_seq["lim{}_action".format(lim_num)] = "Goto sequence"
 
                 if end_type == "StepTime":
@@ -891,17 +894,12 @@ class MaccorToBiologicMb:
                 )
 
             step_part_1 = copy.deepcopy(step)
-            end_entries = get(step_part_1, "EndsEndEntries")
+            end_entries = get(step_part_1, "Ends.EndEntry")
             if end_entries is None:
                 end_entries = []
             elif not isinstance(end_entries, list):
                 end_entries = [end_entries]
 
-            filtered_end_entries = []
-            for end_entry in end_entries:
-                if get(end_entry, "EndType") != lim:
-                    filtered_end_entries.append(end_entry)
-
             oper = ""
             if step_type == "Charge":
                 oper = ">="
@@ -910,6 +908,18 @@ class MaccorToBiologicMb:
             else:
                 raise Exception("Unsupported StepMode {} at step num {}".format(step_type, step_num))
 
+            # the controlled quantity is constant in this part and the other cannot pass the limit,
+            # every other end condition may end the step in either part
+            filtered_end_entries = []
+            for end_entry in end_entries:
+                end_type = get(end_entry, "EndType")
+                if end_type == acceptable_limit and get(end_entry, "Oper") == oper:
+                    beyond = float(get(end_entry, "Value")) - float(lim)
+                    if (beyond if oper == ">=" else -beyond) >= 0:
+                        continue
+                if end_type != step_mode:
+                    filtered_end_entries.append(end_entry)
+
             new_end_entry = copy.deepcopy(self._blank_end_entry)
             set_(new_end_entry, "EndType", acceptable_limit)
             set_(new_end_entry, "Oper", oper)
-- 
2.43.0


From 423d24d7d107fc731675c0d34638f6973944aef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:54 +0000
Subject: [PATCH 068/109] fix: count cycle advances at the start of loops and
 techniques and after jumps

---
 beep/protocol/maccor_to_biologic_mb.py | 159 +++++++++++++++----------
 1 file changed, 99 insertions(+), 60 deletions(-)

diff --git a/beep/protocol/maccor_to_biologic_mb.py b/beep/protocol/maccor_to_biologic_mb.py
index 98ca89a..984420f 100644
--- a/beep/protocol/maccor_to_biologic_mb.py
+++ b/beep/protocol/maccor_to_biologic_mb.py
@@ -1053,6 +1053,41 @@ class MaccorToBiologicMb:
 
         return seqs, step_nums_by_seq_num, seq_nums_by_step_num
 
+    """
+    follow the steps that take no measurement
+
+    accepts
+        - tp: TechniquePartionPostConversion
+        - idx: index of the first step to follow
+        - loop_open_by_close: indices of loop starts by index of their loop ends
+        - advances: cycle advances so far
+
+    returns
+        - list of the measurement steps that can come next, None for the end of the technique, and
+        the cycle advances on the way: list((option(int), int)). The last one does not loop.
+    """
+
+    def _trace_cycle_advances(self, tp, idx, loop_open_by_close, advances=0, closed={}):
+        targets = []
+        while idx < len(tp.steps):
+            step = tp.steps[idx]
+            step_num = idx + tp.step_num_offset + 1
+            if get(step, "StepType") == "AdvCycle":
+                advances += 1
+            elif idx in loop_open_by_close:
+                if idx in closed:
+                    if closed[idx] != advances:
+                        raise Exception("Loop end step {} contains no measurement steps".format(step_num))
+                    return targets
+                if int(get(step, "Ends.EndEntry.Value")) > 1:
+                    targets += self._trace_cycle_advances(
+                        tp, loop_open_by_close[idx] + 1, loop_open_by_close, advances, {**closed, idx: advances}
+                    )
+            elif idx not in loop_open_by_close.values():
+                return targets + [(step_num, advances)]
+            idx += 1
+        return targets + [(None, advances)]
+
     """
     create cycle advancement rules
 
@@ -1094,13 +1129,11 @@ class MaccorToBiologicMb:
                 ("Loop 2", "Loop 1") if tp.tech_does_loop else ("Loop 1", "Loop 2")
             )
 
-            cycle_advances_on_tech_start = adv_cycle_count
-            adv_cycle_count = 0
-
             cycle_advances_by_step_transition = {}
 
             prev_loop_open = -1
-            prev_measurement_step_num = -1
+            loop_open_by_close = {}
+            measurement_idxs = []
             for i, step in enumerate(tp.steps):
                 step_num = i + tp.step_num_offset + 1
                 step_type = get(step, "StepType")
@@ -1112,7 +1145,7 @@ class MaccorToBiologicMb:
                         )
                     )
                 if step_type == "AdvCycle":
-                    adv_cycle_count += 1
+                    continue
                 elif step_type == allowed_loop_open:
                     if prev_loop_open != -1:
                         prev_loop_open_step_num = prev_loop_open + tp.step_num_offset
@@ -1126,71 +1159,76 @@ class MaccorToBiologicMb:
                     if prev_loop_open == -1:
                         raise Exception("Unclosed loop at step {}".format(step_num))
 
-                    # we need to trace the loop to find the cycle advancement
-                    if adv_cycle_count > 0:
-                        if prev_measurement_step_num == -1:
-                            raise Exception(
-                                (
-                                    "Loop end at step {} contains advance cycle with" + "no physical step in loop body"
-                                ).format(step_num)
-                            )
-
-                        looped_cycle_advances = adv_cycle_count
-                        for j in range(prev_loop_open + 1, i + 1):
-                            looped_step_num = j + tp.step_num_offset
-                            if looped_step_num == step_num:
-                                raise Exception("Loop end step {} contains no measurement steps".format(step_num))
-                            elif looped_step_num == prev_measurement_step_num:
-                                raise Exception(
-                                    (
-                                        "step {} is the only measurement step in a loop that advances cycle index,"
-                                        + " correct cycle index computation impossible"
-                                    ).format(prev_measurement_step_num)
-                                )
-
-                            looped_step_type = get(tp.steps[j], "StepType")
-                            if looped_step_type == "Adv Cycle":
-                                looped_cycle_advances += 1
-                            else:
-                                # assumption that step is measurement because there are
-                                # no interleaved loops and only other logical step is adv cycle
-                                transition = (prev_measurement_step_num, looped_step_num)
-                                cycle_advances_by_step_transition[transition] = looped_cycle_advances
-                                break
-
+                    loop_open_by_close[i] = prev_loop_open
                     prev_loop_open = -1
                 else:
                     # assumption: every physical step is measurement step
                     assert get(step, "Reports.ReportEntry") is not None
 
-                    if prev_measurement_step_num == -1:
-                        cycle_advances_on_tech_start += adv_cycle_count
-                    elif adv_cycle_count > 0:
-                        transition = (prev_measurement_step_num, step_num)
-                        cycle_advances_by_step_transition[transition] = adv_cycle_count
-                    prev_measurement_step_num = step_num
-                    adv_cycle_count = 0
+                    measurement_idxs.append(i)
 
-            cycle_advances_on_tech_loop = adv_cycle_count
+            if prev_loop_open != -1:
+                raise Exception("Loop at step {} is never closed".format(prev_loop_open + tp.step_num_offset + 1))
 
-            # TODO we should also check GOTO transitions as well
-            # these should be done _after_ the Next Step and Loop cases
-            # because there could be ambiguity in where a transition
-            # actually advances a cycle
-            # e.g. (4,6) is a transition but 4 has a GOTO to 6
-            # the case is pathalogical but real, we should
-            # throw an error when it happens
+            # advances are counted on the way from one measurement step to the next, whether
+            # that is the next step, the start of a loop or the target of a GOTO
+            _, leading_cycle_advances = self._trace_cycle_advances(tp, 0, loop_open_by_close)[-1]
+            trailing_cycle_advances = set()
+            for i in measurement_idxs:
+                step_num = i + tp.step_num_offset + 1
+                end_entries = get(tp.steps[i], "Ends.EndEntry") or []
+                end_entries = end_entries if isinstance(end_entries, list) else [end_entries]
+                goto_idxs = {int(get(end_entry, "Step")) - tp.step_num_offset - 1 for end_entry in end_entries}
+                for goto_idx in sorted(goto_idxs):
+                    if goto_idx < 0 or goto_idx > len(tp.steps):
+                        # ends the protocol
+                        continue
+                    for target, cycle_advances in self._trace_cycle_advances(tp, goto_idx, loop_open_by_close):
+                        if target is None:
+                            trailing_cycle_advances.add(cycle_advances)
+                            continue
+                        if target == step_num and cycle_advances > 0:
+                            raise Exception(
+                                (
+                                    "step {} is the only measurement step in a loop that advances cycle index,"
+                                    + " correct cycle index computation impossible"
+                                ).format(step_num)
+                            )
+                        transition = (step_num, target)
+                        if cycle_advances_by_step_transition.setdefault(transition, cycle_advances) != cycle_advances:
+                            raise Exception(
+                                "number of cycle advances from step {} to step {} is ambiguous".format(*transition)
+                            )
+
+            cycle_advances_by_step_transition = {
+                transition: cycle_advances
+                for transition, cycle_advances in cycle_advances_by_step_transition.items()
+                if cycle_advances > 0
+            }
+
+            if len(trailing_cycle_advances) > 1 and (
+                tp.tech_does_loop or tp is not technique_partitions_post_conversion[-1]
+            ):
+                raise Exception(
+                    "number of cycle advances at the end of technique {} is ambiguous".format(tp.technique_num)
+                )
+
+            cycle_advances_on_tech_start = adv_cycle_count + leading_cycle_advances
+            cycle_advances_on_tech_loop = 0
+            adv_cycle_count = max(trailing_cycle_advances, default=0)
+            if tp.tech_does_loop:
+                cycle_advances_on_tech_loop = adv_cycle_count + leading_cycle_advances
+            if len(measurement_idxs) == 0:
+                # no data to count cycles in
+                adv_cycle_count = cycle_advances_on_tech_start
 
             cycle_advances_by_seq_transition = {}
             for (s_, t_), cycle_advances in cycle_advances_by_step_transition.items():
-                # exit from last seq of split, enter at first seq of split
-                if t_ == 33:
-                    print(tp.technique_num)
-                    print(tp.seq_nums_by_step_num)
-                s = tp.seq_nums_by_step_num[s_][-1]
+                # exit from any seq of split, enter at first seq of split
                 t = tp.seq_nums_by_step_num[t_][0]
-                transition = (s, t)
-                cycle_advances_by_seq_transition[transition] = cycle_advances
+                for s in tp.seq_nums_by_step_num[s_]:
+                    transition = (s, t)
+                    cycle_advances_by_seq_transition[transition] = cycle_advances
 
             cycle_advancement_rules.append(
                 CycleAdvancementRules(
@@ -1265,6 +1303,8 @@ class MaccorToBiologicMb:
                 )
             )
 
+        cycle_advancement_rules = self._create_cycle_advancement_rules(technique_partitions_post_conversion)
+
         protocol_str = self._diagnostic_file_str_from_technique_partitions_post_conversion(
             technique_partitions_post_conversion
         )
@@ -1273,7 +1313,6 @@ class MaccorToBiologicMb:
             print("writing {}".format(protocol_fp))
             f.write(protocol_str.encode("ISO-8859-1"))
 
-        cycle_advancement_rules = self._create_cycle_advancement_rules(technique_partitions_post_conversion)
         advancement_serializer = CycleAdvancementRulesSerializer()
 
         advancement_rules_fps = []
-- 
2.43.0


From 7122bcbd76cdfe3dd0d5754d7d2abb11261f312f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:17 +0000
Subject: [PATCH 069/109] fix: send a jump to a loop to its Do step

---
 beep/protocol/biologic_mb_to_maccor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/protocol/biologic_mb_to_maccor.py b/beep/protocol/biologic_mb_to_maccor.py
index fc0f951..028cdf0 100644
--- a/beep/protocol/biologic_mb_to_maccor.py
+++ b/beep/protocol/biologic_mb_to_maccor.py
@@ -744,7 +744,7 @@ class BiologicMbToMaccorProcedure:
                 step = cls._create_step(
                     seq,
                     step_num_by_seq_num,
-                    step_num_is_active_loop_start,
+                    seq_num_is_active_loop_start,
                     end_step_num,
                 )
                 steps.append(step)
-- 
2.43.0


From 497320a24d0968a2acf79d4401cb22fa74a3f413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:17 +0000
Subject: [PATCH 070/109] fix: refuse overlapping biologic loops

---
 beep/protocol/biologic_mb_to_maccor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/protocol/biologic_mb_to_maccor.py b/beep/protocol/biologic_mb_to_maccor.py
index 028cdf0..968f11d 100644
--- a/beep/protocol/biologic_mb_to_maccor.py
+++ b/beep/protocol/biologic_mb_to_maccor.py
@@ -546,7 +546,7 @@ class BiologicMbToMaccorProcedure:
             loop_is_inactive = seq["ctrl_repeat"] == "0"
 
             # handle loops
-            if is_loop_seq and not loop_is_inactive and loop_to >= curr_loop_start:
+            if is_loop_seq and not loop_is_inactive and seq_num >= curr_loop_start:
                 # Biologic does not have nested loops, maccor does not allow
                 # you to loop back into already completed loops
                 # to handle this we're disallowing any overlapping loops
-- 
2.43.0


From 14399993f88b3d41cf76b66377326043a9136ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:17 +0000
Subject: [PATCH 071/109] fix: only check the targets of limits that jump

---
 beep/protocol/biologic_mb_to_maccor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beep/protocol/biologic_mb_to_maccor.py b/beep/protocol/biologic_mb_to_maccor.py
index 968f11d..4bf5b87 100644
--- a/beep/protocol/biologic_mb_to_maccor.py
+++ b/beep/protocol/biologic_mb_to_maccor.py
@@ -653,6 +653,8 @@ class BiologicMbToMaccorProcedure:
             seq_belongs_to_loop = seq_num in containing_loop_range_by_seq_num
 
             for lim in range(1, num_limits + 1):
+                if seq["lim{}_action".format(lim)] != "Goto sequence":
+                    continue
                 goto = int(seq["lim{}_seq".format(lim)])
                 if goto < last_loop_end:
                     raise Exception(
-- 
2.43.0


From 10ba4f4c7bfeb72fced65c9ce503338f24471a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:14 +0000
Subject: [PATCH 072/109] fix: write step times of a day and longer in full

---
 beep/protocol/maccor.py | 77 +++++++++++++++++------------------------
 1 file changed, 31 insertions(+), 46 deletions(-)

diff --git a/beep/protocol/maccor.py b/beep/protocol/maccor.py
index d33cfec..a9918ad 100644
--- a/beep/protocol/maccor.py
+++ b/beep/protocol/maccor.py
@@ -17,7 +17,6 @@ input parameters and procedure templates
 """
 
 import os
-import time
 from copy import deepcopy
 
 import numpy as np
@@ -29,6 +28,22 @@ from beep.utils import DashOrderedDict
 from beep.utils.waveform import convert_velocity_to_power_waveform, RapidChargeWave
 
 
+def step_time(seconds):
+    """
+    Formats a duration the way step times are written in maccor procedures,
+    the hours are not limited to one day.
+
+    Args:
+        seconds (float): duration in seconds
+
+    Returns:
+        str: duration as HH:MM:SS
+    """
+    minutes, seconds = divmod(int(seconds), 60)
+    hours, minutes = divmod(minutes, 60)
+    return "{:02d}:{:02d}:{:02d}".format(hours, minutes, seconds)
+
+
 class Procedure(DashOrderedDict):
     """
     Procedure file object. Provides factory methods
@@ -392,9 +407,7 @@ class Procedure(DashOrderedDict):
                 / reg_param["charge_constant_current_1"]
             )
         )
-        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = step_time(time_s)
 
         # Regular cycle constant current charge part 2
         step_idx = charge_idx + 1
@@ -418,18 +431,14 @@ class Procedure(DashOrderedDict):
         steps[step_idx]["StepValue"] = reg_param["charge_cutoff_voltage"]
         assert steps[step_idx]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(60 * reg_param["charge_constant_voltage_time"]))
-        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = step_time(time_s)
 
         # Regular cycle rest at top of charge
         step_idx = charge_idx + 3
         assert steps[step_idx]["StepType"] == "Rest"
         assert steps[step_idx]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(60 * reg_param["charge_rest_time"]))
-        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = step_time(time_s)
 
         return self
 
@@ -466,9 +475,7 @@ class Procedure(DashOrderedDict):
         assert steps[step_idx]["StepType"] == "Rest"
         assert steps[step_idx]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(60 * reg_param["discharge_rest_time"]))
-        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = step_time(time_s)
 
         # Regular cycle number of times to repeat regular cycle for initial offset and main body
         step_idx = discharge_idx + 3
@@ -521,9 +528,7 @@ class Procedure(DashOrderedDict):
         )
         assert steps[step_idx]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(60 * 12))
-        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = step_time(time_s)
 
         return self
 
@@ -814,9 +819,7 @@ class Procedure(DashOrderedDict):
         assert steps[rest_idx]["StepType"] == "Rest"
         assert steps[rest_idx]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(3 * 3600 + offset_seconds * (index % 96)))
-        steps[rest_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[rest_idx]["Ends"]["EndEntry"][0]["Value"] = step_time(time_s)
 
         return self
 
@@ -851,9 +854,7 @@ class Procedure(DashOrderedDict):
                 / reg_param["charge_constant_current_1"]
             )
         )
-        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = step_time(time_s)
         assert steps[step_idx]["Ends"]["EndEntry"][1]["Value"] != 4.4
         steps[step_idx]["Ends"]["EndEntry"][1]["Value"] = float(
             round(reg_param["charge_cutoff_voltage"], 3)
@@ -881,18 +882,14 @@ class Procedure(DashOrderedDict):
         steps[step_idx]["StepValue"] = reg_param["charge_cutoff_voltage"]
         assert steps[step_idx]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(60 * reg_param["charge_constant_voltage_time"]))
-        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = step_time(time_s)
 
         # Regular cycle rest at top of charge
         step_idx = charge_idx + 3
         assert steps[step_idx]["StepType"] == "Rest"
         assert steps[step_idx]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(60 * reg_param["charge_rest_time"]))
-        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = step_time(time_s)
 
         return self
 
@@ -932,9 +929,7 @@ class Procedure(DashOrderedDict):
         )
         assert steps[step_idx]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(60 * 12))
-        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = step_time(time_s)
 
         return self
 
@@ -1101,9 +1096,7 @@ class Procedure(DashOrderedDict):
         assert steps[start + 2]["StepType"] == "Rest"
         assert steps[start + 2]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(60 * diagnostic_params["HPPC_rest_time"]))
-        steps[start + 2]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(float(time_s))
-        )
+        steps[start + 2]["Ends"]["EndEntry"][0]["Value"] = step_time(time_s)
 
         # Discharge step 1 for hppc cycle
         assert steps[start + 3]["StepType"] == "Dischrge"
@@ -1113,9 +1106,7 @@ class Procedure(DashOrderedDict):
         )
         assert steps[start + 3]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = diagnostic_params["HPPC_pulse_duration_1"]
-        steps[start + 3]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(float(time_s))
-        )
+        steps[start + 3]["Ends"]["EndEntry"][0]["Value"] = step_time(time_s)
         assert steps[start + 3]["Ends"]["EndEntry"][1]["EndType"] == "Voltage"
         steps[start + 3]["Ends"]["EndEntry"][1]["Value"] = float(
             round(diagnostic_params["diagnostic_discharge_cutoff_voltage"], 3)
@@ -1125,9 +1116,7 @@ class Procedure(DashOrderedDict):
         assert steps[start + 4]["StepType"] == "Rest"
         assert steps[start + 4]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(diagnostic_params["HPPC_pulse_rest_time"]))
-        steps[start + 4]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[start + 4]["Ends"]["EndEntry"][0]["Value"] = step_time(time_s)
 
         # Charge step 1 for hppc cycle
         assert steps[start + 5]["StepType"] == "Charge"
@@ -1137,9 +1126,7 @@ class Procedure(DashOrderedDict):
         )
         assert steps[start + 5]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = diagnostic_params["HPPC_pulse_duration_2"]
-        steps[start + 5]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(float(time_s))
-        )
+        steps[start + 5]["Ends"]["EndEntry"][0]["Value"] = step_time(time_s)
         assert steps[start + 5]["Ends"]["EndEntry"][1]["EndType"] == "Voltage"
         steps[start + 5]["Ends"]["EndEntry"][1]["Value"] = float(
             round(diagnostic_params["HPPC_pulse_cutoff_voltage"], 3)
@@ -1163,9 +1150,7 @@ class Procedure(DashOrderedDict):
                 - 1
             )
         )
-        steps[start + 6]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(float(time_s))
-        )
+        steps[start + 6]["Ends"]["EndEntry"][0]["Value"] = step_time(time_s)
         assert steps[start + 6]["Ends"]["EndEntry"][1]["EndType"] == "Voltage"
         steps[start + 6]["Ends"]["EndEntry"][1]["Value"] = float(
             round(diagnostic_params["diagnostic_discharge_cutoff_voltage"], 3)
-- 
2.43.0


From a8be2a48bc75303e94cfe14548ce19b56a32836f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:14 +0000
Subject: [PATCH 073/109] fix: set the rest and the cycle counts of driving
 procedures

---
 beep/protocol/maccor.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/beep/protocol/maccor.py b/beep/protocol/maccor.py
index a9918ad..da4b3da 100644
--- a/beep/protocol/maccor.py
+++ b/beep/protocol/maccor.py
@@ -470,6 +470,24 @@ class Procedure(DashOrderedDict):
             round(reg_param["discharge_cutoff_voltage"], 3)
         )
 
+        self.insert_cycle_end_regcyclev2(discharge_idx, reg_param)
+
+        return self
+
+    def insert_cycle_end_regcyclev2(self, discharge_idx, reg_param):
+        """
+        Inserts the rest after the discharge and the number of regular
+        cycles into procedure dictionary at given id.
+
+        Args:
+            discharge_idx (int):
+            reg_param (pandas.DataFrame):
+
+        Returns:
+            dict:
+        """
+        steps = self["MaccorTestProcedure"]["ProcSteps"]["TestStep"]
+
         # Regular cycle rest after discharge
         step_idx = discharge_idx + 1
         assert steps[step_idx]["StepType"] == "Rest"
@@ -667,12 +685,14 @@ class Procedure(DashOrderedDict):
         obj.insert_charge_regcyclev3(reg_charge_idx, reg_param)
         reg_discharge_idx = 27 + 5
         obj.insert_maccor_waveform(reg_discharge_idx, waveform_name)
+        obj.insert_cycle_end_regcyclev2(reg_discharge_idx, reg_param)
 
         # Start of main loop of regular cycles
         reg_charge_idx = 59 + 1
         obj.insert_charge_regcyclev3(reg_charge_idx, reg_param)
         reg_discharge_idx = 59 + 5
         obj.insert_maccor_waveform(reg_discharge_idx, waveform_name)
+        obj.insert_cycle_end_regcyclev2(reg_discharge_idx, reg_param)
 
         # Storage cycle
         reg_storage_idx = 93
-- 
2.43.0


From 622caebff023b954fc1333370de79f5496c2ccdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:14 +0000
Subject: [PATCH 074/109] fix: keep counts whole when another row leaves them
 empty

---
 beep/protocol/maccor.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/beep/protocol/maccor.py b/beep/protocol/maccor.py
index da4b3da..6b65d76 100644
--- a/beep/protocol/maccor.py
+++ b/beep/protocol/maccor.py
@@ -500,14 +500,14 @@ class Procedure(DashOrderedDict):
         assert steps[step_idx]["StepType"][0:4] == "Loop"
         if steps[step_idx]["StepType"] == "Loop 1":
             assert steps[step_idx]["Ends"]["EndEntry"]["EndType"] == "Loop Cnt"
-            steps[step_idx]["Ends"]["EndEntry"]["Value"] = reg_param[
-                "diagnostic_start_cycle"
-            ]
+            steps[step_idx]["Ends"]["EndEntry"]["Value"] = int(
+                reg_param["diagnostic_start_cycle"]
+            )
         elif steps[step_idx]["StepType"] == "Loop 2":
             assert steps[step_idx]["Ends"]["EndEntry"]["EndType"] == "Loop Cnt"
-            steps[step_idx]["Ends"]["EndEntry"]["Value"] = reg_param[
-                "diagnostic_interval"
-            ]
+            steps[step_idx]["Ends"]["EndEntry"]["Value"] = int(
+                reg_param["diagnostic_interval"]
+            )
 
         return self
 
@@ -1363,12 +1363,13 @@ def insert_driving_parametersv1(reg_params, waveform_directory=None):
 
     df = df[["time", "power"]]
     time_axis = list(df["time"]).copy()
-    for i in range(reg_params['n_repeats'] - 1):
+    n_repeats = int(reg_params['n_repeats'])
+    for i in range(n_repeats - 1):
         time_axis = time_axis + [time_axis[-1] + el for el in df['time']]
 
     df = pd.DataFrame({'time': time_axis,
-                       'power': list(df['power']) * reg_params['n_repeats']})
-    filename = '{}_x{}_{}W'.format(reg_params['discharge_profile'], reg_params['n_repeats'],
+                       'power': list(df['power']) * n_repeats})
+    filename = '{}_x{}_{}W'.format(reg_params['discharge_profile'], n_repeats,
                                    int(reg_params["max_profile_power"] * reg_params['power_scaling']))
     file_path = generate_maccor_waveform_file(df, filename, waveform_directory, mwf_config=mwf_config)
 
-- 
2.43.0


From c6868eecc95de9ce16c58934936c46a92d162217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:14 +0000
Subject: [PATCH 075/109] fix: name the waveform of a step when its folder
 contains a dot

---
 beep/protocol/maccor.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/beep/protocol/maccor.py b/beep/protocol/maccor.py
index 6b65d76..75a4405 100644
--- a/beep/protocol/maccor.py
+++ b/beep/protocol/maccor.py
@@ -346,8 +346,7 @@ class Procedure(DashOrderedDict):
 
         assert steps[waveform_idx]["StepType"] == "FastWave"
         assert waveform_filename.split(".")[-1].lower() == "mwf"
-        local_name = waveform_filename.split(".")[0]
-        _, local_name = os.path.split(local_name)
+        local_name, _ = os.path.splitext(os.path.basename(waveform_filename))
         assert len(local_name) < 25, str(len(local_name))
 
         steps[waveform_idx]["StepValue"] = local_name
-- 
2.43.0


From 4f07805e34b8592d5fb5ef3cb12acdde21dbc1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:14 +0000
Subject: [PATCH 076/109] fix: keep the default waveform settings when a
 driving waveform is made

---
 beep/protocol/maccor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/protocol/maccor.py b/beep/protocol/maccor.py
index 75a4405..46d1925 100644
--- a/beep/protocol/maccor.py
+++ b/beep/protocol/maccor.py
@@ -1347,7 +1347,7 @@ def insert_driving_parametersv1(reg_params, waveform_directory=None):
             power_scaling (float): Power relative to the other profiles
         waveform_directory (str): path to save waveform files
     """
-    mwf_config = MACCOR_WAVEFORM_CONFIG
+    mwf_config = dict(MACCOR_WAVEFORM_CONFIG)
     velocity_name = reg_params["discharge_profile"] + "_velocity_waveform.txt"
     velocity_file = os.path.join(PROTOCOL_SCHEMA_DIR, velocity_name)
     df = convert_velocity_to_power_waveform(velocity_file, velocity_units="mph")
-- 
2.43.0


From f75b897f104b6fcd8521e907456894f1fe1208cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:14 +0000
Subject: [PATCH 077/109] fix: leave the profile and the parameters of a
 waveform as they were

---
 beep/protocol/maccor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beep/protocol/maccor.py b/beep/protocol/maccor.py
index 46d1925..5ca021f 100644
--- a/beep/protocol/maccor.py
+++ b/beep/protocol/maccor.py
@@ -772,6 +772,7 @@ class Procedure(DashOrderedDict):
         obj.insert_resistance_regcyclev2(dc_idx, reg_param)
 
         # Set variables necessary to use regcyclev3 function
+        reg_param = reg_param.copy()
         reg_param["charge_constant_current_1"] = 1
         reg_param["charge_constant_current_2"] = reg_param["charge_current_param_4"]
         reg_param["charge_percent_limit_1"] = reg_param["charge_fast_soc_limit"]
@@ -1476,6 +1477,7 @@ def generate_maccor_waveform_file(df, file_prefix, file_directory, mwf_config=No
     if mwf_config is None:
         mwf_config = MACCOR_WAVEFORM_CONFIG
 
+    df = df.copy()
     if "power" in df.columns:
         df["power"] = df["power"] / max(abs(df["power"])) * mwf_config["value_scale"]
         df["step_counter"] = df["power"].diff().fillna(0).ne(0).cumsum()
-- 
2.43.0


From 921c3722da3e582ba83ab3031bbc8a58e6359f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:14 +0000
Subject: [PATCH 078/109] fix: refuse charging windows that are out of order

---
 beep/utils/waveform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/utils/waveform.py b/beep/utils/waveform.py
index de13813..cf754aa 100644
--- a/beep/utils/waveform.py
+++ b/beep/utils/waveform.py
@@ -103,7 +103,7 @@ class RapidChargeWave:
         np.array: array with the multistep current as a function of the uniform time basis
         np.array: array with the corresponding uniformly spaced time values
         """
-        assert np.all(np.diff(mesh_points)) > 0
+        assert np.all(np.diff(mesh_points) > 0)
         current_smooth, time_smooth, current_multistep, time_multistep = \
             self.get_input_currents_both_to_final_soc(charging_c_rates, mesh_points)
         end_time_smooth = int(np.round(np.max(time_smooth), 0))
-- 
2.43.0


From 443582b05758e8cd7d77ceab54174aed08e9b87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:14 +0000
Subject: [PATCH 079/109] fix: report rows without a template

---
 beep/protocol/generate_protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/protocol/generate_protocol.py b/beep/protocol/generate_protocol.py
index 486d231..6017788 100644
--- a/beep/protocol/generate_protocol.py
+++ b/beep/protocol/generate_protocol.py
@@ -115,7 +115,7 @@ def generate_protocol_files_from_csv(csv_filename, output_directory=None):
             makedirs_p(subdir_path)
 
     for index, protocol_params in protocol_params_df.iterrows():
-        template = protocol_params["template"]
+        template = str(protocol_params["template"])
         protocol = None
         # Filename for the output
         filename_prefix = "_".join(
-- 
2.43.0


From c4f4deccecad659238eef8bb2f984bf32dd24290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:31 +0000
Subject: [PATCH 080/109] fix: keep driving waveforms of the same name and
 other settings apart

---
 beep/protocol/maccor.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/beep/protocol/maccor.py b/beep/protocol/maccor.py
index 5ca021f..6b6d15c 100644
--- a/beep/protocol/maccor.py
+++ b/beep/protocol/maccor.py
@@ -16,7 +16,10 @@ Module for generating maccor procedure files from
 input parameters and procedure templates
 """
 
+import filecmp
 import os
+import shutil
+import tempfile
 from copy import deepcopy
 
 import numpy as np
@@ -1371,7 +1374,15 @@ def insert_driving_parametersv1(reg_params, waveform_directory=None):
                        'power': list(df['power']) * n_repeats})
     filename = '{}_x{}_{}W'.format(reg_params['discharge_profile'], n_repeats,
                                    int(reg_params["max_profile_power"] * reg_params['power_scaling']))
-    file_path = generate_maccor_waveform_file(df, filename, waveform_directory, mwf_config=mwf_config)
+    # Procedures refer to waveforms by name, so a different waveform never replaces one of the same name
+    with tempfile.TemporaryDirectory() as tmp_directory:
+        tmp_path = generate_maccor_waveform_file(df, filename, tmp_directory, mwf_config=mwf_config)
+        file_path = os.path.join(waveform_directory, filename + ".MWF")
+        number = 1
+        while os.path.exists(file_path) and not filecmp.cmp(tmp_path, file_path, shallow=False):
+            number += 1
+            file_path = os.path.join(waveform_directory, "{}_{}.MWF".format(filename, number))
+        shutil.copyfile(tmp_path, file_path)
 
     return file_path
 
-- 
2.43.0


From 0171be1f4e4a8aa6ebd8af8e91d6b726807ff56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:31 +0000
Subject: [PATCH 081/109] fix: write waveforms that only rest

---
 beep/protocol/maccor.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/beep/protocol/maccor.py b/beep/protocol/maccor.py
index 6b6d15c..ce48579 100644
--- a/beep/protocol/maccor.py
+++ b/beep/protocol/maccor.py
@@ -1490,7 +1490,9 @@ def generate_maccor_waveform_file(df, file_prefix, file_directory, mwf_config=No
 
     df = df.copy()
     if "power" in df.columns:
-        df["power"] = df["power"] / max(abs(df["power"])) * mwf_config["value_scale"]
+        peak = max(abs(df["power"]))
+        if peak > 0:
+            df["power"] = df["power"] / peak * mwf_config["value_scale"]
         df["step_counter"] = df["power"].diff().fillna(0).ne(0).cumsum()
         df = df.groupby("step_counter").agg({"time": "count", "power": "first"})
 
@@ -1506,7 +1508,9 @@ def generate_maccor_waveform_file(df, file_prefix, file_directory, mwf_config=No
         mask = df["power"] <= 0
 
     elif "current" in df.columns:
-        df["current"] = df["current"] / max(abs(df["current"])) * mwf_config["value_scale"]
+        peak = max(abs(df["current"]))
+        if peak > 0:
+            df["current"] = df["current"] / peak * mwf_config["value_scale"]
         df["step_counter"] = df["current"].diff().fillna(0).ne(0).cumsum()
         df = df.groupby("step_counter").agg({"time": "count", "current": "first"})
 
-- 
2.43.0


From ba61c19d26cb0146d42baae66e1c7097003b5935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:12 +0000
Subject: [PATCH 082/109] fix: read comma delimited velocity files

---
 beep/utils/waveform.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/beep/utils/waveform.py b/beep/utils/waveform.py
index cf754aa..cc880a9 100644
--- a/beep/utils/waveform.py
+++ b/beep/utils/waveform.py
@@ -21,7 +21,9 @@ def convert_velocity_to_power_waveform(waveform_file, velocity_units):
     returns
     pd.DataFrame with two columns: time (sec) and power (W). Negative = Discharge
     """
-    df = pd.read_csv(waveform_file, sep="\t", header=0)
+    with open(waveform_file) as f:
+        sep = "\t" if "\t" in f.readline() else ","
+    df = pd.read_csv(waveform_file, sep=sep, header=0)
     df.columns = ["t", "v"]
 
     if velocity_units == "mph":
-- 
2.43.0


From 82fd711543e11b4882963aa8aff6d66e9216e0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:53 +0000
Subject: [PATCH 083/109] fix: leave the command line through the command's
 context

---
 beep/cmd.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index d656905..bcadd57 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -593,7 +593,7 @@ def structure(
 
         except KeyboardInterrupt:
             logging.critical("Keyboard interrupt caught - exiting...")
-            click.Context.exit(1)
+            ctx.exit(1)
 
         except BaseException:
             tbinfo = sys.exc_info()
@@ -808,7 +808,7 @@ def featurize(
                     f"'{fclass_name}' not recognized as BEEP native featurizer "
                     f"or importable module."
                 )
-                click.Context.exit(1)
+                ctx.exit(1)
 
             modname, _, clsname = fclass_name.rpartition('.')
             mod = importlib.import_module(modname)
@@ -816,7 +816,7 @@ def featurize(
 
             if not issubclass(cls, BEEPFeaturizer):
                 logging.critical(f"Class {cls.__name__} is not a subclass of BEEPFeaturizer.")
-                click.Context.exit(1)
+                ctx.exit(1)
             fclass = cls
 
         # check parameter arguments and update with full hyperparameter specifications
@@ -899,7 +899,7 @@ def featurize(
 
             except KeyboardInterrupt:
                 logger.critical("Keyboard interrupt caught - exiting...")
-                click.Context.exit(1)
+                ctx.exit(1)
 
             except BaseException:
                 tbinfo = sys.exc_info()
@@ -1320,7 +1320,7 @@ def train(
             test_errors = None
     except KeyboardInterrupt:
         logging.critical("Keyboard interrupt caught - exiting...")
-        click.Context.exit(1)
+        ctx.exit(1)
     except BaseException:
         tbinfo = sys.exc_info()
         tbfmt = traceback.format_exception(*tbinfo)
@@ -1483,7 +1483,7 @@ def predict(
 
     except KeyboardInterrupt:
         logging.critical("Keyboard interrupt caught - exiting...")
-        click.Context.exit(1)
+        ctx.exit(1)
     except BaseException:
         tbinfo = sys.exc_info()
         tbfmt = traceback.format_exception(*tbinfo)
-- 
2.43.0


From 55cc24a5b5b8637498afcbf6b0fec8797a966b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:53 +0000
Subject: [PATCH 084/109] fix: match s3 keys after local files and keep the
 order of the files

---
 beep/cmd.py | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index bcadd57..ad5d547 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -444,15 +444,12 @@ def structure(
         s3_keys = [o.key for o in s3_objs]
 
         # local files matching globs are pre-expanded by Click
-        s3_keys_matched = []
-        local_files = []
+        matched_files = []
         for maybe_glob in files:
-            # add direct matches
-            if "*" not in maybe_glob:
-                if maybe_glob in s3_keys:
-                    s3_keys_matched.append(maybe_glob)
-                else:
-                    local_files.append(maybe_glob)
+            # add direct matches, local files first
+            if "*" not in maybe_glob or os.path.exists(maybe_glob):
+                on_s3 = maybe_glob in s3_keys and not os.path.exists(maybe_glob)
+                matched_files.append((on_s3, maybe_glob))
             else:
                 # its a glob, and real local globs will
                 # be pre-expanded by click, so the only
@@ -460,24 +457,35 @@ def structure(
                 # globs are invalid/bad paths
                 matching_files = fnmatch.filter(s3_keys, maybe_glob)
                 if matching_files:
-                    s3_keys_matched += matching_files
+                    matched_files += [(True, k) for k in matching_files]
                 else:
-                    local_files.append(maybe_glob)
-
-        logger.info(f"Found {len(s3_keys_matched)} matching files on s3")
-        local_files_from_s3 = []
-        for s3k in s3_keys_matched:
+                    matched_files.append((False, maybe_glob))
+
+        # keep the given order, as output filenames are matched by position
+        n_matched = sum(on_s3 for on_s3, _ in matched_files)
+        logger.info(f"Found {n_matched} matching files on s3")
+        all_files = []
+        sources = {os.path.abspath(f): f for on_s3, f in matched_files if not on_s3}
+        for on_s3, s3k in matched_files:
+            if not on_s3:
+                all_files.append(s3k)
+                continue
             s3k_basename = os.path.basename(s3k)
             pardir = S3_CACHE if s3_use_cache else ctx.obj.cwd
             pardir = os.path.abspath(pardir)
             if not os.path.exists(pardir):
                 os.makedirs(pardir)
             s3k_local_fullname = os.path.join(pardir, s3k_basename)
+            if sources.setdefault(s3k_local_fullname, s3k) != s3k:
+                raise ValueError(
+                    f"Download of '{s3k}' would overwrite the file of "
+                    f"'{sources[s3k_local_fullname]}' at '{s3k_local_fullname}'!"
+                )
             logger.info(f"Fetching {s3k} from {s3_bucket}")
             download_s3_object(s3_bucket, s3k, s3k_local_fullname)
             logger.info(f"Fetched s3 file {s3k_basename} to {s3k_local_fullname}")
-            local_files_from_s3.append(s3k_local_fullname)
-        files = local_files + local_files_from_s3
+            all_files.append(s3k_local_fullname)
+        files = all_files
 
     files = [os.path.abspath(f) for f in files]
 
-- 
2.43.0


From e4da59af1c9e1897bd07dda38cfca7328411a3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:12 +0000
Subject: [PATCH 085/109] fix: refuse to structure several files into one
 output

---
 beep/cmd.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/beep/cmd.py b/beep/cmd.py
index ad5d547..46b9615 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -487,7 +487,10 @@ def structure(
             all_files.append(s3k_local_fullname)
         files = all_files
 
+    # A file named twice (e.g., by two globs) is only processed once
     files = [os.path.abspath(f) for f in files]
+    if output_dir or not output_filenames:
+        files = list(dict.fromkeys(files))
 
     for file in files:
         if not os.path.exists(file):
@@ -526,6 +529,16 @@ def structure(
                 for f in files
             ]
 
+    # No file may be written over another output or an input
+    written = set(os.path.realpath(f) for f in files)
+    for output_file in output_files if not validation_only else []:
+        if os.path.realpath(output_file) in written:
+            raise ValueError(
+                f"Output file '{output_file}' is an input file or the output "
+                f"of more than one input file!"
+            )
+        written.add(os.path.realpath(output_file))
+
     if automatic and not protocol_parameters_dir:
         logger.warning(
             "--automatic was passed but no protocol parameters "
-- 
2.43.0


From d3ccd93be9acfc9b4f75dc5c877019809a37f718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:36 +0000
Subject: [PATCH 086/109] fix: report structured files that cannot be loaded
 and featurize the others

---
 beep/cmd.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index 46b9615..ab47fda 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -864,15 +864,29 @@ def featurize(
         logger.debug(f"Hashing file '{file}' to MD5")
         op_result = {
             "walltime": None,
-            "processed_md5_chksum": md5sum(file),
+            "processed_md5_chksum": None,
+            "traceback": None,
             "featurizers": []
         }
 
-        logger.debug(f"{log_prefix}: Loading processed run '{file}'.")
-        structured_datapath = auto_load_processed(file)
-        logger.debug(f"{log_prefix}: Loaded processed run '{file}' into memory.")
+        structured_datapath = None
+        try:
+            op_result["processed_md5_chksum"] = md5sum(file)
+            logger.debug(f"{log_prefix}: Loading processed run '{file}'.")
+            structured_datapath = auto_load_processed(file)
+            logger.debug(f"{log_prefix}: Loaded processed run '{file}' into memory.")
+        except KeyboardInterrupt:
+            logger.critical("Keyboard interrupt caught - exiting...")
+            ctx.exit(1)
+        except BaseException:
+            tbinfo = sys.exc_info()
+            logger.error(f"{log_prefix}: Could not be loaded: ({tbinfo[0].__name__}): {file}")
+            op_result["traceback"] = traceback.format_exception(*tbinfo)
+
+            if ctx.obj.halt_on_error:
+                raise
 
-        for fclass, f_hyperparams in fclass_tuples:
+        for fclass, f_hyperparams in fclass_tuples if structured_datapath else []:
             fclass_name = fclass.__name__
             op_subresult = {
                 "featurizer_name": fclass_name,
-- 
2.43.0


From ac01a993807197ef9638a029e1850f3bf23243b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:36 +0000
Subject: [PATCH 087/109] fix: featurize a file named twice once

---
 beep/cmd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index ab47fda..3dd7f2b 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -773,7 +773,8 @@ def featurize(
         None
 
     """
-    files = [os.path.abspath(f) for f in files]
+    # A file named twice (e.g., by two globs) is only processed once
+    files = list(dict.fromkeys(os.path.abspath(f) for f in files))
 
     n_files = len(files)
     output_dir = os.path.abspath(output_dir) if output_dir else ctx.obj.cwd
-- 
2.43.0


From 4b625c0e8a70fffe0e486495761018f370c6b271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:36 +0000
Subject: [PATCH 088/109] fix: save the auto-named feature matrix in the output
 directory

---
 beep/cmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index 3dd7f2b..f60cd6a 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -965,7 +965,7 @@ def featurize(
         if output_filename:
             output_filename = os.path.abspath(output_filename)
         else:
-            output_filename = os.path.join(ctx.obj.cwd, default_filename)
+            output_filename = os.path.join(output_dir, default_filename)
 
         dumpfn(feature_matrix, output_filename)
         logger.info(f"Feature matrix of size {feature_matrix.matrix.shape} s"
-- 
2.43.0


From 47335be669a93b0d3db7c019c1d31d08f1cc382b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:36 +0000
Subject: [PATCH 089/109] fix: save every intermediate featurizer to a file of
 its own

---
 beep/cmd.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/beep/cmd.py b/beep/cmd.py
index f60cd6a..c91cf23 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -858,6 +858,7 @@ def featurize(
     }
     i = 0
     bfs = []
+    protected_paths = set(files)
     for file in files:
         log_prefix = f"File {i + 1} of {n_files}"
 
@@ -926,6 +927,15 @@ def featurize(
                 if save_intermediates:
                     intermediate_filename = f"{fclass_name}-{os.path.basename(file)}"
                     output_path = os.path.join(output_dir, intermediate_filename)
+                    # the same featurizer with other hyperparameters or a file
+                    # of the same name in another directory
+                    n_same = 0
+                    while output_path in protected_paths:
+                        n_same += 1
+                        output_path = os.path.join(
+                            output_dir, f"{fclass_name}-{n_same}-{os.path.basename(file)}"
+                        )
+                    protected_paths.add(output_path)
                     dumpfn(f, output_path)
                     logger.info(
                         f"{log_prefix}: Featurizer {fclass_name} features for '{file}' written to '{output_path}'")
-- 
2.43.0


From f28aa20a1bfde9e9009f3073330d5d5e67f422f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:25 +0000
Subject: [PATCH 090/109] fix: leave no empty feature matrix behind when no
 features were created

---
 beep/cmd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index c91cf23..7097ada 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -888,7 +888,7 @@ def featurize(
             if ctx.obj.halt_on_error:
                 raise
 
-        for fclass, f_hyperparams in fclass_tuples if structured_datapath else []:
+        for fclass, f_hyperparams in fclass_tuples if structured_datapath is not None else []:
             fclass_name = fclass.__name__
             op_subresult = {
                 "featurizer_name": fclass_name,
@@ -968,6 +968,8 @@ def featurize(
 
     feature_matrix_status = {}
     try:
+        if not bfs:
+            raise BEEPFeaturizationError("No features were created for any file.")
         feature_matrix = BEEPFeatureMatrix(bfs)
         default_filename = f"FeatureMatrix-{datetime.datetime.now().strftime('%Y-%d-%m_%H.%M.%S.%f')}.json.gz"
 
-- 
2.43.0


From 0173d4dbe2bb3bda2718352eee4bbe8e53cb962e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:48 +0000
Subject: [PATCH 091/109] fix: search the alphas given on the command line

---
 beep/cmd.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index 7097ada..c8c4270 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -1122,7 +1122,7 @@ def featurize(
 @click.option(
     "--n-alphas",
     "-an",
-    type=click.FLOAT,
+    type=click.INT,
     help="Number of linearly spaced alphas to explore during "
          "hyperparameter tuning. If not specified, sklearn defaults "
          "are used. Must be specified with --alpha-upper and "
@@ -1297,10 +1297,14 @@ def train(
     )
 
     alpha_params = [alpha_lower, alpha_upper, n_alphas]
-    if any(alpha_params) and not all(alpha_params):
-        alphas = np.linspace(start=alpha_lower, stop=alpha_upper, num=n_alphas)
-    else:
+    if all(p is None for p in alpha_params):
         alphas = None
+    elif any(p is None for p in alpha_params):
+        raise click.UsageError(
+            "--alpha-lower, --alpha-upper and --n-alphas must be specified together."
+        )
+    else:
+        alphas = np.linspace(start=alpha_lower, stop=alpha_upper, num=n_alphas).tolist()
 
     if l1_ratios is not None:
         l1_ratios = [float(l1r) for l1r in l1_ratios.strip().split(",")]
-- 
2.43.0


From 9371f479cb1c7cfe196f91ad2d00e735c2b16a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:48 +0000
Subject: [PATCH 092/109] fix: pass the nan thresholds and l1 ratios of the
 command line to the model

---
 beep/cmd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index c8c4270..2517f8c 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -1310,15 +1310,15 @@ def train(
         l1_ratios = [float(l1r) for l1r in l1_ratios.strip().split(",")]
 
     additional_kwargs = {
-        "train_feature_nan_thresh": train_feature_nan_thresh,
-        "train_sample_nan_thresh": train_sample_nan_thresh,
+        "train_feature_drop_nan_thresh": train_feature_nan_thresh,
+        "train_sample_drop_nan_thresh": train_sample_nan_thresh,
         "predict_sample_nan_thresh": predict_sample_nan_thresh,
         "drop_nan_training_targets": drop_nan_training_targets,
         "impute_strategy": impute_strategy,
         "kfold": kfold,
         "max_iter": max_iter,
         "tol": tol,
-        "l1_ratios": l1_ratios,
+        "l1_ratio": l1_ratios,
         "homogenize_features": homogenize_features,
         "alphas": alphas,
     }
-- 
2.43.0


From c85ab75b4be2acbc2ffa6bb43a10bb1e13ec48ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:48 +0000
Subject: [PATCH 093/109] fix: allow nan training targets to be kept

---
 beep/cmd.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index 2517f8c..6283635 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -1152,8 +1152,7 @@ def featurize(
          "be nan."
 )
 @click.option(
-    "--drop-nan-training-targets",
-    is_flag=True,
+    "--drop-nan-training-targets/--keep-nan-training-targets",
     default=True,
     help="Drop samples containing any nan targets. If False and "
          "the targets matrix has nan targets, the command will fail."
-- 
2.43.0


From 2be545b9a433fde2dfd7853935088bed48f1ab04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:48 +0000
Subject: [PATCH 094/109] fix: describe the nan thresholds of training the way
 they work

---
 beep/cmd.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index 6283635..352f36d 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -1133,16 +1133,16 @@ def featurize(
     type=click.FLOAT,
     help="Threshold to keep a feature in the training dataset, in "
          "fraction of samples which must not be nan from 0-1. "
-         "0 = any feature having any nan is dropped, 1 = no "
-         "features are dropped."
+         "0 = no features are dropped, 1 = any feature having "
+         "any nan is dropped."
 )
 @click.option(
     "--train-sample-nan-thresh",
     type=click.FLOAT,
     help="Threshold to keep a sample from the training data, in "
          "fraction of features which must not be nan "
-         "from 0-1. 0 = any sample having any "
-         "nan feature is dropped, 1 = no samples are dropped."
+         "from 0-1. 0 = no samples are dropped, 1 = any sample "
+         "having any nan feature is dropped."
 )
 @click.option(
     "--predict-sample-nan-thresh",
-- 
2.43.0


From 694baf6d1ed05f83a87dcf6e1b73c43e0d3b8d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:48 +0000
Subject: [PATCH 095/109] fix: report the results of training on all data

---
 beep/cmd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beep/cmd.py b/beep/cmd.py
index 352f36d..2888cd2 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -1369,6 +1369,8 @@ def train(
             logger.info("Beginning training on all available data")
             model, training_errors = blme.train()
             test_errors = None
+            status_json["model_results"]["training_error"] = training_errors
+            status_json["model_results"]["optimal_hyperparameters"] = blme.optimal_hyperparameters
     except KeyboardInterrupt:
         logging.critical("Keyboard interrupt caught - exiting...")
         ctx.exit(1)
-- 
2.43.0


From 79f8a9586fce107683029edb8266d6f9145aba96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:48 +0000
Subject: [PATCH 096/109] fix: let a prediction threshold of zero override the
 model's

---
 beep/cmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index 2888cd2..bf9dc59 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -1520,7 +1520,7 @@ def predict(
 
         # Optionally override the previously set sample nan thresh
         # for prediction dataframes
-        if predict_sample_nan_thresh:
+        if predict_sample_nan_thresh is not None:
             model.predict_sample_nan_thresh = predict_sample_nan_thresh
 
         logging.debug(
-- 
2.43.0


From fb3453bfd4609cf19cd4b8ad4b357f7ab968b423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:48 +0000
Subject: [PATCH 097/109] fix: report the protocols that were not generated

---
 beep/cmd.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index bf9dc59..f9f07ab 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -1635,7 +1635,7 @@ def protocol(
     output_files, failures, result, message = [], [], "", {}
     try:
         results = generate_protocol_files_from_csv(csv_file, output_directory=output_dir)
-        output_files, file_generation_failures, result, message = results
+        output_files, failures, result, message = results
 
         if result == "error" or failures:
             msg = message["comment"]
@@ -1648,13 +1648,17 @@ def protocol(
         tbfmt = traceback.format_exception(*tbinfo)
         logger.error(f"Protocol generation failed with : ({tbinfo[0].__name__})")
         status_json["traceback"] = tbfmt
+
+        if ctx.obj.halt_on_error:
+            raise
     t1 = time.time()
 
     for of in output_files:
         status_json["protocol"][of] = {"generated": True}
 
-    for f in failures:
-        status_json["protocol"][f] = {"generated": False}
+    for i, f in enumerate(failures):
+        failure_name = f"{f['comment']} (failure {i + 1} of {len(failures)})"
+        status_json["protocol"][failure_name] = {"generated": False, "error": f["error"]}
 
     status_json["walltime"] = t1 - t0
     status_json = add_metadata_to_status_json(status_json, ctx.obj.run_id, ctx.obj.tags)
-- 
2.43.0


From fd7466ca294fd11845c1d40c7a793b87d0051068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:45 +0000
Subject: [PATCH 098/109] fix: a reloaded data set lists its targets in the
 order of its features

---
 beep/prediction/beep_data_splitter.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/beep/prediction/beep_data_splitter.py b/beep/prediction/beep_data_splitter.py
index 1e5c9df..a59cf5a 100644
--- a/beep/prediction/beep_data_splitter.py
+++ b/beep/prediction/beep_data_splitter.py
@@ -53,10 +53,13 @@ class BEEPDataset(MSONable):
 
     @classmethod
     def from_dict(cls, d):
-        dataset = cls(pd.DataFrame.from_dict(d["train_X"]), pd.DataFrame.from_dict(
-            d["train_y"]), pd.DataFrame.from_dict(d["test_X"]), pd.DataFrame.from_dict(d["test_y"]))
+        frames = []
+        for name in ("train_X", "train_y", "test_X", "test_y"):
+            frame = pd.DataFrame.from_dict(d[name])
+            # pandas sorts the samples of a table that has a single column
+            frames.append(frame.reindex(list(next(iter(d[name].values()), []))))
 
-        return dataset
+        return cls(*frames)
 
 
 class BEEPDataSplitter(MSONable):
-- 
2.43.0


From d442d67e9e93402d019273e0c2bef58d3d8b1943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:28 +0000
Subject: [PATCH 099/109] fix: fit synthetic cells on dQdV when that is the
 error type

---
 beep/features/intracell_analysis_v2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/features/intracell_analysis_v2.py b/beep/features/intracell_analysis_v2.py
index 4c19e3a..58fa5d2 100644
--- a/beep/features/intracell_analysis_v2.py
+++ b/beep/features/intracell_analysis_v2.py
@@ -798,7 +798,7 @@ class IntracellAnalysisV2:
             elif error_type == 'dVdQ':
                 return self._get_error_from_degradation_matching_dvdq(x, *params)[0]
             elif error_type == 'dQdV':
-                return self._get_error_from_degradation_matching_dvdq(x, *params)[0]
+                return self._get_error_from_degradation_matching_dqdv(x, *params)[0]
             else:
                 return self._get_error_from_degradation_matching_v_q(x, *params)[0]
         except RuntimeError:
-- 
2.43.0


From 552905f7b917905b05ca1e8e253a777966ebe7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:13 +0000
Subject: [PATCH 100/109] fix: IntracellFeatures needs two diagnostics to
 validate

---
 beep/features/intracell_losses.py    | 17 +++++++++++++++++
 beep/features/intracell_losses_v2.py | 17 +++++++++++++++++
 2 files changed, 34 insertions(+)

diff --git a/beep/features/intracell_losses.py b/beep/features/intracell_losses.py
index e8ce774..feaca8f 100644
--- a/beep/features/intracell_losses.py
+++ b/beep/features/intracell_losses.py
@@ -142,6 +142,23 @@ class IntracellFeatures(IntracellCycles):
             and code used to produce features
     """
 
+    def validate(self):
+        """
+        In addition to the requirements of IntracellCycles, two diagnostics are needed.
+
+        Returns:
+            bool: True/False indication of ability to proceed with feature generation
+        """
+        val, msg = super().validate()
+        if val:
+            eol_cycle_index_list = self.datapath.diagnostic_summary[
+                (self.datapath.diagnostic_summary.cycle_type == self.hyperparameters["diagnostic_cycle_type"]) &
+                (self.datapath.diagnostic_summary.discharge_capacity > IntracellAnalysis.THRESHOLD)
+                ].cycle_index.to_list()
+            if len(eol_cycle_index_list) < 2:
+                return False, "Fewer than two diagnostics of matching cycle type above threshold"
+        return val, msg
+
     def create_features(self):
         """
         Args:
diff --git a/beep/features/intracell_losses_v2.py b/beep/features/intracell_losses_v2.py
index ab0413d..3adb047 100644
--- a/beep/features/intracell_losses_v2.py
+++ b/beep/features/intracell_losses_v2.py
@@ -157,6 +157,23 @@ class IntracellFeaturesV2(IntracellCyclesV2):
             and code used to produce features
     """
 
+    def validate(self):
+        """
+        In addition to the requirements of IntracellCyclesV2, two diagnostics are needed.
+
+        Returns:
+            bool: True/False indication of ability to proceed with feature generation
+        """
+        val, msg = super().validate()
+        if val:
+            eol_cycle_index_list = self.datapath.diagnostic_summary[
+                (self.datapath.diagnostic_summary.cycle_type == self.hyperparameters["diagnostic_cycle_type"]) &
+                (self.datapath.diagnostic_summary.discharge_capacity > IntracellAnalysisV2.THRESHOLD)
+                ].cycle_index.to_list()
+            if len(eol_cycle_index_list) < 2:
+                return False, "Fewer than two diagnostics of matching cycle type above threshold"
+        return val, msg
+
     def create_features(self):
         """
         Args:
-- 
2.43.0


From 57389d6d740d0ca2206372938341397fe9cf6630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:24 +0000
Subject: [PATCH 101/109] fix: list projects whose folder has pages without
 files

---
 beep/utils/project_transfer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beep/utils/project_transfer.py b/beep/utils/project_transfer.py
index 384583b..ab09ac3 100644
--- a/beep/utils/project_transfer.py
+++ b/beep/utils/project_transfer.py
@@ -63,7 +63,8 @@ class ProjectTransfer:
         paginator = client.get_paginator("list_objects_v2")
         result = paginator.paginate(Bucket=bucket, Delimiter="/", Prefix=prefix)
         for response in result:
-            object_names = object_names + response["Contents"]
+            # pages that hold no files have no "Contents"
+            object_names = object_names + response.get("Contents", [])
         return object_names
 
     def download_and_modify(self, object_names):
-- 
2.43.0


From 56dc63ff66ea1f38dd7284f21a9a0adef6030fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:24 +0000
Subject: [PATCH 102/109] fix: upload transferred files whole and with their
 bytes unchanged

---
 beep/utils/project_transfer.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/beep/utils/project_transfer.py b/beep/utils/project_transfer.py
index ab09ac3..6289f31 100644
--- a/beep/utils/project_transfer.py
+++ b/beep/utils/project_transfer.py
@@ -84,15 +84,19 @@ class ProjectTransfer:
                 s3.download_file(
                     self.bucket, object_name, os.path.join(scratch_dir, name)
                 )
-                from_file = open(os.path.join(scratch_dir, name))
-                line = from_file.readline()
-                line = line.replace(self.input_project, self.output_project)
                 to_file_name = os.path.join(
                     scratch_dir, name.replace(self.input_project, self.output_project)
                 )
-                to_file = open(to_file_name, "w")
-                to_file.write(line)
-                shutil.copyfileobj(from_file, to_file)
+                # The copy has to be closed, i.e. complete on disk, before it is uploaded;
+                # bytes keep line endings and any encoding as they are
+                with open(os.path.join(scratch_dir, name), "rb") as from_file, \
+                        open(to_file_name, "wb") as to_file:
+                    line = from_file.readline()
+                    line = line.replace(
+                        self.input_project.encode(), self.output_project.encode()
+                    )
+                    to_file.write(line)
+                    shutil.copyfileobj(from_file, to_file)
                 if self.dry_run:
                     output_bucket = "beep-sync-test-stage"
                 else:
-- 
2.43.0


From 66d6b7beeeed3773dac381d37dc3181ae1c3d696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:24 +0000
Subject: [PATCH 103/109] fix: inspect names the featurizer file it shows

---
 beep/cmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index f9f07ab..e38a0cc 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -1749,7 +1749,7 @@ def inspect(file):
                 print("\tNo object.")
 
     elif isinstance(o, BEEPFeaturizer):
-        print("\n\nBEEP Featurizer: {file}\n\n")
+        print(f"\n\nBEEP Featurizer: {file}\n\n")
 
         print("\nFile paths:")
         pprint.pprint(o.paths)
-- 
2.43.0


From 9e85ba6b117a1b67cd566783ba9ea145d7f59e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:00 +0000
Subject: [PATCH 104/109] fix: write the log file as JSON lines

---
 beep/__init__.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/beep/__init__.py b/beep/__init__.py
index 08c1639..00e49d3 100644
--- a/beep/__init__.py
+++ b/beep/__init__.py
@@ -4,6 +4,7 @@ Top-level module for beep.  Put anything that should
 be available in the beep namespace here.
 """
 import os
+import json
 import logging
 import sys
 from functools import partial
@@ -30,13 +31,22 @@ if VERSION_TAG is not None:
 tqdm = partial(_tqdm, disable=bool(os.environ.get("TQDM_OFF")))
 
 
-JSON_LOG_FMT = {"fmt": (
-    '{"time": "%(asctime)s", "level": "%(levelname)s", '
-    '"process": "%(process)d", '
-    '"module": "%(module)s", "func": "%(funcName)s", '
-    '"msg": "%(message)s"}'
-)
-}
+class JSONLinesFormatter(logging.Formatter):
+    """Formats each log record as one line of JSON."""
+
+    def format(self, record):
+        entry = {
+            "time": self.formatTime(record),
+            "level": record.levelname,
+            "process": str(record.process),
+            "module": record.module,
+            "func": record.funcName,
+            "msg": record.getMessage(),
+        }
+        if record.exc_info:
+            entry["exc"] = self.formatException(record.exc_info)
+        return json.dumps(entry)
+
 
 HUMAN_LOG_FMT = {
     "fmt": "%(asctime)s %(levelname)-8s %(message)s",
@@ -69,7 +79,7 @@ logger = logging.getLogger("beep")
 logger.handlers = []
 logger.filters = []
 formatter_stdout = logging.Formatter(**HUMAN_LOG_FMT)
-formatter_jsonl = logging.Formatter(**JSON_LOG_FMT)
+formatter_jsonl = JSONLinesFormatter()
 
 # Stdout log will always be enabled
 hdlr = logging.StreamHandler(sys.stdout)
-- 
2.43.0


From 5ab0f9ddadd7d7b09ecaa004ad6349210c986cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:14 +0000
Subject: [PATCH 105/109] fix: structure and featurize never write the feature
 matrix or the status file over an input or another output

---
 beep/cmd.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index e38a0cc..8421cd6 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -531,7 +531,8 @@ def structure(
 
     # No file may be written over another output or an input
     written = set(os.path.realpath(f) for f in files)
-    for output_file in output_files if not validation_only else []:
+    status_files = [ctx.obj.output_status_json] if ctx.obj.output_status_json else []
+    for output_file in (output_files if not validation_only else []) + status_files:
         if os.path.realpath(output_file) in written:
             raise ValueError(
                 f"Output file '{output_file}' is an input file or the output "
@@ -781,6 +782,15 @@ def featurize(
 
     logger.info(f"Featurizing {n_files} files")
 
+    # No file may be written over another output or an input
+    protected_paths = set(files)
+    input_files = set(os.path.realpath(f) for f in files)
+    for output_file in filter(None, (output_filename, ctx.obj.output_status_json)):
+        if os.path.realpath(output_file) in input_files:
+            raise ValueError(f"Output file '{output_file}' is an input file or another output!")
+        input_files.add(os.path.realpath(output_file))
+        protected_paths.add(os.path.abspath(output_file))
+
     core_fclasses_feats = [
         HPPCResistanceVoltageFeatures,
         DeltaQFastCharge,
@@ -858,7 +868,6 @@ def featurize(
     }
     i = 0
     bfs = []
-    protected_paths = set(files)
     for file in files:
         log_prefix = f"File {i + 1} of {n_files}"
 
-- 
2.43.0


From 8936e3739324002400f09bbce1dc3038d42beba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:19 +0000
Subject: [PATCH 106/109] fix: Maccor impedance spectra can be saved and loaded
 again

---
 beep/structure/base_eis.py | 19 ++++++++++++++++---
 beep/structure/maccor.py   |  9 +++++++++
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/beep/structure/base_eis.py b/beep/structure/base_eis.py
index e69ed5f..ad723df 100644
--- a/beep/structure/base_eis.py
+++ b/beep/structure/base_eis.py
@@ -61,7 +61,8 @@ class EIS(MSONable):
             "@module": self.__class__.__module__,
             "@class": self.__class__.__name__,
             "data": self.data.to_dict("list"),
-            "metadata": self.metadata.to_dict()
+            # some cyclers hold their metadata as a plain dictionary
+            "metadata": self.metadata.to_dict("list") if isinstance(self.metadata, pd.DataFrame) else self.metadata
         }
 
     @classmethod
@@ -77,8 +78,20 @@ class EIS(MSONable):
         """
         data = pd.DataFrame(d["data"])
         data = data.sort_index()
-        metadata = pd.DataFrame(d["metadata"])
-        return cls(data, metadata)
+        return cls(data, cls._load_metadata(d["metadata"]))
+
+    @staticmethod
+    def _load_metadata(metadata):
+        """Metadata of the form the class holds, from its serialized form.
+
+        Args:
+            metadata ({}): the "metadata" of the dictionary representation.
+
+        Returns:
+            (pd.DataFrame)
+
+        """
+        return pd.DataFrame(metadata)
 
 
 class BEEPDatapathWithEIS(BEEPDatapath):
diff --git a/beep/structure/maccor.py b/beep/structure/maccor.py
index 6e8e4f0..0a52b1b 100644
--- a/beep/structure/maccor.py
+++ b/beep/structure/maccor.py
@@ -68,6 +68,11 @@ class MaccorDatapath(BEEPDatapathWithEIS):
             data = pd.read_csv(StringIO(data), delimiter="\t")
             return cls(data=data, metadata=metadata)
 
+        @staticmethod
+        def _load_metadata(metadata):
+            """Maccor EIS metadata is a dictionary."""
+            return metadata
+
     @classmethod
     def from_file(cls, path):
         """Create a MaccorDatapath file from a Maccor cycler run raw file.
@@ -334,3 +339,7 @@ class MaccorDatapath(BEEPDatapathWithEIS):
             substrings.append(init)
         substrings.append(leftovers)
         return substrings
+
+
+# Importable by module and class name, which loading a saved spectrum needs
+MaccorEIS = MaccorDatapath.MaccorEIS
-- 
2.43.0


From 15daab10dbd76073a9ce302710b259aa148a13a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:19 +0000
Subject: [PATCH 107/109] fix: impedance runs are found whatever characters the
 folder's name has

---
 beep/structure/maccor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beep/structure/maccor.py b/beep/structure/maccor.py
index 0a52b1b..da4269e 100644
--- a/beep/structure/maccor.py
+++ b/beep/structure/maccor.py
@@ -2,7 +2,7 @@
 """
 import os
 from datetime import datetime
-from glob import glob
+from glob import escape, glob
 
 import pandas as pd
 import numpy as np
@@ -163,7 +163,7 @@ class MaccorDatapath(BEEPDatapathWithEIS):
         if not paths:
             # todo: replace with logging
             print(f"Looking in directory {self.paths['raw']} for EIS runs, as no paths specified to `load_eis`.")
-            eis_pattern = ".*.".join(self.paths["raw"].rsplit(".", 1))
+            eis_pattern = ".*.".join(escape(self.paths["raw"]).rsplit(".", 1))
             paths = glob(eis_pattern)
 
         eis_runs = []
-- 
2.43.0


From ed6e62c7bb43e94ebe2180442a2b5ed11e642c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:21 +0000
Subject: [PATCH 108/109] fix: the folder a raw file is in does not decide
 which cycler it is read as

---
 beep/structure/cli.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/beep/structure/cli.py b/beep/structure/cli.py
index df2e6b7..209aeb9 100644
--- a/beep/structure/cli.py
+++ b/beep/structure/cli.py
@@ -15,6 +15,7 @@
 
 """
 
+import os
 import re
 
 from monty.serialization import loadfn
@@ -58,17 +59,20 @@ def auto_load(filename):
         (beep.structure.base.BEEPDatapath): The datapath child class corresponding to this file.
 
     """
-    if re.match(ARBIN_CONFIG["file_pattern"], filename) or re.match(FastCharge_CONFIG["file_pattern"], filename):
+    # the patterns describe names of files, not of the directories files are in
+    name = os.path.basename(filename)
+
+    if re.match(ARBIN_CONFIG["file_pattern"], name) or re.match(FastCharge_CONFIG["file_pattern"], name):
         return ArbinDatapath.from_file(filename)
-    elif re.match(MACCOR_CONFIG["file_pattern"], filename) or re.match(xTesladiag_CONFIG["file_pattern"], filename):
+    elif re.match(MACCOR_CONFIG["file_pattern"], name) or re.match(xTesladiag_CONFIG["file_pattern"], name):
         return MaccorDatapath.from_file(filename)
-    elif re.match(INDIGO_CONFIG["file_pattern"], filename):
+    elif re.match(INDIGO_CONFIG["file_pattern"], name):
         return IndigoDatapath.from_file(filename)
-    elif re.match(BIOLOGIC_CONFIG["file_pattern"], filename):
+    elif re.match(BIOLOGIC_CONFIG["file_pattern"], name):
         return BiologicDatapath.from_file(filename)
-    elif re.match(NEWARE_CONFIG["file_pattern"], filename):
+    elif re.match(NEWARE_CONFIG["file_pattern"], name):
         return NewareDatapath.from_file(filename)
-    elif re.match(BatteryArchiveDatapath.FILE_PATTERN, filename):
+    elif re.match(BatteryArchiveDatapath.FILE_PATTERN, name):
         return BatteryArchiveDatapath.from_file(filename)
     else:
         raise ValueError("{} does not match any known file pattern".format(filename))
-- 
2.43.0


From fc02366ed7e733cf41952a3390fbd23a90cd1136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:21 +0000
Subject: [PATCH 109/109] fix: metadata of Arbin and Biologic records is found
 whatever the folder's name

---
 beep/structure/arbin.py    | 5 +++--
 beep/structure/biologic.py | 4 +++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/beep/structure/arbin.py b/beep/structure/arbin.py
index 5b5f903..9ae9986 100644
--- a/beep/structure/arbin.py
+++ b/beep/structure/arbin.py
@@ -52,8 +52,9 @@ class ArbinDatapath(BEEPDatapath):
 
         data.rename(cls.conversion_config["data_columns"], axis="columns", inplace=True)
 
-        metadata_path = metadata_path if metadata_path else path.replace(".csv",
-                                                                         "_Metadata.csv")
+        metadata_path = metadata_path if metadata_path else os.path.join(
+            os.path.dirname(path), os.path.basename(path).replace(".csv", "_Metadata.csv")
+        )
 
         if os.path.exists(metadata_path):
             metadata = pd.read_csv(metadata_path)
diff --git a/beep/structure/biologic.py b/beep/structure/biologic.py
index 8808288..561fcf6 100644
--- a/beep/structure/biologic.py
+++ b/beep/structure/biologic.py
@@ -119,7 +119,9 @@ class BiologicDatapath(BEEPDatapath):
         data["data_point"] = list(range(1, len(raw["cycle number"]) + 1))
 
         data = pd.DataFrame(data)
-        metadata_path = path.replace(".csv", ".mpl")
+        metadata_path = os.path.join(
+            os.path.dirname(path), os.path.basename(path).replace(".csv", ".mpl")
+        )
         metadata = cls.parse_metadata(metadata_path)
         metadata["filename"] = path
         metadata["_today_datetime"] = datetime.now().strftime("%Y-%m-%d %H:%M:%S")
-- 
2.43.0


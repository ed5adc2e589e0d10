From 39625d509ddc38ee88a4df6fa6c4c3e198af733c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:32 +0000
Subject: [PATCH 01/65] fix: store config where reader looks for it
 (data-group)

---
 shepherd_core/shepherd_core/writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/writer.py b/shepherd_core/shepherd_core/writer.py
index 7f36874..3336699 100644
--- a/shepherd_core/shepherd_core/writer.py
+++ b/shepherd_core/shepherd_core/writer.py
@@ -371,7 +371,7 @@ class Writer(Reader):
         TODO: use data-model?
         :param data: from virtual harvester or converter / source.
         """
-        self.h5file.attrs["config"] = yaml.safe_dump(
+        self.h5file["data"].attrs["config"] = yaml.safe_dump(
             data, default_flow_style=False, sort_keys=False
         )
 
-- 
2.43.0


From dee841f4e48a7f427c59b5dc3820ad202958b16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:33 +0000
Subject: [PATCH 02/65] fix: sample-interval spans n-1 intervals for n samples

---
 shepherd_core/shepherd_core/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index 29bff8c..19e04eb 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -179,7 +179,7 @@ class Reader:
         if (sample_count > 0) and (duration_raw > 0):
             # this assumes iso-chronous sampling
             duration_s = self._cal.time.raw_to_si(duration_raw)
-            self.sample_interval_s = duration_s / sample_count
+            self.sample_interval_s = duration_s / (sample_count - 1)
             self.sample_interval_ns = round(10**9 * self.sample_interval_s)
             self.samplerate_sps = max(round((sample_count - 1) / duration_s), 1)
         self.runtime_s = round(self.ds_voltage.shape[0] / self.samplerate_sps, 1)
-- 
2.43.0


From 2aa99a4eaf3fad1f73cedce1d3287659bc0d8339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:10 +0000
Subject: [PATCH 03/65] fix: writer checks a request completely before altering
 attributes

---
 shepherd_core/shepherd_core/writer.py | 37 +++++++++++++--------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/shepherd_core/shepherd_core/writer.py b/shepherd_core/shepherd_core/writer.py
index 3336699..f871fdf 100644
--- a/shepherd_core/shepherd_core/writer.py
+++ b/shepherd_core/shepherd_core/writer.py
@@ -153,12 +153,10 @@ class Writer(Reader):
             msg = f"Can't handle mode '{mode}' (choose one of {self.mode_dtype_dict})"
             raise ValueError(msg)
 
-        if mode is not None:
-            self.h5file.attrs["mode"] = mode
-        if "mode" not in self.h5file.attrs:
-            self.h5file.attrs["mode"] = self.mode_default
+        if mode is None:
+            mode = self.h5file.attrs.get("mode", self.mode_default)
 
-        _dtypes = self.mode_dtype_dict[self.get_mode()]
+        _dtypes = self.mode_dtype_dict[mode]
 
         # Handle Datatype
         if isinstance(datatype, str):
@@ -167,25 +165,26 @@ class Writer(Reader):
             msg = f"Can't handle value '{datatype}' of datatype (choose one of {_dtypes})"
             raise ValueError(msg)
 
-        if isinstance(datatype, EnergyDType):
-            self.h5file["data"].attrs["datatype"] = datatype.name
-        if "datatype" not in self.h5file["data"].attrs:
-            self.h5file["data"].attrs["datatype"] = self.datatype_default.name
-        if self.get_datatype() not in _dtypes:
-            msg = (
-                f"Can't handle value '{self.get_datatype()}' of datatype (choose one of {_dtypes})"
-            )
+        _dtype = datatype
+        if not isinstance(_dtype, EnergyDType):
+            _dtype = self.datatype_default
+            if "datatype" in self.h5file["data"].attrs:
+                _dtype = self.get_datatype()
+        if _dtype not in _dtypes:
+            msg = f"Can't handle value '{_dtype}' of datatype (choose one of {_dtypes})"
             raise ValueError(msg)
 
         # Handle Window_samples
-        if window_samples is not None:
-            self.h5file["data"].attrs["window_samples"] = window_samples
-        if "window_samples" not in self.h5file["data"].attrs:
-            self.h5file["data"].attrs["window_samples"] = 0
-
-        if datatype == EnergyDType.ivcurve and self.get_window_samples() < 1:
+        if window_samples is None:
+            window_samples = self.get_window_samples()
+        if datatype == EnergyDType.ivcurve and window_samples < 1:
             raise ValueError("Window Size argument needed for ivcurve-Datatype")
 
+        # only write after all checks passed -> a refused request leaves existing files unaltered
+        self.h5file.attrs["mode"] = mode
+        self.h5file["data"].attrs["datatype"] = _dtype.name
+        self.h5file["data"].attrs["window_samples"] = window_samples
+
         # Handle Cal
         if isinstance(cal_data, (CalEmu, CalHrv)):
             cal_data = CalSeries.from_cal(cal_data)
-- 
2.43.0


From 5d69071ba6f553fc82d709f443c523f331d6c1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:29 +0000
Subject: [PATCH 04/65] fix: time-step check handles recordings with less than
 two buffers

---
 shepherd_core/shepherd_core/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index 19e04eb..c896d58 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -565,7 +565,7 @@ class Reader:
             self._logger.warning(
                 "Time-jumps detected -> expected equal steps, but got: %s s", diffs
             )
-        return (len(diffs) <= 1) and diffs[0] == round(0.1 / self.samples_per_buffer, 6)
+        return all(diff == round(0.1 / self.samples_per_buffer, 6) for diff in diffs)
 
     def count_errors_in_log(self, group_name: str = "sheep", min_level: int = 40) -> int:
         if group_name not in self.h5file:
-- 
2.43.0


From c19956565bc1025078e7b0ceafae768b7878af76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:29 +0000
Subject: [PATCH 05/65] fix: time-step check covers transition between
 processed chunks

---
 shepherd_core/shepherd_core/reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index c896d58..8695607 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -539,8 +539,9 @@ class Reader:
         )
 
         def calc_timediffs(idx_start: int) -> list:
+            # include first timestamp of next chunk to also cover the transition
             ds_time = self.ds_time[
-                idx_start : (idx_start + self.max_elements) : self.samples_per_buffer
+                idx_start : (idx_start + self.max_elements + 1) : self.samples_per_buffer
             ]
             diffs_np = np.unique(ds_time[1:] - ds_time[0:-1], return_counts=False)
             return list(np.array(diffs_np))
-- 
2.43.0


From dc77559d2435561269ece33052a436373d0afa48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:29 +0000
Subject: [PATCH 06/65] fix: time-differences must not include offset of
 time-calibration

---
 shepherd_core/shepherd_core/reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index 8695607..34372ca 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -178,7 +178,7 @@ class Reader:
         # above's typecasting prevents overflow in u64-format
         if (sample_count > 0) and (duration_raw > 0):
             # this assumes iso-chronous sampling
-            duration_s = self._cal.time.raw_to_si(duration_raw)
+            duration_s = float(duration_raw * self._cal.time.gain)
             self.sample_interval_s = duration_s / (sample_count - 1)
             self.sample_interval_ns = round(10**9 * self.sample_interval_s)
             self.samplerate_sps = max(round((sample_count - 1) / duration_s), 1)
@@ -548,7 +548,7 @@ class Reader:
 
         diffs_ll = [calc_timediffs(i) for i in job_iter]
         diffs = {
-            round(self._cal.time.raw_to_si(j) / self.samples_per_buffer, 6)
+            round(float(j * self._cal.time.gain) / self.samples_per_buffer, 6)
             for i in diffs_ll
             for j in i
         }
-- 
2.43.0


From 27a1e5020c48a8ceeb572df8563c37dbedaeb0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:02 +0000
Subject: [PATCH 07/65] fix: downsampling keeps alignment between processed
 blocks

---
 shepherd_data/shepherd_data/reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shepherd_data/shepherd_data/reader.py b/shepherd_data/shepherd_data/reader.py
index 16e75e6..84667ec 100644
--- a/shepherd_data/shepherd_data/reader.py
+++ b/shepherd_data/shepherd_data/reader.py
@@ -203,7 +203,8 @@ class Reader(CoreReader):
         if data_len == 0:
             self._logger.warning("downsampling failed because of data_len = 0")
             return data_dst
-        iblock_len = min(self.max_elements, data_len)
+        # blocks hold whole multiples of ds_factor to keep alignment between them
+        iblock_len = min(max(1, self.max_elements // ds_factor) * ds_factor, data_len)
         oblock_len = round(iblock_len / ds_factor)
         iterations = math.ceil(data_len / iblock_len)
         dest_len = math.floor(data_len / ds_factor)
-- 
2.43.0


From 4d447cc60c379f1d6e637eec848b45ebaecdb9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:02 +0000
Subject: [PATCH 08/65] fix: downsampling into a provided numpy-array

---
 shepherd_data/shepherd_data/reader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/shepherd_data/shepherd_data/reader.py b/shepherd_data/shepherd_data/reader.py
index 84667ec..3ad231f 100644
--- a/shepherd_data/shepherd_data/reader.py
+++ b/shepherd_data/shepherd_data/reader.py
@@ -210,7 +210,9 @@ class Reader(CoreReader):
         dest_len = math.floor(data_len / ds_factor)
         if data_dst is None:
             data_dst = np.empty((dest_len,))
-        elif isinstance(data_dst, (h5py.Dataset, np.ndarray)):
+        elif isinstance(data_dst, np.ndarray):
+            data_dst.resize((dest_len,), refcheck=False)
+        elif isinstance(data_dst, h5py.Dataset):
             data_dst.resize((dest_len,))
 
         # 8th order butterworth filter for downsampling
-- 
2.43.0


From 3d67887387b1059f9e32d3adc13bff6f7e01891f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:02 +0000
Subject: [PATCH 09/65] fix: result of fractional downsampling is labeled with
 the factor actually used

---
 shepherd_data/shepherd_data/reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shepherd_data/shepherd_data/reader.py b/shepherd_data/shepherd_data/reader.py
index 3ad231f..4ab45f8 100644
--- a/shepherd_data/shepherd_data/reader.py
+++ b/shepherd_data/shepherd_data/reader.py
@@ -286,6 +286,7 @@ class Reader(CoreReader):
                 "Cut & downsample for %s failed because factor < 1",
                 self.file_path.name,
             )
+        ds_factor = math.floor(ds_factor)  # only whole factors are possible, see downsample()
         if ((end_sample - start_sample) / ds_factor) < 1000:
             raise ValueError(
                 "Cut & downsample for %s failed because resulting sample-size is too small",
@@ -300,7 +301,7 @@ class Reader(CoreReader):
         else:
             cut_str = ""
 
-        ds_str = f".downsample_x{round(ds_factor)}" if ds_factor > 1 else ""
+        ds_str = f".downsample_x{ds_factor}" if ds_factor > 1 else ""
 
         dst_file = self.file_path.resolve().with_suffix(cut_str + ds_str + ".h5")
         if dst_file.exists():
-- 
2.43.0


From 168b84cb68cc5b85c4e55154a3795a0dd43430d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:02 +0000
Subject: [PATCH 10/65] fix: downsampling to a sample-rate determines factor
 for each file

---
 shepherd_data/shepherd_data/cli.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/shepherd_data/shepherd_data/cli.py b/shepherd_data/shepherd_data/cli.py
index 166595e..46e2d8c 100644
--- a/shepherd_data/shepherd_data/cli.py
+++ b/shepherd_data/shepherd_data/cli.py
@@ -330,11 +330,12 @@ def downsample(
     for file in files:
         try:
             with Reader(file, verbose=verbose_level > 2) as shpr:
-                if ds_factor is None and sample_rate is not None and sample_rate >= 1:
-                    ds_factor = shpr.samplerate_sps / sample_rate
+                ds_file = ds_factor
+                if ds_file is None and sample_rate is not None and sample_rate >= 1:
+                    ds_file = shpr.samplerate_sps / sample_rate
 
-                if isinstance(ds_factor, (float, int)) and ds_factor >= 1:
-                    ds_list = [ds_factor]
+                if isinstance(ds_file, (float, int)) and ds_file >= 1:
+                    ds_list = [ds_file]
                 else:
                     ds_list = [5, 25, 100, 500, 2_500, 10_000, 50_000, 250_000, 1_000_000]
 
-- 
2.43.0


From 817afc48b7700fc30a88d02dc759603131aa6d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:48 +0000
Subject: [PATCH 11/65] fix: csv-export of columns without stored offset

---
 shepherd_data/shepherd_data/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_data/shepherd_data/reader.py b/shepherd_data/shepherd_data/reader.py
index 4ab45f8..d5eb5e0 100644
--- a/shepherd_data/shepherd_data/reader.py
+++ b/shepherd_data/shepherd_data/reader.py
@@ -78,7 +78,7 @@ class Reader(CoreReader):
                 key: h5_group[key].attrs.get("gain", 1.0) for key in datasets[1:]
             }
             offsets: Dict[str, float] = {
-                key: h5_group[key].attrs.get("offset", 1.0) for key in datasets[1:]
+                key: h5_group[key].attrs.get("offset", 0.0) for key in datasets[1:]
             }
             for idx, time_ns in enumerate(h5_group["time"][:]):
                 timestamp = datetime.fromtimestamp(time_ns * ts_gain, tz=local_tz())
-- 
2.43.0


From cd4bcabb4179a6693589678d85dbcaf0cd2dd2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:48 +0000
Subject: [PATCH 12/65] fix: log-export of groups that contain sub-groups

---
 shepherd_data/shepherd_data/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_data/shepherd_data/reader.py b/shepherd_data/shepherd_data/reader.py
index d5eb5e0..efffecc 100644
--- a/shepherd_data/shepherd_data/reader.py
+++ b/shepherd_data/shepherd_data/reader.py
@@ -109,7 +109,7 @@ class Reader(CoreReader):
         if log_path.exists():
             self._logger.info("File already exists, will skip '%s'", log_path.name)
             return 0
-        datasets = [key if isinstance(h5_group[key], h5py.Dataset) else [] for key in h5_group]
+        datasets = [str(key) for key in h5_group if isinstance(h5_group[key], h5py.Dataset)]
         datasets.remove("time")
         with log_path.open("w", encoding="utf-8-sig") as log_file:
             self._logger.info("Log-Generator will save '%s' to '%s'", h5_group.name, log_path.name)
-- 
2.43.0


From 680a9e5da5fefe0663966724b439bc04fb9ec0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:48 +0000
Subject: [PATCH 13/65] fix: header of waveform-csv uses requested separator

---
 shepherd_core/shepherd_core/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index 34372ca..07a7a15 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -706,7 +706,7 @@ class Reader:
             self._logger.info("File already exists, will skip '%s'", path_csv.name)
             return
         with path_csv.open("w") as csv:
-            csv.write(f"timestamp [s],{pin_name}\n")
+            csv.write(f"timestamp [s]{separator}{pin_name}\n")
             for row in pin_wf:
                 csv.write(f"{row[0] / 1e9}{separator}{int(row[1])}\n")
 
-- 
2.43.0


From be2ed7ebd6646dfd434c5bba119560d3d945674d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:09 +0000
Subject: [PATCH 14/65] fix: structurally broken files get skipped in
 batch-exports

---
 shepherd_data/shepherd_data/cli.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/shepherd_data/shepherd_data/cli.py b/shepherd_data/shepherd_data/cli.py
index 46e2d8c..ee4aa17 100644
--- a/shepherd_data/shepherd_data/cli.py
+++ b/shepherd_data/shepherd_data/cli.py
@@ -157,7 +157,7 @@ def extract(
                 out_file = shpr.cut_and_downsample_to_file(start, end, ds_factor=ds_factor)
                 with Reader(out_file, verbose=verbose_level > 2) as shpd:
                     shpd.save_csv(shpd["data"], separator, raw=raw)
-        except (TypeError, ValueError):
+        except (KeyError, TypeError, ValueError):
             logger.exception("ERROR: Will skip file. It caused an exception.")
 
 
@@ -202,7 +202,7 @@ def extract_meta(in_data: Path, separator: str, *, recurse: bool = False) -> Non
                         # TODO: allow omitting timestamp,
                         #       also test if segmented uart is correctly written
                         shpr.warn_logs(element, show=True)
-        except TypeError:
+        except (KeyError, TypeError, ValueError):
             logger.exception("ERROR: Will skip file. It caused an exception.")
 
 
@@ -243,7 +243,7 @@ def extract_uart(in_data: Path, *, recurse: bool = False) -> None:
                             log_file.write(f"\t{str.encode(line[1])}")
                             # TODO: does this produce "\tb'abc'"?
                             log_file.write("\n")
-        except TypeError:
+        except (KeyError, TypeError, ValueError):
             logger.exception("ERROR: Will skip file. It caused an exception.")
 
 
@@ -273,7 +273,7 @@ def extract_gpio(in_data: Path, separator: str, *, recurse: bool = False) -> Non
                 wfs = shpr.gpio_to_waveforms()
                 for name, wf in wfs.items():
                     shpr.waveform_to_csv(name, wf, separator)
-        except TypeError:
+        except (KeyError, TypeError, ValueError):
             logger.exception("ERROR: Will skip file. It caused an exception.")
 
 
@@ -342,7 +342,7 @@ def downsample(
                 for _factor in ds_list:
                     path_file = shpr.cut_and_downsample_to_file(start, end, _factor)
                     logger.info("Created %s", path_file.name)
-        except (TypeError, ValueError):  # noqa: PERF203
+        except (KeyError, TypeError, ValueError):  # noqa: PERF203
             logger.exception("ERROR: Will skip file. It caused an exception.")
 
 
@@ -421,7 +421,7 @@ def plot(
                     data.append(date)
                 else:
                     shpr.plot_to_file(start, end, width, height, only_pwr=only_power)
-        except TypeError:
+        except (KeyError, TypeError, ValueError):
             logger.exception("ERROR: Will skip file. It caused an exception.")
     if multiplot:
         logger.info("Got %d datasets to plot", len(data))
-- 
2.43.0


From 090726b9a47b8cff8e5142775731c1e2bdb827fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:20 +0000
Subject: [PATCH 15/65] fix: gpio-waveforms of descriptions that name pins by
 string

---
 shepherd_core/shepherd_core/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index 07a7a15..8b0a2e8 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -685,7 +685,7 @@ class Reader:
 
         if name is None:
             descriptions = yaml.safe_load(self.h5file["gpio"]["value"].attrs["description"])
-            pin_dict = {value["name"]: key for key, value in descriptions.items()}
+            pin_dict = {value["name"]: int(key) for key, value in descriptions.items()}
         else:
             pin_dict = {name: self.get_gpio_pin_num(name)}
 
-- 
2.43.0


From 1280904ebd026202ab48f60105220362bf1c102f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:20 +0000
Subject: [PATCH 16/65] fix: gpio-waveforms of recordings without gpio-entries

---
 shepherd_core/shepherd_core/reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index 8b0a2e8..83d63fa 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -672,6 +672,8 @@ class Reader:
         """
         if len(data.shape) > 1:
             raise ValueError("Array must be 1D")
+        if data.size < 1:
+            return np.zeros(0, dtype=bool)
         data_1 = np.concatenate(([not data[0]], data[:-1]))
         return data != data_1
 
-- 
2.43.0


From 265a2379a86f3adc8b5595d6f1366cb309b50a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:20 +0000
Subject: [PATCH 17/65] fix: no waveform for unknown gpio-pins

---
 shepherd_core/shepherd_core/reader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index 83d63fa..ce9a228 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -689,7 +689,10 @@ class Reader:
             descriptions = yaml.safe_load(self.h5file["gpio"]["value"].attrs["description"])
             pin_dict = {value["name"]: int(key) for key, value in descriptions.items()}
         else:
-            pin_dict = {name: self.get_gpio_pin_num(name)}
+            pin_num = self.get_gpio_pin_num(name)
+            if pin_num is None:
+                return waveforms
+            pin_dict = {name: pin_num}
 
         for pin_name, pin_num in pin_dict.items():
             gpio_ps = (gpio_vs[:] & (0b1 << pin_num)) > 0
-- 
2.43.0


From 569455cad9170d5da71eeedf0b3ceea3c550519a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:20 +0000
Subject: [PATCH 18/65] fix: exact names take precedence when looking up
 gpio-pins

---
 shepherd_core/shepherd_core/reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index ce9a228..532d83c 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -659,6 +659,9 @@ class Reader:
         if "gpio" not in self.h5file:
             return None
         descriptions = yaml.safe_load(self.h5file["gpio"]["value"].attrs["description"])
+        for desc_name, desc in descriptions.items():
+            if name == desc["name"]:
+                return int(desc_name)
         for desc_name, desc in descriptions.items():
             if name in desc["name"]:
                 return int(desc_name)
-- 
2.43.0


From da1067ee3bc3fdab5de0c387bd725310178bdff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:26 +0000
Subject: [PATCH 19/65] fix: uart-decoder must not alter waveform of caller

---
 shepherd_core/shepherd_core/decoder_waveform/uart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/decoder_waveform/uart.py b/shepherd_core/shepherd_core/decoder_waveform/uart.py
index c463ea1..fa9ca7d 100644
--- a/shepherd_core/shepherd_core/decoder_waveform/uart.py
+++ b/shepherd_core/shepherd_core/decoder_waveform/uart.py
@@ -72,7 +72,7 @@ class Uart:
             # TODO: if float fails load as str -
             #  cast first col as np.datetime64 with ns-resolution, convert to delta
         else:
-            self.events_sig = content
+            self.events_sig = np.array(content)  # copy, as the data gets altered below
 
         # verify table
         if self.events_sig.shape[1] != 2:
-- 
2.43.0


From c5f8f21263c3ac91a823595b9453f6de0908c7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:26 +0000
Subject: [PATCH 20/65] fix: uart-decoder recovers all data-bits of a frame

---
 shepherd_core/shepherd_core/decoder_waveform/uart.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/shepherd_core/shepherd_core/decoder_waveform/uart.py b/shepherd_core/shepherd_core/decoder_waveform/uart.py
index fa9ca7d..5fa84cb 100644
--- a/shepherd_core/shepherd_core/decoder_waveform/uart.py
+++ b/shepherd_core/shepherd_core/decoder_waveform/uart.py
@@ -214,10 +214,12 @@ class Uart:
         content = []
 
         for time, value, steps in self.events_sig:
-            if steps > self.frame_length:
+            if steps > self.frame_length and (value or round(steps) > self.frame_length + 1):
                 if value:
                     # long pause on High -> reset frame
                     if pos_df is not None:
+                        # remaining bits are part of the pause
+                        symbol += (2 ** (self.frame_length - pos_df) - 1) << pos_df
                         content.append([t_start, chr(symbol)])
                         t_start = None
                         symbol = 0
@@ -232,9 +234,8 @@ class Uart:
                 t_start = time
             if pos_df is not None:
                 if round(steps) >= 1 and value:
-                    chunk = min(steps, self.frame_length - pos_df - 1)
-                    lshift = min(pos_df, self.frame_length - 1)
-                    symbol += (2 ** round(chunk) - 1) << lshift
+                    chunk = min(round(steps), self.frame_length - pos_df)
+                    symbol += (2**chunk - 1) << pos_df
                 pos_df += round(steps)
                 off_tick = abs(steps - round(steps)) > 0.1
                 if pos_df >= self.frame_length or (off_tick and value):
-- 
2.43.0


From eafae7cb366f8786b89399563c16cfca63a08773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:26 +0000
Subject: [PATCH 21/65] fix: uart-decoder considers final state of waveform

---
 shepherd_core/shepherd_core/decoder_waveform/uart.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/shepherd_core/shepherd_core/decoder_waveform/uart.py b/shepherd_core/shepherd_core/decoder_waveform/uart.py
index 5fa84cb..5f96b7f 100644
--- a/shepherd_core/shepherd_core/decoder_waveform/uart.py
+++ b/shepherd_core/shepherd_core/decoder_waveform/uart.py
@@ -150,8 +150,9 @@ class Uart:
         if not hasattr(self, "dur_tick"):
             raise ValueError("Make sure that baud-rate was calculated before running add_dur()")
         dur_steps = self.events_sig[1:, 0] - self.events_sig[:-1, 0]
+        dur_steps = np.append(dur_steps, np.inf)  # final state is not limited
         dur_steps = np.reshape(dur_steps, (dur_steps.size, 1))
-        self.events_sig = np.append(self.events_sig[:-1, :], dur_steps / self.dur_tick, axis=1)
+        self.events_sig = np.append(self.events_sig, dur_steps / self.dur_tick, axis=1)
 
     def detect_inversion(self) -> bool:
         """Analyze bit-state during long pauses (unchanged states).
@@ -159,7 +160,7 @@ class Uart:
         - pause should be HIGH for non-inverted mode (default)
         - assumes max frame size of 64 bit + x for safety
         """
-        events = self.events_sig[:1000, :]  # speedup for large datasets
+        events = self.events_sig[:-1, :][:1000, :]  # speedup for large datasets, skip final state
         pauses = events[:, 2] > 80
         states_1 = events[:, 1]
         pause_states = states_1[pauses]
@@ -214,7 +215,7 @@ class Uart:
         content = []
 
         for time, value, steps in self.events_sig:
-            if steps > self.frame_length and (value or round(steps) > self.frame_length + 1):
+            if steps > self.frame_length and (value or steps > self.frame_length + 1.5):
                 if value:
                     # long pause on High -> reset frame
                     if pos_df is not None:
-- 
2.43.0


From 4ecbb2f43e544e237f8201a7be852def410ce17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:26 +0000
Subject: [PATCH 22/65] fix: uart-decoder keeps null-symbols and handles
 waveforms without symbols

---
 shepherd_core/shepherd_core/decoder_waveform/uart.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/shepherd_core/shepherd_core/decoder_waveform/uart.py b/shepherd_core/shepherd_core/decoder_waveform/uart.py
index 5f96b7f..e3630f1 100644
--- a/shepherd_core/shepherd_core/decoder_waveform/uart.py
+++ b/shepherd_core/shepherd_core/decoder_waveform/uart.py
@@ -248,10 +248,8 @@ class Uart:
                     pos_df = None
                     if off_tick and value == 0:
                         logger.debug("Error - Off-sized step - but SigLow (@%d)", time)
-        self.events_symbols = np.concatenate(content).reshape((len(content), 2))
-        # TODO: numpy is converting timestamp to string -> must be added as tuple (ts, symbol)
-        # symbol_events[:, 0] = symbol_events[:, 0].astype(float)  # noqa: ERA001
-        # ⤷ does not work
+        # dtype=object keeps type of timestamp and also null-symbols
+        self.events_symbols = np.array(content, dtype=object).reshape((len(content), 2))
         return self.events_symbols
 
     def get_lines(self, *, force_redo: bool = False) -> np.ndarray:
@@ -283,7 +281,7 @@ class Uart:
             if t_start is None:
                 t_start = time
             line += symbol
-        self.events_lines = np.concatenate(content).reshape((len(content), 2))
+        self.events_lines = np.array(content, dtype=object).reshape((len(content), 2))
         return self.events_lines
 
     def get_text(self, *, force_redo: bool = False) -> str:
-- 
2.43.0


From 694b8de1ada8f1eb21294aad08b5cfc3b95af819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:26 +0000
Subject: [PATCH 23/65] fix: uart-decoder keeps symbol that follows a single
 carriage return

---
 shepherd_core/shepherd_core/decoder_waveform/uart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/decoder_waveform/uart.py b/shepherd_core/shepherd_core/decoder_waveform/uart.py
index e3630f1..8e9c271 100644
--- a/shepherd_core/shepherd_core/decoder_waveform/uart.py
+++ b/shepherd_core/shepherd_core/decoder_waveform/uart.py
@@ -273,7 +273,7 @@ class Uart:
                 semi_stop = False
                 t_start = None
                 line = ""
-                if not semi_stop:
+                if symbol == "\n":
                     continue
             if symbol == "\r":
                 semi_stop = True
-- 
2.43.0


From d291a4b6f4c56c34e531e05fed1e841d9e873734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:26 +0000
Subject: [PATCH 24/65] fix: uart-decoder keeps final line without line-ending

---
 shepherd_core/shepherd_core/decoder_waveform/uart.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shepherd_core/shepherd_core/decoder_waveform/uart.py b/shepherd_core/shepherd_core/decoder_waveform/uart.py
index 8e9c271..e1a6b15 100644
--- a/shepherd_core/shepherd_core/decoder_waveform/uart.py
+++ b/shepherd_core/shepherd_core/decoder_waveform/uart.py
@@ -281,6 +281,8 @@ class Uart:
             if t_start is None:
                 t_start = time
             line += symbol
+        if len(line) > 0:
+            content.append((t_start, line))
         self.events_lines = np.array(content, dtype=object).reshape((len(content), 2))
         return self.events_lines
 
-- 
2.43.0


From d13452758049057b594ef3060ec5701182ca5704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:27 +0000
Subject: [PATCH 25/65] fix: uart-decoder adds timestamp to empty lines

---
 shepherd_core/shepherd_core/decoder_waveform/uart.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shepherd_core/shepherd_core/decoder_waveform/uart.py b/shepherd_core/shepherd_core/decoder_waveform/uart.py
index e1a6b15..b160b2c 100644
--- a/shepherd_core/shepherd_core/decoder_waveform/uart.py
+++ b/shepherd_core/shepherd_core/decoder_waveform/uart.py
@@ -268,6 +268,8 @@ class Uart:
         for time, symbol in self.events_symbols:
             if symbol == "\n" or semi_stop:
                 if symbol == "\n":
+                    if t_start is None:
+                        t_start = time
                     line += symbol
                 content.append((t_start, line))
                 semi_stop = False
-- 
2.43.0


From 23042362d6d158a4ca11bad8a3e8e5008ae79b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:39 +0000
Subject: [PATCH 26/65] fix: inheritance from fixtures that are referenced by
 id

---
 shepherd_core/shepherd_core/testbed_client/fixtures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/testbed_client/fixtures.py b/shepherd_core/shepherd_core/testbed_client/fixtures.py
index a0ee6c1..f88c832 100644
--- a/shepherd_core/shepherd_core/testbed_client/fixtures.py
+++ b/shepherd_core/shepherd_core/testbed_client/fixtures.py
@@ -108,8 +108,8 @@ class Fixture:
                     )
                 chain.append(base_name)
             fixture_base = copy.copy(self[fixture_name])
+            fixture_name = fixture_base["name"]
             logger.debug("'%s' will inherit from '%s'", self.model_type, fixture_name)
-            fixture_base["name"] = fixture_name
             chain.append(fixture_name)
             base_dict, chain = self.inheritance(values=fixture_base, chain=chain)
             for key, value in values.items():
-- 
2.43.0


From 5abd6e3a607e392515fc8c6f9c44040534a2ce54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:39 +0000
Subject: [PATCH 27/65] fix: refuse circular inheritance instead of endless
 recursion

---
 shepherd_core/shepherd_core/testbed_client/fixtures.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shepherd_core/shepherd_core/testbed_client/fixtures.py b/shepherd_core/shepherd_core/testbed_client/fixtures.py
index f88c832..3442738 100644
--- a/shepherd_core/shepherd_core/testbed_client/fixtures.py
+++ b/shepherd_core/shepherd_core/testbed_client/fixtures.py
@@ -109,6 +109,9 @@ class Fixture:
                 chain.append(base_name)
             fixture_base = copy.copy(self[fixture_name])
             fixture_name = fixture_base["name"]
+            if str(fixture_name).lower() in [str(_name).lower() for _name in chain]:
+                msg = f"Inheritance-Circle detected ({fixture_name} already in {chain})"
+                raise ValueError(msg)
             logger.debug("'%s' will inherit from '%s'", self.model_type, fixture_name)
             chain.append(fixture_name)
             base_dict, chain = self.inheritance(values=fixture_base, chain=chain)
-- 
2.43.0


From 8a162d2be77391e5afc903d24aa85be5b93af259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:18 +0000
Subject: [PATCH 28/65] fix: check for colliding target-IDs considers the IDs
 that get programmed

---
 .../shepherd_core/data_models/experiment/experiment.py       | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/shepherd_core/shepherd_core/data_models/experiment/experiment.py b/shepherd_core/shepherd_core/data_models/experiment/experiment.py
index fcc6493..c0c0f72 100644
--- a/shepherd_core/shepherd_core/data_models/experiment/experiment.py
+++ b/shepherd_core/shepherd_core/data_models/experiment/experiment.py
@@ -73,14 +73,15 @@ class Experiment(ShpModel, title="Config of an Experiment"):
         target_ids = []
         custom_ids = []
         for _config in configs:
+            default_ids = []
             for _id in _config.target_IDs:
                 target_ids.append(_id)
-                Target(id=_id)
+                default_ids.append(Target(id=_id).testbed_id)
                 # ⤷ this can raise exception for non-existing targets
             if _config.custom_IDs is not None:
                 custom_ids = custom_ids + _config.custom_IDs[: len(_config.target_IDs)]
             else:
-                custom_ids = custom_ids + _config.target_IDs
+                custom_ids = custom_ids + default_ids
         if len(target_ids) > len(set(target_ids)):
             raise ValueError("Target-ID used more than once in Experiment!")
         if len(target_ids) > len(set(custom_ids)):
-- 
2.43.0


From b5604b3f9ed71c1bf76ed5557793cfa9b6e7274c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:18 +0000
Subject: [PATCH 29/65] fix: testbed with observers that have no cape

---
 shepherd_core/shepherd_core/data_models/testbed/testbed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/data_models/testbed/testbed.py b/shepherd_core/shepherd_core/data_models/testbed/testbed.py
index a955c99..472d1b6 100644
--- a/shepherd_core/shepherd_core/data_models/testbed/testbed.py
+++ b/shepherd_core/shepherd_core/data_models/testbed/testbed.py
@@ -93,7 +93,7 @@ class Testbed(ShpModel):
 
     def get_observer(self, target_id: int) -> Observer:
         for _observer in self.observers:
-            if not _observer.active or not _observer.cape.active:
+            if not _observer.active or _observer.cape is None or not _observer.cape.active:
                 # skip decommissioned setups
                 continue
             if _observer.has_target(target_id):
-- 
2.43.0


From d314a9005a31bd9033455d060f11e08dca363e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:18 +0000
Subject: [PATCH 30/65] fix: testbed identifies capes and targets by their ID

---
 shepherd_core/shepherd_core/data_models/testbed/testbed.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/shepherd_core/shepherd_core/data_models/testbed/testbed.py b/shepherd_core/shepherd_core/data_models/testbed/testbed.py
index 472d1b6..f1f75c9 100644
--- a/shepherd_core/shepherd_core/data_models/testbed/testbed.py
+++ b/shepherd_core/shepherd_core/data_models/testbed/testbed.py
@@ -67,11 +67,11 @@ class Testbed(ShpModel):
             ips.append(_obs.ip)
             macs.append(_obs.mac)
             if _obs.cape is not None:
-                capes.append(_obs.cape)
+                capes.append(_obs.cape.id)
             if _obs.target_a is not None:
-                targets.append(_obs.target_a)
+                targets.append(_obs.target_a.id)
             if _obs.target_b is not None:
-                targets.append(_obs.target_b)
+                targets.append(_obs.target_b.id)
             eth_ports.append(_obs.eth_port)
         if len(observers) > len(set(observers)):
             raise ValueError("Observers used more than once in Testbed")
-- 
2.43.0


From ffc68772da80015ccbc5ed70ad7691003894a730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:18 +0000
Subject: [PATCH 31/65] fix: observer-names must be unique as tasks and
 result-files rely on them

---
 shepherd_core/shepherd_core/data_models/testbed/testbed.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/shepherd_core/shepherd_core/data_models/testbed/testbed.py b/shepherd_core/shepherd_core/data_models/testbed/testbed.py
index f1f75c9..9467e3a 100644
--- a/shepherd_core/shepherd_core/data_models/testbed/testbed.py
+++ b/shepherd_core/shepherd_core/data_models/testbed/testbed.py
@@ -57,6 +57,7 @@ class Testbed(ShpModel):
     @model_validator(mode="after")
     def post_validation(self) -> Self:
         observers = []
+        names = []
         ips = []
         macs = []
         capes = []
@@ -64,6 +65,7 @@ class Testbed(ShpModel):
         eth_ports = []
         for _obs in self.observers:
             observers.append(_obs.id)
+            names.append(_obs.name)
             ips.append(_obs.ip)
             macs.append(_obs.mac)
             if _obs.cape is not None:
@@ -75,6 +77,8 @@ class Testbed(ShpModel):
             eth_ports.append(_obs.eth_port)
         if len(observers) > len(set(observers)):
             raise ValueError("Observers used more than once in Testbed")
+        if len(names) > len(set(names)):
+            raise ValueError("Observer-Name used more than once in Testbed")
         if len(ips) > len(set(ips)):
             raise ValueError("Observer-IP used more than once in Testbed")
         if len(macs) > len(set(macs)):
-- 
2.43.0


From 2d5e12c30ce666315109f487b4de7afe51f604f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:18 +0000
Subject: [PATCH 32/65] fix: observers of an experiment without start-time
 share one directory

---
 .../data_models/task/observer_tasks.py             | 14 ++++++++++----
 .../data_models/task/testbed_tasks.py              |  6 +++++-
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/shepherd_core/shepherd_core/data_models/task/observer_tasks.py b/shepherd_core/shepherd_core/data_models/task/observer_tasks.py
index 2fdf1db..d19a45e 100644
--- a/shepherd_core/shepherd_core/data_models/task/observer_tasks.py
+++ b/shepherd_core/shepherd_core/data_models/task/observer_tasks.py
@@ -47,14 +47,20 @@ class ObserverTasks(ShpModel):
 
     @classmethod
     @validate_call
-    def from_xp(cls, xp: Experiment, tb: Testbed, tgt_id: IdInt) -> Self:
+    def from_xp(
+        cls,
+        xp: Experiment,
+        tb: Testbed,
+        tgt_id: IdInt,
+        time_asap: Optional[datetime] = None,
+    ) -> Self:
         if not tb.shared_storage:
             raise ValueError("Implementation currently relies on shared storage!")
 
+        if time_asap is None:
+            time_asap = datetime.now().astimezone() + timedelta(minutes=3)
         t_start = (
-            xp.time_start
-            if isinstance(xp.time_start, datetime)
-            else datetime.now().astimezone() + timedelta(minutes=3)
+            xp.time_start if isinstance(xp.time_start, datetime) else time_asap
         )  # TODO: this is messed up, just a hotfix
 
         obs = tb.get_observer(tgt_id)
diff --git a/shepherd_core/shepherd_core/data_models/task/testbed_tasks.py b/shepherd_core/shepherd_core/data_models/task/testbed_tasks.py
index d8f62a6..342052e 100644
--- a/shepherd_core/shepherd_core/data_models/task/testbed_tasks.py
+++ b/shepherd_core/shepherd_core/data_models/task/testbed_tasks.py
@@ -1,5 +1,7 @@
 """Collection of tasks for all observers included in experiment."""
 
+from datetime import datetime
+from datetime import timedelta
 from typing import List
 from typing import Optional
 
@@ -36,7 +38,9 @@ class TestbedTasks(ShpModel):
             tb = Testbed()  # this will query the first (and only) entry of client
 
         tgt_ids = xp.get_target_ids()
-        obs_tasks = [ObserverTasks.from_xp(xp, tb, _id) for _id in tgt_ids]
+        # observers have to share one start-time & directory
+        time_asap = datetime.now().astimezone() + timedelta(minutes=3)
+        obs_tasks = [ObserverTasks.from_xp(xp, tb, _id, time_asap) for _id in tgt_ids]
         return cls(
             name=xp.name,
             observer_tasks=obs_tasks,
-- 
2.43.0


From 32698301ebd0470d81bf3203d2bcdebdc13183b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:06 +0000
Subject: [PATCH 33/65] fix: same MAC-address in different notation gets
 detected as duplicate

---
 shepherd_core/shepherd_core/data_models/testbed/testbed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/data_models/testbed/testbed.py b/shepherd_core/shepherd_core/data_models/testbed/testbed.py
index 9467e3a..b456822 100644
--- a/shepherd_core/shepherd_core/data_models/testbed/testbed.py
+++ b/shepherd_core/shepherd_core/data_models/testbed/testbed.py
@@ -67,7 +67,7 @@ class Testbed(ShpModel):
             observers.append(_obs.id)
             names.append(_obs.name)
             ips.append(_obs.ip)
-            macs.append(_obs.mac)
+            macs.append(_obs.mac.lower().replace("-", ":"))
             if _obs.cape is not None:
                 capes.append(_obs.cape.id)
             if _obs.target_a is not None:
-- 
2.43.0


From 3f153d90824926c7a6785e496622f839c44c4e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:57 +0000
Subject: [PATCH 34/65] fix: keep fractions of seconds when writing time-spans
 to yaml

---
 shepherd_core/shepherd_core/data_models/base/shepherd.py | 5 ++++-
 shepherd_core/shepherd_core/writer.py                    | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/shepherd_core/shepherd_core/data_models/base/shepherd.py b/shepherd_core/shepherd_core/data_models/base/shepherd.py
index 6745ea3..facc660 100644
--- a/shepherd_core/shepherd_core/data_models/base/shepherd.py
+++ b/shepherd_core/shepherd_core/data_models/base/shepherd.py
@@ -32,7 +32,10 @@ def path2str(
 
 def time2int(dumper: Dumper, data: timedelta) -> ScalarNode:
     """Add a yaml-representation for a specific datatype."""
-    return dumper.represent_scalar("tag:yaml.org,2002:int", str(int(data.total_seconds())))
+    seconds = data.total_seconds()
+    if seconds.is_integer():
+        return dumper.represent_scalar("tag:yaml.org,2002:int", str(int(seconds)))
+    return dumper.represent_float(seconds)
 
 
 def generic2str(dumper: Dumper, data: Any) -> ScalarNode:
diff --git a/shepherd_core/shepherd_core/writer.py b/shepherd_core/shepherd_core/writer.py
index f871fdf..8b18b29 100644
--- a/shepherd_core/shepherd_core/writer.py
+++ b/shepherd_core/shepherd_core/writer.py
@@ -42,7 +42,10 @@ def path2str(
 
 def time2int(dumper: Dumper, data: timedelta) -> ScalarNode:
     """Add a yaml-representation for a specific datatype."""
-    return dumper.represent_scalar("tag:yaml.org,2002:int", str(int(data.total_seconds())))
+    seconds = data.total_seconds()
+    if seconds.is_integer():
+        return dumper.represent_scalar("tag:yaml.org,2002:int", str(int(seconds)))
+    return dumper.represent_float(seconds)
 
 
 yaml.add_representer(pathlib.PosixPath, path2str, SafeDumper)
-- 
2.43.0


From 6c15161d08c6ff74a4d346a06c014ed9386a4b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:13 +0000
Subject: [PATCH 35/65] fix: conversion of physical values to raw picks nearest
 code instead of truncating

---
 shepherd_core/shepherd_core/calibration_hw_def.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/shepherd_core/shepherd_core/calibration_hw_def.py b/shepherd_core/shepherd_core/calibration_hw_def.py
index c6d7d2d..2e0fa48 100644
--- a/shepherd_core/shepherd_core/calibration_hw_def.py
+++ b/shepherd_core/shepherd_core/calibration_hw_def.py
@@ -37,7 +37,7 @@ def adc_current_to_raw(current: float, *, limited: bool = True) -> int:
     # voltage on input of adc
     val_adc = G_INST_AMP * R_SHT * current
     # digital value according to ADC gain
-    val_raw = int(val_adc * (2**M_ADC) / (G_ADC_I * V_REF_ADC))
+    val_raw = round(val_adc * (2**M_ADC) / (G_ADC_I * V_REF_ADC))
     return min(max(val_raw, 0), 2**M_ADC - 1) if limited else val_raw
 
 
@@ -54,7 +54,7 @@ def adc_raw_to_current(value: int, *, limited: bool = True) -> float:
 def adc_voltage_to_raw(voltage: float, *, limited: bool = True) -> int:
     """Convert back a voltage [V] to raw ADC value."""
     # digital value according to ADC gain
-    val_raw = int(voltage * (2**M_ADC) / (G_ADC_V * V_REF_ADC))
+    val_raw = round(voltage * (2**M_ADC) / (G_ADC_V * V_REF_ADC))
     return min(max(val_raw, 0), 2**M_ADC - 1) if limited else val_raw
 
 
@@ -75,5 +75,5 @@ def dac_raw_to_voltage(value: int, *, limited: bool = True) -> float:
 
 def dac_voltage_to_raw(voltage: float, *, limited: bool = True) -> int:
     """Convert a voltage [V] to raw DAC value."""
-    val_raw = int(voltage * (2**M_DAC) / (V_REF_DAC * G_DAC))
+    val_raw = round(voltage * (2**M_DAC) / (V_REF_DAC * G_DAC))
     return min(max(val_raw, 0), 2**M_DAC - 1) if limited else val_raw
-- 
2.43.0


From ced29da842fbf58ff0cdd90b7e38b7078fde09ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:23 +0000
Subject: [PATCH 36/65] fix: models with IPv6-address or url can be stored to
 yaml

---
 shepherd_core/shepherd_core/data_models/base/shepherd.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/shepherd_core/shepherd_core/data_models/base/shepherd.py b/shepherd_core/shepherd_core/data_models/base/shepherd.py
index facc660..419fe5a 100644
--- a/shepherd_core/shepherd_core/data_models/base/shepherd.py
+++ b/shepherd_core/shepherd_core/data_models/base/shepherd.py
@@ -4,6 +4,7 @@ import hashlib
 import pathlib
 from datetime import timedelta
 from ipaddress import IPv4Address
+from ipaddress import IPv6Address
 from pathlib import Path
 from typing import Any
 from typing import Generator
@@ -14,6 +15,7 @@ from uuid import UUID
 import yaml
 from pydantic import BaseModel
 from pydantic import ConfigDict
+from pydantic import HttpUrl
 from typing_extensions import Self
 from yaml import Dumper
 from yaml import SafeDumper
@@ -48,6 +50,8 @@ yaml.add_representer(pathlib.WindowsPath, path2str, SafeDumper)
 yaml.add_representer(pathlib.Path, path2str, SafeDumper)
 yaml.add_representer(timedelta, time2int, SafeDumper)
 yaml.add_representer(IPv4Address, generic2str, SafeDumper)
+yaml.add_representer(IPv6Address, generic2str, SafeDumper)
+yaml.add_representer(HttpUrl, generic2str, SafeDumper)
 yaml.add_representer(UUID, generic2str, SafeDumper)
 
 
-- 
2.43.0


From ec4b74bc6a6fcffc92b51ed0518ea421a6e7db6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:23 +0000
Subject: [PATCH 37/65] fix: hash of model does not depend on representation of
 equal content (timezone-name, path, order)

---
 shepherd_core/shepherd_core/data_models/base/shepherd.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/data_models/base/shepherd.py b/shepherd_core/shepherd_core/data_models/base/shepherd.py
index 419fe5a..9fcc62c 100644
--- a/shepherd_core/shepherd_core/data_models/base/shepherd.py
+++ b/shepherd_core/shepherd_core/data_models/base/shepherd.py
@@ -1,6 +1,7 @@
 """Shepherds base-model that brings a lot of default functionality."""
 
 import hashlib
+import json
 import pathlib
 from datetime import timedelta
 from ipaddress import IPv4Address
@@ -171,4 +172,6 @@ class ShpModel(BaseModel):
         return cls(**shp_wrap.parameters)
 
     def get_hash(self) -> str:
-        return hashlib.sha3_224(str(self.model_dump()).encode("utf-8")).hexdigest()
+        """Hash the content of the model, independent of its in-memory-representation."""
+        content = json.dumps(self.model_dump(), sort_keys=True, default=str)
+        return hashlib.sha3_224(content.encode("utf-8")).hexdigest()
-- 
2.43.0


From b9b356a5bf394769b9ea449afb68dac6a474c93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:23 +0000
Subject: [PATCH 38/65] fix: firmware given as path-object differs from the
 same model loaded from file

---
 .../shepherd_core/data_models/content/firmware.py          | 7 +++++++
 .../shepherd_core/data_models/task/firmware_mod.py         | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/shepherd_core/shepherd_core/data_models/content/firmware.py b/shepherd_core/shepherd_core/data_models/content/firmware.py
index 765569f..0b2297e 100644
--- a/shepherd_core/shepherd_core/data_models/content/firmware.py
+++ b/shepherd_core/shepherd_core/data_models/content/firmware.py
@@ -9,6 +9,7 @@ from typing import TypedDict
 from typing import Union
 
 from pydantic import StringConstraints
+from pydantic import field_validator
 from pydantic import model_validator
 from pydantic import validate_call
 from typing_extensions import Annotated
@@ -62,6 +63,12 @@ class Firmware(ContentModel, title="Firmware of Target"):
     data_local: bool = True
     # ⤷ signals that file has to be copied to testbed
 
+    @field_validator("data", mode="after")
+    @classmethod
+    def path_to_str(cls, value: Union[str, Path]) -> str:
+        # same type as when loaded from file
+        return value.as_posix() if isinstance(value, Path) else value
+
     @model_validator(mode="before")
     @classmethod
     def query_database(cls, values: dict) -> dict:
diff --git a/shepherd_core/shepherd_core/data_models/task/firmware_mod.py b/shepherd_core/shepherd_core/data_models/task/firmware_mod.py
index 735a28d..a9b83d0 100644
--- a/shepherd_core/shepherd_core/data_models/task/firmware_mod.py
+++ b/shepherd_core/shepherd_core/data_models/task/firmware_mod.py
@@ -7,6 +7,7 @@ from typing import TypedDict
 from typing import Union
 
 from pydantic import Field
+from pydantic import field_validator
 from pydantic import model_validator
 from pydantic import validate_call
 from typing_extensions import Annotated
@@ -36,6 +37,12 @@ class FirmwareModTask(ShpModel):
     verbose: Annotated[int, Field(ge=0, le=4)] = 2
     # ⤷ 0=Errors, 1=Warnings, 2=Info, 3=Debug
 
+    @field_validator("data", mode="after")
+    @classmethod
+    def path_to_str(cls, value: Union[str, Path]) -> str:
+        # same type as when loaded from file
+        return value.as_posix() if isinstance(value, Path) else value
+
     @model_validator(mode="after")
     def post_validation(self) -> Self:
         if self.data_type in {
-- 
2.43.0


From 7e67a540f6fcb60644d46bda06f9051aff956c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:23 +0000
Subject: [PATCH 39/65] fix: collected inventory with interfaces equals the one
 loaded from file

---
 shepherd_core/shepherd_core/inventory/system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/inventory/system.py b/shepherd_core/shepherd_core/inventory/system.py
index 0ac1997..9634e68 100644
--- a/shepherd_core/shepherd_core/inventory/system.py
+++ b/shepherd_core/shepherd_core/inventory/system.py
@@ -68,7 +68,7 @@ class SystemInventory(ShpModel):
             )
         else:
             ifs1 = psutil.net_if_addrs().items()
-            ifs2 = {name: (_if[1].address, _if[0].address) for name, _if in ifs1 if len(_if) > 1}
+            ifs2 = {name: [_if[1].address, _if[0].address] for name, _if in ifs1 if len(_if) > 1}
             uptime = time.time() - psutil.boot_time()
 
         fs_cmd = ["/usr/bin/df", "-h", "/"]
-- 
2.43.0


From 75e431650ef847fb64c857c66af97de7fc905d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:02 +0000
Subject: [PATCH 40/65] fix: hash of firmware that is not embedded can be
 compared

---
 .../shepherd_core/data_models/content/firmware.py        | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/shepherd_core/shepherd_core/data_models/content/firmware.py b/shepherd_core/shepherd_core/data_models/content/firmware.py
index 0b2297e..3e15be0 100644
--- a/shepherd_core/shepherd_core/data_models/content/firmware.py
+++ b/shepherd_core/shepherd_core/data_models/content/firmware.py
@@ -153,10 +153,13 @@ class Firmware(ContentModel, title="Firmware of Target"):
 
         if path is not None and path.is_file():
             hash_new = fw_tools.file_to_hash(path)
-            match = self.data_hash == hash_new
-        else:
+        elif self.data_type not in base64_to_path_DType.values():
             hash_new = fw_tools.base64_to_hash(self.data)
-            match = self.data_hash == hash_new
+        elif Path(self.data).is_file():
+            hash_new = fw_tools.file_to_hash(Path(self.data))
+        else:
+            hash_new = None  # content is not available
+        match = self.data_hash == hash_new
 
         if not match:
             logger.warning("FW-Hash does not match with stored value!")
-- 
2.43.0


From 14559797f67521cfd0da56f779b9665502080cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:02 +0000
Subject: [PATCH 41/65] fix: reset-vector was not considered when detecting hex
 for msp430

---
 shepherd_core/shepherd_core/fw_tools/validation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shepherd_core/shepherd_core/fw_tools/validation.py b/shepherd_core/shepherd_core/fw_tools/validation.py
index 088a1b5..5815e9f 100644
--- a/shepherd_core/shepherd_core/fw_tools/validation.py
+++ b/shepherd_core/shepherd_core/fw_tools/validation.py
@@ -51,10 +51,10 @@ def is_hex_msp430(file: Path) -> bool:
         ih = IntelHex(file.as_posix())
         if ih.minaddr() != 0x4000:
             return False
-        if 0xFFFE not in ih.addresses():
+        if not {0xFFFE, 0xFFFF} <= set(ih.addresses()):
             return False
         value = int.from_bytes(ih.gets(0xFFFE, 2), byteorder="little", signed=False)
-        if 0x4000 > value >= 0xFF80:
+        if not 0x4000 <= value < 0xFF80:
             return False
 
         # conservative test for now - should be well below 128 kB + 8kB for msp430fr5962
-- 
2.43.0


From 8b31a23c573d3908164fe383f416a28dc8fdbd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:02 +0000
Subject: [PATCH 42/65] fix: empty file was detected as hex-firmware for nRF52
 and raised when checked for ELF

---
 shepherd_core/shepherd_core/fw_tools/validation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/shepherd_core/shepherd_core/fw_tools/validation.py b/shepherd_core/shepherd_core/fw_tools/validation.py
index 5815e9f..a5f2f2d 100644
--- a/shepherd_core/shepherd_core/fw_tools/validation.py
+++ b/shepherd_core/shepherd_core/fw_tools/validation.py
@@ -32,12 +32,12 @@ except ImportError as e:
 def is_hex(file: Path) -> bool:
     """Check if file is containing intel-hex data."""
     try:
-        _ = IntelHex(file.as_posix())
+        ih = IntelHex(file.as_posix())
     except ValueError:  # parsing
         return False
     except IntelHexError:  # structural errors
         return False
-    return True
+    return len(ih) > 0
 
 
 def is_hex_msp430(file: Path) -> bool:
@@ -88,7 +88,7 @@ def is_elf(file: Path) -> bool:
     """Check if file is an ELF file."""
     if ELF is None:
         raise RuntimeError(elf_error_text)
-    if not file.is_file():
+    if not file.is_file() or file.stat().st_size == 0:
         return False
     try:
         _ = ELF(path=file)
-- 
2.43.0


From 7261ace2dddd6718d238d13dec6914651da77074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:17 +0000
Subject: [PATCH 43/65] fix: msp430-firmware above 4 kB was not detected as
 size-check used memory-footprint of python-object

IntelHex.get_memory_size() returns size of dictionary-object, not bytes of content
---
 shepherd_core/shepherd_core/fw_tools/validation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shepherd_core/shepherd_core/fw_tools/validation.py b/shepherd_core/shepherd_core/fw_tools/validation.py
index a5f2f2d..743aa3c 100644
--- a/shepherd_core/shepherd_core/fw_tools/validation.py
+++ b/shepherd_core/shepherd_core/fw_tools/validation.py
@@ -58,7 +58,7 @@ def is_hex_msp430(file: Path) -> bool:
             return False
 
         # conservative test for now - should be well below 128 kB + 8kB for msp430fr5962
-        return ih.get_memory_size() <= 270_000
+        return len(ih) <= 270_000
     return False
 
 
@@ -73,7 +73,7 @@ def is_hex_nrf52(file: Path) -> bool:
         ih = IntelHex(file.as_posix())
         # conservative test for now - should be between 0 and 1 MB + 256 kB,
         # but lately showed much higher values > 4 MB
-        return ih.get_memory_size() > 0
+        return len(ih) > 0
     return False
 
 
-- 
2.43.0


From bfae2e397e3abd9f46cc3da4f16fec209ad6fed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:56 +0000
Subject: [PATCH 44/65] fix: voltage-step derived from recording was in raw
 units and underflowed

---
 shepherd_core/shepherd_core/reader.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index 532d83c..b37ab1c 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -287,16 +287,14 @@ class Reader:
             self.get_config().get("virtual_harvester", {}).get("voltage_step_mV", None)
         )
         if voltage_step is None:
-            dsv = self.ds_voltage[0:2000]
+            dsv = self.ds_voltage[0:2000].astype(np.int64)  # unsigned would underflow
             diffs_np = np.unique(dsv[1:] - dsv[0:-1], return_counts=False)
             diffs_ls = [_e for _e in list(np.array(diffs_np)) if _e > 0]
             # static voltages have 0 steps, so
             if len(diffs_ls) == 0:
                 return None  # or is 0 better? that may provoke div0
-            voltage_step = min(diffs_ls)
-        if voltage_step is not None:
-            voltage_step = 1e-3 * voltage_step
-        return voltage_step
+            return float(min(diffs_ls) * self._cal.voltage.gain)
+        return 1e-3 * voltage_step
 
     def get_hrv_config(self) -> dict:
         """Essential info for harvester.
-- 
2.43.0


From 8fbebee61335e4735af80450c2ff6c60076c2864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:56 +0000
Subject: [PATCH 45/65] fix: target with constant power raised when output is
 not powered

---
 shepherd_core/shepherd_core/vsource/target_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shepherd_core/shepherd_core/vsource/target_model.py b/shepherd_core/shepherd_core/vsource/target_model.py
index e682071..81932dc 100644
--- a/shepherd_core/shepherd_core/vsource/target_model.py
+++ b/shepherd_core/shepherd_core/vsource/target_model.py
@@ -122,6 +122,8 @@ class ConstantPowerTarget(TargetABC):
         self.P_sleep_fW = 1e15 * P_sleep_W
 
     def step(self, voltage_uV: int, *, pwr_good: bool) -> float:
+        if voltage_uV <= 0:
+            return 0
         return (self.P_active_fW if pwr_good else self.P_sleep_fW) / voltage_uV  # = nA
 
 
-- 
2.43.0


From 24739a654e0ed326b1768c08a8711ce2453022dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:56 +0000
Subject: [PATCH 46/65] fix: simulation with monitored internals needs space
 for every sample

---
 .../shepherd_core/vsource/virtual_source_simulation.py          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/vsource/virtual_source_simulation.py b/shepherd_core/shepherd_core/vsource/virtual_source_simulation.py
index f014de8..9f52674 100644
--- a/shepherd_core/shepherd_core/vsource/virtual_source_simulation.py
+++ b/shepherd_core/shepherd_core/vsource/virtual_source_simulation.py
@@ -62,7 +62,7 @@ def simulate_source(
     e_out_Ws = 0.0
     if monitor_internals and path_output:
         stats_sample = 0
-        stats_internal = np.empty((round(file_inp.runtime_s * file_inp.samplerate_sps), 11))
+        stats_internal = np.empty((file_inp.ds_voltage.shape[0], 11))
         try:
             # keep dependencies low
             from matplotlib import pyplot as plt
-- 
2.43.0


From 567616d679a71cd5c4c76c88840c9e6bcf5764e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:52 +0000
Subject: [PATCH 47/65] fix: statistics of dataset were averaged over unequal
 chunks

---
 shepherd_core/shepherd_core/reader.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index b37ab1c..9b30262 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -509,12 +509,22 @@ class Reader:
         if len(stats_list) < 1:
             return {}
         stats_nd = np.stack(stats_list)
+        # chunks can differ in size, so combine them weighted (and pool their variance)
+        weights = [
+            min(self.max_elements, dset.shape[0] - i)
+            for i in range(0, dset.shape[0], self.max_elements)
+        ]
+        mean = np.average(stats_nd[:, 0], weights=weights)
+        variance = np.average(
+            stats_nd[:, 3] ** 2 + (stats_nd[:, 0] - mean) ** 2,
+            weights=weights,
+        )
         stats: Dict[str, float] = {
             # TODO: wrong calculation for ndim-datasets with n>1
-            "mean": float(stats_nd[:, 0].mean()),
+            "mean": float(mean),
             "min": float(stats_nd[:, 1].min()),
             "max": float(stats_nd[:, 2].max()),
-            "std": float(stats_nd[:, 3].mean()),  # TODO: sooo wrong :)
+            "std": float(np.sqrt(variance)),
             "si_converted": si_converted,
         }
         return stats
-- 
2.43.0


From 08590159e18be8cc631f8c20f43ec00a75f4d991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:45 +0000
Subject: [PATCH 48/65] fix: plot of whole recording failed when rounded
 runtime points past last sample

---
 shepherd_data/shepherd_data/reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shepherd_data/shepherd_data/reader.py b/shepherd_data/shepherd_data/reader.py
index efffecc..cfe4994 100644
--- a/shepherd_data/shepherd_data/reader.py
+++ b/shepherd_data/shepherd_data/reader.py
@@ -481,7 +481,8 @@ class Reader(CoreReader):
         start_s = max(0, start_s)
         end_s = min(self.runtime_s, end_s)
         start_sample = round(start_s * self.samplerate_sps)
-        end_sample = round(end_s * self.samplerate_sps)
+        # runtime is rounded and could point past the last sample
+        end_sample = min(round(end_s * self.samplerate_sps), self.ds_time.shape[0])
         if end_sample - start_sample < 5:
             self._logger.warning("Skip plot, because of small sample-size.")
             return None
-- 
2.43.0


From 0e523e96d7c7f69f18dc35032044430a96e879cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:45 +0000
Subject: [PATCH 49/65] fix: multiplot without usable data raised index-error

---
 shepherd_data/shepherd_data/cli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shepherd_data/shepherd_data/cli.py b/shepherd_data/shepherd_data/cli.py
index ee4aa17..48222d8 100644
--- a/shepherd_data/shepherd_data/cli.py
+++ b/shepherd_data/shepherd_data/cli.py
@@ -425,6 +425,8 @@ def plot(
             logger.exception("ERROR: Will skip file. It caused an exception.")
     if multiplot:
         logger.info("Got %d datasets to plot", len(data))
+        if len(data) < 1:
+            return
         mpl_path = Reader.multiplot_to_file(data, in_data, width, height, only_pwr=only_power)
         if mpl_path:
             logger.info("Plot generated and saved to '%s'", mpl_path.name)
-- 
2.43.0


From 48567e45dbc41053e99da7c16e6388b5a13e5310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:45 +0000
Subject: [PATCH 50/65] fix: open-circuit tracker used missing column and
 failed on dark samples

---
 shepherd_data/shepherd_data/mppt.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/shepherd_data/shepherd_data/mppt.py b/shepherd_data/shepherd_data/mppt.py
index 7ce7015..cd45f4e 100644
--- a/shepherd_data/shepherd_data/mppt.py
+++ b/shepherd_data/shepherd_data/mppt.py
@@ -36,7 +36,11 @@ def find_oc(v_arr: np.ndarray, i_arr: np.ndarray, ratio: float = 0.05) -> np.nda
     Searches last current value that is above a certain ratio of the short-circuit
     current.
     """
-    return v_arr[np.argmax(i_arr < i_arr[0] * ratio)]
+    below = i_arr < i_arr[0] * ratio
+    if i_arr[0] > 0 and not below.any():
+        # open-circuit voltage is outside of the curve
+        return v_arr[-1]
+    return v_arr[np.argmax(below)]
 
 
 class MPPTracker(ABC):
@@ -80,9 +84,10 @@ class OpenCircuitTracker(MPPTracker):
         """
         coeffs["icurve"] = coeffs.apply(lambda x: iv_model(self.v_proto, x), axis=1)
         if "voc" not in coeffs.columns:
-            coeffs["voc"] = coeffs.apply(lambda x: find_oc(self.v_proto, x["ivcurve"]), axis=1)
+            coeffs["voc"] = coeffs.apply(lambda x: find_oc(self.v_proto, x["icurve"]), axis=1)
         coeffs["rvoc_pos"] = coeffs.apply(
-            lambda x: np.argmax(self.v_proto[self.v_proto < self.ratio * x["voc"]]),
+            # index of highest voltage below setpoint (or first one for voc = 0)
+            lambda x: max(0, np.count_nonzero(self.v_proto < self.ratio * x["voc"]) - 1),
             axis=1,
         )
         coeffs["i"] = coeffs.apply(lambda x: x["icurve"][x["rvoc_pos"]], axis=1)
-- 
2.43.0


From ab01f6a9a7822ed67dc12877d697bd2f79605141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:45 +0000
Subject: [PATCH 51/65] fix: duration of ivonne-conversion was truncated by
 float-errors

---
 shepherd_data/shepherd_data/ivonne.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/shepherd_data/shepherd_data/ivonne.py b/shepherd_data/shepherd_data/ivonne.py
index 0077623..fcf4a35 100644
--- a/shepherd_data/shepherd_data/ivonne.py
+++ b/shepherd_data/shepherd_data/ivonne.py
@@ -122,7 +122,7 @@ class Reader:
             raise RuntimeError("IVonne Context was not entered - file not open!")
         if isinstance(duration_s, (float, int)) and self.runtime_s > duration_s:
             self._logger.info("  -> gets trimmed to %f s", duration_s)
-            df_elements_n = min(self._df.shape[0], int(duration_s * self.samplerate_sps))
+            df_elements_n = min(self._df.shape[0], round(duration_s * self.samplerate_sps))
         else:
             df_elements_n = self._df.shape[0]
 
@@ -194,7 +194,7 @@ class Reader:
             raise RuntimeError("IVonne Context was not entered - file not open!")
         if isinstance(duration_s, (float, int)) and self.runtime_s > duration_s:
             self._logger.info("  -> gets trimmed to %f s", duration_s)
-            df_elements_n = min(self._df.shape[0], int(duration_s * self.samplerate_sps))
+            df_elements_n = min(self._df.shape[0], round(duration_s * self.samplerate_sps))
         else:
             df_elements_n = self._df.shape[0]
 
@@ -252,7 +252,7 @@ class Reader:
             raise RuntimeError("IVonne Context was not entered - file not open!")
         if isinstance(duration_s, (float, int)) and self.runtime_s > duration_s:
             self._logger.info("  -> gets trimmed to %f s", duration_s)
-            df_elements_n = min(self._df.shape[0], int(duration_s * self.samplerate_sps))
+            df_elements_n = min(self._df.shape[0], round(duration_s * self.samplerate_sps))
         else:
             df_elements_n = self._df.shape[0]
 
-- 
2.43.0


From 0dccc1be885f1a47a8a0e8c7576336668761cc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:45 +0000
Subject: [PATCH 52/65] fix: ivonne-conversion failed when final slice is
 shorter than four samples

---
 shepherd_data/shepherd_data/ivonne.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/shepherd_data/shepherd_data/ivonne.py b/shepherd_data/shepherd_data/ivonne.py
index fcf4a35..8761373 100644
--- a/shepherd_data/shepherd_data/ivonne.py
+++ b/shepherd_data/shepherd_data/ivonne.py
@@ -40,6 +40,14 @@ def get_isc(coeffs: pd.DataFrame):  # noqa: ANN201
     return coeffs["a"]
 
 
+def upsample(df: pd.DataFrame, interval_us: int) -> pd.DataFrame:
+    """Interpolate between samples, the last one only serves as support and is dropped."""
+    # cubic splines need at least four samples, final slice of a recording can be shorter
+    method = "cubic" if df.shape[0] > 3 else "linear"
+    # warning: .interpolate does crash in debug-mode with typeError
+    return df.resample(f"{interval_us}us").interpolate(method=method).iloc[:-1]
+
+
 class Reader:
     """Container for converters that bridge the gap to shepherds data-files."""
 
@@ -144,12 +152,7 @@ class Reader:
                 df_slice = self._df.iloc[idx : idx_top + 1].copy()
                 df_slice["timestamp"] = pd.to_timedelta(df_slice["time"], unit="s")
                 df_slice = df_slice.set_index("timestamp")
-                # warning: .interpolate does crash in debug-mode with typeError
-                df_slice = (
-                    df_slice.resample(f"{curve_interval_us}us")
-                    .interpolate(method="cubic")
-                    .iloc[:-1]
-                )
+                df_slice = upsample(df_slice, curve_interval_us)
 
                 for _, coeffs in df_slice.iterrows():
                     i_proto = iv_model(v_proto, coeffs)
@@ -226,10 +229,7 @@ class Reader:
                 df_slice = tracker.process(df_slice)
                 df_slice["timestamp"] = pd.to_timedelta(df_slice["time"], unit="s")
                 df_slice = df_slice[["time", "v", "i", "timestamp"]].set_index("timestamp")
-                # warning: .interpolate does crash in debug-mode with typeError
-                df_slice = (
-                    df_slice.resample(f"{interval_us}us").interpolate(method="cubic").iloc[:-1]
-                )
+                df_slice = upsample(df_slice, interval_us)
                 sfw.append_iv_data_si(
                     df_slice["time"].to_numpy(),
                     df_slice["v"].to_numpy(),
@@ -277,10 +277,7 @@ class Reader:
                 df_slice.loc[:, "isc"] = get_isc(df_slice)
                 df_slice["timestamp"] = pd.to_timedelta(df_slice["time"], unit="s")
                 df_slice = df_slice[["time", "voc", "isc", "timestamp"]].set_index("timestamp")
-                # warning: .interpolate does crash in debug-mode with typeError
-                df_slice = (
-                    df_slice.resample(f"{interval_us}us").interpolate(method="cubic").iloc[:-1]
-                )
+                df_slice = upsample(df_slice, interval_us)
                 sfw.append_iv_data_si(
                     df_slice["time"].to_numpy(),
                     df_slice["voc"].to_numpy(),
-- 
2.43.0


From 6b66470185f033b6a4f5d078ed53d87ad10b6105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:01 +0000
Subject: [PATCH 53/65] fix: local timezone used daylight-saving offset
 throughout the year

---
 shepherd_core/shepherd_core/data_models/base/timezone.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/shepherd_core/shepherd_core/data_models/base/timezone.py b/shepherd_core/shepherd_core/data_models/base/timezone.py
index 69ff3b5..2492bd8 100644
--- a/shepherd_core/shepherd_core/data_models/base/timezone.py
+++ b/shepherd_core/shepherd_core/data_models/base/timezone.py
@@ -8,9 +8,9 @@ from datetime import timezone
 
 def local_tz() -> timezone:
     """Query the local timezone of the user."""
-    if time.daylight:
-        return timezone(timedelta(seconds=-time.altzone), time.tzname[1])
-    return timezone(timedelta(seconds=-time.timezone), time.tzname[0])
+    now = time.localtime()
+    # ⤷ considers whether daylight-saving is currently in effect
+    return timezone(timedelta(seconds=now.tm_gmtoff), now.tm_zone)
 
 
 def local_now() -> datetime:
-- 
2.43.0


From 50228a274a3f7878715e513bbe02b94b7b2071af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:01 +0000
Subject: [PATCH 54/65] fix: gpio-event returned one instant too much due to
 float-errors

---
 .../shepherd_core/data_models/experiment/observer_features.py  | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/shepherd_core/shepherd_core/data_models/experiment/observer_features.py b/shepherd_core/shepherd_core/data_models/experiment/observer_features.py
index 1fa133d..658cb16 100644
--- a/shepherd_core/shepherd_core/data_models/experiment/observer_features.py
+++ b/shepherd_core/shepherd_core/data_models/experiment/observer_features.py
@@ -115,8 +115,7 @@ class GpioEvent(ShpModel, title="Config for a GPIO-Event"):
         return self
 
     def get_events(self) -> np.ndarray:
-        stop = self.delay + self.count * self.period
-        return np.arange(self.delay, stop, self.period)
+        return self.delay + self.period * np.arange(self.count)
 
 
 class GpioActuation(ShpModel, title="Config for GPIO-Actuation"):
-- 
2.43.0


From c8b192c882e5b4700b65565bf65802350c337e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:01 +0000
Subject: [PATCH 55/65] fix: creating tasks altered the dataset handed over by
 the caller

---
 shepherd_core/shepherd_core/data_models/task/emulation.py | 1 +
 shepherd_core/shepherd_core/data_models/task/harvest.py   | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/shepherd_core/shepherd_core/data_models/task/emulation.py b/shepherd_core/shepherd_core/data_models/task/emulation.py
index 579bd44..61ecba9 100644
--- a/shepherd_core/shepherd_core/data_models/task/emulation.py
+++ b/shepherd_core/shepherd_core/data_models/task/emulation.py
@@ -98,6 +98,7 @@ class EmulationTask(ShpModel):
     @model_validator(mode="before")
     @classmethod
     def pre_correction(cls, values: dict) -> dict:
+        values = copy.copy(values)  # don't alter data of caller
         # convert & add local timezone-data
         has_time = values.get("time_start") is not None
         if has_time and isinstance(values["time_start"], (int, float)):
diff --git a/shepherd_core/shepherd_core/data_models/task/harvest.py b/shepherd_core/shepherd_core/data_models/task/harvest.py
index 1cf1610..200f907 100644
--- a/shepherd_core/shepherd_core/data_models/task/harvest.py
+++ b/shepherd_core/shepherd_core/data_models/task/harvest.py
@@ -1,5 +1,6 @@
 """Config for the Observer in Harvest-Mode to record IV data from a harvesting-source."""
 
+import copy
 from datetime import datetime
 from datetime import timedelta
 from pathlib import Path
@@ -57,6 +58,7 @@ class HarvestTask(ShpModel):
     @model_validator(mode="before")
     @classmethod
     def pre_correction(cls, values: dict) -> dict:
+        values = copy.copy(values)  # don't alter data of caller
         # convert & add local timezone-data, TODO: used twice, refactor
         has_time = values.get("time_start") is not None
         if has_time and isinstance(values["time_start"], (int, float)):
-- 
2.43.0


From 06b1ea795f9aaae04aa5d078b19c36372e0c12b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:11 +0000
Subject: [PATCH 56/65] fix: nested iterations over a fixture influenced each
 other

---
 .../shepherd_core/testbed_client/fixtures.py  | 22 ++++---------------
 1 file changed, 4 insertions(+), 18 deletions(-)

diff --git a/shepherd_core/shepherd_core/testbed_client/fixtures.py b/shepherd_core/shepherd_core/testbed_client/fixtures.py
index 3442738..c8ca291 100644
--- a/shepherd_core/shepherd_core/testbed_client/fixtures.py
+++ b/shepherd_core/shepherd_core/testbed_client/fixtures.py
@@ -5,15 +5,14 @@ import pickle
 from datetime import datetime
 from datetime import timedelta
 from pathlib import Path
-from typing import Any
 from typing import Dict
+from typing import Iterator
 from typing import Mapping
 from typing import Optional
 from typing import Union
 
 import yaml
 from pydantic import validate_call
-from typing_extensions import Self
 
 from ..data_models.base.timezone import local_now
 from ..data_models.base.timezone import local_tz
@@ -36,9 +35,6 @@ class Fixture:
         self.model_type: str = model_type.lower()
         self.elements_by_name: Dict[str, dict] = {}
         self.elements_by_id: Dict[int, dict] = {}
-        # Iterator reset
-        self._iter_index: int = 0
-        self._iter_list: list = list(self.elements_by_name.values())
 
     def insert(self, data: Wrapper) -> None:
         # ⤷ TODO: could get easier
@@ -53,8 +49,6 @@ class Fixture:
         data = data.parameters
         self.elements_by_name[name] = data
         self.elements_by_id[_id] = data
-        # update iterator
-        self._iter_list: list = list(self.elements_by_name.values())
 
     def __getitem__(self, key: Union[str, int]) -> dict:
         if isinstance(key, str):
@@ -67,17 +61,9 @@ class Fixture:
         msg = f"{self.model_type} '{key}' not found!"
         raise ValueError(msg)
 
-    def __iter__(self) -> Self:
-        self._iter_index = 0
-        self._iter_list = list(self.elements_by_name.values())
-        return self
-
-    def __next__(self) -> Any:
-        if self._iter_index < len(self._iter_list):
-            member = self._iter_list[self._iter_index]
-            self._iter_index += 1
-            return member
-        raise StopIteration
+    def __iter__(self) -> Iterator[dict]:
+        # separate iterator for each loop, so they don't influence each other
+        return iter(list(self.elements_by_name.values()))
 
     def keys(self):  # noqa: ANN201
         return self.elements_by_name.keys()
-- 
2.43.0


From 30fe6fdef7da4496bf6b8283476cc01edc5f7f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:11 +0000
Subject: [PATCH 57/65] fix: entries returned by database-queries could alter
 the database

---
 shepherd_core/shepherd_core/testbed_client/fixtures.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/shepherd_core/shepherd_core/testbed_client/fixtures.py b/shepherd_core/shepherd_core/testbed_client/fixtures.py
index c8ca291..b879ffe 100644
--- a/shepherd_core/shepherd_core/testbed_client/fixtures.py
+++ b/shepherd_core/shepherd_core/testbed_client/fixtures.py
@@ -54,10 +54,10 @@ class Fixture:
         if isinstance(key, str):
             key = key.lower()
             if key in self.elements_by_name:
-                return self.elements_by_name[key]
+                return copy.deepcopy(self.elements_by_name[key])
             key = int(key) if key.isdigit() else None
         if key in self.elements_by_id:
-            return self.elements_by_id[int(key)]
+            return copy.deepcopy(self.elements_by_id[int(key)])
         msg = f"{self.model_type} '{key}' not found!"
         raise ValueError(msg)
 
@@ -141,13 +141,13 @@ class Fixture:
 
     def query_id(self, _id: int) -> dict:
         if isinstance(_id, int) and _id in self.elements_by_id:
-            return self.elements_by_id[_id]
+            return copy.deepcopy(self.elements_by_id[_id])
         msg = f"Initialization of {self.model_type} by ID failed - {_id} is unknown!"
         raise ValueError(msg)
 
     def query_name(self, name: str) -> dict:
         if isinstance(name, str) and name.lower() in self.elements_by_name:
-            return self.elements_by_name[name.lower()]
+            return copy.deepcopy(self.elements_by_name[name.lower()])
         msg = f"Initialization of {self.model_type} by name failed - {name} is unknown!"
         raise ValueError(msg)
 
-- 
2.43.0


From 1a4ed30116e8af889c59445eddf90726665f5289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:11 +0000
Subject: [PATCH 58/65] fix: warnings of inventory-list raised for every
 collected inventory

---
 shepherd_core/shepherd_core/inventory/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/shepherd_core/shepherd_core/inventory/__init__.py b/shepherd_core/shepherd_core/inventory/__init__.py
index 20e2fe9..c57ed3a 100644
--- a/shepherd_core/shepherd_core/inventory/__init__.py
+++ b/shepherd_core/shepherd_core/inventory/__init__.py
@@ -78,9 +78,9 @@ class InventoryList(ShpModel):
         ts_earl = min([_e.created.timestamp() for _e in self.elements])
         for _e in self.elements:
             if _e.uptime > timedelta(hours=30).total_seconds():
-                warnings["uptime"] = f"[{self.hostname}] restart is recommended"
+                warnings["uptime"] = f"[{_e.hostname}] restart is recommended"
             if (_e.created.timestamp() - ts_earl) > 10:
-                warnings["time_delta"] = f"[{self.hostname}] time-sync has failed"
+                warnings["time_delta"] = f"[{_e.hostname}] time-sync has failed"
 
         # turn  Dict[hostname][type] = val
         # to    Dict[type][val] = List[hostnames]
@@ -91,6 +91,7 @@ class InventoryList(ShpModel):
         result = {}
         for _host, _types in _inp.items():
             for _type, _val in _types.items():
+                _val = str(_val)  # lists & dicts are not hashable
                 if _type not in result:
                     result[_type] = {}
                 if _val not in result[_type]:
@@ -108,7 +109,7 @@ class InventoryList(ShpModel):
             "zstandard",
         ]
         for _key in t_unique:
-            if rescnt[_key] > 1:
+            if rescnt.get(_key, 0) > 1:
                 warnings[_key] = f"[{_key}] VersionMismatch - {result[_key]}"
 
         # TODO: finish with more potential warnings
-- 
2.43.0


From 72c45b3786c7f178a4aec30190ec979c81438727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:11 +0000
Subject: [PATCH 59/65] fix: inventory could not be collected without psutil

---
 shepherd_core/shepherd_core/inventory/system.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/shepherd_core/shepherd_core/inventory/system.py b/shepherd_core/shepherd_core/inventory/system.py
index 9634e68..942e026 100644
--- a/shepherd_core/shepherd_core/inventory/system.py
+++ b/shepherd_core/shepherd_core/inventory/system.py
@@ -19,7 +19,7 @@ except ImportError:
     psutil = None
 
 from pydantic import ConfigDict
-from pydantic.types import PositiveInt
+from pydantic.types import NonNegativeInt
 
 from ..data_models import ShpModel
 
@@ -27,8 +27,8 @@ from ..data_models import ShpModel
 class SystemInventory(ShpModel):
     """System / OS related inventory model."""
 
-    uptime: PositiveInt
-    # ⤷ seconds
+    uptime: NonNegativeInt
+    # ⤷ seconds, 0 = unknown
     timestamp: datetime
     # time_delta: timedelta = timedelta(0)  # noqa: ERA001
     # ⤷ lag behind earliest observer, TODO: wrong place
-- 
2.43.0


From e5f96406a63c093a4ec5c8c26b3e5b531afec8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:11 +0000
Subject: [PATCH 60/65] fix: users had no textual form

---
 shepherd_core/shepherd_core/testbed_client/user_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shepherd_core/shepherd_core/testbed_client/user_model.py b/shepherd_core/shepherd_core/testbed_client/user_model.py
index 72ccd06..54e3ddd 100644
--- a/shepherd_core/shepherd_core/testbed_client/user_model.py
+++ b/shepherd_core/shepherd_core/testbed_client/user_model.py
@@ -61,6 +61,9 @@ class User(ShpModel):
     # ⤷ TODO (min_length=128), request with: token.get_secret_value()
     active: bool = False
 
+    def __str__(self) -> str:
+        return self.name
+
     @model_validator(mode="before")
     @classmethod
     def query_database(cls, values: dict) -> dict:
-- 
2.43.0


From 4db208eda71b2da3e90027e33da1d202ee828f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:11 +0000
Subject: [PATCH 61/65] fix: creating a user added its token to the data of the
 caller

---
 shepherd_core/shepherd_core/testbed_client/user_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/shepherd_core/shepherd_core/testbed_client/user_model.py b/shepherd_core/shepherd_core/testbed_client/user_model.py
index 54e3ddd..df8862a 100644
--- a/shepherd_core/shepherd_core/testbed_client/user_model.py
+++ b/shepherd_core/shepherd_core/testbed_client/user_model.py
@@ -71,6 +71,7 @@ class User(ShpModel):
 
         # post correction
         if values.get("token") is None:
+            values = dict(values)  # caller keeps its data
             values["token"] = "shepherd_token_" + secrets.token_urlsafe(nbytes=128)
 
         return values
-- 
2.43.0


From a7c80773087705bf65862c45d17305f68bb39bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:59 +0000
Subject: [PATCH 62/65] fix: diode-target drew a wrong current at voltages
 below its forward-voltage

---
 .../shepherd_core/vsource/target_model.py     | 31 +++++++++----------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/shepherd_core/shepherd_core/vsource/target_model.py b/shepherd_core/shepherd_core/vsource/target_model.py
index 81932dc..7ab562c 100644
--- a/shepherd_core/shepherd_core/vsource/target_model.py
+++ b/shepherd_core/shepherd_core/vsource/target_model.py
@@ -12,7 +12,6 @@ TODO: add more targets
 import math
 from abc import ABC
 from abc import abstractmethod
-from contextlib import suppress
 
 
 class TargetABC(ABC):
@@ -80,22 +79,20 @@ class DiodeTarget(TargetABC):
     def step(self, voltage_uV: int, *, pwr_good: bool) -> float:
         if pwr_good or not self.ctrl:
             V_CC = voltage_uV * 1e-6
-            V_D = V_CC / 2
-            I_R = I_D = 0
-            # there is no direct formular, but this iteration converges fast
-            for _ in range(10):
-                # low voltages tend to produce log(x<0)=err
-                with suppress(ValueError):
-                    V_D = self.c1 * math.log(1 + (V_CC - V_D) / (self.R_Ohm * self.I_S))
-                # both currents are positive and should be identical
-                I_R = max(0.0, (V_CC - V_D) / self.R_Ohm)
-                I_D = max(0.0, self.I_S * math.expm1(V_D / self.c1))
-                with suppress(ZeroDivisionError):
-                    if abs(I_R / I_D - 1) < 1e-6:
-                        break
-                # take mean of both currents and determine a new V_D
-                V_D = V_CC - self.R_Ohm * (I_R + I_D) / 2
-            return 1e9 * (I_R + I_D) / 2  # = nA
+            if V_CC <= 0:
+                return 0
+            # both components carry the same current: I_D(V_D) = (V_CC - V_D) / R
+            # -> there is no direct formula, but as the difference is convex & rising in V_D,
+            #    newton's method converges monotonously when starting above the solution
+            V_S = self.R_Ohm * self.I_S
+            V_D = min(V_CC, self.c1 * math.log1p(V_CC / V_S))
+            for _ in range(20):
+                error = V_S * math.expm1(V_D / self.c1) + V_D - V_CC
+                step = error / (V_S / self.c1 * math.exp(V_D / self.c1) + 1)
+                V_D -= step
+                if step < 1e-9:
+                    break
+            return 1e9 * self.I_S * math.expm1(V_D / self.c1)  # = nA
         return 0
 
 
-- 
2.43.0


From 2bf83c67b2e11a7bffb46c3521d35a414e2fd8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:27 +0000
Subject: [PATCH 63/65] fix: fixtures of another path were answered from the
 cache of the default path

---
 shepherd_core/shepherd_core/testbed_client/fixtures.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/shepherd_core/shepherd_core/testbed_client/fixtures.py b/shepherd_core/shepherd_core/testbed_client/fixtures.py
index b879ffe..b302bd0 100644
--- a/shepherd_core/shepherd_core/testbed_client/fixtures.py
+++ b/shepherd_core/shepherd_core/testbed_client/fixtures.py
@@ -166,6 +166,8 @@ class Fixtures:
 
     @validate_call
     def __init__(self, file_path: Optional[Path] = None, *, reset: bool = False) -> None:
+        # NOTE: the cache only knows the default path
+        use_cache = file_path is None
         if file_path is None:
             self.file_path = Path(__file__).parent.parent.resolve() / "data_models"
         else:
@@ -175,7 +177,8 @@ class Fixtures:
         sheep_detect = Path("/lib/firmware/am335x-pru0-fw").exists()
 
         if (
-            not sheep_detect
+            use_cache
+            and not sheep_detect
             and cache_file.exists()
             and not file_older_than(cache_file, timedelta(hours=24))
             and not reset
@@ -201,7 +204,7 @@ class Fixtures:
 
             if len(self.components) < 1:
                 logger.error(f"No fixture-components found at {self.file_path.as_posix()}")
-            elif sheep_detect:
+            elif use_cache and sheep_detect:
                 cache_file.parent.mkdir(parents=True, exist_ok=True)
                 with cache_file.open("wb", buffering=-1) as fd:
                     pickle.dump(self.components, fd)
-- 
2.43.0


From 5a592fb54e831e370092bcf3990085fbfef25db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:27 +0000
Subject: [PATCH 64/65] fix: web-client ignored the token it was given as text

---
 shepherd_core/shepherd_core/testbed_client/client_web.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/testbed_client/client_web.py b/shepherd_core/shepherd_core/testbed_client/client_web.py
index a86d391..b4c2857 100644
--- a/shepherd_core/shepherd_core/testbed_client/client_web.py
+++ b/shepherd_core/shepherd_core/testbed_client/client_web.py
@@ -92,7 +92,7 @@ class WebClient(AbcClient):
             with token.resolve().open() as file:
                 self._token = file.read()
         elif isinstance(token, str):
-            self._token = self._token
+            self._token = token
 
         if isinstance(server, str):
             self._server = server.lower()
-- 
2.43.0


From fae5d17a633c3b18176726e62d0f2bb2dc926bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:27 +0000
Subject: [PATCH 65/65] fix: web-client could not insert models with special
 types

---
 shepherd_core/shepherd_core/testbed_client/client_web.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/testbed_client/client_web.py b/shepherd_core/shepherd_core/testbed_client/client_web.py
index b4c2857..5b524b3 100644
--- a/shepherd_core/shepherd_core/testbed_client/client_web.py
+++ b/shepherd_core/shepherd_core/testbed_client/client_web.py
@@ -51,7 +51,7 @@ class WebClient(AbcClient):
     def insert(self, data: ShpModel) -> bool:
         wrap = Wrapper(
             datatype=type(data).__name__,
-            parameters=data.model_dump(),
+            parameters=data.model_dump(mode="json"),
         )
         r = self._req.post(self._server + "/add", data=wrap.model_dump_json(), timeout=2)
         r.raise_for_status()
-- 
2.43.0


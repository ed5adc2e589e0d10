W = "shepherd_core/shepherd_core/writer.py"
R = "shepherd_core/shepherd_core/reader.py"
SEEDS = [
    {"id": "c01-interval", "property": "C01",
     "edits": [(W, "time_series_ns = self.sample_interval_ns * np.arange(len_new)",
                "time_series_ns = 10**9 // samplerate_sps_default * np.arange(len_new)")],
     "needs": "a recording at a non-default sample rate that is reopened for modification and extended with only a start time",
     "breaks": "timestamps of the appended rows are spaced by the default interval instead of the one of the recording",
     "demo": '''
import numpy as np
from pathlib import Path
from shepherd_core import Writer, Reader
p = Path("a.h5")
v = np.arange(50, dtype="u4")
with Writer(p) as w:
    w.append_iv_data_raw(np.arange(50, dtype="u8") * 1_000_000, v, v)
with Writer(p, modify_existing=True) as w:
    w.append_iv_data_raw(50 * 1_000_000, v, v)
with Reader(p) as r:
    t = r.ds_time[:]
assert (np.diff(t.astype("i8")) == 1_000_000).all(), np.unique(np.diff(t.astype("i8")))
'''},
    {"id": "c01-align", "property": "C01",
     "edits": [(W, "if self.samplerate_sps != samplerate_sps_default:", "if self.samplerate_sps < samplerate_sps_default:")],
     "needs": "a recording with a sample rate above the default",
     "breaks": "rows of recordings that are not at the default rate get discarded when closing",
     "demo": '''
import numpy as np
from pathlib import Path
from shepherd_core import Writer, Reader
p = Path("a.h5")
v = np.arange(12345, dtype="u4")
with Writer(p) as w:
    w.append_iv_data_raw(np.arange(12345, dtype="u8") * 5000, v, v)
with Reader(p) as r:
    assert r.ds_voltage.shape[0] == 12345, r.ds_voltage.shape
'''},
    {"id": "c02-unique", "property": "C02",
     "edits": [(W, "        if not path.exists():\n            return path\n        counter += 1",
                "        if not path.exists() or counter >= 9:\n            return path\n        counter += 1")],
     "needs": "more than ten recordings stored to the same path",
     "breaks": "the eleventh recording overwrites an earlier one",
     "demo": '''
import hashlib
import numpy as np
from pathlib import Path
from shepherd_core import Writer
p = Path("a.h5")
seen = {}
for i in range(13):
    with Writer(p) as w:
        w.append_iv_data_raw(i, np.full(10, i), np.full(10, i))
        seen[w.file_path] = seen.get(w.file_path, 0) + 1
assert len(seen) == 13, len(seen)
'''},
    {"id": "c03-end", "property": "C03",
     "edits": [(R, "end_n = end_max if end_n is None else min(end_n, end_max)", "end_n = min(end_n or end_max, end_max)")],
     "needs": "reading a range that ends at block 0",
     "breaks": "an empty range delivers the whole recording",
     "demo": '''
import numpy as np
from pathlib import Path
from shepherd_core import Writer, Reader
p = Path("a.h5")
with Writer(p) as w:
    w.append_iv_data_raw(np.arange(30, dtype="u8") * 1000, np.arange(30), np.arange(30))
with Reader(p) as r:
    got = sum(1 for _ in r.read_buffers(end_n=0, n_samples_per_buffer=10))
assert got == 0, got
'''},
    {"id": "c04-gain", "property": "C04",
     "edits": [(R, 'if attr not in self.h5file["data"][dset].attrs:', 'if attr not in self.h5file["data"]["time"].attrs:')],
     "needs": "a file where only the voltage- or current-column lacks its gain or offset",
     "breaks": "a file without complete calibration is judged valid",
     "demo": '''
import h5py
import numpy as np
from pathlib import Path
from shepherd_core import Writer, Reader
p = Path("a.h5")
with Writer(p) as w:
    w.append_iv_data_raw(np.arange(3, dtype="u8"), np.arange(3), np.arange(3))
with h5py.File(p, "a") as f:
    del f["data"]["voltage"].attrs["offset"]
with Reader(p) as r:
    assert not r.is_valid()
'''},
    {"id": "c04-errcount", "property": "C04",
     "edits": [(R, "_items = [1 for _x in _lvl[:] if _x >= min_level]", "_items = [1 for _x in _lvl[:256] if _x >= min_level]")],
     "needs": "a log with more than 256 entries",
     "breaks": "errors late in the log are not counted",
     "demo": '''
import h5py
import numpy as np
from pathlib import Path
from shepherd_core import Writer, Reader
p = Path("a.h5")
with Writer(p) as w:
    w.append_iv_data_raw(np.arange(3, dtype="u8"), np.arange(3), np.arange(3))
with h5py.File(p, "a") as f:
    f.create_group("sheep").create_dataset("level", data=np.array([10] * 300 + [50] * 5))
with Reader(p) as r:
    assert r.count_errors_in_log() == 5
'''},
]

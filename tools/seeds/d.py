"""Seeds, part d: C28, C29 and further ones."""
D = "shepherd_core/shepherd_core/data_models/"
VS = D + "content/virtual_source.py"
VH = D + "content/virtual_harvester.py"
FILE = '''
import numpy as np
import h5py
from pathlib import Path
from shepherd_core import Writer, Reader, CalibrationSeries
def mk(p, n, dt=10_000, v=None, i=None, t0=0, host=None, **kw):
    with Writer(Path(p), **kw) as w:
        if host:
            w.store_hostname(host)
        w.append_iv_data_raw(t0 + np.arange(n, dtype="u8") * dt, np.zeros(n, "u4") if v is None else np.asarray(v), np.zeros(n, "u4") if i is None else np.asarray(i))
    return Path(p)
'''
WEB = '''
import json, threading
from http.server import BaseHTTPRequestHandler, HTTPServer
from shepherd_core import WebClient
ASKED = []
def serve(**codes):
    class H(BaseHTTPRequestHandler):
        def log_message(self, *a):
            pass
        def any(self):
            self.rfile.read(int(self.headers.get("Content-Length") or 0))
            ASKED.append(self.path)
            what = self.path.split("/")[-1].split("?")[0]
            body = json.dumps({"session_key": {"value": "x"}, "user": {"name": "me", "group": "us", "email": "a@b.org"}}.get(what, {})).encode()
            self.send_response(codes.get(what, 200))
            self.send_header("Content-Length", str(len(body)))
            self.end_headers()
            self.wfile.write(body)
        do_GET = do_POST = any
    s = HTTPServer(("127.0.0.1", 0), H)
    threading.Thread(target=s.serve_forever, daemon=True).start()
    return s, f"http://127.0.0.1:{s.server_port}/tb"
'''

SEEDS = [
    {"id": "c28-lut", "property": "C28",
     "edits": [(VS, "LUT1D = Annotated[List[NormedNum], Field(min_length=LUT_SIZE, max_length=LUT_SIZE)]", "LUT1D = Annotated[List[NormedNum], Field(min_length=LUT_SIZE - 1, max_length=LUT_SIZE)]")],
     "needs": "a table of efficiencies with 11 columns",
     "breaks": "an incomplete table is accepted",
     "demo": '''
from shepherd_core.data_models import VirtualSourceConfig
ok = dict(name="own", id=7654321, owner="t", group="t", harvester={"name": "cv24"})
VirtualSourceConfig(**ok, LUT_output_efficiency=[0.5] * 12)
for n in (10, 11, 13):
    try:
        VirtualSourceConfig(**ok, LUT_output_efficiency=[0.5] * n)
        raise SystemExit(f"{n} columns accepted")
    except ValueError:
        pass
'''},
    {"id": "c28-reg", "property": "C28",
     "edits": [(VS, "u8 = Annotated[int, Field(ge=0, lt=2**8)]", "u8 = Annotated[int, Field(ge=0, le=2**8)]")],
     "needs": "an entry of the input table that is exactly 256",
     "breaks": "a register set holds a value that does not fit its 8 bit",
     "demo": '''
from shepherd_core.data_models.content.virtual_source import ConverterPRUConfig
d = {f: 3 for f in ConverterPRUConfig.model_fields}
d.update(LUT_inp_efficiency_n8=[[255] * 12 for _ in range(12)], LUT_out_inv_efficiency_n4=[3] * 12)
ConverterPRUConfig(**d)
d["LUT_inp_efficiency_n8"][5][7] = 256
try:
    ConverterPRUConfig(**d)
    raise SystemExit("accepted")
except ValueError:
    pass
'''},
    {"id": "c28-gain", "property": "C28",
     "edits": [(D + "base/calibration.py", "    gain: PositiveFloat", "    gain: float")],
     "needs": "a calibration with a gain of zero or below",
     "breaks": "a calibration without inverse is accepted",
     "demo": '''
from shepherd_core.data_models.base.calibration import CalibrationPair
CalibrationPair(gain=0.5, offset=-1)
for g in (0, -1.5):
    try:
        CalibrationPair(gain=g, offset=0)
        raise SystemExit(f"gain {g} accepted")
    except ValueError:
        pass
'''},
    {"id": "c28-default", "property": "C28",
     "edits": [(VS, "V_pwr_good_disable_threshold_mV: Annotated[float, Field(ge=0, le=10_000)] = 2200", "V_pwr_good_disable_threshold_mV: Annotated[float, Field(ge=0, le=10_000)] = 2400")],
     "needs": "a source that does not name its lower power-good threshold",
     "breaks": "the threshold has another value than documented",
     "demo": '''
from shepherd_core.data_models import VirtualSourceConfig
s = VirtualSourceConfig(name="own", id=7654321, owner="t", group="t", harvester={"name": "cv24"})
assert s.V_pwr_good_disable_threshold_mV == 2200
'''},
    {"id": "c20-diode", "property": "C20",
     "edits": [("shepherd_core/shepherd_core/vsource/target_model.py", "        n = 2  # ideality factor", "        n = 2 if R_Ohm < 500 else 1  # ideality factor")],
     "needs": "a diode behind a large resistor below its forward-voltage",
     "breaks": "current follows another exponential",
     "demo": '''
import math
from shepherd_core.vsource.target_model import DiodeTarget
d = DiodeTarget(V_forward_V=2.0, I_forward_A=5e-3, R_Ohm=1000)
v1, v2 = 1_700_000, 1_600_000
i1, i2 = (d.step(v, pwr_good=True) for v in (v1, v2))
dv = (v1 - i1 * 1.0) - (v2 - i2 * 1.0)   # uV; 1 kOhm * 1 nA = 1 uV
oct_ = dv / math.log2(i1 / i2)
assert 43_000 < oct_ < 46_000, oct_
'''},
]
SD = "shepherd_data/shepherd_data/"
SC = "shepherd_core/shepherd_core/"
SEEDS += [
    {"id": "c06-batch", "property": "C06",
     "edits": [(SD + "cli.py", "                if lines is None:\n                    continue", "                if lines is None:\n                    break")],
     "needs": "extraction of uart from a directory in which a recording without gpio-trace precedes one with it",
     "breaks": "recordings behind the first one without uart are not exported",
     "demo": FILE + '''
import shutil, sys, tempfile
from click.testing import CliRunner
from shepherd_data.cli import cli
d = Path(tempfile.mkdtemp())
def rec(p, bits):
    with Writer(p, mode="harvester", datatype="ivsample", compression=None, verbose=False) as w:
        w.append_iv_data_raw(np.arange(10_000) * 10_000, np.ones(10_000, "u4"), np.ones(10_000, "u4"))
    if bits:
        import h5py, yaml
        ts, vs, t = [0], [1], 10_000_000
        for ch in b"Hello World, Hello":
            for b in [0, *[(ch >> k) & 1 for k in range(8)], 1]:
                ts.append(t); vs.append(b); t += 100_000
        ts.append(t + 50_000_000); vs.append(1)
        with h5py.File(p, "a") as f:
            if "gpio" in f:
                del f["gpio"]
            g = f.create_group("gpio")
            g["time"] = np.array(ts, "u8"); g["value"] = np.array(vs, "u2")
            g["value"].attrs["description"] = yaml.safe_dump({"0": {"name": "uart_rx"}})
names = [f"r{k}.h5" for k in range(6)]
try:
    for n in names:
        rec(d / n, n != "r2.h5" and n != "r3.h5")
    r = CliRunner().invoke(cli, ["extract-uart", str(d)])
    got = sorted(p.name for p in d.glob("*.uart_from_wf.log"))
    assert len(got) == 4, (got, r.output)
finally:
    shutil.rmtree(d)
'''},
    {"id": "c07-sign", "property": "C07",
     "edits": [(SC + "reader.py", "gpio_ps = (gpio_vs[:] & (0b1 << pin_num)) > 0", "gpio_ps = (gpio_vs[:].astype(np.int16) & np.int16(0b1 << (pin_num - 16 * (pin_num > 15)) if pin_num < 15 else -(1 << 15))) > 0")],
     "needs": "a trace that uses the highest of its 16 lines",
     "breaks": "the line never gets high",
     "demo": "", "skip": True},
    {"id": "c07-dup", "property": "C07",
     "edits": [(SC + "reader.py", "pin_dict = {value[\"name\"]: int(key) for key, value in descriptions.items()}", "pin_dict = {value[\"name\"]: k for k, value in enumerate(descriptions.values())}")],
     "needs": "a description whose lines are not numbered consecutively from 0 on",
     "breaks": "the waveforms belong to other lines",
     "demo": FILE + '''
import h5py, yaml
p = mk("a.h5", 10_000)
with h5py.File(p, "a") as f:
    if "gpio" in f:
        del f["gpio"]
    g = f.create_group("gpio")
    g["time"] = np.arange(10, dtype="u8") * 1000
    g["value"] = np.array([0, 8, 0, 8, 0, 8, 0, 8, 0, 8], "u2")
    g["value"].attrs["description"] = yaml.safe_dump({"1": {"name": "one"}, "3": {"name": "three"}})
with Reader(p) as r:
    w = r.gpio_to_waveforms()
assert len(w["three"]) == 10 and len(w["one"]) == 1, w
'''},
    {"id": "c14-pomax", "property": "C14",
     "edits": [(SC + "vsource/virtual_harvester_model.py", "            if self.voltage_set_uV >= self._cfg.voltage_max_uV:", "            if self.voltage_set_uV > self._cfg.voltage_max_uV + self.volt_step_uV:")],
     "needs": "a perturb-and-observe harvester whose power rises up to its maximum voltage",
     "breaks": "its set-point exceeds the maximum",
     "demo": '''
from shepherd_core.data_models import VirtualHarvesterConfig
from shepherd_core.data_models.content.virtual_harvester import HarvesterPRUConfig
from shepherd_core.vsource import VirtualHarvesterModel
cfg = VirtualHarvesterConfig(name="mppt_po", voltage_mV=1000, voltage_max_mV=2000)
pru = HarvesterPRUConfig.from_vhrv(cfg, for_emu=True, dtype_in="ivcurve", window_size=50, voltage_step_V=0.1)
m = VirtualHarvesterModel(pru)
for _ in range(3000):
    for k in range(50):
        m.ivcurve_sample(k * 100_000, 1_000_000)
        assert m.voltage_set_uV <= pru.voltage_max_uV, m.voltage_set_uV
'''},
    {"id": "c14-shared", "property": "C14",
     "edits": [(SC + "vsource/virtual_harvester_model.py", "        self.voc_min: int = max(1000, self._cfg.voltage_min_uV)", "        type(self).voc_min = max(1000, self._cfg.voltage_min_uV)")],
     "needs": "two harvesters with different minimum voltages at the same time",
     "breaks": "the first one uses the minimum of the second",
     "demo": '''
from shepherd_core.data_models import VirtualHarvesterConfig
from shepherd_core.data_models.content.virtual_harvester import HarvesterPRUConfig
from shepherd_core.vsource import VirtualHarvesterModel
def mk(mv):
    cfg = VirtualHarvesterConfig(name="mppt_voc", voltage_mV=3500, voltage_min_mV=mv)
    return VirtualHarvesterModel(HarvesterPRUConfig.from_vhrv(cfg, for_emu=True, dtype_in="ivcurve", window_size=50, voltage_step_V=0.1))
def run(m):
    return [m.ivcurve_sample(k % 50 * 100_000, 0 if 5 < k % 50 < 12 or k % 50 > 40 else 1_000_000) for k in range(5000)]
alone = run(mk(0))
a = mk(0); b = mk(3000)
assert run(a) == alone
'''},
    {"id": "c15-startup", "property": "C15",
     "edits": [(SC + "vsource/virtual_converter_model.py", "            self.interval_startup_disabled_drain_n -= 1\n            self.P_out_fW = 0.0", "            self.interval_startup_disabled_drain_n -= 1\n            self.P_out_fW = P_leak_fW")],
     "needs": "a source with leakage during its start-up delay",
     "breaks": "the storage is drained although draining is disabled",
     "demo": '''
from shepherd_core import CalibrationEmulator
from shepherd_core.data_models import VirtualSourceConfig
from shepherd_core.vsource import VirtualSourceModel
s = VirtualSourceConfig(name="BQ25504", interval_startup_delay_drain_ms=10, I_intermediate_leak_nA=1000)
m = VirtualSourceModel(s, CalibrationEmulator(), log_intermediate=False)
m.cnv.calc_inp_power(0, 0)
assert m.cnv.calc_out_power(0) == 0
'''},
    {"id": "c16-trunc", "property": "C16",
     "edits": [(SC + "data_models/content/virtual_harvester.py", "interval_n=round(interval_ms * samplerate_sps_default * 1e-3)", "interval_n=int(interval_ms * samplerate_sps_default * 1e-3)")],
     "needs": "an interval whose product with the rate is slightly below a whole number in floating point",
     "breaks": "the register is one sample too small",
     "demo": '''
from shepherd_core.data_models import VirtualHarvesterConfig
from shepherd_core.data_models.content.virtual_harvester import HarvesterPRUConfig
bad = []
for k in range(1, 3000):
    ms = k / 100
    try:
        c = VirtualHarvesterConfig(name="mppt_voc", interval_ms=ms, duration_ms=min(ms, 0.1) / 2, samples_n=8)
        p = HarvesterPRUConfig.from_vhrv(c, for_emu=True, dtype_in="ivcurve", window_size=8, voltage_step_V=0.1)
    except ValueError:
        continue
    i, _ = c.calc_timings_ms(for_emu=True)
    if p.interval_n != round(i * 100):
        bad.append((ms, i, p.interval_n))
assert not bad, bad[:5]
'''},
    {"id": "c18-kind", "property": "C18",
     "edits": [(SC + "data_models/base/shepherd.py", "if shp_wrap.datatype != cls.__name__:", "if not cls.__name__.endswith(shp_wrap.datatype):")],
     "needs": "loading a file as a kind whose name ends with the name of the stored kind",
     "breaks": "a file with another kind of model is accepted",
     "demo": '''
import tempfile
from pathlib import Path
from shepherd_core.data_models.task import EmulationTask
from shepherd_core.inventory import Inventory, PythonInventory, TargetInventory
t = TargetInventory(targets=["nRF52"]) if "targets" in TargetInventory.model_fields else TargetInventory.collect()
class Own(TargetInventory):
    pass
Own.__name__ = "MyTargetInventory"
p = t.to_file(Path(tempfile.mkdtemp()) / "t.yaml")
assert TargetInventory.from_file(p) == t
try:
    Own.from_file(p)
    raise SystemExit("accepted")
except ValueError:
    pass
'''},
    {"id": "c19-stale", "property": "C19",
     "edits": [(SC + "fw_tools/patcher.py", "        file_new = file_elf.with_name(file_elf.stem + \"_\" + str(value) + file_elf.suffix)\n        # could be simplified", "        file_new = file_elf.with_name(file_elf.stem + \"_\" + str(value) + file_elf.suffix)\n        if file_new.exists():\n            return file_new\n        # could be simplified")],
     "needs": "changing a firmware under a name for which a result of an older version exists",
     "breaks": "the outdated result is returned as the new one",
     "demo": "", "skip": True},
    {"id": "c23-top", "property": "C23",
     "edits": [(SD + "ivonne.py", '''        with Writer(shp_output, datatype="isc_voc") as sfw:
            sfw.store_hostname("IVonne")
            interval_us = round(sfw.sample_interval_ns / 1000)
            up_factor = self.sample_interval_ns // sfw.sample_interval_ns
            max_elements = math.ceil(sfw.max_elements // up_factor)''', '''        with Writer(shp_output, datatype="isc_voc") as sfw:
            sfw.store_hostname("IVonne")
            interval_us = round(sfw.sample_interval_ns / 1000)
            up_factor = self.sample_interval_ns // sfw.sample_interval_ns
            max_elements = max(1, math.floor(sfw.max_elements / up_factor)) if up_factor < sfw.max_elements // 8 else 2''')],
     "needs": "", "breaks": "", "demo": "", "skip": True},
    {"id": "c23-voc", "property": "C23",
     "edits": [(SD + "mppt.py", "lambda x: max(0, np.count_nonzero(self.v_proto < self.ratio * x[\"voc\"]) - 1)", "lambda x: max(0, np.count_nonzero(self.v_proto < self.ratio * coeffs[\"voc\"].iloc[0]) - 1)")],
     "needs": "a source whose open-circuit voltage changes", "breaks": "", "demo": "", "skip": True},
    {"id": "c25-cache", "property": "C25",
     "edits": [(SC + "testbed_client/fixtures.py", "not file_older_than(cache_file, timedelta(hours=24))", "not file_older_than(cache_file, timedelta(hours=24 * 7))")],
     "needs": "a cache that is between a day and a week old",
     "breaks": "the database answers from the outdated cache",
     "demo": '''
import os, pickle, tempfile, time
from pathlib import Path
from shepherd_core.testbed_client import fixtures as F
d = Path(tempfile.mkdtemp())
F.cache_user_path = d
(d / "fixtures.pickle").write_bytes(pickle.dumps({}))
for h in (25, 47, 100, 200):
    t = time.time() - h * 3600
    os.utime(d / "fixtures.pickle", (t, t))
    assert "gpio" in F.Fixtures().components, h
'''},
    {"id": "c26-crlf", "property": "C26",
     "edits": [(SC + "inventory/__init__.py", 'content = ["" if value is None else str(value) for value in content]', 'content = ["" if value is None else str(value) for value in content if value != []]')],
     "needs": "devices with and without entries in one of their lists",
     "breaks": "columns of a device shift",
     "demo": '''
import tempfile
from datetime import datetime
from pathlib import Path
from shepherd_core.inventory import Inventory, InventoryList
inv = dict(uptime=3, timestamp=datetime(2024, 1, 1), fs_root=["a"], beagle=["b"], system="Linux", release="6", version="1", machine="arm", processor="p", hostname="h", created=datetime(2024, 1, 2))
a = Inventory(**inv)
b = Inventory(**{**inv, "fs_root": [], "beagle": []})
p = Path(tempfile.mkdtemp()) / "x.csv"
InventoryList(elements=[a, b]).to_csv(p)
lines = p.read_text().splitlines()
head = [x for x in lines if x.strip()][0].split(", ")
rows = [x for x in lines if x.strip()][1:]
assert rows[1].count(", ") == rows[0].count(", ") == len(head) - 1, rows
'''},
    {"id": "c29-owner", "property": "C29",
     "edits": [(SC + "testbed_client/client_web.py", '        if values.get("group") is None:\n            values["group"] = self._user.group', '        if values.get("group", "") is not None:\n            values.setdefault("group", self._user.group)')],
     "needs": "an explicit None as group",
     "breaks": "the group stays empty",
     "demo": '''
from shepherd_core import WebClient
from shepherd_core.testbed_client.user_model import User
c = object.__new__(WebClient)
c._user = User(name="me", group="us", email="a@b.org")
assert c.fill_in_user_data({"group": None})["group"] == "us"
assert c.fill_in_user_data({})["group"] == "us"
'''},
    {"id": "c29-status", "property": "C29",
     "edits": [(SC + "testbed_client/client_web.py", '''        r = self._req.post(self._server + "/add", data=wrap.model_dump_json(), timeout=2)
        r.raise_for_status()
        return True''', '''        r = self._req.post(self._server + "/add", data=wrap.model_dump_json(), timeout=2)
        return r.status_code < 500''')],
     "needs": "a server that refuses an entry",
     "breaks": "the error does not surface",
     "demo": WEB + '''
from shepherd_core.data_models.testbed import GPIO
srv, url = serve(add=403)
c = WebClient(server=url)
try:
    c.insert(GPIO(id=8_000_000, name="own", comment="x", reg_pru="r31_00", pin_pru="P8_45"))
    raise SystemExit("refusal got lost")
except SystemExit:
    raise
except Exception:
    pass
'''},
    {"id": "c29-token", "property": "C29",
     "edits": [(SC + "testbed_client/client_web.py", "                self._token = file.read()", "                self._token = file.read(128)")],
     "needs": "a file with a token as long as the generated ones",
     "breaks": "only the beginning of the token is used",
     "demo": WEB + '''
import tempfile
from pathlib import Path
tok = "shepherd_token_" + "ab-_" * 42
srv, url = serve()
p = Path(tempfile.mkdtemp()) / "tok"
p.write_text(tok)
WebClient(server=url, token=p)
assert ASKED[-1].endswith("token=" + tok), ASKED
'''},
]

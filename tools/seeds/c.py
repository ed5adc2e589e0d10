C = "shepherd_core/shepherd_core/"
W = C + "writer.py"
R = C + "reader.py"
D = "shepherd_data/shepherd_data/reader.py"
CLI = "shepherd_data/shepherd_data/cli.py"
IVO = "shepherd_data/shepherd_data/ivonne.py"
MPP = "shepherd_data/shepherd_data/mppt.py"
U = C + "decoder_waveform/uart.py"
FX = C + "testbed_client/fixtures.py"
ABC = C + "testbed_client/client_abc_fix.py"
INV = C + "inventory/__init__.py"
XP = C + "data_models/experiment/experiment.py"
OF = C + "data_models/experiment/observer_features.py"
TC = C + "data_models/experiment/target_config.py"
EM = C + "data_models/task/emulation.py"
OT = C + "data_models/task/observer_tasks.py"
TT = C + "data_models/task/testbed_tasks.py"
PR = C + "data_models/task/programming.py"
FM = C + "data_models/task/firmware_mod.py"
TB = C + "data_models/testbed/testbed.py"
TG = C + "data_models/testbed/target.py"
OB = C + "data_models/testbed/observer.py"
GP = C + "data_models/testbed/gpio.py"
SI = C + "vsource/virtual_source_simulation.py"
TM = C + "vsource/target_model.py"
SH = C + "data_models/base/shepherd.py"
PA = C + "fw_tools/patcher.py"
CV = C + "fw_tools/converter.py"

FILE = '''
import numpy as np
import h5py
from pathlib import Path
from shepherd_core import Writer, Reader, CalibrationSeries
def mk(p, n, dt=10_000, v=None, i=None, t0=0, host=None, **kw):
    with Writer(Path(p), **kw) as w:
        if host:
            w.store_hostname(host)
        w.append_iv_data_raw(t0 + np.arange(n, dtype="u8") * dt, np.zeros(n, "u4") if v is None else np.asarray(v), np.zeros(n, "u4") if i is None else np.asarray(i))
    return Path(p)
'''

SEEDS = [
    {"id": "c22-offset", "property": "C22",
     "edits": [(D, 'data["time"] - self._cal.time.raw_to_si(self.ds_time[0])', 'data["time"] - data["time"][0]')],
     "needs": "a plot of a range that does not begin with the recording",
     "breaks": "relative times start at the range instead of the recording",
     "demo": FILE + '''
from shepherd_data import Reader as PReader
p = mk("a.h5", 50_000)
with PReader(p) as r:
    d = r.generate_plot_data(0.1, 0.3)
assert abs(d["time"][0] - 0.1) < 1e-6, d["time"][:3]
'''},
    {"id": "c22-drop", "property": "C22",
     "edits": [(CLI, '''                    if date is None:
                        continue
''', '''                    if date is None:
                        break
''')],
     "needs": "a joint plot of a directory where a recording with too few samples precedes others",
     "breaks": "the recordings after the short one are missing in the joint plot",
     "demo": FILE + '''
import os
from click.testing import CliRunner
from shepherd_data.cli import cli
from shepherd_data import Reader as PReader
os.mkdir("d")
for k in range(4):
    mk(f"d/{k}.h5", 20_000, host=f"sheep{k}")
first = sorted(os.listdir("d"))
from shepherd_data.cli import path_to_flist
fl = path_to_flist(Path("d"))
os.remove(fl[0])
mk(fl[0], 3, host="lamb")
got = []
org = PReader.assemble_plot
PReader.assemble_plot = staticmethod(lambda data, *a, **k: (got.append(len(data)), org(data, *a, **k))[1])
res = CliRunner().invoke(cli, ["plot", "d", "--multiplot", "-w", "4", "-h", "4"])
assert got == [3], (got, res.output)
'''},
    {"id": "c23-trim", "skip": True, "property": "C23",
     "edits": [(IVO, '''                df_slice = self._df.iloc[idx : idx_top + 1].copy()
                df_slice.loc[:, "voc"] = get_voc(df_slice)
                df_slice.loc[df_slice["voc"] >= v_max, "voc"] = v_max
                df_slice.loc[:, "isc"]''', '''                df_slice = self._df.iloc[idx : min(idx_top + 1, df_elements_n)].copy()
                df_slice.loc[:, "voc"] = get_voc(df_slice)
                df_slice.loc[df_slice["voc"] >= v_max, "voc"] = v_max
                df_slice.loc[:, "isc"]''')],
     "needs": "a conversion to isc-voc that is trimmed to a duration shorter than the source",
     "breaks": "the result does not cover the requested duration",
     "demo": '''
import pickle
import numpy as np, pandas as pd
from pathlib import Path
from shepherd_data.ivonne import Reader
from shepherd_core import Reader as CR
n = 100
df = pd.DataFrame({"time": np.arange(n) / 50, "a": np.linspace(1e-3, 2e-3, n), "b": np.full(n, 1e-9), "c": np.full(n, 5.0)})
with open("s.iv", "wb") as f:
    pickle.dump(df, f)
with Reader(Path("s.iv"), samplerate_sps=50) as r:
    r.upsample_2_isc_voc(Path("o.h5"), duration_s=1.0)
with CR(Path("o.h5")) as r:
    assert abs(r.runtime_s - 1.0) < 0.05, r.runtime_s
'''},
    {"id": "c23-vmax", "property": "C23",
     "edits": [(IVO, '''            tracker = OptimalTracker(
                v_max,
            )''', '''            tracker = OptimalTracker()''')],
     "needs": "a conversion to samples with another voltage limit than 5 V and a panel whose best voltage is higher",
     "breaks": "operating points are above the voltage limit",
     "demo": '''
import pickle
import numpy as np, pandas as pd
from pathlib import Path
from shepherd_data.ivonne import Reader
from shepherd_core import Reader as CR
n = 20
df = pd.DataFrame({"time": np.arange(n) / 50, "a": np.full(n, 1e-3), "b": np.full(n, 1e-9), "c": np.full(n, 4.0)})
with open("s.iv", "wb") as f:
    pickle.dump(df, f)
with Reader(Path("s.iv"), samplerate_sps=50) as r:
    r.convert_2_ivsamples(Path("o.h5"), v_max=2.0)
with CR(Path("o.h5")) as r:
    v = r._cal.voltage.raw_to_si(r.ds_voltage[:])
assert v.max() <= 2.001, v.max()
'''},
    {"id": "c24-dst", "property": "C24",
     "edits": [(EM, 'values["time_start"] = values["time_start"].astimezone()', 'values["time_start"] = values["time_start"].replace(tzinfo=local_tz())')],
     "needs": "a local wall-clock start in the other half of the year in a zone with daylight-saving",
     "breaks": "the emulation starts one hour off",
     "demo": '''
import os, time
os.environ["TZ"] = "CET-1CEST,M3.5.0,M10.5.0/3"
time.tzset()
from datetime import datetime, timedelta, timezone
from shepherd_core.data_models.task import EmulationTask
y = datetime.now().year + 1
for m, off in ((1, 1), (7, 2)):
    t = EmulationTask(input_path="x.h5", time_start=f"{y}-0{m}-10T12:00:00", virtual_source={"name": "direct"})
    assert t.time_start == datetime(y, m, 10, 12 - off, tzinfo=timezone.utc), t.time_start
'''},
    {"id": "c24-delay", "property": "C24",
     "edits": [(OF, '''            raise ValueError("Error in config -> tracing enabled but mask is 0")
        if self.delay and self.delay.total_seconds() < 0:''', '''            raise ValueError("Error in config -> tracing enabled but mask is 0")
        if self.delay and self.delay.seconds < 0:''')],
     "needs": "a negative delay of gpio-tracing",
     "breaks": "a tracing that begins before the start is admitted",
     "demo": '''
from shepherd_core.data_models import GpioTracing
try:
    GpioTracing(delay=-1)
    raise SystemExit("admitted")
except ValueError:
    pass
'''},
    {"id": "c25-break", "property": "C25",
     "edits": [(FX, '''                if not isinstance(fixture, dict):
                    continue''', '''                if not isinstance(fixture, dict):
                    break''')],
     "needs": "a fixture-file with an entry that is no record in front of others",
     "breaks": "the entries behind are missing in the database",
     "demo": '''
from pathlib import Path
from shepherd_core.testbed_client.fixtures import Fixtures
Path("f.yaml").write_text("- datatype: gpio\\n  parameters: {id: 1, name: a}\\n- note\\n- datatype: gpio\\n  parameters: {id: 2, name: b}\\n")
fx = Fixtures(Path("f.yaml"))
assert list(fx["gpio"].keys()) == ["a", "b"], list(fx["gpio"].keys())
'''},
    {"id": "c25-zero", "skip": True, "property": "C25",
     "edits": [(ABC, "        if uid is not None:\n", "        if uid:\n")],
     "needs": "an entry with id zero",
     "breaks": "the entry with id zero can not be queried by its id",
     "demo": '''
from shepherd_core.testbed_client.client_abc_fix import tb_client
from shepherd_core.data_models.testbed import GPIO
tb_client.insert(GPIO(id=0, name="zero_gpio", direction="IN", reg_pru="a", pin_pru="b"))
assert tb_client.query_item("GPIO", uid=0)["name"] == "zero_gpio"
'''},
    {"id": "c26-first", "property": "C26",
     "edits": [(INV, "ts_earl = min([_e.created.timestamp() for _e in self.elements])", "ts_earl = self.elements[0].created.timestamp()")],
     "needs": "an overview whose first device is not the earliest one",
     "breaks": "a host with a late clock is not reported",
     "demo": '''
from datetime import datetime, timedelta
from shepherd_core.inventory import Inventory, InventoryList
t = datetime(2024, 1, 1)
def mk(host, dt):
    return Inventory(hostname=host, created=t + timedelta(seconds=dt), timestamp=t, uptime=5, system="a", release="b", version="c", machine="d", processor="e", fs_root=[], beagle=[])
w = InventoryList(elements=[mk("a", 60), mk("b", 0), mk("c", 61)]).warn()
assert "time_delta" in w, w
'''},
    {"id": "c26-falsy", "property": "C26",
     "edits": [(INV, '["" if value is None else str(value) for value in content]', '[str(value) if value else "" for value in content]')],
     "needs": "a device with a value that counts as false, i.e. an up-time of zero",
     "breaks": "the value is missing in the csv-export",
     "demo": '''
from datetime import datetime, timedelta
from pathlib import Path
from shepherd_core.inventory import Inventory, InventoryList
t = datetime(2024, 1, 1)
i = Inventory(hostname="a", created=t, timestamp=t, uptime=0, system="a", release="b", version="c", machine="d", processor="e", fs_root=[], beagle=[])
InventoryList(elements=[i]).to_csv(Path("o.csv"))
head, row = (x.split(", ") for x in Path("o.csv").read_text().splitlines() if x)
assert row[head.index("uptime")] == "0", row
'''},
    {"id": "c27-tbid", "property": "C27",
     "edits": [(TG, 'values["testbed_id"] = values.get("id") % 2**16', 'values["testbed_id"] = values.get("id") % (2**16 - 1)')],
     "needs": "a target with an id of 65535 or more, without testbed-id",
     "breaks": "the derived testbed-id is not the lower part of the id",
     "demo": '''
from shepherd_core.data_models.testbed import Target
t = Target(id=70_001, name="foreign", version="1", description="x", mcu1="nRF52")
assert t.testbed_id == 70_001 - 65_536, t.testbed_id
'''},
    {"id": "c27-pin", "property": "C27",
     "edits": [(GP, "no_pru = (self.reg_pru is None) or (self.pin_pru is None)", "no_pru = (self.reg_pru is None) and (self.pin_pru is None)")],
     "needs": "a gpio of which only one half of the pru-pin is known",
     "breaks": "an incomplete gpio is admitted",
     "demo": '''
from shepherd_core.data_models.testbed import GPIO
try:
    GPIO(id=9_999, name="foreign", reg_pru="r31")
    raise SystemExit("admitted")
except ValueError:
    pass
'''},
    # further ones for the first properties
    {"id": "c06-skip", "property": "C06",
     "edits": [(CLI, '''                if lines is None:
                    continue
''', '''                if lines is None:
                    break
''')],
     "needs": "extraction of uart from a directory where a recording without uart-pin precedes others",
     "breaks": "recordings behind it are not extracted",
     "demo": "", "skip": True},
    {"id": "c10-custom", "property": "C10",
     "edits": [(TC, "len(set(c_ids)) < len(set(t_ids))", "len(c_ids) < len(t_ids)")],
     "needs": "a target-configuration with repeated custom IDs, enough in number, where the spare one does not repeat",
     "breaks": "custom ids that do not suffice are admitted",
     "demo": '''
from shepherd_core.data_models.experiment import TargetConfig
try:
    TargetConfig(target_IDs=[1, 2], custom_IDs=[5, 5], energy_env={"name": "SolarSunny"}, firmware1={"name": "nrf52_demo_rf"})
    raise SystemExit("admitted")
except ValueError:
    pass
'''},
    {"id": "c11-nodeid", "property": "C11",
     "edits": [(FM, '''        fw_id = tgt_cfg.get_custom_id(tgt_id)
        if fw_id is None:''', '''        fw_id = tgt_cfg.get_custom_id(tgt_id)
        if not fw_id:''')],
     "needs": "a custom id of zero",
     "breaks": "the firmware receives the id of the target instead of the requested one",
     "demo": '''
from datetime import datetime, timedelta
from shepherd_core.data_models import *
from shepherd_core.data_models.task import TestbedTasks
from shepherd_core.data_models.experiment import Experiment, TargetConfig
xp = Experiment(name="x", id=4711, duration=10, target_configs=[TargetConfig(target_IDs=[1], custom_IDs=[0], energy_env={"name": "SolarSunny"}, firmware1={"name": "nrf52_demo_rf"})])
t = TestbedTasks.from_xp(xp)
assert t.observer_tasks[0].fw1_mod.custom_id == 0, t.observer_tasks[0].fw1_mod.custom_id
'''},
    {"id": "c11-owner", "property": "C11",
     "edits": [(OT, 'fw1_prog=ProgrammingTask.from_xp(xp, tb, tgt_id, 1, fw_paths[0])', 'fw1_prog=ProgrammingTask.from_xp(xp, tb, xp.get_target_ids()[0], 1, fw_paths[0])')],
     "needs": "an experiment with targets on different ports or different firmwares",
     "breaks": "the firmware is programmed to the port (and with the parameters) of another target",
     "demo": "", "skip": True},
    {"id": "c12-order", "property": "C12",
     "edits": [(OT, '''            if task is None:
                continue
            tasks.append(task)''', '''            if task is None:
                break
            tasks.append(task)''')],
     "needs": "tasks of an observer without firmware-modification, but with later tasks",
     "breaks": "the tasks behind the missing one are not executed",
     "demo": '''
from datetime import datetime
from shepherd_core.data_models.task import ObserverTasks, EmulationTask
o = ObserverTasks(observer="sheep01", owner_id=1, time_prep=datetime.now(), root_path="/tmp", abort_on_error=False, emulation={"input_path": "x.h5", "virtual_source": {"name": "direct"}})
assert len(o.get_tasks()) == 1, o.get_tasks()
'''},
    {"id": "c13-break", "property": "C13",
     "edits": [(TB, '''            if not _observer.active or _observer.cape is None or not _observer.cape.active:
                # skip decommissioned setups
                continue''', '''            if not _observer.active or _observer.cape is None or not _observer.cape.active:
                # skip decommissioned setups
                break''')],
     "needs": "a testbed with a decommissioned observer in front of active ones",
     "breaks": "targets of the observers behind can not be found",
     "demo": '''
from shepherd_core.data_models.testbed import Testbed, Observer
tb = Testbed()
obs = [o.model_dump() for o in tb.observers]
k = next(i for i, o in enumerate(tb.observers) if o.active and o.cape is not None and o.cape.active and o.target_a is not None and o.target_a.active and i > 0)
tid = tb.observers[k].target_a.id
assert tb.get_observer(tid).id == tb.observers[k].id
obs[0]["active"] = False
d = tb.model_dump(); d["observers"] = obs
tb2 = Testbed(**d)
assert tb2.get_observer(tid).id == tb.observers[k].id
'''},
    {"id": "c13-port", "property": "C13",
     "edits": [(OB, "self.target_b is not None and target_id == self.target_b.id and self.target_b.active", "self.target_b is not None and target_id == self.target_b.id")],
     "needs": "an observer whose second target is decommissioned",
     "breaks": "an inactive target is offered",
     "demo": '''
from shepherd_core.data_models.testbed import Observer, Testbed
t = lambda i, a: dict(id=i, name=f"foreign{i}", version="1", description="x", mcu1="nRF52", active=a)
tb = Testbed()
cape = next(o.cape for o in tb.observers if o.cape is not None)
o = Observer(id=9999, name="foreign", description="x", ip="10.1.2.3", mac="00:11:22:33:44:55", room="r", eth_port="e", cape=cape.model_dump(), target_a=t(7001, True), target_b=t(7002, False))
assert o.has_target(7001) and not o.has_target(7002)
'''},
    {"id": "c19-cut", "property": "C19",
     "edits": [(PA, 'file_new = file_elf.with_name(file_elf.stem + "_" + str(value) + file_elf.suffix)', 'file_new = file_elf.with_name(file_elf.stem + "_" + str(value % 2**15) + file_elf.suffix)')],
     "needs": "changing an elf to two identifiers that differ by 32768",
     "breaks": "the second result replaces the first one",
     "demo": "", "skip": True},
    {"id": "c20-power", "property": "C20",
     "edits": [(TM, '''return (self.P_active_fW if pwr_good else self.P_sleep_fW) / voltage_uV''', '''return (self.P_active_fW if pwr_good else min(self.P_sleep_fW, 0)) / voltage_uV''')],
     "needs": "a constant-power target with sleep-power while power is not good",
     "breaks": "the target draws nothing instead of its sleep-power",
     "demo": '''
from shepherd_core.vsource.target_model import ConstantPowerTarget
t = ConstantPowerTarget(P_active_W=1e-3, P_sleep_W=1e-6)
assert t.step(1_000_000, pwr_good=False) > 0
'''},
    {"id": "c20-energy", "property": "C20",
     "edits": [(SI, "e_out_Ws += (v_uV * i_nA).sum() * 1e-15 * file_inp.sample_interval_s", "e_out_Ws += v_uV.sum() * i_nA.mean() * 1e-15 * file_inp.sample_interval_s")],
     "needs": "a simulation whose voltage and current change together within a block",
     "breaks": "the reported energy is not the one of the rows",
     "demo": "", "skip": True},
    {"id": "c21-step", "property": "C21",
     "edits": [(R, "return 1e-3 * voltage_step", "return 1e-3 * voltage_step if voltage_step >= 1 else voltage_step")],
     "needs": "a configured step below one millivolt", "breaks": "step in wrong unit", "demo": "", "skip": True},
    {"id": "c21-static", "property": "C21",
     "edits": [(R, "diffs_ls = [_e for _e in list(np.array(diffs_np)) if _e > 0]", "diffs_ls = [abs(_e) for _e in list(np.array(diffs_np)) if _e != 0]")],
     "needs": "an iv-curve recording whose voltage also falls in steps smaller than it rises",
     "breaks": "the step is taken from falling voltages",
     "demo": FILE + '''
v = np.tile(np.concatenate([np.arange(0, 1000, 100), [890, 880]]), 900).astype("u4")[:10_000]
p = mk("a.h5", 10_000, v=v, datatype="ivcurve", window_samples=100, cal_data=CalibrationSeries(voltage={"gain": 1e-6}, current={"gain": 1e-9}))
with Reader(p) as r:
    s = r.get_voltage_step()
assert abs(s - 100e-6) < 1e-9, s
'''},
]

C = "shepherd_core/shepherd_core/"
W = C + "writer.py"
R = C + "reader.py"
D = "shepherd_data/shepherd_data/reader.py"
U = C + "decoder_waveform/uart.py"
FX = C + "testbed_client/fixtures.py"
XP = C + "data_models/experiment/experiment.py"
TC = C + "data_models/experiment/target_config.py"
EM = C + "data_models/task/emulation.py"
TT = C + "data_models/task/testbed_tasks.py"
TB = C + "data_models/testbed/testbed.py"
HM = C + "vsource/virtual_harvester_model.py"
CM = C + "vsource/virtual_converter_model.py"
VH = C + "data_models/content/virtual_harvester.py"
VS = C + "data_models/content/virtual_source.py"
CA = C + "data_models/base/calibration.py"
SM = C + "data_models/base/shepherd.py"
PA = C + "fw_tools/patcher.py"
SI = C + "vsource/virtual_source_simulation.py"
TG = C + "data_models/testbed/target.py"

FILE = '''
import numpy as np
import h5py
from pathlib import Path
from shepherd_core import Writer, Reader, CalibrationSeries
def mk(p, n, dt=10_000, v=None, i=None, t0=0, **kw):
    with Writer(Path(p), **kw) as w:
        w.append_iv_data_raw(t0 + np.arange(n, dtype="u8") * dt, np.zeros(n, "u4") if v is None else np.asarray(v), np.zeros(n, "u4") if i is None else np.asarray(i))
    return Path(p)
'''

SEEDS = [
    {"id": "c02-cal", "property": "C02",
     "edits": [(W, '                self.h5file["data"][ds].attrs[param] = cal_data[ds][param]\n        else:',
                '                if cal_data[ds][param] or param not in self.h5file["data"][ds].attrs:\n                    self.h5file["data"][ds].attrs[param] = cal_data[ds][param]\n        else:')],
     "needs": "a modifying session that gives a calibration without offset for a recording that had one",
     "breaks": "the explicitly given calibration is not the one stored",
     "demo": FILE + '''
p = mk("a.h5", 5, cal_data=CalibrationSeries(voltage={"gain": 2e-6, "offset": -0.5}))
with Writer(p, modify_existing=True, cal_data=CalibrationSeries(voltage={"gain": 1e-6, "offset": 0})):
    pass
with Reader(p) as r:
    c = r.get_calibration_data()
assert (c.voltage.gain, c.voltage.offset) == (1e-6, 0), c.voltage
'''},
    {"id": "c03-rest", "property": "C03",
     "edits": [(R, "end_max = int(self.ds_voltage.shape[0] // n_samples_per_buffer)", "end_max = max(self.buffers_n, int(self.ds_voltage.shape[0] // n_samples_per_buffer))")],
     "needs": "reading with blocks larger than the default ones",
     "breaks": "reading does not end before the incomplete tail, short and empty blocks are delivered",
     "demo": FILE + '''
p = mk("a.h5", 30_000)
with Reader(p) as r:
    got = [len(v) for _, v, _ in r.read_buffers(n_samples_per_buffer=20_000)]
assert got == [20_000], got
'''},
    {"id": "c05-trunc", "property": "C05",
     "edits": [(D, '''        start_sample = round(start_s * self.samplerate_sps)
        end_sample = round(end_s * self.samplerate_sps)

        # test input-parameters''', '''        start_sample = int(start_s * self.samplerate_sps)
        end_sample = int(end_s * self.samplerate_sps)

        # test input-parameters''')],
     "needs": "a start whose product with the sample rate is not exact as float, e.g. 0.29 s",
     "breaks": "the result starts one sample before the requested range",
     "demo": FILE + '''
from shepherd_data import Reader as DR
p = mk("a.h5", 100_000)
with DR(p, verbose=False) as r:
    q = r.cut_and_downsample_to_file(0.29, 0.9, 1)
with Reader(q) as r:
    assert int(r.ds_time[0]) == 290_000_000, int(r.ds_time[0])
'''},
    {"id": "c05-state", "property": "C05",
     "edits": [(D, "slice_ds, f_state = signal.sosfilt(filter_, slice_ds, zi=f_state)", "slice_ds, _ = signal.sosfilt(filter_, slice_ds, zi=f_state)")],
     "needs": "a recording longer than the internal block size (40 s, or a smaller max_elements)",
     "breaks": "the signal drops to zero at the start of every further block",
     "demo": FILE + '''
from shepherd_data import Reader as DR
p = mk("a.h5", 60_000, v=np.full(60_000, 10**6), i=np.full(60_000, 10**6))
with DR(p, verbose=False) as r:
    r.max_elements = 20_000
    q = r.cut_and_downsample_to_file(None, None, 10)
with Reader(q) as r:
    v = r.ds_voltage[:].astype("i8")
assert abs(v[1000:] - 10**6).max() <= 1, abs(v[1000:] - 10**6).max()
'''},
    {"id": "c06-gain", "property": "C06",
     "edits": [(D, "timestamp = datetime.fromtimestamp(time_ns * ts_gain, tz=local_tz())", "timestamp = datetime.fromtimestamp(time_ns / 1e9, tz=local_tz())")],
     "needs": "a group whose time column is not counted in nanoseconds",
     "breaks": "exported timestamps ignore the gain of the time column",
     "demo": FILE + '''
from shepherd_data import Reader as DR
p = mk("a.h5", 3, dt=20, cal_data=CalibrationSeries(time={"gain": 1e-6}))
with DR(p, verbose=False) as r:
    r.save_csv(r["data"])
    txt = sorted(Path(".").glob("*.csv"))[0].read_text(encoding="utf-8-sig").splitlines()
assert txt[2].startswith("1970-01-01 00:00:00.000020"), txt[:3]
'''},
    {"id": "c07-first", "property": "C07",
     "edits": [(R, "data_1 = np.concatenate(([not data[0]], data[:-1]))", "data_1 = np.concatenate(([False], data[:-1]))")],
     "needs": "a pin that is low in the first recorded entry",
     "breaks": "the initial state of the pin is missing in its waveform",
     "demo": FILE + '''
p = mk("a.h5", 3)
with h5py.File(p, "a") as f:
    g = f.create_group("gpio")
    g.create_dataset("time", data=np.arange(4, dtype="u8"))
    g.create_dataset("value", data=np.array([0, 2, 3, 1], dtype="u2")).attrs["description"] = "0:\\n  name: a\\n1:\\n  name: b\\n"
with Reader(p) as r:
    w = {k: v.tolist() for k, v in r.gpio_to_waveforms().items()}
assert w == {"a": [[0, 0], [2, 1]], "b": [[0, 0], [1, 1], [3, 0]]}, w
'''},
    {"id": "c08-baud", "property": "C08",
     "edits": [(U, "        events = self.events_sig[:1000, :]  # speedup for large datasets\n        dur_steps = events[1:, 0] - events[:-1, 0]\n        def_step",
                "        events = self.events_sig[:10, :]  # speedup for large datasets\n        dur_steps = events[1:, 0] - events[:-1, 0]\n        def_step")],
     "needs": "a transmission whose first symbols contain no single-bit pulses",
     "breaks": "the detected baud rate is too low, so other symbols are decoded",
     "demo": '''
import numpy as np
from shepherd_core.decoder_waveform import Uart
tick, t, ev = 1 / 9600, 0.0, [(0.0, 1)]
t = 200 * tick
for c in [0x3E] * 5 + [0x55] * 40:
    for b in [0] + [(c >> k) & 1 for k in range(8)] + [1]:
        if b != ev[-1][1]:
            ev.append((t, b))
        t += tick
    t += 20 * tick
ev.append((t + 200 * tick, 0)); ev.append((t + 201 * tick, 1))
u = Uart(np.array(ev))
got = [ord(x) for x in u.get_symbols()[:45, 1]]
assert got == [0x3E] * 5 + [0x55] * 40, (u.baud_rate, got)
'''},
    {"id": "c08-cr", "property": "C08",
     "edits": [(U, '            if symbol == "\\n" or semi_stop:\n                if symbol == "\\n":', '            if symbol == "\\n" or (semi_stop and symbol != "\\r"):\n                if symbol == "\\n":')],
     "needs": "two consecutive carriage returns",
     "breaks": "text is not split after the first of two carriage returns",
     "demo": '''
import numpy as np
from shepherd_core.decoder_waveform import Uart
tick, ev = 1 / 9600, [(0.0, 1)]
t = 200 * tick
for c in b"ab\\r\\rcd\\n":
    for b in [0] + [(c >> k) & 1 for k in range(8)] + [1]:
        if b != ev[-1][1]:
            ev.append((t, b))
        t += tick
    t += 20 * tick
u = Uart(np.array(ev), baud_rate=9600)
got = list(u.get_lines()[:, 1])
assert got == ["ab\\r", "\\r", "cd\\n"], got
'''},
    {"id": "c09-none", "property": "C09",
     "edits": [(FX, '''            for key, value in values.items():
                # keep previous entries
                base_dict[key] = value
            values = base_dict''', '''            for key, value in values.items():
                # keep previous entries
                base_dict[key] = value if value is not None else base_dict.get(key)
            values = base_dict''')],
     "needs": "a model that inherits and explicitly unsets an optional field",
     "breaks": "the value of the ancestor wins against the explicit one",
     "demo": '''
from shepherd_core.testbed_client import tb_client
from shepherd_core.testbed_client.fixtures import Fixture
from shepherd_core.data_models.base.wrapper import Wrapper
f = Fixture("x")
f.insert(Wrapper(datatype="x", parameters={"id": 1, "name": "base", "a": 5, "b": 6}))
f.insert(Wrapper(datatype="x", parameters={"id": 2, "name": "mid", "inherit_from": "base", "a": 7}))
v, chain = f.inheritance({"inherit_from": "mid", "a": None})
assert v["a"] is None and v["b"] == 6, v
'''},
    {"id": "c09-alias", "property": "C09",
     "edits": [(FX, '''            fixture_base = copy.copy(self.elements_by_id[_id])
            post_process = True''', '''            fixture_base = self.elements_by_id[_id]
            post_process = True''')],
     "needs": "a model completed by its id with additional explicit values, followed by another query",
     "breaks": "the stored model is altered by completing another one",
     "demo": '''
from shepherd_core.testbed_client.fixtures import Fixture
from shepherd_core.data_models.base.wrapper import Wrapper
f = Fixture("x")
f.insert(Wrapper(datatype="x", parameters={"id": 1, "name": "base", "a": 5, "b": 6}))
f.inheritance({"id": 1, "a": 9})
v, _ = f.inheritance({"id": 1})
assert v["a"] == 5, v
'''},
    {"id": "c10-mixed", "skip": True, "property": "C10",
     "edits": [(XP, "                custom_ids = custom_ids + default_ids\n", "                custom_ids = custom_ids + [f\"{_id}\" for _id in default_ids]\n")],
     "needs": "one target configuration with and another one without custom ids, which collide",
     "breaks": "an experiment that programs the same identity twice is admitted",
     "demo": '''
from shepherd_core.data_models import TargetConfig, EnergyEnvironment, Firmware, Experiment
from shepherd_core.data_models.testbed import Target
kw = {"energy_env": EnergyEnvironment(name="SolarSunny"), "firmware1": Firmware(name="nrf52_demo_rf")}
try:
    Experiment(name="x", target_configs=[TargetConfig(target_IDs=[1], **kw), TargetConfig(target_IDs=[2], custom_IDs=[Target(id=1).testbed_id], **kw)])
except ValueError:
    raise SystemExit(0)
raise SystemExit(1)
'''},
    {"id": "c11-trace", "property": "C11",
     "edits": [(EM, "            power_tracing=tgt_cfg.power_tracing,\n            gpio_tracing=tgt_cfg.gpio_tracing,", "            power_tracing=tgt_cfg.power_tracing or PowerTracing(),\n            gpio_tracing=tgt_cfg.gpio_tracing,")],
     "needs": "a target configuration without power tracing",
     "breaks": "the observer traces power although the target configuration did not ask for it",
     "demo": '''
from shepherd_core.data_models import TargetConfig, EnergyEnvironment, Firmware, Experiment
from shepherd_core.data_models.task import TestbedTasks
xp = Experiment(name="x", owner_id=1, target_configs=[TargetConfig(target_IDs=[1], energy_env=EnergyEnvironment(name="SolarSunny"), firmware1=Firmware(name="nrf52_demo_rf"))])
e = TestbedTasks.from_xp(xp).observer_tasks[0].emulation
assert e.power_tracing is None, e.power_tracing
'''},
    {"id": "c12-sub", "property": "C12",
     "edits": [(TT, "            if observer == tasks.observer:", "            if tasks.observer.startswith(observer):")],
     "needs": "an observer whose name is the beginning of the name of another observer in the set",
     "breaks": "the tasks of one observer are handed out to another one",
     "demo": '''
from shepherd_core.data_models import TargetConfig, EnergyEnvironment, Firmware, Experiment
from shepherd_core.data_models.task import TestbedTasks, prepare_task
xp = Experiment(name="x", owner_id=1, target_configs=[TargetConfig(target_IDs=[1, 2], energy_env=EnergyEnvironment(name="SolarSunny"), firmware1=Firmware(name="nrf52_demo_rf"))])
tbt = TestbedTasks.from_xp(xp)
name = tbt.observer_tasks[0].observer
try:
    w = prepare_task(tbt, name[:-1])
except ValueError:
    raise SystemExit(0)
raise SystemExit(1)
'''},
    {"id": "c13-elif", "property": "C13",
     "edits": [(TB, "            if _obs.target_b is not None:\n                targets.append", "            elif _obs.target_b is not None:\n                targets.append")],
     "needs": "observers with two targets each, one of the second ports sharing its target with another observer",
     "breaks": "a testbed that uses a target twice is accepted",
     "demo": '''
from shepherd_core.data_models.testbed import Cape, Observer, Target, Testbed
t = [Target(id=i) for i in (1, 2, 3)]
cape = lambda k: Cape(id=k, name=f"c{k}", version="1", description="x")
ob = lambda k, a, b: Observer(id=k, name=f"o{k}", description="x", ip=f"10.0.0.{k}", mac=f"00:00:00:00:00:0{k}", room="r", eth_port=f"p{k}", cape=cape(k), target_a=a, target_b=b)
try:
    Testbed(id=5, name="t", description="x", observers=[ob(1, t[0], t[1]), ob(2, t[2], t[1])], data_on_server="/s", data_on_observer="/o")
except ValueError:
    raise SystemExit(0)
raise SystemExit(1)
'''},
    {"id": "c14-vocmin", "property": "C14",
     "edits": [(HM, "self.voc_min: int = max(1000, self._cfg.voltage_min_uV)", "self.voc_min: int = 1000")],
     "needs": "open-circuit algorithm with a lower voltage limit and a curve with small currents below that limit",
     "breaks": "an open-circuit voltage below the limit is taken",
     "demo": '''
from shepherd_core.data_models import VirtualHarvesterConfig, EnergyDType
from shepherd_core.data_models.content.virtual_harvester import HarvesterPRUConfig
from shepherd_core.vsource import VirtualHarvesterModel
cfg = VirtualHarvesterConfig(name="mppt_voc", voltage_min_mV=2000, voltage_mV=2500, interval_ms=1, duration_ms=0.4, wait_cycles=0)
m = VirtualHarvesterModel(HarvesterPRUConfig.from_vhrv(cfg, for_emu=True, dtype_in=EnergyDType.ivcurve, window_size=20, voltage_step_V=0.25))
for _ in range(50):
    for k in range(20):
        v = 250_000 * k
        m.ivcurve_sample(v, 10_000_000 if v < 1_000_000 else 0)
assert m.voc_now >= 2_000_000, m.voc_now
'''},
    {"id": "c14-age", "property": "C14",
     "edits": [(HM, '''            self.age_now = self.age_nxt
            self.power_now = self.power_nxt''', '''            self.age_now = 0
            self.power_now = self.power_nxt''')],
     "needs": "a stream whose maximum shrinks over time",
     "breaks": "the optimal algorithm delivers samples that are older than two windows",
     "demo": '''
from shepherd_core.data_models import VirtualHarvesterConfig, EnergyDType
from shepherd_core.data_models.content.virtual_harvester import HarvesterPRUConfig
from shepherd_core.vsource import VirtualHarvesterModel
cfg = VirtualHarvesterConfig(name="mppt_opt", wait_cycles=0)
N = 20
m = VirtualHarvesterModel(HarvesterPRUConfig.from_vhrv(cfg, for_emu=True, dtype_in=EnergyDType.ivcurve, window_size=N, voltage_step_V=0.25))
seen = {}
worst = 0
for w in range(30):
    for k in range(N):
        t = w * N + k
        v, i = 250_000 * k, (1_000_000 - 1000 * t if k == (7 * w) % N else 0)
        seen[(v, i)] = t
        out = m.ivcurve_sample(v, i)
        if out[1] > 0:
            worst = max(worst, t - seen[out])
assert worst <= 2 * N, worst
'''},
    {"id": "c15-interval", "property": "C15",
     "edits": [(CM, "check_thresholds = self.sample_count >= self._cfg.interval_check_thresholds_n", "check_thresholds = self.sample_count > self._cfg.interval_check_thresholds_n")],
     "needs": "a converter that evaluates its thresholds only every few samples",
     "breaks": "enable hysteresis is evaluated later than at the configured interval",
     "demo": '''
from shepherd_core import CalibrationEmulator
from shepherd_core.data_models import VirtualSourceConfig
from shepherd_core.vsource import VirtualSourceModel
cfg = VirtualSourceConfig(name="diode+capacitor", interval_check_thresholds_ms=0.05, V_intermediate_init_mV=100, C_intermediate_uF=0.1)
for I in (15_000, 17_000, 20_000, 23_000, 31_000):
    m = VirtualSourceModel(cfg, CalibrationEmulator())
    on = [k for k in range(1000) if (m.iterate_sampling(V_inp_uV=4_000_000, I_inp_nA=I, I_out_nA=0), m.cnv.is_outputting)[1]]
    assert on and on[0] % 5 == 0, on[:3]
'''},
    {"id": "c15-drop", "property": "C15",
     "edits": [(CM, "                self.V_mid_uV <= self._cfg.V_output_uV + self._cfg.V_buck_drop_uV", "                self.V_mid_uV <= self._cfg.V_output_uV")],
     "needs": "a buck with a drop and an intermediate voltage within that drop above the output voltage",
     "breaks": "regulated voltage is supplied although the intermediate voltage is too low for it",
     "demo": '''
from shepherd_core import CalibrationEmulator
from shepherd_core.data_models import VirtualSourceConfig
from shepherd_core.vsource import VirtualSourceModel
cfg = VirtualSourceConfig(name="BQ25570", V_output_mV=3000, V_buck_drop_mV=500, V_intermediate_init_mV=4000, C_intermediate_uF=10, C_output_uF=0, V_intermediate_enable_threshold_mV=3900, V_intermediate_disable_threshold_mV=1000)
m = VirtualSourceModel(cfg, CalibrationEmulator())
for k in range(60_000):
    m.iterate_sampling(V_inp_uV=0, I_inp_nA=0, I_out_nA=3_000_000)
    v, o = m.cnv.V_mid_uV, m.cnv.V_out_dac_uV
    if m.cnv.is_outputting:
        assert o <= v - 500_000 + 2, (k, v, o)
'''},
    {"id": "c16-duration", "property": "C16",
     "edits": [(VH, "duration_ms = min(max(self.duration_ms, time_min_ms), interval_ms)", "duration_ms = min(max(self.duration_ms, time_min_ms), max(interval_ms, self.duration_ms))")],
     "needs": "a configuration whose measurement takes longer than its interval",
     "breaks": "the interval is shorter than the duration",
     "demo": '''
from shepherd_core.data_models import VirtualHarvesterConfig
from shepherd_core.data_models.content.virtual_harvester import HarvesterPRUConfig
p = HarvesterPRUConfig.from_vhrv(VirtualHarvesterConfig(name="mppt_voc", interval_ms=50, duration_ms=80), for_emu=True)
assert p.duration_n <= p.interval_n, p
'''},
    {"id": "c16-feedback", "property": "C16",
     "edits": [(VS, "            and not enable_boost\n", "            and not self.enable_boost\n")],
     "needs": "a source with boost and feedback but without storage capacitor... or only feedback",
     "breaks": "mode-bits", "demo": "", "skip": True},
    {"id": "c16-window", "property": "C16",
     "edits": [(VH, "            window_size\n            if window_size is not None\n", "            window_size\n            if window_size\n")],
     "needs": "emulating an iv-sample recording (window size 0) named explicitly with datatype ivcurve or isc-like default",
     "breaks": "the given window size 0 is replaced by the one of the harvester",
     "demo": '''
from shepherd_core.data_models import VirtualHarvesterConfig, EnergyDType
from shepherd_core.data_models.content.virtual_harvester import HarvesterPRUConfig
p = HarvesterPRUConfig.from_vhrv(VirtualHarvesterConfig(name="mppt_voc"), for_emu=True, dtype_in=EnergyDType.ivcurve, window_size=0, voltage_step_V=0.01)
assert p.window_size == 0, p.window_size
'''},
    {"id": "c17-portb", "property": "C17",
     "edits": [(CA, "return cls(voltage=cal.dac_V_B, current=cal.adc_C_B)", "return cls(voltage=cal.dac_V_A, current=cal.adc_C_B)")],
     "needs": "the calibration of a recording made at port B with a cape whose ports differ",
     "breaks": "the voltage calibration of the other port is used",
     "demo": '''
from shepherd_core import CalibrationEmulator, CalibrationSeries
c = CalibrationEmulator(dac_V_A={"gain": 1e-5}, dac_V_B={"gain": 2e-5})
assert CalibrationSeries.from_cal(c, emu_port_a=False).voltage.gain == 2e-5
'''},
    {"id": "c17-clamp", "property": "C17",
     "edits": [(CA, "                values_si[values_si < 0.0] = 0.0", "                values_si[values_si < self.offset] = 0.0")],
     "needs": "an array of raw values near zero with a negative offset and negative results not allowed",
     "breaks": "negative results are not clamped for arrays, unlike for scalars",
     "demo": '''
import numpy as np
from shepherd_core import CalibrationPair
c = CalibrationPair(gain=1e-3, offset=-0.5)
a = c.raw_to_si(np.array([0, 100, 600]), allow_negative=False)
assert (a >= 0).all(), a
'''},
    {"id": "c18-default", "property": "C18",
     "edits": [(SM, "        model_dict = self.model_dump(exclude_unset=minimal)\n", "        model_dict = self.model_dump(exclude_unset=minimal, exclude_defaults=minimal)\n")],
     "needs": "a model that inherits from a stored one and explicitly sets a field to its general default, stored in minimal form",
     "breaks": "the explicit value is replaced by the inherited one when the file is loaded",
     "demo": '''
from pathlib import Path
from shepherd_core.data_models import VirtualSourceConfig
d = VirtualSourceConfig.model_fields["V_output_mV"].default
m = VirtualSourceConfig(name="BQ25570", V_output_mV=d)
p = m.to_file(Path("a.yaml"))
n = VirtualSourceConfig.from_file(p)
diff = [k for k, v in m.model_dump().items() if n.model_dump()[k] != v and k not in ("id", "created", "updated_last", "harvester")]
assert not diff, (diff, m.V_output_mV, n.V_output_mV)
'''},
    {"id": "c19-endian", "property": "C19",
     "edits": [(PA, "value_raw = value.to_bytes(length=uid_len_default, byteorder=elf.endian, signed=False)", 'value_raw = value.to_bytes(length=uid_len_default, byteorder="little", signed=False)')],
     "needs": "an elf-firmware in big-endian byte order",
     "breaks": "the identifier is stored with swapped bytes",
     "demo": '''
import os, subprocess, struct, sys
from pathlib import Path
# minimal big-endian mips executable with one symbol
def elf():
    sh = b"\\0.data\\0.symtab\\0.strtab\\0.shstrtab\\0"
    names = b"\\0SHEPHERD_NODE_ID\\0"
    data = b"\\x12\\x34" + bytes(14)
    base, off_d = 0x10000, 0x54
    off_s = off_d + len(data)
    sym = bytes(16) + struct.pack(">IIIBBH", 1, base, 2, 0x11, 0, 1)
    off_n = off_s + len(sym)
    off_h = off_n + len(names)
    off_t = (off_h + len(sh) + 3) // 4 * 4
    eh = b"\\x7fELF\\x01\\x02\\x01" + bytes(9) + struct.pack(">HHIIIIIHHHHHH", 2, 8, 1, base, 0x34, off_t, 0, 52, 32, 1, 40, 5, 4)
    ph = struct.pack(">IIIIIIII", 1, off_d, base, base, len(data), len(data), 6, 4)
    S = lambda n, t, f, a, o, z, l=0, i=0, al=1, e=0: struct.pack(">IIIIIIIIII", n, t, f, a, o, z, l, i, al, e)
    st = S(0, 0, 0, 0, 0, 0) + S(1, 1, 3, base, off_d, len(data)) + S(7, 2, 0, 0, off_s, len(sym), 3, 1, 4, 16) + S(15, 3, 0, 0, off_n, len(names)) + S(23, 3, 0, 0, off_h, len(sh))
    body = eh + ph + data + sym + names + sh
    return body + bytes(off_t - len(body)) + st
p = Path("a.elf"); p.write_bytes(elf())
from shepherd_core import fw_tools
assert fw_tools.read_uid(p) == 0x1234, fw_tools.read_uid(p)
assert fw_tools.modify_uid(p, 0x0201)
assert fw_tools.read_uid(p) == 0x0201, hex(fw_tools.read_uid(p))
'''},
    {"id": "c20-load", "property": "C20",
     "edits": [(SI, "        i_nA = 1e9 * cal_inp.current.raw_to_si(i_inp)\n", "        i_nA = 1e9 * cal_inp.current.raw_to_si(i_inp)\n        i_out_nA = 0\n")],
     "needs": "a recording of more than one block",
     "breaks": "the load of the target is forgotten at every start of a block",
     "demo": FILE + '''
from shepherd_core.data_models import VirtualSourceConfig
from shepherd_core.vsource import simulate_source, ResistiveTarget, VirtualSourceModel
from shepherd_core import CalibrationEmulator
p = mk("a.h5", 20_000, v=np.full(20_000, 10**9), i=np.full(20_000, 4 * 10**6), mode="harvester")
cfg = VirtualSourceConfig(name="diode+capacitor", V_intermediate_init_mV=4000, C_intermediate_uF=0.1)
simulate_source(cfg, ResistiveTarget(R_Ohm=1000), p, Path("o.h5"))
m, t, load, ref = VirtualSourceModel(cfg, CalibrationEmulator(), window_size=0), ResistiveTarget(R_Ohm=1000), 0, []
for _ in range(20_000):
    v = m.iterate_sampling(V_inp_uV=int(1e6 * (10**9 * 3e-9)), I_inp_nA=int(1e9 * (4 * 10**6 * 250e-12)), I_out_nA=load)
    load = t.step(int(v), pwr_good=m.cnv.get_power_good())
    ref.append(load)
with Reader(Path("o.h5")) as r:
    i = 1e9 * r._cal.current.raw_to_si(r.ds_current[:])
d = abs(i - np.array(ref))
assert d.max() < 1000, (int(d.argmax()), d.max())
'''},
    {"id": "c21-energy", "property": "C21",
     "edits": [(R, "return (vol_v[:] * cur_a[:]).sum() * self.sample_interval_s", "return (vol_v[:] * cur_a[:]).sum() / self.samplerate_sps")],
     "needs": "a recording whose sample interval is not the inverse of a whole rate",
     "breaks": "the energy is computed with a rounded rate",
     "demo": FILE + '''
n = 100
p = mk("a.h5", n, dt=1_600_000_000, v=np.full(n, 10**9), i=np.full(n, 4 * 10**6))
with Reader(p) as r:
    e = r.energy()
want = n * 3.0 * 1e-3 * 1.6
assert abs(e - want) < 1e-3 * want, (e, want)
'''},
]
SEEDS = [s for s in SEEDS if not s.get("skip")]

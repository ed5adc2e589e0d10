"""Drive Writer/Reader sessions and project what is on disk onto the Recording specification."""
import gc
import hashlib
from pathlib import Path

import h5py
import numpy as np

from vf.util import SENT
from vf.util import HarnessError
from vf.util import I
from vf.util import ScenarioTimeout

VOFF = 3_000_000_000
COFF = 1_000_000_000
RAW_BASE_S = 1_700_000_000  # realistic unix time, only for raw timestamps


def imports():
    global Writer, Reader, CalSeries, CalPair, CalEmu, CalHrv, EnergyDType, Compression
    from shepherd_core import Reader, Writer
    from shepherd_core.data_models.base.calibration import CalibrationEmulator as CalEmu
    from shepherd_core.data_models.base.calibration import CalibrationHarvester as CalHrv
    from shepherd_core.data_models.base.calibration import CalibrationPair as CalPair
    from shepherd_core.data_models.base.calibration import CalibrationSeries as CalSeries
    from shepherd_core.data_models.task import Compression
    from shepherd_core.data_models.content.energy_environment import EnergyDType


# what the calibration argument is expected to leave in the file: v gain/offset, c gain/offset, t gain/offset
CALS = {
    0: ((3e-9, 0.0), (250e-12, 0.0), (1e-9, 0.0)),
    1: ((2e-9, 1e-3), (125e-12, -2e-6), (1e-9, 0.0)),
    2: ((5e-9, 0.0), (1e-12, 3e-6), (1e-9, 0.0)),
    3: ((7e-9, 2e-3), (9e-12, 1e-6), (1e-9, 0.0)),  # harvester
    4: ((11e-9, 5e-4), (13e-12, 4e-7), (1e-9, 0.0)),  # emulator
}


def make_cal(k):
    if k in (0, 1, 2):
        v, c, t = CALS[k]
        return CalSeries(
            voltage=CalPair(gain=v[0], offset=v[1]),
            current=CalPair(gain=c[0], offset=c[1]),
            time=CalPair(gain=t[0], offset=t[1]),
        )
    v, c, _ = CALS[k]
    pv, pc = CalPair(gain=v[0], offset=v[1]), CalPair(gain=c[0], offset=c[1])
    ov, oc = CalPair(gain=17e-9, offset=0.25), CalPair(gain=19e-12, offset=0.125)
    if k == 3:
        return CalHrv(dac_V_Hrv=ov, dac_V_Sim=ov, adc_V_Sense=pv, adc_C_Hrv=pc)
    return CalEmu(dac_V_A=pv, dac_V_B=ov, adc_C_A=pc, adc_C_B=oc)


def cal_id(vals):
    for k, want in CALS.items():
        if all(abs(a - b) <= 1e-9 * abs(b) for w, g in zip(want, vals) for a, b in zip(g, w)):
            return k
    return SENT


def values(idx, n, which):
    return np.arange(n, dtype=np.int64) + (idx << 16) + (VOFF if which == "v" else COFF)


def runs(t, v, c, base_ns):
    """Decode the columns into segments (what which append call left behind)."""
    n = min(t.size, v.size, c.size)
    t, v, c = t[:n], v[:n].astype(np.int64), c[:n].astype(np.int64)
    segs = []
    if n == 0:
        return segs
    key = v - VOFF
    ident, j = key >> 16, key & 0xFFFF
    cut = np.nonzero((np.diff(key) != 1) | (j[1:] == 0))[0] + 1
    bounds = [0, *cut.tolist(), n]
    tt = t.astype(np.int64) - base_ns
    if len(bounds) > 400:
        return [{"id": SENT, "n": n, "t0": 0, "dt": 0}]
    for a, b in zip(bounds[:-1], bounds[1:]):
        ok = bool(j[a] == 0) and bool(np.all(c[a:b] - COFF == key[a:b]))
        d = np.diff(tt[a:b])
        dt = int(d[0]) if d.size else 0
        ok = ok and bool(np.all(d == dt))
        segs.append({"id": I(ident[a]) if ok else SENT, "n": b - a, "t0": I(tt[a]), "dt": I(dt)})
    return segs


class Drive:
    def __init__(self, work, base_s=0):
        self.dir = Path(work) / "rec"
        self.dir.mkdir()
        self.h = {}
        self.base_s = base_s
        self.base_ns = base_s * 10**9
        self.digest = {}
        self.ev = []
        self.calid = {}

    # -- observation of the directory
    def look(self, obs):
        now = {}
        for p in sorted(self.dir.rglob("*")):
            if p.is_file():
                now[str(p.relative_to(self.dir))] = hashlib.sha1(p.read_bytes()).hexdigest()
        obs["dir"] = sorted(now)
        obs["changed"] = sorted(k for k in now if k in self.digest and self.digest[k] != now[k])
        self.digest = now
        return obs

    def name(self, n):
        if n.startswith("$"):
            ls = sorted(p.name for p in self.dir.iterdir())
            if not ls:
                return "r.h5"
            return ls[int(n[1:]) % len(ls)]
        return n

    def op(self, o):
        k = o["op"]
        if k in ("append", "close", "stat", "host", "config") and o["h"] not in self.h:
            return
        if k == "open" and o["h"] in self.h:
            return
        getattr(self, "do_" + k)(dict(o))

    def is_open(self, name):
        return any(w["file"] == name for w in self.h.values())

    def do_open(self, o):
        o["name"] = self.name(o["name"])
        if (o["modify"] or o["force"]) and self.is_open(o["name"]):
            return
        if o["modify"] and o["force"]:
            o["force"] = False
        kw = {}
        if o["mode"]:
            kw["mode"] = o["mode"]
        if o["dtype"]:
            kw["datatype"] = o["dtype"] if o.get("dstr", True) or o["dtype"] not in EnergyDType.__members__ \
                else EnergyDType[o["dtype"]]
        if o["win"] >= 0:
            kw["window_samples"] = o["win"]
        if o["cal"] >= 0:
            kw["cal_data"] = make_cal(o["cal"])
        comp = o.pop("comp", "default")
        if comp == "none":
            kw["compression"] = None
        elif comp != "default":
            kw["compression"] = Compression[comp]
        o.pop("dstr", None)
        before = {p.name for p in self.dir.iterdir()}
        obs = {"file": "", "removed": []}
        try:
            w = Writer(self.dir / o["name"], modify_existing=o["modify"], force_overwrite=o["force"], verbose=None, **kw)
            obs["res"] = "ok"
            obs["file"] = w.file_path.name
            if w.file_path.parent != self.dir.resolve():
                obs["file"] = str(w.file_path)
            self.h[o["h"]] = {"w": w.__enter__(), "file": obs["file"],
                              "cal": o["cal"] if o["cal"] >= 0 else (self.calid.get(obs["file"], 0) if o["modify"] else 0)}
            self.calid[obs["file"]] = self.h[o["h"]]["cal"]
        except (ScenarioTimeout, HarnessError):
            raise
        except Exception as x:  # noqa: BLE001
            obs["res"] = "refused"
            obs["why"] = f"{type(x).__name__}: {x}"[:300]
            w = None
            gc.collect()
            # a half-created recording is not part of any promise: take its remains away
            for p in list(self.dir.iterdir()):
                if p.name not in before or (o["force"] and p.name == o["name"]):
                    obs["removed"].append(p.name)
                    p.unlink()
                    self.digest.pop(p.name, None)
        o["obs"] = self.look(obs)
        self.ev.append(o)

    def rows(self, w):
        return [I(w["data"]["time"].shape[0]), I(w["data"]["voltage"].shape[0]), I(w["data"]["current"].shape[0])]

    def do_append(self, o):
        w = self.h[o["h"]]["w"]
        v = values(o["id"], o["nv"], "v")
        c = values(o["id"], o["nc"], "c")
        si = o["si"] and self.base_s == 0
        o["si"] = si
        if si:
            cv, cc, ct = CALS[self.h[o["h"]]["cal"]]
            v = v * cv[0] + cv[1]
            c = c * cc[0] + cc[1]
        else:
            v = v.astype(o.get("vtype", "u4"))
            c = c.astype("u4")
        o.pop("vtype", None)
        tk = o["tk"]
        if tk == "int":
            t = self.base_ns + o["t0"]
            if si:
                t = t * 1e-9
        elif tk == "float":
            t = float(self.base_ns + o["t0"])
            if self.base_s:  # float cannot hold such a timestamp exactly
                t = self.base_ns + o["t0"]
                tk = "int"
            elif si:
                t = t * 1e-9
        elif tk == "array":
            t = (np.arange(o["nt"], dtype=np.int64) * o["dt"] + o["t0"] + self.base_ns).astype("u8")
            if si:
                t = t * 1e-9
        else:
            t = "now" if o["id"] % 2 else None
            si = False
            v, c = values(o["id"], o["nv"], "v").astype("u4"), values(o["id"], o["nc"], "c").astype("u4")
        o["tk"] = tk
        obs = {}
        keep = [x.copy() if isinstance(x, np.ndarray) else x for x in (t, v, c)]
        try:
            (w.append_iv_data_si if si else w.append_iv_data_raw)(t, v, c)
            obs["res"] = "ok"
        except (ScenarioTimeout, HarnessError):
            raise
        except Exception as x:  # noqa: BLE001
            obs["res"] = "refused"
            obs["why"] = f"{type(x).__name__}: {x}"[:300]
        for x, y in zip(keep, (t, v, c)):
            if isinstance(x, np.ndarray) and not np.array_equal(x, y):
                obs["res"] = "caller's data modified"
        obs["rows"] = self.rows(w)
        o["obs"] = self.look(obs)
        self.ev.append(o)

    def do_stat(self, o):
        w = self.h[o["h"]]["w"]
        obs = {"res": "ok"}
        try:
            (repr if o["id"] % 2 else (lambda x: x.get_metadata(minimal=True)))(w)
        except (ScenarioTimeout, HarnessError):
            raise
        except Exception:  # noqa: BLE001
            obs["res"] = "raised"
        o["obs"] = self.look(obs)
        self.ev.append(o)

    def do_host(self, o):
        self._meta(o, lambda w: w.store_hostname(o["val"]))

    def do_config(self, o):
        self._meta(o, lambda w: w.store_config({"name": "x", "virtual_harvester": {"voltage_step_mV": o["val"]}}))

    def _meta(self, o, fn):
        obs = {"res": "ok"}
        try:
            fn(self.h[o["h"]]["w"])
        except (ScenarioTimeout, HarnessError):
            raise
        except Exception:  # noqa: BLE001
            obs["res"] = "raised"
        o["obs"] = self.look(obs)
        self.ev.append(o)

    def do_close(self, o):
        w = self.h.pop(o["h"])
        obs = {"res": "ok", "raised": False}

        class Boom(Exception):
            pass

        try:
            if o["exc"]:
                with w["w"]:
                    raise Boom
            else:
                with w["w"]:
                    pass
        except Boom:
            obs["raised"] = True
        except (ScenarioTimeout, HarnessError):
            raise
        except Exception as x:  # noqa: BLE001
            obs["res"] = "raised " + type(x).__name__
        o["obs"] = self.look(obs)
        self.ev.append(o)

    def do_inspect(self, o):
        o["name"] = self.name(o["name"])
        if self.is_open(o["name"]) or not (self.dir / o["name"]).exists():
            return
        path = self.dir / o["name"]
        obs = {"segs": [], "lens": [], "mode": "", "dtype": "", "win": SENT, "cal": SENT, "host": "",
               "conf": SENT, "valid": False, "buffers": SENT}
        try:
            with h5py.File(path, "r") as f:
                d = f["data"]
                t, v, c = d["time"][:], d["voltage"][:], d["current"][:]
                obs["lens"] = [int(t.size), int(v.size), int(c.size)]
                obs["segs"] = runs(t, v, c, self.base_ns)
            with Reader(path, verbose=None) as r:
                obs["mode"] = str(r.get_mode())
                dt = r.get_datatype()
                obs["dtype"] = dt.name if dt is not None else ""
                obs["win"] = I(r.get_window_samples())
                cal = r.get_calibration_data()
                obs["cal"] = cal_id([(x.gain, x.offset) for x in (cal.voltage, cal.current, cal.time)])
                h = r.get_hostname()
                obs["host"] = "" if h == "unknown" else str(h)
                conf = r.get_config()
                obs["conf"] = -1 if conf == {} else I(conf.get("virtual_harvester", {}).get("voltage_step_mV"))
                obs["valid"] = bool(r.is_valid())
                obs["buffers"] = I(r.buffers_n)
        except (ScenarioTimeout, HarnessError):
            raise
        except Exception as x:  # noqa: BLE001
            obs["mode"] = "unreadable: " + type(x).__name__
        o["obs"] = self.look(obs)
        self.ev.append(o)


def execute(scn, work):
    d = Drive(work, scn.get("base_s", 0))
    for o in scn["ops"]:
        d.op(o)
    for h in sorted(d.h):
        d.op({"op": "close", "h": h, "exc": False})
    for p in sorted(d.dir.iterdir()):
        d.op({"op": "inspect", "name": p.name})
    return {"ev": d.ev}

"""C28: settings of sources, boards, calibration and registers; spoiled instances of any model."""
import copy
import random
import types
import typing
from pathlib import Path

from checks.c27 import text
from vf.util import I, SENT

TRACE = "SettingsTrace"
ASSUMPTIONS = ["names and ids do not collide with those of the shipped database (which would complete missing parameters, see C09)", "refusal is any ValueError or TypeError",
               "lists of texts are not lengthened; documented limits are those of the published schema of the models"]
BATCH = 700
V, W, U = 1000, 100, 1
UNITS = {"interval_startup_delay_drain_ms": V, "V_input_max_mV": V, "I_input_max_mA": V, "V_input_drop_mV": W, "R_input_mOhm": W, "C_intermediate_uF": V, "V_intermediate_init_mV": V,
         "I_intermediate_leak_nA": -10, "V_intermediate_enable_threshold_mV": V, "V_intermediate_disable_threshold_mV": V, "interval_check_thresholds_ms": V, "V_pwr_good_enable_threshold_mV": V,
         "V_pwr_good_disable_threshold_mV": V, "C_output_uF": W, "V_output_log_gpio_threshold_mV": W, "V_input_boost_threshold_mV": V, "V_intermediate_max_mV": V,
         "LUT_input_V_min_log2_uV": U, "LUT_input_I_min_log2_nA": U, "LUT_output_I_min_log2_nA": U, "V_output_mV": V, "V_buck_drop_mV": V}
FLAGS = ["enable_boost", "enable_buck", "enable_feedback_to_hrv", "immediate_pwr_good_signal"]
HIGH = {"interval_startup_delay_drain_ms": 10**7, "V_input_drop_mV": 429 * 10**6, "R_input_mOhm": 429 * 10**6, "C_intermediate_uF": 10**8, "I_intermediate_leak_nA": 429 * 10**6,
        "C_output_uF": 429 * 10**6, "V_output_log_gpio_threshold_mV": 429 * 10**6, "I_input_max_mA": 4290000, "interval_check_thresholds_ms": 4290000, "V_output_mV": 5 * 10**6, "V_buck_drop_mV": 5 * 10**6}
HRV_REGS = ["algorithm", "hrv_mode", "window_size", "voltage_uV", "voltage_min_uV", "voltage_max_uV", "voltage_step_uV", "current_limit_nA", "setpoint_n8", "interval_n", "duration_n", "wait_cycles_n"]


def models(tier):
    return [{"module": "SettingsMC", "cfg": "SettingsMC.cfg" if tier == "quick" else "SettingsMC_deep.cfg", "timeout": 800}]


def generators(tier):
    def conv(g):
        v = random.Random(repr(g)).randrange(10**6)
        return [{"ops": [{"op": "src", **g["p"], "route": "plain"} if g["kind"] == "src" else {"op": "build", **g}], "v": v}]

    return [{"module": "SettingsMC", "cfg": "SettingsGen.cfg", "cap": 2600 if tier == "quick" else 10**6, "to_scenario": conv}]


def rnd_set(rng, n, bad=0.06):
    out = []
    for _ in range(n):
        f = rng.choice([*UNITS, *UNITS, *FLAGS])
        if f in FLAGS:
            x = rng.randrange(2)
        else:
            lo, hi = (1 if "I_min" in f else 0, 20) if UNITS[f] == 1 else (0, HIGH.get(f, 10**7))
            x = rng.choice([lo, hi, rng.randint(lo, hi), rng.randint(lo, hi), rng.randint(lo, min(hi, 20000))])
            if rng.random() < bad:
                x = rng.choice([lo - 1, hi + 1, -rng.randrange(1, 10**6), hi + rng.randrange(1, 10**6)])
        if f not in [y[0] for y in out]:
            out.append([f, x])
    return out


def rnd_src(rng, op):
    bad = rng.random() < 0.12
    lut = lambda rows: {"rows": rows, "cols": 12 if not bad else rng.choice([11, 12, 13]), "e": rng.randrange(1001), "odd": rng.choice([0, 1000, 1001 if bad else 7, rng.randrange(1001)]), "at": rng.randrange(12 * rows)}  # noqa: E731
    return {"op": op, "set": rnd_set(rng, rng.choice([0, 1, 1, 2, 4, 9])), "lutin": [lut(12)] if rng.random() < 0.15 else [], "lutout": [{**lut(1), "rows": 12}] if rng.random() < 0.15 else [],
            "alg": rng.choice(["cv", "mppt_voc", "mppt_po", "mppt_opt", "neutral"]) if rng.random() < 0.96 else rng.choice(["isc_voc", "ivcurve"]), "route": rng.choice(["plain", "file", "validate"])}


def scenarios(rng, tier):
    from drivers.models import KINDS
    for _ in range(200 if tier == "quick" else 15000):
        ops = [rnd_src(rng, "src")]
        for _ in range(rng.randrange(0, 6)):
            ops.append(rnd_src(rng, "adjust"))
        yield {"ops": ops, "v": rng.randrange(10**6)}
    for k in KINDS:
        for _ in range(14 if tier == "quick" else 1200):
            yield {"ops": [{"op": "spoil", "kind": k, "seed": rng.randrange(10**9), "hows": rng.sample(["none", "unknown", "nan", "inf", "long", "padded", "unknown"], 5)}], "v": 0}


def warmup():
    import shepherd_core.data_models.task  # noqa: F401
    from shepherd_core import inventory  # noqa: F401
    from drivers import models
    models.classes()


# ---------------------------------------------------------------- sources
def value(f, n):
    if f in FLAGS:
        return bool(n) if n in (0, 1) else n
    u = UNITS[f]
    return n if u == 1 else n / u if u > 0 else float(n * -u)


def table(t, flat=False):
    cells = lambda c: [t["e"] / 1000] * c  # noqa: E731
    if flat:
        row = cells(t["cols"])
        if row:
            row[t["at"] % len(row)] = t["odd"] / 1000
        return row
    rows = [cells(t["cols"]) for _ in range(t["rows"])]
    if rows and t["cols"]:
        rows[(t["at"] // 12) % len(rows)][t["at"] % t["cols"]] = t["odd"] / 1000
    return rows


def source(o, prev, v, work):
    """prev: (model, exact values given) or None."""
    from shepherd_core.data_models import EnergyDType, VirtualHarvesterConfig, VirtualSourceConfig
    from shepherd_core.data_models.content.virtual_source import ConverterPRUConfig

    exact = dict(prev[1]) if prev else {}
    base = {"id": 77_002, "name": "own_src", "owner": "t", "group": "t"}
    if prev:
        base = prev[0].model_dump()
        if o["route"] == "file":
            base = VirtualSourceConfig.from_file(prev[0].to_file(Path(work) / f"s{v}.yaml")).model_dump()
    given = {f: value(f, n) for f, n in o["set"]}
    hrv = {"id": 77_001, "name": "own_hrv", "owner": "t", "group": "t", "algorithm": o["alg"]}
    d = {**base, **given, "harvester": VirtualHarvesterConfig(**hrv) if v % 2 else hrv}
    if o["lutin"]:
        given["LUT_input_efficiency"] = d["LUT_input_efficiency"] = table(o["lutin"][0])
    if o["lutout"]:
        given["LUT_output_efficiency"] = d["LUT_output_efficiency"] = table(o["lutout"][0], True)
    keep = copy.deepcopy(d)
    obs = {"ok": False, "altered": False, "vals": {}, "tables": False, "regs": False}
    m = None
    try:
        m = VirtualSourceConfig.model_validate(d) if o["route"] == "validate" else VirtualSourceConfig(**d)
    except (ValueError, TypeError):
        pass
    obs["altered"] = d != keep
    if m is None:
        return obs, prev
    exact.update(given)
    obs["ok"] = True
    for f in [*UNITS, *FLAGS]:
        x = getattr(m, f)
        if f in FLAGS:
            obs["vals"][f] = int(x) if isinstance(x, bool) else SENT
        else:
            u = UNITS[f]
            y = x * u if u > 0 else x / -u
            obs["vals"][f] = I(round(y)) if abs(y - round(y)) < 1e-4 and (f not in exact or exact[f] == x) else SENT
    obs["tables"] = m.LUT_input_efficiency == exact.get("LUT_input_efficiency", 12 * [12 * [1.0]]) and m.LUT_output_efficiency == exact.get("LUT_output_efficiency", 12 * [1.0])
    try:
        for t in EnergyDType:
            for b in (False, True):
                ConverterPRUConfig.from_vsrc(m, dtype_in=t, log_intermediate_node=b)
        obs["regs"] = True
    except (ValueError, TypeError, ArithmeticError):
        pass
    return obs, (m, exact)


# ---------------------------------------------------------------- boards
NUMS = {"neg": -1.5, "zero": 0.0, "pos": 0.25, "tiny": 5e-324, "huge": 1.7e308, "nan": float("nan"), "inf": float("inf"), "-inf": float("-inf")}
REGV = {"neg": -1, "zero": 0, "one": 1, "max8": 255, "over8": 256, "max32": 2**32 - 1, "over32": 2**32, "half": 0.5}


def plain(x):
    return [y if not hasattr(y, "model_dump") else y.model_dump() for y in x]


def listed(p, v):
    from datetime import datetime, timezone
    from shepherd_core import inventory
    from shepherd_core.data_models import EnergyEnvironment, Experiment, Firmware, TargetConfig
    from shepherd_core.data_models.base.cal_measurement import CalMeasurementHarvester
    from shepherd_core.data_models.task import ObserverTasks, TestbedTasks
    from shepherd_core.data_models.testbed import Observer, Testbed

    n, bad, name = p["n"], p["elem"], p["list"]

    def items(good, below=None, above=None):
        x = [good(i) for i in range(n)]
        if n and bad != "ok":
            x[v % n] = below if bad == "below" else above
        return x

    def config(i=0):
        return {"energy_env": EnergyEnvironment(name="eenv_static_3000mV_50mA_3600s"), "target_IDs": [i + 1], "firmware1": Firmware(name="nrf52_demo_rf")}

    if name == "targets":
        return TargetConfig, {**config(), "target_IDs": items(lambda i: 1, -1)}
    if name == "custom":
        return TargetConfig, {**config(), "custom_IDs": items(lambda i: [i, 65535 - i][v % 2], -1, 65536)}
    if name == "delays":
        return TargetConfig, {**config(), "target_delays": items(lambda i: i * (v % 2), -1)}
    if name == "configs":
        return Experiment, {"name": "own xp", "target_configs": items(lambda i: TargetConfig(**config(i)))}
    if name == "tasks":
        one = ObserverTasks(observer="own obs", owner_id=3, time_prep=datetime(2034, 1, 1, tzinfo=timezone.utc), root_path="/tmp/x", abort_on_error=False)
        return TestbedTasks, {"name": "own", "owner_id": 4, "observer_tasks": items(lambda i: one)}
    if name == "observers":
        return Testbed, {"id": 5_000_000, "name": "own tb", "description": "d", "data_on_server": "/a", "data_on_observer": "/b",
                         "observers": items(lambda i: Observer(id=5_000_000 + i, name=f"own {i}", description="d", ip=f"10.0.0.{i}", mac=f"aa:bb:cc:dd:ee:{i:02x}", room="r", eth_port=f"p{i}"))}
    if name == "points":
        pts = items(lambda i: {"shepherd_raw": 10.0 + i, "reference_si": i}, {"shepherd_raw": 0, "reference_si": 1}, {"shepherd_raw": float("inf"), "reference_si": 1})
        names = ["dac_V_Hrv", "dac_V_Sim", "adc_V_Sense", "adc_C_Hrv"]
        ok = [{"shepherd_raw": 1, "reference_si": 0}, {"shepherd_raw": 2, "reference_si": 0.5}]
        return CalMeasurementHarvester, {m: pts if m == names[v % 4] else ok for m in names}
    inv = {"uptime": 3, "timestamp": datetime(2024, 1, 1), "fs_root": ["a"], "beagle": ["b"], "system": "Linux", "release": "6", "version": "1", "machine": "arm", "processor": "p", "hostname": "h", "created": datetime(2024, 1, 2)}
    return inventory.InventoryList, {"elements": items(lambda i: inventory.Inventory(**inv))}


def build(o, v):
    from datetime import date, datetime
    from shepherd_core.data_models.base.calibration import CalibrationPair, CapeData
    from shepherd_core.data_models.content.virtual_harvester import HarvesterPRUConfig
    from shepherd_core.data_models.content.virtual_source import ConverterPRUConfig
    from shepherd_core.data_models.testbed import Cape

    k, p = o["kind"], o["p"]
    if k == "cape":
        cls = Cape
        d = {"id": p["id"] + 5_000_000 if p["id"] >= 0 else p["id"], "name": text(p["name"], v, True), "version": text(p["version"], v + 1, True)}
        if p["desc"]:
            d["description"] = text(p["desc"][0], v + 2)
        if p["comment"]:
            d["comment"] = text(p["comment"][0], v)
        if p["made"] != "none":
            d[["created", "calibrated"][v % 2]] = {"date": date(2024, 5, 6), "datetime": datetime(2024, 5, 6, 7, 8, 9), "junk": "some day"}[p["made"]]
    elif k == "eeprom":
        cls = CapeData
        d = {f: bytes(range(250, 250 - n, -1)) if f == "header" else "q" * n for f, n in p["len"]}
    elif k == "pair":
        cls = CalibrationPair
        d = {f: NUMS[p[f]] for f in ("gain", "offset") if p[f] != "none"}
    elif k == "list":
        cls, d = listed(p, v)
    else:
        cls = HarvesterPRUConfig if p["reg"] in HRV_REGS else ConverterPRUConfig
        d = {f: 3 for f in cls.model_fields}
        if cls is ConverterPRUConfig:
            d.update(LUT_inp_efficiency_n8=[[3] * 12 for _ in range(12)], LUT_out_inv_efficiency_n4=[3] * 12)
        x = REGV[p["value"]]
        if p["reg"] == "LUT_inp_efficiency_n8":
            if v % 2 and p["n"] != 12:
                d[p["reg"]][v % 12] = [1] * p["n"]
            else:
                d[p["reg"]] = [[1] * 12 for _ in range(p["n"])]
            if p["n"] == 12:
                d[p["reg"]][v % 12][v % 11] = x
        elif p["reg"] == "LUT_out_inv_efficiency_n4":
            d[p["reg"]] = [1] * p["n"]
            if p["n"] == 12:
                d[p["reg"]][v % 12] = x
        else:
            d[p["reg"]] = x
    keep = copy.deepcopy(d)
    obs = {"ok": False, "altered": False, "same": False}
    try:
        m = cls.model_validate(d) if v % 3 == 0 else cls(**d)
        obs["ok"] = True
        obs["same"] = all(str(getattr(m, f)) == str(x).strip() if isinstance(x, str) else len(getattr(m, f)) == len(x) and plain(getattr(m, f)) == plain(x) if isinstance(x, list) else getattr(m, f) == x for f, x in keep.items())
    except (ValueError, TypeError):
        pass
    obs["altered"] = repr(d) != repr(keep)
    return obs


# ---------------------------------------------------------------- any model
def leaves(tp):
    if typing.get_origin(tp) is typing.Annotated:
        return leaves(typing.get_args(tp)[0])
    if typing.get_origin(tp) in (typing.Union, getattr(types, "UnionType", typing.Union), list, typing.List):
        return set().union(*(leaves(a) for a in typing.get_args(tp)))
    return {tp}


def places(x, path=()):
    """(path, kind) of everything that can be spoiled."""
    from pydantic import BaseModel
    if isinstance(x, BaseModel):
        yield path, "unknown"
        for f, info in type(x).model_fields.items():
            y, ts = getattr(x, f), leaves(info.annotation)
            if isinstance(y, str) and ts <= {str, type(None)}:
                yield (*path, f), "text"
            elif isinstance(y, (int, float)) and not isinstance(y, bool) and float in ts:
                yield (*path, f), "number"
            elif isinstance(y, list) and float in ts:
                idx = [i for i in range(len(y)) if i in (0, len(y) - 1)]
                for i in idx:
                    yield ((*path, f, i, 5) if isinstance(y[i], list) else (*path, f, i)), "number"
            else:
                yield from places(y, (*path, f))
    elif isinstance(x, (list, tuple)):
        for i, y in enumerate(x):
            yield from places(y, (*path, i))


def spoil(o, ev):
    from drivers.models import Gen
    g = Gen(random.Random(o["seed"]))
    m = None
    while m is None:
        try:
            m = g.make(o["kind"])
        except (ValueError, TypeError):
            continue
    full = m.model_dump()
    spots = list(places(m))
    for n, how in enumerate(o["hows"]):
        want = {"unknown": "unknown", "nan": "number", "inf": "number", "long": "text", "padded": "text"}.get(how)
        at = [p for p, k in spots if k == want] if want else [()]
        if not at:
            continue
        rng = random.Random(o["seed"] + n)
        path = rng.choice(at)
        d = copy.deepcopy(full)
        x = d
        for q in path if how == "unknown" else path[:-1]:
            x = x[q]
        if how == "unknown":
            x[rng.choice(["colour", "unknown_x", "Name", "v_max"])] = rng.choice([1, "x", None])
        elif how in ("nan", "inf"):
            x[path[-1]] = float("nan") if how == "nan" else rng.choice([1, -1]) * float("inf")
        elif how == "long":
            x[path[-1]] = "x" * rng.choice([513, 600])
        elif how == "padded":
            x[path[-1]] = rng.choice(["  {}", "{} ", " {}   "]).format(x[path[-1]])
        obs = {"ok": False, "same": False}
        try:
            m2 = type(m)(**d)
            obs["ok"] = True
            obs["same"] = m2.model_dump() == full
        except (ValueError, TypeError):
            pass
        ev.append({"op": "spoil", "kind": o["kind"], "how": how, "at": ".".join(map(str, path)) or "-", "obs": obs})


def execute(scn, work):
    ev, prev = [], None
    for n, o in enumerate(scn["ops"]):
        v = scn["v"] + n
        if o["op"] in ("src", "adjust"):
            op = "src" if prev is None else o["op"]
            obs, prev = source(o, prev if op == "adjust" else None, v, work)
            ev.append({"op": op, "p": {k: o[k] for k in ("set", "lutin", "lutout", "alg")}, "obs": obs})
        elif o["op"] == "build":
            ev.append({"op": "build", "kind": o["kind"], "p": o["p"], "obs": build(o, v)})
        else:
            spoil(o, ev)
    return {"init": {}, "ev": ev}

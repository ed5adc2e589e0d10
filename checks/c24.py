"""C24: admission of task- and feature-parameters, instants and zones."""
import copy
import os
import time

from drivers.h5build import prog
from vf.util import I, SENT

TRACE = "AdmitTrace"
ASSUMPTIONS = ["start times are at least 60 s away from now", "noted wall-clock times are not ambiguous (no change of daylight-saving within two hours)"]
BATCH = 400
NONE = -99999
ZONES = ["UTC0", "CET-1CEST,M3.5.0,M10.5.0/3", "XST-10XDT,M10.1.0,M4.1.0/3", "IST-5:30", "EST5EDT,M3.2.0,M11.1.0", "NFT3:30NDT,M3.2.0,M11.1.0"]
REFUSAL = None


def models(tier):
    return [{"module": "AdmitMC", "cfg": "AdmitMC.cfg" if tier == "quick" else "AdmitMC_deep.cfg"}]


def generators(tier):
    return [{"module": "AdmitMC", "cfg": "AdmitGen.cfg", "cap": 1500 if tier == "quick" else 100000,
             "to_scenario": lambda g: [{"ops": [{"op": "build", **g}], "zone": ZONES[len(str(g)) % len(ZONES)], "v": len(str(g))}]}]


def warmup():
    import shepherd_core.data_models.task  # noqa: F401
    from shepherd_core.data_models.experiment import observer_features  # noqa: F401
    from shepherd_core.data_models.base import timezone  # noqa: F401


def scenarios(rng, tier):
    n = 500 if tier == "quick" else 6000
    for i in range(n):
        ops = []
        for _ in range(rng.randrange(1, 6)):
            k = rng.choice(["instant", "instant", "zone", "build", "build", "actuation"])
            if k == "instant":
                ops.append({"op": k, "nt": rng.choice(["epoch", "epoch-float", "iso-offset", "iso-utc", "iso-naive", "aware", "naive"]),
                            "ahead": rng.choice([120, 3600, 86400, 86400 * 30, 86400 * 100, 86400 * 190, 86400 * 300]) + rng.randrange(0, 50000),
                            "given": rng.choice([-330, 0, 60, 120, 345, 720]), "kind": rng.choice(["emulation", "harvest"]), "route": rng.randrange(3)})
            elif k == "zone":
                ops.append({"op": k})
            elif k == "actuation":
                ops.append({"op": k, "events": [rnd_event(rng) for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))],
                            "names": []})
            else:
                ops.append({"op": k, **rnd_build(rng)})
        yield {"ops": ops, "zone": rng.choice(ZONES), "v": rng.randrange(10**6)}
    for c in (1024, 1025):
        ev = {"delay": 5, "period": 100, "count": 1, "pin": {"gpio": True, "dir": "IO", "pru": True, "sys": True}}
        yield {"ops": [{"op": "actuation", "events": [ev] * c, "names": []}], "zone": "UTC0", "v": 3}


def rnd_event(rng):
    good = rng.random() < 0.85
    pin = {"gpio": True, "dir": rng.choice(["IO", "OUT"]), "pru": True, "sys": rng.random() < 0.5}
    if not good:
        pin[rng.choice(["gpio", "dir", "pru"])] = rng.choice([False]) if rng.random() < 0.6 else pin["gpio"]
        if pin["dir"] not in ("IN", "IO", "OUT"):
            pin["dir"] = "IN"
    pin["gpio"], pin["pru"] = bool(pin["gpio"]), bool(pin["pru"])
    return {"delay": rng.choice([1, 10, 333, 1000, 10**6, 123456789, rng.randrange(1, 10**9)]),
            "period": rng.choice([10, 11, 100, 333, 10**6, 100000, rng.randrange(10, 10**6)]),
            "count": rng.choice([1, 2, 3, 7, 10, 100, 4096, rng.randrange(1, 4097)]), "pin": pin}


def rnd_build(rng):
    k = rng.choice(["power", "gpio", "event", "event", "emulation", "harvest", "programming", "modify"])
    sp = lambda: rng.choice([NONE, 0, 1, 999, 60000, 86400000, rng.randrange(10**6)])  # noqa: E731
    if k == "power":
        p = {"delay": sp(), "dur": sp(), "dis_v": rng.random() < 0.3, "dis_c": rng.random() < 0.3, "calc": rng.random() < 0.1, "rate": rng.choice([10, 11, 1000, 99999, 100000, 50])}
    elif k == "gpio":
        p = {"delay": sp(), "dur": sp(), "mask": rng.randrange(1, 1024), "pins": rng.choice([NONE, 1, 2, 9, 10]), "baud": rng.choice([2400, 9600, 115200, 921600])}
    elif k == "event":
        p = rnd_event(rng)
    elif k == "emulation":
        p = {"start": rng.choice([NONE, 60, 61, 100000, -60, -100000]), "dur": sp(), "verb": rng.randrange(5), "act": rng.random() < 0.1,
             "aux": rng.choice([{"kind": "volt", "mV": rng.choice([0, 1, 3300, 4499, 4500, 5000]), "name": ""}, {"kind": "name", "mV": 0, "name": rng.choice(["main", "buffer", "Main", "mid"])}])}
    elif k == "harvest":
        p = {"start": rng.choice([NONE, 60, 61, 100000, -60, -100000]), "dur": sp(), "verb": rng.randrange(5)}
    elif k == "programming":
        p = {"mV": rng.randrange(1000, 5000), "rate": rng.choice([1, 2, 500000, 1000000]), "port": rng.choice([1, 2]), "verb": rng.randrange(5), "hex": rng.random() < 0.8,
             "proto": rng.choice(["SWD", "SBW", "JTAG", "UART"])}
    else:
        p = {"cid": rng.choice([NONE, 0, 1, 255, 256, 32768, 65535]), "verb": rng.randrange(5)}
    return {"kind": k, "p": p}


def span(ms, v):
    """A time span in one of the accepted notations."""
    from datetime import timedelta
    if v % 3 == 0:
        return timedelta(milliseconds=ms)
    if v % 3 == 1 or ms < 0:
        return ms / 1000
    return f"PT{ms // 1000}.{ms % 1000:03d}S"


def pin_dict(pin, v):
    d = {"id": 5000 + v % 7, "name": f"{'GPIO_x' if v % 2 else 'some_gpio'}{v % 7}" if pin["gpio"] else f"pin{v % 7}", "direction": pin["dir"]}
    if pin["pru"]:
        d.update(reg_pru="r31_00", pin_pru="P8_45")
    elif v % 2:
        d.update(reg_pru="r31_00")
    if pin["sys"]:
        d.update(reg_sys=0 if v % 3 == 0 else 26, pin_sys="P8_14")
    elif v % 2:
        d.update(pin_sys="P8_14")
    return d


def event_dict(p, v):
    return {"delay": p["delay"] / 1e6, "period": p["period"] / 1e6, "count": p["count"], "gpio": pin_dict(p["pin"], v), "level": ["L", "H", "X"][v % 3]}


def val(x):
    return getattr(x, "value", x)


def ms(td):
    from datetime import timedelta
    if td is None:
        return NONE
    if not isinstance(td, timedelta):
        td = timedelta(seconds=td)
    return I(td / timedelta(milliseconds=1))


def content(kind, p, v, base):
    """Arguments and a comparison of the built model against them."""
    d, cmp_ = {}, []
    if kind in ("power", "gpio"):
        for k, key in (("delay", "delay"), ("dur", "duration")):
            if p[k] != NONE:
                d[key] = span(p[k], v + len(k))
                cmp_.append((lambda m, key=key: ms(getattr(m, key)), p[k]))
            else:
                cmp_.append((lambda m, key=key: ms(getattr(m, key)), 0 if k == "delay" else NONE))
    if kind == "power":
        d.update(discard_voltage=p["dis_v"], discard_current=p["dis_c"], calculate_power=p["calc"], samplerate=p["rate"])
        cmp_ += [(lambda m: m.discard_voltage, p["dis_v"]), (lambda m: m.discard_current, p["dis_c"]), (lambda m: m.samplerate, p["rate"])]
    elif kind == "gpio":
        d.update(mask=p["mask"], uart_baudrate=p["baud"])
        cmp_ += [(lambda m: m.mask, p["mask"]), (lambda m: m.uart_baudrate, p["baud"])]
        if p["pins"] != NONE:
            names = [f"GPIO{i % 9}" for i in range(v, v + p["pins"])]
            d["gpios"] = [{"name": n} for n in names]
            cmp_.append((lambda m: [g.name for g in m.gpios], names))
        else:
            cmp_.append((lambda m: m.gpios, None))
    elif kind == "event":
        d.update(event_dict(p, v))
        cmp_ += [(lambda m: m.gpio.name, d["gpio"]["name"]), (lambda m: m.count, p["count"]), (lambda m: val(m.level), d["level"])]
    elif kind in ("emulation", "harvest"):
        if kind == "emulation":
            d["input_path"] = "/tmp/x.h5"
            a = p["aux"]
            d["voltage_aux"] = a["mV"] / 1000 if a["kind"] == "volt" else a["name"]
            cmp_.append((lambda m: m.voltage_aux, d["voltage_aux"]))
            if p["act"]:
                d["gpio_actuation"] = {"events": [event_dict({"delay": 10, "period": 100, "count": 1, "pin": {"gpio": True, "dir": "IO", "pru": True, "sys": True}}, v)]}
        else:
            d["output_path"] = "/tmp/x.h5"
        if p["start"] != NONE:
            t = base + p["start"]
            d["time_start"] = noted(t, ["epoch", "epoch-float", "iso-offset", "iso-utc", "iso-naive", "aware", "naive"][v % 7], 60)
        if p["dur"] != NONE:
            d["duration"] = span(p["dur"], v)
        cmp_.append((lambda m: ms(m.duration), p["dur"]))
        d["verbose"] = p["verb"]
    elif kind == "programming":
        hx = [".hex", ".HEX", ".ihex"][v % 3] if p["hex"] else [".elf", "", ".hex.bak", ".txt"][v % 4]
        d.update(firmware_file=f"/tmp/some.v1{hx}" if hx or not v % 2 else "/tmp/hex", voltage=p["mV"] / 1000, datarate=p["rate"], mcu_port=p["port"], protocol=p["proto"], mcu_type="nrf52")
        if not p["hex"] and hx == "":
            d["firmware_file"] = "/tmp/hex"
        d["verbose"] = p["verb"]
        cmp_ += [(lambda m: m.firmware_file.as_posix(), d["firmware_file"]), (lambda m: m.voltage, d["voltage"]), (lambda m: m.datarate, p["rate"]), (lambda m: m.mcu_port, p["port"]),
                 (lambda m: val(m.protocol), p["proto"])]
    else:
        from pathlib import Path
        d.update([{"data": "AAECAwQFBgcICQ==", "data_type": "elf"}, {"data": "/fw/x.elf", "data_type": "path_elf"}, {"data": Path("/fw/x.hex"), "data_type": "path_hex"},
                  {"data": "AAECAwQFBgcICQ==", "data_type": "hex"}][v % 4], firmware_file="/tmp/o.hex", verbose=p["verb"])
        if p["cid"] != NONE:
            d["custom_id"] = p["cid"]
        cmp_ += [(lambda m: NONE if m.custom_id is None else m.custom_id, p["cid"]), (lambda m: str(m.data), str(d["data"])), (lambda m: val(m.data_type), d["data_type"])]
    if "verbose" in d:
        cmp_.append((lambda m: m.verbose, d["verbose"]))
    return d, cmp_


def noted(t, nt, given):
    from datetime import datetime, timedelta, timezone
    z = timezone(timedelta(minutes=given))
    if nt == "epoch":
        return int(t)
    if nt == "epoch-float":
        return float(t)
    if nt == "iso-offset":
        return datetime.fromtimestamp(t, tz=z).isoformat()
    if nt == "iso-utc":
        return datetime.fromtimestamp(t, tz=timezone.utc).isoformat()
    if nt == "iso-naive":
        return datetime.fromtimestamp(t).isoformat(sep="T" if int(t) % 2 else " ")
    if nt == "aware":
        return datetime.fromtimestamp(t, tz=z)
    return datetime.fromtimestamp(t)


def cls_of(kind):
    from shepherd_core.data_models import task
    from shepherd_core.data_models.experiment import observer_features as f
    return {"power": f.PowerTracing, "gpio": f.GpioTracing, "event": f.GpioEvent, "emulation": task.EmulationTask, "harvest": task.HarvestTask,
            "programming": task.ProgrammingTask, "modify": task.FirmwareModTask}[kind]


def create(kind, d, route):
    """Build a model by one of several routes, (model, input untouched)."""
    from shepherd_core.data_models import task
    from shepherd_core.data_models.experiment import observer_features as f
    cls = cls_of(kind)
    if route % 4 == 0:
        arg = d
        run = lambda: cls(**d)  # noqa: E731
    elif route % 4 == 1:
        arg = d
        run = lambda: cls.model_validate(d)  # noqa: E731
    elif kind in ("emulation", "programming", "modify"):
        from datetime import datetime, timedelta, timezone
        slot = {"emulation": "emulation", "programming": "fw1_prog", "modify": "fw2_mod"}[kind]
        arg = {"observer": "s1", "owner_id": 1, "time_prep": datetime.now(tz=timezone.utc) + timedelta(days=1), "root_path": "/x", "abort_on_error": False, slot: d}
        run = lambda: getattr(task.ObserverTasks(**arg), slot)  # noqa: E731
    elif kind == "event":
        arg = {"events": [d]}
        run = lambda: f.GpioActuation(**arg).events[0]  # noqa: E731
    elif kind in ("power", "gpio"):
        slot = "power_tracing" if kind == "power" else "gpio_tracing"
        arg = {"input_path": "/tmp/x.h5", slot: d}
        run = lambda: getattr(task.EmulationTask(**arg), slot)  # noqa: E731
    else:
        arg = {"datatype": cls.__name__, "parameters": d}
        from shepherd_core.data_models.base.wrapper import Wrapper
        run = lambda: task.extract_tasks(Wrapper(**arg))[0]  # noqa: E731
    before = copy.deepcopy(arg)
    try:
        m = run()
    except (ValueError, NotImplementedError):
        m = None
    return m, arg != before or str(arg) != str(before)


def secs(t, base):
    return I(round(t.timestamp() - base)) if abs(t.timestamp() - base - round(t.timestamp() - base)) < 1e-3 else SENT


def execute(scn, work):
    old = os.environ.get("TZ")
    os.environ["TZ"] = scn["zone"]
    time.tzset()
    try:
        return run(scn)
    finally:
        if old is None:
            os.environ.pop("TZ", None)
        else:
            os.environ["TZ"] = old
        time.tzset()


def run(scn):
    import numpy as np
    from datetime import datetime
    ev = []
    for n, o in enumerate(scn["ops"]):
        v = scn["v"] + n
        base = int(time.time())
        if o["op"] == "build":
            p = o["p"]
            d, cmp_ = content(o["kind"], p, v, base)
            m, alt = create(o["kind"], d, v // 7)
            obs = {"ok": m is not None, "altered": alt, "same": False, "instants": [0, 0, 0], "start": NONE}
            if m is not None:
                obs["same"] = all(f(m) == x for f, x in cmp_)
                if o["kind"] == "event":
                    t = np.asarray(m.get_events(), dtype="f8") * 1e6
                    r = np.round(t)
                    obs["instants"] = prog(r.astype("i8")) if t.size and np.max(np.abs(t - r)) < 0.1 else [SENT, SENT, int(t.size)]
                if o["kind"] in ("emulation", "harvest") and m.time_start is not None:
                    obs["start"] = secs(m.time_start, base)
            ev.append({**o, "obs": obs})
        elif o["op"] == "actuation":
            from shepherd_core.data_models.experiment.observer_features import GpioActuation
            ds = [event_dict(e, v + i) for i, e in enumerate(o["events"])]
            try:
                m = GpioActuation(events=ds)
            except (ValueError, NotImplementedError):
                m = None
            ev.append({**o, "names": sorted({e["gpio"]["name"] for e in ds}), "obs": {"ok": m is not None, "pins": sorted(g.name for g in m.get_gpios()) if m else []}})
        elif o["op"] == "instant":
            t = base + o["ahead"]
            off = [time.localtime(x).tm_gmtoff for x in (t - 7200, t, t + 7200)]
            if len(set(off)) > 1:
                continue
            naive = o["nt"] in ("iso-naive", "naive")
            given = {"iso-utc": 0, "epoch": 0, "epoch-float": 0}.get(o["nt"], o["given"])
            local = off[1] // 60
            x = noted(t, o["nt"], given)
            m, _ = create(o["kind"], {"input_path" if o["kind"] == "emulation" else "output_path": "/tmp/x.h5", "time_start": x}, o["route"])
            ev.append({"op": "instant", "shown": o["ahead"] + (local if naive else given) * 60, "naive": naive, "local": local, "given": given,
                       "nt": o["nt"], "kind": o["kind"], "obs": {"ok": m is not None, "t": secs(m.time_start, base) if m is not None and m.time_start else SENT}})
        else:
            from shepherd_core.data_models.base.timezone import local_iso_date, local_now, local_tz
            a = datetime.now().astimezone()
            date, now, tz = local_iso_date(), local_now(), local_tz()
            b = datetime.now().astimezone()
            ev.append({"op": "zone", "local": time.localtime().tm_gmtoff // 60,
                       "obs": {"off": I(tz.utcoffset(None).total_seconds() / 60), "now": bool(a <= now <= b), "date": date in (a.date().isoformat(), b.date().isoformat())}})
    return {"init": {}, "ev": ev}

"""C11: experiments become observer tasks."""
from drivers import world

TRACE = "ExperimentTrace"
CORRUPT_N = 40
ASSUMPTIONS = [
    "databases are synthetic and random; start times lie in the future; actuation of gpio is refused by design and not part of the runs",
    "the directory is derived from name and local start time of the experiment",
]
EPOCH = 2035
GLOB = ("duration", "abort_on_error", "sys_logging")
OPT = ("input_path", "virtual_source", "power_tracing", "gpio_tracing", "enable_io")
VS = ["neutral", "direct", "BQ25504", "BQ25570s", "diode+capacitor", "default"]


def models(tier):
    return [{"module": "ExperimentMC", "cfg": "ExperimentMC.cfg"}]


def warmup():
    import shepherd_core.data_models.task  # noqa: F401
    world.shipped()


def secs(t):
    from datetime import datetime
    base = datetime(EPOCH, 1, 1).astimezone()
    return round((t.astimezone() - base).total_seconds())


def pick(m, keys):
    d = m.model_dump()
    return world.canon({k: d[k] for k in keys})


def prog_set(p):
    proto = p.protocol.value if hasattr(p.protocol, "value") else str(p.protocol)
    return f"{p.mcu_port}|{p.mcu_type}|{float(p.voltage)}|{p.datarate}|{proto}|{p.simulate}"


def expect_cfg(w, c):
    from shepherd_core.data_models.content import VirtualSourceConfig
    from shepherd_core.data_models.experiment import GpioTracing, PowerTracing
    fw = {f["name"]: f for f in w["fw"]}
    mcu = {m["id"]: m for m in w["mcu"]}
    fws, prog = [], []
    for n, name in ((1, c["fw1"]), (2, c["fw2"])):
        if name:
            f = fw[name]
            m = mcu[f["mcu"]]
            fws.append([f["path"], "path_elf"])
            prog.append(f"{n}|{m['name']}|{float(m['volt'])}|{m['rate']}|{m['proto']}|False")
    env = {e["name"]: e["path"] for e in w["env"]}
    from pathlib import Path
    opt = {
        "input_path": Path(env[c["env"]]),
        "virtual_source": VirtualSourceConfig(name=c.get("vs") or "neutral").model_dump(),
        "power_tracing": None if c.get("power") is None else PowerTracing(**c["power"]).model_dump(),
        "gpio_tracing": None if c.get("gpio") is None else GpioTracing(**c["gpio"]).model_dump(),
        "enable_io": c.get("gpio") is not None,
    }
    return {"fw": fws, "prog": prog, "opt": world.canon(opt)}


def observe(tt):
    sets = []
    for o in tt.observer_tasks:
        order = []
        names = {"fw1_mod": o.fw1_mod, "fw2_mod": o.fw2_mod, "fw1_prog": o.fw1_prog, "fw2_prog": o.fw2_prog, "emulation": o.emulation}
        for t in o.get_tasks():
            order.append(next((k for k, v in names.items() if v is t), "?"))
        mods = [m for m in (o.fw1_mod, o.fw2_mod) if m is not None]
        progs = [p for p in (o.fw1_prog, o.fw2_prog) if p is not None]
        e = o.emulation
        files = [m.firmware_file for m in mods] + [e.output_path]
        sets.append({
            "observer": o.observer, "root": o.root_path.as_posix(), "prep": secs(o.time_prep), "order": order,
            "mod": [{"data": str(m.data), "dtype": getattr(m.data_type, "value", m.data_type), "cid": -1 if m.custom_id is None else m.custom_id, "file": m.firmware_file.as_posix()} for m in mods],
            "prog": [{"port": getattr(p.target_port, "value", p.target_port), "set": prog_set(p), "file": p.firmware_file.as_posix()} for p in progs],
            "emu": {"pwr": getattr(e.pwr_port, "value", e.pwr_port), "io": getattr(e.io_port, "value", e.io_port),
                    "start": -1 if e.time_start is None else secs(e.time_start), "out": e.output_path.as_posix(),
                    "opt": pick(e, OPT), "glob": pick(e, GLOB)},
            "files": [{"dir": f.parent.as_posix(), "base": f.name} for f in files],
        })
    out = tt.get_output_paths()
    return {"name": tt.name, "email": tt.email_results, "owner": tt.owner_id or 0, "sets": sets,
            "outputs": [{"obs": k, "path": v.as_posix()} for k, v in out.items()]}


def execute(scn, work):
    import time
    from datetime import datetime, timedelta, timezone
    from shepherd_core.data_models.experiment import Experiment, SystemLogging
    from shepherd_core.data_models.task import TestbedTasks
    from shepherd_core.data_models.testbed import Testbed

    w = scn["w"]
    ev = []
    world.install(w)
    try:
        cs, x = scn["cs"], scn["xp"]
        try:
            built = [world.build_cfg(c) for c in cs]
            kw = {"name": x["name"], "target_configs": built, "email_results": x["email"], "abort_on_error": x["abort"]}
            if x["owner"]:
                kw["owner_id"] = x["owner"]
            if x["dur"] is not None:
                kw["duration"] = timedelta(seconds=x["dur"])
            if x["log"] is not None:
                kw["sys_logging"] = SystemLogging(**x["log"])
            t0 = None
            if x["start"] is not None:
                t0 = datetime(EPOCH, 1, 1) + timedelta(seconds=x["start"])
                if x["tz"] == "local":
                    t0 = t0.astimezone()
                elif x["tz"] == "utc":
                    t0 = t0.astimezone().astimezone(timezone.utc)
                elif x["tz"] == "plus3":
                    t0 = t0.astimezone().astimezone(timezone(timedelta(hours=3)))
                kw["time_start"] = t0
            xp = Experiment(**kw)
        except ValueError:
            xp = None
        ev.append({"op": "experiment", "cs": [world.abstract_cfg(w, c) for c in cs], "neg": False, "obs": {"ok": xp is not None}})
        if xp is not None:
            tb = Testbed() if scn["tb"] else None
            for _ in range(scn["rep"]):
                if scn["boundary"]:
                    time.sleep((0.985 - time.time() % 1) % 1)
                tt = TestbedTasks.from_xp(xp, tb) if tb else TestbedTasks.from_xp(xp)
                root = ""
                if t0 is not None:
                    root = f"/data/experiments/{x['name']}_{t0.strftime('%Y-%m-%d_%H-%M-%S')}"
                log = SystemLogging(**(x["log"] or {"dmesg": True, "ptp": True, "shepherd": True}))
                glob = {"duration": None if x["dur"] is None else timedelta(seconds=x["dur"]), "abort_on_error": x["abort"], "sys_logging": log.model_dump()}
                ev.append({"op": "tasks", "name": x["name"], "email": x["email"], "owner": x["owner"], "root": root,
                           "start": x["start"] if x["start"] is not None else -1, "prep": w["prep"], "now": secs(datetime.now().astimezone()) - 30,
                           "glob": world.canon(glob), "cfg": [expect_cfg(w, c) for c in cs], "obs": observe(tt)})
    finally:
        world.restore()
    return {"ev": ev, "init": {"w": world.abstract(w)}}


def scenarios(rng, tier):
    n = 500 if tier == "quick" else 8000
    for k in range(n):
        boundary = k < (12 if tier == "quick" else 60)
        w = world.random_world(rng, nobs=14 if boundary else None)
        cs = world.random_configs(rng, w, faults=rng.random() < 0.05)
        for c in cs:
            if rng.random() < 0.6:
                c["vs"] = rng.choice(VS)
            if rng.random() < 0.5:
                c["power"] = rng.choice([{}, {"delay": 5}, {"intermediate_voltage": True, "duration": 7}, {"samplerate": rng.choice([10, 1000, 5000])}, {"discard_current": True}])
            if rng.random() < 0.5:
                c["gpio"] = rng.choice([{}, {"uart_decode": True, "uart_baudrate": 9600}, {"mask": 5, "delay": 3}, {"duration": 2}])
        xp = {"name": rng.choice(["meas", "xp_1", "my exp"]), "email": rng.random() < 0.5, "abort": rng.random() < 0.5, "owner": rng.choice([0, 5, 4242]),
              "dur": rng.choice([None, 0, 30, 3600]), "log": rng.choice([None, {"dmesg": False}, {"ptp": False, "shepherd": False}]),
              "start": None if boundary else rng.choice([None, 0, 1, 86399, rng.randrange(3 * 10**6)]), "tz": rng.choice(["naive", "local", "utc", "plus3"])}
        yield {"kind": "tasks", "w": w, "cs": cs, "xp": xp, "tb": rng.random() < 0.5, "rep": 2 if boundary else rng.choice([1, 1, 2]), "boundary": boundary}

"""C12: preparing and extracting tasks."""
from drivers import canon, world

TRACE = "TasksTrace"
ASSUMPTIONS = ["start times lie in the future", "content is compared by canonical value of every field"]
REFUSAL = (ValueError, TypeError, OSError, KeyError, AttributeError)


def models(tier):
    return [{"module": "TasksMC", "cfg": "TasksMC_deep.cfg"}]


def generators(tier):
    return [{"module": "TasksMC", "cfg": "TasksGen.cfg", "cap": 250 if tier == "quick" else 1024,
             "to_scenario": lambda g: [{"kind": "set", "sets": [{"obs": s["obs"], "slots": s["slots"], "seed": i * 31 + len(s["slots"])} for i, s in enumerate(g["sets"])], "form": len(g["sets"][0]["slots"]) % 4, "seed": 7}]}]


def warmup():
    import shepherd_core.data_models.task  # noqa: F401
    world.shipped()


def when(rng):
    from datetime import datetime, timedelta, timezone
    t = datetime(2034, 5, 6, 7, 8, 9) + timedelta(seconds=rng.randrange(10**6))
    z = rng.choice(["naive", "utc", "p3", "us"])
    if z == "us":
        t += timedelta(microseconds=rng.randrange(10**6))
    if z in ("utc", "us"):
        t = t.replace(tzinfo=timezone.utc)
    elif z == "p3":
        t = t.replace(tzinfo=timezone(timedelta(hours=3)))
    return t


def make(slot, rng):
    from datetime import timedelta
    from pathlib import Path
    from shepherd_core.data_models import VirtualHarvesterConfig, VirtualSourceConfig
    from shepherd_core.data_models.experiment import GpioTracing, PowerTracing, SystemLogging
    from shepherd_core.data_models.task import EmulationTask, FirmwareModTask, HarvestTask, ProgrammingTask

    def opt(kw, p, **o):
        for k, f in o.items():
            if rng.random() < p:
                kw[k] = f()
        return kw

    if slot in ("fw1_mod", "fw2_mod", "mod"):
        kw = {"data": rng.choice([Path("/fw/x.elf"), Path("/fw/y z.elf"), Path("rel/a.elf")]), "data_type": "path_elf", "firmware_file": Path(f"/out/{rng.randrange(99)}.hex")}
        if rng.random() < 0.3:
            kw.update(data="AAECAwQFBgcICQ==" * rng.randrange(1, 4), data_type=rng.choice(["elf", "hex"]))
        return FirmwareModTask(**opt(kw, 0.5, custom_id=lambda: rng.choice([0, 1, 2**16 - 1, 300]), verbose=lambda: rng.choice([0, 4])))
    if slot in ("fw1_prog", "fw2_prog", "prog"):
        kw = {"firmware_file": Path(f"/out/{rng.randrange(99)}.hex"), "mcu_type": rng.choice(["nrf52", "msp430fr"]), "protocol": rng.choice(["SWD", "SBW", "JTAG", "UART"])}
        return ProgrammingTask(**opt(kw, 0.5, target_port=lambda: rng.choice(["A", "B"]), mcu_port=lambda: rng.choice([1, 2]), voltage=lambda: rng.choice([1.0, 1.8, 2.5, 4.99]),
                                     datarate=lambda: rng.choice([1, 123456, 1_000_000]), simulate=lambda: True, verbose=lambda: rng.choice([0, 3])))
    td = lambda: timedelta(seconds=rng.choice([0, 1, 60, 3600.5, 0.25, 86400 * 2, 1e-6]))  # noqa: E731
    pt = lambda: PowerTracing(**opt({}, 0.4, delay=td, duration=td, samplerate=lambda: rng.choice([10, 1000]), intermediate_voltage=lambda: True, discard_current=lambda: True))  # noqa: E731
    sl = lambda: rng.choice([None, SystemLogging(dmesg=False), SystemLogging(ptp=False, shepherd=False)])  # noqa: E731
    if slot == "emulation":
        kw = {"input_path": Path(rng.choice(["/d/in.h5", "in.h5"]))}
        return EmulationTask(**opt(
            kw, 0.45, output_path=lambda: Path("/d/out/emu.h5"), force_overwrite=lambda: True, output_compression=lambda: rng.choice([None, "lzf", "1", "None"]), time_start=lambda: when(rng),
            duration=td, abort_on_error=lambda: True, use_cal_default=lambda: True, enable_io=lambda: True, io_port=lambda: rng.choice(["A", "B"]), pwr_port=lambda: rng.choice(["A", "B"]),
            voltage_aux=lambda: rng.choice([0, 1.5, 4.5, "main", "buffer"]), virtual_source=lambda: VirtualSourceConfig(name=rng.choice(["BQ25504", "direct", "diode+capacitor", "BQ25570s"])),
            power_tracing=lambda: rng.choice([None, pt()]), gpio_tracing=lambda: rng.choice([None, GpioTracing(mask=rng.choice([1, 1023]), uart_decode=True, delay=td())]), sys_logging=sl, verbose=lambda: rng.choice([0, 4])))
    return HarvestTask(**opt({"output_path": Path("/d/hrv.h5")}, 0.45, force_overwrite=lambda: True, output_compression=lambda: rng.choice([None, "lzf", "1", "None"]), time_start=lambda: when(rng), duration=td,
                             abort_on_error=lambda: True, use_cal_default=lambda: True, virtual_harvester=lambda: VirtualHarvesterConfig(name=rng.choice(["cv20", "mppt_po", "ivcurve", "mppt_voc"])),
                             power_tracing=pt, sys_logging=sl, verbose=lambda: rng.choice([0, 4])))


def build_set(s, rng):
    import random
    from pathlib import Path
    from shepherd_core.data_models.task import ObserverTasks
    r = random.Random(s["seed"])
    kw = {"observer": s["obs"], "owner_id": r.choice([None, 3, 2**40]), "time_prep": when(r), "root_path": Path("/d/xp"), "abort_on_error": r.random() < 0.5}
    slots = list(s["slots"])
    for k in slots:
        kw[k] = make(k, r)
    return ObserverTasks(**kw)


def slots_of(o):
    return [{"slot": k, "type": type(getattr(o, k)).__name__, "h": canon.h(getattr(o, k))} for k in ("emulation", "fw2_prog", "fw1_prog", "fw2_mod", "fw1_mod") if getattr(o, k) is not None]


def item(m):
    n = type(m).__name__
    it = {"type": n, "h": canon.h(m), "slots": [], "sets": []}
    if n == "ObserverTasks":
        it["slots"] = slots_of(m)
    if n == "TestbedTasks":
        it["sets"] = [{"obs": o.observer, "h": canon.h(o), "slots": slots_of(o)} for o in m.observer_tasks]
    return it


def execute(scn, work):
    import random
    from pathlib import Path
    import yaml
    import shepherd_core.data_models as dm
    import shepherd_core.data_models.task as dt
    from shepherd_core.data_models import ShpModel
    from shepherd_core.data_models.base.wrapper import Wrapper

    rng = random.Random(scn["seed"])
    ev = []

    def cls(name):
        return getattr(dt, name, None) or getattr(dm, name, None)

    if scn["kind"] == "set":
        sets = [build_set(s, rng) for s in scn["sets"]]
        m = dt.TestbedTasks(name="xp", observer_tasks=sets, owner_id=rng.choice([None, 5]), email_results=rng.random() < 0.5)
        if scn.get("lone"):
            m = sets[0]
    elif scn["kind"] == "xp":
        world.install(scn["w"])
        try:
            from datetime import datetime, timedelta
            from shepherd_core.data_models.experiment import Experiment
            m = dt.TestbedTasks.from_xp(Experiment(name="xp", target_configs=[world.build_cfg(c) for c in scn["cs"]], time_start=datetime(2035, 1, 1).astimezone(), duration=timedelta(seconds=rng.choice([3, 0.75]))))
        except ValueError:
            return {"ev": []}
        finally:
            world.restore()
    elif scn["kind"] == "single":
        m = make(scn["type"], rng)
    elif scn["kind"] == "foreign":
        m = dm.VirtualSourceConfig(name="BQ25504") if scn["type"] == "vs" else dm.VirtualHarvesterConfig(name="cv20")
    else:
        m = None
    if m is not None:
        ev.append({"op": "item", "key": "m", "it": item(m)})
    names = [s["obs"] for s in scn.get("sets", [])] or [o.observer for o in getattr(m, "observer_tasks", [])]

    n = [0]

    def obs_wrap(w):
        c = cls(w.datatype)
        return {"ok": True, "type": w.datatype, "h": canon.h(c(**w.parameters)) if c else "?"}

    def prepare(src, ref, observer):
        n[0] += 1
        dst = f"w{n[0]}"
        before = canon.h(ref) if isinstance(ref, ShpModel) else Path(ref).read_bytes() if Path(ref).is_file() else b""
        try:
            w = dt.prepare_task(ref) if observer == "" else dt.prepare_task(ref, observer)
            o = obs_wrap(w)
        except (*REFUSAL, yaml.YAMLError):
            w, o = None, {"ok": False, "type": "", "h": ""}
        after = canon.h(ref) if isinstance(ref, ShpModel) else Path(ref).read_bytes() if Path(ref).is_file() else b""
        o["same"] = before == after
        ev.append({"op": "prepare", "src": src, "dst": dst, "observer": observer, "obs": o})
        return dst, w

    def extract(src, w, nosets):
        before = canon.h(w)
        try:
            got = dt.extract_tasks(w) if nosets and rng.random() < 0.5 else dt.extract_tasks(w, no_task_sets=nosets)
            o = {"ok": True, "items": [[type(x).__name__, canon.h(x)] for x in got]}
        except REFUSAL:
            o = {"ok": False, "items": []}
        o["same"] = canon.h(w) == before
        ev.append({"op": "extract", "src": src, "nosets": nosets, "obs": o})

    def ref_of(m, form):
        if form == 0:
            return m
        p = m.to_file(Path(work) / f"task_{n[0]}.yaml", minimal=form in (1, 3), comment="c" if rng.random() < 0.3 else None)
        return str(p) if form == 3 else p

    if scn["kind"] == "junk":
        ev.append({"op": "item", "key": "m", "it": {"type": "", "h": "", "slots": [], "sets": []}})
        p = Path(work) / "junk.yaml"
        if scn["text"] is not None:
            p.write_text(scn["text"])
        prepare("m", p, "")
        prepare("m", str(p), "o1")
        return {"ev": ev}
    for observer in dict.fromkeys(["", *names, "nobody", names[0][:-1] if names else "o", (names[0] + "1") if names else "o11"]):
        dst, w = prepare("m", ref_of(m, scn["form"]), observer)
        if w is None:
            continue
        extract(dst, w, True)
        extract(dst, w, False)
        # hand on through a file
        if rng.random() < 0.5 and cls(w.datatype):
            m2 = cls(w.datatype)(**w.parameters)
            d2, w2 = prepare(dst, ref_of(m2, rng.choice([0, 1, 2, 3])), observer)
            if w2 is not None:
                extract(d2, w2, rng.random() < 0.5)
    if type(m).__name__ == "TestbedTasks":
        for o in [*names, "nobody"]:
            got = m.get_observer_tasks(o)
            ev.append({"op": "sets", "src": "m", "observer": o, "obs": {"ok": got is not None, "h": canon.h(got) if got is not None else ""}})
    return {"ev": ev}


JUNK = [None, "", "just text", "- a\n- b\n", "datatype: EmulationTask\n", "parameters: {}\n", "datatype: [1]\nparameters: {}\n", "datatype: X\nparameters: 5\n",
        "{unclosed", "datatype: TestbedTasks\nparameters: []\n"]


def scenarios(rng, tier):
    ALL = ["fw1_mod", "fw2_mod", "fw1_prog", "fw2_prog", "emulation"]
    for t in JUNK:
        yield {"kind": "junk", "text": t, "seed": 1}
    for f in range(4):
        for t in ("vs", "vh"):
            yield {"kind": "foreign", "type": t, "form": f, "seed": f}
    for k in range(30 if tier == "quick" else 400):
        w = world.random_world(rng)
        yield {"kind": "xp", "w": w, "cs": world.random_configs(rng, w, faults=False), "form": rng.randrange(4), "seed": rng.randrange(10**9)}
    for k in range(400 if tier == "quick" else 6000):
        if rng.random() < 0.4:
            yield {"kind": "single", "type": rng.choice(["mod", "prog", "emulation", "harvest"]), "form": rng.randrange(4), "seed": rng.randrange(10**9)}
        else:
            n = rng.choice([1, 2, 3, 5])
            names = rng.sample(["sheep1", "sheep10", "sheep", "Sheep1", "unit test", "s.x"], n)
            yield {"kind": "set", "sets": [{"obs": o, "slots": [s for s in ALL if rng.random() < 0.6], "seed": rng.randrange(10**9)} for o in names],
                   "lone": rng.random() < 0.3, "form": rng.randrange(4), "seed": rng.randrange(10**9)}

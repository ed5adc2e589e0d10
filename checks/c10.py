"""C10: admission of experiments."""
from drivers import world

TRACE = "ExperimentTrace"
ASSUMPTIONS = [
    "databases of testbed, observers, capes, targets, processors, firmwares and environments are synthetic and random (client database replaced)",
    "a firmware given for a processor the target does not have is left unspecified",
]


def models(tier):
    return [{"module": "ExperimentMC", "cfg": "ExperimentMC.cfg"}]


def warmup():
    import shepherd_core.data_models.task  # noqa: F401
    world.shipped()


def execute(scn, work):
    from datetime import timedelta
    from shepherd_core.data_models.experiment import Experiment

    w = scn["w"]
    ev = []
    world.install(w)
    try:
        for cs in scn["variants"]:
            built = []
            ok = True
            for c in cs["cs"]:
                try:
                    built.append(world.build_cfg(c))
                    cok = True
                except ValueError:
                    cok = ok = False
                ev.append({"op": "config", "c": world.abstract_cfg(w, c), "obs": {"ok": cok}})
            if ok:
                kw = {"name": "xp", "target_configs": built}
                if cs["dur"] is not None:
                    kw["duration"] = cs["dur"] if cs["raw"] else timedelta(seconds=cs["dur"])
                try:
                    Experiment(**kw)
                except ValueError:
                    ok = False
            ev.append({"op": "experiment", "cs": [world.abstract_cfg(w, c) for c in cs["cs"]],
                       "neg": cs["dur"] is not None and cs["dur"] < 0, "obs": {"ok": ok}})
    finally:
        world.restore()
    return {"ev": ev, "init": {"w": world.abstract(w)}}


def scenarios(rng, tier):
    for k in range(400 if tier == "quick" else 8000):
        w = world.random_world(rng)
        vs = []
        for _ in range(3):
            cs = world.random_configs(rng, w)
            dur = rng.choice([None, None, 10, 0, 3600, -1 if rng.random() < 0.3 else 5, -0.25 if rng.random() < 0.2 else None])
            raw = rng.random() < 0.5
            vs.append({"cs": cs, "dur": dur, "raw": raw})
            p = list(cs)
            rng.shuffle(p)
            if p != cs:
                vs.append({"cs": p, "dur": dur, "raw": raw})
        yield {"kind": "admission", "w": w, "variants": vs}

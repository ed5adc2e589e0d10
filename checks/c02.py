"""C02: nothing is overwritten or altered unasked; open requests are admitted exactly as documented."""
import itertools

from drivers import recording as R

TRACE = "RecordingTrace"
ASSUMPTIONS = [
    "no second session is opened with modify/overwrite on a file that is still open (HDF5 forbids it)",
    "remains of a refused creation are not part of the promise and are cleared by the driver",
]


def models(tier):
    return [{"module": "RecordingMC", "cfg": "RecordingMC.cfg" if tier == "quick" else "RecordingMC_deep.cfg"}]


def warmup():
    R.imports()


execute = R.execute

MODES = ["", "harvester", "emulator"]
TYPES = ["", "ivsample", "ivcurve", "isc_voc", "ivsamples", "ivcurves"]


def op_open(rng, h, name, modify, force, mode="", dtype="", win=-1, cal=-1):
    return {"op": "open", "h": h, "name": name, "modify": modify, "force": force, "mode": mode, "dtype": dtype,
            "win": win, "cal": cal, "dstr": rng.random() < 0.5, "comp": rng.choice(["default", "none", "lzf", "gzip1"])}


def app(ident, n, t0):
    return {"op": "append", "h": 1, "id": ident, "tk": "array", "nt": n, "nv": n, "nc": n, "t0": t0, "dt": 10000, "si": False}


def scenarios(rng, tier):
    thorough = tier != "quick"
    # 1) every admission combination on a fresh path and as modification of every kind of recording
    combos = list(itertools.product(MODES + ["recorder"], TYPES + ["curve"], [-1, 0, 1, 500]))
    kinds = [("harvester", "ivsample", 0), ("harvester", "ivcurve", 100), ("harvester", "isc_voc", 0), ("emulator", "ivsample", 0)]
    for k, (mode, dtype, win) in enumerate(combos):
        ops = [op_open(rng, 1, "a.h5", False, False, mode, dtype, win, rng.choice([-1, 0, 1, 2, 3, 4])),
               app(1, 10000, 0), {"op": "close", "h": 1, "exc": False}]
        yield {"kind": "fresh", "ops": ops}
        for km, kt, kw in kinds if thorough else rng.sample(kinds, 2):
            cal = rng.choice([-1, 0, 1, 2, 3, 4])
            ops = [op_open(rng, 1, "a.h5", False, False, km, kt, kw, cal), app(1, 10000, 0),
                   {"op": "host", "h": 1, "val": "sheep03"}, {"op": "config", "h": 1, "val": 17},
                   {"op": "close", "h": 1, "exc": False},
                   op_open(rng, 1, "a.h5", True, False, mode, dtype, win, rng.choice([-1, -1, 0, 1, 2, 3, 4])),
                   {"op": "inspect", "name": "a.h5"},
                   app(2, 10000, 100_000_000),
                   {"op": "close", "h": 1, "exc": False}]
            yield {"kind": "modify", "ops": ops}
    # 2) random histories over several files and names, up to three simultaneous sessions
    names = ["a.h5", "b.h5", "a.0.h5", "a.b.h5", "noext", "sub.h5", "$0", "$1", "$2"]
    for _ in range(120 if not thorough else 2500):
        ops = []
        ident = 0
        t = 0
        for _ in range(rng.randint(4, 14)):
            r = rng.random()
            h = rng.randint(1, 3)
            if r < 0.5:
                mod = rng.random() < 0.35
                forc = not mod and rng.random() < 0.25
                ops.append(op_open(rng, h, rng.choice(names), mod, forc,
                                   rng.choice(["", "", "harvester", "emulator", "x"]), rng.choice(["", "", "", *TYPES]),
                                   rng.choice([-1, -1, 0, 1, 7]), rng.choice([-1, -1, 0, 1, 2, 3, 4])))
            elif r < 0.65:
                ident += 1
                o = app(ident, rng.choice([10, 10000]), t)
                t += 200_000_000 if t < 1_600_000_000 else 0
                o["h"] = h
                ops.append(o)
            elif r < 0.72:
                ops.append({"op": rng.choice(["host"]), "h": h, "val": rng.choice(["x", "sheep99"])})
            elif r < 0.76:
                ops.append({"op": "config", "h": h, "val": rng.randint(1, 99)})
            elif r < 0.9:
                ops.append({"op": "close", "h": h, "exc": rng.random() < 0.3})
            else:
                ops.append({"op": "inspect", "name": rng.choice(names)})
        yield {"kind": "history", "ops": ops}
    # 3) the same path over and over: every session needs its own file
    for k in range(2 if not thorough else 6):
        n = 24 if k == 0 else rng.choice([15, 40, 70]) if not thorough else rng.choice([24, 70, 130])
        ops = []
        for i in range(n):
            ops.append(op_open(rng, 1, "a.h5" if k != 1 else rng.choice(["a.h5", "a.b.h5"]), False, False))
            ops.append(app(i + 1, 10, i * 1_000_000))
            ops.append({"op": "close", "h": 1, "exc": False})
        yield {"kind": "history", "ops": ops}

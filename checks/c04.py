"""C04: validity verdict, time-step check, error count and validate command."""
import hashlib
import os

from drivers import h5build

TRACE = "ValidityTrace"
ASSUMPTIONS = [
    "time steps are judged at buffer starts with the documented resolution (deviations between 4 and 6 % of a buffer are not generated)",
    "files are structurally altered with h5py; attribute types are the ones the writer uses",
]
SCENARIO_LIMIT_S = 60


def models(tier):
    return [{"module": "ValidityMC", "cfg": "ValidityMC.cfg" if tier == "quick" else "ValidityMC_deep.cfg"}]


def generators(tier):
    return [{"module": "ValidityMC", "cfg": "ValidityGen.cfg", "cap": 900 if tier == "quick" else 7000,
             "to_scenario": lambda g: [{"kind": "file", "fs": [g], "soft": 1}]}]


def warmup():
    from shepherd_core import Reader, Writer  # noqa: F401
    from shepherd_data.cli import cli  # noqa: F401


def sha(path):
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def alter(h5, f, soft):
    """Give an open file the described structure."""
    import numpy as np

    if "data" in h5:
        del h5["data"]
    for k in list(h5.attrs):
        del h5.attrs[k]
    if "sheep" in h5:
        del h5["sheep"]
    if f["mode"] != "absent":
        h5.attrs["mode"] = f["mode"]
    if soft & 1:
        h5.attrs["hostname"] = "sheep7"
    if not f["data"]:
        return
    d = h5.create_group("data")
    if f["window"] != -99:
        d.attrs["window_samples"] = f["window"]
    if f["dtype"] != "absent":
        d.attrs["datatype"] = f["dtype"]
    n = 0 if soft & 2 else (17 if soft & 4 else 10000)
    comp = {0: {}, 8: {"compression": "gzip", "compression_opts": 9}, 16: {"compression": "lzf"}, 24: {}}[soft & 24]
    for name, key in (("time", "t"), ("voltage", "v"), ("current", "c")):
        if f[key] == "missing":
            continue
        m = n + (3 if soft & 32 and name == "current" else 0)
        arr = np.arange(m).astype("u8" if name == "time" else "u4")
        if name == "time":
            arr = arr * 10000
        ds = d.create_dataset(name, data=arr, chunks=True, maxshape=(None,), **comp)
        if f[key] not in ("nogain", "bare"):
            ds.attrs["gain"] = 1e-9
        if f[key] not in ("nooffset", "bare"):
            ds.attrs["offset"] = 0.0
    if soft & 64:
        g = h5.create_group("sheep")
        g.create_dataset("level", data=np.array([10, 40, 50]))


def open_reader(path):
    from shepherd_core import Reader

    try:
        with Reader(path, verbose=False) as r:
            return "valid" if r.is_valid() else "invalid"
    except (KeyError, TypeError, ValueError):
        return "raised"


def run_file(scn, work):
    import h5py
    from shepherd_core import Writer
    from pathlib import Path

    ev = []
    p = Path(work) / "f.h5"
    for f in scn["fs"]:
        with h5py.File(p, "w") as h5:
            alter(h5, f, scn["soft"])
        s0 = sha(p)
        res = open_reader(p)
        ev.append({"op": "open", "f": f, "obs": {"res": res, "changed": sha(p) != s0}})
    good = {"data": True, "mode": "harvester", "window": 0, "dtype": "ivsample", "v": "ok", "c": "ok", "t": "ok"}
    q = Path(work) / "g.h5"
    with h5py.File(q, "w") as h5:
        alter(h5, good, scn["soft"] & 1)
    w = Writer(q, modify_existing=True, verbose=False)
    try:
        for f in scn["fs"]:
            alter(w.h5file, f, scn["soft"])
            ev.append({"op": "judge", "f": f, "obs": {"res": "valid" if w.is_valid() else "invalid"}})
    finally:
        w.h5file.close()
    return {"ev": ev}


def write_times(path, n, jumps, gain_ns=1, off=0.0):
    import h5py
    import numpy as np

    t = np.arange(n, dtype="u8") * np.uint64(10000) + np.uint64(1_700_000_000 * 10**9)
    for pos, size in jumps:
        t[pos:] = (t[pos:].astype("i8") + size).astype("u8")
    with h5py.File(path, "w") as f:
        f.attrs["mode"] = "harvester"
        d = f.create_group("data")
        d.attrs["datatype"] = "ivsample"
        d.attrs["window_samples"] = 0
        for name, arr in (("time", t // np.uint64(gain_ns)), ("voltage", np.zeros(n, "u4")), ("current", np.zeros(n, "u4"))):
            ds = d.create_dataset(name, data=arr, chunks=True, maxshape=(None,))
            ds.attrs["gain"] = gain_ns * 1e-9 if name == "time" else 1e-9
            ds.attrs["offset"] = off if name == "time" else 0.0


def run_steps(scn, work):
    from pathlib import Path
    from shepherd_core import Reader

    p = Path(work) / "s.h5"
    write_times(p, scn["n"], scn["jumps"], scn["gain"], scn["off"])
    ev = []
    with Reader(p, verbose=False) as r:
        for me in scn["me"]:
            if me:
                r.max_elements = me
            ev.append({"op": "steps", "n": scn["n"], "jumps": scn["jumps"], "me": me,
                       "obs": {"ok": bool(r.check_timediffs())}})
    return {"ev": ev}


def run_errors(scn, work):
    import h5py
    import numpy as np
    from pathlib import Path
    from shepherd_core import Reader

    p = Path(work) / "e.h5"
    h5build.build(p, [0, 1], [0, 1], [0, 1])
    with h5py.File(p, "a") as f:
        for g, lv in scn["groups"].items():
            grp = f.create_group(g)
            if lv != "none":
                grp.create_dataset("level", data=np.array(lv, dtype="u1"), maxshape=(None,), chunks=True)
    ev = []
    with Reader(p, verbose=False) as r:
        for g, m in scn["ask"]:
            lv = scn["groups"].get(g, "none")
            if m == -1:
                n = r.count_errors_in_log(g)
            else:
                n = r.count_errors_in_log(g, m)
            ev.append({"op": "errors", "group": lv != "none", "levels": [] if lv == "none" else lv,
                       "min": 40 if m == -1 else m, "obs": {"n": int(n)}})
    return {"ev": ev}


def run_validate(scn, work):
    from click.testing import CliRunner
    from pathlib import Path
    import h5py
    from shepherd_data.cli import cli

    root = Path(work) / "root"
    (root / "sub" / "deep").mkdir(parents=True)
    good = {"data": True, "mode": "harvester", "window": 0, "dtype": "ivsample", "v": "ok", "c": "ok", "t": "ok"}
    files = []
    digest = {}
    for i, (where, state, var) in enumerate(scn["files"]):
        base = root if where == "top" else (root / "sub" if var % 2 else root / "sub" / "deep")
        p = base / f"f{i}.h5"
        if state in ("good", "invalid", "broken"):
            f = dict(good)
            if state == "invalid":
                k, v = [("mode", "absent"), ("window", -99), ("v", "nogain"), ("c", "nooffset"), ("t", "bare"),
                        ("dtype", "absent"), ("dtype", "ivcurve")][var % 7]
                f[k] = v
            if state == "broken":
                f[("v", "c", "t")[var % 3]] = "missing"
            with h5py.File(p, "w") as h5:
                alter(h5, f, (var * 37) & 127)
        elif state == "jump":
            write_times(p, 20001, [[15000, 5 * 10**7 * (1 if var % 2 else -1)]])
        elif state == "unreadable":
            p.write_text("this is no hdf5" * (var % 3))
        else:
            p = base / f"f{i}.{('txt', 'h5.bak', 'hdf')[var % 3]}"
            p.write_text("alien")
        files.append({"where": where, "state": state})
        digest[str(p)] = sha(p)
    args = ["validate"]
    if scn["single"] >= 0:
        i = scn["single"]
        p = list(digest)[i]
        args.append(p)
        files = [{"where": "top", "state": files[i]["state"]}]
        recurse = False
    else:
        args.append(str(root))
        recurse = scn["recurse"]
        if recurse:
            args.append("--recurse" if scn["seedvar"] % 2 else "-a")
    res = CliRunner().invoke(cli, args)
    if res.exception is not None and not isinstance(res.exception, (SystemExit, KeyError, TypeError, ValueError)):
        raise res.exception
    changed = any(sha(p) != h for p, h in digest.items()) or sum(len(x[2]) for x in os.walk(root)) != len(digest)
    return {"ev": [{"op": "validate", "files": files, "recurse": recurse,
                    "obs": {"failed": res.exit_code != 0, "changed": changed}}]}


def execute(scn, work):
    return {"file": run_file, "steps": run_steps, "errors": run_errors, "validate": run_validate}[scn["kind"]](scn, work)


FEAT = {"mode": ["harvester", "emulator", "absent", "neutral", ""], "window": [-99, -3, 0, 1, 50],
        "dtype": ["ivsample", "ivcurve", "isc_voc", "other", "absent"],
        "v": ["ok", "missing", "nogain", "nooffset", "bare"], "c": ["ok", "missing", "nogain", "nooffset", "bare"],
        "t": ["ok", "missing", "nogain", "nooffset", "bare"]}


def near_valid(rng):
    f = rng.choice([("harvester", "ivsample", 0), ("harvester", "ivcurve", 50), ("harvester", "isc_voc", 0),
                    ("emulator", "ivsample", 0)])
    f = {"data": True, "mode": f[0], "dtype": f[1], "window": f[2], "v": "ok", "c": "ok", "t": "ok"}
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        k = rng.choice(list(FEAT))
        f[k] = rng.choice(FEAT[k])
    return f


def scenarios(rng, tier):
    q = tier == "quick"
    for _ in range(400 if q else 5000):
        yield {"kind": "file", "fs": [near_valid(rng) for _ in range(rng.randint(1, 4))], "soft": rng.randint(0, 127)}
    # every soft deficiency on every valid kind of file
    for soft in range(128):
        yield {"kind": "file", "soft": soft, "fs": [
            {"data": True, "mode": m, "dtype": d, "window": w, "v": "ok", "c": "ok", "t": "ok"}
            for m, d, w in (("harvester", "ivsample", 7), ("harvester", "ivcurve", 1), ("harvester", "isc_voc", 0), ("emulator", "ivsample", 0))]}
    for k in range(200 if q else 3000):
        n = rng.choice([0, 1, 2, 9999, 10000, 10001, 20000, 20001, 30001, 40000, 45000, 60001, 80001])
        jumps = []
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            if n < 2:
                break
            b = rng.randint(0, max((n - 1) // 10000, 0))
            pos = min(max(b * 10000 + rng.choice([-1, 0, 1, 5000, 9999, 1]), 1), n - 1)
            s = rng.choice([1, -1])
            size = rng.choice([1000, 100_000, 3_900_000, 6_100_000, 10_000_000, 100_000_000, 200_000_000, 1_000_000_000])
            if s < 0:
                size = min(size, 200_000_000)
            jumps.append([pos, s * size])
            if rng.random() < 0.15 and pos + 5 < n:
                jumps.append([pos + rng.choice([1, 4]), -s * size])
        # stay away from the resolution limit
        devs = {}
        for pos, size in jumps:
            devs[(pos - 1) // 10000] = devs.get((pos - 1) // 10000, 0) + size
        if any(4_000_000 < abs(x) < 6_000_000 for x in devs.values()):
            continue
        yield {"kind": "steps", "n": n, "jumps": jumps, "gain": rng.choice([1, 1, 1000]), "off": rng.choice([0.0, 0.0, 5.0, -1.5]),
               "me": rng.choice([[0], [10000, 20000, 0], [20000, 0, 30000], [40000, 10000]])}
    for _ in range(60 if q else 600):
        groups = {g: rng.choice(["none", [], [rng.choice([0, 10, 20, 30, 39, 40, 41, 50]) for _ in range(rng.choice([3, 30, 30, 400, 5000]))]])
                  for g in ("sheep", "kernel", "shepherd-log") if rng.random() < 0.8}
        ask = [[rng.choice(["sheep", "kernel", "shepherd-log", "nix"]), rng.choice([-1, 0, 10, 39, 40, 41, 50, 99])] for _ in range(6)]
        yield {"kind": "errors", "groups": groups, "ask": ask}
    for _ in range(150 if q else 2500):
        n = rng.randint(0, 6)
        st = rng.choice([["good"], ["good", "unreadable", "alien"], ["good", "good", "good", "invalid", "jump", "broken", "unreadable", "alien"]])
        files = [[rng.choice(["top", "top", "sub"]), rng.choice(st), rng.randint(0, 41)] for _ in range(n)]
        if rng.random() < 0.5 and n:
            files[rng.randrange(n)][1] = rng.choice(["invalid", "jump"])
        yield {"kind": "validate", "files": files, "recurse": rng.random() < 0.5, "seedvar": rng.randint(0, 1),
               "single": rng.randrange(n) if n and rng.random() < 0.2 else -1}

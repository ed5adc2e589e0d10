"""C21: derived figures of a recording are independent of block processing."""
import hashlib
from pathlib import Path

from checks.c15 import big
from drivers import h5build

TRACE = "FiguresTrace"
BATCH = 60
ASSUMPTIONS = ["calibrations in whole uV / nA without negative values", "equidistant samples (time-jumps aside)"]
NOSTAT = {"has": False, "min": -1, "max": -1, "mean16": -1, "std": -1}


def models(tier):
    return [{"module": "FiguresMC", "cfg": "FiguresMC.cfg"}] + ([{"module": "FiguresMC", "cfg": "FiguresMC_deep.cfg"}] if tier == "thorough" else [])


def generators(tier):
    def conv(g):
        s = int(hashlib.sha256(repr(sorted(g.items())).encode()).hexdigest()[:8], 16) % 10**6
        return [{"kind": "fig", **g, "seed": s + j} for j in range(1 if tier == "quick" else 5)]

    return [{"module": "FiguresMC", "cfg": "FiguresGen.cfg", "cap": 10**6, "to_scenario": conv}]


def warmup():
    import shepherd_core  # noqa: F401


def execute(scn, work):
    import random

    import h5py
    import numpy as np
    from shepherd_core import Reader
    from vf.util import I as J

    def I(x):  # noqa: E743,N802
        return J(round(float(x)) if x == x and abs(x) < 1e300 else x)

    work = Path(work)
    rng = random.Random(scn["seed"])
    n, blk = scn["n"], scn["blk"]
    jumps = scn["kind"] == "jumps"
    spb = scn.get("spb") or Reader.samples_per_buffer
    dt = scn["dt"] if "dt" in scn else rng.choice([10_000, 10_000, 10_000, 5_000, 20_000, 33_333, 1_000_000, 4_000, 100_000_000, 1_999_999_999])
    t0 = rng.choice([0, 5, 10**9, 1_700_000_000 * 10**9])
    gv, ov, gi, oi = rng.choice([1, 3, 10]), rng.choice([0, 0, 700]), rng.choice([1, 5]), rng.choice([0, 0, 300])
    lv, li = rng.choice([3, 1000, 1_600_000]), rng.choice([0, 1, 1000, 9_000_000])
    style = rng.choice(["random", "random", "outlier", "const", "ramp", "sorted", "halves"])
    if scn.get("dtype") == "ivcurve":
        style = rng.choice(["ramp", "saw", "down"])
    a, b = rng.randrange(lv + 1), rng.randrange(li + 1)
    w = rng.choice([4, 8, 31])
    vs, cs = [], []
    for k in range(n):
        if style == "random":
            a, b = rng.randrange(lv + 1), rng.randrange(li + 1)
        elif style in ("ramp", "saw", "down"):
            st = 1 + lv // 50
            a = {"ramp": k % w, "saw": min(k % w, w - k % w), "down": w - 1 - k % w}[style] * st
            b = rng.randrange(li + 1)
        vs.append(a if style != "halves" or k < n // 2 else a // 2)
        cs.append(b)
    if style == "outlier" and n:
        vs[rng.randrange(n)] = rng.choice([0, 2 * lv])
        cs[rng.randrange(n)] = rng.choice([0, 2 * li])
    if style == "sorted":
        vs = sorted(rng.randrange(lv + 1) for _ in vs)
    step, cfg = -1, None
    if scn.get("cfg") and rng.random() < 0.8:
        step = rng.choice([1000, 20_000, 333_000, 250, 12_500])
        cfg = f"name: x\nvirtual_harvester:\n  name: y\n  voltage_step_mV: {step / 1000}\n"
    elif scn.get("cfg"):
        cfg = rng.choice(["virtual_harvester:\n  name: y\n", "name: x\n"])
    ts, t, js = [], t0, []
    for k in range(n):
        if k and jumps and k in scn["at"]:
            t += dt * rng.choice([1, 3, 100]) * (1000 if spb >= 1000 else 1)  # resolution is 1 us per sample of a block
            js.append(k)
        ts.append(t)
        t += dt
    path = work / "in.h5"
    h5build.build(path, ts, vs, cs, mode="harvester", dtype=scn.get("dtype", "ivsample"), window=w if scn.get("dtype") == "ivcurve" else 0, config=cfg, host="sheep",
                  cal={"voltage": (gv * 1e-6, ov * 1e-6), "current": (gi * 1e-9, oi * 1e-9)})
    gpio = [rng.randrange(65536) for _ in range(rng.choice([0, 1, 5, 20]))]
    if jumps:
        gpio = []
    if gpio:
        with h5py.File(path, "a") as f:
            g = f.create_group("gpio")
            g.create_dataset("time", data=np.arange(len(gpio), dtype="u8"))
            d = g.create_dataset("value", data=np.array(gpio, dtype="u2"))
            d.attrs["description"] = "0:\n  name: a\n"
    size = path.stat().st_size
    init = {"cfg": {"n": n, "vs": [] if jumps else vs, "cs": [] if jumps else cs, "gv": gv, "ov": ov, "gi": gi, "oi": oi, "gpio": gpio, "dt": dt, "step": step, "jumps": js, "size": size}}
    ev = []
    default = Reader.samples_per_buffer

    def e_big(x):
        return big(round(x * 1e15 / (dt_eff * 1e-9)))

    dt_eff = dt if n > 1 else 10_000
    try:
        if jumps and spb != default:
            Reader.samples_per_buffer = spb
        r = Reader(path, verbose=False)
        if jumps:
            if spb != default and n >= spb and [len(x[0]) for x in r.read_buffers(is_raw=True)][:1] != [spb]:
                return {"init": {}, "ev": []}
            r.max_elements = blk * spb
            try:
                ev.append({"op": "jumps", "spb": spb, "obs": {"ok": True, "equal": bool(r.check_timediffs())}})
            except Exception as x:  # noqa: BLE001
                ev.append({"op": "jumps", "spb": spb, "obs": {"ok": False, "err": repr(x)[:200], "equal": False}})
            return {"init": init, "ev": ev}
        ev.append({"op": "open", "spb": spb, "obs": {"ok": True, "rate": I(r.samplerate_sps), "interval": I(r.sample_interval_ns) if abs(r.sample_interval_s * 1e9 - r.sample_interval_ns) < 0.6 else -1,
                                                     "runtime": I(1000 * r.runtime_s), "blocks": I(r.buffers_n), "size": I(r.file_size)}})
        order = ["energy", "stats", "step", "energy"] if rng.random() < 0.5 else ["step", "stats", "energy"]
        for op in order:
            bl = blk if rng.random() < 0.8 else rng.choice([1, 2, n + 1, r.max_elements])
            r.max_elements = bl
            try:
                if op == "energy":
                    x = r.energy()
                    ev.append({"op": "energy", "blk": bl, "obs": {"ok": True, "e": e_big(x)}})
                elif op == "step":
                    s = r.get_voltage_step()
                    h = r.get_hrv_config()["voltage_step_V"]
                    ev.append({"op": "step", "obs": {"ok": True, "step": -1 if s is None else I(1e6 * s), "hrv": -1 if h is None else I(1e6 * h)}})
                else:
                    md = r.get_metadata()

                    def st(d, sc):
                        q = d["_dataset_info"].get("statistics") or {}
                        if not q:
                            return NOSTAT
                        return {"has": True, "min": I(sc * q["min"]), "max": I(sc * q["max"]), "mean16": I(16 * sc * q["mean"]), "std": I(sc * q["std"])}

                    gi_ = md["data"]["_group_info"]
                    ev.append({"op": "stats", "blk": bl, "obs": {"ok": True, "e": e_big(gi_["energy_Ws"]), "runtime": I(1000 * gi_["runtime_s"]), "rate": I(r.samplerate_sps),
                               "voltage": st(md["data"]["voltage"], 1e6), "current": st(md["data"]["current"], 1e9), "gpio": st(md["gpio"]["value"], 1) if gpio else NOSTAT}})
            except Exception as x:  # noqa: BLE001
                ev.append({"op": op, "obs": {"ok": False, "err": repr(x)[:200], "e": big(0), "step": -1, "hrv": -1}})
    finally:
        Reader.samples_per_buffer = default
    return {"init": init, "ev": ev}


def scenarios(rng, tier):
    q = tier == "quick"
    out = []
    for _ in range(350 if q else 4000):
        n = rng.choice([0, 1, 2, 7, 50, rng.randrange(1, 300)])
        out.append({"kind": "fig", "n": n, "blk": rng.choice([1, 2, 7, max(1, n - 1), n + 1, 64, 33]), "dtype": rng.choice(["ivsample", "ivcurve"]), "cfg": rng.random() < 0.3, "seed": rng.randrange(10**9)})
    for _ in range(3 if q else 20):
        out.append({"kind": "fig", "n": rng.choice([2001, 2300]), "blk": rng.choice([100, 1999, 1000]), "dtype": rng.choice(["ivsample", "ivcurve"]), "cfg": False, "seed": rng.randrange(10**9)})
    for _ in range(120 if q else 1500):
        spb = rng.choice([5, 10, 20])
        n = rng.choice([0, 1, spb, spb + 1, rng.randrange(1, 12 * spb)])
        at = [rng.choice([rng.randrange(1, n), max(1, rng.randrange(1, n) // spb * spb + rng.choice([0, 1]))]) for _ in range(rng.choice([0, 0, 1, 1, 2]))] if n > 1 else []
        out.append({"kind": "jumps", "n": n, "spb": spb, "dt": 100_000_000 // spb, "blk": rng.choice([1, 1, 2, 3, 50]), "at": at, "seed": rng.randrange(10**9)})
    for _ in range(1 if q else 4):
        out.append({"kind": "jumps", "n": 30_001, "spb": 10_000, "dt": 10_000, "blk": 1, "at": rng.choice([[], [20_000], [10_001]]), "seed": rng.randrange(10**9)})
    return out

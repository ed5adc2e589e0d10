"""C23: conversion of recorded solar panels."""
import hashlib
import math
import os

from drivers.h5build import prog
from vf.util import I, SENT

TRACE = "PanelTrace"
ASSUMPTIONS = [
    "source sample rates divide 100 kHz and the duration of a curve divides the source interval",
    "the diode equation is evaluated by the harness (table of currents on the voltage grid, 10 nA resolution); selection, timing and extent are judged by the specification",
    "between two source samples only the time column is judged (interpolation)",
]
SCENARIO_LIMIT_S = 200
CORRUPT_N = 20
STEP = {11: 500_000, 51: 100_000, 101: 50_000, 201: 25_000, 50: 100_000, 100: 50_000, 200: 25_000, 500: 10_000, 1000: 5_000}


def models(tier):
    return [{"module": "PanelMC", "cfg": "PanelMC.cfg" if tier == "quick" else "PanelMC_deep.cfg"}]


def coeffs(rng, n, kind=None):
    kind = kind or rng.choice(["random", "random", "const", "dark", "bright", "weak"])
    out = []
    for k in range(n):
        if kind != "const" or k == 0:
            a = rng.choice([rng.uniform(1e-5, 3e-2), rng.uniform(1e-4, 2e-3)])
            b = 10 ** rng.uniform(-9, -6)
            c = rng.uniform(2.5, 8)
        if kind == "bright":
            a, c = rng.uniform(1e-3, 4e-2), rng.uniform(0.9, 1.8)
        if kind == "weak" or (kind == "dark" and rng.random() < 0.4):
            a = 0.0 if kind == "dark" else rng.uniform(1e-7, 1e-5)
        out.append([a, b, c])
    return out


def generators(tier):
    import random

    def conv(g):
        s = int(hashlib.sha256(repr(sorted(g.items())).encode()).hexdigest()[:8], 16)
        rng = random.Random(s)
        return [{"kind": "convert", "src": coeffs(rng, g["n"]), "sps": g["sps"], "t0": 0, "pts": 101 if g["what"] != "ivcurve" else 200, "L": g["L"],
                 "ops": [{"what": g["what"], "d": g["d"], "tracker": "opt", "ratio": 80, "file": "o.h5"}]}]

    return [{"module": "PanelMC", "cfg": "PanelGen.cfg", "cap": 120 if tier == "quick" else 1620, "to_scenario": conv}]


def warmup():
    import scipy.interpolate  # noqa: F401
    import shepherd_data.ivonne  # noqa: F401


def table(src, pts, step):
    vmax = step * (pts - 1)
    out = []
    for a, b, c in src:
        cur = [max(0.0, a - b * (math.exp(c * vmax / 1e6 * g / (pts - 1)) - 1)) for g in range(pts)]
        out.append({"voc": I(round(math.log(a / b + 1) / c * 1e6)), "isc": I(round(a * 1e8)), "cur": [I(round(x * 1e8)) for x in cur]})
    return out


def frame(scn):
    import pandas as pd
    n = len(scn["src"])
    return pd.DataFrame({"a": [x[0] for x in scn["src"]], "b": [x[1] for x in scn["src"]], "c": [x[2] for x in scn["src"]],
                         "time": [scn["t0"] / 1000 + k / scn["sps"] for k in range(n)]})


def sha(p):
    with open(p, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def listing(d):
    return {os.path.join(r, f): sha(os.path.join(r, f)) for r, _, fs in os.walk(d) for f in fs}


def tracker_of(o, pts, step):
    vmax = step * (pts - 1) / 1e6
    from shepherd_data import mppt
    if o["tracker"] == "opt":
        return mppt.OptimalTracker(vmax, pts)
    return mppt.OpenCircuitTracker(vmax, pts, ratio=o["ratio"] / 100)


def execute(scn, work):
    import pickle
    from pathlib import Path

    import numpy as np
    from shepherd_core import Reader as CoreReader
    from shepherd_data import ivonne

    root = Path(work) / "d"
    root.mkdir()
    n, pts = len(scn["src"]), scn["pts"]
    step = scn.get("step", STEP[pts])
    vmax = step * (pts - 1) / 1e6
    init = {"src": table(scn["src"], pts, step), "step": step}
    ev = []
    if scn["kind"] == "track":
        for o in scn["ops"]:
            df = frame(scn)
            if o["voc"] and o["tracker"] == "oc":
                df["voc"] = ivonne.get_voc(df)
            res = tracker_of(o, pts, step).process(df)
            at = [{"v": I(round(float(v) * 1e6)), "i": I(round(float(i) * 1e8))} for v, i in zip(res["v"], res["i"])]
            ev.append({"op": "track", "tracker": o["tracker"], "ratio": o["ratio"], "voc": o["voc"], "obs": {"at": at}})
        return {"ev": ev, "init": init}
    up = 100_000 // scn["sps"]
    orig = ivonne.Writer

    class Writer(orig):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            self.max_elements = scn["L"] * up

    with (root / "src.iv").open("wb") as f:
        pickle.dump(frame(scn), f)
    ivonne.Writer = Writer
    try:
        for o in scn["ops"]:
            p = root / o["file"]
            before = listing(root)
            with ivonne.Reader(root / "src.iv", scn["sps"], verbose=False) as rd:
                dur = None if o["d"] == -1 else o["d"] / scn["sps"]
                if o["what"] == "isc_voc":
                    rd.upsample_2_isc_voc(p, vmax, dur)
                elif o["what"] == "ivcurve":
                    rd.convert_2_ivcurves(p, vmax, pts, dur)
                elif o.get("default"):
                    rd.convert_2_ivsamples(p, vmax, dur)
                else:
                    rd.convert_2_ivsamples(p, vmax, dur, tracker_of(o, pts, step))
            after = listing(root)
            obs = {"created": set(after) - set(before) == {str(p)}, "changed": any(after.get(x) != h for x, h in before.items()),
                   "rows": 0, "t": [0, 0, 0], "dtype": "", "mode": "", "win": 0, "host": "", "at": [], "curves": [], "ramps": True}
            if obs["created"]:
                with CoreReader(p, verbose=False) as r:
                    t, v, c = (r.ds_time[:].astype("i8"), r._cal.voltage.raw_to_si(r.ds_voltage[:]), r._cal.current.raw_to_si(r.ds_current[:]))
                    obs.update(rows=len(t) if len(t) == len(v) == len(c) else SENT, dtype=r.get_datatype().name, mode=r.get_mode(),
                               win=I(r.get_window_samples()), host=str(r.get_hostname()))
                tp = prog((t - t % 10) // 1000 if not np.any(t % 1000) else t)
                obs["t"] = tp
                if o["what"] != "ivcurve":
                    obs["at"] = [{"k": k, "v": I(round(float(v[k * up]) * 1e6)), "i": I(round(float(c[k * up]) * 1e8))}
                                 for k in range(n) if k * up < len(t)]
                else:
                    vv = v[: len(v) // pts * pts].reshape(-1, pts)
                    obs["ramps"] = bool(np.all(vv == vv[:1]))
                    ks = [k for k in range(n) if k * up < len(t)]
                    for k in sorted({*ks[:2], *ks[-2:], *ks[len(ks) // 2: len(ks) // 2 + 1]}):
                        x, y = v[k * up: k * up + pts], c[k * up: k * up + pts]
                        obs["curves"].append({"k": k, "v": prog(np.round(x * 1e6).astype("i8")), "i": [I(round(float(z) * 1e8)) for z in y]})
            ev.append({"op": "convert", "file": o["file"], "what": o["what"], "d": o["d"], "sps": scn["sps"], "t0": scn["t0"] * 1000, "vmax": step * (pts - 1),
                       "tracker": o["tracker"], "ratio": o["ratio"], "obs": obs})
    finally:
        ivonne.Writer = orig
    return {"ev": ev, "init": init}


def scenarios(rng, tier):
    quick = tier == "quick"
    for _ in range(110 if quick else 1500):
        sps = rng.choice([10, 20, 20, 50, 100, 1000])
        n = {10: rng.randint(1, 8), 20: rng.randint(1, 12), 50: rng.randint(1, 24), 100: rng.randint(1, 40), 1000: rng.choice([101, 137, 230])}[sps]
        ops = []
        for _ in range(rng.randint(1, 3)):
            what = rng.choice(["isc_voc", "ivsample", "ivsample", "ivcurve"])
            ops.append({"what": what, "d": rng.choice([-1, -1, -1, rng.randint(0, n + 2), n, n - 1, rng.randint(0, n + 2)]), "tracker": rng.choice(["opt", "oc"]),
                        "ratio": rng.choice([80, 76, 50, 100]), "file": rng.choice(["o.h5", "p.h5", "q.h5", "r.h5"])})
        pts = rng.choice([51, 101])
        if any(o["what"] == "ivcurve" for o in ops):
            pts = rng.choice([50, 100]) if sps == 1000 else rng.choice([100, 200, 500]) if sps < 100 else rng.choice([50, 200])
        yield {"kind": "convert", "src": coeffs(rng, n), "sps": sps, "t0": rng.choice([0, 0, 1000, 123_450]), "pts": pts,
               "L": rng.choice([1, 2, 3, 4, 5, 7, 2000, 2000]), "ops": ops}
    for d, sps in [(115, 50), (29, 100)] * (1 if quick else 6):  # durations without an exact representation
        for what in ("isc_voc", "ivsample", "ivcurve"):
            yield {"kind": "convert", "src": coeffs(rng, d + rng.randint(1, 4)), "sps": sps, "t0": 0, "pts": 100, "L": rng.choice([8, 2000]),
                   "ops": [{"what": what, "d": d, "tracker": rng.choice(["opt", "oc"]), "ratio": 80, "file": "o.h5"}]}
    for _ in range(16 if quick else 300):  # tracker is optional (optimal one with 1000 points, up to the given maximum)
        n = rng.randint(1, 6)
        # products of position and current have to stay below 2^31
        yield {"kind": "convert", "src": [[min(a, 2e-2), b, c] for a, b, c in coeffs(rng, n)], "sps": rng.choice([10, 20, 50]), "t0": 0, "pts": 1000, "step": rng.choice([5_000, 2_000, 3_000]),
               "L": rng.choice([1, 2, 2000]), "ops": [{"what": "ivsample", "d": -1, "tracker": "opt", "ratio": 80, "file": "o.h5", "default": True}]}
    for _ in range(100 if quick else 2000):
        yield {"kind": "track", "src": coeffs(rng, rng.randint(1, 12)), "sps": 50, "t0": 0, "pts": rng.choice([51, 101, 201, 11]),
               "ops": [{"tracker": rng.choice(["opt", "oc", "oc"]), "ratio": rng.choice([80, 76, 50, 100, 5]), "voc": rng.random() < 0.5} for _ in range(3)]}

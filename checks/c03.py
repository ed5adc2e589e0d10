"""C03: block-wise reading partitions the recording."""
import hashlib
from pathlib import Path

import numpy as np

from drivers.h5build import build, prog
from vf.util import I

TRACE = "ReadoutTrace"
ASSUMPTIONS = ["SI values are compared exactly on dyadic calibrations (gain, offset multiples of 1/1024)",
               "a recording is not extended while it is being iterated"]


def models(tier):
    return [{"module": "ReadoutMC", "cfg": "ReadoutMC.cfg" if tier == "quick" else "ReadoutMC_deep.cfg"}]


def warmup():
    global Reader
    from shepherd_core import Reader


SC = 1024


def execute(scn, work):
    path = Path(work) / "r.h5"
    r, cal, base = scn["r"], scn["cal"], scn["base"]
    idx = np.arange(r["n"], dtype=np.int64)
    build(path, idx * r["dt"] + r["tb"] + base, idx + r["vb"], idx * 3 + r["cb"],
          cal={"voltage": (cal["gv"] / SC, cal["ov"] / SC), "current": (cal["gc"] / SC, cal["oc"] / SC),
               "time": (cal["gt"] / SC, cal["ot"] / SC)})
    sha = hashlib.sha1(path.read_bytes()).hexdigest()
    ev = []
    gens = {}
    flags = {}
    readers = [Reader(path, verbose=None)]
    if scn["two"]:
        readers.append(Reader(path, verbose=None))
    for o in scn["ops"]:
        o = dict(o)
        if o["op"] == "start":
            rd = readers[o["k"] % len(readers)]
            kw = {}
            if o["end"] != -999:
                kw["end_n"] = o["end"]
            if o["bs"] >= 0:
                kw["n_samples_per_buffer"] = o["bs"]
            gens[o["k"]] = iter(rd.read_buffers(o["start"], is_raw=o["raw"], omit_ts=o["omit"], **kw))
            flags[o["k"]] = o["raw"]
            o["obs"] = {"res": "ok"}
        elif o["op"] == "pull":
            if o["k"] not in gens:
                continue
            try:
                t, v, c = next(gens[o["k"]])
                sc = SC if not flags[o["k"]] else 1
                b = base if flags[o["k"]] else base * cal["gt"]
                o["obs"] = {"kind": "block", "v": prog(v, sc), "c": prog(c, sc), "t": prog(t, sc, b)}
            except StopIteration:
                o["obs"] = {"kind": "stop"}
        ev.append(o)
    p = readers[0].get_calibration_data()
    obs_cal = {"gv": I(p.voltage.gain * SC), "ov": I(p.voltage.offset * SC), "gc": I(p.current.gain * SC),
               "oc": I(p.current.offset * SC), "gt": I(p.time.gain * SC), "ot": I(p.time.offset * SC)}
    bufs = I(readers[0].buffers_n)
    for rd in readers:
        rd.__exit__()
    ev.append({"op": "info", "obs": {"changed": hashlib.sha1(path.read_bytes()).hexdigest() != sha, "cal": obs_cal,
                                     "buffers": bufs}})
    return {"ev": ev, "init": {"r": r, "cal": cal}}


def scenarios(rng, tier):
    for k in range(400 if tier == "quick" else 8000):
        big = k % 10 == 0
        n = rng.choice([0, 9999, 10000, 10001, 20000, 25000, 30001]) if big else rng.randint(0, 70)
        raw_only = rng.random() < 0.4
        lim = 2**31 // 64
        r = {"n": n, "vb": rng.choice([0, 1, rng.randint(0, 10**6)]), "cb": rng.choice([0, 5, rng.randint(0, 10**6)]),
             "tb": rng.randint(0, 1000), "dt": rng.choice([1, 10, 40])}
        if raw_only:
            r["vb"] = rng.choice([r["vb"], 2_000_000_000])
            r["dt"] = rng.choice([10000, 1])
        base = 1_700_000_000 * 10**9 if raw_only and rng.random() < 0.6 else 0
        cal = {"gv": rng.choice([1, 3, 512, 1024]), "ov": rng.choice([0, -7, 999]), "gc": rng.choice([1, 5, 1000]),
               "oc": rng.choice([0, 11, -2000]), "gt": rng.choice([1, 2, 7]), "ot": rng.choice([0, 0, 100])}
        assert lim
        ops = []
        its = [1, 2, 3][: rng.randint(1, 3)]
        for i in its:
            if big:
                bs = rng.choice([-1, -1, 10000, 5000, 3333, 20_000, 15_000, 10_001, max(n, 1), n + 1, n // 2 + 1])
            else:
                bs = rng.choice([1, 2, 3, 7, rng.randint(1, 75), max(n, 1), n + 1, -1])
            nb = n // (bs if bs > 0 else 10000)
            if nb > 12:
                start = rng.randint(max(0, nb - 8), nb)
            else:
                start = rng.choice([0, 0, 0, 1, nb, rng.randint(0, nb + 1)])
            end = rng.choice([-999, -999, nb, nb + 1, max(nb - 1, 0), rng.randint(0, nb + 1), start, 0])
            if end != -999 and nb <= 12 and rng.random() < 0.1:
                end = -1
            ops.append((i, {"op": "start", "k": i, "start": start, "end": end, "bs": bs,
                            "raw": raw_only or rng.random() < 0.4, "omit": rng.random() < 0.3}))
        seq = []
        pend = [o for _, o in ops]
        while pend or seq.count(None) < 0:
            seq.append(pend.pop(0))
            for _ in range(rng.randint(0, 4)):
                seq.append({"op": "pull", "k": rng.choice(its)})
        for _ in range(16):
            for i in its:
                seq.append({"op": "pull", "k": i})
        # drop pulls before start / far beyond the end
        out, started, count = [], set(), {}
        for o in seq:
            if o["op"] == "start":
                started.add(o["k"])
            elif o["k"] not in started:
                continue
            out.append(o)
        yield {"kind": "big" if big else "small", "r": r, "cal": cal, "base": base, "two": rng.random() < 0.3, "ops": out}

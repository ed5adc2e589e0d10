"""C22: plots show the requested range and never overwrite."""
import hashlib
import os
import re

from drivers import h5build
from drivers.h5build import prog
from vf.util import I, SENT

TRACE = "PlotTrace"
ASSUMPTIONS = [
    "times are multiples of 1 ms, sample intervals multiples of 10 us",
    "values of reduced varying signals are not judged (filter); constant ones after the filter settled (60 rows)",
    "the rate is derived with a resolution of 1/1000 samples per second, so at exact multiples the factor may be one lower",
]
SCENARIO_LIMIT_S = 120
CORRUPT_N = 20
AT = {"gv": 1000, "gc": 1}  # uV, uA per raw unit


def models(tier):
    return [{"module": "PlotMC", "cfg": "PlotMC.cfg"}] + ([{"module": "PlotMC", "cfg": "PlotMC_deep.cfg"}] if tier == "thorough" else [])


def generators(tier):
    def conv(g):
        r = {"n": g["n"], "sps": g["sps"], "tb": 70, "dt": 10**6 // g["sps"], "vb": 5, "vs": 1, "cb": 9, "cs": 0}
        return [{"kind": "data", "recs": [{"r": r, "host": "h"}], "base": 0,
                 "ops": [{"op": "data", "rec": 1, "q": {"s": g["s"], "e": g["e"]}, "me": g["me"], "rel": g["rel"]}]}]

    return [{"module": "PlotMC", "cfg": "PlotGen.cfg", "cap": 400 if tier == "quick" else 6000, "to_scenario": conv}]


def warmup():
    import matplotlib.pyplot  # noqa: F401
    import scipy.signal  # noqa: F401
    from shepherd_data import Reader  # noqa: F401
    from shepherd_data.cli import cli  # noqa: F401


def sha(p):
    with open(p, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def listing(d):
    return {os.path.join(r, f): sha(os.path.join(r, f)) for r, _, fs in os.walk(d) for f in fs}


def make(path, rec, base):
    import numpy as np

    r = rec["r"]
    i = np.arange(r["n"], dtype="i8")
    h5build.build(path, (i * r["dt"] + r["tb"]) * 1000 + base, r["vb"] + i * r["vs"], r["cb"] + i * r["cs"], host=rec["host"],
                  dtype=rec.get("dtype", "ivsample"), window=50 if rec.get("dtype") == "ivcurve" else 0,
                  cal={"voltage": (1e-3, 0.0), "current": (1e-6, 0.0), "time": (1e-9, 0.0)})


def ints(a, scale, tol=1e-3, base=0.0):
    """Integers of a float array or None."""
    import numpy as np

    x = (np.asarray(a, dtype="f8") - base) * scale
    y = np.round(x)
    if x.size and (not np.all(np.isfinite(x)) or np.max(np.abs(x - y)) > tol * np.maximum(1, np.max(np.abs(x)) * 1e-6)):
        return None
    return y.astype("i8")


def prog_of(a, scale, tol=1e-3, base=0.0):
    import numpy as np
    y = ints(a, scale, tol, base)
    if y is None:
        return [SENT, SENT, int(np.size(a))]
    p = prog(y)
    return p



def times(a, base):
    p = prog_of(a, 1e5, 0.06, base)
    return [p[0] * 10 if p[0] != SENT else SENT, p[1] * 10 if p[1] != SENT else SENT, p[2]]


def span(a, scale):
    import numpy as np
    x = np.asarray(a)[60:] * scale
    return {"n": int(np.size(a)), "lo": int(np.floor(x.min() + 1e-3)) if x.size else 0, "hi": int(np.ceil(x.max() - 1e-3)) if x.size else 0}


def sec(x):
    return None if x == -1 else x / 1000


def labels(fig):
    return [[str(ln.get_label()) for ln in ax.get_lines()] for ax in fig.axes]


def tap(lst):
    """Record which lines every stored figure has."""
    import matplotlib.figure as mf
    orig = mf.Figure.savefig

    def savefig(self, *a, **k):
        lst.append(labels(self))
        return orig(self, *a, **k)

    mf.Figure.savefig = savefig
    return lambda: setattr(mf.Figure, "savefig", orig)


def run_data(scn, work):
    import matplotlib.pyplot as plt
    from pathlib import Path
    from shepherd_data import Reader

    root = Path(work) / "d"
    root.mkdir()
    rds = []
    for k, rec in enumerate(scn["recs"]):
        make(root / f"r{k}.h5", rec, scn["base"])
        rds.append(Reader(root / f"r{k}.h5", verbose=False))
    before = listing(root)
    ev = []
    b = scn["base"] / 1e9
    for o in scn["ops"]:
        q = o["q"]
        if o["op"] == "data":
            rd = rds[o["rec"] - 1]
            rd.max_elements = o["me"]
            d = rd.generate_plot_data(sec(q["s"]), sec(q["e"]), relative_timestamp=o["rel"])
            obs = {"none": d is None, "t": [], "v": [], "c": [], "nv": 0, "nc": 0, "vr": span([], 1), "cr": span([], 1), "s": 0, "e": 0,
                   "name": "", "changed": False}
            if d is not None:
                obs.update(t=times(d["time"], 0.0 if o["rel"] else b), v=prog_of(d["voltage"], 1e3), c=prog_of(d["current"], 1e6),
                           nv=len(d["voltage"]), nc=len(d["current"]), vr=span(d["voltage"], 1e3), cr=span(d["current"], 1e6),
                           s=I(round(d["start_s"] * 1000)), e=I(round(d["end_s"] * 1000)), name=str(d["name"]))
            obs["changed"] = listing(root) != before
            ev.append({**o, "obs": obs})
        else:
            data = []
            for k in o["recs"]:
                rds[k - 1].max_elements = 4_000_000
                d = rds[k - 1].generate_plot_data(sec(q["s"]), sec(q["e"]))
                if d is not None:
                    data.append(d)
            if not data:
                continue
            fig = Reader.assemble_plot(data[0] if len(data) == 1 and o["single"] else data, 4, 4, only_pwr=o["pwr"])
            sc = [1e6] if o["pwr"] else [1e3, 1e3, 1e6]
            axes = []
            for a, ax in enumerate(fig.axes):
                lines = []
                for ln in ax.get_lines():
                    y = ints(ln.get_ydata(), sc[a] if a < len(sc) else 1, 0.01)
                    lines.append({"name": str(ln.get_label()), "t": times(ln.get_xdata(), 0.0), "y": [SENT] if y is None else [I(x) for x in y]})
                axes.append(lines)
            plt.close(fig)
            ev.append({"op": "figure", "recs": o["recs"], "q": q, "pwr": o["pwr"], "obs": {"axes": axes}})
    for rd in rds:
        rd.__exit__()
    return {"ev": ev, "init": {"recs": scn["recs"]}}


def run_store(scn, work):
    from pathlib import Path
    from shepherd_data import Reader

    root = Path(work) / "d"
    root.mkdir()
    p = root / scn["name"]
    make(p, scn["recs"][0], scn["base"])
    ev = []
    for o in scn["ops"]:
        before = listing(root)
        drawn = []
        off = tap(drawn)
        try:
            with Reader(p, verbose=False) as rd:
                rd.plot_to_file(sec(o["q"]["s"]), sec(o["q"]["e"]), 4, 4, only_pwr=o["pwr"])
        finally:
            off()
        after = listing(root)
        ev.append({"op": "store", "q": o["q"], "pwr": o["pwr"],
                   "obs": {"changed": any(after.get(x) != h for x, h in before.items()), "created": len(set(after) - set(before)), "lines": drawn}})
    return {"ev": ev, "init": {"recs": scn["recs"]}}


def run_batch(scn, work):
    from click.testing import CliRunner
    from pathlib import Path
    from shepherd_data.cli import cli

    top = Path(work) / "top"
    root = top / "root"
    (root / "sub").mkdir(parents=True)
    paths, recs = [], []
    for i, fd in enumerate(scn["files"]):
        p = (root / "sub" if fd["sub"] else root) / f"f{i}.h5"
        if fd["usable"]:
            make(p, fd, scn["base"])
        else:
            p.write_text("no recording")
        paths.append(p)
        recs.append({"r": fd["r"], "host": fd["host"], "usable": fd["usable"], "addressed": scn["recurse"] or not fd["sub"]})
    ev = []
    for o in scn["ops"]:
        before = listing(top)
        args = ["plot", str(root), "-w", "4", "-h", "4"]
        args += ["--recurse"] if scn["recurse"] else []
        args += ["--multiplot"] if o["multi"] else []
        args += ["--only-power"] if o["pwr"] else []
        args += ["--start", str(o["q"]["s"] / 1000)] if o["q"]["s"] != -1 else []
        args += ["--end", str(o["q"]["e"] / 1000)] if o["q"]["e"] != -1 else []
        drawn = []
        off = tap(drawn)
        try:
            res = CliRunner().invoke(cli, args)
        finally:
            off()
        if res.exception is not None and not isinstance(res.exception, SystemExit):
            raise res.exception
        after = listing(top)
        new = set(after) - set(before)
        out = []
        for p in paths:
            mine = {x for x in new if os.path.dirname(x) == str(p.parent) and os.path.basename(x).startswith(p.stem + ".")}
            out.append(len(mine))
            new -= mine
        jkey = [[int(g[0]) * 1000 + int(g[1]), int(g[2]) * 1000 + int(g[3])] for x in new for g in re.findall(r"(\d+)s(\d+)_to_(\d+)s(\d+)", os.path.basename(x))]
        ev.append({"op": "batch", "q": o["q"], "pwr": o["pwr"], "multi": o["multi"],
                   "obs": {"changed": any(after.get(x) != h for x, h in before.items()), "exit": int(res.exit_code), "out": out,
                           "joint": len(new), "jkey": jkey[0] if jkey else [-1, -1], "lines": drawn}})
    return {"ev": ev, "init": {"recs": recs}}


def execute(scn, work):
    return {"data": run_data, "store": run_store, "batch": run_batch}[scn["kind"]](scn, work)


def rec(rng, k=0, small=False):
    sps = rng.choice([100, 1000, 1000, 10_000, 100_000, 2000])
    n = rng.choice([0, 4, 5, 6, 50, 960, 1000, 1040, rng.randint(1, 3000), rng.randint(1, 3000), rng.randint(1000, 9000)])
    if small:
        sps, n = rng.choice([100, 1000]), rng.choice([3, 5, 6, 17, 40, 60])
        if sps == 1000:
            n = max(n, 55)
    elif sps == 100_000:
        n = rng.choice([10_000, 30_000, rng.randint(5_000, 60_000)])
    while ((n * 1000) // sps) % 100 in (49, 50):
        n += sps // 100 + 1
    vs, cs = rng.choice([(0, 0), (0, 0), (1, 0), (0, 2), (1, 3)])
    return {"r": {"n": n, "sps": sps, "tb": rng.choice([0, 1000, 123_450]), "dt": 10**6 // sps, "vb": rng.choice([0, 1000, rng.randint(0, 10**4)]),
                  "vs": vs, "cb": rng.choice([0, 77, rng.randint(0, 10**4)]), "cs": cs},
            "host": rng.choice(["sheep", "lamb", "ewe"]) + str(k)}


def request(rng, r):
    rt = ((r["n"] * 1000 // r["sps"] + 50) // 100) * 100
    odd = [t for t in range(1, min(rt, 3000) + 1) if int(t / 1000 * r["sps"]) != t * r["sps"] // 1000] or [rt // 5]
    if r["sps"] < 1000:  # limits fall on samples
        odd = [t // 10 * 10 for t in odd]
    pick = lambda: rng.choice([rng.choice(odd), 0, rt // 4, rt // 3, rt // 2, rt - 10, rt, rt + 300, rng.randint(0, rt + 50)])  # noqa: E731
    s = rng.choice([-1, -1, 0, pick(), pick(), -500])
    e = rng.choice([-1, -1, pick(), pick(), rt])
    if r["sps"] < 1000:
        s, e = (x if x < 0 else x // 10 * 10 for x in (s, e))
    return {"s": s, "e": e}


def scenarios(rng, tier):
    quick = tier == "quick"
    for _ in range(250 if quick else 4000):
        recs = [rec(rng, k) for k in range(rng.randint(1, 2))]
        if rng.random() < 0.1:
            recs[0]["dtype"] = "ivcurve"
        ops = []
        for _ in range(rng.randint(2, 5)):
            k = rng.randint(1, len(recs))
            n = recs[k - 1]["r"]["n"]
            ops.append({"op": "data", "rec": k, "q": request(rng, recs[k - 1]["r"]),
                        "me": rng.choice([4_000_000, max(n, 5), rng.randint(5, max(n, 6)), rng.randint(5, 60), 100, 1000]), "rel": rng.random() < 0.6})
        yield {"kind": "data", "recs": recs, "ops": ops, "base": rng.choice([0, 1_700_000_000 * 10**9])}
    for _ in range(40 if quick else 500):
        recs = [rec(rng, k, small=True) for k in range(rng.randint(1, 3))]
        ops = []
        for _ in range(2):
            ks = [k for k in range(1, len(recs) + 1) if rng.random() < 0.8] or [1]
            ops.append({"op": "figure", "recs": ks, "q": rng.choice([{"s": -1, "e": -1}, {"s": 10, "e": -1}, {"s": 10, "e": 60}]),
                        "pwr": rng.random() < 0.4, "single": rng.random() < 0.5})
        yield {"kind": "data", "recs": recs, "ops": ops, "base": rng.choice([0, 1_700_000_000 * 10**9])}
    for _ in range(40 if quick else 500):
        r = rec(rng, 0)
        qs = [request(rng, r["r"]) for _ in range(3)]
        yield {"kind": "store", "recs": [r], "base": 0, "name": rng.choice(["a.h5", "b.plot_0s000_to_1s000.h5", "c"]),
               "ops": [{"q": rng.choice(qs), "pwr": rng.random() < 0.3} for _ in range(rng.randint(2, 4))]}
    for _ in range(40 if quick else 500):
        files = [{**rec(rng, k), "usable": rng.random() < 0.8, "sub": rng.random() < 0.3} for k in range(rng.randint(1, 4))]
        q = rng.choice([{"s": -1, "e": -1}, {"s": 100, "e": -1}, {"s": -1, "e": 300}, {"s": 200, "e": 500}])
        other = rng.choice([{"s": -1, "e": -1}, {"s": 100, "e": 300}])
        yield {"kind": "batch", "files": files, "base": 0, "recurse": rng.random() < 0.5,
               "ops": [{"q": rng.choice([q, q, other]), "pwr": rng.random() < 0.3, "multi": rng.random() < 0.5} for _ in range(rng.choice([1, 2, 3]))]}

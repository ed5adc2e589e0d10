"""C05: cutting and downsampling."""
import hashlib
import os

from drivers import h5build
from drivers.h5build import prog
from vf.util import I, SENT

TRACE = "CutTrace"
ASSUMPTIONS = [
    "times are multiples of 1 ms and rates multiples of 1 kHz, so that range limits fall on samples",
    "values of downsampled varying signals are only checked for independence of the block size (digest), not for filter quality",
    "constant signals are judged after the filter settled (60 result rows)",
]
SCENARIO_LIMIT_S = 120
CORRUPT_N = 20
MODES = [("harvester", "ivsample", 0), ("harvester", "isc_voc", 0), ("emulator", "ivsample", 0), ("harvester", "ivcurve", 50),
         ("emulator", "ivsample", 12)]


def models(tier):
    return [{"module": "CutMC", "cfg": "CutMC.cfg" if tier == "quick" else "CutMC_deep.cfg"}]


def warmup():
    import scipy.signal  # noqa: F401
    from shepherd_data import Reader  # noqa: F401
    from shepherd_data.cli import cli  # noqa: F401


def sha(p):
    with open(p, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def listing(d):
    return {os.path.join(r, f): sha(os.path.join(r, f)) for r, _, fs in os.walk(d) for f in fs}


def make(path, r, at):
    import numpy as np
    import yaml

    i = np.arange(r["n"], dtype="i8")
    t = (i * r["dt"] + r["tb"]) * 1000 + at["base"]
    h5build.build(path, t // at["tg"], r["vb"] + i * r["vs"], r["cb"] + i * r["cs"], mode=at["mode"], dtype=at["dtype"], window=at["win"],
                  cal={"voltage": (at["gv"] * 1e-9, at["ov"] * 1e-3), "current": (at["gc"] * 1e-12, at["oc"] * 1e-6),
                       "time": (1e-9 * at["tg"], 0.0)},
                  host=at["host"] or None, config=yaml.safe_dump({"k": at["cfg"]}) if at["cfg"] else None)


def attrs_of(rd):
    cal = rd.get_calibration_data()

    def q(x, s):
        y = round(x * s)
        return I(y) if abs(x * s - y) < 1e-6 else SENT

    d = rd.get_datatype()
    return {"mode": rd.get_mode(), "dtype": d.name if d else "none", "win": I(rd.get_window_samples()), "host": str(rd.get_hostname()),
            "cfg": I(rd.get_config().get("k", 0)), "gv": q(cal.voltage.gain, 1e9), "ov": q(cal.voltage.offset, 1e3),
            "gc": q(cal.current.gain, 1e12), "oc": q(cal.current.offset, 1e6), "tg": q(cal.time.gain, 1e9)}


def tprog(arr, at):
    import numpy as np
    a = np.asarray(arr)
    x = a.astype("u8").astype("i8") * at["tg"] - at["base"]
    if np.any(x % 1000):
        return [SENT, SENT, int(a.size)]
    return prog(x // 1000)


def content(p, at):
    import h5py
    from shepherd_core import Reader as CoreReader
    with CoreReader(p, verbose=False) as rd:
        a = attrs_of(rd)
    with h5py.File(p, "r") as f:
        t, v, c = (f["data"][k][:] for k in ("time", "voltage", "current"))
        fac = f.attrs.get("ds_factor", SENT)
    n = len(t) if len(t) == len(v) == len(c) else SENT
    sv, sc = v[60:], c[60:]
    return {"n": n, "t": tprog(t, at), "v": prog(v), "c": prog(c), "attrs": a, "factor": I(fac),
            "vr": {"n": len(v), "lo": int(min(sv)) if len(sv) else 0, "hi": I(max(sv)) if len(sv) else 0},
            "cr": {"n": len(c), "lo": int(min(sc)) if len(sc) else 0, "hi": I(max(sc)) if len(sc) else 0}}


def run_hist(scn, work):
    from pathlib import Path
    from shepherd_data import Reader

    r, at = scn["r"], scn["at"]
    src = Path(work) / "d" / scn["name"]
    src.parent.mkdir()
    make(src, r, at)
    paths = [str(src)]
    ev = []
    rd = Reader(src, verbose=False)
    ini = attrs_of(rd)
    try:
        for o in scn["ops"]:
            before = listing(src.parent)
            if o["op"] == "reopen":
                rd.__exit__()
                rd = Reader(src, verbose=False)
                continue
            rd.max_elements = o["me"]
            q = o["q"]
            s = None if q["s"] == -1 else q["s"] / 1000
            e = None if q["e"] == -1 else q["e"] / 1000
            fac = q["num"] / q["den"]
            if fac == int(fac) and o["int"]:
                fac = int(fac)
            try:
                res = str(Path(rd.cut_and_downsample_to_file(s, e, fac)).resolve())
                out = "ok"
            except ValueError:
                res, out = "", "refused"
            after = listing(src.parent)
            changed = any(after.get(p) != h for p, h in before.items())
            new = [p for p in after if p not in before]
            obs = {"res": out, "changed": changed, "created": len(new) == 1 and (out == "refused" or new[0] == res) or len(new) > 1, "path": -1}
            if out == "ok":
                if res not in paths:
                    paths.append(res)
                obs["path"] = paths.index(res)
                if new:
                    if len(new) > 1:
                        obs["path"] = SENT
                    obs.update(content(res, at))
            ev.append({"op": "cut", "q": q, "me": o["me"], "obs": obs})
    finally:
        rd.__exit__()
    return {"ev": ev, "init": {"r": r, "attrs": ini}}


def run_array(scn, work):
    import h5py
    import numpy as np
    from pathlib import Path
    from shepherd_data import Reader

    src = Path(work) / "a.h5"
    make(src, {"n": 10, "sps": 1000, "tb": 0, "dt": 1000, "vb": 0, "vs": 0, "cb": 0, "cs": 0}, AT)
    ev = []
    with Reader(src, verbose=False) as rd:
        for o in scn["ops"]:
            if o["time"] or o["n"] == 1:
                a = np.arange(o["len"], dtype="u8") * 3
            else:
                a = np.random.default_rng(scn["seed"] + o["len"]).integers(0, 10**6, o["len"]).astype("u4")
            rd.max_elements = o["me"]
            end = None if o["end"] == -1 else o["end"]
            f = None
            if o["src"] == "h5":
                f = h5py.File(Path(work) / "src.h5", "w")
                a_src = f.create_dataset("x", data=a)
            else:
                a_src = a
            dst = None
            if o["dst"] == "h5":
                f = f or h5py.File(Path(work) / "src.h5", "w")
                dst = f.create_dataset("y", (0,), dtype="f8", maxshape=(None,), chunks=True)
            elif o["dst"] == "np":
                dst = np.empty((o["dlen"],))
            keep = a.copy()
            res = rd.downsample(a_src, dst, o["start"], end, o["n"], is_time=o["time"])
            arr = np.asarray(res[:]) if res is not None else np.empty((0,))
            if o["dst"] == "np" and dst is not None and res is not dst:
                arr = np.full((1,), SENT)
            rng_len = (o["len"] if end is None else min(end, o["len"]))
            rng_len -= min(rng_len, o["start"])
            rows = int(arr.size)
            if rng_len == 0:
                rows = 0  # destination is handed back as it was
            dig = int(hashlib.sha256(np.asarray(arr, dtype="f8").tobytes()).hexdigest()[:7], 16)
            if not np.array_equal(keep, np.asarray(a_src[:])):
                rows = SENT
            ev.append({"op": "array", "len": o["len"], "start": o["start"], "end": o["end"], "n": o["n"], "me": o["me"], "time": o["time"],
                       "obs": {"rows": rows, "v": prog(arr) if rng_len else [], "digest": dig}})
            if f:
                f.close()
    return {"ev": ev, "init": {"r": {}, "attrs": {}}}


def table(path, h5, scn):
    """Rows of the csv: time as progression in us; content as digest beside that of the recording it was taken from."""
    import h5py
    from datetime import datetime, timezone
    with open(path, encoding="utf-8-sig") as f:
        lines = f.read().split("\n")
    sep = scn["sep"]
    ok = lines[-1] == "" and len(lines[0].split(sep)) == 3 and os.path.dirname(path) == os.path.dirname(h5) and os.path.basename(path) == os.path.basename(h5)[:-3] + ".data.csv"
    t, c, v = [], [], []
    try:
        for ln in lines[1:-1]:
            x = ln.split(sep)
            dt = datetime.strptime(x[0], "%Y-%m-%d %H:%M:%S.%f").replace(tzinfo=timezone.utc)
            t.append(dt.replace(microsecond=0).timestamp() * 10**6 + dt.microsecond)
            c.append(float(x[1]))
            v.append(float(x[2]))
            ok = ok and len(x) == 3
    except (ValueError, IndexError):
        ok = False
    with h5py.File(h5, "r") as f:
        fc, fv = f["data"]["current"][:], f["data"]["voltage"][:]
    if not scn["raw"]:
        c = [round(x / 250e-12, 3) for x in c]
        v = [round(x / 3e-9, 3) for x in v]
    dig = lambda a: int(hashlib.sha256(repr([float(x) for x in a]).encode()).hexdigest()[:7], 16)  # noqa: E731
    return {"t": prog([int(x) for x in t]), "head": bool(ok), "c": dig(c), "v": dig(v), "rc": dig(fc), "rv": dig(fv)}


def run_batch(scn, work):
    from click.testing import CliRunner
    from pathlib import Path
    from shepherd_data.cli import cli

    root = Path(work) / "root"
    (root / "sub").mkdir(parents=True)
    files = []
    srcs = []
    for i, fd in enumerate(scn["files"]):
        p = (root / "sub" if fd["sub"] else root) / f"f{i}.h5"
        if fd["usable"]:
            make(p, fd["r"], AT)
        else:
            p.write_text("no recording")
        files.append({"r": fd["r"], "usable": fd["usable"], "addressed": scn["recurse"] or not fd["sub"]})
        srcs.append(p)
    before = listing(root)
    extract = scn["cmd"] == "extract"
    args = [scn["cmd"], str(root)]
    if extract and scn["raw"]:
        args.append("--raw")
    if extract and scn["sep"] != ";":
        args += ["--separator", scn["sep"]]
    if scn["recurse"]:
        args.append("--recurse")
    if scn["num"]:
        args += ["--ds-factor", str(scn["num"] / scn["den"])]
    if scn["rate"]:
        args += ["--sample-rate", str(scn["rate"])]
    if scn["s"] != -1:
        args += ["--start", str(scn["s"] / 1000)]
    if scn["e"] != -1:
        args += ["--end", str(scn["e"] / 1000)]
    res = CliRunner().invoke(cli, args)
    if res.exception is not None and not isinstance(res.exception, SystemExit):
        raise res.exception
    after = listing(root)
    changed = any(after.get(p) != h for p, h in before.items())
    out, tables = [], []
    used = set(before)
    for p in srcs:
        mine = [x for x in after if x not in before and os.path.dirname(x) == str(p.parent) and os.path.basename(x).startswith(p.stem + ".")]
        used |= set(mine)
        lst = []
        csv = [x for x in mine if x.endswith(".data.csv")]
        mine = [x for x in mine if x not in csv]
        for x in mine:
            c = content(x, AT)
            lst.append({"factor": c["factor"], "n": c["n"], "t": c["t"]})
        if extract:
            h5 = (mine or [str(p)])[0]
            tables.append([table(x, h5, scn) for x in csv])
        elif csv:
            used -= set(csv)
        out.append(lst)
    if extract:
        return {"ev": [{"op": "extract", "files": files, "num": scn["num"] or 1000, "den": 1, "s": scn["s"], "e": scn["e"],
                        "obs": {"out": out, "tables": tables, "changed": changed, "exit": int(res.exit_code), "stray": len(set(after) - used)}}],
                "init": {"r": {}, "attrs": {}}}
    return {"ev": [{"op": "batch", "files": files, "rate": scn["rate"], "num": scn["num"], "den": scn["den"], "s": scn["s"], "e": scn["e"],
                    "obs": {"out": out, "changed": changed, "exit": int(res.exit_code), "stray": len(set(after) - used)}}],
            "init": {"r": {}, "attrs": {}}}


AT = {"base": 0, "mode": "harvester", "dtype": "ivsample", "win": 0, "host": "x", "cfg": 0, "gv": 3, "ov": 0, "gc": 250, "oc": 0, "tg": 1}


def execute(scn, work):
    return {"hist": run_hist, "array": run_array, "batch": run_batch}[scn["kind"]](scn, work)


def rec(rng, big=False):
    sps = rng.choice([1000, 1000, 2000, 5000, 10000, 100000] + ([200000] if big else []))
    while True:
        n = rng.choice([1000, 2000, 5000, 7000, rng.randint(900, 9000), rng.randint(900, 9000)])
        if sps >= 100000:
            n = rng.choice([30000, 45000, rng.randint(20000, 60000)]) if not big else rng.choice([100000, 123456, 210000])
        elif big:
            n *= 4
        if ((n * 1000) // sps) % 100 != 50 and ((n * 1000) % sps == 0 or ((n * 1000) // sps) % 100 != 49):
            break
    vs, cs = rng.choice([(0, 0), (0, 0), (1, 0), (0, 2), (1, 3)])
    return {"n": n, "sps": sps, "tb": rng.choice([0, 1000, 123456]), "dt": 10**6 // sps, "vb": rng.choice([0, 1000, rng.randint(0, 10**6)]),
            "vs": vs, "cb": rng.choice([0, 77, rng.randint(0, 10**6)]), "cs": cs}


def request(rng, r):
    rt = ((r["n"] * 1000 // r["sps"] + 50) // 100) * 100
    # limits whose product with the rate is not exact in floating point
    odd = [t for t in range(1, min(rt, 3000) + 1) if int(t / 1000 * r["sps"]) != t * r["sps"] // 1000] or [rt // 5]
    pick = lambda: rng.choice([rng.choice(odd), rng.choice(odd), 0, rt // 4, rt // 3, rt // 2, rt - 1, rt, rt + 300, rng.randint(0, rt + 50)])  # noqa: E731
    s = rng.choice([-1, -1, -1, 0, pick(), pick(), -500])
    e = rng.choice([-1, -1, -1, pick(), pick(), rt])
    nmax = max(r["n"] // 1000, 1)
    num, den = rng.choice([(1, 1), (2, 1), (3, 1), (7, 1), (rng.randint(1, nmax), 1), (rng.randint(1, nmax), 1), (5, 2), (27, 10), (7, 2), (1, 2), (0, 1),
                           (rng.randint(10, 10 * nmax + 9), 10)])
    return {"s": s, "e": e, "num": num, "den": den}


def scenarios(rng, tier):
    quick = tier == "quick"
    for k in range(220 if quick else 3000):
        big = k % 12 == 0
        r = rec(rng, big)
        m = rng.choice(MODES)
        at = {"base": rng.choice([0, 1_700_000_000 * 10**9]), "mode": m[0], "dtype": m[1], "win": m[2], "host": rng.choice(["", "sheep12"]),
              "cfg": rng.choice([0, 0, 5]), "gv": rng.choice([1, 3, 17]), "ov": rng.choice([0, -4, 9]), "gc": rng.choice([250, 1]),
              "oc": rng.choice([0, 3]), "tg": rng.choice([1, 1, 1000])}
        ops = []
        qs = [request(rng, r) for _ in range(3)]
        for _ in range(rng.randint(2, 6)):
            if rng.random() < 0.2:
                ops.append({"op": "reopen"})
                continue
            me = rng.choice([4_000_000, 4_000_000, r["n"], rng.randint(50, r["n"]), rng.choice([1000, 1024, 997])])
            ops.append({"op": "cut", "q": rng.choice(qs) if rng.random() < 0.4 else request(rng, r), "me": me, "int": rng.random() < 0.5})
        yield {"kind": "hist", "r": r, "at": at, "ops": ops, "name": rng.choice(["a.h5", "rec.x.h5", "a.downsample_x2.h5", "b.cut_0s500_to_1s000.h5"])}
    for _ in range(150 if quick else 3000):
        ops = []
        for _ in range(6):
            ln = rng.choice([0, 1, 5, 10, 37, 100, rng.randint(1, 300)])
            n = rng.choice([1, 2, 3, 5, 7, 10, rng.randint(1, 40)])
            st, en = rng.choice([(0, -1), (0, ln), (rng.randint(0, ln + 3), -1), (rng.randint(0, ln + 3), rng.randint(0, ln + 3))])
            tm = rng.random() < 0.5
            for me in rng.sample([1000, 1, 2, 3, 7, 10, rng.randint(1, 60)], 2):
                ops.append({"len": ln, "start": st, "end": en, "n": n, "me": me, "time": tm, "src": rng.choice(["np", "h5"]),
                            "dst": rng.choice(["none", "h5", "np"]), "dlen": rng.choice([0, 5, max(ln // n, 0)])})
        yield {"kind": "array", "ops": ops, "seed": rng.randint(0, 9999)}
    for _ in range(60 if quick else 800):
        files = []
        for _ in range(rng.randint(1, 4)):
            files.append({"r": rec(rng), "usable": rng.random() < 0.85, "sub": rng.random() < 0.3})
        s, e = rng.choice([(-1, -1), (-1, -1), (500, -1), (-1, 1500), (200, 1700)])
        how = rng.choice(["rate", "rate", "factor", "default"])
        lo = min(f["r"]["sps"] for f in files)
        yield {"kind": "batch", "files": files, "recurse": rng.random() < 0.5, "s": s, "e": e,
               "rate": rng.choice([lo, lo // 2, 300, 500, 1000]) if how == "rate" else 0,
               "num": rng.choice([1, 2, 3, 5, 25]) if how == "factor" else 0, "den": 1, "cmd": "downsample"}
    for _ in range(40 if quick else 500):
        files = [{"r": rec(rng), "usable": rng.random() < 0.85, "sub": rng.random() < 0.3} for _ in range(rng.randint(1, 3))]
        s, e = rng.choice([(-1, -1), (-1, -1), (500, -1), (-1, 1500), (200, 1700)])
        yield {"kind": "batch", "files": files, "recurse": rng.random() < 0.5, "s": s, "e": e, "rate": 0, "num": rng.choice([0, 1, 2, 5, 25, 3]), "den": 1,
               "cmd": "extract", "raw": rng.random() < 0.4, "sep": rng.choice([";", ";", ",", "|"])}

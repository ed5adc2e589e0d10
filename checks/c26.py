"""C26: overview of devices."""
from vf.util import I  # noqa: F401

TRACE = "DevicesTrace"
ASSUMPTIONS = ["host names are unique and free of brackets", "csv cells hold no line breaks"]
BATCH = 500
SW = ["h5py", "numpy", "pydantic", "python", "shepherd_core", "shepherd_sheep", "yaml", "zstandard"]


def models(tier):
    return [{"module": "DevicesMC", "cfg": "DevicesMC.cfg"}]


def dev(host, up, at, ver):
    return {"host": host, "up": up, "at": at, "ver": {s: ver.get(s, "") for s in SW}}


def generators(tier):
    def conv(g):
        ds = [dev(f"sheep{i}", d["up"], d["at"], {"numpy": d["a"], "python": "3.12"}) for i, d in enumerate(g["d"])]
        return [{"ops": [{"op": "warn", "devices": ds, "rich": len(ds)}], "v": len(ds)}]

    return [{"module": "DevicesMC", "cfg": "DevicesGen.cfg", "cap": 400 if tier == "quick" else 10**6, "to_scenario": conv}]


def scenarios(rng, tier):
    for i in range(250 if tier == "quick" else 4000):
        ops = []
        for _ in range(rng.randrange(1, 4)):
            base = rng.randrange(10**6)
            few = rng.random() < 0.5
            ds = []
            for k in range(rng.randrange(1, 6)):
                ver = {s: rng.choice(["1.0", "1.0", "1.1"] if few else ["1.0"]) for s in SW if rng.random() < 0.8}
                if rng.random() < 0.2:
                    ver[rng.choice(SW)] = "9.9"
                ds.append(dev(f"sheep{k:02d}", rng.choice([1, 100, 107999, 108000, 108001, 10**6] if few else [1, 5, 108000]),
                              base + rng.choice([0, 1, 9999, 10000, 10001, 60000] if rng.random() < 0.5 else [0, 3]), ver))
            rng.shuffle(ds)
            ops.append({"op": rng.choice(["warn", "warn", "csv"]), "devices": ds, "rich": rng.randrange(4)})
        if i % 25 == 0:
            ops.append({"op": "collect", "psutil": i % 50 == 0})
        yield {"ops": ops, "v": rng.randrange(1000)}


def warmup():
    import shepherd_core.inventory  # noqa: F401


def element(d, rich):
    from datetime import datetime, timedelta, timezone
    from shepherd_core.inventory import Inventory
    t = datetime(2031, 1, 2, 3, 4, 5, tzinfo=timezone(timedelta(hours=rich % 3))) + timedelta(milliseconds=d["at"])
    kw = {s: v for s, v in d["ver"].items() if v}
    kw.update(fs_root=["a", "b c"] if rich else [], beagle=[])
    if rich & 1:
        kw.update(interfaces={"eth0": ["aa:bb", "1.2.3.4"]}, targets=["t1"])
    if rich & 2:
        kw.update(cape="cape 2.4", ptp="v3")
    return Inventory(hostname=d["host"], created=t, timestamp=t, uptime=d["up"], system="Linux", release="r", version="v", machine="m", processor="p", **kw)


def execute(scn, work):
    from pathlib import Path

    from shepherd_core.inventory import Inventory, InventoryList
    from shepherd_core.inventory import system as sysmod

    ev = []
    for n, o in enumerate(scn["ops"]):
        if o["op"] == "collect":
            old = sysmod.psutil
            obs = {"ok": False, "host": False, "created": False, "versions": False, "stored": False, "uptime": False}
            try:
                if not o["psutil"]:
                    sysmod.psutil = None
                import platform

                import numpy
                m = Inventory.collect()
                m.to_file(Path(work) / f"inv{n}.yaml", minimal=False)
                obs = {"ok": True, "host": m.hostname == platform.node(), "created": m.created == m.timestamp, "versions": m.numpy == numpy.__version__ and m.python == platform.python_version(),
                       "stored": Inventory.from_file(Path(work) / f"inv{n}.yaml") == m, "uptime": m.uptime > 0 or not o["psutil"]}
            except ValueError:
                pass
            finally:
                sysmod.psutil = old
            ev.append({**o, "obs": obs})
            continue
        lst = InventoryList(elements=[element(d, o["rich"]) for d in o["devices"]])
        e = {"op": o["op"], "devices": o["devices"]}
        if o["op"] == "warn":
            obs = {"ok": False, "kinds": [], "tired": [], "late": []}
            w = None
            try:
                w = lst.warn()
            except (KeyError, AttributeError, TypeError, ValueError):
                pass
            if w is not None:
                hosts = lambda k: sorted(d["host"] for d in o["devices"] if d["host"] in str(w.get(k, "")))  # noqa: E731
                obs = {"ok": True, "kinds": sorted(w), "tired": hosts("uptime"), "late": hosts("time_delta")}
        else:
            d = Path(work) / f"d{n}"
            d.mkdir()
            lst.to_csv(d / "out.csv")
            rows = (d / "out.csv").read_bytes().decode().split("\n")
            rows = [r.rstrip("\r") for r in rows if r.strip()]
            good = len(rows) > 0
            head = [h.strip() for h in rows[0].split(",")]
            hosts = []
            for el, r in zip(lst.elements, rows[1:]):
                vals = el.model_dump()
                good = good and head == list(vals)
                pos = 0
                for v in vals.values():
                    q = "" if v is None else str(v)
                    k = r.find(q, pos)
                    good = good and k >= 0
                    pos = max(pos, k) + len(q)
                hosts += [x["host"] for x in o["devices"] if x["host"] in r]
            obs = {"ok": True, "rows": len(rows) - 1, "hosts": hosts, "values": good, "others": len(list(d.iterdir())) != 1}
        ev.append({**e, "obs": obs})
    return {"init": {}, "ev": ev}

"""C09: fixtures and inheritance."""
import hashlib
import json


TRACE = "InheritTrace"
ASSUMPTIONS = [
    "names and ids unique per database (the shipped database holds one duplicate id, which is not used as reference)",
    "offline client (fixtures); the web client is not implemented upstream",
]
TYPES = ["EnergyEnvironment", "VirtualHarvesterConfig", "VirtualSourceConfig", "Firmware", "MCU", "Target", "GPIO", "Cape", "Observer", "Testbed"]
NONE = {"k": "none", "n": "", "i": 0}
VH = "VirtualHarvesterConfig"
VH_FIELDS = ["samples_n", "interval_ms", "duration_ms", "setpoint_n", "wait_cycles", "rising", "description", "algorithm"]
_orig = {}


def models(tier):
    m = [{"module": "InheritMC", "cfg": "InheritMC.cfg"}]
    if tier != "quick":
        m.append({"module": "InheritMC", "cfg": "InheritMC_deep.cfg"})
    return m


def warmup():
    from shepherd_core.data_models import VirtualHarvesterConfig  # noqa: F401
    from shepherd_core.testbed_client import tb_client
    _orig["fix"] = tb_client._fixtures


def canon(v):
    import enum
    if isinstance(v, enum.Enum):
        v = v.value
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, (int, float)):
        return f"{float(v):.9g}"
    if isinstance(v, str):
        return "s:" + v
    return "j:" + json.dumps(v, sort_keys=True, default=str)


def sid(v):
    """Ids beyond the value range of the trace are mapped (injective in practice)."""
    v = int(v)
    return v if abs(v) < 2**30 else 2**30 + int(hashlib.sha256(str(v).encode()).hexdigest()[:8], 16) % 2**29


def ref_of(v):
    if v is None:
        return NONE
    if isinstance(v, str) and not v.isdigit():
        return {"k": "name", "n": v.lower(), "i": 0}
    return {"k": "id", "n": "", "i": sid(v)}


def split(d):
    """Stored or queried dict -> abstract entry."""
    d = dict(d)
    return {
        "name": str(d.pop("name", "")).lower(), "id": sid(d.pop("id", -1)), "base": ref_of(d.pop("inherit_from", None)),
        "f": {k: canon(v) for k, v in d.items()},
    }


def read_shipped():
    from pathlib import Path
    import yaml
    import shepherd_core
    root = Path(shepherd_core.__file__).parent / "data_models"
    db = {}
    for p in root.glob("**/*.yaml"):
        for x in yaml.safe_load(p.read_text()):
            if isinstance(x, dict) and "datatype" in x and "name" in x["parameters"]:
                db.setdefault(x["datatype"].lower(), []).append(x["parameters"])
    return db


def stored(fx, typ):
    return [split(x) for x in fx[typ].elements_by_name.values()]


def execute(scn, work):
    from pathlib import Path
    import yaml
    import shepherd_core.data_models as dm
    from shepherd_core.data_models import testbed as dmt  # noqa: F401
    from shepherd_core.data_models.base.wrapper import Wrapper
    from shepherd_core.testbed_client import tb_client
    from shepherd_core.testbed_client.fixtures import Fixtures

    typ = scn["type"]
    ev = []
    if scn["kind"] == "shipped":
        fx = Fixtures(reset=True)
        start = read_shipped()[typ.lower()]
    else:
        p = Path(work) / "fix.yaml"
        p.write_text(yaml.safe_dump([{"datatype": typ, "parameters": x} for x in scn["db"]], sort_keys=False))
        fx = Fixtures(file_path=p, reset=True)
        start = scn["db"]
    init = {"db": [split(x) for x in start], "req": [], "def": {}}
    cls = getattr(dm, typ, None) or getattr(__import__("shepherd_core.data_models.testbed", fromlist=["x"]), typ, None)
    if typ == VH:
        init["req"] = ["algorithm"]
        init["def"] = {k: canon(cls.model_fields[k].default) for k in VH_FIELDS if k != "algorithm"}
    tb_client._fixtures = fx
    try:
        for o in scn["ops"]:
            if o["op"] == "insert":
                fx.insert_model(Wrapper(datatype=typ, parameters=dict(o["e"])))
                ev.append({"op": "insert", "e": split(o["e"]), "obs": {}})
            elif o["op"] == "query":
                q = dict(o["q"])
                s0 = json.dumps(q)
                try:
                    v, chain = tb_client.try_completing_model(typ, q)
                    r = split(v)
                    obs = {"ok": True, "f": r["f"], "name": r["name"], "id": r["id"], "chain": [str(c).lower() for c in chain]}
                    if r["base"]["k"] != "none":
                        obs["f"]["inherit_from"] = "left"
                    v["owner"] = "somebody"  # consumers complete the dict they got
                    v.pop("description", None)
                except ValueError:
                    obs = {"ok": False, "f": {}, "name": "", "id": -1, "chain": []}
                obs["same"] = json.dumps(q) == s0
                ev.append({"op": "query", "q": split(o["q"]), "obs": obs})
            elif o["op"] == "model":
                try:
                    m = cls(**o["q"])
                    obs = {"ok": True, "name": str(m.name).lower(), "id": sid(m.id), "f": {k: canon(getattr(m, k)) for k in VH_FIELDS}}
                except (ValueError, KeyError):
                    obs = {"ok": False, "name": "", "id": -1, "f": {}}
                ev.append({"op": "model", "q": split(o["q"]), "obs": obs})
            elif o["op"] == "get":
                try:
                    n = str(fx[typ][o["ref"]]["name"]).lower()
                except ValueError:
                    n = ""
                ev.append({"op": "get", "ref": ref_of(o["ref"]), "obs": {"name": n}})
            elif o["op"] == "item":
                try:
                    r = o["ref"]
                    n = tb_client.query_item(typ, uid=r) if isinstance(r, int) else tb_client.query_item(typ, name=r)
                    n = str(n["name"]).lower()
                except ValueError:
                    n = ""
                ev.append({"op": "get", "ref": ref_of(o["ref"]), "obs": {"name": n}})
            elif o["op"] == "keys":
                ev.append({"op": "keys", "obs": {"names": [str(x) for x in tb_client.query_names(typ)], "ids": [sid(x) for x in tb_client.query_ids(typ)]}})
            elif o["op"] == "iter":
                ev.append({"op": "stored", "obs": {"db": [split(x) for x in fx[typ]]}})
            elif o["op"] == "stored":
                ev.append({"op": "stored", "obs": {"db": stored(fx, typ)}})
            elif o["op"] == "inst":
                try:
                    m = cls(**o["q"])
                    h = hashlib.sha256(json.dumps(m.model_dump(mode="json", exclude={"created", "updated_last"}), sort_keys=True, default=str).encode()).hexdigest()[:16]
                except (ValueError, KeyError):
                    h = "refused"
                ev.append({"op": "inst", "key": o["key"], "obs": {"h": h}})
    finally:
        tb_client._fixtures = _orig.get("fix", fx)
    ev.append({"op": "stored", "obs": {"db": stored(fx, typ)}})
    return {"ev": ev, "init": init}


def rcase(rng, s):
    return rng.choice([s, s, s.upper(), s.capitalize(), s.lower()])


def rfields(rng, k):
    pool = {
        "samples_n": rng.randint(8, 900), "interval_ms": rng.randint(1, 5000), "duration_ms": rng.randint(1, 500),
        "setpoint_n": rng.randint(0, 100) / 100, "wait_cycles": rng.randint(0, 20), "rising": rng.random() < 0.5,
        "description": rng.choice(["text", "other", "x"]), "algorithm": rng.choice(["cv", "mppt_voc", "mppt_po", "mppt_opt"]),
    }
    ks = rng.sample(sorted(pool), min(k, len(pool)))
    return {x: pool[x] for x in ks}


def scenarios(rng, tier):
    quick = tier == "quick"
    for _ in range(350 if quick else 6000):
        n = rng.choice([1, 2, 3, 4, 6, 9])
        names = [rng.choice(["alpha", "Beta", "c_x", "DELTA+", "e-1", "f"]) + str(i) + "_" for i in range(n)]
        db = []
        loops = rng.random() < 0.15
        for i, nm in enumerate(names):
            e = {"id": 100 + i * 7, "name": nm, **rfields(rng, rng.choice([0, 1, 3, 6]))}
            if rng.random() < 0.75 and (i or loops):
                j = rng.randrange(n) if loops else rng.randrange(i)
                if not loops and rng.random() < 0.5:
                    j = i - 1
                e["inherit_from"] = rng.choice([rcase(rng, names[j]), rcase(rng, names[j]), 100 + j * 7, str(100 + j * 7)])
                if rng.random() < 0.04:
                    e["inherit_from"] = rng.choice(["nix", 5])
            items = list(e.items())
            rng.shuffle(items)
            db.append(dict(items))
        order = list(db)
        rng.shuffle(order)
        ops = []
        for _ in range(rng.choice([4, 8, 12])):
            i = rng.randrange(n)
            nm = rcase(rng, names[i])
            how = rng.random()
            if how < 0.2:
                q = {"name": nm}
            elif how < 0.3:
                q = {"id": 100 + i * 7}
            elif how < 0.5:
                q = {"name": nm, **rfields(rng, rng.choice([1, 2]))}
            elif how < 0.6:
                q = {"id": 100 + i * 7, **rfields(rng, rng.choice([1, 2]))}
            elif how < 0.85:
                q = {"inherit_from": rng.choice([nm, nm, 100 + i * 7, str(100 + i * 7)]), **rfields(rng, rng.choice([0, 1, 3]))}
                if rng.random() < 0.6:
                    q["name"] = "own_" + str(rng.randrange(9))
                if rng.random() < 0.3:
                    q["id"] = rng.choice([9999, 100])
                if rng.random() < 0.1:
                    q["name"] = rcase(rng, rng.choice(names))
            else:
                q = rng.choice([{"name": "nix"}, {"id": 3}, {"name": "nix", "id": 55}, {"name": "new1", **rfields(rng, 2)}, {"inherit_from": "nix", "name": "y"},
                                {"inherit_from": 77}, {"name": "new2", "algorithm": "cv"}, {"id": 4711, "name": "z1", "algorithm": "cv", "samples_n": 10}])
            items = list(q.items())
            rng.shuffle(items)
            q = dict(items)
            ops.append({"op": rng.choice(["query", "model"]), "q": q})
            r = rng.random()
            if r < 0.1:
                ops.append({"op": rng.choice(["get", "item"]), "ref": rng.choice([nm, 100 + i * 7, "nix", 5])})
            elif r < 0.15:
                ops.append({"op": "get", "ref": str(100 + i * 7)})
            elif r < 0.2:
                ops.append({"op": "keys"})
            elif r < 0.3:
                ops.append({"op": rng.choice(["stored", "iter"])})
            elif r < 0.36:
                e = {"id": 100 + i * 7, "name": names[i], **rfields(rng, 3)}
                ops.append({"op": "insert", "e": e})
            elif r < 0.42:
                k = rng.randrange(50)
                ops.append({"op": "insert", "e": {"id": 5000 + k, "name": f"late{k}", "inherit_from": nm, **rfields(rng, 2)}})
                ops.append({"op": "query", "q": {"name": f"LATE{k}"}})
        yield {"kind": "synth", "type": VH, "db": order, "ops": ops}
    if "shp" not in _orig:
        _orig["shp"] = read_shipped()
    for typ in TYPES:
        es = _orig["shp"].get(typ.lower(), [])
        cnt = {}
        for e in es:
            cnt[e["id"]] = cnt.get(e["id"], 0) + 1
        for _ in range(6 if quick else 40):
            ops = []
            for e in rng.sample(es, min(len(es), 14)):
                nm = rcase(rng, str(e["name"]))
                if nm.isdigit():
                    continue
                ops.append({"op": "query", "q": {"name": nm}})
                if cnt[e["id"]] == 1:
                    ops.append({"op": "query", "q": {"id": e["id"]}})
                    ops.append({"op": "get", "ref": e["id"]})
                ops.append({"op": "query", "q": {"inherit_from": nm, "name": "mine", "description": "changed", "id": 99}})
                ops.append({"op": "query", "q": {"name": nm, "description": "changed"}})
                ops.append({"op": "inst", "key": str(e["name"]), "q": {"name": str(e["name"])}})
                if cnt[e["id"]] == 1:
                    ops.append({"op": "inst", "key": str(e["name"]), "q": {"id": e["id"]}})
            rng.shuffle(ops)
            ops.append({"op": "keys"})
            ops.append({"op": "iter"})
            yield {"kind": "shipped", "type": typ, "ops": ops}

"""C13: testbed descriptions and lookups."""
from drivers import world

TRACE = "TestbedTrace"
ASSUMPTIONS = [
    "databases are synthetic; observers are given as nested models, dictionaries or references to stored entries",
    "names that differ only in letter case are not used",
]


def models(tier):
    return [{"module": "TestbedMC", "cfg": "TestbedMC.cfg" if tier == "quick" else "TestbedMC_deep.cfg", "timeout": 900}]


def to_scn(g):
    ts = sorted({o[k] for o in g["obs"] for k in ("ta", "tb")} | {0, 1, 2, 3, 9})
    return [{"kind": "testbed", "tb": g, "route": r, "dated": False, "look": ts, "mac": 0, "ip": 0} for r in ("models",)]


def generators(tier):
    return [{"module": "TestbedMC", "cfg": "TestbedGen.cfg", "cap": 500 if tier == "quick" else 6000, "to_scenario": to_scn}]


def warmup():
    import shepherd_core.data_models.testbed  # noqa: F401
    world.shipped()


def mac(m, style):
    s = f"18:62:E4:0A:CD:{m:02X}"
    return [s, s.lower(), s.replace(":", "-"), s.lower().replace(":", "-")][style % 4]


def ip(m, style):
    return [f"10.0.0.{m}", f"fe80::{m:x}", f"fe80:0:0::{m:X}"][style % 3]


def observer(o, scn, k):
    d = {"id": o["id"], "name": o["name"], "description": "o", "ip": ip(o["ip"], scn["ip"] and 1 + k % 2), "mac": mac(o["mac"], scn["mac"] and k), "room": "r", "eth_port": f"p{o['port']}", "active": o["active"]}
    date = {"created": "2024-01-01"} if scn["dated"] else {}
    if o["cape"]:
        d["cape"] = {"id": o["cape"], "name": f"cape{o['cape']}", "version": "v", "description": "c", "active": o["con"], **date}
    for key, t, on in (("target_a", o["ta"], o["aon"]), ("target_b", o["tb"], o["bon"])):
        if t:
            d[key] = {"id": t, "name": f"tgt{t}", "version": "v", "description": "t", "active": on, "mcu1": "MCU", **date}
    return d


def install(scn):
    w = {"mcu": [{"id": 1, "name": "MCU", "proto": "SWD", "volt": 3, "rate": 1000, "fwdef": "x"}], "fw": [], "env": [], "tgt": [], "obs": [], "shared": True, "prep": 0}
    fx = world.install(w)
    from shepherd_core.testbed_client.fixtures import Fixture
    fx.components["testbed"] = Fixture("testbed")
    return fx


def execute(scn, work):
    from pydantic import ValidationError
    from shepherd_core.data_models.base.wrapper import Wrapper
    from shepherd_core.data_models.testbed import Observer, Testbed

    ev = []
    fx = install(scn)
    try:
        tb = scn["tb"]
        models, ok = [], True
        for k, o in enumerate(tb["obs"]):
            d = observer(o, scn, k)
            if scn["route"] == "stored":
                for key, typ in (("cape", "cape"), ("target_a", "target"), ("target_b", "target")):
                    if key in d:
                        fx.insert_model(Wrapper(datatype=typ, parameters=d[key]))
                        d[key] = {"name": d[key]["name"]} if k % 2 else {"id": d[key]["id"]}
                fx.insert_model(Wrapper(datatype="observer", parameters=d))
                d = {"name": o["name"]} if k % 2 else {"id": o["id"]}
            try:
                m = Observer(**d)
                good = True
            except ValueError:
                m, good = d, False
            ok = ok and good
            ev.append({"op": "observer", "o": o, "obs": {"ok": good}})
            models.append(m if scn["route"] == "models" else d)
        kw = {"id": 1, "name": "tb", "description": "d", "observers": models, "shared_storage": tb["shared"], "data_on_server": "/s", "data_on_observer": "/o"}
        if tb["neg"] or scn.get("prep") is not None:
            kw["prep_duration"] = -scn.get("negval", 1) if tb["neg"] else scn["prep"]
        if scn["route"] == "stored":
            fx.insert_model(Wrapper(datatype="testbed", parameters=kw))
            kw = [{}, {"id": 1}, {"name": "tb"}][scn["ip"] % 3]
        try:
            t = Testbed(**kw)
            good = True
        except ValueError:
            t, good = None, False
        ev.append({"op": "testbed", "tb": tb, "obs": {"ok": good}})
        if t is not None:
            before = t.model_dump()
            for x in scn["look"]:
                try:
                    got = t.get_observer(x).id
                except (ValueError, KeyError):
                    got = 0
                ev.append({"op": "lookup", "t": x, "obs": {"id": got, "same": t.model_dump() == before}})
            for k, o in enumerate(t.observers, 1):
                for x in scn["look"]:
                    r = {"has": o.has_target(x), "port": "", "tgt": 0}
                    try:
                        p = o.get_target_port(x)
                        r["port"] = getattr(p, "value", p)
                    except (ValueError, KeyError):
                        pass
                    try:
                        r["tgt"] = o.get_target(x).id
                    except (ValueError, KeyError):
                        pass
                    ev.append({"op": "target", "k": k, "t": x, "obs": r})
    finally:
        world.restore()
    return {"ev": ev, "init": {"none": 0}}


def random_tb(rng):
    n = rng.choice([1, 2, 3, 4])
    tg = rng.sample(range(1, 20), 2 * n)
    obs = []
    for k in range(n):
        c = 0 if rng.random() < 0.15 else 10 + k
        o = {"id": 20 + k, "name": f"sheep{k}", "ip": 1 + k, "mac": 1 + k, "port": 1 + k, "active": rng.random() < 0.8, "cape": c, "con": rng.random() < 0.8,
             "ta": tg[2 * k] if c and rng.random() < 0.8 else 0, "tb": tg[2 * k + 1] if c and rng.random() < 0.5 else 0,
             "aon": rng.random() < 0.8, "bon": rng.random() < 0.8}
        obs.append(o)
    tb = {"shared": rng.random() < 0.97, "neg": rng.random() < 0.03, "obs": obs}
    dup = ""
    if rng.random() < 0.55:
        a, b = rng.choice(obs), rng.choice(obs)
        dup = rng.choice(["id", "name", "ip", "mac", "port", "cape", "ta", "tb", "cross", "cross", "nocape"])
        if dup == "cross":
            a["tb"] = b["ta"]
        elif dup == "nocape":
            a["cape"] = 0
        else:
            a[dup] = b[dup]
    rng.shuffle(obs)
    return tb, dup


def scenarios(rng, tier):
    for _ in range(600 if tier == "quick" else 8000):
        tb, dup = random_tb(rng)
        ids = {o["id"] for o in tb["obs"]}
        names = {o["name"] for o in tb["obs"]}
        caps = {}
        share = any(a is not b and ({a["ta"], a["tb"]} & {b["ta"], b["tb"]} - {0} or (a["cape"] and a["cape"] == b["cape"])) for a in tb["obs"] for b in tb["obs"]) \
            or any(o["ta"] and o["ta"] == o["tb"] for o in tb["obs"])
        route = rng.choice(["models", "dicts", "stored"])
        if route == "stored" and (len(ids) < len(tb["obs"]) or len(names) < len(tb["obs"])):
            route = "dicts"
        if route == "stored" and share:
            # one stored entry -> one state
            on = {}
            for o in tb["obs"]:
                o["con"] = on.setdefault(("c", o["cape"]), o["con"])
                o["aon"] = on.setdefault(("t", o["ta"]), o["aon"])
                o["bon"] = on.setdefault(("t", o["tb"]), o["bon"])
        look = sorted({o[k] for o in tb["obs"] for k in ("ta", "tb")} | {0, 77, rng.randrange(1, 20)} | {rng.choice(tb["obs"])["id"]})
        yield {"kind": "testbed", "tb": tb, "route": route, "dated": rng.random() < 0.5, "look": look, "mac": rng.random() < 0.5 and 1 or 0, "ip": rng.choice([0, 0, 1, 2]),
               "prep": rng.choice([0, 5, 600]), "negval": rng.choice([1, 0.5, 3600])}

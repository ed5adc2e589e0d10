"""C29: clients of the testbed-server against a stand-in on the loopback device."""
import os
import random
import re
from pathlib import Path

TRACE = "WebClientTrace"
ASSUMPTIONS = ["the server is a stand-in on the loopback device with the three documented endpoints", "tokens consist of url-safe characters, as the generated ones do", "servers answer at once (no timeouts)"]
BATCH = 300
# as long as the generated ones
LONG = "shepherd_token_" + ("Zk-_09aB" * 22)[:171]
PUBLIC = "basic_public_access"


def models(tier):
    return [{"module": "WebClientMC", "cfg": "WebClientMC.cfg" if tier == "quick" else "WebClientMC_deep.cfg", "timeout": 800}]


def generators(tier):
    def conv(g):
        r = random.Random(repr(g))
        more = [{"op": "insert", "c": 0, "kind": r.choice(ENTRIES), "seed": r.randrange(10**9), "fault": "ok"}, {"op": "fill", "c": 0, "owner": r.choice(["-", "me"]), "group": r.choice(["-", "us"])}]
        return [{"ops": [{"op": "create", **g}, *more], "seed": r.randrange(10**6)}]

    return [{"module": "WebClientMC", "cfg": "WebClientGen.cfg", "cap": 10**6, "to_scenario": conv}]


# entries without secrets (those are masked) and binary content
ENTRIES = ["EnergyEnvironment", "VirtualHarvesterConfig", "VirtualSourceConfig", "Cape", "GPIO", "MCU", "Target", "Observer", "Experiment", "Firmware", "Testbed"]
FAULTS = ["ok", "ok", "ok", "503", "404", "401", "403", "500", "nojson", "novalue"]


def scenarios(rng, tier):
    for _ in range(400 if tier == "quick" else 3000):
        ops, n = [], 0
        for _ in range(rng.randrange(2, 9)):
            k = rng.random()
            if k < 0.4 or not n:
                n += 1
                ops.append({"op": "create", "srv": rng.choice(["a", "a", "b", "down"]) if rng.random() < 0.4 else rng.choice("ab"), "route": rng.choice(["none", "text", "text", "file", "missing"]),
                            "tok": rng.choice(["t1", "t2", "stranger", "shepherd_token_aB-_09", LONG, LONG]), "key": rng.choice(FAULTS) if rng.random() < 0.2 else "ok", "user": rng.choice(FAULTS) if rng.random() < 0.2 else "ok"})
            elif k < 0.75:
                ops.append({"op": "insert", "c": rng.randrange(n), "kind": rng.choice(ENTRIES), "seed": rng.randrange(10**9), "fault": rng.choice(FAULTS[:-2])})
            else:
                ops.append({"op": "fill", "c": rng.randrange(n), "owner": rng.choice(["-", "-", "me"]), "group": rng.choice(["-", "-", "us"])})
        yield {"ops": ops, "seed": rng.randrange(10**6)}


def warmup():
    import requests  # noqa: F401
    import shepherd_core.data_models.task  # noqa: F401
    from shepherd_core import inventory  # noqa: F401
    from drivers import models as m
    m.classes()


def free_port():
    import socket
    with socket.socket() as s:
        s.bind(("127.0.0.1", 0))
        return s.getsockname()[1]


def offline():
    from shepherd_core.data_models import VirtualHarvesterConfig
    try:
        return VirtualHarvesterConfig(name="cv20").id == 1220 or VirtualHarvesterConfig(name="cv20").voltage_mV == 2000
    except Exception:  # noqa: BLE001
        return False


def plain(m):
    # a date and its midnight are the same text
    return re.sub(r"T00:00:00(?=Z?\")", "", m.model_dump_json())


def received(body, m):
    from shepherd_core.data_models.base.wrapper import Wrapper
    try:
        w = Wrapper.model_validate_json(body)
        return w.datatype == type(m).__name__ and plain(type(m)(**w.parameters)) == plain(m)
    except Exception:  # noqa: BLE001
        return False


def execute(scn, work):
    os.environ["NO_PROXY"] = os.environ["no_proxy"] = "*"
    from drivers.models import Gen
    from drivers.webstub import Stub
    from shepherd_core import WebClient

    toks = {"a": ["t1", "t2", "shepherd_token_aB-_09", LONG, PUBLIC], "b": ["t1", PUBLIC]}
    users = {s: {t: {"name": f"n{k}-{s}", "group": f"g{k}-{s}", "email": "some@body.org"} for k, t in enumerate(ts)} for s, ts in toks.items()}
    stubs = {s: Stub(u) for s, u in users.items()}

    def faults(**f):
        for s in stubs.values():
            s.faults = f

    def log():
        return [{"srv": s, **{k: x[k] for k in ("method", "what", "token", "extra")}} for s, st in stubs.items() for x in st.log]

    def clear():
        for s in stubs.values():
            s.take()

    ev, cl = [], []
    try:
        for n, o in enumerate(scn["ops"]):
            clear()
            if o["op"] == "create":
                p = {k: o[k] for k in ("srv", "route", "tok", "key", "user")}
                tok = None
                if p["route"] == "text":
                    tok = p["tok"]
                elif p["route"] in ("file", "missing"):
                    tok = Path(work) / f"token{n}"
                    if p["route"] == "file":
                        tok.write_text(p["tok"])
                url = stubs[p["srv"]].url if p["srv"] in stubs else f"http://127.0.0.1:{free_port()}/tb"
                faults(key=p["key"], user=p["user"])
                c = None
                try:
                    c = WebClient(server=url, token=tok)
                except Exception:  # noqa: BLE001 - any error is a refusal
                    pass
                ev.append({"op": "create", "p": p, "obs": {"ok": c is not None, "log": log(), "offline": offline()}})
                cl.append(c)
                continue
            c = cl[o["c"]]
            if c is None:
                continue
            faults(add=o.get("fault", "ok"))
            if o["op"] == "insert":
                g = Gen(random.Random(o["seed"]))
                m = None
                while m is None:
                    try:
                        m = g.make(o["kind"])
                    except (ValueError, TypeError):
                        continue
                ok = False
                try:
                    ok = c.insert(m) is True
                except Exception:  # noqa: BLE001
                    pass
                got = [x for s in stubs.values() for x in s.log]
                ev.append({"op": "insert", "c": o["c"] + 1, "fault": o["fault"], "kind": o["kind"], "obs": {"ok": ok, "log": log(), "same": len(got) == 1 and received(got[0]["body"], m)}})
            else:
                d = {"x": 5, **({"owner": o["owner"]} if o["owner"] != "-" else {"owner": None} if scn["seed"] % 2 else {}), **({"group": o["group"]} if o["group"] != "-" else {"group": None} if scn["seed"] % 3 == 0 else {})}
                try:
                    r = c.fill_in_user_data(d)
                    ob = {"owner": str(r.get("owner")), "group": str(r.get("group")), "rest": set(r) == {"x", "owner", "group"} and r["x"] == 5}
                except Exception:  # noqa: BLE001
                    ob = {"owner": "?", "group": "?", "rest": False}
                ev.append({"op": "fill", "c": o["c"] + 1, "owner": o["owner"], "group": o["group"], "obs": {**ob, "log": log()}})
    finally:
        for s in stubs.values():
            s.close()
    return {"init": {"users": users}, "ev": ev}

"""Synthetic testbed-databases for the fixture client."""
import hashlib
import json

_orig = {}


def shipped():
    from shepherd_core.testbed_client import tb_client
    if "fix" not in _orig:
        _orig["fix"] = tb_client._fixtures
    return _orig["fix"]


def restore():
    from shepherd_core.testbed_client import tb_client
    if "fix" in _orig:
        tb_client._fixtures = _orig["fix"]


def canon(x):
    return hashlib.sha256(json.dumps(x, sort_keys=True, default=str).encode()).hexdigest()[:12]


def fw_name(k):
    return f"fw_{k}"


def install(w):
    """Replace the database behind the client by world w (plus the shipped sources/harvesters/gpios)."""
    import copy
    from shepherd_core.data_models.base.wrapper import Wrapper
    from shepherd_core.testbed_client import tb_client
    from shepherd_core.testbed_client.fixtures import Fixture, Fixtures

    base = shipped()
    fx = copy.copy(base)
    fx.components = {k: copy.deepcopy(v) if k in ("virtualsourceconfig",) else v for k, v in base.components.items()}
    for t in ("mcu", "firmware", "energyenvironment", "target", "cape", "observer", "testbed"):
        fx.components[t] = Fixture(t)

    def ins(t, **p):
        fx.insert_model(Wrapper(datatype=t, parameters=p))

    for m in w["mcu"]:
        ins("mcu", id=m["id"], name=m["name"], description="mcu", platform="p", core="c", prog_protocol=m["proto"],
            prog_voltage=m["volt"], prog_datarate=m["rate"], fw_name_default=m["fwdef"])
    names = {m["id"]: m["name"] for m in w["mcu"]}
    for f in w["fw"]:
        ins("firmware", id=f["id"], name=f["name"], mcu={"name": names[f["mcu"]]}, data=f["path"], data_type="path_elf")
    for e in w["env"]:
        ins("energyenvironment", id=e["id"], name=e["name"], data_path=e["path"], data_type="ivsample", duration=10, energy_Ws=1, valid=e["valid"])
    tn = {}
    for t in w["tgt"]:
        tn[t["id"]] = t["name"]
        p = {"id": t["id"], "name": t["name"], "version": "v1", "description": "target", "mcu1": {"name": names[t["mcu1"]]}}
        if t["mcu2"]:
            p["mcu2"] = {"name": names[t["mcu2"]]}
        if not t["active"]:
            p["active"] = False
        if t.get("tbgiven"):
            p["testbed_id"] = t["tbid"]
        if w.get("dated", True):
            p["created"] = "2024-01-01"
        ins("target", **p)
    for o in w["obs"]:
        p = {"id": o["id"], "name": o["name"], "description": "observer", "ip": o["ip"], "mac": o["mac"], "room": "r", "eth_port": o["port"]}
        if o["cape"] != "none":
            c = {"id": o["capeid"], "name": f"cape{o['capeid']}", "version": "v2", "description": "cape"}
            if o["cape"] == "off":
                c["active"] = False
            if w.get("dated", True):
                c["created"] = "2024-01-01"
            if f"cape{o['capeid']}" not in fx.components["cape"].elements_by_name:
                ins("cape", **c)
            p["cape"] = {"name": c["name"]}
        if not o["active"]:
            p["active"] = False
        if o["ta"]:
            p["target_a"] = {"name": tn[o["ta"]]}
        if o["tb"]:
            p["target_b"] = {"name": tn[o["tb"]]}
        ins("observer", **p)
    ins("testbed", id=1, name="tb", description="testbed", shared_storage=w["shared"], data_on_server="/srv", data_on_observer="/data",
        prep_duration=w["prep"], observers=[{"name": o["name"]} for o in w["obs"]])
    tb_client._fixtures = fx
    return fx


def abstract(w):
    """What the specification knows about the world."""
    fwm = {f["name"]: f["mcu"] for f in w["fw"]}
    return {
        "tgt": [{"id": t["id"], "tbid": t["tbid"], "mcu1": t["mcu1"], "mcu2": t["mcu2"], "active": t["active"]} for t in w["tgt"]],
        "obs": [{"id": o["id"], "name": o["name"], "active": o["active"], "cape": o["cape"], "ta": o["ta"], "tb": o["tb"]} for o in w["obs"]],
        "mcu": [{"id": m["id"], "def": fwm.get(m["fwdef"], 0)} for m in w["mcu"]],
    }


def random_world(rng, nobs=None):
    nm = rng.choice([2, 3])
    mcu = [{"id": 10 + k, "name": f"mcu{k}", "proto": rng.choice(["SWD", "SBW", "JTAG"]), "volt": rng.choice([1.8, 2.5, 3, 3.3]),
            "rate": rng.choice([100_000, 200_000, 500_000])} for k in range(nm)]
    fw = [{"id": 100 + k, "name": f"fw_{k}", "mcu": mcu[k % nm]["id"], "path": f"/store/fw_{k}.elf"} for k in range(nm + 2)]
    for k, m in enumerate(mcu):
        m["fwdef"] = f"fw_{k}"
        if rng.random() < 0.1:
            m["fwdef"] = rng.choice(["fw_nix", f"fw_{(k + 1) % nm}"])
    env = [{"id": 50, "name": "env_ok", "path": "/store/env_ok.h5", "valid": True}, {"id": 51, "name": "env_ok2", "path": "/store/x/env2.h5", "valid": True},
           {"id": 52, "name": "env_bad", "path": "/store/bad.h5", "valid": False}]
    n = nobs or rng.choice([2, 3, 4, 6])
    tgt, obs = [], []
    ids = rng.sample(range(1, 30), 2 * n)
    main2 = rng.choice([mcu[1]["id"], 0])
    for k, i in enumerate(ids):
        if rng.random() < 0.08 and k:
            i = ids[k - 1] + 2**16
            ids[k] = i
        t = {"id": i, "name": f"tgt_{i}", "mcu1": mcu[0]["id"], "mcu2": main2, "active": rng.random() < 0.93, "tbid": i % 2**16}
        if rng.random() < 0.15:
            t["mcu1"] = rng.choice(mcu)["id"]
        if rng.random() < 0.15:
            t["mcu2"] = rng.choice([0, rng.choice(mcu)["id"]])
        if rng.random() < 0.1:
            t["tbgiven"], t["tbid"] = True, rng.randrange(1, 40)
        tgt.append(t)
    free = [t["id"] for t in tgt]
    rng.shuffle(free)
    for k in range(n):
        cape = rng.choice(["on"] * 12 + ["off", "none"])
        o = {"id": 200 + k, "name": rng.choice(["sheep", "node"]) + str(k), "ip": f"10.0.0.{k + 1}", "mac": f"18:62:E4:00:00:{k:02X}", "port": f"B{k}",
             "cape": cape, "capeid": 300 + k, "active": rng.random() < 0.92, "ta": 0, "tb": 0}
        if cape != "none":
            if rng.random() < 0.85:
                o["ta"] = free.pop()
            if rng.random() < 0.35:
                o["tb"] = free.pop()
        obs.append(o)
    return {"mcu": mcu, "fw": fw, "env": env, "tgt": tgt, "obs": obs, "shared": True, "prep": rng.choice([0, 60, 300, 1000])}


def random_configs(rng, w, faults=True):
    """Mostly admissible configs with few faults."""
    on = {}
    for o in w["obs"]:
        for t in (o["ta"], o["tb"]):
            if t:
                on[t] = o
    tg = {t["id"]: t for t in w["tgt"]}
    good = [t for t, o in on.items() if o["active"] and o["cape"] == "on" and tg[t]["active"]]
    rng.shuffle(good)
    pick, used = [], set()
    for t in good:
        if on[t]["id"] not in used:
            used.add(on[t]["id"])
            pick.append(t)
    if not pick:
        pick = [rng.choice(w["tgt"])["id"]]
    pick = pick[: rng.choice([1, 2, 3, 6])]
    groups, k = [], 0
    while k < len(pick):
        s = rng.choice([1, 1, 2, 3])
        groups.append(pick[k : k + s])
        k += s
    fwm = {m["id"]: f["name"] for f in w["fw"] for m in w["mcu"] if f["mcu"] == m["id"]}
    cs = []
    nxt = 1000
    for g in groups:
        t0 = tg[g[0]]
        c = {"tids": g, "cids": [], "fw1": fwm[t0["mcu1"]], "fw2": "", "env": rng.choice(["env_ok", "env_ok2"]), "neg": ""}
        if t0["mcu2"] and rng.random() < 0.6:
            c["fw2"] = fwm[t0["mcu2"]]
        if rng.random() < 0.4:
            c["cids"] = list(range(nxt, nxt + len(g) + rng.choice([0, 0, 1, 3])))
            if rng.random() < 0.3 and not any({0, 65535} & set(o["cids"]) for o in cs):  # limits of an identifier
                c["cids"][0] = rng.choice([0, 0, 65535])
            rng.shuffle(c["cids"])
            nxt += 100
        cs.append(c)
    if faults and rng.random() < 0.55:
        c = rng.choice(cs)
        f = rng.choice(["dup", "unknown", "cshort", "ccoll", "ccoll2", "fw", "fw2", "env", "neg", "sameobs", "inactive", "cdup", "order"])
        allids = [t["id"] for t in w["tgt"]]
        if f == "dup":
            c["tids"] = c["tids"] + [rng.choice(rng.choice(cs)["tids"])]
        elif f == "unknown":
            c["tids"] = c["tids"] + [rng.choice([77, 999])]
        elif f == "cshort":
            c["cids"] = [3000 + k for k in range(max(1, len(c["tids"]) - 1))]
        elif f == "ccoll":
            c["cids"] = [rng.choice(allids) % 2**16 for _ in c["tids"]]
        elif f == "ccoll2":
            o = rng.choice(cs)
            c["cids"] = [rng.choice(o["cids"] or o["tids"]) % 2**16] + [4000 + k for k in range(len(c["tids"]))]
        elif f == "cdup":
            c["cids"] = [5000] + [5000 + k for k in range(len(c["tids"]))]
            rng.shuffle(c["cids"])
        elif f == "fw":
            c["fw1"] = rng.choice(w["fw"])["name"]
        elif f == "fw2":
            if all(tg.get(t, {"mcu2": 1})["mcu2"] for t in c["tids"]):
                c["fw2"] = rng.choice(w["fw"])["name"]
        elif f == "env":
            c["env"] = "env_bad"
        elif f == "neg":
            c["neg"] = rng.choice(["power_delay", "power_dur", "gpio_delay", "gpio_dur", "tgt_delay"])
        elif f in ("sameobs", "inactive"):
            c["tids"] = c["tids"] + [rng.choice(allids)]
        elif f == "order":
            rng.shuffle(cs)
    return cs


def abstract_cfg(w, c):
    fwm = {f["name"]: f["mcu"] for f in w["fw"]}
    ok = {e["name"]: e["valid"] for e in w["env"]}
    return {"tids": c["tids"], "cids": c["cids"], "fw1": fwm[c["fw1"]] if c["fw1"] else 0, "fw2": fwm[c["fw2"]] if c["fw2"] else 0,
            "env": ok[c["env"]], "neg": c["neg"] != ""}


def build_cfg(c):
    from shepherd_core.data_models.experiment import TargetConfig
    kw = {"target_IDs": c["tids"], "energy_env": {"name": c["env"]}, "firmware1": {"name": c["fw1"]}}
    if c["cids"]:
        kw["custom_IDs"] = c["cids"]
    if c["fw2"]:
        kw["firmware2"] = {"name": c["fw2"]}
    if c.get("vs"):
        kw["virtual_source"] = {"name": c["vs"]}
    if c.get("power") is not None:
        kw["power_tracing"] = c["power"]
    if c.get("gpio") is not None:
        kw["gpio_tracing"] = c["gpio"]
    n = c["neg"]
    if n == "power_delay":
        kw["power_tracing"] = {"delay": -1}
    elif n == "power_dur":
        kw["power_tracing"] = {"duration": -3}
    elif n == "gpio_delay":
        kw["gpio_tracing"] = {"delay": -1}
    elif n == "gpio_dur":
        kw["gpio_tracing"] = {"duration": -0.5}
    elif n == "tgt_delay":
        kw["target_delays"] = [0, -1]
    return TargetConfig(**kw)

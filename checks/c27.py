"""C27: contents, components and users."""
import copy
import hashlib

from vf.util import I, SENT

TRACE = "CatalogTrace"
ASSUMPTIONS = ["names and ids do not collide with those of the shipped database (which would complete missing parameters, see C09)",
               "characters beyond ascii in names are not judged", "refusal is any ValueError or TypeError"]
BATCH = 600


def models(tier):
    return [{"module": "CatalogMC", "cfg": "CatalogMC.cfg" if tier == "quick" else "CatalogMC_deep.cfg"}]


def generators(tier):
    def conv(g):
        return [{"ops": [{"op": "build", **g}], "v": int(hashlib.sha256(repr(sorted(g["p"].items())).encode()).hexdigest()[:6], 16)}]

    return [{"module": "CatalogMC", "cfg": "CatalogGen.cfg", "cap": 2200 if tier == "quick" else 10**6, "to_scenario": conv}]

# stand for the highest identifier (2^128 - 1) and the one above
TOP, ABOVE = 30517 * 65536 + 65535, 2_100_000_000


def scenarios(rng, tier):
    T = lambda n, c="plain": {"n": n, "c": c}  # noqa: E731
    opt = lambda v, p=0.5: [v] if rng.random() < p else []  # noqa: E731
    for k in range(250 if tier == "quick" else 4000):
        ops = []
        for _ in range(rng.randint(2, 6)):
            kind = rng.choice(["gpio", "mcu", "target", "observer", "env", "user", "user"])
            name = T(rng.choice([1, 4, 12, 31, 32] + ([0, 33, 200] if rng.random() < 0.2 else [])), rng.choice(["plain"] * 9 + ["reserved"]))
            desc = opt(T(rng.choice([1, 20, 511, 512] + ([513, 0] if rng.random() < 0.2 else [])), rng.choice(["plain", "plain", "reserved", "reserved"] + (["accent", "tab"] if rng.random() < 0.2 else []))), 0.8)
            for t in [name, *desc]:
                if t["c"] != "plain":
                    t["n"] = max(t["n"], 5)
            i = rng.choice([0, 3, 65535, 65536, 131073, 10**9] + ([TOP, ABOVE, -1] if rng.random() < 0.25 else []))
            if kind == "gpio":
                p = {"id": i, "name": T(rng.randint(5, 32)), "named": rng.random() < 0.6, "desc": desc, "dir": rng.choice(["IN", "OUT", "IO"]), "regp": opt(T(rng.randint(1, 11)), 0.7),
                     "pinp": opt(T(rng.randint(1, 10)), 0.7), "regs": opt(rng.choice([0, 1, 99, 10**6]), 0.7), "pins": opt(T(rng.randint(1, 10)), 0.7)}
            elif kind == "mcu":
                p = {"id": i, "name": name, "desc": desc, "proto": rng.choice(["SWD", "SBW", "JTAG", "UART"]), "mV": rng.randint(900, 5100), "rate": rng.choice([1, 500, 999999, 10**6, rng.randint(1, 10**6)])}
            elif kind == "target":
                p = {"id": i, "name": name, "desc": desc, "tbid": opt(rng.choice([0, 1, 77, 65535, 65536, 99999])), "mcus": rng.choice([["known"], ["other-case"], ["full"], ["known", "full"], ["full", "known"], ["unknown"]])}
            elif kind == "observer":
                p = {"id": i, "name": name, "desc": desc, "mac": rng.random() < 0.9, "ip": rng.random() < 0.9, "lat": rng.randint(-95000, 95000), "lon": rng.randint(-185000, 185000),
                     "cape": rng.random() < 0.7, "ta": rng.random() < 0.5, "tb": rng.random() < 0.5}
            elif kind == "env":
                p = {"name": name, "desc": desc, "group": rng.random() < 0.4, "all": rng.random() < 0.4, "type": rng.choice(["ivsample", "ivcurve", "isc_voc"]), "dur": rng.choice([1, 1000, 3600000, 0]),
                     "ws": rng.choice([1, 5, 10**6]), "extra": rng.random() < 0.05}
            else:
                p = {"name": name, "mail": rng.random() < 0.9, "token": opt("tk%d" % rng.randrange(5), 0.3)}
            ops.append({"op": "build", "kind": kind, "p": p})
        if k % 40 == 0:
            pws = [{"op": "password", "n": n, "id": j} for j, n in enumerate([19, 20, 100, 101, rng.randint(21, 99)])]
            ops += pws + [rng.choice(pws[1:3])]
        yield {"ops": ops, "v": rng.randrange(10**6)}


def warmup():
    import shepherd_core.data_models  # noqa: F401
    from shepherd_core.testbed_client import user_model  # noqa: F401


def text(t, v, name=False):
    base = {"plain": "Zq9_-. " if name else "Zq9_-. (a)", "reserved": "q" + '<>:;,?"*|/\\'[v % 11] + "z", "accent": "qäz", "tab": "q\tz"}[t["c"]]
    s = (base * (t["n"] // len(base) + 1))[: t["n"]]
    if t["n"] and s[-1] in " \t":
        s = s[:-1] + "q"
    return "  " + s + " " if v % 5 == 0 and t["n"] else s


def number(i, off):
    return 2**128 - 1 if i == TOP else 2**128 if i == ABOVE else i + off if i >= 0 else i


def fields(kind, p, v):
    one = lambda k, f: {k: f(p[k][0])} if p.get(k) else {}  # noqa: E731
    nm = text(p["name"], v, True)
    d = {"name": nm}
    if p.get("desc"):
        d["description"] = text(p["desc"][0], v)
    if kind == "gpio":
        stem = ("gpio" if v & 1 else "GPIO") if p["named"] else "pins"
        d["name"] = stem + "_" * (p["name"]["n"] - 4) if p["name"]["n"] >= 5 and p["name"]["c"] == "plain" and p["name"]["n"] <= 33 else nm
        d.update(id=number(p["id"], 5_000_000), direction=p["dir"])
        for a, b in (("regp", "reg_pru"), ("pinp", "pin_pru"), ("pins", "pin_sys")):
            if p[a]:
                d[b] = "r" * p[a][0]["n"]
        if p["regs"]:
            d["reg_sys"] = p["regs"][0]
    elif kind == "mcu":
        d.update(id=number(p["id"], 5_000_000), platform="arm", core="m4", prog_protocol=p["proto"], prog_voltage=p["mV"] / 1000, prog_datarate=p["rate"], fw_name_default="none")
    elif kind == "target":
        d.update(id=number(p["id"], 65536 * 100), version="v1")
        for k, m in enumerate(p["mcus"]):
            full = {"id": 5_000_000 + k, "name": f"my mcu{k}", "description": "d", "platform": "p", "core": "c", "prog_protocol": "SWD", "fw_name_default": "f"}
            d[f"mcu{k + 1}"] = {"known": "nRF52", "other-case": "MSP430fr", "unknown": "z80", "full": full}[m]
        if p["tbid"]:
            d["testbed_id"] = p["tbid"][0]
    elif kind == "observer":
        mac = ["aa:bb:cc:dd:ee:ff", "AA-BB-CC-11-22-33", "01:23:45:67:89:aB"][v % 3] if p["mac"] else ["aa:bb:cc:dd:ee", "aabbccddeeff", "aa:bb:cc:dd:ee:fg", "aa:bb:cc:dd:ee:ff:00"][v % 4]
        d.update(id=number(p["id"], 5_000_000), ip=["10.0.0.1", "::1", "fe80::1:2"][v % 3] if p["ip"] else ["10.0.0", "300.1.1.1", "host"][v % 3], mac=mac, room="r1", eth_port="p1", latitude=p["lat"] / 1000, longitude=p["lon"] / 1000)
        if p["cape"]:
            d["cape"] = {"id": 5_000_001, "name": "my cape", "version": "2.4", "description": "d"}
        for k, n in (("ta", "target_a"), ("tb", "target_b")):
            if p[k]:
                d[n] = {"id": 6_000_000 + (k == "tb"), "name": "tgt " + k, "version": "1", "description": "d", "mcu1": "nRF52"}
    elif kind == "env":
        d.update(data_path="/var/data/x.h5", data_type=p["type"], duration=p["dur"] / 1000, energy_Ws=p["ws"] / 1000, visible2group=p["group"], visible2all=p["all"])
        if p["extra"]:
            d["colour"] = "red"
    else:
        d.update(group="lab", email=["a@b.de", "first.last@uni-x.org"][v % 2] if p["mail"] else ["a_b.de", "a@", "@b.de"][v % 3])
        if p["token"]:
            d["token"] = p["token"][0]
    return d


def execute(scn, work):
    from pydantic import SecretStr
    from shepherd_core.data_models.content import EnergyEnvironment
    from shepherd_core.data_models.testbed import GPIO, MCU, Observer, Target
    from shepherd_core.testbed_client.user_model import User, hash_password

    cls = {"gpio": GPIO, "mcu": MCU, "target": Target, "observer": Observer, "env": EnergyEnvironment, "user": User}
    ev = []
    for n, o in enumerate(scn["ops"]):
        v = scn["v"] + n
        if o["op"] == "password":
            obs = {"ok": False, "hash": "", "plain": False}
            pw = (f"{o['id']}" + "s3cret-Päss wörd!" * 10)[: o["n"]]
            try:
                h = hash_password(pw)
                obs = {"ok": True, "hash": hashlib.sha256(h).hexdigest(), "plain": pw.encode() in h or len(h) < 64}
            except ValueError:
                pass
            ev.append({**o, "obs": obs})
            continue
        d = fields(o["kind"], o["p"], v)
        keep = copy.deepcopy(d)
        obs = {"ok": False, "same": False, "altered": False, "ctrl": False, "tbid": 0, "mcus": 0, "owned": False, "token": "", "long": False, "shown": False}
        m = None
        try:
            m = cls[o["kind"]].model_validate(d) if v % 3 == 0 else cls[o["kind"]](**d)
        except (ValueError, TypeError):
            pass
        obs["altered"] = d != keep
        if m is not None:
            obs["ok"] = True
            dump = m.model_dump(mode="json")
            same = True
            for k, x in keep.items():
                if k in ("token", "mcu1", "mcu2", "cape", "target_a", "target_b"):
                    if isinstance(x, dict):
                        same &= all(str(dump[k][a]) == str(b) for a, b in x.items() if a != "mcu1")
                    elif k.startswith("mcu"):
                        same &= dump[k]["name"].lower() == x.lower()
                    continue
                y = dump[k]
                same &= y == (x.strip() if isinstance(x, str) else x) or (k == "ip" and str(m.ip) == x)
            obs["same"] = bool(same)
            if o["kind"] == "gpio":
                obs["ctrl"] = bool(m.user_controllable())
            elif o["kind"] == "target":
                obs.update(tbid=I(m.testbed_id), mcus=sum(x is not None for x in (m.mcu1, m.mcu2)))
            elif o["kind"] == "env":
                obs["owned"] = bool(m.owner) and bool(m.group)
            elif o["kind"] == "user":
                tk = m.token.get_secret_value() if isinstance(m.token, SecretStr) else SENT
                obs.update(token=str(tk), long=len(str(tk)) >= 128)
                try:
                    obs["shown"] = str(tk) in str(m) + repr(m) + m.model_dump_json() + repr(m.model_dump())
                except Exception:
                    obs["same"] = False  # no textual form
        ev.append({"op": "build", "kind": o["kind"], "p": o["p"], "obs": obs})
    return {"init": {}, "ev": ev}

"""C25: the testbed database answers with what was stored."""
import hashlib

from vf.util import I, SENT

TRACE = "DatabaseTrace"
ASSUMPTIONS = ["offline database (fixtures), the web client is unfinished upstream", "files of one directory do not contradict each other (their order is not defined)"]
BATCH = 300
TYPES = ["foo", "bar", "gpio"]


def models(tier):
    return [{"module": "DatabaseMC", "cfg": "DatabaseMC.cfg" if tier == "quick" else "DatabaseMC_deep.cfg"}]


def generators(tier):
    def conv(g):
        s = int(hashlib.sha256("".join(g).encode()).hexdigest()[:8], 16)
        ops, n, h = [], 0, 0
        ops.append(store("foo", "A", 1, 0))
        for i, a in enumerate(g):
            if a == "insert":
                n += 1
                ops.append(store("foo", f"N{n}", 100 + n, i + 1))
            elif a == "reinsert":
                ops.append(store("foo", "a" if s % 2 else "A", 1 + (s >> i) % 2, i + 1))
            elif a == "open":
                h += 1
                ops.append({"op": "open", "type": "foo"})
            elif a == "taint":
                ops.append({"op": "taint", "type": "foo", "name": "a", "id": 1, "how": ["item", "name", "id"][(s >> i) % 3], "pick": s})
            elif h >= (1 if a == "next0" else 2):
                ops.append({"op": "next", "h": 1 if a == "next0" else 2})
        for k in range(h):
            ops += [{"op": "next", "h": k + 1}] * (n + 3)
        ops += [look("foo", "name", "a", 1), look("foo", "id", "a", 1), {"op": "list", "type": "foo", "client": False}]
        return [{"kind": "ops", "start": [], "ops": ops}]

    return [{"module": "DatabaseMC", "cfg": "DatabaseGen.cfg", "cap": 700 if tier == "quick" else 10**6, "to_scenario": conv}]


def store(t, name, i, tag, via="wrapper"):
    return {"op": "store", "via": via, "form": "full", "items": [{"type": t, "name": name, "id": i, "tag": tag}]}


def look(t, how, name, i, client=False):
    return {"op": "look", "type": t, "how": how, "name": name, "id": i, "client": client}


def scenarios(rng, tier):
    n = 600 if tier == "quick" else 6000
    names = ["Alpha", "alpha", "BETA", "beta", "12", "7", "Gamma delta", "x", "0"]
    ids = [0, 1, 2, 7, 12, 1001]
    for _ in range(n):
        tag = 0
        start = []
        used = set()
        for _ in range(rng.choice([0, 0, 1, 2, 3])):  # files of a directory
            f = {"sub": rng.choice(["", "", "a/b/"]), "suffix": rng.choice([".yaml", ".yaml", ".yaml", ".yml", ".old"]), "items": []}
            for _ in range(rng.randrange(1, 4)):
                t, nm, i = rng.choice(TYPES[:2]), rng.choice(names), rng.choice(ids)
                if (t, nm.lower()) in used or (t, i) in used:
                    continue
                used |= {(t, nm.lower()), (t, i)}
                tag += 1
                f["items"].append({"type": t, "name": nm, "id": i, "tag": tag})
            start.append(f)
        ops, h = [], 0
        for _ in range(rng.randrange(4, 26)):
            t = rng.choice(TYPES)
            k = rng.choice(["store", "store", "store", "look", "look", "look", "list", "open", "next", "next", "next", "taint", "types"])
            nm, i = rng.choice(names), rng.choice(ids)
            if k == "store":
                tag += 1
                via = rng.choice(["wrapper", "file", "client"])
                items = [{"type": t, "name": nm, "id": i, "tag": tag}]
                if via == "file":
                    for _ in range(rng.randrange(0, 3)):
                        tag += 1
                        items.append({"type": rng.choice(TYPES), "name": rng.choice(names), "id": rng.choice(ids), "tag": tag})
                elif via == "client":
                    items[0]["type"] = "gpio"
                ops.append({"op": "store", "via": via, "form": rng.choice(["full"] * 8 + ["noname", "noid"]) if via == "wrapper" else "full", "items": items})
            elif k == "look":
                ops.append(look(t, rng.choice(["item", "itemid", "name", "id", "both", "neither"]), nm, i, rng.random() < 0.5))
            elif k == "list":
                ops.append({"op": "list", "type": t, "client": rng.random() < 0.5})
            elif k == "open":
                h += 1
                ops.append({"op": "open", "type": t})
            elif k == "next" and h:
                ops.append({"op": "next", "h": rng.randrange(1, h + 1)})
            elif k == "taint":
                ops.append({"op": "taint", "type": t, "name": nm, "id": i, "how": rng.choice(["item", "name", "id", "client"]), "pick": rng.randrange(8)})
            elif k == "types":
                ops.append({"op": "types"})
        for k in range(h):
            if rng.random() < 0.7:
                ops += [{"op": "next", "h": k + 1}] * 7
        for nm in names[::2]:
            ops.append(look(rng.choice(TYPES), "name", nm, 1))
        yield {"kind": "ops", "start": start, "ops": ops}


    for _ in range(40 if tier == "quick" else 400):
        yield {"kind": "cache", "age": rng.choice([-1, 0, 60, 1435, 1445, 3000, rng.randrange(20_000)]), "seed": rng.randrange(10**6),
               "opens": [{"path": rng.choice(["default", "dir", "dir", "file", "missing"]), "reset": rng.random() < 0.3} for _ in range(3)]}


def warmup():
    import shepherd_core.data_models  # noqa: F401


def params(it):
    n = it["tag"]
    return {"name": it["name"], "id": it["id"], "tag": n, "nested": {"tag": n, "list": [n]}}


def tag_of(d):
    """Content of an entry, SENT if its parts contradict each other."""
    try:
        if "tag" in d:
            n = d["tag"]
            return I(n) if d["nested"] == {"tag": n, "list": [n]} and len(d) == 4 else SENT
        return I(int(d["comment"]))
    except Exception:
        return SENT


def taint(d, pick):
    if pick & 1:
        d["tag"] = -5
        d["name"] = "tainted"
    if pick & 2:
        d.setdefault("nested", {})
        if isinstance(d["nested"], dict):
            d["nested"]["tag"] = -6
    if pick & 4 and isinstance(d.get("nested"), dict):
        d["nested"].setdefault("list", []).append(9)
    d["comment"] = "-7"


def trace_items(items):
    return [{"type": x["type"], "key": str(x["name"]).lower(), "name": str(x["name"]), "id": x["id"], "tag": x["tag"]} for x in items]


def caches(scn, work):
    """Databases opened while a cache of the default one lies around."""
    import os
    import pickle
    import time
    from pathlib import Path

    import yaml
    from shepherd_core.testbed_client import fixtures as F

    def dump(p, name, i):
        p.parent.mkdir(parents=True, exist_ok=True)
        p.write_text(yaml.safe_dump([{"datatype": "foo", "parameters": params({"name": name, "id": i, "tag": i})}]))

    def content(db):
        return {t: sorted(map(str, db[t].keys())) for t in db.keys()}  # noqa: SIM118

    work = Path(work)
    dump(work / "cached" / "c.yaml", "cached", 1)
    dump(work / "own" / "a.yaml", "own a", 2)
    dump(work / "own" / "sub" / "b.yaml", "own b", 3)
    F.cache_user_path = work / "cache"
    shipped = content(F.Fixtures(reset=True))
    if scn["age"] >= 0:
        (work / "cache").mkdir(exist_ok=True)
        f = work / "cache" / "fixtures.pickle"
        f.write_bytes(pickle.dumps(F.Fixtures(work / "cached", reset=True).components))
        at = time.time() - 60 * scn["age"]
        os.utime(f, (at, at))
    ev = []
    for o in scn["opens"]:
        path = {"default": None, "dir": work / "own", "file": work / "own" / "a.yaml", "missing": work / "nowhere"}[o["path"]]
        want = shipped if path is None else {"foo": ["own a", "own b"]} if o["path"] == "dir" else {"foo": ["own a"]}
        obs = {"ok": False, "source": "-"}
        try:
            got = content(F.Fixtures(path, reset=o["reset"]))
            obs = {"ok": True, "source": "files" if got == want else "cache" if got == {"foo": ["cached"]} else "other"}
        except ValueError:
            pass
        ev.append({"op": "opendb", "p": {**o, "age": scn["age"]}, "obs": obs})
    return {"init": {"types": TYPES}, "ev": ev}


def execute(scn, work):
    if scn["kind"] == "cache":
        from shepherd_core.testbed_client import fixtures as F
        before = F.cache_user_path
        try:
            return caches(scn, work)
        finally:
            F.cache_user_path = before
    from pathlib import Path

    import yaml
    from shepherd_core.data_models.base.wrapper import Wrapper
    from shepherd_core.testbed_client.client_abc_fix import FixturesClient
    from shepherd_core.testbed_client.fixtures import Fixtures

    root = Path(work) / "db"
    root.mkdir()

    def dump(p, items, junk):
        p.parent.mkdir(parents=True, exist_ok=True)
        data = [{"datatype": x["type"].upper() if x["tag"] % 2 else x["type"], "parameters": params(x)} for x in items]
        if junk:
            data.insert(len(data) // 2, "just text")
        p.write_text("--- # comment\n" + yaml.safe_dump(data))

    ev = []
    for k, f in enumerate(scn["start"]):
        dump(root / f"{f['sub']}f{k}{f['suffix']}", f["items"], k % 2)
    db = Fixtures(root)
    ev.append({"op": "store", "entries": trace_items([x for f in scn["start"] if f["suffix"] == ".yaml" for x in f["items"]]), "bad": False, "obs": {"ok": True}})
    client = object.__new__(FixturesClient)
    client._fixtures = db
    its = []
    hows = {"item": "item", "itemid": "item"}
    for n, o in enumerate(scn["ops"]):
        t = o.get("type", "")
        T = t.upper() if n % 3 == 0 else t
        if o["op"] == "store":
            items = o["items"]
            ok = True
            try:
                if o["via"] == "file":
                    dump(Path(work) / f"x{n}.yaml", items, n % 2)
                    db.insert_file(Path(work) / f"x{n}.yaml")
                elif o["via"] == "client":
                    from shepherd_core.data_models.testbed import GPIO
                    x = items[0]
                    client.insert(GPIO(id=x["id"], name=str(x["name"]), comment=str(x["tag"]), reg_pru="r31_00", pin_pru="P8_45"))
                else:
                    p = params(items[0])
                    if o["form"] != "full":
                        p.pop("name" if o["form"] == "noname" else "id")
                    db.insert_model(Wrapper(datatype=items[0]["type"].capitalize() if n % 2 else items[0]["type"], parameters=p))
            except (ValueError, KeyError):
                ok = False
            ev.append({"op": "store", "entries": trace_items(items) if o["form"] == "full" else [], "bad": o["form"] == "noid", "obs": {"ok": ok}})
        elif o["op"] == "look":
            h, nm, i = o["how"], o["name"], o["id"]
            shown = nm.upper() if n % 2 else nm
            e = {"op": "look", "type": t, "how": hows.get(h, "query"), "key": "" if h == "itemid" else nm.lower(), "id": i, "num": h == "itemid", "hasid": h in ("id", "both"),
                 "hasname": h in ("name", "both"), "obs": {"ok": False, "tag": 0, "id": 0, "name": ""}}
            if h == "item" and nm.isdigit():
                e.update(num=True, id=int(nm))
            try:
                if h in hows:
                    d = db[T][shown if h == "item" else (str(i) if False else i)]
                elif o["client"] or h in ("both", "neither"):
                    kw = {}
                    if e["hasid"]:
                        kw["uid"] = i
                    if e["hasname"]:
                        kw["name"] = shown
                    d = client.query_item(T, **kw)
                else:
                    d = db[T].query_id(i) if h == "id" else db[T].query_name(shown)
                e["obs"] = {"ok": True, "tag": tag_of(d), "id": I(d["id"]), "name": str(d["name"])}
            except ValueError:
                pass
            ev.append(e)
        elif o["op"] == "list":
            e = {"op": "list", "type": t, "norefs": o["client"], "obs": {"ok": False, "names": [], "ids": [], "refs": []}}
            try:
                if o["client"]:
                    e["obs"] = {"ok": True, "names": [str(x) for x in client.query_names(T)], "ids": [I(x) for x in client.query_ids(T)], "refs": []}
                else:
                    f = db[T]
                    e["obs"] = {"ok": True, "names": [str(x) for x in f.keys()], "ids": [I(x) for x in f.elements_by_id], "refs": [[I(a), str(b)] for a, b in f.refs().items()]}
            except ValueError:
                pass
            ev.append(e)
        elif o["op"] == "types":
            # a type for which only nameless entries were offered may exist without entries
            ev.append({"op": "types", "obs": {"types": [str(x) for x in db.keys() if len(db[x].elements_by_name)]}})
        elif o["op"] == "open":
            try:
                its.append(iter(db[T]))
            except ValueError:
                its.append(iter([]))
            ev.append({"op": "open", "type": t, "obs": {}})
        elif o["op"] == "next":
            try:
                d = next(its[o["h"] - 1])
                ev.append({"op": "next", "h": o["h"], "obs": {"done": False, "key": str(d["name"]).lower(), "tag": tag_of(d)}})
            except StopIteration:
                ev.append({"op": "next", "h": o["h"], "obs": {"done": True, "key": "", "tag": 0}})
        else:
            try:
                d = {"item": lambda: db[t][o["name"]], "name": lambda: db[t].query_name(o["name"]), "id": lambda: db[t].query_id(o["id"]),
                     "client": lambda: client.query_item(t, name=o["name"])}[o["how"]]()
                taint(d, o["pick"])
            except ValueError:
                pass
            ev.append({"op": "taint", "obs": {}})
    return {"init": {"types": TYPES}, "ev": ev}

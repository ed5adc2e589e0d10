"""C18: models persist faithfully, stay immutable and are identified by their hash."""
import hashlib
from pathlib import Path, PurePath

from drivers import canon, models as M

TRACE = "PersistTrace"
BATCH = 150
ASSUMPTIONS = ["secrets (User) excepted: they are masked on purpose", "target file names carry no suffix besides .yaml", "two timestamps of the same instant in different zones are not compared by hash"]
NOTHING = {"ok": False, "err": "", "access": False, "cont": {}, "set": [], "gen": [], "dflt": [], "path": "", "others": False, "comment": False, "files": False, "class": "", "eq": False}
GENERATED = {"id", "created", "updated_last", "cal_date"}


def models(tier):
    return [{"module": "PersistMC", "cfg": "PersistMC.cfg"}] + ([{"module": "PersistMC", "cfg": "PersistMC_deep.cfg"}] if tier == "thorough" else [])


def generators(tier):
    cap = 450 if tier == "quick" else 10**6
    ks = M.KINDS

    def conv(g):
        n = int(hashlib.sha256("".join(g).encode()).hexdigest()[:8], 16)
        return [{"kind": "plan", "model": ks[(n + 13 * j) % len(ks)], "plan": list(g), "seed": n % 10**6 + j} for j in range(3)]

    return [{"module": "PersistMC", "cfg": "PersistGen.cfg", "cap": cap, "to_scenario": conv}]


def warmup():
    import logging
    M.classes()
    logging.getLogger("shepherd_core").setLevel(logging.CRITICAL)


def strict(x):
    from datetime import datetime
    from pydantic import BaseModel
    if isinstance(x, datetime):
        return "t" + x.isoformat()
    if isinstance(x, BaseModel):
        return {k: strict(getattr(x, k)) for k in type(x).model_fields}
    if isinstance(x, (list, tuple)):
        return [strict(v) for v in x]
    if isinstance(x, dict):
        return {str(k): strict(v) for k, v in x.items()}
    return canon.norm(x)


def dig(x):
    import json
    return hashlib.sha256(json.dumps(strict(x), sort_keys=True).encode()).hexdigest()[:10]


def flat(m):
    """Leaves, explicitly set leaves, generated leaves, leaves below unset top-level fields."""
    from pydantic import BaseModel
    cont, sets, gen, dflt = {}, [], [], []

    def walk(x, pre, given, topset):
        cont[pre + "__class__"] = type(x).__name__
        if given:
            sets.append(pre + "__class__")
        for f, info in type(x).model_fields.items():
            v = getattr(x, f)
            g = given and f in x.model_fields_set
            ts = topset if pre else f in x.model_fields_set
            if isinstance(v, BaseModel):
                walk(v, pre + f + ".", g, ts)
                continue
            if isinstance(v, (list, tuple)) and v and all(isinstance(i, BaseModel) for i in v):
                cont[pre + f] = f"len{len(v)}"
                if g:
                    sets.append(pre + f)
                for n, i in enumerate(v):
                    walk(i, f"{pre}{f}.{n}.", g, ts)
                continue
            cont[pre + f] = dig(v)
            if g:
                sets.append(pre + f)
            elif f in GENERATED and info.default_factory is not None:
                gen.append(pre + f)
            if not ts and not (f in GENERATED and info.default_factory is not None):
                dflt.append(pre + f)

    walk(m, "", True, False)
    return {"cont": cont, "set": sets, "gen": gen, "dflt": dflt}


def scalar(v):
    from datetime import date, timedelta
    from uuid import UUID
    return isinstance(v, (bool, int, float, str, timedelta, date, UUID, PurePath, bytes))


def given_of(kw):
    from ipaddress import ip_address
    return {k: dig(str(ip_address(v)) if k == "ip" else v.strip() if isinstance(v, str) else v) for k, v in kw.items() if k not in ("inherit_from", "mcu1", "mcu2", "url", "time_start") and scalar(v)}


def digest_dir(d):
    return {str(p.relative_to(d)): hashlib.sha256(p.read_bytes()).hexdigest() for p in d.rglob("*") if p.is_file()}


def restate(rng, m, kw):
    """Other ways to state the content of m."""
    from datetime import datetime, timedelta
    how = rng.choice(["dump", "all", "shuffled", "strings", "other"])
    if how == "dump":
        return m.model_dump()
    if how == "all":
        return {k: getattr(m, k) for k in type(m).model_fields}
    d = m.model_dump(exclude_unset=True)
    if how == "shuffled":
        ks = list(d)
        rng.shuffle(ks)
        return {k: d[k] for k in ks}
    if how == "strings":
        return {k: str(v) if isinstance(v, PurePath) else v.isoformat() if isinstance(v, datetime) else v.total_seconds() if isinstance(v, timedelta) else v for k, v in d.items()}
    return d


def execute(scn, work):
    import copy
    import random

    import yaml
    from pydantic import BaseModel
    work = Path(work)
    rng = random.Random(scn["seed"])
    g = M.Gen(rng)
    kind = scn["model"]
    cls = g.c[kind]
    ev, ms, kws, files = [], [], [], {}

    def create(kw, must, extra=False, given=None):
        e = {"op": "create", "kind": kind, "given": given_of(kw) if given is None else given, "must": must, "extra": extra}
        try:
            m = cls(**kw)
        except Exception as x:  # noqa: BLE001
            ev.append({**e, "obs": {**NOTHING, "err": repr(x)[:300]}})
            return None
        f = flat(m)
        acc = all(dig(m[k]) == dig(getattr(m, k)) and k in m for k in type(m).model_fields) and "nope" not in m and "to_file" not in m and set(m.keys()) == set(type(m).model_fields) and {k for k, _ in m.items()} == set(type(m).model_fields)
        ms.append(m)
        kws.append(kw)
        ev.append({**e, "obs": {**NOTHING, "ok": True, "access": bool(acc), **f}})
        return m

    for _ in range(30):
        try:
            kw = g.kw(kind)
            cls(**kw)
            break
        except Exception:  # noqa: BLE001
            continue
    else:
        return {"init": {}, "ev": []}
    create(kw, True)
    create({**ms[0].model_dump(), "unknown_x": 1}, False, extra=True, given={})

    def hsh(i):
        h = ms[i].get_hash()
        ev.append({"op": "hash", "m": i + 1, "obs": {"h": h, "cont": flat(ms[i])["cont"]}})

    hsh(0)

    def store(i, minimal, name=None):
        name = name or rng.choice(["m", "m.yaml", "sub/deep/m", "n", "sub/n.yaml"])
        want = str(Path(name).with_suffix(".yaml"))
        before = digest_dir(work)
        kw = {}
        if rng.random() < 0.4:
            kw["comment"] = rng.choice(["a comment", "yes", "# x: y", "0"])
        p = work / name
        e = {"op": "store", "m": i + 1, "minimal": minimal, "path": want}
        try:
            out = Path(ms[i].to_file(rng.choice([p, str(p)]), minimal=minimal, **kw)) if not minimal or rng.random() < 0.5 else Path(ms[i].to_file(p, **kw))
        except Exception as x:  # noqa: BLE001
            ev.append({**e, "obs": {**NOTHING, "err": repr(x)[:300]}})
            return False
        after = digest_dir(work)
        rel = str(out.relative_to(work.resolve()))
        same = {k: v for k, v in after.items() if k != rel} == {k: v for k, v in before.items() if k != rel}
        com = True
        try:
            com = yaml.safe_load(out.read_text()).get("comment") == kw.get("comment")
        except Exception:  # noqa: BLE001
            com = False
        ev.append({**e, "obs": {**NOTHING, "ok": True, "path": rel, "others": bool(same), "comment": bool(com), "cont": flat(ms[i])["cont"]}})
        files[rel] = i
        return True

    def load(rel, k):
        c = g.c[k] if k in g.c else type(k, (g.c[kind],), {"__module__": __name__})
        e = {"op": "load", "path": rel, "kind": k}
        before = digest_dir(work)
        p = work / rel
        try:
            m = c.from_file(rng.choice([p, str(p)]))
        except Exception as x:  # noqa: BLE001
            ev.append({**e, "obs": {**NOTHING, "files": digest_dir(work) == before, "err": repr(x)[:300]}})
            return
        ms.append(m)
        kws.append(None)
        ev.append({**e, "obs": {**NOTHING, "ok": True, "class": type(m).__name__, "files": digest_dir(work) == before, "eq": bool(m == ms[files[rel]]), **flat(m)}})
        hsh(len(ms) - 1)

    def damage(rel):
        p = work / rel
        how = rng.choice(["datatype", "nodatatype", "noparams", "extra", "garbage", "empty", "binary", "list", "nested", "str"])
        try:
            d = yaml.safe_load(p.read_text())
            if how == "datatype":
                d["datatype"] = rng.choice([d["datatype"].lower(), "Other", d["datatype"] + "X"])
            elif how == "nodatatype":
                d.pop("datatype")
            elif how == "noparams":
                d.pop("parameters")
            elif how in ("extra", "nested"):
                t = d["parameters"]
                subs = [v for v in t.values() if isinstance(v, dict)]
                if how == "nested" and subs and kind not in ("SystemInventory", "Inventory"):
                    t = rng.choice(subs)
                t["unknown_y"] = 1
            elif how == "list":
                d["parameters"] = [1, 2]
            elif how == "str":
                d["parameters"] = "none"
            txt = yaml.safe_dump(d)
        except Exception:  # noqa: BLE001
            how, txt = "garbage", ""
        if how == "garbage":
            txt = "parameters: {a: [1, 2\n  - : :"
        if how == "empty":
            txt = ""
        p.write_bytes(b"\x00\xff\xfe\x01" if how == "binary" else txt.encode())
        ev.append({"op": "damage", "path": rel, "how": how})

    def mutate(i):
        m = ms[i]
        how = rng.choice(["setattr", "delattr", "setitem", "newattr", "nested", "dump", "source", "copy"])
        f = rng.choice(list(type(m).model_fields))
        subs = [v for v in (getattr(m, k) for k in type(m).model_fields) if isinstance(v, BaseModel)]
        subs += [v[0] for v in (getattr(m, k) for k in type(m).model_fields) if isinstance(v, list) and v and isinstance(v[0], BaseModel)]
        if how == "nested" and not subs:
            how = "setattr"
        refused = True
        try:
            if how == "setattr":
                setattr(m, f, rng.choice([getattr(m, f), None, 1, "x"]))
            elif how == "delattr":
                delattr(m, f)
            elif how == "setitem":
                m[f] = 1
            elif how == "newattr":
                m.something_new = 1
            elif how == "nested":
                s = rng.choice(subs)
                k = rng.choice(list(type(s).model_fields))
                setattr(s, k, getattr(s, k))
            elif how == "dump":
                d = m.model_dump()
                for v in d.values():
                    if isinstance(v, list):
                        v.append(1)
                    if isinstance(v, dict):
                        v["x"] = 1
                d.clear()
            elif how == "source" and kws[i] is not None:
                for k, v in kws[i].items():
                    if isinstance(v, list) and v:
                        v.append(v[0])
                    elif isinstance(v, dict) and k != "interfaces":
                        v["name"] = "gone"
                        v["zzz"] = 3
                    elif isinstance(v, dict):
                        v.pop("lo", None)
            elif how == "copy":
                copy.deepcopy(m)
            refused = how not in ("setattr", "delattr", "setitem", "newattr", "nested")
        except Exception:  # noqa: BLE001
            refused = True
        ev.append({"op": "mutate", "m": i + 1, "how": how, "obs": {"refused": bool(refused), "cont": flat(m)["cont"]}})

    for step in scn["plan"]:
        i = rng.randrange(len(ms))
        rel = rng.choice(list(files)) if files else None
        if step in ("storeF", "storeM"):
            store(i, step == "storeM")
        elif rel is None and step in ("loadR", "loadW", "damage"):
            continue
        elif step == "loadR":
            load(rel, kind)
        elif step == "loadW":
            load(rel, rng.choice([k for k in M.KINDS if k != kind]))
            # kinds of the same fields, but of another name
            load(rel, rng.choice(["My" + kind, kind + "Y", kind[1:], kind[:-1], kind.upper()]))
        elif step == "damage":
            damage(rel)
        elif step == "mutate":
            mutate(i)
        elif step == "restate":
            try:
                d = restate(rng, ms[i], kws[i])
            except Exception:  # noqa: BLE001
                continue
            n = len(ms)
            if create(d, True, given=given_of(d) if rng.random() < 0.0 else {}) is not None:
                hsh(n)
        elif step == "vary":
            try:
                o = g.kw(kind)
                d = ms[i].model_dump()
                k = rng.choice([k for k in o if k in d] or [None])
                if k is None:
                    continue
                d[k] = o[k]
            except Exception:  # noqa: BLE001
                continue
            n = len(ms)
            if create(d, False, given=given_of({k: o[k]})) is not None:
                hsh(n)
        elif step == "hash":
            hsh(i)
    for i in range(min(len(ms), 2)):
        hsh(i)
    return {"init": {}, "ev": ev}


def scenarios(rng, tier):
    n = 26 if tier == "quick" else 150
    out = []
    steps = ["storeF", "storeM", "loadR", "loadR", "loadW", "damage", "mutate", "restate", "vary", "hash", "restate"]
    for r in range(n):
        for k in M.KINDS:
            plan = [rng.choice(["storeF", "storeM"]), "loadR", rng.choice(["restate", "vary"])] + [rng.choice(steps) for _ in range(rng.choice([1, 3, 5]))]
            out.append({"kind": "random", "model": k, "plan": plan, "seed": rng.randrange(10**9)})
    return out

"""C06: exports to csv, logs, metadata, waveforms; single calls and batches."""
import ast
import hashlib
import os
from datetime import datetime, timezone

from drivers import h5build
from vf.util import I, SENT

TRACE = "ExportTrace"
ASSUMPTIONS = [
    "time stamps are multiples of 1 ms, gains/offsets multiples of 1/1024 (exact in text form); time zone UTC",
    "textual log entries are compared by identity, in whatever textual form (repr of bytes or plain) they are written",
]
SCENARIO_LIMIT_S = 90
CSV = ["ptp", "sys_util", "pru_util", "sysutil", "timesync"]
LOG = ["sheep", "kernel", "phc2sys", "uart", "shepherd-log", "dmesg", "exceptions"]
BASE = 1_700_000_000


def models(tier):
    return [{"module": "ExportMC", "cfg": "ExportMC.cfg" if tier == "quick" else "ExportMC_deep.cfg"}]


def warmup():
    import scipy.signal  # noqa: F401
    from shepherd_data import Reader  # noqa: F401
    from shepherd_data.cli import cli  # noqa: F401


def sha(p):
    with open(p, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def listing(d):
    return {os.path.join(r, f): sha(os.path.join(r, f)) for r, _, fs in os.walk(d) for f in fs}


def text(k, style):
    s = f"msg{k}|"
    return s + ["", " plain text", "\twith\ttabs", " line\nbreak", " \u00e4\u20ac", ' "quoted" ; , \'x\'', " \\back\\n"][(k + style) % 7]


def gpio_trace(pins, msgs=()):
    """Recorded pin changes [ms, word]; pin "uart" carries the messages (1 kbaud, one bit per ms)."""
    tr = [[1, 1], [5, 2]]
    if not msgs or "uart" not in pins:
        return tr
    bit = 1 << pins.index("uart")
    a, b2 = [1 << k for k in range(3) if 1 << k != bit][:2]  # other pins
    tr = [[1, bit | a], [5, bit | b2]]
    for t0, k in msgs:
        t, prev = t0, 1
        for c in f"msg{k}|\n".encode():
            for lev in [0, *[(c >> b) & 1 for b in range(8)], 1]:
                if lev != prev:
                    tr.append([t, (bit if lev else 0) | b2])
                prev = lev
                t += 1
    return tr


def make(path, groups, pins, style=0, msgs=()):
    import h5py
    import numpy as np
    import yaml

    data = groups[0]
    n = data["n"]
    i = np.arange(n, dtype="i8")
    cv, cc = data["cols"][1], data["cols"][0]
    t = ((data["t0"] + i * data["dt"]) * 10**6 + BASE * 10**9).astype("u8")
    h5build.build(path, t, cv["base"] + i * cv["step"], cc["base"] + i * cc["step"], host="sheep",
                  cal={"voltage": (cv["gain"] / 1024, cv["off"] / 1024), "current": (cc["gain"] / 1024, cc["off"] / 1024), "time": (1e-9, 0.0)})
    with h5py.File(path, "a") as f:
        for g in groups[1:]:
            grp = f.create_group(g["name"])
            i = np.arange(g["n"], dtype="i8")
            if g["timed"]:
                tg = g.get("tg", 1)
                tt = ((g["t0"] + i * g["dt"]) * 10**6 + BASE * 10**9).astype("u8") // np.uint64(tg)
                ds = grp.create_dataset("time", data=tt, maxshape=(None,), chunks=True)
                ds.attrs["description"] = "time [s]"
                ds.attrs["unit"] = "s"
                if tg != 1 or g.get("tattr"):
                    ds.attrs["gain"] = tg * 1e-9
            for c in g["cols"]:
                v = c["base"] + i * c["step"]
                if c["kind"] == "str":
                    ds = grp.create_dataset(c["name"], (g["n"],), dtype=h5py.special_dtype(vlen=str), maxshape=(None,), chunks=True)
                    for k in range(g["n"]):
                        ds[k] = text(int(v[k]), style)
                else:
                    if c["kind"] == "pair":
                        v = np.column_stack((v, v + 1))
                    ds = grp.create_dataset(c["name"], data=v.astype(c["dtype"]), chunks=True, maxshape=(None,) * v.ndim)
                if c["kind"] == "pair":
                    ds.attrs["description"] = f"{c['name']}1 [u], {c['name']}2 [u]"
                else:
                    ds.attrs["description"] = f"{c['name']} [u]"
                ds.attrs["unit"] = "u"
                if c["attr"] & 1:
                    ds.attrs["gain"] = c["gain"] / 1024
                if c["attr"] & 2:
                    ds.attrs["offset"] = c["off"] / 1024
            if g.get("sub"):
                grp.create_group("zsub")
        if pins:
            grp = f.create_group("gpio")
            tr = gpio_trace(pins, msgs)
            grp.create_dataset("time", data=np.array([BASE * 10**9 + t * 10**6 for t, _ in tr], dtype="u8"), maxshape=(None,), chunks=True)
            ds = grp.create_dataset("value", data=np.array([w for _, w in tr], dtype="u2"), maxshape=(None,), chunks=True)
            ds.attrs["description"] = yaml.safe_dump({k: {"name": p, "comment": "-"} for k, p in enumerate(pins)})


def stamp(s):
    try:
        d = datetime.strptime(s, "%Y-%m-%d %H:%M:%S.%f").replace(tzinfo=timezone.utc)
    except ValueError:
        return SENT
    us = round((d.timestamp() - BASE) * 10**6)
    return I(us // 1000) if us % 1000 == 0 else SENT


def num(s):
    try:
        return I(float(s) * 1024)
    except ValueError:
        return SENT


def token(s):
    if s.startswith(("b'", 'b"')):
        try:
            s = ast.literal_eval(s).decode("utf-8")
        except (ValueError, SyntaxError):
            return SENT
    if s.startswith("msg"):
        k = s[3:].split("|")[0]
        if k.isdigit():
            for style in range(7):
                if text(int(k), style) == s:
                    return int(k)
        return SENT
    return num(s)


def parse_csv(path, g, sep):
    with open(path, encoding="utf-8-sig") as f:
        lines = f.read().split("\n")
    if lines[-1] != "":
        return [[SENT]], False
    sp = sep.strip()
    head = [x.strip() for x in lines[0].split(sp)]
    want = []
    for c in [{"kind": "num", "name": "time"}, *g["cols"]]:
        want += [f"{c['name']}1 [u]", f"{c['name']}2 [u]"] if c["kind"] == "pair" else [f"{c['name']} [u]"]
    if g["name"] == "data":
        want = ["system time [s] = value * gain + (offset)", "current [A] = value * gain + offset", "voltage [V] = value * gain + offset"]
    else:
        want[0] = "time [s]"
    rows = []
    for ln in lines[1:-1]:
        x = [y.strip() for y in ln.split(sp)]
        rows.append([stamp(x[0]), *[num(y) for y in x[1:]]])
    return rows, head == want


def parse_log(path, stamped):
    with open(path, encoding="utf-8-sig") as f:
        lines = f.read().split("\n")
    if lines[-1] != "":
        return [[SENT]]
    rows = []
    for ln in lines[1 - 1 : -1]:
        x = ln.split("\t")
        r = []
        if stamped:
            r.append(stamp(x[0][:-1]) if x[0].endswith(":") else SENT)
        elif x[0] != "":
            r.append(SENT)
        rows.append(r + [token(y) for y in x[1:]])
    return rows


def parse_wf(path, pin, sep):
    with open(path) as f:
        lines = f.read().split("\n")
    ok = lines[-1] == "" and [x.strip() for x in lines[0].split(sep.strip())] == ["timestamp [s]", pin]
    rows = []
    for ln in lines[1:-1]:
        x = ln.split(sep)
        try:
            rows.append([I(round((float(x[0]) - BASE) * 1000)), int(x[1])])
        except (ValueError, IndexError):
            rows.append([SENT])
    return rows, ok


def parse_uart(path):
    rows = []
    for ln in path_text(path).split("\n")[:-1]:
        a, _, b = ln.partition(":\t")
        try:
            rows.append([stamp(a), token(ast.literal_eval(b).decode().rstrip("\n"))])
        except (ValueError, SyntaxError):
            rows.append([SENT])
    return rows


def path_text(path):
    with open(path, encoding="utf-8-sig") as f:
        return f.read()


def check_meta(path, groups, ret):
    import yaml
    with open(path, encoding="utf-8-sig") as f:
        m = yaml.safe_load(f)
    if not isinstance(m, dict):
        return [], False
    nodes = [k for k, v in m.items() if isinstance(v, dict)]
    ok = m.get("mode") == "harvester" and m.get("hostname") == "sheep"
    for g in groups:
        node = m.get(g["name"], {})
        if g["name"] == "data":
            ok &= node.get("datatype") == "ivsample" and node.get("_group_info", {}).get("valid") is True
        if g["timed"]:
            ok &= "time" in node
        for c in g["cols"]:
            x = node.get(c["name"], {})
            ok &= "_dataset_info" in x
            shape = x.get("_dataset_info", {}).get("shape", "")
            ok &= shape.startswith(f"({g['n']},")
            if c["attr"] & 1:
                ok &= x.get("gain") == c["gain"] / 1024
            if c["attr"] & 2:
                ok &= x.get("offset") == c["off"] / 1024
            if c["kind"] == "num" and g["n"] > 0 and c["dtype"] != "f8":
                st = x.get("_dataset_info", {}).get("statistics", {})
                conv = c["attr"] == 3
                vals = [c["base"] + k * c["step"] for k in range(g["n"])]
                if conv:
                    vals = [(v * c["gain"] + c["off"]) / 1024 for v in vals]
                ok &= abs(st.get("min", 1e99) - min(vals)) < 1e-6 and abs(st.get("max", 1e99) - max(vals)) < 1e-6
    ok &= ret == m or ret is None
    return nodes, bool(ok)


def run_single(scn, work):
    from pathlib import Path
    from shepherd_data import Reader

    d = Path(work) / "d"
    d.mkdir()
    src = d / scn["name"]
    stem = scn["name"][:-3]
    groups = scn["groups"]
    make(src, groups, scn["pins"], scn["style"])
    for p in scn["present"]:
        (d / f"{stem}.{p}").write_text("precious")
    (d / "other.csv").write_text("other")
    ev = []
    rd = Reader(src, verbose=False)
    try:
        for o in scn["ops"]:
            before = listing(d)
            obs = {}
            if o["op"] == "csv":
                obs["ret"] = int(rd.save_csv(rd[groups[o["g"] - 1]["name"]], o["sep"], raw=o["raw"]))
            elif o["op"] == "log":
                obs["ret"] = int(rd.save_log(rd[groups[o["g"] - 1]["name"]], add_timestamp=o["stamp"]))
            elif o["op"] == "meta":
                ret = rd.save_metadata()
                obs["empty"] = ret == {}
            elif o["op"] == "wf":
                import numpy as np
                wf = np.array([[BASE * 10**9 + t * 10**6, v] for t, v in o["wf"]], dtype="u8").reshape((-1, 2))
                rd.waveform_to_csv(o["pin"], wf, o["sep"])
            elif o["op"] == "reopen":
                rd.__exit__()
                rd = Reader(src, verbose=False)
                continue
            after = listing(d)
            new = [p for p in after if p not in before]
            obs["changed"] = any(after.get(p) != h for p, h in before.items() if p != str(src))
            obs["recchanged"] = after.get(str(src)) != before[str(src)]
            obs["created"] = [os.path.basename(p)[len(stem) + 1:] if os.path.basename(p).startswith(stem + ".") else "?" + os.path.basename(p) for p in new]
            if len(new) == 1:
                if o["op"] == "csv":
                    obs["rows"], obs["header"] = parse_csv(new[0], groups[o["g"] - 1], o["sep"])
                elif o["op"] == "log":
                    obs["rows"], obs["header"] = parse_log(new[0], o["stamp"]), True
                elif o["op"] == "meta":
                    obs["nodes"], obs["faithful"] = check_meta(new[0], groups, ret)
                    obs["nodes"] = [x for x in obs["nodes"] if x != "gpio"]
                elif o["op"] == "wf":
                    obs["rows"], obs["header"] = parse_wf(new[0], o["pin"], o["sep"])
            ev.append({**{k: v for k, v in o.items() if k != "sep"}, "obs": obs})
    finally:
        rd.__exit__()
    return {"ev": ev, "init": {"groups": [spec_group(g) for g in groups], "pins": scn["pins"], "present": scn["present"], "files": []}}


def spec_group(g):
    return {"name": g["name"], "n": g["n"], "timed": g["timed"], "t0": g["t0"], "dt": g["dt"],
            "cols": [{"kind": c["kind"], "base": c["base"], "step": c["step"], "gain": c["gain"] if c["attr"] & 1 else 1024,
                      "off": c["off"] if c["attr"] & 2 else 0} for c in g["cols"]]}


def run_batch(scn, work):
    import h5py
    from click.testing import CliRunner
    from pathlib import Path
    from shepherd_data.cli import cli

    root = Path(work) / "root"
    (root / "sub" / "deep").mkdir(parents=True)
    srcs, spec = [], []
    for i, fd in enumerate(scn["files"]):
        base = {"top": root, "sub": root / "sub", "deep": root / "sub" / "deep"}[fd["where"]]
        p = base / f"f{i}.h5"
        if fd["state"] == "text":
            p.write_text("no recording")
        else:
            make(p, fd["groups"], fd["pins"], 0, fd["msgs"])
            if fd["state"] == "broken":
                with h5py.File(p, "a") as f:
                    del f["data"][["current", "voltage", "time"][i % 3]]
        for t in fd["present"]:
            (base / f"f{i}.{t}").write_text("precious")
        srcs.append(p)
        spec.append({"groups": [spec_group(g) for g in fd["groups"]], "pins": fd["pins"], "present": fd["present"],
                     "trace": gpio_trace(fd["pins"], fd["msgs"]), "msgs": fd["msgs"],
                     "usable": fd["state"] == "ok", "addressed": scn["recurse"] or fd["where"] == "top"})
    ev = []
    for o in scn["ops"]:
        before = listing(root)
        args = ["extract-" + o["what"], str(root)]
        if scn["recurse"]:
            args.append("--recurse")
        if o["sep"] != ";" and o["what"] != "uart":
            args += ["-s", o["sep"]]
        res = CliRunner().invoke(cli, args)
        if res.exception is not None and not isinstance(res.exception, (SystemExit, KeyError, ValueError, TypeError)):
            raise res.exception
        after = listing(root)
        out = []
        used = set(before)
        for fd, sp, p in zip(scn["files"], spec, srcs):
            mine = [x for x in after if x not in before and os.path.dirname(x) == str(p.parent) and os.path.basename(x).startswith(p.stem + ".")]
            used |= set(mine)
            lst = []
            for x in mine:
                t = os.path.basename(x)[len(p.stem) + 1:]
                e = {"target": t, "rows": []}
                for g in fd["groups"]:
                    if t == g["name"] + ".csv":
                        e["rows"], ok = parse_csv(x, g, o["sep"])
                        e["rows"] = e["rows"] if ok else [[SENT]]
                    elif t == g["name"] + ".log":
                        e["rows"] = parse_log(x, True)
                for k, pin in enumerate(fd["pins"]):
                    if t == f"waveform.{pin}.csv":
                        e["rows"], ok = parse_wf(x, pin, o["sep"])
                        e["rows"] = e["rows"] if ok else [[SENT]]
                if t == "uart_from_wf.log":
                    e["rows"] = parse_uart(x)
                lst.append(e)
            out.append(lst)
        ev.append({"op": "batch", "what": o["what"],
                   "obs": {"out": out, "changed": any(after.get(q) != h for q, h in before.items()), "recchanged": False,
                           "stray": len(set(after) - used), "exit": int(res.exit_code)}})
    return {"ev": ev, "init": {"groups": [], "pins": [], "present": [], "files": spec}}


def execute(scn, work):
    return {"single": run_single, "batch": run_batch}[scn["kind"]](scn, work)


def group(rng, name, log=False):
    n = rng.choice([0, 1, 2, rng.randint(1, 12), rng.randint(1, 12)])
    cols = []
    names = sorted(rng.sample(["a_val", "b_val", "level", "message", "values", "x"], rng.randint(1, 3)) if not log else rng.choice(
        [["level", "message"], ["message"], ["level", "message", "x"]]))
    for nm in names:
        kind = "str" if nm == "message" and (log or rng.random() < 0) else rng.choice(["num", "num", "pair"]) if not log else "num"
        dt = rng.choice(["u4", "u8", "i4", "f8", "u2"])
        lo = -500 if dt in ("i4", "f8") and not log else 0
        cols.append({"name": nm, "kind": kind, "dtype": dt, "base": rng.randint(lo, 2000), "step": rng.choice([0, 1, 3]),
                     "gain": rng.choice([1, 512, 1024, 3000]), "off": rng.choice([0, -100, 77, 1024]), "attr": rng.choice([0, 0, 1, 2, 3])})
    return {"name": name, "n": n, "timed": rng.random() < 0.92, "t0": rng.randint(0, 10**6), "dt": rng.choice([1, 10, 1000]), "cols": cols,
            "tg": 1 if log else rng.choice([1, 1, 1000]), "tattr": rng.random() < 0.5, "sub": rng.random() < 0.1}


def data_group(rng):
    n = rng.choice([2, 3, 10, 25])
    return {"name": "data", "n": n, "timed": True, "t0": rng.choice([0, 500]), "dt": rng.choice([1, 10]),
            "cols": [{"name": k, "kind": "num", "dtype": "u4", "base": rng.randint(0, 5000), "step": rng.choice([0, 1, 5]),
                      "gain": rng.choice([1, 3, 1024]), "off": rng.choice([0, 5, -1024]), "attr": 3} for k in ("current", "voltage")]}


def scenarios(rng, tier):
    quick = tier == "quick"
    for _ in range(350 if quick else 6000):
        csvs = rng.sample(CSV, rng.randint(1, 2))
        logs = rng.sample(LOG, rng.randint(0, 2))
        groups = [data_group(rng)] + [group(rng, n) for n in csvs] + [group(rng, n, True) for n in logs]
        ops = []
        for _ in range(rng.randint(3, 9)):
            k = rng.choice(["csv", "csv", "log", "meta", "wf", "reopen"])
            sep = rng.choice([";", ",", ";", " ; ", "|"])
            if k == "csv":
                cand = [i for i, g in enumerate(groups, 1) if not any(c["kind"] == "str" for c in g["cols"])]
                ops.append({"op": "csv", "g": rng.choice(cand), "raw": rng.random() < 0.4, "sep": sep})
            elif k == "log":
                cand = [i for i, g in enumerate(groups, 1) if g["name"] in logs]
                if cand:
                    ops.append({"op": "log", "g": rng.choice(cand), "stamp": rng.random() < 0.7})
            elif k == "meta":
                ops.append({"op": "meta"})
            elif k == "wf":
                t = 0
                wf = []
                for _ in range(rng.randint(0, 6)):
                    t += rng.randint(1, 5000)
                    wf.append([t, rng.randint(0, 1)])
                ops.append({"op": "wf", "pin": rng.choice(["p0", "uart", "tgt.x"]), "wf": wf, "sep": rng.choice([";", ","])})
            else:
                ops.append({"op": "reopen"})
        present = [x for x in [f"{csvs[0]}.csv", "yaml", "data.csv", *(f"{n}.log" for n in logs), "waveform.p0.csv"] if rng.random() < 0.12]
        yield {"kind": "single", "groups": groups, "pins": [], "ops": ops, "present": present, "name": rng.choice(["a.h5", "rec.v2.h5"]),
               "style": rng.randint(0, 6)}
    for _ in range(200 if quick else 2000):
        files = []
        for _ in range(rng.randint(1, 4)):
            csvs = rng.sample(CSV, rng.randint(0, 3))
            logs = rng.sample(LOG, rng.randint(0, 3))
            pins = ["p0", "p1", "uart"][: rng.choice([0, 1, 3, 3])]
            groups = [data_group(rng)] + [group(rng, n) for n in csvs] + [group(rng, n, True) for n in logs]
            if rng.random() < 0.3:
                groups.append(group(rng, "unrelated"))
            for g in groups[1:]:
                if g["name"] in LOG:   # as recorded: warnings are shown from level and message
                    g["timed"] = True
                    if not any(c["name"] == "level" for c in g["cols"]):
                        continue
                    if not any(c["name"] == "message" for c in g["cols"]):
                        g["cols"] = [c for c in g["cols"] if c["name"] != "level"]
            if rng.random() < 0.15:
                rng.shuffle(pins)
            msgs, t = [], 200
            for _ in range(rng.choice([0, 1, 1, 2, 4])):
                msgs.append([t, rng.randint(0, 99999)])
                t += 100 + rng.randint(0, 500)
            files.append({"groups": groups, "pins": pins, "msgs": msgs if "uart" in pins else [], "where": rng.choice(["top", "top", "sub", "deep"]),
                          "state": rng.choice(["ok"] * 5 + ["text", "broken"]),
                          "present": [x for x in ["yaml", *(f"{n}.csv" for n in csvs), *(f"{n}.log" for n in logs), "waveform.p0.csv", "uart_from_wf.log"] if rng.random() < 0.15]})
        yield {"kind": "batch", "files": files, "recurse": rng.random() < 0.5,
               "ops": [{"what": rng.choice(["meta", "meta", "gpio", "uart", "uart"]), "sep": rng.choice([";", ","])} for _ in range(rng.choice([1, 2, 2, 3]))]}

"""C17: calibration on all its routes."""
from pathlib import Path

from checks.c15 import big
TRACE = "CalibTrace"
BATCH = 500
ASSUMPTIONS = ["gains and offsets on a binary lattice (exact in double precision) wherever values are compared exactly; arbitrary gains for the round trip of readings"]
SLOTS = ["dac_V_Hrv", "dac_V_Sim", "adc_V_Sense", "adc_C_Hrv", "dac_V_A", "dac_V_B", "adc_C_A", "adc_C_B"]


def models(tier):
    return [{"module": "CalibMC", "cfg": "CalibMC.cfg", "timeout": 600}]


def warmup():
    import shepherd_core  # noqa: F401


def lat(x, e):
    """Physical value as integer of the lattice."""
    from vf.util import SENT
    y = float(x) * 2.0**e
    return int(y) if y == int(y) else SENT


def sbig(n):
    return {"neg": bool(n < 0), "b": big(abs(int(n)))}


def pair(p):
    from shepherd_core.data_models.base.calibration import CalibrationPair
    a = {"gain": p["g"] * 2.0 ** -p["e"]}
    if not (p["o"] == 0 and p.get("unset")):
        a["offset"] = p["o"] * 2.0 ** -p["e"]
    return CalibrationPair(**a)


def cape_of(c, info=None):
    from shepherd_core.data_models.base.calibration import CalibrationCape, CalibrationEmulator, CalibrationHarvester
    kw = {} if info is None else info
    return CalibrationCape(harvester=CalibrationHarvester(**{k: pair(c[k]) for k in SLOTS[:4]}), emulator=CalibrationEmulator(**{k: pair(c[k]) for k in SLOTS[4:]}), **kw)


def proj(pr, p):
    from vf.util import I
    return {"g": I(lat(pr.gain, p["e"])), "o": I(lat(pr.offset, p["e"]))}


def proj_cape(m, c):
    return {**{k: proj(getattr(m.harvester, k), c[k]) for k in SLOTS[:4]}, **{k: proj(getattr(m.emulator, k), c[k]) for k in SLOTS[4:]}}


def execute(scn, work):
    import random
    import struct

    import numpy as np
    from pydantic import ValidationError
    from shepherd_core.data_models.base import calibration as cm
    from vf.util import I
    rng = random.Random(scn["seed"])
    c = scn["cape"]
    init = {"cape": {k: {x: v for x, v in c[k].items() if x != "unset"} for k in SLOTS}}
    spec_p = lambda k: init["cape"][k]  # noqa: E731
    ev = []
    for op in scn["ops"]:
        o = op["op"]
        if o in ("to_si", "to_raw"):
            k = op["slot"]
            m = pair(c[k])
            e = c[k]["e"]
            xs = op["x"]
            src = xs if o == "to_si" else [x * 2.0**-e for x in xs]
            fn = (lambda z: m.raw_to_si(z, allow_negative=op["neg"])) if o == "to_si" else m.si_to_raw
            if o == "to_si" and op["neg"] and rng.random() < 0.5:
                fn = m.raw_to_si
            same = True
            if op["form"] == "scalar":
                ys = [fn(x) for x in src]
                same = all(np.ndim(y) == 0 for y in ys)
            elif op["form"] == "npscalar":
                ys = [fn(np.uint32(x) if o == "to_si" else np.float64(x)) for x in src]
            else:
                dt = {"u4": np.uint32, "u8": np.uint64, "i8": np.int64, "f8": np.float64}[op["form"] if o == "to_si" else "f8"]
                a = np.array(src, dtype=dt)
                b = a.copy()
                ys = fn(a)
                same = bool((a == b).all()) and len(ys) == len(src)
                ys = list(ys)
            y = [sbig(I(lat(v, e)) if abs(lat(v, e)) < 2**31 else lat(v, e)) for v in ys] if o == "to_si" else [I(v) for v in ys]
            n = {"op": o, "p": spec_p(k), "obs": {"y": y, "same": same}}
            ev.append({**n, "raw": [big(x) for x in xs], "neg": op["neg"]} if o == "to_si" else {**n, "si": xs})
        elif o == "round-trip":
            m = cm.CalibrationPair(gain=op["gain"], offset=op["offset"])
            xs = op["x"]
            if op["form"] == "array":
                ys = [int(v) for v in m.si_to_raw(m.raw_to_si(np.array(xs, dtype=np.uint32)))]
            else:
                ys = [int(m.si_to_raw(m.raw_to_si(x))) for x in xs]
            ev.append({"op": o, "raw": [big(x) for x in xs], "obs": {"y": [big(y) for y in ys]}})
        elif o == "encode":
            b = cape_of(c).to_bytestr()
            ds = struct.unpack(">16d", b) if len(b) == 128 else [0.3] * 16
            ev.append({"op": o, "obs": {"w": [I(lat(d, c[SLOTS[i // 2]]["e"])) for i, d in enumerate(ds)]}})
        elif o == "decode":
            w, cc = [], {}
            for i, k in enumerate(SLOTS):
                cc[k] = {"e": c[k]["e"], "g": op["w"][2 * i], "o": op["w"][2 * i + 1]}
                w += [op["w"][2 * i], op["w"][2 * i + 1]]
            b = struct.pack(">16d", *[x * 2.0 ** -c[SLOTS[i // 2]]["e"] for i, x in enumerate(w)])
            b = (b + bytes(16))[: op["len"]]
            try:
                r = cm.CalibrationCape.from_bytestr(b)
                obs = {"ok": True, "cape": proj_cape(r, c)}
            except (struct.error, ValueError):
                obs = {"ok": False}
            ev.append({"op": o, "w": w, "len": op["len"], "obs": obs})
        elif o == "store":
            data = cm.CapeData(serial_number=op["serial"], cal_date="2024-02-29") if op["serial"] else None
            info = {"cape": data, "host": op["host"]} if op["host"] else {"cape": data}
            m = cape_of(c, info)
            if op["via"] == "bytes":
                r = cm.CalibrationCape.from_bytestr(m.to_bytestr(), cape=data)
                eq = r.harvester == cm.CalibrationHarvester(**r.harvester.model_dump())
                ok = r.cape == data
            else:
                r = cm.CalibrationCape.from_file(m.to_file(Path(work) / "cal.yaml", minimal=op["via"] == "minimal"))
                eq = r == m
                ok = r.cape == data and r.host == m.host
            ev.append({"op": o, "via": op["via"], "obs": {"cape": proj_cape(r, c), "eq": bool(eq), "info": bool(ok)}})
        elif o == "series":
            m = cape_of(c)
            dev = getattr(m, op["dev"])
            names = {"harvester": ("adc_V_Sense", "adc_C_Hrv"), "emulator": ("dac_V_A", "adc_C_A") if op["portA"] else ("dac_V_B", "adc_C_B")}[op["dev"]]
            if op["via"] == "file":
                from shepherd_core import Reader, Writer
                from vf import env  # noqa: F401
                f = Path(work) / f"r{rng.randrange(10**9)}.h5"
                with Writer(f, cal_data=dev, mode=op["dev"], verbose=False):
                    pass
                with Reader(f, verbose=False) as rd:
                    s = rd.get_calibration_data() if rng.random() < 0.5 else rd._cal
                pairs = s
            else:
                kw = {} if op["portA"] and rng.random() < 0.5 else {"emu_port_a": op["portA"]}
                pairs = cm.CalibrationSeries.from_cal(dev, **kw)
            ev.append({"op": o, "dev": op["dev"], "portA": op["portA"], "obs": {"pairs": {"voltage": proj(pairs.voltage, c[names[0]]), "current": proj(pairs.current, c[names[1]])}}})
        elif o == "sysfs":
            try:
                r = getattr(cape_of(c), op["dev"]).export_for_sysfs()
                obs = {"ok": True, "reg": {k: sbig(v) for k, v in r.items()}}
            except ValueError:
                obs = {"ok": False}
            ev.append({"op": o, "dev": op["dev"], "obs": obs})
        elif o == "hw":
            from shepherd_core import calibration_hw_def as hw
            fn = {"adc_C": hw.adc_current_to_raw, "adc_V": hw.adc_voltage_to_raw, "dac_V": hw.dac_voltage_to_raw}[op["kind"]]
            ev.append({"op": o, "kind": op["kind"], "x": op["x"], "obs": {"y": [I(fn(x * (1e-9 if op["kind"] == "adc_C" else 1e-6))) for x in op["x"]]}})
        elif o == "hw-trip":
            from shepherd_core import calibration_hw_def as hw
            to, fro = {"adc_C": (hw.adc_current_to_raw, hw.adc_raw_to_current), "adc_V": (hw.adc_voltage_to_raw, hw.adc_raw_to_voltage), "dac_V": (hw.dac_voltage_to_raw, hw.dac_raw_to_voltage)}[op["kind"]]
            ev.append({"op": "round-trip", "raw": [big(x) for x in op["x"]], "obs": {"y": [big(int(to(fro(x)))) for x in op["x"]]}})
        elif o == "measure":
            from shepherd_core.data_models.base import cal_measurement as mm
            names = SLOTS[:4] if op["dev"] == "harvester" else SLOTS[4:]
            def meas(k):
                p = c[k]
                q = -1 if op["bad"] == "falling" and k == names[op["k"]] else 1
                pts = [{"shepherd_raw": x, "reference_si": (q * x * p["g"] + p["o"]) * 2.0 ** -p["e"]} for x in op["x"]]
                if op["bad"] == "noisy" and k == names[op["k"]]:
                    top = max(op["x"]) * p["g"] * 2.0 ** -p["e"]
                    for i, z in enumerate(pts):
                        z["reference_si"] += top * (1 if i % 2 else -1)
                return pts
            cls = mm.CalMeasurementHarvester if op["dev"] == "harvester" else mm.CalMeasurementEmulator
            try:
                mo = cls(**{k: meas(k) for k in names})
                if op["cape"]:
                    full = mm.CalMeasurementCape(**{op["dev"]: mo}).to_cal()
                    r = getattr(full, op["dev"])
                    other = "emulator" if op["dev"] == "harvester" else "harvester"
                    ok = getattr(full, other) == getattr(cm.CalibrationCape(), other)
                else:
                    r, ok = mo.to_cal(), True
                rd = lambda v, k: I(round(v * 2.0 ** c[k]["e"]))  # noqa: E731
                obs = {"ok": True, "cape": {k: {"g": rd(getattr(r, k).gain, k) if ok else -1, "o": rd(getattr(r, k).offset, k)} for k in names}}
            except (ValidationError, ValueError):
                obs = {"ok": False}
            ev.append({"op": o, "dev": op["dev"], "bad": op["bad"] != "", "want": {k: {"g": c[k]["g"], "o": c[k]["o"]} for k in names}, "obs": obs})
    return {"ev": ev, "init": init}


def raws(rng, n):
    return [rng.choice([0, 1, 2**16 - 1, 2**18 - 1, 2**32 - 1, rng.randrange(2**18), rng.randrange(2**32)]) for _ in range(n)]


def scenarios(rng, tier):
    for _ in range(450 if tier == "quick" else 6000):
        wide = rng.random() < 0.3
        cape = {}
        for k in SLOTS:
            e = 40 if wide and rng.random() < 0.3 else 20
            g = rng.choice([1, rng.randrange(1, 5000), rng.randrange(1, 5000), *([17592, 17593, 17594, 2**20, 2**28] if wide else []), *([rng.randrange(200, 400)] if e == 40 else [])])
            cape[k] = {"e": e, "g": g, "o": rng.choice([0, 0, 1, -1, -rng.randrange(10**6), rng.randrange(10**6), *([2251799, 2251800, -2251799, -2251801, 2**30] if wide else [])]), "unset": rng.random() < 0.5}
        ops = []
        for _ in range(8):
            o = rng.choice(["to_si", "to_si", "to_raw", "to_raw", "round-trip", "encode", "decode", "store", "store", "series", "series", "sysfs", "sysfs", "hw", "hw-trip", "measure"])
            k = rng.choice(SLOTS)
            p = cape[k]
            n = rng.choice([1, 3, 20])
            if o == "to_si":
                form = rng.choice(["scalar", "npscalar", "u4", "u8", "i8", "f8"])
                x = raws(rng, n)
                if p["g"] > 2**19:
                    x = [v % 2**18 for v in x]
                ops.append({"op": o, "slot": k, "x": x, "form": form, "neg": rng.random() < 0.6})
            elif o == "to_raw":
                lo, hi = p["o"] - 3 * p["g"], p["o"] + 50_000 * min(p["g"], 20_000)
                x = [rng.choice([0, p["o"], p["o"] + p["g"] // 2, p["o"] + p["g"], p["o"] + 3 * p["g"] // 2, p["o"] - 1, p["o"] - p["g"], rng.randrange(lo, hi + 1)]) for _ in range(n)]
                ops.append({"op": o, "slot": k, "x": [max(-(2**30), min(2**30, v)) for v in x], "form": rng.choice(["scalar", "npscalar", "array"]), "neg": True})
            elif o == "round-trip":
                g = 10.0 ** rng.uniform(-12, 1)
                ops.append({"op": o, "gain": g, "offset": rng.choice([0.0, g * rng.uniform(-1e6, 1e6), -g * 5.3]), "x": raws(rng, n), "form": rng.choice(["array", "scalar"])})
            elif o == "decode":
                ops.append({"op": o, "w": [v for _ in SLOTS for v in (rng.randrange(1, 10**6), rng.randrange(-(10**6), 10**6))], "len": rng.choice([128, 128, 128, 120, 136, 0, 127, 64])})
            elif o == "store":
                ops.append({"op": o, "via": rng.choice(["bytes", "full", "minimal"]), "serial": rng.choice(["", "1270", "12H0099"]), "host": rng.choice(["", "sheep7"])})
            elif o == "series":
                via = rng.choice(["file", "model", "model"])
                dev = rng.choice(["harvester", "emulator"])
                ops.append({"op": o, "via": via, "dev": dev, "portA": True if via == "file" or dev == "harvester" else rng.random() < 0.5})
            elif o == "sysfs":
                ops.append({"op": o, "dev": rng.choice(["harvester", "emulator"])})
            elif o == "hw":
                kd = rng.choice(["adc_C", "adc_V", "dac_V"])
                ops.append({"op": o, "kind": kd, "x": [rng.choice([0, -5, -1000, 10**9, 10_000_000, rng.randrange(6_000_000), rng.randrange(60_000_000), rng.randrange(1000)]) for _ in range(20)]})
            elif o == "hw-trip":
                kd = rng.choice(["adc_C", "adc_V", "dac_V"])
                top = 65535 if kd == "dac_V" else 262143
                ops.append({"op": o, "kind": kd, "x": [rng.choice([0, top, rng.randrange(top + 1)]) for _ in range(100)]})
            elif o == "measure":
                x = sorted(rng.sample(range(1, 65536), rng.choice([2, 3, 10])))
                bad = rng.choice(["", "", "", "noisy", "falling"])
                if bad == "noisy" and len(x) < 4:
                    bad = "falling"
                ops.append({"op": o, "dev": rng.choice(["harvester", "emulator"]), "x": x, "bad": bad, "k": rng.randrange(4), "cape": rng.random() < 0.5})
            else:
                ops.append({"op": o})
        yield {"kind": "cal", "cape": cape, "ops": ops, "seed": rng.randrange(10**9)}

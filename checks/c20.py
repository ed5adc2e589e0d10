"""C20: simulating a file equals stepping the model through it."""
import hashlib
import math
from pathlib import Path

from checks.c15 import NAMES, big
from drivers import h5build

TRACE = "SimulationTrace"
BATCH = 60
CORRUPT_N = 12
ASSUMPTIONS = ["the model that is stepped is the one C14 / C15 decide", "calibration of the input in whole uV / nA", "timestamps of recordings count nanoseconds",
               "recordings are processed in complete blocks, a trailing incomplete block is not part of the simulation (and reported by the file-validation)"]
LIM = 2**31 - 2
HRVS = ["cv24", "cv20", "mppt_voc", "mppt_po", "mppt_opt", "cv33", "cv10"]


def models(tier):
    return [{"module": "SimulationMC", "cfg": "SimulationMC.cfg"}] + ([{"module": "SimulationMC", "cfg": "SimulationMC_deep.cfg"}] if tier == "thorough" else [])


def generators(tier):
    def conv(g):
        s = int(hashlib.sha256(repr(sorted(g.items())).encode()).hexdigest()[:8], 16) % 10**6
        return [{"kind": g["kind"], "blk": g["blk"], "n": g["n"], "mon": g["mon"], "target": g["target"], "seed": s + j} for j in range(1 if tier == "quick" else 6)]

    return [{"module": "SimulationMC", "cfg": "SimulationGen.cfg", "cap": 10**6, "to_scenario": conv}]


def warmup():
    import logging
    import shepherd_core.vsource  # noqa: F401
    import matplotlib.pyplot  # noqa: F401
    logging.getLogger("matplotlib").setLevel(logging.CRITICAL)


SCALE_V = 2 * 1.380649e-23 * 373.15 / 1.602177e-19  # ideality 2, 100 degC


def make_target(kind, rng):
    from shepherd_core.vsource import target_model as T
    if kind == "res":
        r, c = rng.choice([5, 100, 1000, 4700, 1_000_000]), rng.random() < 0.5
        return T.ResistiveTarget(R_Ohm=r, controlled=c), {"kind": kind, "r": r, "ctrl": c}
    if kind == "diode":
        r, c, vf, i = rng.choice([100, 330, 47, 1000, 5]), rng.random() < 0.5, rng.choice([2.0, 1.5, 0.7, 3.0, 0.3]), rng.choice([20e-3, 1e-3, 5e-3])
        return T.DiodeTarget(V_forward_V=vf, I_forward_A=i, R_Ohm=r, controlled=c), {"kind": kind, "r": r, "ctrl": c, "anchor": {"v": round(1e6 * (vf + i * r)), "i": round(1e9 * i), "vf": round(1e6 * vf), "s": int(1e9 * i / math.expm1(vf / SCALE_V))}}
    if kind == "cur":
        a, s = rng.choice([1, 350, 45_000, 1_888_000, 20_000_000]), rng.choice([0, 45, 350])
        return T.ConstantCurrentTarget(I_active_A=a * 1e-9, I_sleep_A=s * 1e-9), {"kind": kind, "act": a, "sleep": s}
    a, s = rng.choice([1000, 100_000, 9_000_000]), rng.choice([0, 2910, 100])
    return T.ConstantPowerTarget(P_active_W=a * 1e-9, P_sleep_W=s * 1e-9), {"kind": kind, "act": a, "sleep": s}


def probe_block(path):
    """Samples per block the reader really uses."""
    from shepherd_core import Reader
    with Reader(path, verbose=False) as r:
        for t, _v, _i in r.read_buffers(is_raw=True):
            return len(t)
    return 0


def execute(scn, work):
    import random

    import h5py
    import numpy as np
    from shepherd_core import CalibrationEmulator, CalibrationHarvester, Reader
    from shepherd_core.data_models import EnergyDType, VirtualHarvesterConfig, VirtualSourceConfig
    from shepherd_core.data_models.content.virtual_harvester import HarvesterPRUConfig
    from shepherd_core.vsource import VirtualHarvesterModel, VirtualSourceModel, simulate_harvester, simulate_source
    from vf.util import I as J

    def I(x):  # noqa: E743,N802
        return J(round(float(x)) if x == x else x)

    work = Path(work)
    rng = random.Random(scn["seed"])
    if scn["kind"] == "target":
        t, d = make_target(scn["target"], rng)
        vs = sorted({0, *(rng.randrange(10_000, 5_000_001) for _ in range(12)), 5_000_000, 3_000_000, 10_000, 500_000, d.get("anchor", {"v": 1_000_000})["v"]} | ({1, 2, 77} if d["kind"] != "pow" else set()))
        ys, ok = [], True
        for v in vs:
            for pg in (False, True):
                try:
                    ys.append({"v": v, "pg": pg, "i": I(t.step(v, pwr_good=pg))})
                except Exception:  # noqa: BLE001
                    ok = False
        return {"init": {"cfg": {"target": d}}, "ev": [{"op": "target", "obs": {"ok": ok, "ys": ys}}]}

    n, dt = scn["n"], rng.choice([10_000, 10_000, 10_000, 5_000, 20_000, 33_333, 1_000_000, 4_000])
    if n < 2:
        dt = 10_000
    t0 = rng.choice([0, 10**9, 1_700_000_000 * 10**9])
    gv, ov, gi, oi = rng.choice([1, 3, 10]), rng.choice([0, 0, 700, -500]), rng.choice([1, 5]), rng.choice([0, 0, 300, -40])
    dtype = rng.choice(["ivsample", "ivcurve", "ivcurve"])
    raw = lambda x, g, o: max(0, -((o - x) // g))  # noqa: E731 - values stay >= 0
    data = []
    w, cfg, step = 0, None, None
    if dtype == "ivcurve":
        w = rng.choice([8, 16, 40])
        s_uv = rng.choice([5_000_000 // (w - 1), 120_000, 60_000])
        s_raw = s_uv // gv
        up = rng.random() < 0.5
        while len(data) < n:
            voc, isc = rng.randrange(1_000_000, 5_000_000), rng.randrange(1, scn.get("itop", 5_000_000))
            ks = range(w) if up else range(w - 1, -1, -1)
            for k in ks:
                v = k * s_raw + raw(0, gv, ov)
                uv = v * gv + ov
                data.append((v, raw(int(isc * (1 - (max(uv, 0) / voc) ** 4)) if uv < voc else 0, gi, oi)))
        if rng.random() < 0.4:
            mv = rng.choice([s_uv / 1000, 100.0, 20.0])
            cfg = f"virtual_harvester:\n  voltage_step_mV: {mv}\n"
            step = mv * 1e-3
        else:
            a = [x[0] for x in data[:n]][:2000]
            ds = [q - p for p, q in zip(a, a[1:]) if q > p]
            step = min(ds) * gv * 1e-6 if ds else None
    else:
        v = i = 0
        while len(data) < n:
            if rng.random() < 0.15 or not data:
                v, i = rng.choice([0, rng.randrange(100_000, 5_000_000), 3_000_000]), rng.choice([0, rng.randrange(50_000_000), rng.randrange(100_000)])
            data.append((raw(v, gv, ov), raw(i, gi, oi)))
        a = [x[0] for x in data[:n]][:2000]
        ds = [q - p for p, q in zip(a, a[1:]) if q > p]
        step = min(ds) * gv * 1e-6 if ds else None
    data = data[:n]
    inp = work / "in.h5"
    h5build.build(inp, [t0 + k * dt for k in range(n)], [x[0] for x in data], [x[1] for x in data], mode="harvester", dtype=dtype, window=w, config=cfg, host="sheep",
                  cal={"voltage": (gv * 1e-6, (ov + 0.5) * 1e-6), "current": (gi * 1e-9, (oi + 0.5) * 1e-9)})
    sha = hashlib.sha256(inp.read_bytes()).hexdigest()
    target, tdesc = make_target(scn["target"], rng)
    kw = {"dtype_in": EnergyDType[dtype], "window_size": w, "voltage_step_V": step}
    src = scn["kind"] == "src"
    if src:
        name = rng.choice(NAMES)
        sc = {"name": name, "V_intermediate_init_mV": rng.choice([0, 500, 3000, 3600, 4100])}
        if name != "direct" and rng.random() < 0.8:
            sc["C_intermediate_uF"] = rng.choice([0.01, 0.1, 1, 10])
        if rng.random() < 0.6:
            sc["interval_check_thresholds_ms"] = rng.choice([0, 0.01, 0.05])
        if rng.random() < 0.3:
            sc["interval_startup_delay_drain_ms"] = rng.choice([0.05, 0.3])
        if dtype == "ivcurve":
            hn = rng.choice(HRVS)
            sc["harvester"] = {"name": hn}
            if name.startswith("diode") and rng.random() < 0.5:
                sc["harvester"] = {"name": "cv24"}
                sc["enable_feedback_to_hrv"] = True
    elif rng.random() < 0.1:
        sc = {"name": rng.choice(["neutral", "direct"])}
    else:
        sc = {"name": rng.choice(HRVS)}
    try:
        conf = VirtualSourceConfig(**sc) if src else VirtualHarvesterConfig(**sc)
        model = VirtualSourceModel(conf, CalibrationEmulator(), log_intermediate=False, **kw) if src else VirtualHarvesterModel(HarvesterPRUConfig.from_vhrv(conf, for_emu=True, **kw))
    except Exception:  # noqa: BLE001 - refused configurations are not simulated
        return {"init": {}, "ev": []}
    default = Reader.samples_per_buffer
    blk = scn["blk"]
    file = rng.random() < 0.85 or scn["mon"]
    outp = work / "out.h5"
    ret = ret2 = 0.0
    ok, err = True, ""
    patched = blk != default and n >= blk
    try:
        if patched:
            Reader.samples_per_buffer = blk
            if probe_block(inp) != blk:
                return {"init": {}, "ev": []}
        elif n < blk:
            blk = default
        args = (conf, target) if src else (conf,)
        opt = {"monitor_internals": True} if src and scn["mon"] else {}
        try:
            if file and rng.random() < 0.3:
                ret2 = (simulate_source if src else simulate_harvester)(*args, path_input=inp, path_output=outp)
            else:
                ret2 = (simulate_source if src else simulate_harvester)(*args, path_input=inp)
            ret = (simulate_source if src else simulate_harvester)(*args, path_input=inp, path_output=outp if file else None, **opt)
        except Exception as x:  # noqa: BLE001
            ok, err = False, repr(x)[:200]
    finally:
        Reader.samples_per_buffer = default
    same = hashlib.sha256(inp.read_bytes()).hexdigest() == sha
    out, nout, kind = None, 0, ""
    og = {"lov": 0, "lsbv": 1, "loi": 0, "lsbi": 1}
    if file and ok:
        with h5py.File(outp, "r") as f:
            d = f["data"]
            nout, kind = len(d["voltage"]), str(f.attrs["mode"])
            if not (len(d["time"]) == len(d["current"]) == nout):
                nout = -1
            out = (d["time"][:] * d["time"].attrs["gain"] * 1e9 + 1e9 * d["time"].attrs["offset"] if d["time"].attrs["gain"] != 1e-9 else d["time"][:],
                   1e6 * (d["voltage"][:] * d["voltage"].attrs["gain"] + d["voltage"].attrs["offset"]), 1e9 * (d["current"][:] * d["current"].attrs["gain"] + d["current"].attrs["offset"]))
            # reference for resolution: calibration of the emulated hardware
            cal = CalibrationEmulator() if src else CalibrationHarvester()
            cv, ci = (cal.dac_V_A, cal.adc_C_A) if src else (cal.adc_V_Sense, cal.adc_C_Hrv)
            og = {"lov": I(1e6 * cv.offset), "lsbv": int(1e6 * cv.gain / 2) + 2, "loi": I(1e9 * ci.offset), "lsbi": int(1e9 * ci.gain / 2) + 2}
    ev, rows = [], []
    load, total = 0.0, (n // blk) * blk
    if ok:
        for k in range(max(total, nout)):
            if k < total:
                v, i = data[k][0] * gv + ov, data[k][1] * gi + oi
                q = {"t": I(k * dt), "rv": data[k][0], "ri": data[k][1], "qv": v, "qi": i, "ql": I(load)}
                if src:
                    av = model.iterate_sampling(V_inp_uV=v, I_inp_nA=i, I_out_nA=load)
                    pg = bool(model.cnv.get_power_good())
                    load = ai = target.step(int(av), pwr_good=pg)
                else:
                    av, ai = model.ivcurve_sample(_voltage_uV=v, _current_nA=i)
                    pg = False
                if ai > 2 * 10**9 or av > 2 * 10**9:
                    return {"init": {}, "ev": []}
                o = [I(int(out[0][k]) - t0), I(out[1][k]), I(out[2][k])] if out is not None and k < nout else []
                rows.append({**q, "av": I(av), "ai": I(ai), "pg": pg, "out": o})
                if len(rows) == 100:
                    ev.append({"op": "rows", "obs": {"rows": rows}})
                    rows = []
        if rows:
            ev.append({"op": "rows", "obs": {"rows": rows}})
    ev.append({"op": "end", "file": file, "obs": {"ok": ok, "err": err, "nout": nout, "kind": kind, "e": big(round(ret * 1e15 / (dt * 1e-9))), "e2": big(round(ret2 * 1e15 / (dt * 1e-9))), "same": same}})
    return {"init": {"cfg": {"kind": scn["kind"], "n": n, "blk": blk, "gv": gv, "ov": ov, "gi": gi, "oi": oi, "out": og, "target": tdesc}}, "ev": ev}


def scenarios(rng, tier):
    q = tier == "quick"
    out = [{"kind": "target", "target": k, "seed": rng.randrange(10**9)} for k in ("res", "diode", "cur", "pow") for _ in range(15 if q else 200)]
    for _ in range(220 if q else 2500):
        blk = rng.choice([5, 16, 50, 100])
        out.append({"kind": rng.choice(["src", "src", "hrv"]), "blk": blk, "n": rng.choice([blk, 2 * blk, 3 * blk + rng.randrange(blk), rng.randrange(1, 400)]), "mon": rng.random() < 0.1,
                    "target": rng.choice(["res", "diode", "cur", "pow"]), "seed": rng.randrange(10**9)})
    for _ in range(4 if q else 16):
        out.append({"kind": rng.choice(["src", "hrv"]), "blk": 10_000, "n": rng.choice([10_000, 20_000, 20_007, 9_999]), "mon": rng.random() < 0.3, "target": "res", "seed": rng.randrange(10**9)})
    return out

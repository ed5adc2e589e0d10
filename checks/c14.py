"""C14: virtual harvester algorithms on sample streams."""
TRACE = "HarvesterTrace"
BATCH = 600
ASSUMPTIONS = ["samples are integers (uV, nA) as supplied by the virtual source", "configurations are register sets as they reach the harvester"]
ALG = {"pass": 2**4, "cv": 2**8, "voc": 2**12, "po": 2**13, "opt": 2**14}


def models(tier):
    return [{"module": "HarvesterMC", "cfg": "HarvesterMC.cfg" if tier == "quick" else "HarvesterMC_deep.cfg", "timeout": 850},
            {"module": "HarvesterMC", "cfg": "HarvesterPer.cfg" if tier == "quick" else "HarvesterPer_deep.cfg", "timeout": 850}]


def warmup():
    from shepherd_core.vsource import VirtualHarvesterModel  # noqa: F401


def pru(c):
    from shepherd_core.data_models.content.virtual_harvester import HarvesterPRUConfig
    return HarvesterPRUConfig(
        algorithm=c["anum"], hrv_mode=1 + 2 * c["rising"] + 4 * c["linear"], window_size=c["window"], voltage_uV=c["vset"], voltage_min_uV=c["vmin"],
        voltage_max_uV=c["vmax"], voltage_step_uV=c["step"], current_limit_nA=c["climit"], setpoint_n8=c["setpoint"], interval_n=c["interval"],
        duration_n=c["duration"], wait_cycles_n=c["wait"])


def stream(s, rng):
    """Sample stream: repeated curves that drift, or noise."""
    n, big = s["n"], s["vtop"]
    kind = s["stream"]
    out = []
    w = max(2, s["w"])
    voc, isc, k = rng.uniform(0.3, 1.0) * big, rng.uniform(0.2, 1.0) * s["itop"], 0
    while len(out) < n:
        if kind == "noise":
            out.append([rng.randrange(big + 1), rng.randrange(s["itop"] + 1)])
            continue
        if kind == "steps":
            v = rng.randrange(big + 1)
            i = rng.choice([0, 0, rng.randrange(s["itop"] + 1)])
            out += [[v, i]] * rng.randrange(1, w + 2)
            continue
        if rng.random() < 0.3:
            voc = min(big, max(1, voc * rng.uniform(0.7, 1.3)))
            isc = min(s["itop"], max(0, isc * rng.uniform(0.5, 1.6)))
        if rng.random() < 0.05:
            isc = 0
        seq = []
        for j in range(w):
            v = big * j / (w - 1)
            i = isc * max(0.0, 1 - (v / voc) ** s["pow"])
            if kind == "jitter":
                v += rng.uniform(-0.4, 0.4) * big / w
                i += rng.uniform(-0.05, 0.05) * s["itop"]
            seq.append([max(0, int(v)), max(0, int(i))])
        if not s["up"]:
            seq.reverse()
        if kind == "triangle" and k % 2:
            seq.reverse()
        out += seq
        k += 1
    return out[:n]


def execute(scn, work):
    import random
    from shepherd_core.vsource import VirtualHarvesterModel
    rng = random.Random(scn["seed"])
    ms = [VirtualHarvesterModel(pru(c)) for c in scn["cfgs"]]
    data = [stream(s, rng) for s in scn["streams"]]
    pos = [0] * len(ms)
    ev = []
    while any(pos[m] < len(data[m]) for m in range(len(ms))):
        m = rng.choice([m for m in range(len(ms)) if pos[m] < len(data[m])])
        x = data[m][pos[m] : pos[m] + rng.randrange(1, 60)]
        pos[m] += len(x)
        y, z = [], []
        for v, i in x:
            o = ms[m].ivcurve_sample(v, i)
            y.append([int(o[0]), int(o[1])])
            if o[0] != int(o[0]) or o[1] != int(o[1]):
                y[-1] = [-999, -999]
            if hasattr(ms[m], "voltage_set_uV"):
                z.append(int(ms[m].voltage_set_uV))
        ev.append({"op": "samples", "m": m + 1, "x": x, "obs": {"y": y, "z": z if len(z) == len(x) else []}})
    return {"ev": ev, "init": {"models": [{k: v for k, v in c.items() if k not in ("anum", "wait")} for c in scn["cfgs"]]}}


def rand_cfg(rng, vtop, itop, w):
    alg = rng.choice(["cv", "cv", "voc", "voc", "po", "po", "opt", "opt", "pass"])
    vmin, vmax = sorted((rng.choice([0, rng.randrange(vtop + 1)]), rng.choice([vtop, rng.randrange(vtop + 1)])))
    if rng.random() < 0.15:
        w = rng.choice([0, 1, 2, 3])
    iv = rng.choice([1, 2, 3, w, w + 1, 2 * w, 2 * w + 1, 3 * w, rng.randrange(1, 8 * w + 2)])
    iv = max(1, iv)
    step = max(1, int(rng.choice([vtop / max(1, w - 1), vtop / 50, vtop / 10, vtop / 200])))
    return {"alg": alg, "anum": ALG[alg] + rng.choice([0, 0, 0, 1 if alg != "pass" else 0]), "window": w, "vset": rng.randrange(vmin, vmax + 1), "vmin": vmin, "vmax": vmax, "step": step,
            "climit": rng.choice([1, itop // 100 + 1, itop // 10 + 1, itop]), "setpoint": rng.choice([0, 128, 179, 192, 195, 255, rng.randrange(256)]), "interval": iv,
            "duration": rng.choice([1, 2, min(iv, w + 1), rng.randrange(1, iv + 1)]), "rising": rng.random() < 0.5, "linear": rng.random() < 0.5, "wait": rng.choice([0, 1, 3])}


def scenarios(rng, tier):
    for _ in range(900 if tier == "quick" else 9000):
        n = rng.choice([1, 1, 2])
        cfgs, streams = [], []
        for _m in range(n):
            vtop = rng.choice([20_000, 2_000_000, 5_000_000])
            itop = rng.choice([100, 30_000, 5_000_000])
            w = rng.choice([2, 3, 5, 8, 16, 16, 40])
            cfgs.append(rand_cfg(rng, vtop, itop, w))
            streams.append({"n": rng.choice([30, 200, 500]), "vtop": vtop, "itop": itop, "w": rng.choice([w, w, w, w + 1, max(2, w // 2)]), "pow": rng.choice([1, 3, 12]),
                            "up": rng.random() < 0.6, "stream": rng.choice(["curve", "curve", "jitter", "triangle", "noise", "steps"])})
        yield {"kind": "streams", "cfgs": cfgs, "streams": streams, "seed": rng.randrange(10**9)}

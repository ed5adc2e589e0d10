"""C15: virtual converter and the whole virtual source."""
TRACE = "ConverterTrace"
BATCH = 200
ASSUMPTIONS = ["calibrations with whole uV / nA per step (conversions become exact up to float rounding)",
               "registers below 2^31 (larger limits are cut to that in the specification, inputs stay below)"]
LIM = 2**31 - 2


def models(tier):
    return [{"module": "ConverterMC", "cfg": "ConverterMC.cfg" if tier == "quick" else "ConverterMC_deep.cfg", "timeout": 850}]


def warmup():
    import shepherd_core.vsource  # noqa: F401


def big(x):
    """Natural number as digits in base 4096."""
    from vf.util import SENT
    x = int(x)
    if x < 0:
        return [SENT] * 8
    out = []
    for _ in range(7):
        out.append(x % 4096)
        x //= 4096
    return [*out, min(x, LIM)]


def calib(k):
    from shepherd_core import CalibrationEmulator
    from shepherd_core.data_models import CalibrationPair
    return CalibrationEmulator(
        dac_V_A=CalibrationPair(gain=k["dacg"] * 1e-6, offset=k["daco"] * 1e-6), dac_V_B=CalibrationPair(gain=3.3e-4, offset=0.1),
        adc_C_A=CalibrationPair(gain=k["adcg"] * 1e-9, offset=k["adco"] * 1e-9), adc_C_B=CalibrationPair(gain=7.7e-7, offset=0.02))


def regs(p, cal, hrv=None):
    """Registers as seen by the specification."""
    m = int(p.converter_mode)
    c = {"storage": m & 1 > 0, "boost": m & 2 > 0, "buck": m & 4 > 0, "logmid": m & 8 > 0, "fb": m & 16 > 0,
         "drain": p.interval_startup_delay_drain_n, "vinmax": p.V_input_max_uV, "iinmax": p.I_input_max_nA, "vdrop": p.V_input_drop_uV,
         "r22": big(p.R_input_kOhm_n22), "k28": big(p.Constant_us_per_nF_n28), "vinit": p.V_intermediate_init_uV, "leak": p.I_intermediate_leak_nA,
         "ven": p.V_enable_output_threshold_uV, "vdis": p.V_disable_output_threshold_uV, "dven": p.dV_enable_output_uV, "ncheck": p.interval_check_thresholds_n,
         "vpgen": p.V_pwr_good_enable_threshold_uV, "vpgdis": p.V_pwr_good_disable_threshold_uV, "immediate": p.immediate_pwr_good_signal > 0,
         "vlog": p.V_output_log_gpio_threshold_uV, "vboost": p.V_input_boost_threshold_uV, "vmax": p.V_intermediate_max_uV, "vout": p.V_output_uV, "bdrop": p.V_buck_drop_uV,
         "lutv": p.LUT_input_V_min_log2_uV, "luti": p.LUT_input_I_min_log2_nA, "luto": p.LUT_output_I_min_log2_nA,
         "lutin": p.LUT_inp_efficiency_n8, "lutout": p.LUT_out_inv_efficiency_n4}
    c = {k: min(v, LIM) if isinstance(v, int) and not isinstance(v, bool) else v for k, v in c.items()}
    for k in ("ven", "vdis", "vpgen", "vpgdis", "vlog"):
        c[k] = min(c[k], 2**30 - 1)
    return {**c, **cal, "h": hrv or {"alg": "none"}}


def rnd_src(c, rng):
    """Random, related voltage levels."""
    vout = rng.choice([1_800_000, 2_500_000, 3_000_000, rng.randrange(1, 4_500_000)])
    levels = [0, 1, vout, vout + 50_000, 4_500_000]
    lv = lambda: rng.choice([*levels, rng.randrange(5_000_001)])  # noqa: E731
    return vout, lv


def reg_cfg(rng):
    vout, lv = rnd_src(None, rng)
    mode = rng.choice([0, 1, 3, 5, 7, 17, 21, 1, 3, 7, 4]) + 8 * rng.randrange(2)
    a, b = sorted((lv(), lv()))
    e, f = sorted((lv(), lv()))
    if rng.random() < 0.1:
        a, b = b, a
    return {
        "converter_mode": mode, "interval_startup_delay_drain_n": rng.choice([0, 0, 1, 5, 20]), "V_input_max_uV": rng.choice([10_000_000, lv()]),
        "I_input_max_nA": rng.choice([4_200_000_000, 50_000_000, rng.randrange(1, 50_000_000)]), "V_input_drop_uV": rng.choice([0, 0, 300_000, rng.randrange(1_000_000)]),
        "R_input_kOhm_n22": rng.choice([0, 0, 42, 4195, 41943, rng.randrange(4_194_304), rng.randrange(2**32)]),
        "Constant_us_per_nF_n28": rng.choice([2684354, 268435, 26843, 26843545, 268435456, rng.randrange(2**32), 10**9, 0]),
        "V_intermediate_init_uV": lv(), "I_intermediate_leak_nA": rng.choice([0, 0, 9, 330, 50_000_000]),
        "V_enable_output_threshold_uV": b, "V_disable_output_threshold_uV": a, "dV_enable_output_uV": rng.choice([0, 0, 1000, 120_000, rng.randrange(2_000_000)]),
        "interval_check_thresholds_n": rng.choice([0, 1, 2, 3, 7]), "V_pwr_good_enable_threshold_uV": f, "V_pwr_good_disable_threshold_uV": e,
        "immediate_pwr_good_signal": rng.randrange(2), "V_output_log_gpio_threshold_uV": rng.choice([0, lv()]), "V_input_boost_threshold_uV": rng.choice([0, 130_000, lv()]),
        "V_intermediate_max_uV": rng.choice([10_000_000, 5_000_000, 4_500_000, lv()]), "V_output_uV": vout, "V_buck_drop_uV": rng.choice([0, 0, 200_000, rng.randrange(1_000_000)]),
        "LUT_input_V_min_log2_uV": rng.choice([0, 7, 12, 18]), "LUT_input_I_min_log2_nA": rng.choice([0, 1, 4, 10]), "LUT_output_I_min_log2_nA": rng.choice([0, 1, 4, 10]),
        "LUT_inp_efficiency_n8": [[rng.randrange(256) for _ in range(12)] for _ in range(12)], "LUT_out_inv_efficiency_n4": [rng.choice([16, 17, 20, 33, 160, 16384, rng.randrange(16, 400)]) for _ in range(12)],
    }


def cal_cfg(rng):
    return {"dacg": rng.choice([76, 77, 1, 100, 150]), "daco": rng.choice([0, 0, 500, -700, 123_456]), "adcg": rng.choice([190, 191, 1, 1000]), "adco": rng.choice([0, 0, 0, -499, -40_000, 300])}


def samples(s, c, rng):
    """Inputs for one converter: v, i, raw current and forced intermediate voltages around thresholds."""
    thr = [c["V_enable_output_threshold_uV"], c["V_disable_output_threshold_uV"], c["V_pwr_good_enable_threshold_uV"], c["V_pwr_good_disable_threshold_uV"], c["V_output_uV"] + c["V_buck_drop_uV"],
           c["dV_enable_output_uV"], c["V_buck_drop_uV"], c["V_output_log_gpio_threshold_uV"] + c["V_buck_drop_uV"], c["V_intermediate_max_uV"], 0, 1, 3_000_000]
    out = []
    v = i = raw = 0
    for _ in range(s["n"]):
        if rng.random() < 0.4:
            v = rng.choice([0, -5, rng.randrange(6_000_000), c["V_input_drop_uV"] + rng.choice([0, 1]), c["V_input_boost_threshold_uV"] + c["V_input_drop_uV"] + rng.choice([-1, 0, 1]), rng.choice(thr) + c["V_input_drop_uV"] + rng.choice([0, 1, 5000])])
        if rng.random() < 0.4:
            i = rng.choice([0, -3, 1, 2 ** rng.randrange(25) - rng.randrange(2), rng.randrange(40_000_000), rng.randrange(1000), rng.randrange(100_000)])
        if rng.random() < 0.4:
            raw = rng.choice([0, 0, 1, 7, -4, rng.randrange(1000), rng.randrange(2**18), 2**18, 2 ** rng.randrange(19) - 1])
        f = -1
        if rng.random() < s["force"]:
            f = max(0, min(10_000_000, rng.choice(thr) + rng.choice([-1, 0, 0, 1, 2])))
        out.append({"set": f, "v": v, "i": i, "raw": raw, "il": -1, "first": False})
    return out


def observe_states(cnv):
    return {"vmid": int(cnv.get_V_intermediate_uV()), "pg": bool(cnv.get_power_good()), "skip": bool(cnv.get_state_log_gpio())}


def request(cnv):
    x = getattr(cnv, "V_input_request_uV", None)
    return 0 if x is None else max(0, min(LIM, round(x)))


def execute(scn, work):
    import random
    from vf.util import I
    rng = random.Random(scn["seed"])
    ev = []
    cal = calib(scn["cal"])
    if scn["kind"] == "cnv":
        from shepherd_core.data_models.content.virtual_source import ConverterPRUConfig
        from shepherd_core.vsource.virtual_converter_model import PruCalibration, VirtualConverterModel
        p = ConverterPRUConfig(**scn["cfg"])
        cnv = VirtualConverterModel(p, PruCalibration(cal))
        xs = samples(scn, scn["cfg"], rng)
        while xs:
            part, xs = xs[:40], xs[40:]
            ys = []
            for x in part:
                if x["set"] >= 0:
                    cnv.set_V_intermediate_uV(x["set"])
                o = {"pin": big(cnv.calc_inp_power(x["v"], x["i"])), "req": request(cnv)}
                o["pout"] = big(cnv.calc_out_power(x["raw"]))
                if big(cnv.get_P_input_fW()) != o["pin"] or big(cnv.get_P_output_fW()) != o["pout"]:
                    o["pin"] = o["pout"] = big(-1)
                o["vcap"] = I(cnv.update_cap_storage())
                o["dac"] = I(cnv.update_states_and_output())
                ys.append({**o, **observe_states(cnv), "ret": -1})
            ev.append({"op": "run", "x": part, "obs": {"y": ys}})
        return {"ev": ev, "init": {"cfg": regs(p, scn["cal"])}}

    from shepherd_core.data_models import EnergyDType, VirtualHarvesterConfig, VirtualSourceConfig
    from shepherd_core.data_models.content.virtual_harvester import HarvesterPRUConfig
    from shepherd_core.data_models.content.virtual_source import ConverterPRUConfig
    from shepherd_core.vsource import VirtualSourceModel
    sc = dict(scn["src"])
    if scn["hrv"]:
        sc["harvester"] = VirtualHarvesterConfig(**scn["hrv"])
    vs = VirtualSourceConfig(**sc)
    dt = EnergyDType[scn["dtype"]]
    kw = {"dtype_in": dt, "window_size": scn["w"], "voltage_step_V": scn["step"] * 1e-6} if scn["dtype"] == "ivcurve" else {"dtype_in": dt}
    src = VirtualSourceModel(vs, cal, log_intermediate=scn["log"], **kw)
    p = ConverterPRUConfig.from_vsrc(vs, dtype_in=dt, log_intermediate_node=scn["log"])
    h = HarvesterPRUConfig.from_vhrv(vs.harvester, for_emu=True, **kw)
    alg = int(h.algorithm)
    name = "opt" if alg >= 2**14 else "po" if alg >= 2**13 else "voc" if alg >= 2**12 else "cv" if alg >= 2**8 else "pass"
    hm = int(h.hrv_mode)
    hc = {"alg": name, "window": h.window_size, "vset": h.voltage_uV, "vmin": h.voltage_min_uV, "vmax": h.voltage_max_uV, "step": h.voltage_step_uV, "climit": h.current_limit_nA,
          "setpoint": h.setpoint_n8, "interval": h.interval_n, "duration": h.duration_n, "rising": hm & 2 > 0, "linear": hm & 4 > 0}
    c = regs(p, scn["cal"], hc)
    data, k, load = [], 0, 0
    volt = curr = 0
    while len(data) < scn["n"]:
        if rng.random() < 0.1:
            load = rng.choice([0, 0, 1, rng.randrange(2000), rng.randrange(200_000)])
        if scn["dtype"] == "ivcurve":
            voc, isc = rng.randrange(1, 5_000_000), rng.randrange(1, scn["itop"] + 1)
            for j in range(scn["w"]):
                v = 5_000_000 * j // max(1, scn["w"] - 1)
                data.append((v, max(0, int(isc * (1 - (v / voc) ** 4))) if v < voc else 0, load))
        else:
            if rng.random() < 0.1:
                volt, curr = rng.choice([0, rng.randrange(5_000_000)]), rng.choice([0, rng.randrange(scn["itop"] + 1)])
            data.append((volt, curr, load))
        k += 1
    data = data[: scn["n"]]
    g, o = scn["cal"]["adcg"], scn["cal"]["adco"]
    first, count = True, 0
    while data:
        part, data = data[:40], data[40:]
        xs, ys = [], []
        for v, i, raw in part:
            il = max(0, raw * g + o)
            ret = src.iterate_sampling(v, i, il)
            count += 1
            cn = src.cnv
            st = observe_states(cn)
            xs.append({"set": -1, "v": v, "i": i, "raw": -1, "il": il, "first": first})
            ys.append({"pin": big(cn.get_P_input_fW()), "pout": big(cn.get_P_output_fW()), "req": request(cn), "vcap": I(ret) if scn["log"] else -1,
                       "dac": -1, "ret": -1 if scn["log"] else I(ret), **st})
            first = False
        ev.append({"op": "src", "x": xs, "count": count, "obs": {"y": ys, "win": big(src.W_inp_fWs), "wout": big(src.W_out_fWs)}})
    return {"ev": ev, "init": {"cfg": c}}


NAMES = ["direct", "diode+capacitor", "diode+resistor+capacitor", "BQ25504", "BQ25504s", "BQ25570", "BQ25570s", "BQ25504-Schmitt", "BQ25570-Schmitt"]


def scenarios(rng, tier):
    for _ in range(700 if tier == "quick" else 7000):
        if rng.random() < 0.7:
            yield {"kind": "cnv", "cfg": reg_cfg(rng), "cal": cal_cfg(rng), "n": rng.choice([10, 60, 120]), "force": rng.choice([0, 0.1, 0.5, 0.9]), "seed": rng.randrange(10**9)}
            continue
        dtype = rng.choice(["ivsample", "ivcurve", "ivcurve"])
        name = rng.choice(NAMES)
        src = {"name": name, "V_intermediate_init_mV": rng.choice([0, 500, 2000, 3000, 3600, 4100])}
        if rng.random() < 0.6:
            src["C_intermediate_uF"] = rng.choice([0.1, 1, 10, 47]) if name != "direct" else 0
        if rng.random() < 0.4:
            src["interval_check_thresholds_ms"] = rng.choice([0, 0.01, 0.05, 0.1])
        if rng.random() < 0.3:
            src["interval_startup_delay_drain_ms"] = rng.choice([0.05, 0.3])
        if rng.random() < 0.3 and dtype == "ivcurve" and name.startswith("diode"):
            src["enable_feedback_to_hrv"] = True
        hrv = {}
        if dtype == "ivcurve":
            hrv = {"name": rng.choice(["cv24", "cv20", "mppt_voc", "mppt_po", "mppt_opt", "cv33"])}
            if src.get("enable_feedback_to_hrv"):
                hrv = {"name": "cv24"}
        w = rng.choice([8, 16, 40])
        yield {"kind": "src", "src": src, "hrv": hrv, "dtype": dtype, "w": w, "step": 5_000_000 // (w - 1), "log": rng.random() < 0.5, "cal": cal_cfg(rng),
               "itop": rng.choice([1000, 100_000, 5_000_000]), "n": rng.choice([60, 300]), "seed": rng.randrange(10**9)}

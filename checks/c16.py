"""C16: parameters of the real-time units."""
from pathlib import Path

from checks.c15 import big
TRACE = "ParamsTrace"
BATCH = 700
ASSUMPTIONS = ["voltages in multiples of 1/8 mV for sources (comparisons of sums are exact), times never exactly half a sample-interval"]
ALGS = ["neutral", "isc_voc", "ivcurve", "cv", "mppt_voc", "mppt_po", "mppt_opt"]


def models(tier):
    m = [{"module": "ParamsMC", "cfg": "ParamsMC.cfg", "timeout": 600}, {"module": "SrcParamsMC", "cfg": "SrcParamsMC.cfg", "timeout": 600}]
    return m if tier == "quick" else [*m, {"module": "ParamsMC", "cfg": "ParamsMC_deep.cfg", "timeout": 800}]


def to_scn(g):
    return [{"kind": "hrv", "h": g["h"], "reqs": [g["r"]], "route": "plain"}]


def generators(tier):
    return [{"module": "ParamsMC", "cfg": "ParamsGen.cfg", "cap": 1000 if tier == "quick" else 12000, "to_scenario": to_scn}]


def warmup():
    import shepherd_core.vsource  # noqa: F401


def hrv_args(h):
    a = {"algorithm": h["alg"], "samples_n": h["samples"], "voltage_mV": h["v"] / 1e3, "voltage_min_mV": h["vmin"] / 1e3, "voltage_max_mV": h["vmax"] / 1e3,
         "current_limit_uA": h["climit"] / 1e3, "setpoint_n": h["set1024"] / 1024, "interval_ms": h["interval"] / 1e3, "duration_ms": h["duration"] / 1e3,
         "rising": h["rising"], "enable_linear_extrapolation": h["linear"], "wait_cycles": h["wait"]}
    if h["step"] >= 0:
        a["voltage_step_mV"] = h["step"] / 1e3
    return a


def regs(p):
    from vf.util import I
    return {k: I(getattr(p, k)) for k in ("algorithm", "hrv_mode", "window_size", "voltage_uV", "voltage_min_uV", "voltage_max_uV", "voltage_step_uV", "current_limit_nA",
                                          "setpoint_n8", "interval_n", "duration_n", "wait_cycles_n")}


def make_hrv(scn):
    from shepherd_core.data_models import VirtualHarvesterConfig
    h = scn["h"]
    a = hrv_args(h)
    base = {"id": 77_001, "name": "own_hrv", "owner": "tester", "group": "testers"}
    if scn["route"] == "inherit":
        return VirtualHarvesterConfig(**{**base, "inherit_from": "mppt_bq_solar", **a})
    if scn["route"] == "name":
        return VirtualHarvesterConfig(**{"name": "mppt_po", **a})
    if scn["route"] == "file":
        return None
    return VirtualHarvesterConfig(**{**base, **a})


def exec_hrv(scn, work):
    from pydantic import ValidationError
    from shepherd_core.data_models import EnergyDType, VirtualHarvesterConfig
    from shepherd_core.data_models.content.virtual_harvester import HarvesterPRUConfig
    ev = []
    h = scn["h"]
    m = None
    try:
        if scn["route"] == "file":
            m = make_hrv({**scn, "route": "plain"})
            m = VirtualHarvesterConfig.from_file(m.to_file(Path(work) / "hrv.yaml"))
        else:
            m = make_hrv(scn)
    except (ValidationError, ValueError):
        pass
    ev.append({"op": "hrv", "h": h, "obs": {"ok": m is not None}})
    if m is None:
        return ev
    for r in scn["reqs"]:
        kw = {"for_emu": r["emu"]}
        kw["dtype_in"] = None if r["dtype"] == "none" else r["dtype"] if r.get("text") else EnergyDType[r["dtype"]]
        if r["window"] >= 0:
            kw["window_size"] = r["window"]
        if r["step"] >= 0:
            kw["voltage_step_V"] = r["step"] * 1e-6
        try:
            p = HarvesterPRUConfig.from_vhrv(m, **kw)
            p2 = HarvesterPRUConfig.from_vhrv(VirtualHarvesterConfig(**m.model_dump()), **kw)
            obs = {"ok": True, "reg": regs(p), "again": regs(p) == regs(p2)}
        except (ValidationError, ValueError, NotImplementedError):
            obs = {"ok": False}
        ev.append({"op": "hrv_params", "h": h, "r": {k: r[k] for k in ("emu", "dtype", "window", "step")}, "obs": obs})
    return ev


def exec_src(scn, work):
    from pydantic import ValidationError
    from shepherd_core.data_models import EnergyDType, VirtualHarvesterConfig, VirtualSourceConfig
    from shepherd_core.data_models.content.virtual_source import ConverterPRUConfig
    from vf.util import I
    s = scn["s"]
    mv = lambda k: s[k] / 1e3  # noqa: E731
    base = {"id": 77_002, "name": "own_src", "owner": "tester", "group": "testers"}
    a = {"harvester": VirtualHarvesterConfig(id=77_001, name="own_hrv", owner="t", group="t", algorithm=scn["alg"]),
         "enable_boost": s["boost"], "enable_buck": s["buck"], "enable_feedback_to_hrv": s["feedback"], "interval_startup_delay_drain_ms": s["drain"] / 1e3,
         "V_input_max_mV": mv("vinmax"), "I_input_max_mA": scn["iinmax"] / 1e6, "V_input_drop_mV": scn["vdrop"] / 1e3, "R_input_mOhm": s["r8"] / 8,
         "C_intermediate_uF": s["cstore"] / 1e3, "C_output_uF": s["cout"] / 1e3, "V_intermediate_init_mV": mv("vinit"), "I_intermediate_leak_nA": scn["leak"],
         "V_intermediate_enable_threshold_mV": mv("ven"), "V_intermediate_disable_threshold_mV": mv("vdis"), "interval_check_thresholds_ms": s["check"] / 1e3,
         "V_pwr_good_enable_threshold_mV": mv("vpgen"), "V_pwr_good_disable_threshold_mV": mv("vpgdis"), "immediate_pwr_good_signal": s["immediate"],
         "V_output_log_gpio_threshold_mV": scn["vlog"] / 1e3, "V_input_boost_threshold_mV": mv("vboost"), "V_intermediate_max_mV": mv("vmax"),
         "V_output_mV": mv("vout"), "V_buck_drop_mV": mv("bdrop"), "LUT_input_V_min_log2_uV": s["lutv"], "LUT_input_I_min_log2_nA": s["luti"], "LUT_output_I_min_log2_nA": s["luto"],
         "LUT_input_efficiency": [[x / 1024 for x in r] for r in s["lutin"]], "LUT_output_efficiency": [x / 4096 for x in s["lutout"]]}
    route = scn["route"]
    m = None
    try:
        if route == "inherit":
            m = VirtualSourceConfig(**{**base, "inherit_from": "BQ25570", **a})
        elif route == "name":
            m = VirtualSourceConfig(**{"name": "diode+capacitor", **a})
        else:
            m = VirtualSourceConfig(**{**base, **a})
        if route == "file":
            m = VirtualSourceConfig.from_file(m.to_file(Path(work) / "src.yaml"))
    except (ValidationError, ValueError):
        pass
    ev = [{"op": "src", "alg": scn["alg"], "obs": {"ok": m is not None}}]
    if m is None:
        return ev
    wide = {"iinmax": big(scn["iinmax"]), "vdrop": big(scn["vdrop"]), "leak": big(scn["leak"]), "vlog": big(scn["vlog"])}
    for dtype, log in scn["reqs"]:
        p = ConverterPRUConfig.from_vsrc(m, dtype_in=EnergyDType[dtype], log_intermediate_node=log)
        p2 = ConverterPRUConfig.from_vsrc(VirtualSourceConfig(**m.model_dump()), dtype_in=EnergyDType[dtype], log_intermediate_node=log)
        reg = {"mode": I(p.converter_mode), "drain": I(p.interval_startup_delay_drain_n), "vinmax": I(p.V_input_max_uV), "iinmax": big(p.I_input_max_nA), "vdrop": big(p.V_input_drop_uV),
               "r22": I(p.R_input_kOhm_n22), "k28": big(p.Constant_us_per_nF_n28), "vinit": I(p.V_intermediate_init_uV), "leak": big(p.I_intermediate_leak_nA),
               "ven": I(p.V_enable_output_threshold_uV), "vdis": I(p.V_disable_output_threshold_uV), "dven": I(p.dV_enable_output_uV), "check": I(p.interval_check_thresholds_n),
               "vpgen": I(p.V_pwr_good_enable_threshold_uV), "vpgdis": I(p.V_pwr_good_disable_threshold_uV), "immediate": I(p.immediate_pwr_good_signal),
               "vlog": big(p.V_output_log_gpio_threshold_uV), "vboost": I(p.V_input_boost_threshold_uV), "vmax": I(p.V_intermediate_max_uV), "vout": I(p.V_output_uV), "bdrop": I(p.V_buck_drop_uV),
               "lutv": I(p.LUT_input_V_min_log2_uV), "luti": I(p.LUT_input_I_min_log2_nA), "luto": I(p.LUT_output_I_min_log2_nA),
               "lutin": [[I(x) for x in r] for r in p.LUT_inp_efficiency_n8], "lutout": [I(x) for x in p.LUT_out_inv_efficiency_n4]}
        ev.append({"op": "src_params", "s": {**s, **wide}, "dtype": dtype, "log": log, "obs": {"reg": reg, "again": p == p2}})
    return ev


def execute(scn, work):
    return {"init": {}, "ev": exec_hrv(scn, work) if scn["kind"] == "hrv" else exec_src(scn, work)}


def us(rng, lo, hi):
    x = rng.choice([lo, hi, rng.randrange(lo, hi + 1), rng.randrange(lo, min(hi, 100_000) + 1), rng.randrange(lo, min(hi, 1000) + 1)])
    return x + 1 if x % 10 == 5 else x


def rnd_hrv(rng):
    vmin, v, vmax = sorted(rng.choice([0, 5_000_000, rng.randrange(5_000_001)]) for _ in range(3))
    samples = rng.choice([8, 9, 100, 2000, rng.randrange(8, 2001)])
    h = {"alg": rng.choice(ALGS), "samples": samples, "v": v, "vmin": vmin, "vmax": vmax, "climit": rng.choice([1000, 50_000_000, rng.randrange(1000, 50_000_001)]),
         "step": rng.choice([-1, -1, 1000, 70_000, rng.randrange(1000, 10**9)]), "set1024": rng.choice([0, 1024, 1023, 717, rng.randrange(1025)]), "interval": us(rng, 10, 10**9), "duration": us(rng, 10, 10**9),
         "rising": rng.random() < 0.5, "linear": rng.random() < 0.5, "wait": rng.choice([0, 1, 2, 9, 100])}
    if rng.random() < 0.35:  # single violation
        k = rng.choice(["samples", "v", "vmin", "vmax", "climit", "step", "set1024", "interval", "duration", "wait", "order"])
        bad = {"samples": [7, 2001, 0], "v": [-1, 5_000_001, vmin - 1, vmax + 1], "vmin": [-1, 5_000_001, v + 1], "vmax": [-1, 5_000_001, v - 1], "climit": [50_000_001, 999], "step": [999, 10**9 + 1, 0],
               "set1024": [-1, 1025], "interval": [9, 10**9 + 1, 0], "duration": [9, 10**9 + 1, 0], "wait": [101, -1], "order": [0]}[k]
        if k == "order":
            h["vmin"], h["vmax"] = vmax, vmin
        else:
            h[k] = rng.choice(bad)
    if h["step"] < 0 and abs(abs(h["vmax"] - h["vmin"]) - 1000 * (h["samples"] - 1)) < 2:
        h["step"] = 5000
    return h


def rnd_req(rng):
    return {"emu": rng.random() < 0.6, "dtype": rng.choice(["ivsample", "ivsample", "ivcurve", "ivcurve", "isc_voc", "none"]), "window": rng.choice([-1, 0, 16, 2000, rng.randrange(10**6)]),
            "step": rng.choice([-1, 5000, 123_457]), "text": rng.random() < 0.3}


def rnd_src(rng):
    lv = lambda top: rng.choice([0, top, 125 * rng.randrange(top // 125 + 1), 1000 * rng.randrange(top // 1000 + 1)])  # noqa: E731
    vout, bdrop = lv(5_000_000), rng.choice([0, 0, lv(500_000), lv(5_000_000)])
    cstore = rng.choice([0, 1, 100_000_000, 10_000, 47_000, rng.randrange(1, 10**8), rng.randrange(1, 10**5)])
    cout = rng.choice([0, 1000, cstore, min(429_000_000, cstore + 1), max(0, cstore - 1), max(0, cstore // 10), rng.randrange(4000)])
    pre = vout + bdrop
    return {"boost": rng.random() < 0.5, "buck": rng.random() < 0.6, "feedback": rng.random() < 0.5, "drain": us(rng, 0, 10_000_000), "vinmax": lv(10_000_000), "r8": rng.choice([0, 8, 1, 80_000, 34_320_000, rng.randrange(34_320_000)]),
            "cstore": cstore, "cout": cout, "vinit": lv(10_000_000), "ven": min(10_000_000, rng.choice([1000, pre, pre + 125, max(0, pre - 125), lv(10_000_000)])), "vdis": min(10_000_000, rng.choice([0, pre, pre + 125, max(0, pre - 125), lv(10_000_000)])),
            "check": us(rng, 0, 4_290_000), "vpgen": lv(10_000_000), "vpgdis": lv(10_000_000), "immediate": rng.random() < 0.5, "vboost": lv(10_000_000), "vmax": lv(10_000_000), "vout": vout, "bdrop": bdrop,
            "lutv": rng.choice([0, 20, 7]), "luti": rng.choice([1, 20, 8]), "luto": rng.choice([1, 20, 8]),
            "lutin": [[rng.choice([0, 1024, rng.randrange(1025)]) for _ in range(12)] for _ in range(12)], "lutout": [rng.choice([0, 4096, 1, 3, 5, rng.randrange(4097)]) for _ in range(12)]}


def scenarios(rng, tier):
    k = 1 if tier == "quick" else 10
    for _ in range(700 * k):
        h, route = rnd_hrv(rng), rng.choice(["plain", "inherit", "name", "file"])
        if route in ("inherit", "name") and h["step"] < 0:  # these would inherit a step
            h["step"] = 12_345
        yield {"kind": "hrv", "h": h, "reqs": [rnd_req(rng) for _ in range(4)], "route": route}
    for _ in range(700 * k):
        yield {"kind": "src", "s": rnd_src(rng), "alg": rng.choice([*ALGS, "mppt_opt", "cv", "neutral"]), "iinmax": rng.choice([4_290_000_000, 4_200_000_000, rng.randrange(10**8)]), "vdrop": rng.choice([0, 300_000, 4_290_000_000]),
               "leak": rng.choice([0, 9, 4_290_000_000, rng.randrange(10**6)]), "vlog": rng.choice([1_400_000, 0, 4_290_000_000]), "reqs": [[rng.choice(["ivsample", "ivcurve"]), rng.random() < 0.5] for _ in range(2)],
               "route": rng.choice(["plain", "inherit", "name", "file"])}

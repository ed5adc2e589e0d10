"""C07: gpio waveforms."""
import hashlib

from checks.c06 import parse_wf  # noqa: F401
from drivers import h5build
from vf.util import I, SENT

TRACE = "GpioTrace"
ASSUMPTIONS = ["up to 16 pins (width of the recorded word), times in us plus a constant sub-us rest; csv is compared at us resolution"]


def models(tier):
    return [{"module": "GpioMC", "cfg": "GpioMC.cfg" if tier == "quick" else "GpioMC_deep.cfg"}]


def generators(tier):
    return []


def warmup():
    from shepherd_core import Reader  # noqa: F401


def sha(p):
    with open(p, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def make(path, scn):
    import h5py
    import numpy as np
    import yaml

    h5build.build(path, [0, 10000], [0, 1], [0, 1])
    if not scn["has"]:
        return
    with h5py.File(path, "a") as f:
        g = f.create_group("gpio")
        t = np.array([scn["base"] + x * 1000 + scn["rest"] for x, _ in scn["tr"]], dtype="u8")
        g.create_dataset("time", data=t, maxshape=(None,), chunks=True)
        ds = g.create_dataset("value", data=np.array([w for _, w in scn["tr"]], dtype=scn["dtype"]), maxshape=(None,), chunks=True)
        desc = {(str(p["num"]) if scn["strkey"] else p["num"]): {"name": p["name"], "comment": "x"} for p in scn["pins"]}
        ds.attrs["description"] = yaml.safe_dump(desc, sort_keys=False)


def wave(a, scn):
    import numpy as np
    a = np.asarray(a)
    if a.ndim != 2 or a.shape[1] != 2:
        return [[SENT]]
    out = []
    for t, v in a:
        d = int(t) - scn["base"] - scn["rest"]
        out.append([I(d // 1000) if d % 1000 == 0 else SENT, I(v)])
    return out


def run(scn, work):
    from pathlib import Path
    from shepherd_core import Reader

    p = Path(work) / "g.h5"
    make(p, scn)
    s0 = sha(p)
    ev = []
    names = [x["name"] for x in scn["pins"]]
    with Reader(p, verbose=False) as rd:
        for o in scn["ops"]:
            if o["op"] == "all":
                w = rd.gpio_to_waveforms()
                ev.append({"op": "all", "obs": {"wfs": [{"name": str(k), "wf": wave(v, scn)} for k, v in w.items()], "changed": sha(p) != s0}})
                continue
            nm = o.get("name", "")
            ref = {"name": nm, "exact": names.index(nm) + 1 if nm in names else 0,
                   "cands": [i for i, x in enumerate(names, 1) if nm in x]}
            if o["op"] == "one":
                w = rd.gpio_to_waveforms(nm)
                ev.append({"op": "one", **ref, "obs": {"wfs": [{"name": str(k), "wf": wave(v, scn)} for k, v in w.items()]}})
            elif o["op"] == "num":
                n = rd.get_gpio_pin_num(nm)
                ev.append({"op": "num", **ref, "obs": {"num": -1 if n is None else I(n)}})
            elif o["op"] == "csv":
                if not scn["has"] or not names:
                    continue
                k = o["k"] % len(names)
                w = rd.gpio_to_waveforms(names[k])
                rd.waveform_to_csv(names[k], w[names[k]], o["sep"])
                f = p.with_suffix(f".waveform.{names[k]}.csv")
                rows, head = [], True
                with f.open() as fh:
                    lines = fh.read().split("\n")
                head = lines[0].split(o["sep"]) == ["timestamp [s]", names[k]] and lines[-1] == ""
                for ln in lines[1:-1]:
                    a, b = ln.split(o["sep"])
                    from decimal import Decimal
                    us = (Decimal(a) * 10**9 - scn["base"] - scn["rest"]) / 1000
                    rows.append([I(round(us)), I(int(b))])
                f.unlink()
                ev.append({"op": "csv", "k": k + 1, "obs": {"rows": rows, "header": head}})
    return {"ev": ev, "init": {"has": scn["has"], "tr": scn["tr"], "pins": scn["pins"]}}


def execute(scn, work):
    return run(scn, work)


def scenarios(rng, tier):
    quick = tier == "quick"
    for k in range(450 if quick else 9000):
        nums = rng.sample(range(16), rng.choice([1, 2, 3, 6, 10]))
        if rng.random() < 0.6:
            nums.sort()
        style = rng.choice(["gpio", "plain", "tgt"])
        names = [{"gpio": f"gpio{n}", "plain": f"p{n}", "tgt": f"tgt_gpio{n}"}[style] for n in nums]
        if rng.random() < 0.4:
            names[rng.randrange(len(names))] = rng.choice(["uart", "tgt_uart_tx", "uart_rx"])
        names = list(dict.fromkeys(names))
        pins = [{"name": a, "num": b} for a, b in zip(names, nums)]
        n = rng.choice([0, 1, 2, 3, rng.randint(0, 20), rng.randint(0, 20), 60])
        tr, t, w = [], rng.randint(0, 1000), rng.randrange(2**16)
        for _ in range(n):
            mode = rng.random()
            if mode < 0.5:
                w ^= 1 << rng.choice(nums + [rng.randrange(16)])
            elif mode < 0.7:
                w = rng.randrange(2**16)
            elif mode < 0.8:
                w = rng.choice([0, 2**16 - 1])
            tr.append([t, w])
            t += rng.choice([0, 1, 5, 1000, rng.randint(0, 10**6)])
        ops = [{"op": "all"}]
        for _ in range(4):
            ops.append(rng.choice([{"op": "one", "name": rng.choice(names)}, {"op": "one", "name": rng.choice(["uart", "gpio1", "p", "gpio", "nix", "1"])},
                                   {"op": "num", "name": rng.choice([*names, "uart", "gpio", "none"])},
                                   {"op": "csv", "k": rng.randint(0, 9), "sep": rng.choice([",", ";"])}]))
        yield {"kind": "gpio", "has": rng.random() < 0.95, "tr": tr, "pins": pins, "ops": ops, "base": rng.choice([0, 1_700_000_000 * 10**9]),
               "rest": rng.choice([0, 0, 123]), "dtype": rng.choice(["u2", "u2", "u4"]), "strkey": rng.random() < 0.3}

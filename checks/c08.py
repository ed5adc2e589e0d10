"""C08: uart decoding."""
from vf.util import I, SENT

TRACE = "UartTrace"
U = 20
ASSUMPTIONS = [
    "LSB first, no parity (others are refused); symbols below 0x110000; clean edges with at most a few % of a bit of jitter",
    "automatic baud detection only where at least 20 % of the steps are single bits; automatic polarity only with an idle gap above 85 bits",
]


def models(tier):
    return [{"module": "UartMC", "cfg": "UartMC.cfg" if tier == "quick" else "UartMC_deep.cfg"}]


def warmup():
    from shepherd_core.decoder_waveform import Uart  # noqa: F401
    from shepherd_core import Reader  # noqa: F401


def wave(t0, fs, n):
    w = [[1, t0]]
    for t, s in fs:
        prev = 1
        for k in range(n + 2):
            lev = 0 if k == 0 else 1 if k > n else (s >> (k - 1)) & 1
            if lev != prev:
                w.append([lev, t + k * U])
            prev = lev
    return w


def back(t, scn):
    if t is None:
        return SENT
    u = (float(t) - scn["off"]) * scn["baud"] * U
    return I(round(u)) if abs(u - round(u)) < 0.45 else SENT


def run_array(scn, work):
    from pathlib import Path
    import numpy as np
    from shepherd_core.decoder_waveform import Uart
    from shepherd_core.decoder_waveform.uart import BitOrder, Parity

    w = scn["wave"]
    lo, hi = scn["levels"]
    if scn["inverted"]:
        lo, hi = hi, lo
    rows = []
    for i, (lev, t) in enumerate(w):
        ts = scn["off"] + t / (scn["baud"] * U)
        if scn["ns"]:
            ts = round(ts * 1e9) / 1e9
        rows.append([ts, hi if lev else lo])
        if i in scn["redundant"]:
            nxt = w[i + 1][1] if i + 1 < len(w) else t + 500 * U
            rows.append([scn["off"] + (t + nxt) / 2 / (scn["baud"] * U), hi if lev else lo])
    arr = np.array(rows, dtype=float)
    keep = arr.copy()
    kw = {"frame_length": scn["n"]}
    if not scn["autobaud"]:
        kw["baud_rate"] = scn["baud"]
    if not scn["autoinv"]:
        kw["inversion"] = scn["inverted"]
    ev = [{"op": "wave", "obs": {"w": w}}]
    if scn["csv"]:
        p = Path(work) / "w.csv"
        with p.open("w") as f:
            f.write("timestamp [s],pin\n")
            for a, b in rows:
                f.write(f"{a!r},{b!r}\n")
        src = p
    else:
        src = arr
    bad = scn.get("bad")
    if bad:
        if bad == "short":
            src = arr[:7]
        elif bad == "order":
            src = arr[::-1].copy()
        elif bad == "cols":
            src = np.column_stack((arr, arr[:, 1]))
        elif bad == "len0":
            kw["frame_length"] = 0
        elif bad == "len65":
            kw["frame_length"] = 65
        elif bad == "msb":
            kw["bit_order"] = BitOrder.msb_first
        elif bad == "parity":
            kw["parity"] = Parity.even
        try:
            Uart(src, **kw)
            ref = False
        except (TypeError, ValueError):
            ref = True
        return {"ev": [{"op": "refuse", "want": True, "obs": {"refused": ref}}], "init": {"n": scn["n"], "t0": 0, "fs": []}}
    u = Uart(src, **kw)
    ev.append({"op": "open", "inv": scn["inverted"], "obs": {
        "baudok": bool(abs(u.baud_rate / scn["baud"] - 1) < 0.01), "inv": bool(u.inversion)}})
    for o, redo in scn["ops"]:
        if o == "symbols":
            a = u.get_symbols(force_redo=redo)
            ev.append({"op": o, "obs": {"sy": [[back(t, scn), ord(s) if len(s) == 1 else SENT] for t, s in a]}})
        elif o == "lines":
            a = u.get_lines(force_redo=redo)
            ev.append({"op": o, "obs": {"ln": [[back(t, scn), [ord(c) for c in s]] for t, s in a]}})
        elif o == "text":
            ev.append({"op": o, "obs": {"tx": [ord(c) for c in u.get_text(force_redo=redo)]}})
    ev.append({"op": "data", "obs": {"same": bool(np.array_equal(arr, keep))}})
    return {"ev": ev, "init": {"n": scn["n"], "t0": 0, "fs": [{"t": t, "s": s} for t, s in scn["fs"]]}}


def run_h5(scn, work):
    """The waveform is part of a recording."""
    import ast
    from datetime import datetime, timezone
    from pathlib import Path
    import h5py
    import numpy as np
    import yaml
    from click.testing import CliRunner
    from shepherd_core import Reader
    from shepherd_data.cli import cli
    from drivers import h5build

    w = scn["wave"]
    p = Path(work) / "rec.h5"
    h5build.build(p, [0, 10000], [0, 1], [0, 1])
    base = scn["off"] * 10**9
    with h5py.File(p, "a") as f:
        g = f.create_group("gpio")
        ts, vs = [], []
        other = 0
        for i, (lev, t) in enumerate(w):
            tn = base + round(t * 1e9 / (scn["baud"] * U))
            ts.append(tn)
            vs.append((lev << scn["pin"]) | (other << scn["pin2"]))
            if i in scn["redundant"]:
                other ^= 1
                ts.append(tn + 1000)
                vs.append((lev << scn["pin"]) | (other << scn["pin2"]))
        g.create_dataset("time", data=np.array(ts, dtype="u8"))
        ds = g.create_dataset("value", data=np.array(vs, dtype="u2"))
        ds.attrs["description"] = yaml.safe_dump({scn["pin2"]: {"name": "gpio_a"}, scn["pin"]: {"name": scn["name"]}}, sort_keys=False)
    ev = [{"op": "wave", "obs": {"w": w}}]
    with Reader(p, verbose=False) as rd:
        a = rd.gpio_to_uart()
    ev.append({"op": "lines", "obs": {"ln": [[back(t, scn), [ord(c) for c in s]] for t, s in a] if a is not None else [[SENT, []]]}})
    CliRunner().invoke(cli, ["extract-uart", p.as_posix()])
    lp = p.with_suffix(".uart_from_wf.log")
    out = []
    if lp.exists():
        for ln in lp.read_text().splitlines():
            a, b = ln.split(":\t", 1)
            t = datetime.strptime(a, "%Y-%m-%d %H:%M:%S.%f").replace(tzinfo=timezone.utc)
            us = (t - datetime.fromtimestamp(scn["off"], timezone.utc)).total_seconds()
            out.append([back(scn["off"] + us, scn), [ord(c) for c in ast.literal_eval(b).decode()]])
    ev.append({"op": "lines", "obs": {"ln": out}})
    return {"ev": ev, "init": {"n": 8, "t0": 0, "fs": [{"t": t, "s": s} for t, s in scn["fs"]]}}


def execute(scn, work):
    return run_h5(scn, work) if scn["h5"] else run_array(scn, work)


def scenarios(rng, tier):
    quick = tier == "quick"
    total = 500 if quick else 9000
    done = 0
    while done < total:
        h5 = rng.random() < 0.15
        n = 8 if h5 or rng.random() < 0.6 else rng.choice([1, 2, 4, 5, 7, 9, 12, 16, 20, 32, 64])
        top = min(2**n, 0x110000) - 1
        cnt = rng.choice([1, 2, 3, 5, 10, 10, 20, 40] if quick else [1, 2, 3, 5, 10, 20, 40, 120, 300])
        style = rng.choice(["ascii", "any", "any", "edge", "lines"])
        t = rng.choice([0, 1, 2, 100]) * U + U  # leading idle
        if rng.random() < 0.8:
            t += 90 * U
        fs = []
        longgap = t > 85 * U
        for _ in range(cnt):
            if style == "edge":
                s = rng.choice([0, top, 1, top >> 1, top ^ (top >> 1), 0x55 & top])
            elif style == "lines":
                s = rng.choice([10, 13, 65, 13, 10, 97])
            elif style == "ascii":
                s = rng.choice([rng.randint(32, 126), rng.randint(32, 126), rng.randint(32, 126), 10, 13])
            else:
                s = rng.randint(0, top)
            s = min(s, top)
            if 0xD800 <= s <= 0xDFFF:
                s = 0x41
            fs.append([t, s])
            stop = rng.choice([U, U, U, 2 * U, 3 * U // 2])
            gap = rng.choice([0, 0, 0, rng.randint(1, 5), 3, 17]) * U
            if rng.random() < 0.2:
                gap += rng.randint(1, U - 1)
            if rng.random() < 0.05:
                gap += 100 * U
                longgap = longgap or len(fs) < cnt
            t += (n + 1) * U + stop + gap
        w = wave(0, fs, n)
        if len(w) < 8:
            continue
        durs = [b[1] - a[1] for a, b in zip(w, w[1:])]
        single = sum(d == U for d in durs[:999]) / min(len(durs), 999)
        near = any(U < d < 1.4 * U for d in durs)
        autobaud = single > 0.2 and not near
        first_gap = any(d > 85 * U for d in durs[:990])
        done += 1
        if h5 and not (autobaud and first_gap):
            h5 = False
        baud = rng.choice([9600, 19200, 38400]) if h5 else rng.choice([1200, 9600, 57600, 115200, 230400, 1_000_000])
        inverted = (not h5) and rng.random() < 0.4
        scn = {
            "kind": "h5" if h5 else "array", "h5": h5, "n": n, "fs": fs, "wave": w, "baud": baud,
            "off": rng.choice([0, 0, 1_700_000_000]) if h5 else rng.choice([0, 0, 5, 1000]),
            "autobaud": autobaud and rng.random() < 0.5,
            "inverted": inverted,
            "autoinv": (first_gap and rng.random() < 0.6) or (not inverted and not first_gap and rng.random() < 0.3),
            "ns": rng.random() < 0.5 and baud <= 230400, "csv": rng.random() < 0.2,
            "levels": rng.choice([[0, 1], [0, 1], [0.1, 3.2], [-5, 5]]),
            "redundant": sorted(rng.sample(range(len(w)), rng.choice([0, 0, min(3, len(w))]))),
            "ops": [[rng.choice(["symbols", "lines", "text"]), rng.random() < 0.3] for _ in range(rng.randint(1, 5))] + [["symbols", False], ["lines", False], ["text", False]],
            "pin": 3, "pin2": 9, "name": rng.choice(["uart", "target_uart_tx"]),
        }
        if n == 64:
            scn["off"] = 0
        if not h5 and rng.random() < 0.08:
            scn["bad"] = rng.choice(["short", "order", "cols", "len0", "len65", "msb", "parity"])
        yield scn

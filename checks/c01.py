"""C01: a recording holds exactly the history of appends."""
from drivers import recording as R

TRACE = "RecordingTrace"
ASSUMPTIONS = [
    "timestamps advance monotonically in generated histories (one recording spans < 2.1 s so that TLC's 32-bit integers hold ns)",
    "h5py/HDF5 store what they are given; a Python exception inside the session models the crash points, a killed process is out of scope",
]


def models(tier):
    return [{"module": "RecordingMC", "cfg": "RecordingMC.cfg" if tier == "quick" else "RecordingMC_deep.cfg"}]


def warmup():
    R.imports()


execute = R.execute

SIZES = [0, 1, 2, 3, 9, 100, 2000, 4999, 5000, 5001, 9999, 10000, 10001, 12345, 19999, 20000, 20001, 30000]


def history(rng, n_sessions, n_handles=1, names=("r.h5",), openflags=False):
    ops = []
    ident = 1
    clock = {}
    span = {}
    iv = rng.choice([10000, 10000, 10000, 10000, 20000, 100000])
    for _ in range(n_sessions):
        hs = list(range(1, n_handles + 1))
        for h in hs:
            nm = rng.choice(names)
            ops.append({"op": "open", "h": h, "name": nm, "modify": rng.random() < 0.75, "force": rng.random() < 0.08,
                        "mode": "", "dtype": "", "win": -1, "cal": -1,
                        "comp": rng.choice(["default", "none", "lzf", "gzip1"])})
            if not any(o["op"] == "open" for o in ops[:-1]) or len([o for o in ops if o["op"] == "open"]) <= n_handles:
                ops[-1]["modify"] = False
                ops[-1]["cal"] = rng.choice([-1, 0, 1, 2, 3, 4])
            clock.setdefault(h, rng.choice([0, 1000, 10000, 123457]))
        for _ in range(rng.randint(1, 5) * n_handles):
            h = rng.choice(hs)
            r = rng.random()
            if r < 0.75:
                n = rng.choice(SIZES) if rng.random() < 0.7 else rng.randint(0, 30000)
                if iv > 10000:
                    n = min(n, 2500)
                if span.get("n", 0) + n > 90000:
                    n = rng.randint(0, 50)
                span["n"] = span.get("n", 0) + n
                tk = rng.choice(["array", "array", "int", "float"])
                if iv > 10000:
                    tk = "array"
                lens = [n, n, n]
                if rng.random() < 0.25:
                    lens[rng.randrange(3)] += rng.choice([1, 2, 777])
                t0 = clock[h]
                if t0 > 1_500_000_000:
                    continue
                dt = iv if rng.random() < 0.8 else rng.choice([iv, iv + 1, iv - 1, 1000, 13000])
                ops.append({"op": "append", "h": h, "id": ident, "tk": tk, "nt": lens[0], "nv": lens[1], "nc": lens[2],
                            "t0": t0, "dt": dt, "si": rng.random() < 0.4, "vtype": rng.choice(["u4", "i8", "u8"])})
                ident += 1
                clock[h] = t0 + max(n, 1) * max(dt, iv) + (0 if rng.random() < 0.85 else rng.choice([1000, 10000, 5_000_000]))
            elif r < 0.80:
                ops.append({"op": "append", "h": h, "id": ident, "tk": "bad", "nt": 5, "nv": 5, "nc": 5, "t0": 0,
                            "dt": 10000, "si": False})
                ident += 1
            elif r < 0.88:
                ops.append({"op": "stat", "h": h, "id": rng.randint(0, 1)})
            elif r < 0.94:
                ops.append({"op": "host", "h": h, "val": rng.choice(["sheep01", "artificial", "näme x"])})
            else:
                ops.append({"op": "config", "h": h, "val": rng.randint(1, 500)})
        for h in rng.sample(hs, len(hs)):
            ops.append({"op": "close", "h": h, "exc": rng.random() < 0.3})
            ops.append({"op": "inspect", "name": rng.choice(names)})
    return ops


def scenarios(rng, tier):
    n = 300 if tier == "quick" else 4000
    for i in range(n):
        k = rng.random()
        base = rng.choice([0, 0, 1, R.RAW_BASE_S])
        if k < 0.6:
            yield {"kind": "single", "base_s": base, "ops": history(rng, rng.randint(1, 4))}
        else:
            yield {"kind": "two-handles", "base_s": base,
                   "ops": history(rng, rng.randint(1, 3), 2, ("r.h5", "q.h5", "$0", "$1"))}

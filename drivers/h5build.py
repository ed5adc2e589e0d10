"""Build recordings directly with h5py (independent of the Writer under test)."""
import h5py
import numpy as np


def build(path, t, v, c, mode="harvester", dtype="ivsample", window=0, cal=None, host=None, comp=None, config=None,
          chunks=True):
    """cal: dict with voltage/current/time -> (gain, offset)."""
    cal = cal or {}
    defaults = {"voltage": (3e-9, 0.0), "current": (250e-12, 0.0), "time": (1e-9, 0.0)}
    with h5py.File(path, "w") as f:
        f.attrs["mode"] = mode
        if host is not None:
            f.attrs["hostname"] = host
        d = f.create_group("data")
        d.attrs["datatype"] = dtype
        d.attrs["window_samples"] = window
        if config is not None:
            d.attrs["config"] = config
        for name, arr, dt, unit, desc in (
            ("time", t, "u8", "s", "system time [s] = value * gain + (offset)"),
            ("current", c, "u4", "A", "current [A] = value * gain + offset"),
            ("voltage", v, "u4", "V", "voltage [V] = value * gain + offset"),
        ):
            ds = d.create_dataset(name, (len(arr),), dtype=dt, maxshape=(None,), chunks=True, compression=comp)
            ds[...] = np.asarray(arr).astype(dt)
            g, o = cal.get(name, defaults[name])
            ds.attrs["gain"] = g
            ds.attrs["offset"] = o
            ds.attrs["unit"] = unit
            ds.attrs["description"] = desc


def prog(arr, scale=1, base=0):
    """Project a column onto [first, step, count]; anything but an arithmetic progression yields the sentinel."""
    from vf.util import SENT, I

    if arr is None:
        return []
    a = np.asarray(arr)
    if a.ndim != 1:
        return [SENT, SENT, SENT]
    n = a.size
    if n == 0:
        return [0, 0, 0]
    if a.dtype.kind == "f":
        x = a * scale
        if not np.all(x == np.round(x)):
            return [SENT, SENT, n]
        x = x.astype(np.int64) - base
    else:
        x = (a.astype(object) - base)
        x = np.array([int(q) for q in x], dtype=np.int64) if n < 50 else a.astype(np.int64) - base
    d = np.diff(x)
    step = int(d[0]) if d.size else 0
    if not np.all(d == step):
        return [SENT, SENT, n]
    return [I(x[0]), I(step), n]

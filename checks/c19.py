"""C19: firmware is delivered and customised without corruption."""
import hashlib
import subprocess
import tempfile
from functools import lru_cache
from pathlib import Path

from drivers import elfgen
from vf.env import REPO

TRACE = "FirmwareTrace"
BATCH = 250
ASSUMPTIONS = ["given names of models carry no dot besides the suffix", "symbols are unique, not at address 0 and lie in exactly one loaded segment (or in none)"]
NOTHING = {"ok": False, "err": "", "ret": "", "raised": False, "found": False, "val": -1, "type": "", "mcu": "", "name": "", "local": False, "hash": "", "hash64": "",
           "cont": {"base": "", "ov": []}, "path": "", "match": False, "warned": False, "file": "", "id": -1, "arch": "", "elf": False, "hex": False,
           "hex_msp": False, "elf_msp": False, "hex_nrf": False, "elf_nrf": False}
UID = "SHEPHERD_NODE_ID"
SHIPPED = {"msp": "build_msp.elf", "nrf": "build_nrf.elf"}


def tv(t):
    return str(getattr(t, "value", t))


def models(tier):
    return [{"module": "FirmwareMC", "cfg": "FirmwareMC.cfg"}] + ([{"module": "FirmwareMC", "cfg": "FirmwareMC_deep.cfg"}] if tier == "thorough" else [])


def generators(tier):
    def conv(g):
        n = int(hashlib.sha256("".join(g).encode()).hexdigest()[:8], 16)
        return [{"kind": "plan", "plan": list(g) + ["compare"], "seed": n % 10**6}]

    return [{"module": "FirmwareMC", "cfg": "FirmwareGen.cfg", "cap": 330 if tier == "quick" else 10**6, "to_scenario": conv}]


def warmup():
    import logging
    import shepherd_core  # noqa: F401
    from shepherd_core import fw_tools  # noqa: F401
    from shepherd_core.data_models import Firmware  # noqa: F401
    logging.getLogger("pwnlib").setLevel(logging.CRITICAL)


@lru_cache(maxsize=4)
def shipped(which):
    b = (Path(REPO) / "shepherd_core/tests/fw_tools" / SHIPPED[which]).read_bytes()
    return b, elfgen.parse(b), objcopy(b)


def objcopy(b):
    with tempfile.TemporaryDirectory() as d:
        (Path(d) / "a.elf").write_bytes(b)
        subprocess.run(["objcopy", "-O", "ihex", d + "/a.elf", d + "/a.hex"], check=True)
        return (Path(d) / "a.hex").read_bytes()


def hexinfo(im):
    if not im:
        return {"min": -1, "vec": False, "val": 0}
    vec = 0xFFFE in im and 0xFFFF in im
    m = min(im)
    return {"min": m if m < 2**31 else 2**31 - 1, "vec": vec, "val": im[0xFFFE] | im[0xFFFF] << 8 if vec else 0}


def synth(rng, arch=None, small=False):
    arch = arch or rng.choice(["arm", "arm", "msp430", "msp430", "i386"])
    little = arch != "arm" or rng.random() < 0.6
    exec_ = rng.random() < 0.9
    segs, syms = [], []
    start = rng.choice([0x4000, 0x4000, 0x4000, 0x4001, 0x4400, 0x3FFE]) if arch == "msp430" else rng.choice([0x4000, 0x10, 0x1000, 0x10000, 0x20000])
    at = start
    for _k in range(rng.choice([1, 1, 2, 3])):
        n = rng.choice([8, 16, 33, 64]) if small or rng.random() < 0.8 else rng.choice([700, 5000])
        bss = rng.choice([0, 0, 0, 32])
        data = bytes(rng.choice([0, 255, rng.randrange(256)]) for _ in range(n))
        segs.append((at, data, bss))
        for p in rng.sample(range(0, n - 2), min(2, n - 2)) + ([n - 2] if rng.random() < 0.3 else []):
            syms.append((f"sym_{len(syms)}", at + p, rng.choice([2, 2, 4])))
        if bss:
            syms.append((f"bss_{len(syms)}", at + n + 8, 2))
        at += n + bss + rng.choice([4, 64, 4096])
        if at >= 0xFF00:
            at = max(at, 0x10100)
    if arch == "msp430" and at < 0xFF00 and rng.random() < 0.85:
        segs.append((0xFFFE, rng.choice([0x4000, 0x3FFF, 0xFF7F, 0xFF80, 0x4404, 0x8000, 0xFFFF]).to_bytes(2, "little"), 0))
    real = [s for s in syms if not s[0].startswith("bss")]
    if rng.random() < 0.85 and real:
        k = rng.choice(real)
        syms[syms.index(k)] = (UID, k[1], k[2])
    b = elfgen.build(arch, little, segs, syms, exec_=exec_, pad=rng.choice([0, 1, 3]))
    return b, arch, exec_


def bases_of(rng, big):
    """name -> (bytes, description)"""
    out = {}

    def elf(bid, b, arch, prs, hx, pick):
        little, ph, offs, _addr = prs
        names = [n for n in offs if offs[n] >= 0 and offs[n] + 4 <= len(b)]
        bss = [n for n in offs if offs[n] < 0]
        names = pick(names) + bss[:2]
        at = sorted({(o + k, b[o + k]) for n in names if offs[n] >= 0 for o in [offs[n]] for k in range(4)})
        im = elfgen.parse_hex(hx)
        out[bid] = (b, {"fmt": "elf", "arch": arch, "little": little, "at": [list(x) for x in at], "syms": [{"name": n, "off": offs[n]} for n in names], "hex": hexinfo(im)}, ph)
        out["hex:" + bid] = (hx, {"fmt": "hex" if im else "other", "arch": "", "little": little, "at": [list(x) for x in at], "syms": [], "hex": hexinfo(im)}, im)

    if big:
        w = rng.choice(sorted(SHIPPED))
        b, prs, hx = shipped(w)
        elf(w, b, {"msp": "em_msp430", "nrf": "arm"}[w], prs, hx, lambda ns: ([UID] if UID in ns else []) + rng.sample(sorted(ns), min(5, len(ns))))
    for k in range(1 if big else 2):
        b, arch, ex = synth(rng)
        prs = elfgen.parse(b)
        elf(f"s{k}", b, {"msp430": "em_msp430", "arm": "arm", "i386": "i386"}[arch] if ex else "", prs, objcopy(b), lambda ns: ns)
    for k in range(2):
        lo = rng.choice([0x4000, 0x4000, 0x4001, 0, 0x1000, 0x20000, 0x10000000])
        im = {lo + i: rng.randrange(256) for i in range(rng.choice([1, 2, 15, 16, 17, 60]))}
        r = rng.random()
        if r < 0.6:
            v = rng.choice([0x4000, 0x3FFF, 0xFF7F, 0xFF80, 0x5000, 0])
            im |= {0xFFFE: v & 255, 0xFFFF: v >> 8}
        elif r < 0.75:
            im |= {rng.choice([0xFFFE, 0xFFFF]): 0x44}
        out[f"h{k}"] = (elfgen.hexfile(im), {"fmt": "hex", "arch": "", "little": True, "at": [], "syms": [], "hex": hexinfo(im)}, None)
    junk = [b"", b"\x00", b"hello", bytes(rng.randrange(256) for _ in range(rng.choice([1, 100, 3000]))), b"\x7fELF", b"\x00" * 70000, b":00000001FF\n", b"\r\n\x1a",
            elfgen.hexfile({i: 3 for i in range(9)})[:-15] + b":0400000001020304FF\n", b"\x28\xb5\x2f\xfd" + bytes(rng.randrange(256) for _ in range(30)), "ümläut ≤".encode()]
    for k, j in enumerate(rng.sample(junk, 2)):
        out[f"x{k}"] = (j, {"fmt": "other", "arch": "", "little": True, "at": [], "syms": [], "hex": hexinfo(None)}, None)
    return out


class Dir:
    """The work directory and what its files contain."""

    def __init__(self, root, bases):
        self.root, self.bases = root, bases
        self.exact = {}
        for k, v in bases.items():
            self.exact.setdefault(hashlib.sha256(v[0]).hexdigest(), k)
        self.cache = {}

    def content(self, b):
        h = hashlib.sha256(b).hexdigest()
        if h not in self.cache:
            self.cache[h] = self._content(h, b)
        return self.cache[h]

    def _content(self, h, b):
        if h in self.exact:
            return {"base": self.exact[h], "ov": []}
        for k, (raw, d, _x) in self.bases.items():
            if d["fmt"] == "elf" and len(raw) == len(b):
                df = self.diff(raw, b)
                if df is not None:
                    return {"base": k, "ov": df}
        im = elfgen.parse_hex(b) if b[:1] == b":" else None
        if im:
            for k, (_raw, d, ref) in self.bases.items():
                if k.startswith("hex:") and ref and ref.keys() == im.keys():
                    ph = self.bases[k[4:]][2]
                    ov = [[self.off(ph, a), im[a]] for a in sorted(im) if im[a] != ref[a]]
                    if len(ov) < 40:
                        return {"base": k, "ov": ov}
        return {"base": "?" + h[:8], "ov": []}

    @staticmethod
    def off(ph, a):
        for p in ph:
            if p[3] <= a < p[3] + p[4]:
                return a - p[3] + p[1]
        return -1

    @staticmethod
    def diff(a, b):
        out, step = [], 4096
        for i in range(0, len(a), step):
            if a[i:i + step] != b[i:i + step]:
                out += [[j, b[j]] for j in range(i, min(i + step, len(a))) if a[j] != b[j]]
                if len(out) > 40:
                    return None
        return out

    def snap(self):
        return [{"path": str(p.relative_to(self.root)), **self.content(p.read_bytes())} for p in sorted(self.root.rglob("*")) if p.is_file()]

    def bytes_of(self, c):
        b = bytearray(self.bases[c["base"]][0])
        for o, v in c["ov"]:
            b[o] = v
        return bytes(b)


def execute(scn, work):
    import base64
    import logging
    import random

    import zstandard
    from shepherd_core import fw_tools as T
    from shepherd_core.data_models import Firmware
    from shepherd_core.data_models.task import FirmwareModTask
    from shepherd_core.logger import logger
    work = Path(work).resolve()
    rng = random.Random(scn["seed"])
    bases = bases_of(rng, rng.random() < (0.3 if scn["kind"] == "plan" else 0.4))
    D = Dir(work, bases)
    ev, ms = [], []
    SFX = {"elf": [".elf", ".bin", ".o", ".out", ".so", ".ELF"], "hex": [".hex", ".ihex", ".ihx", ".HEX"], "other": [".elf", ".hex", ".txt"]}
    (work / "sub").mkdir()

    def place(stem=None):
        bid = rng.choice([k for k in bases if not k.startswith("hex:") or rng.random() < 0.3])
        f = bases[bid][1]["fmt"]
        p = rng.choice(["", "sub/"]) + (stem or rng.choice(["a", "b", "c", "fw_1", "b.v1", "b.v2", "fw.2"])) + rng.choice(SFX[f] if rng.random() < 0.85 or f == "elf" else SFX["other"])
        (work / p).write_bytes(bases[bid][0])
        return p, bid

    for s in ("a", "b", "c"):
        place(s)
    init = {"bases": {k: v[1] for k, v in bases.items()}, "files": D.snap()}

    warned = []

    class H(logging.Handler):
        def emit(self, r):
            warned.append(r.levelno >= logging.WARNING)

    hd = H()

    def add(e, **obs):
        ev.append({**e, "obs": {**NOTHING, **obs, "files": D.snap()}})

    def present():
        return [f["path"] for f in D.snap()]

    def pick(fmt=None):
        l = [f for f in D.snap() if f["base"] in bases and (fmt is None or bases[f["base"]][1]["fmt"] == fmt)]
        return rng.choice(l)["path"] if l else None

    def base(p):
        return bases[D.content((work / p).read_bytes())["base"]][1]

    def arg(p):
        return work / p if rng.random() < 0.7 else str(work / p)

    def sym(p):
        b = base(p)
        l = [s["name"] for s in b["syms"]]
        if UID in l and rng.random() < 0.5:
            return UID
        return rng.choice(l + ["nix_da"]) if l and rng.random() < 0.85 else rng.choice(["nix_da", UID + "_X"])

    def read(p):
        s = sym(p)
        n = rng.choice([2, 2, 2, 1, 3])
        e = {"op": "read", "path": p, "sym": s, "len": n}
        try:
            found = T.find_symbol(arg(p), s)
            v = T.read_uid(arg(p)) if s == UID and n == 2 and rng.random() < 0.5 else T.read_symbol(arg(p), s, n)
            add(e, ok=True, found=bool(found), val=-1 if v is None else int(v))
        except Exception as x:  # noqa: BLE001
            add(e, err=repr(x)[:200])

    def modify(p, over, bad=False):
        s = sym(p)
        v = rng.choice([0, 1, 255, 256, 65535, 0x1234, rng.randrange(65536)])
        if bad:
            if rng.random() < 0.5:
                v = rng.choice([-1, 65536, 70000, -65536, 131072])
            else:
                s = "nix_da"
        uid = over and s == UID and rng.random() < 0.5
        q = Path(p)
        e = {"op": "modify", "path": p, "sym": s, "val": v, "over": over, "target": p if over else str(q.with_name(f"{q.stem}_{v}{q.suffix}"))}
        try:
            r = T.modify_uid(work / p, v) if uid else T.modify_symbol_value(arg(p), s, v, overwrite=over)
            add(e, ret="" if r is None else str(Path(r).resolve().relative_to(work)))
        except Exception as x:  # noqa: BLE001
            add(e, raised=True, err=repr(x)[:200])

    def cont_of(data):
        try:
            return D.content(zstandard.ZstdDecompressor().decompress(base64.b64decode(data)))
        except Exception:  # noqa: BLE001
            return {"base": "?", "ov": []}

    def dpath(x):
        try:
            return str(Path(x).relative_to(work))
        except ValueError:
            return str(x)[:80]

    def embed(p, emb):
        from shepherd_core.data_models.content.firmware import suffix_to_DType  # noqa: F401
        sfx = Path(p).suffix.lower()
        if sfx not in (".hex", ".ihex", ".ihx", ".elf", ".bin", ".o", ".out", ".so"):
            return
        kw = {}
        if rng.random() < 0.4:
            kw["name"] = rng.choice(["my_fw", "fw 7", "Äther"])
        if rng.random() < 0.15 and base(p)["fmt"] == ("hex" if "h" in sfx else "elf") and base(p)["arch"] in ("", "em_msp430", "arm"):
            kw["mcu"] = {"name": rng.choice(["nRF52", "MSP430FR"])}
        if not emb and rng.random() < 0.5:
            kw["description"] = "linked"
        e = {"op": "embed", "path": p, "embed": emb, "sfx": "hex" if "h" in sfx else "elf", "name": kw.get("name", Path(p).name), "mcu": kw.get("mcu", {}).get("name", "")}
        try:
            m = Firmware.from_firmware(work / p, embed=emb, **kw)
        except Exception as x:  # noqa: BLE001
            add(e, err=repr(x)[:200])
            return
        ms.append(m)
        add(e, ok=True, type=tv(m.data_type), mcu=m.mcu.name, name=m.name, local=m.data_local, hash=m.data_hash,
            **({"cont": cont_of(m.data)} if emb else {"path": dpath(m.data)}))

    def need_model():
        if not ms:
            p = pick(rng.choice(["elf", "hex"]))
            if p is not None:
                embed(p, rng.random() < 0.7)
        return rng.randrange(len(ms)) if ms else None

    def construct(i):
        m = ms[i]
        if tv(m.data_type).startswith("path"):
            return
        h, d = rng.choice(["right", "wrong", "wrong", "none"]), rng.choice(["same", "same", "broken"])
        e = {"op": "construct", "m": i + 1, "hash": h, "data": d}
        data = m.data if d == "same" else rng.choice([m.data[:len(m.data) // 2 // 4 * 4], "aaaa", "bm90IHpzdGQ=", m.data[4:], "!!!"])
        hv = {"right": m.data_hash or hashlib.sha3_224(zstandard.ZstdDecompressor().decompress(base64.b64decode(m.data))).hexdigest(), "none": None}
        hv["wrong"] = rng.choice([hv["right"][:-1] + ("0" if hv["right"][-1] != "0" else "1"), hv["right"][:-1], "", "0" * 56])
        try:
            kw = {"name": m.name, "mcu": {"name": m.mcu.name}, "data": data, "data_type": m.data_type if rng.random() < 0.5 else tv(m.data_type)}
            if h != "none" or rng.random() < 0.5:
                kw["data_hash"] = hv[h]
            n = Firmware(**kw)
            if h == "right" and not m.data_hash:
                return  # content known, hash was not announced before
            ms.append(n)
            add(e, ok=True)
        except Exception as x:  # noqa: BLE001
            add(e, err=repr(x)[:200])

    def extract(i):
        m = ms[i]
        t = "." + tv(m.data_type).replace("path_", "")
        dest = rng.choice(["", "sub", "out/x", "new/deep/y.txt", "a", "z.elf", "z.hex", "z.v1.elf", "out/z.v2.hex"])
        if (work / dest).is_dir():
            w = str(Path(dest) / Path(m.name).with_suffix(t))
        else:
            w = str(Path(dest).with_suffix(t))
        if tv(m.data_type).startswith("path") and dpath(m.data) == w:
            return
        if w in ("a.hex", "sub/a.hex") and (work / w).suffix != t:
            return
        e = {"op": "extract", "m": i + 1, "want": w}
        warned.clear()
        logger.addHandler(hd)
        lv, off = logger.level, logging.root.manager.disable
        logger.setLevel(logging.WARNING)
        logging.disable(logging.NOTSET)
        try:
            r = m.extract_firmware(arg(dest))
            add(e, ok=True, warned=any(warned), ret=str(Path(r).resolve().relative_to(work)))
        except Exception as x:  # noqa: BLE001
            add(e, err=repr(x)[:200])
        finally:
            logger.removeHandler(hd)
            logger.setLevel(lv)
            logging.disable(off)

    def tamper():
        p = rng.choice(present())
        r = rng.random()
        if r < 0.25 and len(present()) > 2:
            (work / p).unlink()
            ev.append({"op": "remove", "path": p})
            return
        b = base(p)
        if r < 0.75 and b["fmt"] == "elf" and b["at"]:
            c = dict(D.content((work / p).read_bytes()))
            # bytes behind the two of a symbol may already belong to the structure of the file
            o = rng.choice([x["off"] for x in b["syms"] if x["off"] >= 0]) + rng.randrange(2)
            raw = bytearray((work / p).read_bytes())
            raw[o] = rng.randrange(256)
            (work / p).write_bytes(raw)
            c = D.content(bytes(raw))
        else:
            f = b["fmt"]
            bid = rng.choice([k for k in bases if bases[k][1]["fmt"] == f])
            (work / p).write_bytes(bases[bid][0])
            c = D.content(bases[bid][0])
        e = {"op": "write", "path": p, **c}
        add(e)

    def compare(i):
        m = ms[i]
        p = rng.choice(["", rng.choice(present()), "missing.elf"])
        e = {"op": "compare", "m": i + 1, "path": p}
        try:
            r = m.compare_hash() if p == "" else m.compare_hash(work / p)
            add(e, ok=True, match=bool(r))
        except Exception as x:  # noqa: BLE001
            add(e, err=repr(x)[:200])

    def mod(i):
        m = ms[i]
        d = rng.choice(["sub", "task_fw.hex", "sub/t"])
        k = rng.choice([0, 1, 65535, 300])
        e = {"op": "mod", "m": i + 1, "id": k, "file": d if not (work / d).is_dir() else str(Path(d) / Path(m.name).with_suffix(".hex"))}
        try:
            t = FirmwareModTask.from_firmware(m, firmware_file=work / d, custom_id=k)
            add(e, ok=True, type=tv(t.data_type), file=dpath(t.firmware_file), id=t.custom_id,
                **({"path": dpath(t.data)} if tv(m.data_type).startswith("path") else {"cont": cont_of(t.data)}))
        except Exception as x:  # noqa: BLE001
            add(e, err=repr(x)[:200])

    def detect(p):
        b = base(p)
        if b["fmt"] == "elf" and b["arch"] not in ("em_msp430", "arm"):
            return

        def attempt(f):
            try:
                return f(work / p)
            except ValueError:
                return "none"
        try:
            t = attempt(T.determine_type)
            add({"op": "detect", "path": p}, ok=True, type=tv(t), arch=attempt(T.determine_arch), elf=bool(T.is_elf(arg(p))), hex=bool(T.is_hex(arg(p))),
                hex_msp=bool(T.is_hex_msp430(work / p)), hex_nrf=bool(T.is_hex_nrf52(work / p)), elf_msp=bool(T.is_elf_msp430(work / p)), elf_nrf=bool(T.is_elf_nrf52(work / p)))
        except Exception as x:  # noqa: BLE001
            add({"op": "detect", "path": p}, err=repr(x)[:200])

    def encode(p):
        t = rng.choice(["e/n.bin", "e2.dat", "sub/e.x", p])
        e = {"op": "encode", "path": p, "target": t}
        try:
            s = T.file_to_base64(arg(p))
            h, h64 = T.file_to_hash(arg(p)), T.base64_to_hash(s)
            T.base64_to_file(s, arg(t))
            add(e, ok=True, hash=h, hash64=h64)
        except Exception as x:  # noqa: BLE001
            add(e, err=repr(x)[:200])

    def tohex(p):
        direct = rng.random() < 0.3
        if Path(p).suffix.lower() == ".hex" and base(p)["fmt"] == "elf":
            return
        t = rng.choice(["h1.hex", "sub/h2.hex"]) if direct else str(Path(p).with_suffix(".hex"))
        if direct and base(p)["fmt"] != "elf":
            return
        e = {"op": "tohex", "path": p, "target": t, "direct": direct}
        try:
            r = T.elf_to_hex(arg(p), arg(t)) if direct else T.firmware_to_hex(arg(p))
            add(e, ok=True, ret=str(Path(r).resolve().relative_to(work)))
        except Exception as x:  # noqa: BLE001
            add(e, err=repr(x)[:200])

    for step in scn["plan"]:
        p = pick("elf" if rng.random() < 0.75 else None) or pick()
        q = rng.choice(present())
        if step == "read":
            read(p)
        elif step in ("over", "copy", "bad"):
            modify(p, step == "over" or step == "bad" and rng.random() < 0.5, step == "bad")
        elif step in ("embed", "link"):
            embed(pick(rng.choice(["elf", "hex", None])) or q, step == "embed")
        elif step == "tamper":
            tamper()
        elif step == "hex":
            tohex(p if rng.random() < 0.8 else q)
        elif step == "detect":
            detect(q)
        elif step == "encode":
            encode(q)
        else:
            i = need_model()
            if i is not None:
                {"construct": construct, "extract": extract, "compare": compare, "mod": mod}[step](i)
    return {"init": init, "ev": ev}


def scenarios(rng, tier):
    steps = ["read", "read", "over", "copy", "copy", "bad", "embed", "link", "tamper", "extract", "extract", "compare", "compare", "mod", "construct", "detect", "encode", "hex"]
    return [{"kind": "random", "plan": [rng.choice(steps) for _ in range(rng.choice([4, 8, 12]))], "seed": rng.randrange(10**9)} for _ in range(900 if tier == "quick" else 9000)]

"""Small ELF executables with chosen segments and symbols, and a parser that locates symbols in files."""
import struct

MACH = {"msp430": 105, "arm": 40, "i386": 3}


def build(arch, little, segs, syms, exec_=True, pad=0):
    """segs: [(vaddr, bytes, bss_len)], syms: [(name, vaddr, size)] -> bytes"""
    E = "<" if little else ">"
    n = len(segs)
    hdr = 52 + 32 * n
    out = bytearray(hdr)
    offs = []
    for _v, data, _b in segs:
        out += b"\x00" * ((-len(out)) % 4 + pad)
        offs.append(len(out))
        out += data
    out += b"\x00" * ((-len(out)) % 4)
    strtab = b"\x00"
    symtab = struct.pack(E + "IIIBBH", 0, 0, 0, 0, 0, 0)
    for name, v, size in syms:
        sec = next((i + 1 for i, (sv, d, b) in enumerate(segs) if sv <= v < sv + max(len(d) + b, 1)), 0xFFF1)
        symtab += struct.pack(E + "IIIBBH", len(strtab), v, size, (1 << 4) | 1, 0, sec)
        strtab += name.encode() + b"\x00"
    names = [""] + [f".seg{i}" for i in range(n)] + [".symtab", ".strtab", ".shstrtab"]
    shstr, pos = b"", []
    for nm in names:
        pos.append(len(shstr))
        shstr += nm.encode() + b"\x00"
    o_sym = len(out)
    out += symtab
    o_str = len(out)
    out += strtab
    o_shs = len(out)
    out += shstr
    out += b"\x00" * ((-len(out)) % 4)
    shoff = len(out)
    sh = [(0,) * 10]
    for i, (v, d, b) in enumerate(segs):
        sh.append((pos[i + 1], 1 if d else 8, 3, v, offs[i], len(d) or b, 0, 0, 1, 0))
    sh.append((pos[n + 1], 2, 0, 0, o_sym, len(symtab), n + 2, 1, 4, 16))
    sh.append((pos[n + 2], 3, 0, 0, o_str, len(strtab), 0, 0, 1, 0))
    sh.append((pos[n + 3], 3, 0, 0, o_shs, len(shstr), 0, 0, 1, 0))
    for s in sh:
        out += struct.pack(E + "10I", *s)
    out[:52] = b"\x7fELF" + bytes([1, 1 if little else 2, 1, 0]) + b"\x00" * 8 + struct.pack(
        E + "HHIIIIIHHHHHH", 2 if exec_ else 3, MACH[arch], 1, segs[0][0], 52, shoff, 0, 52, 32, n, 40, len(sh), len(sh) - 1)
    for i, (v, d, b) in enumerate(segs):
        out[52 + 32 * i:84 + 32 * i] = struct.pack(E + "8I", 1, offs[i], v, v, len(d), len(d) + b, 5 if i else 6, 1)
    return bytes(out)


def parse(b):
    """-> (little, segments, {symbol: file offset or -1}, {symbol: vaddr}); ambiguous symbols are left out."""
    little = b[5] == 1
    E = "<" if little else ">"
    phoff, shoff = struct.unpack(E + "II", b[28:36])
    _phes, phn, shes, shn, _ = struct.unpack(E + "HHHHH", b[42:52])
    ph = [struct.unpack(E + "8I", b[phoff + i * 32:phoff + i * 32 + 32]) for i in range(phn)]
    ph = [p for p in ph if p[0] == 1]
    sh = [struct.unpack(E + "10I", b[shoff + i * shes:shoff + i * shes + 40]) for i in range(shn)]
    found = {}
    for s in sh:
        if s[1] == 2:
            st = sh[s[6]]
            for i in range(s[5] // 16):
                n, v, _sz, info, _o, _x = struct.unpack(E + "IIIBBH", b[s[4] + 16 * i:s[4] + 16 * i + 16])
                e = b.index(b"\x00", st[4] + n)
                found.setdefault(b[st[4] + n:e].decode("latin1"), []).append((v, info & 15))
    offs, addr = {}, {}
    for n, l in found.items():
        if not n or len(l) > 1 or l[0][1] not in (1, 2) or l[0][0] == 0:
            continue
        v = l[0][0]
        cov = [p for p in ph if p[2] <= v and v + 2 <= p[2] + p[4]]
        touch = [p for p in ph if p[2] < v + 2 and v < p[2] + max(p[4], p[5])]
        if len(cov) == 1 and len(touch) == 1:
            offs[n] = v - cov[0][2] + cov[0][1]
        elif not cov and not any(p[2] < v + 2 and v < p[2] + p[4] for p in ph):
            offs[n] = -1
        else:
            continue
        addr[n] = v - (cov[0][2] - cov[0][3]) if cov else v
    return little, ph, offs, addr


def hexfile(image, eof=True):
    """{addr: byte} -> text of an intel-hex"""
    out, hi = [], 0

    def rec(a, t, d):
        b = bytes([len(d), a >> 8 & 255, a & 255, t]) + bytes(d)
        out.append(":" + (b + bytes([-sum(b) & 255])).hex().upper())

    addrs = sorted(image)
    i = 0
    while i < len(addrs):
        j = i
        while j + 1 < len(addrs) and addrs[j + 1] == addrs[j] + 1 and j - i < 15 and (addrs[j + 1] >> 16) == (addrs[i] >> 16):
            j += 1
        a = addrs[i]
        if a >> 16 != hi:
            hi = a >> 16
            rec(0, 4, [hi >> 8, hi & 255])
        rec(a & 0xFFFF, 0, [image[k] for k in addrs[i:j + 1]])
        i = j + 1
    if eof:
        rec(0, 1, [])
    return ("\n".join(out) + "\n").encode() if out else b""


def parse_hex(b):
    """-> {addr: byte} or None"""
    im, hi = {}, 0
    try:
        for ln in b.decode("ascii").split():
            if ln[0] != ":":
                return None
            r = bytes.fromhex(ln[1:])
            if sum(r) & 255 or len(r) != r[0] + 5:
                return None
            a, t, d = r[1] << 8 | r[2], r[3], r[4:-1]
            if t == 0:
                for k, v in enumerate(d):
                    im[hi + a + k] = v
            elif t == 4:
                hi = (d[0] << 8 | d[1]) << 16
            elif t == 2:
                hi = (d[0] << 8 | d[1]) << 4
    except (ValueError, IndexError):
        return None
    return im

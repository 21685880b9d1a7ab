"""A linker for object files read by objfmt: every section and external at a chosen address, each relocation applied as its format says."""
from objfmt import Bad, Sec, Sym

IMAGEBASE = 0x100000


class Unsup(Exception):
    pass


def put(d, off, n, v, signed=None):
    if off < 0 or off + n > len(d):
        raise Bad("relocation outside its section")
    d[off:off + n] = (v & (1 << 8 * n) - 1).to_bytes(n, "little")


def get(d, off, n):
    if off < 0 or off + n > len(d):
        raise Bad("relocation outside its section")
    return int.from_bytes(d[off:off + n], "little", signed=True)


def addr_of(y, base, ext):
    if isinstance(y, Sec):
        return base[y.name]
    if y.sec is None or y.sec == "common":
        if y.name not in ext:
            raise Bad("undefined symbol '%s'" % y.name)
        return ext[y.name]
    if y.sec == "abs":
        return y.value
    if isinstance(y.sec, Sec):
        return base[y.sec.name] + y.value
    raise Bad("relocation against symbol %s in %s" % (y.name, y.sec))


def link(fmt, obj, host, base, ext, flat=False, inline=False):
    s = obj.sec(host)
    if s is None:
        raise Bad("section %s is missing" % host)
    d = bytearray(s.data)
    for r in s.relocs:
        P = base[host] + r.off
        t = r.type
        if fmt in ("-elf", "-elf64"):
            S = addr_of(r.sym, base, ext)
            if fmt == "-elf":
                n, pc = {1: (4, 0), 2: (4, 1), 4: (4, 1), 20: (2, 0), 21: (2, 1), 22: (1, 0), 23: (1, 1)}.get(t) or sup(t)
                A = get(d, r.off, n)
            else:
                n, pc = {1: (8, 0), 2: (4, 1), 4: (4, 1), 10: (4, 0), 11: (4, 0), 12: (2, 0), 13: (2, 1), 14: (1, 0), 15: (1, 1), 24: (8, 1)}.get(t) or sup(t)
                A = r.addend + (get(d, r.off, n) if inline else 0)
            v = S + A - (P if pc else 0)
            if n == 4 and t in (10,) and not 0 <= v < 1 << 32:
                raise Bad("R_X86_64_32 of %#x" % v)
            if n == 4 and (t == 11 or pc and fmt == "-elf64") and not -1 << 31 <= v < 1 << 31:
                raise Bad("32-bit relocation overflows: %#x" % v)
            put(d, r.off, n, v)
        elif fmt in ("-coff", "-win64"):
            S = addr_of(r.sym, base, ext)
            secno = r.sym.sec
            if fmt == "-coff":
                k = {6: ("a", 4), 7: ("nb", 4), 0x14: ("r", 4), 0xa: ("si", 2), 0xb: ("sr", 4), 1: ("a", 2), 2: ("r", 2)}.get(t) or sup(t)
                x = 0
            else:
                k = {1: ("a", 8), 2: ("a", 4), 3: ("nb", 4), 4: ("r", 4), 5: ("r", 4), 6: ("r", 4), 7: ("r", 4), 8: ("r", 4), 9: ("r", 4), 0xa: ("si", 2), 0xb: ("sr", 4)}.get(t) or sup(t)
                x = t - 4 if 4 <= t <= 9 else 0
            n = k[1]
            A = get(d, r.off, n)
            if k[0] == "a":
                v = S + A
            elif k[0] == "nb":
                v = S + A - IMAGEBASE
            elif k[0] == "r":
                v = S + A - (P + n + x)
                if not -1 << 31 <= v < 1 << 31:
                    raise Bad("relative relocation overflows: %#x" % v)
            elif k[0] == "sr":
                v = S + A - (base[r.sym.sec.name] if isinstance(r.sym.sec, Sec) else 0)
            else:
                v = A + (r.sym.sec.idx if isinstance(r.sym.sec, Sec) else 0)
            put(d, r.off, n, v)
        elif fmt == "-macho64":
            y = r.sym
            S = addr_of(y, base, ext) if r.ext else base[y.name] - y.addr
            n = r.len
            A = get(d, r.off, n)
            if r.pcrel:
                if t not in (1, 2, 3, 4, 6, 7, 8):
                    sup(t)
                v = S + A - (P + 4) if r.ext else S + A + s.addr - base[host]
            else:
                if t != 0:
                    sup(t)
                v = S + A
            put(d, r.off, n, v)
        else:
            m, ix = r.target
            if m == 0:
                tgt = base[obj.segs[ix].name]
            elif m == 1:
                tgt = min(base[g.name] for g in obj.groups[ix][1]) if obj.groups[ix][0] != "FLAT" else 0
            elif m == 2:
                tgt = addr_of(obj.ext[ix], base, ext)
            else:
                sup(("target", m))
            fm, fi = r.frame

            def grp(i):
                g = obj.groups[i]
                return 0 if g[0] == "FLAT" else min(base[x.name] for x in g[1]) & ~15
            if flat:
                fr = 0
            elif fm == 0:
                fr = base[obj.segs[fi].name] & ~15
            elif fm == 1:
                fr = grp(fi)
            elif fm == 2:
                fr = ext["frame:" + obj.ext[fi].name]
            elif fm == 4:
                fr = base[host] & ~15
            elif fm == 5:
                fr = {0: lambda: base[obj.segs[ix].name] & ~15, 1: lambda: grp(ix), 2: lambda: ext["frame:" + obj.ext[ix].name]}[m]()
            else:
                sup(("frame", fm))
            tgt += r.addend
            loc = r.type
            if loc in (1, 5, 9, 13, 0, 4):
                n = {0: 1, 4: 1, 1: 2, 5: 2, 9: 4, 13: 4}[loc]
                if r.selfrel:
                    put(d, r.off, n, get(d, r.off, n) + tgt - (P + n))
                elif loc == 4:
                    put(d, r.off, 1, (get(d, r.off, 1) + ((tgt - fr) >> 8)))
                else:
                    put(d, r.off, n, get(d, r.off, n) + tgt - fr)
            elif loc == 2:
                put(d, r.off, 2, get(d, r.off, 2) + (fr >> 4))
            elif loc in (3, 11):
                n = 2 if loc == 3 else 4
                put(d, r.off, n, get(d, r.off, n) + tgt - fr)
                put(d, r.off + n, 2, get(d, r.off + n, 2) + (fr >> 4))
            else:
                sup(loc)
    return bytes(d)


def sup(t):
    raise Bad("relocation type %s has no meaning in an object file" % (t,))

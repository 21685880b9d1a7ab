"""C18 images: BIN, MZ and PE files are loaded by small loaders (the MZ one at two segments, the PE one at two bases), and every byte and every
reference of every arrangement of segments, groups, alignments, orders and sizes is checked in the loaded memory."""
import itertools, os, re, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from vlib import *

ck = Check("C18", variants=("plain",))
T = ck.thorough
ALIGN = {"byte": 1, "word": 2, "dword": 4, "para": 16, "page": 256}


def u16(b, o):
    return struct.unpack_from("<H", b, o)[0]


def u32(b, o):
    return struct.unpack_from("<I", b, o)[0]


# ------------------------------------------------------------------- MZ / BIN, 16-bit --
class Seg:
    def __init__(self, i, align, grp, cls, size, bss=False, stack=False, use="use16"):
        self.i, self.align, self.grp, self.cls, self.size, self.bss, self.stack, self.use = i, align, grp, cls, size, bss, stack, use
        self.n = "sg%d" % i


def mark(i):
    return b"<S%d#mk>" % i + bytes([0xA0 + i])


def text16(segs, order, entry, fmt):
    """source, and per segment the list of references in it: (kind, target index), in order of emission"""
    out = [".386"]
    if order:
        out.append(order)
    groups = sorted({s.grp for s in segs if s.grp})
    for s in segs:      # declared first, so that groups can be named
        out += ["%s segment %s %s %s '%s'" % (s.n, s.align, "stack" if s.stack else "public", s.use, s.cls), s.n + " ends"]
    for g in groups:
        out.append("%s group %s" % (g, ",".join(s.n for s in segs if s.grp == g)))
    refs = {}
    for s in segs:
        r = refs[s.i] = []
        out.append("%s segment" % s.n)
        out.append("assume cs:%s, ds:nothing, es:nothing" % (s.grp or s.n))
        out.append("b%d label near" % s.i)
        if s.bss or s.stack:
            out.append("db %d dup (?)" % s.size)
            out += ["e%d label byte" % s.i, s.n + " ends"]
            continue
        out.append("db '<S%d#mk>', 0%xh" % (s.i, 0xA0 + s.i))
        for t in segs:
            k = t.i
            for lab in ("b%d" % k, "e%d" % k):
                if fmt == "-mz":
                    out += ["dw offset %s, seg %s" % (lab, lab)]
                    r.append(("os", k, lab))
                    out += ["dd %s" % lab]
                    r.append(("far", k, lab))
                    out += ["dw offset %s:%s, %s" % (t.n, lab, t.n)]
                    r.append(("os", k, lab))
                    if t.grp:
                        out += ["dw offset %s:%s, %s" % (t.grp, lab, t.grp)]
                        r.append(("os", k, lab))
                    out += ["dw low offset %s" % lab if 0 else "db low (offset %s), high (offset %s)" % (lab, lab)]
                    r.append(("lh", k, lab))
                    if s.size & 1:
                        out += ["call far ptr %s" % lab, "df %s" % lab]
                        r.append(("callf", k, lab))
                        r.append(("df", k, lab))
                else:
                    out += ["dw offset %s" % lab]
                    r.append(("o", k, lab))
                if s.use == "use16" and (t is s or s.grp and s.grp == t.grp) and lab[0] == "b":
                    out += ["call %s" % lab]
                    r.append(("near", k, lab))
        if s.size:
            out.append("db %d dup (0%xh)" % (s.size, 0xE0 + s.i))
        out += ["e%d label byte" % s.i, s.n + " ends"]
    out.append("end" + (" b%d" % entry if entry is not None else ""))
    return "\n".join(out) + "\n", refs


LEN = {"os": 4, "far": 4, "lh": 2, "callf": 5, "df": 6, "o": 2, "near": 3}


class Bad(Exception):
    pass


def load_mz(img, base):
    """memory, load segment, entry, stack, size of the memory the program owns"""
    if img[:2] != b"MZ":
        raise Bad("no MZ signature")
    cblp, cp, crlc, cpar, mina, maxa, ss, sp, csum, ip, cs, lfarlc = struct.unpack_from("<12H", img, 2)
    size = cp * 512 - (512 - cblp if cblp else 0)
    if size != len(img):
        raise Bad("header says %d bytes, the file has %d" % (size, len(img)))
    hdr = cpar * 16
    if hdr > size or crlc and (lfarlc < 0x1c or lfarlc + 4 * crlc > hdr):
        raise Bad("relocation table outside the header")
    if maxa < mina:
        raise Bad("maxalloc below minalloc")
    mem = bytearray(img[hdr:])
    mem += bytes(0)
    rel = []
    for i in range(crlc):
        o, s = struct.unpack_from("<HH", img, lfarlc + 4 * i)
        a = s * 16 + o
        if a + 2 > len(mem):
            raise Bad("relocation %d at %x outside the image" % (i, a))
        rel.append(a)
        struct.pack_into("<H", mem, a, (u16(mem, a) + base) & 0xffff)
    if len(set(rel)) != len(rel):
        raise Bad("a location is relocated twice")
    return mem, rel, ((cs + base) & 0xffff, ip), ((ss + base) & 0xffff, sp), len(mem) + mina * 16


def judge16(ctx, case):
    fmt, order, entry, spec = case
    segs = [Seg(i, *x) for i, x in enumerate(spec)]
    src, refs = text16(segs, order, entry, fmt)
    r = ctx.srv().asm(src, [fmt, "-nomlib"])
    key = "%s:%s:%s:%s" % (fmt, order, entry, ";".join(",".join(str(y) for y in x) for x in spec))
    ctx.outcome(case)
    ctx.n["assemblies"] += 1
    img = r.obj()
    if r.exit or not img:
        return V(key + ":reject", "not assembled: " + r.text()[:300], source=src)
    ctx.sample(src)
    try:
        if fmt == "-mz":
            for base in (0, 0x1234):
                check_mz(ctx, img, base, segs, refs, order, entry)
        else:
            check_bin(ctx, img, segs, refs, order, entry)
    except Bad as e:
        return V(key, str(e), source=src, image=img)


def order_of(segs, order):
    if order == ".alpha":
        return sorted(segs, key=lambda s: s.n)
    if order == ".dosseg":
        cl = {"CODE": 0, "XDATA": 1, "DATA": 2, "BSS": 3}
        return sorted(segs, key=lambda s: 4 if s.stack else cl[s.cls])
    return segs


def find_all(mem, segs, refs, key_addr):
    """markers: unique, aligned, in order"""
    at = {}
    for s in segs:
        if s.bss or s.stack:
            continue
        m = mark(s.i)
        a = mem.find(m)
        if a < 0:
            raise Bad("the first bytes of %s are not in the image" % s.n)
        if mem.find(m, a + 1) >= 0:
            raise Bad("%s is in the image twice" % s.n)
        at[s.i] = a
    return at


def content_end(s, refs):
    return len(mark(s.i)) + sum(LEN[k] for k, _, _ in refs[s.i]) + s.size


def check_mz(ctx, img, base, segs, refs, order, entry):
    mem, rel, (cs, ip), (ss, sp), total = load_mz(img, base)
    lin0 = base * 16
    at = find_all(mem, segs, refs, None)
    addr = {}                   # label -> linear address, relative to the load address
    used = []
    relocs = set()
    pend = []
    for s in segs:
        if s.i not in at:
            continue
        a = at[s.i]
        if a % min(ALIGN[s.align], 16):          # a DOS program starts at any paragraph
            raise Bad("%s is at %x, not aligned %s" % (s.n, a, s.align))
        n = content_end(s, refs)
        if a + n > len(mem):
            raise Bad("%s ends at %x behind the image" % (s.n, a + n))
        addr["b%d" % s.i], addr["e%d" % s.i] = a, a + n
        if s.size and mem[a + n - s.size:a + n] != bytes([0xE0 + s.i]) * s.size:
            raise Bad("the last bytes of %s are not in the image" % s.n)
        used.append((a, a + n, s.n))
    for s in segs:              # BSS and stack: where the references say
        if s.i not in at:
            continue
        p = at[s.i] + len(mark(s.i))
        low = None
        for kind, t, lab in refs[s.i]:
            ts = segs[t]
            seg = None
            if kind == "os" or kind == "far":
                off, seg = u16(mem, p), u16(mem, p + 2)
                relocs.add(p + 2)
                if low is None:
                    low = {}
                low.setdefault(lab, off)
            elif kind == "df":
                off, seg = u32(mem, p), u16(mem, p + 4)
                relocs.add(p + 4)
            elif kind == "callf":
                if mem[p] == 0x9A:
                    off, seg = u16(mem, p + 1), u16(mem, p + 3)
                    relocs.add(p + 3)
                elif mem[p:p + 3] == b"\x90\x0e\xe8" or mem[p:p + 2] == b"\x0e\xe8":     # push cs / call near
                    k = 3 if mem[p] == 0x90 else 2
                    v = struct.unpack_from("<h", mem, p + k)[0]
                    lin = p + k + 2 + v
                    if kind == "callf" and mem[p] != 0x90 and mem[p + 4] != 0x90:
                        raise Bad("unexpected far call %s" % bytes(mem[p:p + 5]).hex())
                    off = None
                else:
                    raise Bad("unexpected far call %s" % bytes(mem[p:p + 5]).hex())
            elif kind == "lh":
                off = None
                if mem[p] | mem[p + 1] << 8 != low[lab]:
                    raise Bad("LOW/HIGH OFFSET %s in %s is %x, OFFSET is %x" % (lab, s.n, u16(mem, p), low[lab]))
                p += 2
                continue
            elif kind == "near":
                lin = p + 3 + struct.unpack_from("<h", mem, p + 1)[0]
                off = None
            if off is not None:
                lin = ((seg * 16 + off) & 0xfffff) - lin0 if seg is not None else None
            if lab not in addr:
                addr[lab] = lin
            elif addr[lab] != lin:
                raise Bad("%s in %s (%s) says %s is at %x, it is at %x (loaded at %x)" % (kind, s.n, hex(p), lab, lin, addr[lab], base))
            p += LEN[kind]
            ctx.n["references"] += 1
    if set(rel) != relocs:
        raise Bad("relocated: %s, segment values: %s" % (sorted(rel), sorted(relocs)))
    for s in segs:
        if s.i not in at and ("b%d" % s.i) in addr:
            a, e = addr["b%d" % s.i], addr["e%d" % s.i]
            if e - a != s.size:
                raise Bad("%s has %d bytes instead of %d" % (s.n, e - a, s.size))
            if a % min(ALIGN[s.align], 16):          # a DOS program starts at any paragraph
                raise Bad("%s is at %x, not aligned %s" % (s.n, a, s.align))
            used.append((a, e, s.n))
    used.sort()
    for (a, b, n), (c, d, m) in zip(used, used[1:]):
        if c < b:
            raise Bad("%s [%x,%x) and %s [%x,%x) overlap" % (n, a, b, m, c, d))
    pos = {n: a for a, b, n in used if b > a}
    want = [s.n for s in order_of(segs, order) if s.n in pos]
    if sorted(pos, key=pos.get) != want:
        raise Bad("order in memory %s, expected %s" % (sorted(pos, key=pos.get), want))
    if used and used[-1][1] > total:
        raise Bad("%s ends at %x, the program only gets %x bytes" % (used[-1][2], used[-1][1], total))
    cov = 0
    for a, b, n in used:
        if a > len(mem):
            break
        if any(mem[cov:a]):
            raise Bad("the gap before %s is not empty" % n)
        if a - cov >= 256:
            raise Bad("a gap of %d bytes before %s" % (a - cov, n))
        cov = max(cov, b)
    if len(mem) > cov:
        raise Bad("the image is longer than its segments")
    if entry is not None and cs * 16 + ip - lin0 != addr["b%d" % entry]:
        raise Bad("entry point %x, label b%d is at %x" % (cs * 16 + ip - lin0, entry, addr["b%d" % entry]))
    st = [s for s in segs if s.stack]
    if st and "e%d" % st[0].i in addr:
        top = ss * 16 + sp - lin0
        e = addr["e%d" % st[0].i]
        if not (e <= top < e + 16) or top > total or addr["b%d" % st[0].i] % 16 == 0 and top != e:
            raise Bad("stack top %x, the stack segment ends at %x (memory %x)" % (top, e, total))


def check_bin(ctx, mem, segs, refs, order, entry):
    at = find_all(mem, segs, refs, None)
    used = []
    addr = {}
    for s in segs:
        if s.i in at:
            a = at[s.i]
            n = content_end(s, refs)
            if a % ALIGN[s.align]:
                raise Bad("%s is at %x, not aligned %s" % (s.n, a, s.align))
            if a + n > len(mem) or s.size and mem[a + n - s.size:a + n] != bytes([0xE0 + s.i]) * s.size:
                raise Bad("the last bytes of %s are not in the image" % s.n)
            addr["b%d" % s.i], addr["e%d" % s.i] = a, a + n
            used.append((a, a + n, s.n))
    frames = {}
    for s in segs:
        if s.i not in at:
            continue
        p = at[s.i] + len(mark(s.i))
        for kind, t, lab in refs[s.i]:
            if kind == "o":
                off = u16(mem, p)
                if lab in addr:
                    # the frame is that of the target's group or segment, the same for all references to it
                    fr = addr[lab] - off
                    k = segs[t].grp or segs[t].n
                    if fr & 15 or frames.setdefault(k, fr) != fr:
                        raise Bad("offset of %s in %s is %x, it is at %x; other offsets in %s are relative to %x" % (lab, s.n, off, addr[lab], k, frames.get(k, -1)))
                else:
                    frames.setdefault(("bss", lab), off)
                    if frames["bss", lab] != off:
                        raise Bad("offsets of %s differ" % lab)
            else:
                lin = p + 3 + struct.unpack_from("<h", mem, p + 1)[0]
                if lab in addr and addr[lab] != lin:
                    raise Bad("near call in %s goes to %x, %s is at %x" % (s.n, lin, lab, addr[lab]))
            p += LEN[kind]
            ctx.n["references"] += 1
    for s in segs:
        if s.i not in at and ("bss", "b%d" % s.i) in frames:
            a, e = frames["bss", "b%d" % s.i], frames["bss", "e%d" % s.i]
            if e - a != s.size:
                raise Bad("%s has %d bytes instead of %d" % (s.n, e - a, s.size))
            if s.grp in frames:
                a, e = a + frames[s.grp], e + frames[s.grp]
                if a % ALIGN[s.align]:
                    raise Bad("%s is at %x, not aligned" % (s.n, a))
                used.append((a, e, s.n))
    for k, fr in frames.items():        # a frame starts in the paragraph its first member is in
        if not isinstance(k, tuple):
            mem_ = [a for a, b, n in used for s in segs if s.n == n and (s.grp or s.n) == k]
            if fr != min(mem_) & ~15:
                raise Bad("offsets in %s are relative to %x, its first segment is at %x" % (k, fr, min(mem_)))
    used.sort()
    for (a, b, n), (c, d, m) in zip(used, used[1:]):
        if c < b:
            raise Bad("%s [%x,%x) and %s [%x,%x) overlap" % (n, a, b, m, c, d))
    pos = {n: a for a, b, n in used if b > a}
    want = [s.n for s in order_of(segs, order) if s.n in pos]
    if sorted(pos, key=pos.get) != want:
        raise Bad("order in the image %s, expected %s" % (sorted(pos, key=pos.get), want))
    cov = 0
    for a, b, n in used:
        if a < len(mem) and any(mem[cov:a]):
            raise Bad("the gap before %s is not empty" % n)
        cov = max(cov, b)
    last = max(b for a, b, n in used if any(s.n == n and s.i in at for s in segs))
    if len(mem) != last and not (last < len(mem) <= cov):
        raise Bad("image of %d bytes, its segments end at %d" % (len(mem), last))


SIZES = (0, 1, 5)


def g_16():
    al = list(ALIGN)
    V1 = [(a, g, c, z) for a in al for g in (None, "G1", "G2") for c, z in (("CODE", 1), ("DATA", 6))]
    # pairs of every kind
    kinds = [(a, g, "CODE", z) for a in al for g in (None, "G1") for z in (0, 1, 6)] + [(a, g, "DATA", z) for a in al for g in ("G1",) for z in (1, 6)]
    last = [(a, g, "BSS", z, True) for a in al for g in (None, "G1") for z in (1, 32)] + [("para", None, "STACK", 256, False, True), ("byte", None, "STACK", 255, False, True), ("word", "G1", "STACK", 64, False, True)]
    for fmt in ("-mz", "-bin"):
        for a in kinds:
            for b in kinds + last:
                if fmt == "-bin" and (len(b) > 5):
                    continue
                for e in (0, None):
                    yield fmt, None, e, (a, b)
        mid = [(a, g, c, z) for a in ("byte", "word", "para") for g in (None, "G1", "G2") for c, z in (("CODE", 1), ("DATA", 6))]
        if T:
            mid = V1
        for a in mid[::1]:
            for b in mid:
                for c in (mid if T else mid[::2]) + last[::3] + last[-3:]:
                    if fmt == "-bin" and len(c) > 5:
                        continue
                    if len({a[1], b[1], c[1]}) == 2 and a[1] == c[1] and a[1]:
                        pass        # a group around a foreign segment
                    for o in (None, ".alpha", ".dosseg") if T or a[3] == 1 else (None,):
                        if o == ".dosseg" and {a[1], b[1], c[1]} - {None}:
                            continue        # reorders groups
                        yield fmt, o, 0 if fmt == "-mz" else None, (a, b, c)
        # uninitialized segments in front of others
        un = last[:4] + last[-3:]
        for a in mid[::4]:
            for b in un:
                for c in mid[::3] + un:
                    if fmt == "-bin" and (len(b) > 5 or len(c) > 5):
                        continue
                    if len(b) > 5 and len(c) > 5 or b[1] == "G1" == c[1] and False:
                        continue
                    for o in (None, ".alpha"):
                        yield fmt, o, 0 if fmt == "-mz" else None, (a, b, c)
                        yield fmt, o, 0 if fmt == "-mz" and o is None else None, (b, a, c)
    # images of more than 64K; relocations far behind the start
    for big in (0xFFF0 - 600, 40000):
        for al in ("byte", "para"):
            for g in (None, "G1"):
                yield "-mz", None, 0, (("para", None, "CODE", 1), ("byte", None, "DATA", big), (al, None, "DATA", big + 1), (al, g, "DATA", 7), ("para", None, "STACK", 4096, False, True))
                yield "-mz", None, 2, ((al, None, "DATA", big), ("byte", None, "DATA", big), (al, g, "CODE", 7), ("para", None, "STACK", 0x8000, False, True))


ck.explore("16-bit", g_16, judge16)


# ------------------------------------------------------- PE, and BIN in the flat model --
KINDS = {"code": ".code", "data": ".data", "const": ".const", "bss": ".data?"}


class FSeg:
    def __init__(self, i, kind, align, size):
        self.i, self.kind, self.align, self.size = i, kind, align, size
        self.bss = kind in ("bss", "ub")
        self.code = kind in ("code", "uc")
        self.n = "seg%d" % i
        self.stack = False

    def open(self):
        if self.kind in KINDS:
            return KINDS[self.kind]
        cls = {"uc": "CODE", "ud": "DATA", "ub": "BSS", "ur": "CONST", "un": "OTHER"}[self.kind]
        return "%s segment %s flat public '%s'" % (self.n, self.align, cls)

    def close(self):
        return None if self.kind in KINDS else self.n + " ends"

    def al(self):
        if self.kind in KINDS:
            return 1
        return ALIGN.get(self.align) or int(re.findall(r"\d+", self.align)[0])


FLEN = {"off32": 4, "off64": 8, "rva": 4, "call": 5, "lea32": 6, "lea64": 7, "mov": 7, "push": 5, "secrel": 4, "inc": 6}


def text_flat(fmt, bits, segs, org, opt, entry):
    out = [".686", ".model flat, stdcall"] if bits == 32 else [".x64", ".model flat, fastcall"]
    imports, exports, relocs, twice = opt
    if relocs:
        out.append("@pe_file_flags = @pe_file_flags and not 1")
    for d, fs in imports:
        out.append("option dllimport:<%s>" % d)
        out += ["%s proto%s" % (f, " :dword" if bits == 32 else "") for f in fs]
    if imports:
        out.append("option dllimport:none")
    refs = {}
    first = True
    for rnd in (0, 1) if twice else (0,):
        for s in segs:
            out.append(s.open())
            if first and org and s.kind == "code":      # _TEXT is the first segment of the image
                out.append("org 0%xh" % org)
                first = False
            k = s.i
            ty = "near" if s.code else "byte"
            if rnd == 0:
                out.append("b%d label %s" % (k, ty))
            if s.bss:
                if not twice or rnd:
                    out += ["db %d dup (?)" % s.size, "e%d label byte" % k]
                else:
                    out.append("db 3 dup (?)")
                    s.extra = 3
            elif twice and rnd == 0:
                out.append("db '<S%d#mk>', 0%xh" % (k, 0xA0 + k))
            else:
                if not twice:
                    out.append("db '<S%d#mk>', 0%xh" % (k, 0xA0 + k))
                r = refs[k] = []
                for t in segs:
                    for lab in ("b%d" % t.i, "e%d" % t.i):
                        if bits == 32 or fmt == "-bin" and 0:
                            out.append("dd offset %s" % lab)
                            r.append(("off32", t.i, lab))
                        else:
                            out.append("dq offset %s" % lab)
                            r.append(("off64", t.i, lab))
                        if fmt == "-pe":
                            out.append("dd imagerel %s" % lab)
                            r.append(("rva", t.i, lab))
                        if s.code:
                            if t.code and lab[0] == "b":
                                out.append("call %s" % lab)
                                r.append(("call", t.i, lab))
                            if not t.code:
                                w = "byte ptr " + lab
                                out += ["lea %s, %s" % ("eax" if bits == 32 else "rax", lab), "mov %s, 5" % w, "inc " + w]
                                r += [("lea%d" % bits, t.i, lab), ("mov", t.i, lab), ("inc", t.i, lab)]
                            if bits == 32:
                                out.append("push offset " + lab)
                                r.append(("push", t.i, lab))
                if s.code and s is [x for x in segs if x.code][0]:
                    for d, fs in imports:
                        for f in fs:
                            out.append("invoke %s%s" % (f, ", 5" if bits == 32 else ""))
                            r.append(("imp", f, None))
                    for e in exports:
                        out += ["%s proc export" % e, "db 'X%s#'" % e, " ret", "%s endp" % e]
                        r.append(("exp", e, None))
                if s.size:
                    out.append("db %d dup (0%xh)" % (s.size, 0xE0 + k))
                out.append("e%d label byte" % k)
            if s.close():
                out.append(s.close())
    out.append("end" + (" b%d" % entry if entry is not None else ""))
    return "\n".join(out) + "\n", refs


def load_pe(img, bits, delta, opt):
    """(memory by RVA, sections, header facts)"""
    if img[:2] != b"MZ":
        raise Bad("no MZ signature")
    lf = u32(img, 0x3c)
    if img[lf:lf + 4] != b"PE\0\0":
        raise Bad("no PE signature at e_lfanew %x" % lf)
    mach, ns, tds, ptrs, nsym, oh, ch = struct.unpack_from("<HHIIIHH", img, lf + 4)
    if mach != (0x14c if bits == 32 else 0x8664) or oh != (224 if bits == 32 else 240) or nsym:
        raise Bad("file header: machine %x, optional header %d, symbols %d" % (mach, oh, nsym))
    o = lf + 24
    magic = u16(img, o)
    if magic != (0x10b if bits == 32 else 0x20b):
        raise Bad("optional header magic %x" % magic)
    scode, sinit, suninit, entry, bcode = struct.unpack_from("<5I", img, o + 4)
    base = u32(img, o + 28) if bits == 32 else struct.unpack_from("<Q", img, o + 24)[0]
    salign, falign = struct.unpack_from("<2I", img, o + 32)
    simg, shdr, csum = struct.unpack_from("<3I", img, o + 56)
    ndir = u32(img, o + (92 if bits == 32 else 108))
    dirs = [struct.unpack_from("<2I", img, o + (96 if bits == 32 else 112) + 8 * i) for i in range(ndir)]
    if ndir != 16:
        raise Bad("%d directories" % ndir)
    st = o + oh
    mem = bytearray(simg)
    end = st + 40 * ns
    if shdr < end or shdr % falign or len(img) % falign:
        raise Bad("SizeOfHeaders %x, the headers end at %x, file size %x, alignment %x" % (shdr, end, len(img), falign))
    mem[:shdr] = img[:shdr]
    va, fo = shdr, shdr
    secs = []
    for i in range(ns):
        name, vs, v, rs, rp, pr, pl, nr, nl, c = struct.unpack_from("<8s6I2HI", img, st + 40 * i)
        name = name.rstrip(b"\0").decode("latin1")
        if v % salign or v < va or not vs:
            raise Bad("section %s at %x (size %x) after %x" % (name, v, vs, va))
        if v - va >= salign:
            raise Bad("a hole of %x before section %s" % (v - va, name))
        if rp:
            if rp % falign or rs % falign or rp < fo or rp + rs > len(img):
                raise Bad("section %s: file range %x+%x after %x, file size %x" % (name, rp, rs, fo, len(img)))
            fo = rp + rs
            n = min(rs, (vs + salign - 1) // salign * salign)
            if v + n > (simg + salign - 1) // salign * salign:
                raise Bad("section %s ends behind SizeOfImage" % name)
            mem[v:v + n] = img[rp:rp + n]
            if any(img[rp + min(rs, vs):rp + rs]):
                raise Bad("section %s: data behind its virtual size %x" % (name, vs))
        elif rs:
            raise Bad("section %s: raw size without a pointer" % name)
        va = v + vs
        secs.append((name, v, vs, rs, c))
    if va > simg or simg - va >= salign or simg % salign:
        raise Bad("SizeOfImage %x, the sections end at %x" % (simg, va))
    if fo != len(img):
        raise Bad("the file has %x bytes, its sections end at %x" % (len(img), fo))
    if len(mem) != simg:
        raise Bad("mapped %x bytes, SizeOfImage %x" % (len(mem), simg))
    want = sum(x[3] for x in secs if x[4] & 0x20)
    if scode != want or bits == 32 and sinit != sum(x[3] for x in secs if x[4] & 0x40):
        raise Bad("SizeOfCode %x (code sections: %x), SizeOfInitializedData %x" % (scode, want, sinit))
    cs = [x[1] for x in secs if x[4] & 0x20]
    if cs and bcode != cs[0]:
        raise Bad("BaseOfCode %x, first code section at %x" % (bcode, cs[0]))
    rel = []
    if delta:
        p, n = dirs[5]
        if not p or ch & 1:
            raise Bad("no relocations (characteristics %x, directory %x+%x)" % (ch, p, n))
        q = p
        while q < p + n:
            pg, sz = struct.unpack_from("<II", mem, q)
            if sz < 8 or sz & 3 and q + sz != p + n or q + sz > p + n:
                raise Bad("relocation block at %x: page %x size %x" % (q, pg, sz))
            for k in range(q + 8, q + sz, 2):
                e = u16(mem, k)
                t, a = e >> 12, pg + (e & 0xfff)
                if t == 0:
                    continue
                if t != (3 if bits == 32 else 10):
                    raise Bad("relocation type %d at %x" % (t, a))
                if bits == 32:
                    struct.pack_into("<I", mem, a, (u32(mem, a) + delta) & 0xffffffff)
                else:
                    struct.pack_into("<Q", mem, a, struct.unpack_from("<Q", mem, a)[0] + delta)
                rel.append(a)
            q += sz
        if len(set(rel)) != len(rel):
            raise Bad("a location is relocated twice")
    elif bool(dirs[5][0]) != bool(opt[2]) or bool(ch & 1) == bool(opt[2]):
        raise Bad("relocation directory %x+%x, characteristics %x" % (dirs[5] + (ch,)))
    return mem, secs, entry, base + delta, dirs, set(rel)


def cstr(mem, a):
    return bytes(mem[a:mem.index(0, a)]).decode("latin1")


def check_flat(ctx, img, fmt, bits, segs, refs, org, opt, entry, delta):
    imports, exports, relocs, twice = opt
    if fmt == "-pe":
        mem, secs, ent, base, dirs, rel = load_pe(img, bits, delta, opt)
    else:
        mem, secs, base = img, [], org
    at = find_all(mem, segs, refs, None)
    addr, used, offs = {}, [], set()

    def know(lab, a, why):
        if addr.setdefault(lab, a) != a:
            raise Bad("%s: %s is at %x, elsewhere it is at %x (base %x)" % (why, lab, a & 0xffffffffffff, addr[lab] & 0xffffffffffff, base))
    ends = {}
    for s in segs:
        if s.i in at:
            addr["b%d" % s.i] = at[s.i]
            if at[s.i] % s.al():
                raise Bad("%s is at %x, not aligned %s" % (s.n, at[s.i], s.align))
    iat = {}
    if imports:
        p, n = dirs[1]
        got = {}
        while True:
            ilt, ts, fc, nm, ia = struct.unpack_from("<5I", mem, p)
            if not ilt and not ia:
                break
            w = bits // 8
            k = 0
            fs = []
            while True:
                e = int.from_bytes(mem[ilt + k:ilt + k + w], "little")
                if int.from_bytes(mem[ia + k:ia + k + w], "little") != e:
                    raise Bad("lookup table and address table differ")
                if not e:
                    break
                f = cstr(mem, e + 2)
                fs.append(f)
                iat[f] = ia + k
                if not dirs[12][0] <= ia + k < dirs[12][0] + dirs[12][1]:
                    raise Bad("address table entry %x outside of the directory" % (ia + k))
                k += w
            got[cstr(mem, nm)] = sorted(fs)
            p += 20
        if p + 20 != dirs[1][0] + dirs[1][1] or got != {d: sorted(f) for d, f in imports}:
            raise Bad("imports %s, directory of %d bytes at %x" % (got, dirs[1][1], dirs[1][0]))
    elif fmt == "-pe" and dirs[1] != (0, 0):
        raise Bad("an import directory without imports")
    exp = {}
    if exports:
        p = dirs[0][0]
        fl, ts, ver, nm, ob, nf, nn, af, an, ao = struct.unpack_from("<10I", mem, p)
        if nf != len(exports) or nn != nf or ob != 1:
            raise Bad("export directory: %d functions, %d names, base %d" % (nf, nn, ob))
        names = [cstr(mem, u32(mem, an + 4 * i)) for i in range(nn)]
        if names != sorted(names):
            raise Bad("export names are not in order: %s" % names)
        for i, x in enumerate(names):
            exp[x] = u32(mem, af + 4 * u16(mem, ao + 2 * i))
        if cstr(mem, nm).lower() != "t.exe":
            raise Bad("module name %s" % cstr(mem, nm))
        want = {("_%s@0" % e if bits == 32 else e): e for e in exports}
        if set(exp) != set(want):
            raise Bad("exported: %s, expected %s" % (sorted(exp), sorted(want)))
        for x, a in exp.items():
            m = b"X" + want[x].encode() + b"#"
            if mem[a:a + len(m)] != m:
                raise Bad("export %s points at %x" % (x, a))
    elif fmt == "-pe" and dirs[0] != (0, 0):
        raise Bad("an export directory without exports")
    for s in segs:
        if s.i not in at:
            continue
        p = at[s.i] + len(mark(s.i))
        # after a reopening the second part follows immediately
        for kind, t, lab in refs[s.i]:
            if kind == "exp":
                n = len(t) + 2
                if mem[p + n] == 0xc3:
                    p += n + 1
                else:
                    raise Bad("unexpected procedure: %s" % bytes(mem[p:p + n + 4]).hex())
                continue
            if kind == "imp":
                if bits == 32:
                    if mem[p:p + 2] != b"\x6a\x05" or mem[p + 2:p + 4] != b"\xff\x15":
                        raise Bad("unexpected call of an import: %s" % bytes(mem[p:p + 12]).hex())
                    a = u32(mem, p + 4) - base
                    offs.add(p + 4)
                    p += 8
                else:
                    q = bytes(mem[p:p + 24]).index(b"\xff\x15")
                    a = p + q + 6 + struct.unpack_from("<i", mem, p + q + 2)[0]
                    z = p + q + 6
                    p = z + (4 if mem[z:z + 3] == b"\x48\x83\xc4" else 0)
                if a != iat[t]:
                    raise Bad("the call of %s goes through %x, its address table entry is %x" % (t, a, iat[t]))
                continue
            if kind == "off32":
                a = (u32(mem, p) - base) & 0xffffffff
                offs.add(p)
            elif kind == "off64":
                a = struct.unpack_from("<Q", mem, p)[0] - base
                offs.add(p)
            elif kind == "rva":
                a = u32(mem, p)
            elif kind == "push":
                a = (u32(mem, p + 1) - base) & 0xffffffff
                offs.add(p + 1)
            elif kind == "call":
                if mem[p] != 0xE8:
                    raise Bad("unexpected call %x" % mem[p])
                a = p + 5 + struct.unpack_from("<i", mem, p + 1)[0]
            else:
                n = {"lea32": 2, "lea64": 3, "mov": 2, "inc": 2}[kind]
                v = struct.unpack_from("<i", mem, p + n)[0]
                a = p + FLEN[kind] + v if bits == 64 else (v - base) & 0xffffffff
                if bits == 32:
                    offs.add(p + n)
            know(lab, a, "%s in %s (%x)" % (kind, s.n, p))
            p += FLEN[kind]
            ctx.n["references"] += 1
        if mem[p:p + s.size] != bytes([0xE0 + s.i]) * s.size:
            raise Bad("the last bytes of %s are not at %x" % (s.n, p))
        know("e%d" % s.i, p + s.size, "end of " + s.n)
    for s in segs:
        b, e = addr.get("b%d" % s.i), addr.get("e%d" % s.i)
        if b is None:
            continue
        if s.bss and e - b != s.size + (3 if twice else 0) or b % s.al():
            raise Bad("%s is at [%x,%x), size %d, alignment %d" % (s.n, b, e, s.size, s.al()))
        used.append((b, e, s.n))
        if fmt == "-pe":
            sec = [x for x in secs if x[1] <= b and e <= x[1] + x[2]]
            if not sec and e > b:
                raise Bad("%s [%x,%x) is in no section" % (s.n, b, e))
            if e > b:
                c = sec[0][4]
                ex, wr = bool(c & 0x20000000), bool(c & 0x80000000)
                if not c & 0x40000000 or ex != s.code or wr != (s.kind in ("data", "bss", "ud", "ub", "un")):
                    raise Bad("%s (%s) is in section %s with characteristics %x" % (s.n, s.kind, sec[0][0], c))
            if s.bss and any(mem[b:e]):
                raise Bad("%s is not zero" % s.n)
    used.sort()
    for (a, b, n), (c, d, m) in zip(used, used[1:]):
        if c < b:
            raise Bad("%s [%x,%x) and %s [%x,%x) overlap" % (n, a, b, m, c, d))
    if fmt == "-pe":
        if entry is not None and ent != addr["b%d" % entry]:
            raise Bad("entry point %x, b%d is at %x" % (ent, entry, addr["b%d" % entry]))
        if delta:
            x = {a for a in rel if not any(dirs[k][0] <= a < dirs[k][0] + dirs[k][1] for k in (0, 1))}
            if x != offs:
                raise Bad("relocated %s, absolute addresses at %s" % (sorted(map(hex, x - offs)), sorted(map(hex, offs - x))))
    else:
        pos = {n: a for a, b, n in used if b > a}
        want = [s.n for s in segs if s.n in pos]
        last = max(b for a, b, n in used if any(s.n == n and not s.bss for s in segs))
        if len(mem) != last and not any(s.bss for s in segs):
            raise Bad("image of %d bytes, the segments end at %d" % (len(mem), last))


IMPS = [(), (("kernel32.dll", ["ExitProcess"]),), (("a.dll", ["fa1", "fa2", "fa3"]), ("user32", ["ub"]))]
EXPS = [(), ("one",), ("zz", "aa", "mm")]


def judge_flat(ctx, case):
    fmt, bits, spec, org, ii, ei, relocs, twice, entry = case
    opt = (IMPS[ii], EXPS[ei], relocs, twice)
    segs = [FSeg(i, *x) for i, x in enumerate(spec)]
    src, refs = text_flat(fmt, bits, segs, org, opt, entry)
    r = ctx.srv().asm(src, [fmt, "-nomlib"])
    key = "%s%d:%x:%d%d%d%d:%s:%s" % (fmt, bits, org, ii, ei, relocs, twice, entry, ";".join(",".join(str(y) for y in x) for x in spec))
    ctx.outcome(case)
    ctx.n["assemblies"] += 1
    img = r.obj()
    if r.exit or not img:
        return V(key + ":reject", "not assembled: " + r.text()[:300], source=src)
    ctx.sample(src)
    try:
        for delta in (0, 0x230000) if relocs else (0,):
            check_flat(ctx, img, fmt, bits, segs, refs, org, opt, entry, delta)
    except Bad as e:
        return V(key, str(e), source=src, image=img)


def g_flat():
    std = [("code", None, z) for z in (0, 5)] + [("data", None, z) for z in (0, 3)] + [("const", None, 1), ("bss", None, 7)]
    usr = [(k, a, z) for k in ("uc", "ud", "ub", "ur") for a in ("byte", "para", "page") for z in (1, 300)]
    if T:
        usr += [(k, a, z) for k in ("un", "ud", "uc") for a in ("dword", "align(64)") for z in (2, 600, 5000)]
    for fmt, bits in (("-pe", 32), ("-pe", 64), ("-bin", 32), ("-bin", 64)):
        orgs = (0, 0x100, 0x7c00, 0x400000) if fmt == "-bin" else (0,)
        c0 = ("code", None, 5)
        for org in orgs:
            for n in (1, 2):
                for rest in itertools.product(std[2:] + usr, repeat=n):
                    if len({x[0] for x in rest if x[0] in KINDS}) < sum(x[0] in KINDS for x in rest):
                        continue
                    if fmt == "-bin" and bits == 64 and any(x[1] == "page" and 0 for x in rest):
                        continue
                    yield fmt, bits, (c0,) + rest, org, 0, 0, 0, 0, 0
                    if fmt == "-pe":
                        yield fmt, bits, (c0,) + rest, org, 0, 0, 1, 0, 0
                        yield fmt, bits, rest + (c0,), org, 0, 0, 1, 1, n
                    elif not any(x[0] in ("ub", "bss") for x in rest):
                        yield fmt, bits, rest + (c0,), org, 0, 0, 0, 0, None
        if fmt != "-pe":
            continue
        for ii in range(3):
            for ei in range(3):
                for rel in (0, 1):
                    for rest in itertools.product(std[2:] + usr[::3], repeat=1):
                        yield fmt, bits, (c0,) + rest, 0, ii, ei, rel, 0, 0
        # sizes around the file and page alignments
        for kind in ("data", "const", "code", "ud"):
            for z in list(range(440, 560, 7 if not T else 1)) + list(range(4000, 4130, 5 if not T else 1)) + [8192, 70000]:
                if kind == "code":
                    sp = (("code", None, z), ("data", None, 3), ("ud", "para", 3), ("bss", None, 5000))
                else:
                    sp = (c0, (kind, "byte" if kind == "ud" else None, z), ("ud", "para", 3), ("ud", "page", 9), ("bss", None, 4))
                yield fmt, bits, sp, 0, 0, 0, 1, 0, 0
                yield fmt, bits, sp, 0, 1, 1, 1, 0, 0


ck.explore("flat", g_flat, judge_flat)
a = ck.n["assemblies"]
ck.finish("every byte and every reference of the loaded image is where its label is, and the headers describe exactly the file",
          states=ck.n["references"], transitions=ck.n["references"], validated=a)

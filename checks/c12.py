"""C12 32-bit INVOKE and PROC: every signature, argument list, convention, USES and LOCAL set within the bounds is assembled and the call is run
on an interpreter, stopped at the callee's first instruction, in its body and behind the INVOKE; what the convention defines is compared with
what is there."""
import itertools, os, re, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from vlib import *
import emu

ck = Check("C12", variants=("plain",))
T = ck.thorough
CONV = ["c", "stdcall", "pascal", "fastcall", "syscall", "basic", "fortran"]
PTYPE = {"byte": 1, "sbyte": 1, "word": 2, "sword": 2, "dword": 4, "sdword": 4, "qword": 8, "real4": 4, "real8": 8, "ptr": 4, "s3": 3, "s4": 4, "s8": 8, "s12": 12,
         "s1": 1, "s2": 2, "s5": 5, "s6": 6, "s7": 7, "s9": 9, "s11": 11, "s16": 16, "s18": 18}
SIGNED = {"sbyte", "sword", "sdword"}
R = {"eax": 0, "ecx": 1, "edx": 2, "ebx": 3, "esp": 4, "ebp": 5, "esi": 6, "edi": 7}
INIT = {"eax": 0x8A91A2B3, "ecx": 0x9C4D5E6F, "edx": 0xAD5E6F90, "ebx": 0xBB6F7081, "ebp": 0x55667788, "esi": 0x91827364, "edi": 0xE1D2C3B4}
# memory the arguments come from
MEM = [("vb", "byte", b"\x81"), ("vsb", "sbyte", b"\x92"), ("vw", "word", b"\x34\x92"), ("vsw", "sword", b"\x45\xa3"), ("vd", "dword", b"\x78\x56\x34\x92"),
       ("vsd", "sdword", b"\x79\x57\x35\x93"), ("vq", "qword", bytes([0xf0 - 7 * k for k in range(8)])), ("vr4", "real4", struct.pack("<f", -2.5)),
       ("vr8", "real8", struct.pack("<d", 1e100)), ("vs3", "s3", b"\xa1\xa2\xa3"), ("vs4", "s4", b"\xb1\xb2\xb3\xb4"), ("vs8", "s8", bytes(range(0xc1, 0xc9))),
       ("vs12", "s12", bytes(range(0xd1, 0xdd)))] + [("vs%d" % n, "s%d" % n, bytes((17 * n + 29 * k + 3) & 255 for k in range(n))) for n in (1, 2, 5, 6, 7, 9, 11, 16, 18)] + [("vpad", "dword", b"\x11\x22\x33\x44")]
MOFS = {}
_o = 16
for _n, _t, _b in MEM:
    MOFS[_n] = _o
    _o += len(_b)
DATAEND = (_o + 3) & ~3
MV = {n: b for n, t, b in MEM}
MT = {n: t for n, t, b in MEM}
REG = {"eax": 4, "ebx": 4, "esi": 4, "edi": 4, "ecx": 4, "edx": 4, "ebp": 4, "bx": 2, "si": 2, "cx": 2, "dx": 2, "ax": 2, "bl": 1, "bh": 1, "al": 1, "cl": 1, "dl": 1, "ah": 1, "dh": 1}


def regval(r):
    if r in INIT:
        return INIT[r]
    if len(r) == 2 and r[1] in "xip":
        return INIT["e" + r] & 0xffff
    v = INIT["e" + r[0] + "x"]
    return v & 0xff if r[1] == "l" else v >> 8 & 0xff


def args(pt):
    """(source, allowed values as bytes of the parameter's size)"""
    n = PTYPE[pt]
    if pt in ("real4", "real8"):
        k = "<f" if n == 4 else "<d"
        for s, v in (("1.5", 1.5), ("-2.25", -2.25), ("0.0", 0.0)):
            yield s, [struct.pack(k, v)]
        yield ("vr4" if n == 4 else "vr8"), [MV["vr4" if n == 4 else "vr8"]]
        if n == 4:
            yield "ebx", [struct.pack("<I", INIT["ebx"])]
            yield "vd", [MV["vd"]]
        return
    if pt[0] == "s" and pt[1:].isdigit():
        yield "v" + pt, [MV["v" + pt]]
        if n <= 12:
            yield "%s ptr [esi]" % pt, None           # esi is set to vs12 there
        if n in (1, 2, 4, 8):
            r = {1: "bl", 2: "bx", 4: "ebx", 8: "esi::ebx"}[n]
            yield r, [struct.pack("<2I", INIT["ebx"], INIT["esi"])[:n]]
        return
    if n == 8:
        yield "vq", [MV["vq"]]
        yield "edx::eax", [struct.pack("<2I", INIT["eax"], INIT["edx"])]
        yield "esi::ebx", [struct.pack("<2I", INIT["ebx"], INIT["esi"])]
        yield "ebx::ecx", [struct.pack("<2I", INIT["ecx"], INIT["ebx"])]
        for c in (0, 1, -1, 0x123456789abcdef0, 0x80000000, 0xffffffff):
            yield ("0%xh" % c if c > 9 else str(c)), [(c & (2**64 - 1)).to_bytes(8, "little")]
        return
    if pt == "ptr":
        for s, v in (("addr vb", MOFS["vb"]), ("offset vd", MOFS["vd"]), ("addr vd+2", MOFS["vd"] + 2), ("addr [ebx+8]", INIT["ebx"] + 8), ("addr vb[esi]", INIT["esi"] + MOFS["vb"]), ("0", 0),
                     ("ebx", INIT["ebx"]), ("addr [edi+4*ecx-3]", (INIT["edi"] + 4 * INIT["ecx"] - 3)), ("addr vs8.y", MOFS["vs8"] + 4), ("eax", INIT["eax"])):
            yield s, [struct.pack("<I", v & 0xffffffff)]
        return
    # integers
    for c in (0, 1, 0x7f, -1, -0x80, 0x80, 0xff, 0x100, 0x7fff, 0x8000, -0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, -0x80000000, 0xffffffff):
        lo = -(1 << (8 * n - 1))
        if lo <= c < 1 << (8 * n):
            yield (("0%xh" % c if c > 9 else str(c)) if c >= 0 else "-%d" % -c), [(c & ((1 << 8 * n) - 1)).to_bytes(n, "little")]
    if n == 1:
        yield "'x'", [b"x"]
    for r, z in REG.items():
        if z <= n:
            v = regval(r)
            if z == n:
                yield r, [v.to_bytes(n, "little")]
            else:
                yield r, [v.to_bytes(n, "little"), ((v - (1 << 8 * z) if v >> (8 * z - 1) else v) & ((1 << 8 * n) - 1)).to_bytes(n, "little")][1 if False else 0:2 if pt in SIGNED else 1]
    for nm, ty, b in MEM[:6]:
        z = len(b)
        if z <= n:
            v = int.from_bytes(b, "little")
            ze = v.to_bytes(n, "little")
            se = ((v - (1 << 8 * z)) & ((1 << 8 * n) - 1)).to_bytes(n, "little")   # all have the high bit set
            yield nm, [ze] if z == n else [se] if ty in SIGNED and pt in SIGNED else [ze] if ty not in SIGNED and pt not in SIGNED else [ze, se]
    if n == 4:
        yield "dword ptr [esi+4]", None
        yield "vd[0]", [MV["vd"]]
        yield "dword ptr vq+4", [MV["vq"][4:]]
        yield "addr vw", [struct.pack("<I", MOFS["vw"])]
        yield "offset vw+1", [struct.pack("<I", MOFS["vw"] + 1)]
        yield "sizeof s12", [struct.pack("<I", 12)]
        yield "vs8.y", [MV["vs8"][4:]]
    if n == 1:
        yield "byte ptr [esi+3]", None
        yield "byte ptr vd+1", [MV["vd"][1:2]]
    if n == 2:
        yield "word ptr [esi]", None
        yield "word ptr vd+1", [MV["vd"][1:3]]
        yield "vs8.h", [MV["vs8"][2:4]]


ARGS = {pt: [(s, (v if v is not None else [MV["vs12"][{"dword ptr [esi+4]": 4, "byte ptr [esi+3]": 3, "word ptr [esi]": 0}.get(s, 0):][:PTYPE[pt]]])) for s, v in args(pt)] for pt in PTYPE}
VA = [("1", [b"\x01\0\0\0"]), ("ebx", [struct.pack("<I", INIT["ebx"])]), ("vd", [MV["vd"]]), ("vq", [MV["vq"]]), ("vr8", [MV["vr8"]]), ("addr vw", [struct.pack("<I", MOFS["vw"])]), ("vw", [MV["vw"] + b"\0\0"]),
      ("vsb", [MV["vsb"] + b"\xff\xff\xff"]), ("vs12", [MV["vs12"]]), ("vs3", [MV["vs3"]]), ("bx", [struct.pack("<I", INIT["ebx"])[:2]]), ("cl", [struct.pack("<I", INIT["ecx"])[:1]]), ("vs7", [MV["vs7"]]), ("-5", [b"\xfb\xff\xff\xff"])]


def fargs(pt):
    """arguments out of the caller's frame: values where they are constants, else functions of the addresses"""
    n = PTYPE[pt]
    x5a = lambda b: bytes(x ^ 0x5a for x in b)
    for nm, ty, b in MEM:
        if nm == "vpad":
            continue
        if ty == pt:
            yield "l" + nm, [b]
            yield "p" + nm, [x5a(b)]
        elif ty in ("byte", "word") and pt in ("byte", "word", "dword") and len(b) < n:
            yield "l" + nm, [b + bytes(n - len(b))]
            yield "p" + nm, [x5a(b) + bytes(n - len(b))]
        elif ty in SIGNED and pt in SIGNED and len(b) < n:
            yield "l" + nm, [b + b"\xff" * (n - len(b))]
    if pt == "ptr":
        for nm in ("vb", "vq", "vs12"):
            for pf in "lp":
                yield "addr %s%s" % (pf, nm), ("adr", pf + nm, 0)
        yield "addr lvs12.z", ("adr", "lvs12", 8)
        yield "addr pvq+2", ("adr", "pvq", 2)
    if pt == "dword":
        yield "dword ptr lvq+4", [MV["vq"][4:]]
        yield "pvs8.y", [x5a(MV["vs8"][4:])]
        yield "lvs12.z", [MV["vs12"][8:]]
    if pt == "qword":
        yield "qword ptr lvs12.y", [MV["vs12"][4:]]
        yield "qword ptr pvs12", [x5a(MV["vs12"][:8])]
    if pt == "word":
        yield "pvs8.h", [x5a(MV["vs8"][2:4])]
    if pt == "byte":
        yield "byte ptr lvd+3", [MV["vd"][3:]]


FARGS = {pt: list(fargs(pt)) for pt in PTYPE}


def up4(n):
    return (n + 3) & ~3


NEEDESI = MOFS["vs12"]
USES = ["", "ebx", "esi edi", "ebx esi edi", "edi", "ecx edx ebx"]
LOC = [(), (("l0", "dword", 4),), (("l0", "byte", 1),), (("l0", "byte", 1), ("l1", "word", 2), ("l2", "dword", 4)), (("l0[5]", "byte", 5), ("l1", "qword", 8), ("l2", "byte", 1), ("l3[3]", "dword", 12)),
       (("l0", "s12", 12), ("l1", "s3", 3), ("l2", "real8", 8)), (("l0[200]", "byte", 200), ("l1", "dword", 4))]
OBS = 0x800        # offset of the observation area in the image


def regparams(conv, sig):
    """which parameters are passed in registers"""
    out = {}
    if conv == "fastcall":
        free = ["ecx", "edx"]
        for k, pt in enumerate(sig):
            if PTYPE[pt] <= 4 and free and not (pt[0] == "s" and pt[1:].isdigit()) and pt not in ("real4",):
                out[k] = free.pop(0)
    return out


def proc(n, it):
    conv, sig, ar, uses, loc, how, opt = it
    hd = "f%d proc %s%s" % (n, conv, " uses " + uses if uses else "")
    ps = ", ".join("p%d:%s" % (k, pt if pt != "vararg" else "vararg") for k, pt in enumerate(sig))
    L = [hd + (" " + ps if ps else "")]
    for nm, ty, z in loc:
        L.append(" local %s:%s" % (nm, ty))
    rp = regparams(conv, sig)
    o = OBS
    for k, pt in enumerate(sig):
        if pt == "vararg":
            break
        z = PTYPE[pt]
        if k not in rp:
            L.append(" lea eax, p%d\n mov dword ptr ds:[%d], eax" % (k, o))
        o += 4
        for q in range(0, z, 4):
            m = min(4, z - q)
            # the named parameter is read with the width of its type
            if z in (1, 2, 4) and not (pt[0] == "s" and pt[1:].isdigit()) and pt != "real4":
                r = {1: "al", 2: "ax", 4: "eax"}[z]
                L.append(" mov %s, p%d\n mov %s ptr ds:[%d], %s" % (r, k, {1: "byte", 2: "word", 4: "dword"}[z], o, r))
            elif m == 4:
                L.append(" mov eax, dword ptr p%d[%d]\n mov dword ptr ds:[%d], eax" % (k, q, o))
            else:
                for b in range(m):
                    L.append(" mov al, byte ptr p%d[%d]\n mov byte ptr ds:[%d], al" % (k, q + b, o + b))
            o += 4
    for nm, ty, z in loc:
        L.append(" lea eax, %s\n mov dword ptr ds:[%d], eax" % (re.sub(r"\[.*", "", nm), o))
        o += 4
    L.append("b%d_::" % n)
    L.append(" ret\nf%d endp" % n)
    call = "f%d" % n
    proto = "t%d typedef proto %s %s" % (n, conv, ", ".join(":" + pt for pt in sig))
    pre = []
    if how == 1:
        pre.append("f%d proto %s %s" % (n, conv, ", ".join(":" + pt for pt in sig)))
    elif how in (2, 3):
        pre.append(proto)
        pre.append("q%d typedef ptr t%d" % (n, n))
        call = "[v%d]" % n if how == 2 else "q%d ptr [ebx]" % n
    inv = "s%d_::\n invoke %s%s\n int 2\n hlt" % (n, "v%d" % n if how == 2 else call, "".join(", " + a[0] for a in ar))
    if how == 2:
        inv = "v%d q%d f%d\n" % (n, n, n) + inv
    if how == 3:
        inv += "\nv%d dd f%d" % (n, n)
    if how == 4:
        # the call is made by a procedure and the arguments are its own parameters and locals
        inv = "s%d_::\n sub esp, %d\n call g%d\n hlt\n" % (n, sum(up4(len(b)) for _, _, b in MEM), n)
        inv += "g%d proc stdcall%s %s\n" % (n, [" ", " uses ebx esi", " uses edi"][n % 3], ", ".join("p%s:%s" % (nm, ty) for nm, ty, b in MEM))
        inv += "".join(" local l%s:%s\n" % (nm, ty) for nm, ty, b in MEM)
        for k, (nm, ty, b) in enumerate(MEM):
            inv += " lea eax, l%s\n mov dword ptr ds:[%d], eax\n lea eax, p%s\n mov dword ptr ds:[%d], eax\n" % (nm, OBS + 8 * k, nm, OBS + 8 * k + 4)
        inv += "m%d::\n invoke f%d%s\nr%d::\n int 2\n ret\ng%d endp" % (n, n, "".join(", " + a[0] for a in ar), n, n)
    return "\n".join(pre), "\n".join(L), inv


def module(items):
    pre, body = [], []
    for n, it in enumerate(items):
        a, b, c = proc(n, it)
        pre.append(a)
        o = it[6]
        b = ("option %s\n" % o if o else "") + b + ("\noption stackbase:ebp" if o else "")
        body += [c, b] if it[5] == 1 else [b, c]
    L = [".686\n.xmm\n.model flat, stdcall\ns3 struct\na db ?,?,?\ns3 ends\ns4 struct\nx dd ?\ns4 ends\ns8 struct\na dw ?\nh dw ?\ny dd ?\ns8 ends\ns12 struct\nx dd ?\ny dd ?\nz dd ?\ns12 ends\n" + "\n".join("s%d struct\ndb %d dup (?)\ns%d ends" % (n, n, n) for n in (1, 2, 5, 6, 7, 9, 11, 16, 18)),
         "\n".join(p for p in pre if p), ".code", " dd offset tab, 0, 0, 0"]
    for n, t, b in MEM:
        ini = ", ".join("0%02xh" % x for x in b)
        L.append("%s label %s\n db %s" % (n, t, ini))
    L.append("org %d\ntab label dword" % DATAEND)
    for n in range(len(items)):
        L.append(" dd offset s%d_, offset f%d, offset b%d_, %s, %s" % (n, n, n, "offset v%d" % n if items[n][5] in (2, 3) else "0" if items[n][5] != 4 else "offset m%d" % n, "offset r%d" % n if items[n][5] == 4 else "0"))
    L.append("org %d\n dd 64 dup (0)" % OBS)
    L += body
    L.append("end")
    return "\n".join(L)


def key(it):
    conv, sig, ar, uses, loc, how, opt = it
    return ("%s:%s:%s:%s:%s:%d:%s" % (conv, ",".join(sig), ",".join(a[0] for a in ar), uses.replace(" ", "+"), ",".join(t for _, t, _ in loc), how, opt)).replace(" ", "_")


def judge(ctx, items):
    r = ctx.srv().asm(module(items), ("-q", "-bin", "-nomlib"))
    if r.exit or r.sig or not r.obj():
        if len(items) == 1:
            t = r.text()
            ctx.n["rejected"] += 1
            m = re.search(r"(A\d{4}): ([^\n]*)", t)
            ctx.n["rejected " + (m.group(1) if m else str(r.sig))] += 1
            if r.sig or not m:
                return V(key(items[0]), "assembler ended with signal %s: %s" % (r.sig, t[-200:]), source=module(items))
            if "A2169" in t:
                return V(key(items[0]), "the assembler crashed", source=module(items))
            # an argument whose register another argument needed is refused, and FASTCALL takes only arguments that fit a MOV
            if m.group(1) != "A2166" and not (items[0][0] == "fastcall" and m.group(1) in ("A2048", "A2049")):
                return V(key(items[0]), "refused: " + t[-200:], source=module(items))
            return None
        out = []
        for it in items:
            w = judge(ctx, [it])
            if w:
                out += w if isinstance(w, list) else [w]
        return out
    img = r.obj()
    e = emu.Emu(32, img, maxtrace=16)
    out = []
    for n, it in enumerate(items):
        w = run1(ctx, e, img, n, it)
        ctx.n["calls"] += 1
        if w:
            out.append(V(key(it), w, source=module([it])))
        else:
            ctx.outcome(it[0], len(it[1]), it[3], it[5], it[6])
    return out


def rd(e, a, n):
    if e.sb <= a <= e.sb + e.ns - n:
        return bytes(e.stk.raw[a - e.sb:a - e.sb + n])
    if 0 <= a <= len(e.orig) - n:
        return bytes(e.img.raw[a:a + n])
    return None


def wr(e, a, b):
    import ctypes
    if e.sb <= a <= e.sb + e.ns - len(b):
        ctypes.memmove(ctypes.addressof(e.stk) + a - e.sb, b, len(b))


def go(e, stop):
    import ctypes
    e.c.stop = stop
    s = e.l.xrun(ctypes.byref(e.c), ctypes.c_uint64(20000))
    e.c.stop = 0
    return s


def run1(ctx, e, img, n, it):
    conv, sig, ar, uses, loc, how, opt = it
    ent, fent, body, vec, rsite = struct.unpack_from("<5I", img, DATAEND + 20 * n)
    regs = {R[k]: v for k, v in INIT.items()}
    if any("[esi" in a[0] and "addr" not in a[0] for a in ar):
        regs[R["esi"]] = NEEDESI
    if how == 3:
        regs[R["ebx"]] = vec
    e.reset_image()
    # the stack starts with junk everywhere
    import ctypes
    ctypes.memset(e.stk, 0xEE, e.ns)
    e.setup(ent, regs)
    base, fr = e.top, None
    if how == 4:
        st = go(e, vec)
        if st != emu.STOPPED:
            return "in the caller's prologue: %s" % emu.NAME[st]
        base = e.c.r[4]
        fr = {}
        for k, (nm, ty, b) in enumerate(MEM):
            for q, pf in enumerate("lp"):
                fr[pf + nm] = int.from_bytes(rd(e, OBS + 8 * k + 4 * q, 4), "little")
                wr(e, fr[pf + nm], bytes(x ^ (0x5a if q else 0) for x in b))
        for rg in INIT:
            if rg not in ("ebp",):
                e.c.r[R[rg]] = regs[R[rg]]
        regs = dict(regs)
        regs[R["ebp"]] = e.c.r[R["ebp"]]
        regs[R["eax"]] = INIT["eax"]
        frame0 = {nm: rd(e, a, len(MV[nm[1:]])) for nm, a in fr.items()}
        al = []
        for nm, ty, b in MEM:
            al += [(fr["l" + nm], len(b), nm), (fr["p" + nm], len(b), nm)]
        al.sort()
        for x, y in zip(al, al[1:]):
            if x[0] + x[1] > y[0]:
                return "the caller's %s and %s overlap" % (x[2], y[2])
        ar = tuple((s_, [struct.pack("<I", fr[v[1]] + v[2])] if v[0] == "adr" else v) for s_, v in ar)
    st = go(e, fent)
    if st != emu.STOPPED:
        return "before the callee: %s" % emu.NAME[st]
    sp = e.c.r[4]
    used = regs_at = None
    # registers INVOKE has no reason to touch
    for rg in ("ebx", "esi", "edi", "ebp"):
        if e.c.r[R[rg]] != regs[R[rg]]:
            return "INVOKE changed %s" % rg
    rp = regparams(conv, sig)
    order = list(range(len(sig)))
    if conv in ("pascal", "basic", "fortran"):
        order = order[::-1]
    if conv == "fastcall":
        pass
    a = sp + 4
    if sig and sig[-1] == "vararg":
        order = list(range(len(ar)))
    for k in order:
        z = PTYPE[sig[k]] if k < len(sig) and sig[k] != "vararg" else len(ar[k][1][0])
        if k in rp:
            got = (e.c.r[R[rp[k]]] & 0xffffffff).to_bytes(4, "little")[:z]
            where = rp[k]
        else:
            got = rd(e, a, z)
            where = "[esp+%d]" % (a - sp)
            a += up4(z)
        if got not in ar[k][1]:
            return "at entry parameter %d (%s) in %s is %s, argument %s is %s" % (k, sig[min(k, len(sig) - 1)], where, got.hex() if got is not None else "outside the stack", ar[k][0], " or ".join(x.hex() for x in ar[k][1]))
    if a > base:
        return "arguments occupy %d bytes, only %d were pushed" % (a - sp - 4, base - sp - 4)
    if a < base and conv != "c" and conv != "syscall":
        return "%d bytes more than the arguments were pushed" % (base - a)
    entry = {k: e.c.r[R[k]] for k in R}
    ctx.n["steps"] += e.c.steps
    st = go(e, body)
    if st != emu.STOPPED:
        return "in the callee's prologue: %s" % emu.NAME[st]
    o = OBS
    ranges = []
    for k, pt in enumerate(sig):
        if pt == "vararg":
            break
        z = PTYPE[pt]
        pa = int.from_bytes(rd(e, o, 4), "little") if k not in rp else None
        o += 4
        got = rd(e, o, z)
        o += up4(z)
        if got not in ar[k][1]:
            return "in the callee p%d (%s) reads %s, argument %s is %s" % (k, pt, got.hex(), ar[k][0], " or ".join(x.hex() for x in ar[k][1]))
        if pa is not None:
            ranges.append((pa, z, "p%d" % k))
    for nm, ty, z in loc:
        la = int.from_bytes(rd(e, o, 4), "little")
        o += 4
        ranges.append((la, z, nm))
        if not e.c.r[4] <= la <= sp - z:
            return "%s lies at esp%+d..%+d of the callee's frame of %d bytes" % (nm, la - e.c.r[4], la - e.c.r[4] + z, sp - e.c.r[4])
    ranges.sort()
    for (a1, z1, n1), (a2, z2, n2) in zip(ranges, ranges[1:]):
        if a1 + z1 > a2:
            return "%s and %s overlap" % (n1, n2)
    # the callee may change all its locals, parameters and the registers it saves
    for a1, z1, n1 in ranges:
        wr(e, a1, b"\x99" * z1)
    lo = e.c.r[4]
    wr(e, lo - 64, b"\x77" * 64)
    for rg in ("eax", "ecx", "edx") + tuple(uses.split()):
        e.c.r[R[rg]] = 0xCCCCCCCC
    if how == 4:
        st = go(e, rsite)
        if st != emu.STOPPED:
            return "after the callee's body: %s" % emu.NAME[st]
        if e.c.r[4] != base:
            return "stack pointer off by %+d after the call" % (e.c.r[4] - base)
        for rg in ("ebx", "esi", "edi", "ebp"):
            if e.c.r[R[rg]] != regs[R[rg]]:
                return "%s isn't restored" % rg
        for nm, v in frame0.items():
            if rd(e, fr[nm], len(v)) != v:
                return "the call changed the caller's %s" % nm
        return None
    st = go(e, 0)
    if st != emu.HALT:
        return "after the callee's body: %s" % emu.NAME[st]
    if e.trace() != [2]:
        return "events %s" % e.trace()
    if e.c.r[4] != e.top:
        return "stack pointer off by %+d after the call" % (e.c.r[4] - e.top)
    for rg in ("ebx", "esi", "edi", "ebp"):
        if e.c.r[R[rg]] != regs[R[rg]]:
            return "%s isn't restored" % rg
    for rg in uses.split():
        if e.c.r[R[rg]] != entry[rg] and rg not in ("ecx", "edx"):
            return "%s isn't restored" % rg
        if rg in ("ecx", "edx") and e.c.r[R[rg]] != entry[rg]:
            return "%s (USES) isn't restored" % rg
    return None


TY = list(PTYPE)


def pick(pt, k):
    a = ARGS[pt]
    return a[k % len(a)]


def gen():
    rot = 0
    # every argument of every type for every convention, alone and next to every other type
    for conv in CONV:
        for pt in TY:
            for a in ARGS[pt]:
                for how in (0, 1, 2, 3):
                    rot += 1
                    yield (conv, (pt,), (a,), USES[rot % 5] if conv != "fastcall" else USES[rot % 5], LOC[rot % 7], how, "")
    for conv in CONV[:4] + (CONV[4:] if T else []):
        for p1 in TY:
            for p2 in TY:
                for k in range(max(len(ARGS[p1]), len(ARGS[p2])) if T else max(len(ARGS[p1]), len(ARGS[p2])) // 2 + 1):
                    rot += 1
                    yield (conv, (p1, p2), (pick(p1, k if T else 2 * k + rot), pick(p2, 3 * k + rot)), USES[rot % 5], LOC[rot % 7], rot % 4, "")
    small = ["byte", "sword", "dword", "qword", "real8", "ptr", "s3"]
    for conv in CONV:
        for sig in itertools.product(small, repeat=3):
            rot += 1
            yield (conv, sig, tuple(pick(p, rot + 5 * j) for j, p in enumerate(sig)), USES[rot % 5], LOC[rot % 7], rot % 4, "")
    if T:
        for conv in CONV[:4]:
            for sig in itertools.product(["byte", "word", "dword", "qword", "s12"], repeat=4):
                rot += 1
                yield (conv, sig, tuple(pick(p, rot + 5 * j) for j, p in enumerate(sig)), USES[rot % 5], LOC[rot % 7], rot % 4, "")
    # variable arguments
    for conv in ("c", "syscall"):
        for fix in ((), ("dword",), ("ptr", "qword")):
            for nv in range(0, 4):
                for vs in itertools.product(VA, repeat=nv):
                    if nv == 3 and not T and (len(vs[0][0]) + len(vs[1][0]) + len(vs[2][0])) % 5:
                        continue
                    rot += 1
                    if nv or fix:
                        yield (conv, fix + ("vararg",), tuple(pick(p, rot + j) for j, p in enumerate(fix)) + vs, USES[rot % 5], LOC[rot % 7], rot % 4, "")
    # the caller's own parameters and locals as arguments
    for conv in CONV:
        for pt in TY:
            for a in FARGS[pt]:
                rot += 1
                yield (conv, (pt,), (a,), USES[rot % 5], LOC[rot % 7], 4, "")
        for p1 in TY:
            for p2 in TY:
                rot += 1
                yield (conv, (p1, p2), (FARGS[p1][rot % len(FARGS[p1])], FARGS[p2][rot // 3 % len(FARGS[p2])]), USES[rot % 5], LOC[rot % 7], 4, "")
    for conv in CONV[:4]:
        for sig in itertools.product(["byte", "sword", "dword", "qword", "ptr", "s7"], repeat=3):
            rot += 1
            yield (conv, sig, tuple((FARGS if (rot + j) % 3 else ARGS)[p][(rot + 5 * j) % len((FARGS if (rot + j) % 3 else ARGS)[p])] for j, p in enumerate(sig)), USES[rot % 5], LOC[rot % 7], 4, "")
    # frames
    for conv in CONV:
        for u in USES:
            for lc in LOC:
                for sig in ((), ("dword",), ("byte", "qword", "word"), ("dword",) * 5):
                    for opt in ("", "stackbase:esp"):
                        for how in (0, 1):
                            rot += 1
                            if conv == "fastcall" and u == USES[5] and sig:
                                continue
                            yield (conv, sig, tuple(pick(p, rot + 3 * j) for j, p in enumerate(sig)), u, lc, how, opt)


def ok(it):
    """the harness itself needs ebx for a call through it and esi for the memory operands"""
    s = " ".join(a[0] for a in it[2])
    if it[0] == "fastcall" and any(p in ("s1", "s2", "s4") for p in it[1]):
        return None      # whether such a structure travels in a register is left open
    if it[5] == 4 and re.search(r"\bebp\b", s):
        return None
    if it[5] == 3 and re.search(r"\be?bx\b|\bb[lh]\b", s):
        it = it[:5] + (2,) + it[6:]
    if "ptr [esi" in s and re.search(r"\besi\b", re.sub(r"ptr \[esi", "", s)) or "ptr [esi" in s and re.search(r"\bsi\b", s):
        return None
    return it


ck.explore("calls", lambda: chunks(filter(None, map(ok, gen())), 10), judge)
ck.assume += ["an interpreter (harness/xemu.c) stands for the processor",
              "how a smaller unsigned register argument is extended for a signed parameter (and the reverse) is not judged"]
ck.finish("every call within the bounds: 7 conventions x 23 parameter types x every argument form of the type (constants at the limits, registers of each size and half, register pairs, memory of every size and signedness, structure "
          "members, ADDR/OFFSET, typecasts) x {call after the PROC, after a PROTO, through a typed variable, through a typed register}; all pairs and a grid of triples (and quadruples) of types; VARARG lists up to 3; calls whose arguments are the "
          "caller's own parameters and locals; USES sets x LOCAL sets x signatures x stack base EBP/ESP; each run to the callee's first instruction, to its body and back",
          states=ck.n["calls"], transitions=ck.n["steps"])

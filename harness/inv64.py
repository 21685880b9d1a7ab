"""64-bit INVOKE/PROC pairs: the arguments, the modules and the run on the interpreter (C13, C14)."""
import ctypes, os, re, struct
import emu, mlink, objfmt
from vlib import V

REGN = ["rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi", "r8", "r9", "r10", "r11", "r12", "r13", "r14", "r15"]
R = {n: k for k, n in enumerate(REGN)}
INIT = {n: (0x8123456789abcdef * (2 * k + 3) ^ 0x9000000080008080 * (k + 1)) & 0xffffffffffffffff | 0x8000000080008080 for k, n in enumerate(REGN) if n not in ("rsp", "rbp")}
PTYPE = {"byte": 1, "sbyte": 1, "word": 2, "sword": 2, "dword": 4, "sdword": 4, "qword": 8, "sqword": 8, "real4": 4, "real8": 8, "ptr": 8, "s1": 1, "s2": 2, "s4": 4, "s8": 8}
SIGNED = {"sbyte", "sword", "sdword", "sqword"}
MEM = [("vb", "byte", b"\x81"), ("vsb", "sbyte", b"\x92"), ("vw", "word", b"\x34\x92"), ("vsw", "sword", b"\x45\xa3"), ("vd", "dword", b"\x78\x56\x34\x92"),
       ("vsd", "sdword", b"\x79\x57\x35\x93"), ("vq", "qword", bytes([0xf0 - 7 * k for k in range(8)])), ("vsq", "sqword", bytes([0xe1 - 5 * k for k in range(8)])),
       ("vr4", "real4", struct.pack("<f", -2.5)), ("vr8", "real8", struct.pack("<d", -1.25e100)), ("vs8", "s8", bytes(range(0xc1, 0xc9))),
       ("vs1", "s1", b"\xb5"), ("vs2", "s2", b"\xb7\xb8"), ("vs4", "s4", b"\xa7\xa8\xa9\xaa")]
FMEM = MEM[:11]       # what the caller has as parameters and locals
MV = {n: b for n, t, b in MEM}
MOFS = {}
_o = 32
for _n, _t, _b in MEM:
    MOFS[_n] = _o
    _o += len(_b)
DATAEND = (_o + 7) & ~7
OBS, OBS2, CODE = 0x400, 0x600, 0x900
TEXT = mlink.IMAGEBASE + 0x1000


def regs_of(n):
    for r in REGN:
        if r in ("rsp", "rbp"):
            continue
        v = INIT[r]
        if n == 8:
            yield r, v
        elif r[1:].isdigit():
            yield r + {4: "d", 2: "w", 1: "b"}[n], v & (1 << 8 * n) - 1
        elif n == 4:
            yield "e" + r[1:], v & 0xffffffff
        elif n == 2:
            yield r[1:], v & 0xffff
        else:
            yield (r[1] + "l" if r[2] == "x" else r[1:] + "l"), v & 0xff
            if r[2] == "x":
                yield r[1] + "h", v >> 8 & 0xff


def le(v, n):
    return (v & (1 << 8 * n) - 1).to_bytes(n, "little")


def xmmval(k):
    return bytes((0x40 + 16 * k + j) & 255 for j in range(16))


def args(pt):
    n = PTYPE[pt]
    if pt in ("real4", "real8"):
        k = "<f" if n == 4 else "<d"
        for s, v in (("1.5", 1.5), ("-2.25", -2.25), ("0.0", 0.0), ("1.0e10", 1e10)):
            yield s, [struct.pack(k, v)]
        yield ("vr4" if n == 4 else "vr8"), [MV["vr4" if n == 4 else "vr8"]]
        for x in range(0, 9):
            yield "xmm%d" % x, [xmmval(x)[:n]]
        yield ("real4 ptr [rbx]" if n == 4 else "real8 ptr [rbx]"), ("mem", "vr4" if n == 4 else "vr8", 0)
        return
    if pt[0] == "s" and pt[1:].isdigit():
        yield "v" + pt, [MV["v" + pt]]
        yield "%s ptr [rbx]" % pt, ("mem", "v" + pt, 0)
        return
    if pt == "ptr":
        for s, v in (("addr vb", "vb"), ("offset vd", "vd"), ("addr vd+2", ("vd", 2)), ("addr vs8.y", ("vs8", 4))):
            yield s, ("adr", v if isinstance(v, str) else v[0], 0 if isinstance(v, str) else v[1])
        for s, v in (("addr [rbx+8]", INIT["rbx"] + 8), ("addr [rdi+4*rsi-3]", INIT["rdi"] + 4 * INIT["rsi"] - 3), ("addr [r12]", INIT["r12"]), ("addr [rax+5]", INIT["rax"] + 5), ("0", 0), ("rbx", INIT["rbx"]), ("rax", INIT["rax"]), ("r13", INIT["r13"]),
                     ("rcx", INIT["rcx"]), ("r9", INIT["r9"])):
            yield s, [le(v, 8)]
        yield "vq", [MV["vq"]]
        return
    for c in (0, 1, 0x7f, -1, -0x80, 0x80, 0xff, 0x100, 0x7fff, 0x8000, -0x8000, 0xffff, 0x7fffffff, 0x80000000, -0x80000000, 0xffffffff, 0x100000000, 0x7fffffffffffffff, 0x8000000000000000, -0x8000000000000000, 0xffffffffffffffff, 0x123456789abcdef0):
        if -(1 << (8 * n - 1)) <= c < 1 << (8 * n):
            yield (("0%xh" % c if c > 9 else str(c)) if c >= 0 else "-%d" % -c), [le(c, n)]
    for z in (1, 2, 4, 8):
        if z <= n:
            for r, v in regs_of(z):
                yield r, [le(v, n)] if z == n else [le(v, n), le(v - (1 << 8 * z) if v >> (8 * z - 1) else v, n)]
    for nm, ty, b in MEM[:8]:
        z = len(b)
        if z <= n:
            v = int.from_bytes(b, "little")
            ze, se = le(v, n), le(v - (1 << 8 * z), n)
            yield nm, [ze] if z == n else [se] if ty in SIGNED and pt in SIGNED else [ze] if ty not in SIGNED and pt not in SIGNED else [ze, se]
    yield "%s ptr [rbx]" % {1: "byte", 2: "word", 4: "dword", 8: "qword"}[n], ("mem", {1: "vs1", 2: "vs2", 4: "vs4", 8: "vs8"}[n], 0)
    if n == 4:
        yield "vs8.y", [MV["vs8"][4:]]
        yield "dword ptr vq+4", [MV["vq"][4:]]
    if n == 2:
        yield "vs8.h", [MV["vs8"][2:4]]
    if n == 8:
        yield "sizeof s8", [le(8, 8)]
        yield "qword ptr vs8", [MV["vs8"]]


ARGS = {pt: list(args(pt)) for pt in PTYPE}


def fargs(pt):
    n = PTYPE[pt]
    x5a = lambda b: bytes(x ^ 0x5a for x in b)
    for nm, ty, b in FMEM:
        if ty == pt:
            yield "l" + nm, [b]
            yield "p" + nm, [x5a(b)]
        elif ty in ("byte", "word", "dword") and pt in ("word", "dword", "qword") and len(b) < n:
            yield "l" + nm, [b + bytes(n - len(b))]
            yield "p" + nm, [x5a(b) + bytes(n - len(b))]
        elif ty in SIGNED and pt in SIGNED and len(b) < n:
            yield "l" + nm, [b + b"\xff" * (n - len(b))]
    if pt == "ptr":
        for nm in ("vb", "vq", "vs8"):
            for pf in "lp":
                yield "addr %s%s" % (pf, nm), ("adr", pf + nm, 0)
        yield "addr lvs8.y", ("adr", "lvs8", 4)
        yield "addr pvq+2", ("adr", "pvq", 2)
        yield "lvq", [MV["vq"]]
    if pt == "dword":
        yield "dword ptr lvq+4", [MV["vq"][4:]]
        yield "pvs8.y", [x5a(MV["vs8"][4:])]
    if pt == "qword":
        yield "qword ptr lvs8", [MV["vs8"]]
    if pt == "word":
        yield "pvs8.h", [x5a(MV["vs8"][2:4])]
    if pt == "byte":
        yield "byte ptr lvd+3", [MV["vd"][3:]]
    if pt == "s1":
        yield "s1 ptr lvb", [MV["vb"]]
    if pt == "s2":
        yield "s2 ptr pvw", [x5a(MV["vw"])]
    if pt == "s4":
        yield "s4 ptr lvd", [MV["vd"]]


FARGS = {pt: list(fargs(pt)) for pt in PTYPE}
LOC = [(), (("l0", "dword", 4),), (("l0", "byte", 1),), (("l0", "byte", 1), ("l1", "word", 2), ("l2", "qword", 8)), (("l0[5]", "byte", 5), ("l1", "qword", 8), ("l2", "byte", 1), ("l3[3]", "dword", 12)),
       (("l0", "xmmword", 16), ("l1", "byte", 1), ("l2", "xmmword", 16)), (("l0[200]", "byte", 200), ("l1", "real8", 8), ("l2", "s8", 8)), (("l0[5000]", "byte", 5000), ("l1", "qword", 8))]
USES = ["", "rbx", "rsi rdi", "rbx rsi rdi", "r12 r13 r14 r15 rbx", "xmm6", "rbx xmm6 xmm7", "rdi xmm8 xmm15 r15", "rbx rsi rdi r12 r13 r14 r15 xmm6 xmm7 xmm8 xmm9 xmm10 xmm11 xmm12 xmm13 xmm14 xmm15"]
WIN_INT = ["rcx", "rdx", "r8", "r9"]
SYSV_INT = ["rdi", "rsi", "rdx", "rcx", "r8", "r9"]


class Conf:
    """abi: win/sysv; head: source lines; frame: FRAME procedures; save: register parameters are stored by the prologue; auto: the prologue reserves
    the stack for INVOKE (and so keeps it aligned)"""
    def __init__(self, name, abi, head, frame, save, auto, fmt):
        self.name, self.abi, self.head, self.frame, self.save, self.auto, self.fmt = name, abi, head, frame, save, auto, fmt
        self.xuses = frame or auto
        self.conv = "fastcall" if abi == "win" else "systemv"
        self.intr = WIN_INT if abi == "win" else SYSV_INT
        # registers a procedure preserves
        self.keep = ["rbx", "rbp", "r12", "r13", "r14", "r15"] + (["rsi", "rdi"] if abi == "win" else [])
        self.keepx = list(range(6, 16)) if abi == "win" else []


CONF = {}
for _m, _b in ((0, "rbp"), (1, "rbp"), (3, "rbp"), (5, "rbp"), (7, "rbp"), (11, "rsp"), (15, "rsp")):
    for _f in (0, 1):
        n = "w%d%s" % (_m, "f" if _f else "")
        CONF[n] = Conf(n, "win", ("option frame:auto\n" if _f else "") + "option stackbase:%s\n" % _b + ("option win64:%d\n" % _m if _m else ""), bool(_f), bool(_m & 9), bool(_m & 2), "-win64")
CONF["sysv"] = Conf("sysv", "sysv", "", False, True, True, "-elf64")
CONF["sysvp"] = Conf("sysvp", "sysv", "option stackbase:rbp\n", False, True, True, "-elf64")


def places(cf, sig, ar):
    """where every argument is at the callee's first instruction: ('r', reg), ('x', n) or ('s', offset from rsp)"""
    out, ni, nx, so = [], 0, 0, 8
    for k in range(len(ar)):
        pt = sig[k] if k < len(sig) and sig[k] != "vararg" else None
        real = pt in ("real4", "real8")
        if cf.abi == "win":
            if k < 4:
                out.append(("x", k) if real else ("r", WIN_INT[k]))
            else:
                out.append(("s", 8 + 8 * k))
        elif real and nx < 8:
            out.append(("x", nx))
            nx += 1
        elif not real and ni < 6:
            out.append(("r", SYSV_INT[ni]))
            ni += 1
        else:
            out.append(("s", so))
            so += 8
    return out


def proc(cf, n, it):
    sig, ar, uses, loc, how, cu = it
    fr = " frame" if cf.frame else ""
    hd = "f%d proc %s%s%s" % (n, cf.conv, fr, " uses " + uses if uses else "")
    ps = ", ".join("p%d:%s" % (k, pt) for k, pt in enumerate(sig))
    L = [hd + (" " + ps if ps else "")]
    for nm, ty, z in loc:
        L.append(" local %s:%s" % (nm, ty))
    for k, pt in enumerate(sig):
        if pt == "vararg":
            break
        z = PTYPE[pt]
        o = 16 * k
        if cf.abi == "win":
            L.append(" lea rax, p%d\n mov obs[%d], rax" % (k, o))
        if pt in ("real4", "real8") and cf.abi == "sysv":
            L.append(" mov%s xmm15, p%d\n movsd real8 ptr obs[%d], xmm15" % ("ss" if z == 4 else "sd", k, o + 8))
        elif pt in ("real4", "real8", "s1", "s2", "s4", "s8"):
            r, t = {1: ("al", "byte"), 2: ("ax", "word"), 4: ("eax", "dword"), 8: ("rax", "qword")}[z]
            L.append(" mov %s, %s ptr p%d\n mov %s ptr obs[%d], %s" % (r, t, k, t, o + 8, r))
        else:
            r, t = {1: ("al", "byte"), 2: ("ax", "word"), 4: ("eax", "dword"), 8: ("rax", "qword")}[z]
            L.append(" mov %s, p%d\n mov %s ptr obs[%d], %s" % (r, k, t, o + 8, r))
    o = 16 * len(sig)
    for nm, ty, z in loc:
        L.append(" lea rax, %s\n mov obs[%d], rax" % (re.sub(r"\[.*", "", nm), o))
        o += 8
    L.append("b%d::" % n)
    L.append(" ret\nf%d endp" % n)
    pre = []
    call = "f%d" % n
    if how == 1:
        pre.append("f%d proto %s %s" % (n, cf.conv, ", ".join(":" + pt for pt in sig)))
    elif how in (2, 3):
        pre.append("t%d typedef proto %s %s" % (n, cf.conv, ", ".join(":" + pt for pt in sig)))
        pre.append("q%d typedef ptr t%d" % (n, n))
        call = "v%d" % n if how == 2 else "q%d ptr [r12]" % n
    C = []
    if how in (2, 3):
        C.append("v%d %s f%d" % (n, "q%d" % n if how == 2 else "dq", n))
    C.append("g%d proc %s%s%s %s" % (n, cf.conv, fr, " uses " + cu if cu else "", ", ".join("p%s:%s" % (nm, ty) for nm, ty, b in FMEM if cf.abi == "win" or ty != "s8") if how == 4 else "pz:qword"))
    if how == 4:
        C += [" local l%s:%s" % (nm, ty) for nm, ty, b in FMEM]
        for k, (nm, ty, b) in enumerate(FMEM):
            C.append(" lea rax, l%s\n mov obs2[%d], rax" % (nm, 16 * k))
            if cf.abi == "win":
                C.append(" lea rax, p%s\n mov obs2[%d], rax" % (nm, 16 * k + 8))
    else:
        C.append(" local lz:qword\n mov rax, pz\n mov lz, rax")
    C.append("m%d::\n invoke %s%s\nr%d::\n ret\ng%d endp" % (n, call, "".join(", " + a[0] for a in ar), n, n))
    return "\n".join(pre), "\n".join(L), "\n".join(C)


def module(cf, items):
    pre, body = [], []
    for n, it in enumerate(items):
        a, b, c = proc(cf, n, it)
        pre.append(a)
        body += [c, b] if it[4] == 1 else [b, c]
    L = ["option casemap:none\n" + cf.head + "s1 struct\nx db ?\ns1 ends\ns2 struct\nx dw ?\ns2 ends\ns4 struct\nx dd ?\ns4 ends\ns8 struct\na dw ?\nh dw ?\ny dd ?\ns8 ends", "\n".join(p for p in pre if p), ".code", " dq offset tab, 0, 0, 0"]
    for n, t, b in MEM:
        L.append("%s label %s\n db %s" % (n, t, ", ".join("0%02xh" % x for x in b)))
    L.append("org %d\ntab label qword" % DATAEND)
    for n, it in enumerate(items):
        L.append(" dq offset g%d, offset m%d, offset f%d, offset b%d, offset r%d, %s" % (n, n, n, n, n, "offset v%d" % n if it[4] in (2, 3) else "0"))
    L.append("org %d\nobs label qword\n db %d dup (0)\nobs2 label qword\n db %d dup (0)\n db 0f4h" % (OBS, OBS2 - OBS, CODE - OBS2 - 16))
    L.append("org %d" % CODE)
    L += body
    L.append("end")
    return "\n".join(L)


HLTAT = CODE - 16


def key(cf, it):
    sig, ar, uses, loc, how, cu = it
    return ("%s:%s:%s:%s:%s:%d:%s" % (cf.name, ",".join(sig), ",".join(a[0] for a in ar), uses.replace(" ", "+"), ",".join(t for _, t, _ in loc), how, cu.replace(" ", "+"))).replace(" ", "_")


def code_of(cf, r):
    """the linked image of an assembled module: (text, {section: bytes})"""
    fmt = "elf" if cf.abi == "sysv" else "coff"
    o = getattr(objfmt, fmt)(r.obj())
    base, at = {}, TEXT
    for s in o.secs:
        if s.name == ".text":
            base[".text"] = TEXT
            at = TEXT + ((len(s.data) + 0xfff) & ~0xfff)
    for s in o.secs:
        if s.name not in base:
            base[s.name] = at
            at += (s.size + 0xfff) & ~0xfff
    out = {}
    for s in o.secs:
        if s.name in (".text", ".pdata", ".xdata"):
            out[s.name] = mlink.link(cf.fmt, o, s.name, base, {}, inline=cf.abi == "sysv")
    return out, base


class Run:
    def __init__(self, cf, img, maxstack=0x8000):
        self.cf = cf
        self.img = img
        self.e = emu.Emu(64, img, base=TEXT, maxtrace=16, stack=maxstack)

    def rd(self, a, n):
        e = self.e
        if e.sb <= a <= e.sb + e.ns - n:
            return ctypes.string_at(ctypes.addressof(e.stk) + a - e.sb, n)
        if TEXT <= a <= TEXT + len(e.orig) - n:
            return ctypes.string_at(ctypes.addressof(e.img) + a - TEXT, n)
        return None

    def wr(self, a, b):
        e = self.e
        if e.sb <= a <= e.sb + e.ns - len(b):
            ctypes.memmove(ctypes.addressof(e.stk) + a - e.sb, b, len(b))

    def q(self, a):
        return int.from_bytes(self.rd(a, 8), "little")

    def go(self, stop):
        e = self.e
        e.c.stop = stop
        s = e.l.xrun(ctypes.byref(e.c), ctypes.c_uint64(20000))
        e.c.stop = 0
        return s

    def x(self, k):
        return bytes(self.e.c.x[k][:16])

    def setx(self, k, b):
        self.e.c.x[k][:len(b)] = list(b)

    def call(self, ctx, n, it, watch=None):
        """run item n; returns a complaint or None.  watch(phase) is called at every instruction of the callee when given."""
        cf, e = self.cf, self.e
        sig, ar, uses, loc, how, cu = it
        gat, mat, fat, bat, rat, vat = struct.unpack_from("<6Q", self.img, DATAEND + 48 * n)
        e.reset_image()
        ctypes.memset(e.stk, 0xEE, e.ns)
        sp0 = (e.top - 0x200 & ~15) - 8
        regs = {R[k]: v for k, v in INIT.items()}
        regs[5] = 0x7172737475767778
        e.setup(gat, regs, sp=sp0)
        e.c.r[4] = sp0
        for k in range(16):
            self.setx(k, xmmval(k))
        self.wr(sp0, struct.pack("<Q", TEXT + HLTAT))
        start = {k: e.c.r[k] for k in range(16)}
        st = self.go(mat)
        if st != emu.STOPPED:
            return "in the caller's prologue: %s" % emu.NAME[st]
        base = e.c.r[4]
        if cf.auto and base & 15:
            return "the stack is misaligned in the caller's body: rsp=%x" % base
        fr = {}
        if how == 4:
            for k, (nm, ty, b) in enumerate(FMEM):
                fr["l" + nm] = self.q(TEXT + OBS2 + 16 * k)
                if cf.abi == "win":
                    fr["p" + nm] = self.q(TEXT + OBS2 + 16 * k + 8)
            al = sorted((a, len(MV[nm[1:]]), nm) for nm, a in fr.items())
            for a, z, nm in al:
                if not (base <= a < sp0 + 8 * len(FMEM) + 8) or sp0 - 0 <= a < sp0 + 8 or (nm[0] == "l" and a + z > sp0):
                    return "the caller's %s is at rsp%+d, its frame has %d bytes" % (nm, a - base, sp0 - base)
            for p, q in zip(al, al[1:]):
                if p[0] + p[1] > q[0]:
                    return "the caller's %s and %s overlap" % (p[2], q[2])
            for nm, a in fr.items():
                self.wr(a, bytes(x ^ (0x5a if nm[0] == "p" else 0) for x in MV[nm[1:]]))
        frame0 = {nm: (a, self.rd(a, len(MV[nm[1:]]))) for nm, a in fr.items()}
        # every register has a value of its own when the arguments are evaluated
        for rg, v in INIT.items():
            e.c.r[R[rg]] = v
        for k in range(16):
            self.setx(k, xmmval(k))
        vals = []
        for s, v in ar:
            if isinstance(v, tuple):
                if v[0] == "adr":
                    v = [le((fr[v[1]] if v[1] in fr else TEXT + MOFS[v[1]]) + v[2], 8)]
                elif v[0] == "memr":        # [base + index * scale + disp] is where the variable is
                    _, nm, b, x, sc, d = v
                    at = TEXT + MOFS[nm] - d
                    if x:
                        k = 7 if b else at // sc
                        at -= k * sc
                        e.c.r[R[x]] = k
                    if b:
                        e.c.r[R[b]] = at
                    v = [MV[nm]]
                else:
                    e.c.r[R["rbx"]] = TEXT + MOFS[v[1]]
                    v = [MV[v[1]]]
            vals.append(v)
        if how == 3:
            e.c.r[R["r12"]] = vat
        before = {k: e.c.r[k] for k in range(16)}
        st = self.go(fat)
        if st != emu.STOPPED:
            return "before the callee: %s" % emu.NAME[st]
        sp = e.c.r[4]
        for rg in cf.keep:
            if e.c.r[R[rg]] != before[R[rg]]:
                return "INVOKE changed %s" % rg
        for k in cf.keepx:
            if self.x(k) != xmmval(k):
                return "INVOKE changed xmm%d" % k
        if (cf.auto or base & 15 == 0) and sp & 15 != 8:
            return "rsp is %x at the callee's first instruction" % sp
        pl = places(cf, sig, ar)
        hi = sp + 8 + (32 if cf.abi == "win" else 0)
        for k, (kind, w) in enumerate(pl):
            pt = sig[min(k, len(sig) - 1)]
            z = PTYPE[pt] if pt != "vararg" else len(vals[k][0])
            if kind == "r":
                got = le(e.c.r[R[w]], 8)[:z]
            elif kind == "x":
                got = self.x(w)[:z]
            else:
                got = self.rd(sp + w, z)
                hi = max(hi, sp + w + 8)
            if got not in vals[k]:
                return "at entry parameter %d (%s) in %s is %s, argument %s is %s" % (k, pt, w if kind == "r" else "xmm%d" % w if kind == "x" else "[rsp+%d]" % w, got.hex(), ar[k][0], " or ".join(x.hex() for x in vals[k]))
        if "vararg" in sig and cf.abi == "sysv" and e.c.r[0] & 255 != sum(1 for p in pl if p[0] == "x"):
            return "al is %d at the call of a procedure with VARARG" % (e.c.r[0] & 255)
        entry = {k: e.c.r[k] for k in range(16)}
        ctx.n["steps"] += e.c.steps
        self.entry, self.sp = entry, sp
        if watch is None:
            st = self.go(bat)
        else:
            w, st = watch(self, fat, bat)
            if w:
                return w
        if st != emu.STOPPED:
            return "in the callee's prologue: %s" % emu.NAME[st]
        bsp = e.c.r[4]
        if cf.frame or cf.auto:
            if (uses.find("xmm") >= 0 or loc) and bsp & 15 and cf.auto:
                return "rsp is %x in the callee's body" % bsp
        rng = []
        for k, pt in enumerate(sig):
            if pt == "vararg":
                break
            z = PTYPE[pt]
            kind, w = pl[k]
            if kind != "s" and not cf.save:
                continue
            got = self.rd(TEXT + OBS + 16 * k + 8, z)
            if got not in vals[k]:
                return "in the callee p%d (%s) reads %s, argument %s is %s" % (k, pt, got.hex(), ar[k][0], " or ".join(x.hex() for x in vals[k]))
            if cf.abi == "win":
                rng.append((self.q(TEXT + OBS + 16 * k), z, "p%d" % k))
        for j, (nm, ty, z) in enumerate(loc):
            a = self.q(TEXT + OBS + 16 * len(sig) + 8 * j)
            rng.append((a, z, nm))
            if not bsp <= a <= sp - z:
                return "%s lies at rsp%+d..%+d of the callee's frame of %d bytes" % (nm, a - bsp, a - bsp + z, sp - bsp)
            if ty == "xmmword" and a & 15 and "15" in cf.name:
                return "%s isn't aligned" % nm
        rng.sort()
        for (a1, z1, n1), (a2, z2, n2) in zip(rng, rng[1:]):
            if a1 + z1 > a2:
                return "%s and %s overlap" % (n1, n2)
        for a1, z1, n1 in rng:
            self.wr(a1, b"\x99" * z1)
        for k, (kind, w) in enumerate(pl):
            if kind == "s":
                self.wr(sp + w, b"\x97" * 8)
        self.wr(bsp - 256, b"\x77" * 256)
        us = uses.split()
        for rg in ("rax", "rcx", "rdx", "r8", "r9", "r10", "r11") + (("rsi", "rdi") if cf.abi == "sysv" else ()) + tuple(u for u in us if u[0] == "r"):
            e.c.r[R[rg]] = 0xCCCCCCCCCCCCCCCC
        for k in list(range(0, 6)) + [int(u[3:]) for u in us if u[0] == "x"]:
            self.setx(k, b"\xcd" * 16)
        if watch is None:
            st = self.go(rat)
        else:
            w, st = watch(self, bat, rat)
            if w:
                return w
        if st != emu.STOPPED:
            return "after the callee's body: %s" % emu.NAME[st]
        if e.c.r[4] != base:
            return "stack pointer off by %+d after the call" % (e.c.r[4] - base)
        for rg in cf.keep:
            if e.c.r[R[rg]] != entry[R[rg]]:
                return "%s isn't restored" % rg
        for k in cf.keepx:
            if self.x(k) != xmmval(k):
                return "xmm%d isn't restored" % k
        for nm, (a, v) in frame0.items():
            if self.rd(a, len(v)) != v:
                return "the call changed the caller's %s" % nm
        for u in cu.split():
            if u[0] == "r":
                e.c.r[R[u]] = 0xDDDDDDDDDDDDDDDD
            else:
                self.setx(int(u[3:]), b"\xdd" * 16)
        # what INVOKE's scratch registers may hold is nobody's business; the rest goes back to the caller's caller
        for rg in cf.keep:
            if rg not in cu.split() and rg != "rbp":
                e.c.r[R[rg]] = start[R[rg]]
        st = self.go(TEXT + HLTAT)
        if st != emu.STOPPED:
            return "after the call: %s" % emu.NAME[st]
        if e.c.r[4] != sp0 + 8:
            return "the caller returns with its stack off by %+d" % (e.c.r[4] - sp0 - 8)
        for rg in cf.keep:
            if e.c.r[R[rg]] != start[R[rg]]:
                return "the caller doesn't restore %s" % rg
        for k in cf.keepx:
            if self.x(k) != xmmval(k):
                return "the caller doesn't restore xmm%d" % k
        return None


def uses_for(cf, k):
    u = USES[k % len(USES)]
    if cf.abi == "win" and not cf.xuses:
        u = " ".join(x for x in u.split() if x[0] == "r")
    if cf.abi == "sysv":
        u = " ".join(x for x in u.split() if x[0] == "r" and x not in ("rsi", "rdi"))
    return u

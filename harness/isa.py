"""Instruction statements: run them through the assembler under test and
through GNU as, and compare what GNU objdump reads back from both."""
import os, re, struct, subprocess, tempfile
from vlib import *

HEAD = {16: ".686p\n.mmx\n.xmm\n.k3d\n%s_t segment use16\n", 32: ".686p\n.mmx\n.xmm\n.k3d\n%s_t segment use32\n",
        64: ".x64p\n%s_t segment use64\n"}
HEADV = {16: HEAD[16], 32: HEAD[32], 64: HEAD[64]}
ERR = re.compile(rb"^t\.asm\((\d+)\) : (?:Error|Fatal error) (A\d+): (.*)$", re.M)


class Crash(Exception):
    def __init__(self, what, src):
        super().__init__(what)
        self.what, self.src = what, src


def uasm(ctx, mode, stmts, head=None, opts=("-bin", "-nomlib")):
    """-> {idx: bytes} of the accepted statements, {idx: message} of the others"""
    live = list(range(len(stmts)))
    bad = {}
    head = (head or HEAD[mode]).replace("%s", "")
    hl = head.count("\n")
    for _ in range(8):
        src = head + "".join("l%d: %s\n" % (i, stmts[i]) for i in live) + "lz_:\n"
        body = src + "".join(" dd l%d-l%d\n" % (b, a) for a, b in zip(live, live[1:]))
        if live:
            body += " dd lz_-l%d\n" % live[-1]
        body += "_t ends\nend\n"
        r = ctx.srv().asm(body, list(opts) + ["-e=1000000"])
        ctx.n["steps"] += len(live)
        if r.sig:
            raise Crash("signal %d" % r.sig, body)
        if r.exit == 0:
            o = r.obj() or b""
            n = len(live)
            lens = struct.unpack("<%dI" % n, o[len(o) - 4 * n:]) if n else ()
            out = {}
            p = 0
            for i, l in zip(live, lens):
                out[i] = o[p:p + l]
                p += l
            if p + 4 * n != len(o):
                raise Crash("image size %d, labels say %d" % (len(o) - 4 * n, p), body)
            return out, bad
        txt = r.console
        new = {}
        for m in ERR.finditer(re.sub(rb"\x1b\[[0-9;]*m", b"", txt)):
            ln = int(m[1]) - hl - 1
            if 0 <= ln < len(live):
                new.setdefault(live[ln], m[3].decode("latin1"))
        if not new:
            raise Crash("exit %s without a usable diagnostic: %s" % (r.exit, r.text()[:300]), body)
        bad.update(new)
        live = [i for i in live if i not in new]
    raise Crash("errors do not settle", "")


GAS = {16: ["--32"], 32: ["--32"], 64: ["--64"]}
GHEAD = {16: ".code16\n", 32: ".code32\n", 64: ".code64\n"}
GERR = re.compile(r"^[^:\n]*:(\d+): Error: (.*)$", re.M)


def gas(mode, stmts, march=None):
    """-> {idx: bytes}, {idx: message}"""
    live = list(range(len(stmts)))
    bad = {}
    d = scratch_tmp()
    for _ in range(6):
        src = ".intel_syntax noprefix\n" + GHEAD[mode] + ".text\n"
        src += "".join("l%d: %s\n" % (i, stmts[i]) for i in live) + "lz_:\n.data\n"
        src += "".join(".long l%d-l%d\n" % (b, a) for a, b in zip(live, live[1:]))
        if live:
            src += ".long lz_-l%d\n" % live[-1]
        open(d + "/g.s", "w").write(src)
        r = subprocess.run(["as"] + GAS[mode] + ["-o", d + "/g.o", d + "/g.s"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode == 0:
            subprocess.run(["objcopy", "-O", "binary", "-j", ".text", d + "/g.o", d + "/g.t"], check=True)
            subprocess.run(["objcopy", "-O", "binary", "-j", ".data", d + "/g.o", d + "/g.d"], check=True)
            t = open(d + "/g.t", "rb").read()
            lens = struct.unpack("<%dI" % len(live), open(d + "/g.d", "rb").read()) if live else ()
            out, p = {}, 0
            for i, l in zip(live, lens):
                out[i] = t[p:p + l]
                p += l
            return out, bad
        new = {}
        for m in GERR.finditer(r.stdout.decode("latin1")):
            ln = int(m[1]) - 4
            if 0 <= ln < len(live):
                new.setdefault(live[ln], m[2])
        if not new:
            raise Infra("as: " + r.stdout.decode("latin1")[:300])
        bad.update(new)
        live = [i for i in live if i not in new]
    raise Infra("as: errors do not settle")


_tmp = None


def scratch_tmp():
    global _tmp
    if _tmp is None or _tmp[0] != os.getpid():
        _tmp = (os.getpid(), scratch_dir())
    return _tmp[1]


ARCH = {16: "i8086", 32: "i386", 64: "i386:x86-64"}


def decode(mode, codes):
    """objdump's reading of each byte string: text, or None if it is not exactly one instruction"""
    SL = 32
    d = scratch_tmp()
    img = b"".join(c[:24].ljust(SL, b"\x90") for c in codes)
    open(d + "/d.bin", "wb").write(img)
    r = subprocess.run(["objdump", "-D", "-b", "binary", "-m", ARCH[mode], "-M", "intel", "-w", "--no-show-raw-insn", d + "/d.bin"],
                       stdout=subprocess.PIPE)
    at = {}
    for m in re.finditer(rb"^ *([0-9a-f]+):\t(.*)$", r.stdout, re.M):
        at[int(m[1], 16)] = m[2].decode().strip()
    out = []
    for i, c in enumerate(codes):
        o = i * SL
        nxt = o + len(c)
        t = at.get(o)
        if t is None or not c or len(c) > 24 or nxt not in at or any(o < x < nxt for x in at if False):
            out.append(None)
            continue
        k = o + 1
        while k not in at:
            k += 1
        out.append(canon(t) if k == nxt else None)
    return out


def canon(t):
    t = re.sub(r"\s+", " ", t)
    t = re.sub(r"\s*[#<].*$", "", t).strip()
    return t


# ---------------------------------------------- does a decoding say what was written?
_SZ = r"\b(byte|word|dword|fword|qword|tbyte|xmmword|ymmword|zmmword|oword|far|near)( ptr| bcst)?\s+"
ALIAS = {"sal": "shl", "retn": "ret", "retf": "retf", "iretf": "iretw", "iretdf": "iret", "sysexit": "sysexitd", "sysret": "sysretd",
         "fadd": "faddp", "fmul": "fmulp", "fsub": "fsubp", "fsubr": "fsubrp", "fdiv": "fdivp", "fdivr": "fdivrp",
         "pushf": "pushfw", "popf": "popfw", "iret": "iretw", "popa": "popaw", "pusha": "pushaw",
         "fnstenvd": "fnstenv", "fstenvd": "fstenv", "fldenvd": "fldenv", "fsaved": "fsave", "fnsaved": "fnsave", "frstord": "frstor",
         "fnstenvw": "fnstenv", "fstenvw": "fstenv", "fldenvw": "fldenv", "fsavew": "fsave", "fnsavew": "fnsave", "frstorw": "frstor",
         "int3": "int3", "jmpe": "jmpe", "fsetpm": "fnsetpm", "xlatb": "xlat", "fwait": "fwait", "wait": "fwait"}
GROUPS = [set(x.split()) for x in (
    "b c nae", "nb nc ae", "z e", "nz ne", "be na", "nbe a", "p pe", "np po", "l nge", "nl ge", "le ng", "nle g")]
CC = {}
for _g in GROUPS:
    for _x in _g:
        for _p in ("j", "set", "cmov"):
            CC[_p + _x] = _p + sorted(_g)[0]


def _ops(t):
    t = re.sub(r"^((rex(\.\w+)?|data16|addr32|data32|addr16|ds|fwait) )+(?=[a-z])", "", t.lower().strip())
    t = re.sub(_SZ, "", t)
    t = re.sub(r"\(287 only\)", "", t)
    m = re.match(r"(\S+)\s*(.*)", t)
    if not m:
        return "", []
    out = []
    for o in re.split(r",\s*(?![^\[]*\])", m[2]) if m[2] else []:
        o = o.strip().replace(" ", "")
        if re.fullmatch(r"-?(0x[0-9a-f]+|[0-9]+)", o):
            o = "#%d" % int(o, 0)
        elif re.fullmatch(r"[c-gs]s:(0x[0-9a-f]+|[0-9]+)", o):
            o = o[:3] + "[%d]" % int(o[3:], 0)
        else:
            o = re.sub(r"0x([0-9a-f]+)", lambda m: str(int(m[1], 16)), o)
            o = re.sub(r"^st$", "st(0)", o)
            o = re.sub(r"\*1(?!\d)", "", o)
        out.append(o)
    return m[1], out


def _immeq(a, b, w64=False):
    """a: written, b: decoded; w64: the operation is 64 bits wide"""
    if not (a.startswith("#") and b.startswith("#")):
        return a == b
    x, y = int(a[1:]), int(b[1:])
    if not w64:               # constant arithmetic is 32 bits wide
        if 1 << 31 <= x < 1 << 32 and y < 1 << 16:
            x -= 1 << 32
        elif -(1 << 32) <= x < -(1 << 31):
            x += 1 << 32
    if w64 and y >= 1 << 16:
        return (x - y) % (1 << 64) == 0
    if -65536 <= x < -32768 and (x + 65536 - y) % 65536 == 0 and abs(y) < 65536:
        return True           # 16-bit immediates count modulo 2^16
    for bits in (8, 16, 32, 64):
        if -(1 << (bits - 1)) <= x < (1 << bits):
            # the decoder prints some immediates sign-extended, others at their size
            return any((x - y) % (1 << k) == 0 for k in (bits, 16, 32, 64) if k >= bits)
    return False


_MEM = re.compile(r"^((?:[c-gs]s:)?)\[(.*)\]$")


def _memkey(o, mode=64, mn=""):
    m = _MEM.match(o)
    if not m:
        return o
    seg = m[1]
    if mn == "lea" or seg in (("es:", "cs:", "ss:", "ds:") if mode == 64 else
                              ("ss:",) if re.match(r"(e?bp|esp)\b", m[2]) else ("ds:",)):
        seg = ""
    parts = re.findall(r"[+-]?[^+-]+", m[2])
    regs, disp = [], 0
    for p in parts:
        q = p.lstrip("+")
        try:
            disp += int(q, 0)
        except ValueError:
            regs.append(q)
    return seg + "|" + "+".join(sorted(r for r in regs if r not in ("riz", "eiz", "riz*1", "eiz*1"))) + "|%d" % (disp & 0xFFFFFFFF if abs(disp) > 0x7FFF else disp & 0xFFFF)


R64 = set("rax rcx rdx rbx rsp rbp rsi rdi".split() + ["r%d" % i for i in range(8, 16)])
SHIFT = set("rol ror rcl rcr shl sal shr sar bt btc btr bts enter ret retn retf int out in shld shrd rorx".split())
STRING = re.compile(r"^(cmps|movs|lods|stos|scas|ins|outs)([bwdq]?)$")


def same(st, dec, mode=64):
    """does the decoded text dec say the same as the statement st?"""
    if dec is None:
        return False
    a, x = _ops(st)
    b, y = _ops(dec)
    s = STRING.match(a)
    if s and not any(o.startswith(("xmm", "#")) for o in x):
        t = STRING.match(b)
        if not t or s[1] != t[1]:
            return False
        sz = {"b": "byte", "w": "word", "d": "dword", "q": "qword"}
        dz = re.search(r"(byte|word|dword|qword) ptr", dec.lower())
        if s[2]:
            return bool(dz) and dz[1] == sz[s[2]]
        wz = re.findall(r"(byte|word|dword|qword) ptr", st.lower())
        return bool(dz) and len(set(wz)) == 1 and dz[1] == wz[0] and not re.search("rex.W (ins|outs)", dec)
    a = CC.get(a, a)
    b = CC.get(b, b)
    a = {"retw": {16: "retf"}.get(mode, "retfw"), "retd": {32: "retf"}.get(mode, "retfd")}.get(a, a)
    if a in ("push", "pushd") and b == "pushd" and mode == 16:
        a = b
    if a != b:
        if a in ("fadd", "fmul", "fsub", "fsubr", "fdiv", "fdivr") and not x:
            x = ["st(1)", "st(0)"]
        elif a in ("pushf", "popf", "iret", "pusha", "popa") and mode == 32:
            pass
        if a[:4] in ("sgdt", "sidt", "lgdt", "lidt") and a[:4] == b[:4]:
            pass
        elif ALIAS.get(a, a) != ALIAS.get(b, b) and ALIAS.get(a, a) != b:
            return False
    if a[:3] == "ret" and x in (["#0"], ["0"]) and not y:
        x = []
    if a == "imul" and len(x) == 2 and len(y) == 3 and x[1][0] == "#":
        x.insert(1, x[0])
    if a in ("sgdt", "sidt", "lgdt", "lidt"):
        b = b[:4]
    if len(x) != len(y):
        return False
    x = [_memkey(o, mode, a) for o in x]
    y = [_memkey(o, mode, a) for o in y]
    w = bool(x) and (x[0] in R64 or bool(re.match(r"\S+ qword ptr", st))) and a not in SHIFT
    if all(_immeq(p, q, w) for p, q in zip(x, y)):
        return True
    return a in ("test", "xchg") and all(_immeq(p, q) for p, q in zip(x, reversed(y)))


def judge(mode, stmts, codes, strict=True):
    """-> {idx: what is wrong} for the statements whose code is not what they say.
    strict=False judges only what the reference assembler knows too."""
    ok, bad = gas(mode, stmts)
    sus = [i for i in range(len(stmts)) if ok.get(i) != codes[i] and (strict or i in ok)]
    du = dict(zip(sus, decode(mode, [codes[i] for i in sus])))
    both = [i for i in sus if i in ok]
    dg = dict(zip(both, decode(mode, [ok[i] for i in both])))
    out = {}
    strip = lambda t: re.sub(r"^((rex(\.\w+)?|data16) )+", "", t) if t else t
    for i in sus:
        if i in dg and du[i] is not None and (strip(du[i]) == dg[i] or same(dg[i], du[i], mode)):
            continue
        if same(stmts[i], du[i], mode):
            continue
        if i in ok:
            out[i] = "encoded as %s (%s), reference %s (%s)" % (codes[i].hex(), du[i], ok[i].hex(), dg[i])
        elif strict and not (mode == 64 and re.match(r"bnd\w+ .*\[(e|r\d+d)", stmts[i])):   # MPX has no 32-bit addresses
            out[i] = "encoded as %s, which a decoder reads as %s (reference: %s)" % (codes[i].hex(), du[i], bad[i])
    return out, ok

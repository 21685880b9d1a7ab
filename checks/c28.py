"""C28 command line: every ordered pair of options, every way of handing options over, every documented effect of an option against the same
thing written in the source, every file argument position, and every malformed neighbour of an option, on the real program."""
import itertools, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from vlib import *

ck = Check("C28", variants=("plain", "asan"))
T = ck.thorough
os.environ["ASAN_SEGV"] = "1"
DATE = re.compile(rb"\d{4}-\d\d-\d\d|\d\d/\d\d/\d\d|\d\d:\d\d:\d\d|\d+ ms")

A = """ifdef KX
 %echo kx=KX
endif
ifdef KY
 %echo ky=KY
endif
s1 struct
a db ?
b dd ?
s1 ends
ifdef casesym
v1 equ 1
else
v1 equ 2
endif
CaseSym equ 3
t1 segment para use16 public 'CODE'
 dd @Cpu,@WordSize,v1,sizeof s1
Lab1 label byte
 extern ExtSym:byte
 mov al,ExtSym
 public Lab1
x1:
 if @Cpu and 2
 push 5
 endif
 mov ax,bx
t1 ends
 end
"""
B = """.data
d1 dw @Model,@Interface
Pub1 dd offset d1
public Pub1
.code
pr1 proto :word,:word
pr2 proc a1:word
 mov ax,a1
 ret
pr2 endp
l1: nop
 invoke pr1,1,2
 fld dword ptr d1
 include sub.inc
end
"""
C = """.386
.model flat,stdcall
.code
p1 proc a1:dword
local b1:dword
 mov eax,a1
 jmp l9
l9:
 ret
p1 endp
p2 proc vectorcall a1:dword
 ret
p2 endp
p3 proc c export a1:dword
 ret
p3 endp
 mov eax,foo1
 mov ebx,foo2
 .err <own>
s9 struct
 x db ?
 dd ?
s9 ends
end
"""
D = """.code
p1 proc frame a1:qword,a2:xmmword
local b1:qword
 mov rax,a1
 ret
p1 endp
p2 proc
 invoke p1,1,xmm2
 ret
p2 endp
end
"""
W = """.386
.model flat
.code
p1 proc c a1:dword
 ret
p1 endp
 mov eax,[esp].nix
 invoke p1,eax
 echo w
 option oldstructs
 db 5 dup (0)
end
"""
PROBES = {"a": A, "b": B, "c": C, "d": D, "w": W}
INC = {"sub.inc": " db 'root'\n", "i1/sub.inc": " db 'i1'\n", "i2/sub.inc": " db 'i2'\n", "i1/only1.inc": " db 'only1'\n", "f1.inc": "v77 equ 1\n%echo f1\n", "f2.inc": "%echo f2\nifdef v77\n%echo after\nendif\n", "e1/env.inc": " db 'env'\n"}

# option, slot; options of one slot replace each other (the last wins), those of different slots have nothing to do with each other
OPT = [("-bin", "fmt"), ("-omf", "fmt"), ("-coff", "fmt"), ("-elf", "fmt"), ("-win64", "fmt"), ("-mz", "fmt"), ("-pe", "fmt"), ("-elf64", "fmt lang"), ("-macho64", "fmt lang"),
       ("-0", "cpu"), ("-1", "cpu"), ("-2", "cpu"), ("-3", "cpu"), ("-3p", "cpu"), ("-6", "cpu"), ("-8", "cpu"), ("-10", "cpu"), ("-fp0", "fp"), ("-fp2", "fp"), ("-fp3", "fp"), ("-fpc", "fp"), ("-FPi", "fpi"), ("-FPi87", "fpi"),
       ("-Cp", "case"), ("-Cu", "case"), ("-Cx", "case"), ("-Gc", "lang"), ("-Gd", "lang"), ("-Gr", "lang"), ("-Gz", "lang"), ("-mt", "model"), ("-ms", "model"), ("-mc", "model"), ("-mm", "model"), ("-ml", "model"), ("-mh", "model"), ("-mf", "model"),
       ("-archSSE", "arch"), ("-archAVX", "arch"), ("-DKX=5", "D"), ("-DKY=\"a b\"", "D"), ("-DKZ=", "D"), ("-Fs=s.sym", "Fs"), ("-e=1", "e"), ("-e2", "e"), ("-eq", "eq"), ("-EP", "ep"), ("-Fi=f1.inc", "Fi"), ("-Fi=f2.inc", "Fi"), ("-Ii1", "I"), ("-I=i2", "I"),
       ("-Fl", "Fl"), ("-Fl=l.txt", "Fl"), ("-Fo=o.out", "Fo"), ("-Foq", "Fo"), ("-Fw=w.txt", "Fw"), ("-nc=CC", "nc"), ("-nd=DD", "nd"), ("-nm=MM", "nm"), ("-nt=TT", "nt"), ("-less", "less"), ("-nologo", "q"), ("-c", "c"),
       ("-Sa", "S"), ("-Sf", "S"), ("-Sg", "S"), ("-Sn", "S"), ("-Sx", "S"), ("-safeseh", "safeseh"), ("-W0", "W"), ("-W1", "W"), ("-W3", "W"), ("-W4", "W"), ("-WX", "WX"), ("-w", "W WX"), ("-X", "X"), ("-zcm", "zc"), ("-zcw", "zc"),
       ("-Zd", "Zd"), ("-Zi", "Zi"), ("-Zi0", "Zi"), ("-Zi1", "Zi"), ("-Zi3", "Zi"), ("-Zi5", "Zi"), ("-Zi8", "Zi"), ("-Zf", "Zf"), ("-zf0", "zf"), ("-zf1", "zf"), ("-zf2", "zf"), ("-Zg", "Zg"), ("-zlc", "zlc"), ("-zld", "zld"), ("-zlf", "zlf"), ("-zlp", "zlp"), ("-zls", "zls"),
       ("-Zm", "Zm"), ("-Zne", "Zne"), ("-Zp1", "Zp"), ("-Zp2", "Zp"), ("-Zp8", "Zp"), ("-Sp1", "Sp"), ("-Sp16", "Sp"), ("-Zs", "Zs"), ("-zt0", "zt"), ("-zt1", "zt"), ("-zt2", "zt"), ("-zv0", "zv"), ("-zv1", "zv"), ("-zv2", "zv"), ("-Zv8", "Zv8"), ("-zze", "zze"), ("-zzs", "zzs"), ("-pie", "pie")]
SLOT = dict((o, set(s.split())) for o, s in OPT)
NOWIN = {"D", "Fi", "I", "S", "Zi", "Fl"}     # slots whose options add up


def run(ctx, args, probe=None, files=None, var="plain", quiet=True, **kw):
    f = dict(INC)
    if probe:
        f["t.asm"] = PROBES.get(probe, probe)
    f.update(files or {})
    r = ctx.srv(var).job((["-q", "-nomlib"] if quiet else []) + list(args), f, **kw)
    ctx.n["assemblies"] += 1
    return r


def out(r, sub=()):
    t = DATE.sub(b"", r.text().encode("latin1"))
    fs = dict((k, DATE.sub(b"", v) if not k.endswith((".asm", ".inc")) else v) for k, v in r.files.items())
    o = (r.exit, r.sig, t, tuple(sorted(fs.items())))
    for a, b in sub:
        o = eval(repr(o).replace(a, b))
    return o


def stamp(o, fmtcoff=True):
    """without the time stamps of COFF and PE headers"""
    fs = []
    for k, v in o[3]:
        if v[:2] in (b"\x4c\x01", b"\x64\x86") and len(v) > 20:
            v = v[:4] + b"TIME" + v[8:]
        elif v[:2] == b"MZ" and b"PE\0\0" in v[:1024]:
            i = v.index(b"PE\0\0")
            v = v[:i + 8] + b"TIME" + v[i + 12:]
        elif v[:1] == b"\x80" and b"\x88" in v:            # OMF dependency records (COMENT class E9) hold the source file's time
            w, i = b"", 0
            while i + 3 <= len(v):
                n = v[i + 1] | v[i + 2] << 8
                rec = v[i:i + 3 + n]
                w += rec[:5] if rec[0] == 0x88 and rec[4:5] == b"\xe9" else rec
                i += 3 + n
            v = w
        fs.append((k, v))
    return o[:3] + (tuple(fs),)


def show(o):
    return "exit %s sig %s %r files %s" % (o[0], o[1], o[2][:160], [(k, len(v), hash(v) % 10000) for k, v in o[3]])


def same(ctx, key, a, b, what, **kw):
    ra, rb = stamp(out(a)), stamp(out(b))
    ctx.outcome(key.split(":")[0], hash(ra[2:]) % 100003)
    if ra != rb:
        return V(key, "%s: %s\n   vs %s" % (what, show(ra), show(rb)), **kw)


# ------------------------------------------------------------------ order
def g_pairs():
    for (a, s), (b, t) in itertools.combinations(OPT, 2):
        for p in PROBES:
            yield a, b, p


def j_pairs(ctx, case):
    a, b, p = case
    sa, sb = SLOT[a], SLOT[b]
    if not sa & sb:
        return same(ctx, "order:%s:%s:%s" % (a, b, p), run(ctx, [a, b, "t.asm"], p), run(ctx, [b, a, "t.asm"], p), "%s %s and %s %s differ" % (a, b, b, a))
    r = []
    for x, y in ((a, b), (b, a)):
        if SLOT[x] <= SLOT[y] and not SLOT[x] & NOWIN:       # the second replaces the first
            r.append(same(ctx, "last:%s:%s:%s" % (x, y, p), run(ctx, [x, y, "t.asm"], p), run(ctx, [y, "t.asm"], p), "%s %s isn't %s" % (x, y, y)))
    if (sa | sb) <= {"S", "D"}:
        r.append(same(ctx, "order:%s:%s:%s" % (a, b, p), run(ctx, [a, b, "t.asm"], p), run(ctx, [b, a, "t.asm"], p), "%s %s and %s %s differ" % (a, b, b, a)))
    return [v for v in r if v]


# -------------------------------------------------------------- transport
def q(o):
    return o


def g_trans():
    os_ = [[o] for o, s in OPT] + [[a, b] for (a, s), (b, t) in (itertools.combinations(OPT, 2) if T else zip(OPT, OPT[7:] + OPT[:7]))]
    for o in os_:
        for p in ("a", "b", "c") if not T else PROBES:
            yield o, p


def j_trans(ctx, case):
    o, p = case
    base = run(ctx, o + ["t.asm"], p)
    key = "%s:%s" % (" ".join(o), p)
    line = " ".join(q(x) for x in o)
    r = []

    def t(name, args, **kw):
        x = run(ctx, args, p, **kw)
        fs = kw.get("files") or {}
        for k in fs:
            x.files.pop(k, None)
        r.append(same(ctx, "transport:%s:%s" % (name, key), x, base, "%s handed over by %s isn't what it is as arguments" % (line, name)))
    t("env", ["t.asm"], env_uasm=line)
    t("envfile", [], env_uasm="-q -nomlib " + line + " t.asm")
    t("rsp", ["@r.rsp", "t.asm"], files={"r.rsp": line})
    t("rspfile", ["@r.rsp"], files={"r.rsp": line + " t.asm"})
    t("rsplines", ["@r.rsp", "t.asm"], files={"r.rsp": "\n".join(q(x) for x in o) + "\n"})
    t("rspcrlf", ["@r.rsp"], files={"r.rsp": "\r\n".join(q(x) for x in o) + "\r\nt.asm\r\n"})
    t("rsptabs", ["@r.rsp", "t.asm"], files={"r.rsp": "\t" + "\t ".join(q(x) for x in o) + " \t"})
    t("rsprsp", ["@r.rsp", "t.asm"], files={"r.rsp": "@r2.rsp", "r2.rsp": line})
    t("rsprspfile", ["@r.rsp"], files={"r.rsp": "@r2.rsp t.asm", "r2.rsp": line})
    t("rspquoted", ["@r.rsp"], files={"r.rsp": line + ' "t.asm"'})
    t("envrsp", ["t.asm"], env_uasm="@r.rsp", files={"r.rsp": line})
    t("dup", o + o + ["t.asm"]) if not any(SLOT[x] & {"D", "Fi", "I"} for x in o) and not (len(o) > 1 and SLOT[o[0]] & SLOT[o[1]]) else None
    if len(o) == 2:
        t("split", [o[0], "@r.rsp", "t.asm"], files={"r.rsp": q(o[1])})
        t("splitenv", [o[1], "t.asm"], env_uasm=q(o[0]))
        t("rsps", ["@r.rsp", "@r2.rsp", "t.asm"], files={"r.rsp": q(o[0]), "r2.rsp": q(o[1])})
        t("nest", ["@r.rsp", "t.asm"], files={"r.rsp": q(o[0]) + " @r2.rsp", "r2.rsp": q(o[1])})
        t("nestfirst", ["@r.rsp", "t.asm"], files={"r.rsp": "@r2.rsp " + q(o[1]), "r2.rsp": q(o[0])})
    m = re.match(r"-(Fi|Fo|Fw|I|D)=?(.*)", o[0])
    if m and len(o) == 1:
        t("sep", ["-" + m[1], m[2], "t.asm"])
        t("noeq", ["-" + m[1] + m[2], "t.asm"])
        if m[1] != "D":
            t("eq", ["-" + m[1] + "=" + m[2], "t.asm"])
    return [v for v in r if v]


# ----------------------------------------------------------------- effect
EFF = []


def eff(o, pre, probes="ab", base=(), sub=()):
    EFF.append((list(o), pre, probes, list(base), sub))


for i, d in enumerate([".8086", ".186", ".286", ".386", ".486", ".586", ".686"]):
    for f in ([], ["-coff"] if i > 2 else ["-omf"]):
        eff(["-%d" % i] + f, d, "a", f)
for i in (2, 3, 4, 5, 6):
    eff(["-%dp" % i], ".%d86p" % i, "a")
for o, d in (("-fp0", ".8087"), ("-fp2", ".287"), ("-fp3", ".387"), ("-fpc", ".no87")):
    for c in (["-2"], ["-3"], ["-0"]):
        eff([o, "-ms"] + c, ".%s\n%s" % ({"-2": "286", "-3": "386", "-0": "8086"}[c[0]], d), "b", ["-ms"])
for o, d in (("-Cp", "none"), ("-Cu", "all"), ("-Cx", "notpublic")):
    for f in (["-omf"], ["-coff", "-3"], ["-elf", "-3"]):
        eff([o] + f, "option casemap:" + d, "a", f)
for o, d in (("-Gc", "pascal"), ("-Gd", "c"), ("-Gz", "stdcall")):
    for m, n in (("-mt", "tiny"), ("-ms", "small"), ("-mc", "compact"), ("-mm", "medium"), ("-ml", "large"), ("-mh", "huge")):
        eff([o, m, "-omf"], ".model %s,%s" % (n, d), "b", ["-omf"])
    eff([o, "-3", "-mf", "-coff"], ".386\n.model flat," + d, "b", ["-coff"])
    eff([o, "-3", "-mf", "-elf"], ".386\n.model flat," + d, "b", ["-elf"])
for m, n in (("-mt", "tiny"), ("-ms", "small"), ("-mc", "compact"), ("-mm", "medium"), ("-ml", "large"), ("-mh", "huge")):
    eff([m], ".model " + n, "b")
    eff(["-bin", m], ".model " + n, "b", ["-bin"])
for n in (1, 2, 4, 8, 16, 32):
    eff(["-Zp%d" % n], "option fieldalign:%d" % n, "abc")
    eff(["-Zp=%d" % n, "-coff"], "option fieldalign:%d" % n, "ac", ["-coff"])
eff(["-archAVX", "-win64"], "option arch:avx", "d", ["-win64"])
eff(["-archSSE", "-win64"], "option arch:sse", "d", ["-win64"])
eff(["-Zm"], "option m510", "ab")
for v in ("5", "", "x+1", "abc", "1,2", "'q'", "<z>", "a b"):
    eff(["-DKX=%s" % v if v else "-DKX"], "KX textequ <%s>" % v if v != "<z>" else "KX textequ <!<z!>>", "a") if v != "a b" else eff(["-DKX=\"a b\""], "KX textequ <a b>", "a")
eff(["-DKX="], "KX textequ <>", "ab")
eff(["-DKX=", "-DKY=a"], "KX textequ <>\nKY textequ <a>", "a")
eff(["-DKX=5", "-DKY=6"], "KX textequ <5>\nKY textequ <6>", "a")
eff(["-Fi=f1.inc"], "include f1.inc", "ab")
eff(["-Fi=f1.inc", "-Fi=f2.inc"], "include f1.inc\ninclude f2.inc", "ab")
eff(["-Fi", "f2.inc", "-Fi", "f1.inc"], "include f2.inc\ninclude f1.inc", "ab")
eff(["-Zv8", "-coff"], "option proc:private", "c", ["-coff"]) if 0 else None


def g_eff():
    for e in EFF:
        for p in e[2]:
            yield e[0], e[1], p, e[3], e[4]


def j_eff(ctx, case):
    o, pre, p, base, sub = case
    n = pre.count("\n") + 1
    a = run(ctx, o + ["t.asm"], "\n" * n + PROBES[p])
    b = run(ctx, base + ["t.asm"], pre + "\n" + PROBES[p])
    oa, ob = stamp(out(a)), stamp(out(b))
    oa = (oa[0], oa[1], oa[2], tuple(f for f in oa[3] if f[0] != "t.asm"))
    ob = (ob[0], ob[1], ob[2], tuple(f for f in ob[3] if f[0] != "t.asm"))
    ctx.outcome("eff", hash(oa[2:]) % 100003)
    if oa != ob:
        return V("effect:%s:%s" % (" ".join(o), p), "%s isn't the same as '%s' in the source: %s\n   vs %s" % (" ".join(o), pre, show(oa), show(ob)))


# ---------------------------------------------------- facts of single runs
OKSRC = ".386\n.model flat,stdcall\n.data\nv1 dd 1\n.code\nPp1 proc a1:dword\nLl1: mov eax,a1\nret\nPp1 endp\nPp2 proc c a1:dword\nret\nPp2 endp\nPp3 proc vectorcall a1:dword\nret\nPp3 endp\nend\n"
SRC16 = ".model small\n.data\nv1 dw 1\n.code\nl1: nop\nend\n"
ERR = ".386\n.model flat\n.code\n" + "".join(" mov eax,u%d\n" % i for i in range(60)) + "end\n"
WARN = ".386\n.model flat\n.code\n.err <x>\nend\n"


def facts():
    def has(name):
        return lambda r: name in r.files

    def no(name):
        return lambda r: name not in r.files
    ok = lambda r: r.exit == 0 and not r.sig
    bad = lambda r: r.exit == 1 and not r.sig
    F = []

    def f(key, args, src, *preds, **kw):
        F.append((key, args, src, preds, kw))
    for fmt, ext in ((None, ".obj"), ("-omf", ".obj"), ("-coff", ".obj"), ("-win64", ".obj"), ("-bin", ".BIN"), ("-elf", ".o"), ("-elf64", ".o"), ("-macho64", ".o"), ("-mz", ".EXE"), ("-pe", ".EXE")):
        a = [fmt] if fmt else []
        src = ".code\ngo1: nop\nend go1\n" if fmt in ("-win64", "-elf64", "-macho64") else ".model small\n.stack\n.code\ngo1: nop\nend go1\n" if fmt == "-mz" else ".386\n.model flat\n.code\ngo1: nop\nend go1\n" if fmt == "-pe" else ".386\n.model flat\n.code\ngo1: nop\nend\n" if fmt else SRC16

        def one(r, want=None):
            return len([n for n in r.files if n != "t.asm"]) == len(want)

        def names(want):
            return lambda r: sorted(n.lower() for n in r.files if n not in INC and n != "t.asm") == sorted(w.lower() for w in want)

        def namesx(want):
            return lambda r: sorted(n.lower().rsplit(".", 1)[0] for n in r.files if n not in INC and n != "t.asm") == sorted(w.lower().rsplit(".", 1)[0] for w in want)
        f("out:%s" % fmt, a + ["t.asm"], src, ok, namesx(["t.x"]))
        f("fo:%s" % fmt, a + ["-Fo=zz.q", "t.asm"], src, ok, names(["zz.q"]))
        f("fo2:%s" % fmt, a + ["-Fozz", "t.asm"], src, ok, namesx(["zz.x"]))
        f("fodir:%s" % fmt, a + ["-Foi1/", "t.asm"], src, ok, lambda r: any(n.startswith("i1/t.") and n not in INC for n in r.files) or not r.files)
        f("fl:%s" % fmt, a + ["-Fl", "t.asm"], src, ok, namesx(["t.lst", "t.x"]))
        f("fl2:%s" % fmt, a + ["-Fl=m.n", "t.asm"], src, ok, has("m.n"))
        f("zs:%s" % fmt, a + ["-Zs", "t.asm"], src, ok, names([]))
        f("zslst:%s" % fmt, a + ["-Zs", "-Fl", "t.asm"], src, ok, names(["t.lst"]))
        f("noout:%s" % fmt, a + ["t.asm"], src + "x", ok)
        f("errout:%s" % fmt, a + ["t.asm"], src.replace("nop", "nopp"), bad, names(["t.err"]))
        f("fw:%s" % fmt, a + ["-Fw=e.e", "t.asm"], src.replace("nop", "nopp"), bad, names(["e.e"]))
        f("fwok:%s" % fmt, a + ["-Fw=e.e", "t.asm"], src, ok, no("e.e"))
    cnt = lambda n: lambda r: len(re.findall(r"Error A2006|: Error A", r.text())) == n
    for n in (1, 2, 5, 49, 59):
        for form in ("-e=%d", "-e%d"):
            f("e:" + form % n, [form % n, "t.asm"], ERR, bad, lambda r, n=n: n <= len(re.findall(r"\) : Error A2102", r.text())) <= n + 1)
    f("e:all", ["-e=100", "t.asm"], ERR, bad, lambda r: len(re.findall(r"\) : Error A2102", r.text())) == 60)
    f("eq", ["-eq", "t.asm"], ERR, bad, lambda r: "Error" not in r.text(), has("t.err"))
    f("quiet", ["-q", "t.asm"], OKSRC, ok, lambda r: r.text().strip() == "", quiet=False)
    f("logo", ["t.asm"], OKSRC, ok, lambda r: "UASM v" in r.text() and "t.asm" in r.text(), quiet=False)
    f("nologo", ["-nologo", "t.asm"], OKSRC, ok, lambda r: "UASM v" not in r.text() and "t.asm" in r.text(), quiet=False)
    f("noargs", [], None, bad, lambda r: "UASM" in r.text(), quiet=False)
    f("optsonly", ["-coff"], None, bad, lambda r: "No filename" in r.text())
    f("help", ["-?"], None, ok, lambda r: "-Zi" in r.text())
    f("helph", ["-h"], None, ok, lambda r: "-Zi" in r.text())
    f("nofile", ["nix.asm"], None, bad, lambda r: "nix.asm" in r.text())
    f("norsp", ["@nix.rsp", "t.asm"], OKSRC, bad, lambda r: "nix.rsp" in r.text())
    f("seconderr", ["t.asm", "nix.asm"], OKSRC, bad, lambda r: any(n in ("t.obj", "t.o") for n in r.files))
    D = lambda *n: lambda r: all(x.encode() in b"".join(v for k, v in r.files.items() if k != "t.asm") for x in n)
    N = lambda *n: lambda r: not any(x.encode() in b"".join(v for k, v in r.files.items() if k != "t.asm") for x in n)
    for fmt in ("-coff", "-omf", "-elf"):
        f("zt2:" + fmt, [fmt, "-zt2", "t.asm"], OKSRC, ok, D("_Pp1@4", "_Pp2", "Pp3@@4"))
        f("zt1:" + fmt, [fmt, "-zt1", "t.asm"], OKSRC, ok, D("_Pp1"), N("_Pp1@4"))
        f("zt0:" + fmt, [fmt, "-zt0", "t.asm"], OKSRC, ok, D("Pp1", "_Pp2"), N("_Pp1"))
        f("zv1:" + fmt, [fmt, "-zv1", "t.asm"], OKSRC, ok, D("Pp3", "_Pp1@4"), N("Pp3@@"))
        f("zv0:" + fmt, [fmt, "-zv0", "t.asm"], OKSRC, ok, D("Pp3", "_Pp1@4"), N("Pp3@@"))
        f("zcw:" + fmt, [fmt, "-zcw", "t.asm"], OKSRC, ok, D("Pp2", "_Pp1@4"), N("_Pp2"))
        f("zcm:" + fmt, [fmt, "-zcw", "-zcm", "t.asm"], OKSRC, ok, D("_Pp2", "_Pp1@4"))
    f("zf:omf", ["-omf", "-Zf", "t.asm"], SRC16, ok, D("v1", "l1"))
    f("nozf:omf", ["-omf", "t.asm"], SRC16, ok, N("v1", "l1"))
    for a, n in (("-nt=NT1", "NT1"), ("-nd=ND1", "ND1"), ("-nc=NC1", "NC1"), ("-nm=NM1", "NM1")):
        f(a, ["-omf", a, "t.asm"], SRC16.replace("small", "medium") if a[2] == "m" else SRC16, ok, D(n))
        f(a + "none", ["-omf", "t.asm"], SRC16.replace("small", "medium") if a[2] == "m" else SRC16, ok, N(n))
        f(a + "bad", [a[:4] + "+", "t.asm"], SRC16, lambda r: "valid name" in r.text())
    def symf(r):
        v = next((v for k, v in r.files.items() if k.endswith((".sym", ".SYM"))), b"")
        i, n = 4, 0
        while i < len(v):
            if v[i:i + 1] not in b"STPL":
                return False
            i = v.index(b"\0", i + 13) + 1
            n += 1
        return n > 0 and n == int.from_bytes(v[:4], "little")
    f("fs", ["-coff", "-Fs", "t.asm"], OKSRC, ok, D("Pp1", "Pp2"), symf)
    f("fsn", ["-coff", "-Fs=y.y", "t.asm"], OKSRC, ok, has("y.y"))
    f("fsbad", ["-coff", "-Fs=nodir/y.y", "t.asm"], OKSRC, lambda r: not r.sig and "nodir/y.y" in r.text())
    # -Zi levels: 0 globals, 1 + locals, 2 + types, 3 + constants
    ZI = ".386\n.model flat,stdcall\nKonst equ 77\nTyp struct\nmemb dd ?\nTyp ends\n.data\nGlob dd 1\nVar Typ <>\npublic Glob\n.code\nPr proc arg1:dword\nlocal loc1:dword\nmov eax,arg1\nret\nPr endp\nend\n"
    for fmt in ("-coff", "-omf"):
        for ver in (("-Zi",) if fmt == "-omf" else ("-Zi",)):
            for lev, yes, nos in (("0", ("Glob",), ("loc1", "arg1", "Konst")), ("1", ("Glob", "loc1", "arg1"), ("Konst",)), ("2", ("Glob", "loc1", "arg1", "memb", "Typ"), ("Konst",)), ("", ("Glob", "loc1", "arg1", "memb", "Typ"), ("Konst",)),
                                  ("3", ("Glob", "loc1", "arg1", "memb", "Typ", "Konst"), ()), ("5", ("Glob", "loc1", "arg1", "memb", "Typ", "Konst"), ()), ("8", ("Glob", "loc1", "arg1", "memb", "Typ", "Konst"), ())):
                for form in ("-Zi", "-Zi=") if lev else ("-Zi",):
                    f("zi%s:%s:%s" % (lev, form, fmt), [fmt, form + lev, "t.asm"], ZI, ok, D(*yes), N(*nos))
        f("zinone:" + fmt, [fmt, "t.asm"], ZI, ok, N("loc1", "Konst", "memb"))
    # include paths
    SUB = ".model small\n.data\n include sub.inc\nend\n"
    ONL = ".model small\n.data\n include only1.inc\nend\n"
    ENV = ".model small\n.data\n include env.inc\nend\n"
    f("inc:cur", ["-Ii1", "t.asm"], SUB, ok, D("root"))
    f("inc:I", ["-Ii2", "-Ii1", "t.asm"], ONL, ok, D("only1"))
    f("inc:noI", ["t.asm"], ONL, bad)
    f("inc:env", ["t.asm"], ENV, ok, D("env"), env_include="e1")
    f("inc:env2", ["t.asm"], ENV, ok, D("env"), env_include="i1:e1")
    f("inc:X", ["-X", "t.asm"], ENV, bad, env_include="e1")
    f("inc:XI", ["-X", "-Ie1", "t.asm"], ENV, ok, D("env"))
    for x, y in (("i1", "i2"), ("i2", "i1")):
        f("inc:order:" + x, ["-I" + x, "-I" + y, "src/t.asm"], None, ok, D(x), files={"src/t.asm": SUB.replace("sub.inc", "only.inc"), "i1/only.inc": " db 'i1'\n", "i2/only.inc": " db 'i2'\n"})
        f("inc:orderenv:" + x, ["-I" + x, "src/t.asm"], None, ok, D(x), files={"src/t.asm": SUB.replace("sub.inc", "only.inc"), "i1/only.inc": " db 'i1'\n", "i2/only.inc": " db 'i2'\n"}, env_include=y)
    return F


FACTS = facts()


def g_facts():
    for i in range(len(FACTS)):
        for kind in ("args", "rsp", "env"):
            yield i, kind


def j_facts(ctx, case):
    i, kind = case
    key, args, src, preds, kw = FACTS[i]
    kw = dict(kw)
    quiet = kw.pop("quiet", True)
    fs = dict(kw.pop("files", {}))
    if src is not None:
        fs["t.asm"] = src
    if kind == "args":
        r = run(ctx, args, files=fs, quiet=quiet, **kw)
    else:
        if not args or not quiet:
            return
        if kind == "rsp":
            fs["r.rsp"] = " ".join(args)
            r = run(ctx, ["@r.rsp"], files=fs, **kw)
            r.files.pop("r.rsp", None)
        else:
            r = run(ctx, [], files=fs, env_uasm="-q -nomlib " + " ".join(args), **kw)
    for k in INC:
        r.files.pop(k, None)
    for k in fs:
        if k != "t.asm":
            r.files.pop(k, None)
    ctx.outcome("fact", key, kind)
    for n, p in enumerate(preds):
        if not p(r):
            return V("fact:%s:%s" % (key, kind), "%s: fact %d doesn't hold: %s" % (" ".join(args), n, show(out(r))), source=src)


# ------------------------------------------------------------ several files
def g_multi():
    o = [x for x, s in OPT if x not in ("-EP",)]
    for a in o:
        for p, r in (("a", "b"), ("c", "a"), ("b", "b")):
            yield a, p, r


def j_multi(ctx, case):
    a, p, r = case
    fs = {"t.asm": PROBES[p], "u.asm": PROBES[r]}
    once = SLOT[a] & {"Fo", "Fw"} or a.startswith("-Fl=")
    m = run(ctx, ["t.asm", a, "u.asm"], files=fs)
    x = run(ctx, ["t.asm"], files=fs)
    y = run(ctx, [a, "u.asm"], files=fs)
    z = run(ctx, [a, "t.asm", "u.asm"], files=fs)
    y0 = run(ctx, (["-Fl"] if a.startswith("-Fl=") else [] if once else [a]) + ["u.asm"], files=fs)
    x1 = run(ctx, [a, "t.asm"], files=fs)
    rs = []
    for nm, both, one, two in (("after", m, x, y), ("before", z, x1, y0)):
        want = dict(one.files); want.update(two.files)
        got = stamp((both.exit, both.sig, b"", tuple(sorted((k, DATE.sub(b"", v)) for k, v in both.files.items()))))
        exp = stamp((max(one.exit or 0, two.exit or 0), both.sig and -1, b"", tuple(sorted((k, DATE.sub(b"", v)) for k, v in want.items()))))
        if got != exp:
            rs.append(V("files:%s:%s:%s%s" % (nm, a, p, r), "two files, %s %s the first: %s\n  vs each alone: %s" % (a, nm, show(got), show(exp))))
    ctx.outcome("multi", a, p, r)
    return rs


# ---------------------------------------------------------------- malformed
SPEC = {}        # name -> kind of argument: none, number, name, file
for w in """? bin Cp Cu Cx archSSE archAVX nomlib less coff c elf64 elf macho64 EP eq FPi87 FPi fp0 fp2 fp3 fpc Gc Gd Gr Gz h mc mf mh ml mm ms mt mz nologo omf pe q Sa Sf Sg Sn Sx safeseh WX win64 w X Zd Zf Zg Zm Zne zcm zcw zf0 zf1 zf2
 zlc zld zlf zlp zls Zs zt0 zt1 zt2 zv0 zv1 zv2 Zv8 zze zzs pie""".split():
    SPEC[w] = "none"
for w in "e W Zi Zp Sp".split():
    SPEC[w] = "number"
for w in "D nc nd nm nt Fd Fi Fs Fl Fo Fw I".split():
    SPEC[w] = "arg"


def known(s):
    """is this text (without the dash) an option"""
    if re.fullmatch(r'0*(10|\d)p*"?', s):
        return True
    for n, k in SPEC.items():
        if s.startswith(n):
            r = s[len(n):]
            if k == "none" and (r == "" or r[0] in " -\t") or k == "number" and re.fullmatch(r"[=#]?\d*([ \t-].*)?", r) or k == "arg":
                return True
    return False


def g_mal():
    seen = set()
    for n in list(SPEC) + ["0", "3", "10", "3p"]:
        for x in ["", "x", "1", "=", "=x", "9", ":", "+", "_", "é".encode("latin1").decode("latin1"), "\"", "(", "@", "$", "99999999999", "=-1", "p", "q"]:
            seen.add(n + x)
        for i in range(len(n)):
            seen.add(n[:i]); seen.add(n[:i] + n[i].swapcase() + n[i + 1:]); seen.add(n[:i] + "y" + n[i + 1:]); seen.add(n[:i] + n[i + 1:])
    for a in "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!$%&=?+#,.;:~|":
        seen.add(a)
        for b in "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789=-" if T else "aeiopstxzACFSZ019=":
            seen.add(a + b)
    for s in sorted(seen):
        yield s,


def j_mal(ctx, case):
    s, = case
    if s in ("?", "h") or s[:1] in ("?", "h") and known(s) or s.startswith("-"):
        return
    if s == "" or re.search(r"[ \t]", s):
        return
    r = run(ctx, ["-" + s, "t.asm"], SRC16)
    t = r.text()
    rep = "Invalid command-line option" in t or "CPU option" in t or "Invalid command-line value" in t or "valid name" in t
    ctx.outcome("mal", known(s), rep)
    if r.sig or r.exit is None or "General Failure" in t:
        return V("malformed:dies:%s" % s, "-%s: dies %s %s" % (s, r.sig, t[:200]))
    if not known(s) and not rep:
        return V("malformed:accepted:%s" % s, "-%s is no option, but there's no message: %s" % (s, t[:200]))
    if known(s) and SPEC.get(s) == "none" and rep:
        return V("malformed:rejected:%s" % s, "-%s is an option, but there's a message: %s" % (s, t[:200]))
    if not known(s) and re.fullmatch(r"[A-Za-z]\w*", s):
        b = run(ctx, ["t.asm"], SRC16)
        if stamp(out(b))[3] != stamp(out(r))[3]:
            return V("malformed:effect:%s" % s, "-%s is no option, but it has an effect: %s vs %s" % (s, show(out(r)), show(out(b))))


# ------------------------------------------------------------------ lengths
LEN = [1, 15, 16, 17, 31, 32, 63, 64, 100, 127, 128, 200, 240, 246, 247, 248, 250, 254, 255, 256, 257, 258, 259, 260, 261, 262, 263, 264, 265, 270, 300, 400, 511, 512, 513, 600, 1000, 1023, 1024, 1025, 2000, 4090, 4095, 4096, 4097, 5000, 9000]


def g_len():
    for n in LEN if not T else list(range(1, 1100)) + LEN:
        z = "z" * n
        for o in ["-D" + z, "-DKX=" + z, "-DKX=\"" + z, "-I" + z, "-Fi" + z, "-Fo" + z, "-Fl=" + z, "-Fw" + z, "-Fs" + z, "-nt=" + z, "-nd=" + z, "-nm=" + z, "-nc=" + z, "-Fo" + z + "/", "-Fl" + z + "/", "-Fw" + z + "/", "-" + z, "-3" + z, "-3" + "p" * n, "-e" + "9" * n,
                  z, z + ".asm", "@" + z, "i1/" + z, z + "/t.asm", "\"" + z, "./" * n + "t.asm", "-I" + "./" * n + "i1", "-Fi" + "./" * n + "f1.inc", "-Zi" + "1" * n]:
            yield n, o, 0
            yield n, o, 1
            yield n, o, 2
        yield n, ["-Fo" + z + "/", "-Fo=" + z], 3
        yield n, ["-Fo./" + "./" * n, "-Fl./" + "./" * n], 3
        yield n, "@r.rsp " * n, 1


def j_len(ctx, case):
    n, o, how = case
    src = ".386\n.model flat\n.data\n db @FileName\n include sub.inc\nend\n"
    if how == 0:
        r = run(ctx, [o, "t.asm"], src, var="asan")
    elif how == 1:
        r = run(ctx, ["@r.rsp", "t.asm"], src, var="asan", files={"r.rsp": "-coff " + o + " -Fl"})
    elif how == 2:
        r = run(ctx, ["-Zi", "-coff", "t.asm"], src, var="asan", env_uasm=o)
    else:
        r = run(ctx, o + ["t.asm"], src, var="asan")
    t = r.text()
    ctx.outcome("len", r.exit, n)
    if r.exit in (0, 1, 2) and not r.sig and "General Failure" not in t:
        return
    f = re.findall(r"#\d+ 0x\w+ in (\w+) [^\n]*?/\w+/(?:H/)?(\w+\.[ch])", t)
    k = re.search(r"AddressSanitizer: ([\w-]+)", t)
    return V("length:%s:%s" % (k.group(1) if k else "died%s" % (r.sig or r.exit), "<".join(a for a, b in f[:3])), "argument of %d characters (%s...): %s" % (n, str(o)[:20], t[:600]))


FAM = (("order of two options", g_pairs, j_pairs), ("ways to hand over options", g_trans, j_trans), ("effects", g_eff, j_eff), ("facts", g_facts, j_facts), ("several files", g_multi, j_multi), ("malformed options", g_mal, j_mal), ("lengths", g_len, j_len))
for n, g, j in FAM:
    if os.environ.get("C28FAM", n) == n:
        ck.explore(n, g, j, limit=400)
ck.finish("options have the documented effect, in any order and by any way of handing them over", validated=ck.n["assemblies"])

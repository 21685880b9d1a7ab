"""C21 faults: every file operation and every allocation of a set of assemblies is made to fail (once, and from then on), and every file is cut
off at every size (disk full), on the real program. Status 0 then means that every output file is complete."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from vlib import *

ck = Check("C21", variants=("fault",))
T = ck.thorough
FILES = {"i.inc": "vi equ 3\nm1 macro a\n mov eax,a\n endm\n", "d.dat": "binary data %s" % ("x" * 60), "big.dat": "0123456789" * 900, "r.rsp": "-Fl -Sg\n-Sn"}
S32 = """.386
.model flat,stdcall
option casemap:none
include i.inc
includelib k.lib
.data
v1 dd 1,2,offset v1
v2 db 'text',0
incbin <d.dat>
s1 struct
a1 db ?
b1 dd ?
s1 ends
v3 s1 <1,2>
big db 600 dup (7)
.data?
u1 dd 20 dup (?)
.const
c1 real8 1.5
.code
ext1 proto :dword
public p1
p1 proc uses ebx a:dword,b:dword
local lc:dword
 m1 vi
 m1 lc
 .if eax == b
 invoke ext1,addr v2
 .else
 mov eax,v1
 .endif
 .switch eax
 .case 1
 nop
 .case 2
 nop
 .case 3
 nop
 .case 4
 nop
 .endswitch
 ret
p1 endp
d1 proc export
 ret
d1 endp
 end
"""
S64 = S32.replace(".386\n.model flat,stdcall\n", "").replace("uses ebx a:dword,b:dword", "a:dword,b:dword").replace("addr v2", "5").replace("v1 dd 1,2,offset v1", "v1 dd 1,2\nvq dq offset v1").replace("\nd1 proc export\n ret\nd1 endp", "")
WIN = "option win64:3\n" + S64.replace("p1 proc a", "p1 proc frame a")
S16 = ".model small\n.stack 64\ninclude i.inc\n.data\nv1 dw 1,offset v1\nincbin <d.dat>\n.code\ngo1: nop\n mov ax,@data\n mov bx,v1\n call far ptr go1\nend go1\n"
BIN = "include i.inc\nt1 segment 'CODE'\norg 100h\ngo1: nop\n incbin <d.dat>\n db 500 dup (1)\n dw offset go1\nt1 ends\nend go1\n"
PE = ".386\n.model flat,stdcall\n.data\nv1 dd 1\n.code\ngo1: mov eax,v1\n ret\nend go1\n"
MAC = ".code\npublic go1\nextern ex1:near\ngo1: nop\n call ex1\n lea rax,v1\n ret\n.data\nv1 dd 5\nv2 db 1\nend\n"
ERRS = "include i.inc\n.386\n.model flat\n.code\n mov eax,nix\n foo bar\nl1: jmp l1\nl1:\nend\n"
MANY = ".model small\n.data\n" + "".join("v%03d dw %d\n" % (i, i) for i in range(300)) + ".code\n" + "".join("l%03d: mov ax,v%03d\n" % (i, i) for i in range(300)) + "end\n"
BIG = ".386\n.model flat\n.data\nincbin <big.dat>\n.code\nl1: nop\nend\n"
SW = S32.replace(" .case 4\n", "".join(" .case %d\n nop\n" % (i * 7) for i in range(4, 70)))
WORK = [("coff", ["-coff"], S32), ("coff-lst-zi8", ["-coff", "-Zi8", "-Fl", "-Sg"], S32), ("omf-zi", ["-omf", "-Zi", "-Fl"], S32), ("omf16", ["-omf", "-Fl"], S16), ("elf", ["-elf", "-Fl"], S32), ("elf64", ["-elf64"], S64), ("win64", ["-win64", "-Zi", "-Fl"], WIN),
        ("bin", ["-bin", "-Fl"], BIN), ("mz", ["-mz", "-Fl"], S16), ("pe", ["-pe", "-Fl"], PE), ("macho", ["-macho64", "-Fl"], MAC), ("errors", ["-coff", "-Fl"], ERRS), ("many", ["-omf", "-Fl"], MANY), ("manycoff", ["-omf", "-Zd"], MANY), ("rsp", ["-coff", "@r.rsp"], S32),
        ("sym", ["-coff", "-Fs=s.sym"], S32), ("fd", ["-omf", "-Fd=x.def"], S32), ("two", ["-coff", "-Fl", "u.asm"], S32), ("zs", ["-Zs", "-Fl", "-coff"], S32), ("big", ["-coff", "-Fl"], BIG), ("ep", ["-coff", "-EP"], S32), ("switch", ["-coff"], SW)]
WORK = [(n, o, {"bin": BIN}.get(n, s)) for n, o, s in WORK] + [("biglst", ["-omf", "-Fl"], BIG)]
WK = dict((n, (o, s)) for n, o, s in WORK)
CLS = {0: "none", 1: "open", 2: "read", 3: "write", 4: "seek", 5: "tell", 6: "close", 7: "memory"}


def run(ctx, n, fault):
    o, s = WK[n]
    fs = dict(FILES)
    fs["t.asm"] = s
    if n == "two":
        fs["u.asm"] = PE
    ctx.n["executions"] += 1
    r = ctx.srv("fault").job(["-q"] + o + ["t.asm"], fs, fault=fault)
    return r


def stamp(v):
    """OMF dependency records (COMENT class E9) hold the source file's time"""
    if v[:1] != b"\x80":
        return v
    w, i = b"", 0
    while i + 3 <= len(v):
        n = v[i + 1] | v[i + 2] << 8
        rec = v[i:i + 3 + n]
        w += rec[:5] if rec[0] == 0x88 and rec[4:5] == b"\xe9" else rec
        i += 3 + n
    return w + v[i:]


def outs(r):
    return dict((k, re.sub(rb"\d+ ms,", b"", v) if k.lower().endswith(".lst") else stamp(v)) for k, v in r.files.items() if k not in FILES and not k.endswith(".asm"))


BASE = {}


def base(ctx, n):
    if n not in BASE:
        r = run(ctx, n, (0, 0))
        BASE[n] = (r.exit, outs(r))
    return BASE[n]


def count(n):
    return COUNT[n]


def count1(srv, n):
    fs = dict(FILES); o, s = WK[n]; fs["t.asm"] = s
    if n == "two":
        fs["u.asm"] = PE
    r = srv.job(["-q"] + o + ["t.asm"], fs, fault=(4, 0))
    z = srv.job(["-q", "-h"], {}, fault=(4, 0))
    sizes = max([len(v) for v in r.files.values()] + [0])
    return r.events, z.events, sizes, r.exit


def judge(ctx, n, r, key, what, console=True):
    e, want = base(ctx, n)
    t = r.text()
    kw = dict(source=WK[n][1], opts=" ".join(WK[n][0]))
    if r.sig or r.exit is None or "General Failure" in t:
        return V("dies:" + key, "%s: %s dies: signal %s %s" % (n, what, r.sig, t[:200]), **kw)
    if r.exit == 0:
        got = outs(r)
        if e != 0:
            return V("status:" + key, "%s: %s: status 0 although the assembly alone has errors" % (n, what), **kw)
        for k in want:
            if got.get(k) != want[k]:
                return V("incomplete:" + key, "%s: %s: status 0, but %s is %s" % (n, what, k, "missing" if k not in got else "not complete (%d of %d bytes, or other ones)" % (len(got[k]), len(want[k]))), **kw)
    elif console and not t.strip() and not any(k.lower().endswith(".err") for k in r.files):
        return V("silent:" + key, "%s: %s: status %d without a message" % (n, what, r.exit), **kw)


def g_fault():
    for n, o, s in WORK:
        ev, z, size, e = count(n)
        for at in range(1 if n == "coff" and T else z + 1, ev + 1):
            for kind in (1, 2):
                yield n, kind, at


def j_fault(ctx, case):
    n, kind, at = case
    r = run(ctx, n, (kind, at))
    c = CLS.get(r.fired, "?")
    ctx.outcome(n, c, r.exit, kind)
    return judge(ctx, n, r, "%s:%s" % (c, n), "operation %d (%s)%s fails" % (at, c, "" if kind == 1 else " and all later ones"))


def g_full():
    for n, o, s in WORK:
        ev, z, size, e = count(n)
        for k in (range(0, size + 1) if T else list(range(0, min(size, 1500))) + list(range(1500, size - 200, 16)) + list(range(max(size - 200, 1500), size + 2))):
            yield n, k


def j_full(ctx, case):
    n, k = case
    r = run(ctx, n, (3, k))
    ctx.outcome("full", n, r.exit)
    return judge(ctx, n, r, "full:%s" % n, "files can't grow beyond %d bytes" % k, console=False)


def g_tab():
    ev, z, size, e = count("bin")
    for at in range(1, z + 1):
        yield "bin", 1, at


_c = Ctx(ck.exes)
COUNT = dict((n, count1(_c.srv("fault"), n)) for n, o, s in WORK)
_c.close()
FAM = (("one operation fails", g_fault, j_fault), ("disk full at every size", g_full, j_full)) + (() if not T else (("the instruction table", g_tab, j_fault),))
for n, g, j in FAM:
    if os.environ.get("C21FAM", n) == n:
        ck.explore(n, g, j, limit=400)
ck.finish("with a failed operation status 0 means complete output files", validated=ck.n["executions"])

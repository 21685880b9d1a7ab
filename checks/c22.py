"""C22 diagnostics: every kind of erroneous statement, in every nesting of main file, include, macro, repeat block and conditional, behind every
kind of neutral text; what is reported must be exactly the error, at the line and along the chain the builder of the source put it."""
import itertools, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from vlib import *

ck = Check("C22", variants=("plain",))
T = ck.thorough

# (statement, error number, index of the erroneous line, 1: found when addresses are known, so without a chain)
ERR = [
    ('mov eax, bl', "A2048", 0, 0), ('mov eax', "A2049", 0, 0), ('mov eax, ebx, ecx', "A2210", 0, 0), ('mov 5, eax', "A2048", 0, 0),
    ('mov al, 300', "A2048", 0, 0), ('add eax, [ebx*3]', "A2036", 0, 0), ('mov eax, [ebx+ecx+edx]', "A2034", 0, 0),
    ('xyzzy eax', "A2210", 0, 0), ('xyzzy', "A2210", 0, 0), ('mov eax, )', "A2210", 0, 0), ('mov eax, (1', "A2228", 0, 0),
    ("db 'abc", "A2167", 0, 0), ('db 256', "A2173", 0, 0), ('dw 65536+5', "A2173", 0, 0), ('db', "A2210", 0, 0),
    ('db 1,,2', "A2210", 0, 0), ('dd 1 dup (', "A2045", 0, 0), ('dd 1 dup 2', "A2232", 0, 0), ('mov eax, 1 +', "A2210", 0, 0),
    ('mov eax, 5/0', "A2168", 0, 0), ('k1 equ', "A2210", 0, 0), ('q1 = 5/0', "A2168", 0, 0), ('foo bar baz', "A2210", 0, 0),
    ('mov eax, undefd', "A2102", 0, 1), ('jmp undefd', "A2102", 0, 1), ('dd undefd', "A2102", 0, 1), ('call', "A2049", 0, 0),
    ('push al', "A2049", 0, 0), ('lea eax, ebx', "A2049", 0, 0), ('int 300', "A2049", 0, 0), ('shl eax, edx', "A2049", 0, 0),
    ('movzx eax, ebx', "A2059", 0, 0), ('imul al, bl', "A2049", 0, 0), ('xchg eax, 5', "A2049", 0, 0), ('retn 70000', "A2049", 0, 0),
    ('jecxz farl', "A2053", 0, 1), ('jmp short farl', "A2053", 0, 1), ('loop farl', "A2053", 0, 1), ('inc', "A2049", 0, 0),
    ('mov eax, sizeof nosuch', "A2102", 0, 1), ('mov eax, type', "A2210", 0, 0), ('mov eax, [eax].nofld', "A2102", 0, 1),
    ('invoke undefd', "A2160", 0, 0), ('mov eax, offset', "A2210", 0, 0), ('assume eax:nothingatall', "A2102", 0, 0),
    ('align 3', "A2129", 0, 0), ('even 3', "A2210", 0, 0), ('.err', "A2114", 0, 1), ('.err <text>', "A2114", 0, 1),
    ('.errnz 1', "A2115", 0, 1), ('.erre 0', "A2116", 0, 1), ('.errnb <x>', "A2120", 0, 1), ('.errb <>', "A2119", 0, 1),
    ('.erridn <a>,<a>', "A2122", 0, 1), ('.errdif <a>,<b>', "A2121", 0, 1), ('.errdef farl', "A2117", 0, 1),
    ('.errndef nosuch', "A2118", 0, 1), ('if 1 +\nendif', "A2210", 0, 0), ('nosuch endp', "A2142", 0, 0), ('nosuch ends', "A2080", 0, 0),
    ('include nosuch.inc', "A2106", 0, 0), ('incbin <nosuch.bin>', "A2106", 0, 0), ('.until eax', "A2247", 0, 0),
    ('.endif', "A2247", 0, 0), ('.else', "A2247", 0, 0), ('.endw', "A2247", 0, 0), ('.break', "A2247", 0, 0),
    ('.continue', "A2247", 0, 0), ('.if eax ==\n.endif', "A2200", 0, 0), ('nop\n.if (eax\n.endif', "A2200", 1, 0),
    ('x1 label', "A2086", 0, 0), ('x2 label nosuch', "A2102", 0, 0), ('eax equ 5', "A2210", 0, 0), ('eax: nop', "A2210", 0, 0),
    ('lab dd 1\nlab dd 2', "A2056", 1, 0), ('q2 equ 1\nq2 equ 2', "A2143", 1, 0), ('farm: nop\nfarm: nop', "A2056", 1, 0),
    ('v1 nosuchtype 5', "A2210", 0, 0), ('v2 st0 <1,2,3>', "A2154", 0, 0), ('v3 st0 5', "A2231", 0, 0),
    ('mov eax, st0.nofld', "A2063", 0, 0), ('mov eax, width zz', "A2230", 0, 0), ('.model nosuch', "A2210", 0, 0),
    ('segment', "A2210", 0, 0), ('proto', "A2210", 0, 0), ('p1 proto :nosuch', "A2102", 0, 0), ('p3 typedef nosuch', "A2102", 0, 0),
    ('extern', "A2210", 0, 0), ('extern e1', "A2084", 0, 0), ('extern e1:nosuch', "A2102", 0, 0), ('public eax', "A2210", 0, 0),
    ('comm c1:nosuch', "A2102", 0, 0), ('externdef e2', "A2084", 0, 0), ('option nosuch', "A2210", 0, 0),
    ('option casemap:nosuch', "A2210", 0, 0), ('.radix 99', "A2182", 0, 0), ('x4 substr <abc>,9', "A2207", 0, 0),
    ('x6 sizestr', "A2144", 0, 0), ('x7 textequ 5', "A2144", 0, 0), ('db high 5 5', "A2151", 0, 0), ('dd 0ffffffffffh', "A2173", 0, 0),
    ('db 12a', "A2218", 0, 0), ("mov eax, 'abcde'", "A2237", 0, 0), ('jmp @F', "A2102", 0, 1), ('inc [eax]', "A2183", 0, 0),
    ('mov eax, nosuc2 ptr [eax]', "A2102", 0, 1), ('mov eax, bogus:[ebx]', "A2102", 0, 1), ('rep mov eax, ebx', "A2028", 0, 0),
    ('lock', "A2046", 0, 0), ('lock mov eax, ebx', "A2028", 0, 0), ('addps eax, xmm0', "A2049", 0, 0), ('bswap ax', "A2049", 0, 0),
    ('mac1', "A2221", 0, 0), ('popcontext nosuch', "A2210", 0, 0), ('mov st(9), st', "A2254", 0, 0), ('fadd st(1), st(2)', "A2049", 0, 0),
    ('db 1 and', "A2210", 0, 0), ('dd offset eax', "A2230", 0, 0), ('dd eax', "A2171", 0, 0), ('assume cs', "A2084", 0, 0),
    ('nop 5\n', "A2049", 0, 0), ('mov al, fwd', "A2048", 0, 1), ('db fwd', "A2173", 0, 1),
    ('jmp short @F\ndb 200 dup (0)\n@@:', "A2053", 0, 1), ('nop\nnop\nmov eax, bl', "A2048", 2, 0), ('mov eax, \\\n  bl', "A2048", 1, 0),
    ('.while eax == (\n.endw', "A2210", 0, 0), ('invoke pr1', "A2147", 0, 0), ('invoke pr1, 1, 2', "A2178", 0, 0),
    ('mov al, pr1', "A2048", 0, 0), ('.if eax\nmov eax, bl\n.endif', "A2048", 1, 0), ('.erre fwd - 300', "A2116", 0, 1),
    ('x3 = fwd2 / (fwd2 - 5)', "A2102", 0, 1),
]
HEAD = """.686
.xmm
.model flat, stdcall
pr1 proto :dword
st0 struct
a0 dd ?
b0 dd ?
st0 ends
mac1 macro a:req,b
 mov eax,a
endm
mac2 macro a
 nop
 mov eax,a
endm
.code
"""
TAIL = """
nop
db 200 dup (90h)
farl: nop
fwd equ 300
end
"""
SIMPLE = ["mov eax, bl", "jmp short farl", "mov eax, undefd", "x6 sizestr", "nop\nnop\nmov eax, bl", ".err", "db 256", "if 1 +\nendif", "mac1"]
NOMACRO = {"mov eax, \\\n  bl"}          # macro lines are joined when the macro is stored


class Src:
    """source under construction: lines of the innermost file, where the error is, and the chain so far"""
    def __init__(self, lines, idx):
        self.lines, self.idx, self.head, self.notes, self.files, self.defs, self.n = list(lines), idx, None, [], {}, [], 0

    def pad(self, before, after=()):
        self.lines = list(before) + self.lines + list(after)
        self.idx += len(before)

    def name(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)


def c_if(s):
    s.pad(["if 1"], ["endif"])


def c_else(s):
    s.pad(["if 0", " bogus line (", "elseif 0", "else"], ["endif"])


def c_elseif(s):
    s.pad(["if 0", " if 1", " endif", "elseif 1"], ["else", " bogus", "endif"])


def c_ifdef(s):
    s.pad(["ifndef " + s.name("nd"), "ifidni <a>,<A>"], ["endif", "endif"])


def c_proc(s):
    n = s.name("pq")
    s.pad([n + " proc uses ebx a1:dword, b1:dword", " local v1:dword", " mov eax, a1"], [" ret", n + " endp"])


def c_hif(s):
    s.pad([".if eax == 1 && ebx != 2", " nop", ".elseif ecx"], [".else", " nop", ".endif"])


def c_while(s):
    s.pad([".while eax < 5"], [".endw"])


def c_repeat(s):
    s.pad([".repeat", "nop"], [".until eax == 3"])


def c_switch(s):
    s.pad([".switch eax", ".case 1", " nop", ".break", ".case 2"], [".endswitch"])


def c_seg(s):
    n = s.name("sg")
    s.pad([n + " segment dword public 'CODE'", "assume cs:" + n], [n + " ends", "assume cs:flat"])


def c_inc(s, nl=True, cr=False):
    n = s.name("f") + ".inc"
    s.files[n] = ("\r\n" if cr else "\n").join(s.lines) + ("\n" if nl else "")
    line = s.idx + 1
    s.head = s.head or (n, line)
    s.notes.append("%s(%d): Included by" % (n, line))
    s.lines, s.idx = ["include " + n], 0


def c_incnonl(s):
    s.lines = s.lines[:s.idx + 1 + (s.lines[s.idx:][-1] != s.lines[s.idx]) * (len(s.lines) - s.idx - 1)]
    c_inc(s, nl=False)


def c_inccr(s):
    c_inc(s, cr=True)


def mac(s, call, params, where):
    n = s.name("mc")
    s.notes.append("%s(%d)[%s]: Macro called from" % (n, s.idx + 1, where))
    d = [n + " macro " + params] + s.lines + ["endm"]
    s.lines, s.idx = [n + " " + call], 0
    return d


def c_mac(s):
    s.defs += mac(s, "", "", "t.asm")


def c_macarg(s):
    s.pad([" local z1", " nop ; text", "", "z1: mov ecx, ma2"], ["exitm", "bogus ("])
    s.idx -= 1              # the number is the line of the stored body; LOCAL is not stored
    s.defs += mac(s, "<1>, 5", "ma1, ma2:=<3>, ma3:vararg", "t.asm")


def c_maclast(s):
    s.pad([" nop", " if 0", " exitm", " endif", "%ifidn <mb1>,<q>", "bogus", "endif"])
    s.defs += mac(s, "x", "mb1:req", "t.asm")


def c_macinc(s):
    n = s.name("d") + ".inc"
    d = mac(s, "", "", n)
    s.files[n] = "; comment\n\n" + "\n".join(d) + "\n"
    s.defs += ["include " + n]


def c_machere(s):
    """defined right in front of the call"""
    d = mac(s, "", "", "?")
    s.notes[-1] = (len(s.notes) - 1, s.notes[-1])
    s.pad(d)


def loop(s, head, it, pre=(), post=()):
    s.pad(pre, post)
    s.notes.append("MacroLoop(%d): iteration %d: Macro called from" % (s.idx + 1, it))
    s.lines = head + s.lines + ["endm"]
    s.idx = len(s.lines) - 1


def c_rept(s):
    loop(s, ["rept 1"], 1)


def c_rept2(s):
    n = s.name("i")
    loop(s, ["repeat 4"], 3, [n + " = " + n + " + 1", "if " + n + " eq 3"], ["endif"])
    s.pad([n + " = 0"])


def c_for(s):
    y = s.name("y")
    loop(s, ["for " + y + ",<1,2,3>"], 2, ["if " + y + " eq 2"], ["endif"])


def c_forc(s):
    y = s.name("y")
    loop(s, ["forc " + y + ",<abc>"], 3, ["ifidn <" + y + ">,<c>", " nop"], ["endif"])


def c_while_(s):
    n = s.name("i")
    loop(s, ["while " + n + " lt 3"], 1, [n + " = " + n + " + 1", "if " + n + " eq 1"], ["endif"])
    s.pad([n + " = 0"])


FLAT = [c_if, c_else, c_elseif, c_ifdef, c_proc, c_hif, c_while, c_repeat, c_switch, c_seg]
DEEP = [c_inc, c_incnonl, c_inccr, c_mac, c_macarg, c_maclast, c_macinc, c_rept, c_rept2, c_for, c_forc, c_while_]
CTX = FLAT + DEEP
INMAC = {c_mac, c_macarg, c_maclast, c_macinc, c_rept, c_rept2, c_for, c_forc, c_while_}
NEUTRAL = [
    [], [""], ["", "   ", "\t"], ["; comment"], ["comment ^ a", "b", "c ^ d"], ["mov eax, \\", "  ebx"], ["dd 1, ", " 2,", " 3"],
    ["mac1 1"], ["mac2 3", "mac2 4"], ["rept 3", "nop", "endm"], ["for q,<1,2>", "db q", "endm"], ["include n.inc"], ["include n.inc", "include n.inc"],
    [".if eax == 1", "nop", ".elseif ebx && ecx", "nop", ".else", "nop", ".endif"], [".while eax", ".break .if ebx", ".endw"], ["invoke pr1, 5"],
    ["if 0", "bogus (", "else", "nop", "endif"], ["t1 textequ <abc>", "t2 catstr t1, <d>"], ["st7 struct", "a7 dd ?", "b7 db ?", "st7 ends"],
    [".data", "dd 5 dup (?)", ".code"], ["align 16"], ["jmp far2", "nop", "far2:"], ["m7 macro", "nop", "bogus (", "endm"], ["m8 macro x1", "exitm <x1>", "endm", "mov eax, m8(5)"],
    ["assume ebx:ptr st0", "assume ebx:nothing"], ["pushcontext all", "popcontext all"], ["p7 proc c a1:dword", "ret", "p7 endp"], ["db 'a;b', \"c\"  ; d"],
    [".radix 16", ".radix 10t"], ["option casemap:none", "option casemap:all"], [".nolist", "nop", ".list"], ["title x", "page"], ["dd fw5", "fw5 equ 3"], ["rept 2", "include n.inc", "endm"],
    ["mov eax, far3", "db 130 dup (90h)", "far3: nop"], ["movq mm0, mm1"], [".for (eax = 0 : eax < 5 : eax++)", "nop", ".endfor"],
]
NINC = "nop\n; x\nmac1 2\n nop\n"


def finish(s, pre=None, two=None):
    """-> sources, expected header position and chain, for a body whose error is at s.idx"""
    head = s.head
    base = HEAD.rstrip("\n").split("\n")
    at = base.index(".code")
    lines = base[:at] + s.defs + base[at:] + list(pre or []) + s.lines
    line = at + len(s.defs) + len(base) - at + len(pre or []) + s.idx + 1
    notes = list(s.notes)
    if notes:
        notes.append("t.asm(%d): Main line code" % line)
    files = dict(s.files)
    files["n.inc"] = NINC
    return "\n".join(lines) + TAIL, files, head or ("t.asm", line), notes, line


OUT = [("-coff",), ("-elf",), ("-omf",), ("-bin",)]


def run(ctx, src, files, opts=("-coff", "-nomlib")):
    st = dict(files)
    obj = "t.BIN" if "-bin" in opts else "t.o"
    st[obj] = "stale object"
    st["t.err"] = "stale errors\n"
    r = ctx.srv().asm(src, opts, files=st)
    ctx.n["assemblies"] += 1
    return r, obj


def block(head, notes, num, word="Error"):
    return (r"%s\(%d\) : %s %s: [^\n]*\n" % (re.escape(head[0]), head[1], word, num)) + "".join(
        " " + "\t" * 0 + " " * i + re.escape(n) + "\n" for i, n in enumerate(notes))


def judge_err(ctx, r, obj, expect, what):
    """expect: list of regular expressions, the blocks of the console output in order"""
    con = r.text().replace("\r\n", "\n").replace("\t", " ")
    bad = []
    if r.sig or r.exit != 1:
        bad.append("exit status %s signal %s" % (r.exit, r.sig))
    if obj in r.kept or any(f.lower().endswith((".o", ".bin", ".obj")) for f in r.files):
        bad.append("an object file is left")
    want = "".join(expect)
    body = con.lstrip("\n").rstrip("\n") + "\n"
    if not re.fullmatch(want, body):
        bad.append("reported: %r expected: %s" % (body[:600], want[:600]))
    err = r.files.get("t.err", b"").decode("latin1").replace("\r\n", "\n").replace("\t", " ")
    if err.strip("\n") != con.strip("\n"):
        bad.append("the error file differs from the messages: %r" % err[:300])
    return bad


def build_case(k, ctxs, pre=()):
    text, num, idx, p2 = k
    s = Src(text.split("\n"), idx)
    if pre:
        s.pad(pre)
    for c in ctxs:
        c(s)
    return s


def judge(ctx, case):
    part, ki, ctxs, pi, opt = case
    k = ERR[ki]
    s = build_case(k, [CTX[i] for i in ctxs], NEUTRAL[pi])
    src, files, head, notes, line = finish(s)
    r, obj = run(ctx, src, files, opt + ("-nomlib",))
    if k[3]:
        notes = []
    bad = judge_err(ctx, r, obj, [block(head, notes, k[1])], part)
    ctx.outcome(part, ki, ctxs, pi, opt, r.exit)
    ctx.sample({"source": src, "files": {n: c for n, c in files.items() if n != "n.inc"}, "chain": notes, "head": head})
    if bad:
        return V("%s:%s:%s:%s:%s" % (part, k[0].replace("\n", "|"), "/".join(CTX[i].__name__[2:] for i in ctxs), pi, opt[0]), "; ".join(bad), source=src, files=files)


P_CONT = [i for i, p in enumerate(NEUTRAL) if any(x.endswith("\\") for x in p)]
P_SEG = [i for i, p in enumerate(NEUTRAL) if ".code" in p]
P_PROC = [i for i, p in enumerate(NEUTRAL) if "ret" in p]


def skip(k, ctxs, pi=0):
    fl = {CTX[i] for i in ctxs}
    if pi in P_CONT and fl & INMAC or pi in P_SEG and c_seg in fl or pi in P_PROC and c_proc in fl:
        return True
    if k[0] in NOMACRO and any(CTX[i] in INMAC for i in ctxs):
        return True
    fl = [CTX[i] for i in ctxs]
    if fl.count(c_proc) > 1:
        return True
    if k[0] in (".until eax", ".endif", ".else", ".endw", ".break", ".continue") and {c_hif, c_while, c_repeat, c_switch} & set(fl):
        return True         # belongs to the block
    if c_seg in fl and "farl" in k[0]:
        return True         # another segment
    return False


def g_ctx():
    for ki, k in enumerate(ERR):
        for n in (0, 1, 2):
            for ctxs in itertools.product(range(len(CTX)), repeat=n):
                if not skip(k, ctxs):
                    yield "context", ki, ctxs, 0, OUT[0]
        for o in OUT[1:]:
            yield "format", ki, (), 0, o


def g_deep():
    ks = [i for i, k in enumerate(ERR) if k[0] in SIMPLE[:9 if T else 3]]
    deep = [CTX.index(c) for c in DEEP + [c_else, c_proc, c_hif]]
    for ki in ks:
        for ctxs in itertools.product(deep, repeat=3):
            if not skip(ERR[ki], ctxs):
                yield "depth3", ki, ctxs, 0, OUT[0]
        if T:
            for ctxs in itertools.product([CTX.index(c) for c in (c_inc, c_mac, c_macinc, c_rept2, c_for, c_else)], repeat=5):
                yield "depth5", ki, ctxs, 0, OUT[0]


def g_neutral():
    ks = [i for i, k in enumerate(ERR) if k[0] in SIMPLE or T]
    for ki in ks:
        for pi in range(1, len(NEUTRAL)):
            for n in (0, 1, 2) if T and ERR[ki][0] in SIMPLE else (0, 1):
                for ctxs in itertools.product(range(len(CTX)), repeat=n):
                    if not skip(ERR[ki], ctxs, pi):
                        yield "neutral", ki, ctxs, pi, OUT[0]


ck.explore("contexts", g_ctx, judge)
ck.explore("deep", g_deep, judge)
ck.explore("neutral", g_neutral, judge)


# ---- sources without errors, in the same surroundings
GOOD = ["nop", "mov eax, fwd", "jmp far9\ndb 128 dup (0)\nfar9:", "dd fwd", "invoke pr1, 1", "mac1 1", "x3 catstr <a>"]


def j_good(ctx, case):
    g, ctxs, pi, opt = case
    s = Src(GOOD[g].split("\n"), 0)
    s.pad(NEUTRAL[pi])
    for i in ctxs:
        CTX[i](s)
    src, files, head, notes, line = finish(s)
    src = src.replace("bogus", "nop ;")      # the text behind EXITM is never reached, but let nothing depend on that
    r, obj = run(ctx, src, files, opt + ("-nomlib",))
    bad = []
    if r.exit or r.sig:
        bad.append("exit %s signal %s" % (r.exit, r.sig))
    if "t.err" in r.files or "t.err" in r.kept:
        bad.append("an error file is left")
    if not r.files.get(obj):
        bad.append("no object file")
    if r.text().strip():
        bad.append("messages: %r" % r.text()[:300])
    ctx.outcome("good", g, ctxs, pi, opt)
    if bad:
        return V("good:%s:%s:%s:%s" % (g, "/".join(CTX[i].__name__[2:] for i in ctxs), pi, opt[0]), "; ".join(bad), source=src, files=files)


def g_good():
    for g in range(len(GOOD)):
        for opt in OUT:
            for pi in range(len(NEUTRAL)) if g == 0 or T else (0,):
                for n in (0, 1):
                    for ctxs in itertools.product(range(len(CTX)), repeat=n):
                        if opt == ("-bin",) and ("invoke" in GOOD[g] or "invoke" in " ".join(NEUTRAL[pi])):
                            continue        # an external
                        if not skip((GOOD[g],), ctxs, pi):
                            yield g, ctxs, pi, opt


ck.explore("good sources", g_good, j_good)


# ---- two errors in one source: both are reported, in order, unless the second pass is never reached
def j_pair(ctx, case):
    a, b, c1, c2 = case
    out, pos = [], []
    sa, sb = build_case(ERR[a], c1 and [CTX[c1]] or []), build_case(ERR[b], c2 and [CTX[c2]] or [])
    sb.n = 0
    # names of the second part are made different
    def ren(x):
        return re.sub(r"\b(nd|pq|sg|f|mc|d|i|y)(\d)\b", r"\g<1>\g<2>9", x)
    sb.lines = [ren(x) for x in sb.lines]
    sb.defs = [ren(x) for x in sb.defs]
    sb.files = {ren(k): ren(v) for k, v in sb.files.items()}
    sb.notes = [ren(x) for x in sb.notes]
    sb.head = sb.head and (ren(sb.head[0]), sb.head[1])
    base = HEAD.rstrip("\n").split("\n")
    at = base.index(".code")
    lines = base[:at] + sa.defs + sb.defs + base[at:]
    for s in (sa, sb):
        line = len(lines) + s.idx + 1
        pos.append((s.head or ("t.asm", line), s.notes + (["t.asm(%d): Main line code" % line] if s.notes else [])))
        lines += s.lines + ["nop"]
    files = {"n.inc": NINC}
    files.update(sa.files)
    files.update(sb.files)
    ka, kb = ERR[a], ERR[b]
    want = []
    p1 = [k for k in (ka, kb) if not k[3]]
    for k, (h, n) in ((ka, pos[0]), (kb, pos[1])):
        if k[3] and p1:
            continue
        want.append(block(h, [] if k[3] else n, k[1]))
    src = "\n".join(lines) + TAIL
    r, obj = run(ctx, src, files)
    bad = judge_err(ctx, r, obj, want, "pair")
    ctx.outcome("pair", case)
    if bad:
        return V("pair:%s:%s:%s:%s" % (ka[0].replace("\n", "|"), kb[0].replace("\n", "|"), c1, c2), "; ".join(bad), source=src, files=files)


# statements whose error spoils the next one: a repetition of the same definition, and so on
DEFS = re.compile(r"^(lab|q2|farm|x\d|v\d|p\d|e\d|st\d|k1|q1) ")


def g_pair():
    mc, ic = CTX.index(c_mac), CTX.index(c_inc)
    for a in range(len(ERR)):
        for b in range(len(ERR)):
            if ERR[a][0] == ERR[b][0] or ERR[a][0] == "jmp @F" and "@@:" in ERR[b][0]:
                continue
            for c1, c2 in ((0, 0), (mc, ic), (ic, mc), (mc, mc)) if T else ((0, 0), (mc, ic)):
                if not skip(ERR[a], [c1] * bool(c1)) and not skip(ERR[b], [c2] * bool(c2)):
                    yield a, b, c1, c2


ck.explore("pairs of errors", g_pair, j_pair)
# ---- the limit on the number of errors, warnings and their promotion
WARN = [("mov [eax], 5", "A4073", 2), ("mac1 1,2,3", "A4150", 1), ("includelib", "A4088", 2), ("vaddps ymm0, ymm1", "A4285", 2)]


def j_warn(ctx, case):
    kind = case[0]
    ctx.outcome(case)
    if kind == "limit":
        _, n, lim = case
        src = HEAD + "".join("mov eax, bl\nnop\n" for _ in range(n)) + "end\n"
        r, obj = run(ctx, src, {}, ("-coff", "-nomlib") + (("-e=%d" % lim,) if lim else ()))
        lines = [int(x) for x in re.findall(r"t\.asm\((\d+)\) : Error A2048", r.text())]
        first = HEAD.count("\n") + 1
        want = [first + 2 * i for i in range(n)][:(lim or 50) + 1]
        if r.exit != 1 or lines[:len(want) - 1] != want[:-1] or len(lines) not in (len(want), len(want) - 1) or obj in r.kept or obj in r.files:
            return V("limit:%d:%s" % (n, lim), "exit %s, reported lines %s, expected %s; object left: %s" % (r.exit, lines[:60], want[:60], obj in r.kept or obj in r.files), source=src)
        return None
    _, w, ctxs, opts, err = case
    text, num, lvl = WARN[w]
    s = Src(text.split("\n"), 0)
    if err:
        s.lines.append("mov eax, bl")
    for i in ctxs:
        CTX[i](s)
    src, files, head, notes, line = finish(s)
    r, obj = run(ctx, src, files, ("-coff", "-nomlib") + opts)
    con = r.text().replace("\t", " ")
    shown = "-W0" not in opts
    fatal = "-WX" in opts and shown or err
    m = re.search(r"%s\(%d\) : %s%s: [^\n]*\n" % (re.escape(head[0]), head[1], "Error A2" if "-WX" in opts else "Warning A4", num[2:]), con)
    bad = []
    if bool(m) != shown:
        bad.append("warning %s" % ("missing" if shown else "in spite of -W0"))
    if (r.exit != 0) != fatal or r.sig:
        bad.append("exit %s" % r.exit)
    if bool(r.files.get(obj)) == fatal or obj in r.kept:
        bad.append("object file present: %s, kept: %s" % (bool(r.files.get(obj)), obj in r.kept))
    if bad:
        return V("warn:%s:%s:%s:%d" % (text, "/".join(CTX[i].__name__[2:] for i in ctxs), "".join(opts), err), "; ".join(bad) + " " + con[:300], source=src, files=files)


def g_warn():
    for lim in (0, 1, 2, 3, 7, 49, 50, 51, 60):
        for n in (1, 2, 3, 4, 8, 49, 50, 51, 52, 60, 70):
            yield "limit", n, lim
    for w in range(len(WARN)):
        for opts in ((), ("-W0",), ("-W1",), ("-W2",), ("-W3",), ("-W4",), ("-WX",), ("-W0", "-WX"), ("-WX", "-W3")):
            if opts and opts[0][:2] == "-W" and opts[0][2:].isdigit() and 0 < int(opts[0][2]) < WARN[w][2]:
                continue
            for err in (0, 1):
                for n in (0, 1):
                    for ctxs in itertools.product(range(len(CTX)), repeat=n):
                        yield "warn", w, ctxs, opts, err


ck.explore("limits and warnings", g_warn, j_warn)
ck.finish("each error is reported at its file and line with the chain of macros, loops and includes that leads there, and decides exit status and files")

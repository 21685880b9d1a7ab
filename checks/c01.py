#!/usr/bin/env python3
"""C01  General-purpose, x87, MMX and SSE instructions encode what was written.

Part 1 enumerates, for 16-, 32- and 64-bit code, every mnemonic of the
assembler's instruction table with every tuple of up to three operands taken
from a set with a representative of every operand class (each register file
and size, fixed registers, memory of every size, immediates of every width).
Part 2 takes every form accepted there and varies, one position at a time, the
register over its whole file, the memory operand over every addressing mode
(base, index, scale, displacement widths, segment override, address size) and
the immediate over its boundary values.
Oracle: GNU as encodes the same text, or GNU objdump reads the emitted bytes
back as exactly one instruction that is what was written.  The assembler may
reject a statement; it may not encode something else."""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
from isa import *

NAMES = [x for x in open(os.path.join(VERIF, "data", "legacy.txt")).read().split() if x not in ("pushcontext", "popcontext")]
OPS = {64: "al cl bl r9b ax dx bx eax ecx ebx r10d rax rbx r11 es cs fs cr0 cr8 dr7 st st(3) mm3 xmm0 xmm5 bnd1".split(),
       32: "al cl bl ax dx bx eax ecx ebx es cs fs cr0 cr3 dr7 st st(3) mm3 xmm0 xmm5 bnd1 tr7".split()}
OPS[16] = OPS[32]
BASE = {64: "[rbx+16]", 32: "[ebx+16]", 16: "[bx+16]"}
SZ = ["", "byte ptr ", "word ptr ", "dword ptr ", "fword ptr ", "qword ptr ", "tbyte ptr ", "xmmword ptr "]
IMM = "1 3 18 200 4660 305419896 81985529216486895 -5".split()
FILES = {
    "r8": {64: "al cl dl bl spl bpl sil dil r8b r9b r10b r11b r12b r13b r14b r15b ah ch dh bh".split(), 32: "al cl dl bl ah ch dh bh".split()},
    "r16": {64: "ax cx dx bx sp bp si di r8w r9w r10w r11w r12w r13w r14w r15w".split(), 32: "ax cx dx bx sp bp si di".split()},
    "r32": {64: "eax ecx edx ebx esp ebp esi edi r8d r9d r10d r11d r12d r13d r14d r15d".split(), 32: "eax ecx edx ebx esp ebp esi edi".split()},
    "r64": {64: "rax rcx rdx rbx rsp rbp rsi rdi r8 r9 r10 r11 r12 r13 r14 r15".split(), 32: []},
    "mm": {64: ["mm%d" % i for i in range(8)]}, "xmm": {64: ["xmm%d" % i for i in range(16)], 32: ["xmm%d" % i for i in range(8)]},
    "st": {64: ["st(%d)" % i for i in range(1, 8)]}, "sr": {64: "es cs ss ds fs gs".split()},
    "cr": {64: "cr0 cr2 cr3 cr4 cr8".split(), 32: "cr0 cr2 cr3 cr4".split()}, "dr": {64: "dr0 dr1 dr2 dr3 dr6 dr7".split()},
    "bnd": {64: ["bnd%d" % i for i in range(4)]}, "tr": {64: [], 32: ["tr6", "tr7"]},
}
for f in FILES.values():
    f.setdefault(32, f[64])
    f[16] = f[32]
CLS = {r: c for c, f in FILES.items() for m in (64, 32) for r in f[m]}
CLS["st"] = "st0"
A64 = ["[%s]" % r for r in FILES["r64"][64]] + ["[%s+8]" % r for r in FILES["r64"][64]] + ["[%s+4096]" % r for r in "rax rsp rbp r12 r13 r15".split()] + \
      ["[rbx+127]", "[rbx-128]", "[rbx+128]", "[rbx-129]", "[rbx+2147483647]", "[rbx-2147483648]"] + \
      ["[rax+rcx]", "[rcx+rax*2]", "[rdx+rbx*4]", "[rsp+rbp]", "[rbp+rsi*8]", "[rsi+rdi*2]", "[r8+r9]", "[r9+rax*4]", "[rax+r10*8]", "[r12+r13*2]", "[r13+r12]",
       "[r13+rax+5]", "[rsp+rax*4+300]", "[rbp+r15*8-3]", "[r12+r8*4+128]", "[rax*4+256]", "[r9*8+16]", "[rbp*2+4]",
       "fs:[rax]", "gs:[r8+8]", "es:[rbx]", "cs:[rcx]", "ss:[rbx]", "ds:[rbp]", "ds:[rsp+8]", "ss:[rbp+rcx]",
       "[eax]", "[ecx+8]", "[r8d]", "[esp+4]", "[ebp+300]", "[eax+ecx*4]", "[r9d+r10d*8+16]"]
A32 = ["[%s]" % r for r in FILES["r32"][32]] + ["[%s+8]" % r for r in FILES["r32"][32]] + ["[%s+4096]" % r for r in "eax esp ebp".split()] + \
      ["[ebx+127]", "[ebx-128]", "[ebx+128]", "[ebx-129]", "[ebx+2147483647]", "[ebx-2147483648]", "[eax+ecx]", "[ecx+eax*2]", "[edx+ebx*4]", "[esp+ebp]", "[ebp+esi*8]",
       "[esi+edi*2]", "[esp+eax*4+300]", "[ebp+edi*8-3]", "[eax*4+256]", "[ebp*2+4]", "fs:[eax]", "gs:[ecx+8]", "es:[ebx]", "cs:[ecx]", "ss:[ebx]", "ds:[ebp]", "ss:[ebp+ecx]",
       "ds:[256]", "fs:[0]", "gs:[4096]", "es:[70000]", "[bx]", "[bp]", "[bx+si]", "[bp+di+5]", "[si+300]", "[di-2]", "[bp+si]"]
A16 = ["[bx]", "[bp]", "[si]", "[di]", "[bx+si]", "[bx+di]", "[bp+si]", "[bp+di]"] + ["[%s%s]" % (r, d) for r in "bx bp si di bx+si bp+di".split() for d in ("+8", "+127", "-128", "+128", "-129", "+300", "+32767")] + \
      ["ds:[256]", "es:[bx]", "cs:[si]", "ss:[di]", "ds:[bp]", "ss:[bp+si]", "fs:[bx]", "gs:[4]", "es:[di+5]", "[eax]", "[ecx+8]", "[esp+4]", "[ebp]", "[eax+ecx*4]", "[ebx*2+7]", "[ebp+esi+70000]"]
ADDR = {64: A64, 32: A32, 16: A16}
IVAL = [0, 1, 2, 3, 7, 8, 15, 16, 31, 63, 127, 128, 129, 254, 255, 256, -1, -127, -128, -129, -256, 32767, 32768, 65535, 65536, -32768, -32769,
        2147483647, 2147483648, 4294967295, 4294967296, -2147483648, -2147483649, 9223372036854775807, -9223372036854775808]


def opcls(o):
    o = o.strip()
    if o in CLS:
        return CLS[o]
    if "[" in o:
        return "m" + {"": "", "byte": "8", "word": "16", "dword": "32", "fword": "48", "qword": "64", "tbyte": "80", "xmmword": "128"}[o.split(" ptr")[0] if " ptr" in o else ""]
    return "i"


def form(s):
    mn, _, rest = s.partition(" ")
    o = [opcls(x) for x in rest.split(",")] if rest else []
    f = mn + ":" + ",".join(o)
    if any(x == "i" and not -(1 << 31) <= int(v) < 1 << 31 for x, v in zip(o, rest.split(","))):
        f += ":big"           # an immediate that is not a signed 32-bit value
    if len(set(re.findall(r"(\w+) ptr", s))) > 1:
        f += ":conflict"
    return f


def stm(mode, n, wide):
    P1 = OPS[mode] + [s + BASE[mode] for s in SZ] + IMM
    mem = [s + BASE[mode] for s in SZ]
    r3 = [x for x in OPS[mode] if x in "al bx eax ecx ebx rbx mm3 xmm0 xmm5".split()]
    yield n
    for a in P1:
        yield n + " " + a
    for a in P1:
        if a in IMM and n not in ("out", "enter", "push", "int", "ret"):
            continue
        for b in P1:
            yield n + " " + a + ", " + b
    for a in r3 + mem:
        for b in r3 + mem:
            if a[-1] == "]" and b[-1] == "]":
                continue
            for c in IMM[:3] + ["cl", "xmm0", "-5", "200", "4660", "305419896", "ebx", "xmm5"]:
                yield "%s %s, %s, %s" % (n, a, b, c)
    for c in IMM[:3]:
        for d in IMM[:2]:
            yield "%s xmm5, xmm0, %s, %s" % (n, c, d)
            yield "%s xmm5, %s, %s" % (n, c, d)


def sweep(mode, s):
    """one-position variations of an accepted statement"""
    mn, _, rest = s.partition(" ")
    ops = [x.strip() for x in rest.split(",")] if rest else []
    for k, o in enumerate(ops):
        if "[" in o:
            pre = o.split("[")[0]
            alts = [pre + a for a in ADDR[mode]]
        elif o in CLS and CLS[o] != "st0":
            alts = FILES[CLS[o]][mode]
        elif o in CLS:
            continue
        else:
            alts = [str(v) for v in IVAL]
        for a in alts:
            t = list(ops)
            t[k] = a
            yield mn + " " + ", ".join(t)
    if len(ops) >= 2 and all(o in CLS for o in ops[:2]) and "st" not in ops:
        f, g = FILES[CLS[ops[0]]][mode], FILES[CLS[ops[1]]][mode]
        for i in range(len(f)):
            for d in (0, 1, len(g) - 1):
                yield mn + " " + ", ".join([f[i], g[(i + d) % len(g)]] + ops[2:])
    if len(ops) >= 2 and sum("[" in o for o in ops[:2]) == 1 and any(o in CLS for o in ops[:2]):
        r = [k for k in (0, 1) if ops[k] in CLS]
        if r:
            f = FILES.get(CLS[ops[r[0]]])
            m = 1 - r[0]
            pre = ops[m].split("[")[0]
            for a in (f or {mode: []})[mode][-4:]:
                for ad in ADDR[mode][::5]:
                    t = list(ops)
                    t[r[0]] = a
                    t[m] = pre + ad
                    yield mn + " " + ", ".join(t)


def run(ctx, mode, stmts, tag):
    """-> (accepted [(stmt, bytes)], violations)"""
    out, acc = [], []
    for ch in chunks(stmts, 2500):
        try:
            ok, bad = uasm(ctx, mode, ch)
        except Crash as e:
            out.append(V("%d:crash:%s" % (mode, form(ch[0]).split(":")[0]), str(e.what), source=e.src[:2000]))
            continue
        ctx.n["accepted"] += len(ok)
        ctx.n["rejected"] += len(bad)
        acc += [(ch[i], ok[i]) for i in ok]
    return acc, out


def evaluate(ctx, case):
    mode, n, wide = case
    acc, out = run(ctx, mode, stm(mode, n, wide), n)
    good, bad = [], {}
    wrong, known = judge(mode, [a for a, _ in acc], [b for _, b in acc])
    for i, (s, b) in enumerate(acc):
        ctx.outcome(mode, s, b)
        if i in wrong:
            bad.setdefault(form(s), (s, wrong[i]))
        else:
            good.append(s)
    for f, (s, w) in bad.items():
        out.append(V("%d:%s" % (mode, f), "%d-bit: %s: %s" % (mode, s, w), statement=s))
    # part 2: one representative per accepted form
    seen, sw = set(), {}
    for s in good:
        f = form(s)
        k = (f, "st(" in s)
        if f in bad or k in seen:
            continue
        seen.add(k)
        for t in sweep(mode, s):
            sw.setdefault(t, f)
    done = set(good)
    lst = [t for t in sw if t not in done]
    acc, o2 = run(ctx, mode, lst, n)
    out += o2
    wrong, _ = judge(mode, [a for a, _ in acc], [b for _, b in acc])
    vb = {}
    for i, (s, b) in enumerate(acc):
        ctx.outcome(mode, s, b)
        if i in wrong:
            vb.setdefault(form(s), (s, wrong[i]))
    for f, (s, w) in vb.items():
        if f not in bad:
            out.append(V("%d:%s" % (mode, f), "%d-bit: %s: %s" % (mode, s, w), statement=s))
    if acc:
        ctx.sample({"mode": mode, "statement": acc[0][0], "bytes": acc[0][1].hex()})
    return out or None


def main():
    ck = Check("C01")
    ck.assume = ["GNU as 2.42 and objdump 2.42 are the independent decoder (they share no code with the assembler under test)",
                 "redundant prefixes that the decoder shows as having no effect (rex.W, data16) are not a different instruction",
                 "a statement may be rejected; C29 decides which must be accepted"]
    for mode in (64, 32, 16):
        ck.explore("%d-bit" % mode, lambda: ((mode, n, ck.thorough) for n in NAMES), evaluate, limit=100000)
    ck.finish("every mnemonic x operand-class tuple of length 0..3, then every register of each file, every addressing mode and boundary "
              "immediate in each position of each accepted form; all three code sizes")


main()
